"""C19: converting a value to a string terminates whatever the value contains, itself included."""
from typestate import *
from slices import Defs, field_events
from mir import Missing, short
import re

GUARD = 'vm::value::RecursionGuard'
SELF = ('sym', 'val', 'self')
OPEN, SEEN = 'open', 'seen'


def is_self(v):
    while v[0] == 'r': v = v[1]
    return v == SELF


class Str(TQuery):
    """tag: the guards entered and not left, outermost first, as (open | seen)"""
    liveness = True; eager = True; max_tags = 400
    def __init__(self, w, roots, enter, leave, back, kind, kv):
        super().__init__()
        self.w = w; self.roots = roots; self.enter = enter; self.leave = leave; self.back = back; self.kind = kind; self.kv = kv
        self.ev = set(); self.odd = set(); self.sites = set()
    def relevant(self, eng, x): return x.body is not None and x.i in self.back
    def descend(self, eng, x, args): return x.ws and x.body is not None and len(x.blocks) < 20
    def ret_key(self, v): return v[1] if v[0] == 'a' else None
    def model(self, eng, x, args, fr):
        if x.n == 'ty' and x.self_ty and x.self_ty.endswith('ValuePtr') or x.n == 'ty' and x.p.endswith('ValuePtr>::ty'):
            return ('a', self.kv, ()) if args and is_self(args[0]) else T
        if x.n in ('clone', 'borrow', 'deref', 'as_ref') and args and is_self(args[0]): return args[0]
        if re.match(r'is_[a-z_]+$', x.n) and args and is_self(args[0]) and 'ValuePtr' in x.p: return T
        return None
    def t_call(self, eng, fr, bi, t, x, args, tag, st):
        if x.i in self.enter:
            self.sites.add(('enter', fr.inst.i, bi))
            if not (len(args) > 1 and is_self(args[1])): self.odd.add(('enters the guard with something other than the value being converted', fr.inst))
            if len(tag) >= 3: self.odd.add(('enters the guard again without leaving it', fr.inst)); return []
            return [(tag + (SEEN,), ('i', 1)), (tag + (OPEN,), ('i', 0))]
        if x.i in self.leave:
            if not tag: self.odd.add(('leaves the guard without having entered it', fr.inst)); return []
            return [(tag[:-1], T)]
        if x.i in self.roots:
            if args and is_self(args[0]):
                self.ev.add(('same', self.root_of(fr), x.n, fr.inst.i, bi)); return None
            self.ev.add(('part', tag, fr.inst.i, bi)); self.sites.add(('part', fr.inst.i, bi))
            return [(tag, T)]
        if x.i in self.back and x.body is None: self.odd.add(('reaches the conversions through %s, which is not understood' % short(x.p), fr.inst))
        return None
    def root_of(self, fr): return ''


class Fixed:
    """whether the value handed to a conversion is a field that nothing writes after construction"""
    def __init__(self, w, back, roots):
        self.w = w; self.back = back; self.roots = roots; self.memo = {}; self.mut = {}; self.used = set()
    def mutable(self, d):
        if d not in self.mut:
            out = {}
            for x in self.w.insts:
                if x.body is None or not x.ws: continue
                for bi, f, k, _ in field_events(self.w, x, d): out.setdefault(f, (x, bi))
            self.mut[d] = out
        return self.mut[d]
    def operand(self, x, o, depth=0):
        """None if fixed, else a reason"""
        if o[0] == 'k': return None
        return self.place(x, o[1], set(), depth)
    def place(self, x, p, seen, depth):
        w = self.w
        for n in range(len(p) - 1, 0, -1):
            if isinstance(p[n], int):
                b = w.place_ty(x, p, n)
                ty = w.types[b] if b is not None else {'k': '?'}
                if ty['k'] == 'adt' and ty['d'].split('::')[0] in ('cordy_sys', 'cordy') and 'ValuePtr' not in ty['d'] and ty['ak'] != 'enum':
                    m = self.mutable(ty['d'])
                    if p[n] in m: return 'the field %s of %s, which %s changes' % (ty['v'][0][2][p[n]][0], short(ty['d']), short(m[p[n]][0].p))
                    self.used.add('%s.%s' % (short(ty['d']), ty['v'][0][2][p[n]][0])); return None
        return self.local(x, p[0], seen, depth)
    def local(self, x, l, seen, depth):
        if l in seen: return None
        seen.add(l)
        w = self.w
        ds = Defs(w, x).d.get(l, [])
        if 1 <= l <= x.argc:
            if x.i in self.roots or depth > 4: return 'a value of unknown origin'
            n = 0
            for y in w.insts:
                if y.body is None or y.i not in self.back: continue
                for b in y.blocks:
                    t = b['t']
                    if t[0] == 'call' and any(z.i == x.i for z in w.callee(t[1])):
                        n += 1
                        if l - 1 >= len(t[2]): return 'a value of unknown origin'
                        r = self.operand(y, t[2][l - 1], depth + 1)
                        if r: return r
            return None if n else 'a value of unknown origin'
        if not ds: return 'a value of unknown origin'
        for k, d, bi in ds:
            if k == 's':
                if d[0] == 'ref': r = self.place(x, d[2], seen, depth)
                elif d[0] in ('use', 'cast'):
                    o = d[1] if d[0] == 'use' else d[2]
                    r = None if o[0] == 'k' else self.place(x, o[1], seen, depth)
                else: r = 'a value of unknown origin'
            else:
                if d[2] and any(y.n in ('deref', 'borrow', 'as_ref', 'clone', 'get') for y in w.callee(d[1])): r = self.operand2(x, d[2][0], seen, depth)
                else: r = 'what %s returns' % (', '.join(short(y.p) for y in w.callee(d[1])) or 'a call')
            if r: return r
        return None
    def operand2(self, x, o, seen, depth): return None if o[0] == 'k' else self.place(x, o[1], seen, depth)


def guard_ops(ctx, w, gt):
    """the functions over the guard's list: (those answering whether a value is being converted, those forgetting the last one)"""
    ids = set(w.adts(GUARD)); d = w.adt_defs(GUARD)[0]
    enter = {}; leave = {}
    for x in w.insts:
        if x.body is None or not x.ws: continue
        if not any(w.strip_ref(t) in ids for t in x.locals[1:x.argc + 1]): continue
        touches = any(any(isinstance(e, int) and w.place_ty(x, p, n) in ids for n, e in enumerate(p) if n) for p in places(x))
        if not touches: continue
        ret = w.tstr(x.locals[0])
        (enter if ret == 'bool' else leave)[x.i] = x
    if not enter: raise Missing('the function entering the recursion guard')
    if not leave: raise Missing('the function leaving the recursion guard')
    return enter, leave


def places(x):
    for b in x.blocks:
        for s in b['s']:
            if s[0] != '=': continue
            yield s[1]
            yield from rplaces(s[2])
        t = b['t']
        if t[0] == 'call':
            yield t[3]
            for o in t[2]:
                if o[0] != 'k': yield o[1]


def rplaces(r):
    for y in r[1:]:
        if isinstance(y, list) and y:
            if y[0] in ('c', 'm') and len(y) > 1 and isinstance(y[1], list): yield y[1]
            elif isinstance(y[0], int) and not isinstance(y[0], bool): yield y
            elif isinstance(y[0], list):
                for z in y:
                    if isinstance(z, list) and z and z[0] in ('c', 'm'): yield z[1]


TEST = ('contains', 'any', 'is_some', 'is_none')
SEARCH = ('position', 'find', 'rposition')
PASS = ('deref', 'iter', 'as_slice', 'as_ref', 'copied', 'cloned', 'rev', 'into_iter', 'deref_mut', 'as_mut', 'borrow')


class Ops(TQuery):
    """tag: (pushes, pops) so far; what the test saw"""
    liveness = True; max_tags = 100
    def __init__(self, w): super().__init__(); self.w = w; self.bad = set(); self.tests = 0
    def t_call(self, eng, fr, bi, t, x, args, tag, st):
        pu, po, te = tag
        if x.n in ('push', 'push_back'): pu += 1
        elif x.n in ('pop', 'pop_back'): po += 1
        elif x.n in ('contains', 'any', 'position', 'find', 'rposition'):
            te += 1
            if pu: self.bad.add('looks for the value after it has added it')
        elif x.n in ('clear', 'truncate', 'remove', 'swap_remove', 'drain', 'retain', 'insert', 'dedup', 'split_off', 'append', 'take', 'replace', 'swap', 'extend'): self.bad.add('changes the list of values being converted with %s' % x.n)
        else: return None
        if max(pu, po, te) > 2: return []
        v = ('sym', 'tag', 'test') if x.n in ('contains', 'any') else ('sym', 'tag', 'search') if x.n in ('position', 'find', 'rposition') else T
        return [((pu, po, te), v)]
    def model(self, eng, x, args, fr):
        if x.n == 'is_some' and args and eng_strip(args[0]) == ('sym', 'tag', 'search'): return ('sym', 'tag', 'test')
        return None
    def ret_key(self, v): return v if v[0] == 'sym' else v[1] if v[0] in ('a', 'i') else None


def eng_strip(v):
    while v[0] == 'r': v = v[1]
    return v


def run(ctx):
    w = ctx.world('cordy')
    ctx.rule('the functions turning a value into text can only reach themselves again, for a part of a value whose contents can change, between the guard reporting that the value is not being converted already and the guard being left; '
             'parts converted without the guard are fields that nothing in the crate writes after construction; there is one guard, made by the callers of the conversion only; the guard looks for the value before adding it, and adds and drops exactly one')
    gt = w.adts(GUARD)
    if not gt: raise Missing('the recursion guard')
    ids = set(gt)
    vp = set(w.adts('ValuePtr'))
    roots = {}
    for x in w.insts:
        if x.body is None or not x.ws: continue
        a = [w.strip_ref(t) for t in x.locals[1:x.argc + 1]]
        if len(a) >= 2 and a[0] in vp and any(t in ids for t in a[1:]) and 'String' in w.tstr(x.locals[0]) + 'Cow' * 0 or len(a) >= 2 and a[0] in vp and any(t in ids for t in a[1:]) and 'str' in w.tstr(x.locals[0]): roots[x.i] = x
    # the ones started with a fresh guard, and as many others as it takes to cut every recursion
    cand = {i: x for i, x in roots.items() if i in w.reach([w.insts[j] for j in w.callees(x)])}
    start = [x for x in w.insts if x.body is not None and x.ws and any(w.insts[j].body is not None and j in cand for j in w.callees(x)) and not any(w.strip_ref(t) in ids for t in x.locals[1:x.argc + 1])
             and any(t in ids for t in x.locals)]
    roots = {j: w.insts[j] for x in start for j in w.callees(x) if j in cand}
    while True:
        rest = [i for i in w.reach(list(cand.values())) if i not in roots and w.insts[i].body is not None and w.insts[i].ws]
        cyc = [i for i in rest if i in w.reach([j for j in w.callees(w.insts[i]) if j not in roots], stop=lambda y: y.i in roots)]
        add = [i for i in cyc if i in cand]
        if not add: break
        roots[min(add)] = w.insts[min(add)]
    for i in cyc:
        if i in w.reaching(list(cand.values())): ctx.violation('recursion: %s' % short(w.insts[i].p), '%s calls itself for parts of values without going through the conversions' % short(w.insts[i].p), w.insts[i].loc())
    enter, leave = guard_ops(ctx, w, ids)
    pub = [x for n in ('to_str', 'to_repr_str') for x in w.fns(name=n) if x.argc == 1 and w.strip_ref(x.locals[1]) in vp]
    if len(pub) < 2: raise Missing('to_str and to_repr_str')
    ctx.floor('conversion functions', len(roots), 2)
    back = w.reaching(list(roots.values())); fwd = w.reach(list(roots.values()))
    # 1. one guard
    made = [x for x in w.insts if x.body is not None and x.ws and any(s[0] == '=' and s[2][0] == 'agg' and isinstance(s[2][1], list) and s[2][1][0] == 'adt' and s[2][1][1] in ids for b in x.blocks for s in b['s'])]
    ctx.floor('constructors of the guard', len(made), 1)
    for x in made:
        if x.i in fwd:
            p = w.path_to([r for r in roots.values()], [x]) or []
            ctx.violation('fresh guard: %s' % ' > '.join(short(y.p) for y in p[-3:-1]), 'the conversion of a value starts over with a fresh guard: %s; a value that contains itself is followed for ever' % ' -> '.join(short(y.p) for y in p), p[-2].loc() if len(p) > 1 else x.loc())
    # text is also made of a value by its formatting traits: they may not be used on values inside of the conversion
    fmts = {x.i for x in w.insts if x.body is not None and x.n == 'fmt' and x.trait and w.strip_ref(x.locals[1]) in vp}
    n = 0
    for i in fwd:
        x = w.insts[i]
        if x.body is None: continue
        for b in x.blocks:
            t = b['t']
            if t[0] != 'call': continue
            for y in w.callee(t[1]):
                n += 1
                if y.n in ('new_display', 'new_debug', 'to_string') and t[2] and t[2][0][0] != 'k':
                    ty = w.strip_ref(w.place_ty(x, t[2][0][1]))
                    if ty is not None and w.ty_contains(ty, lambda q: q['d'].endswith('::ValuePtr')):
                        ctx.violation('formats a value: %s' % short(x.p), '%s formats a value through its %s, which does not know the values being converted' % (short(x.p), y.n), x.loc())
    ctx.count(calls_examined=n)
    # 2. every kind
    tys = [x for x in w.fns(name='ty') if w.strip_ref(x.locals[1]) in vp and w.types[x.locals[0]]['k'] == 'adt']
    if not tys: raise Missing('the kind of a value')
    kinds = {v[0]: (i, int(v[1]), v[2]) for i, v in enumerate(w.types[tys[0].locals[0]]['v'])}
    fixed = Fixed(w, back, set(roots))
    guarded = {}; plain = set(); nsites = set(); ntags = 0
    for name, (kv, _, _) in sorted(kinds.items()):
        if name in ('Error', 'Never'): continue
        for r in roots.values():
            q = Str(w, set(roots), set(enter), set(leave), back, name, kv)
            eng = TEngine(w, q, max_steps=400000)
            try: out = eng.solve(r, [('r', SELF)] + [T] * (r.argc - 1), ())
            except TooMany as e: ctx.violation('too many: %s %s' % (r.n, name), 'cannot decide %s for %s: %s' % (r.n, name, e), r.loc()); continue
            ntags += len(out); nsites |= q.sites
            for m, x in q.odd: ctx.violation('guard: %s: %s: %s' % (name, short(x.p), m), 'converting a %s, %s %s' % (name, short(x.p), m), x.loc())
            if not out: ctx.violation('no end: %s %s' % (r.n, name), '%s never returns for a %s: it only hands the same value on to itself' % (r.n, name), r.loc())
            for tag, _ in out:
                if tag: ctx.violation('unbalanced: %s %s' % (r.n, name), '%s returns for a %s without leaving the guard it entered: the same value is taken for one containing itself where it appears next' % (r.n, name), r.loc())
            for e in q.ev:
                if e[0] != 'part': continue
                _, tag, fi, bi = e
                x = w.insts[fi]; t = x.blocks[bi]['t']
                if SEEN in tag:
                    ctx.violation('seen: %s: %s' % (name, short(x.p)), 'converting a %s that is already being converted, %s goes on to its parts' % (name, short(x.p)), x.loc()); continue
                if OPEN in tag: guarded.setdefault(name, set()).add(fi); continue
                why = fixed.operand(x, t[2][0])
                if why: ctx.violation('unguarded: %s: %s' % (name, short(x.p)), 'converting a %s, %s converts %s without the guard: a %s that contains itself is followed for ever' % (name, short(x.p), why, name), x.loc())
                else: plain.add((name, short(x.p)))
    # 3. the guard itself
    for x in enter.values():
        q = Ops(w); eng = TEngine(w, q, max_steps=200000)
        out = eng.solve(x, [], (0, 0, 0))
        for m in q.bad: ctx.violation('enter: %s' % m, '%s %s' % (short(x.p), m), x.loc())
        if not out: ctx.violation('enter: no outcome', '%s never returns' % short(x.p), x.loc())
        # written as a loop: over the whole list (see below), comparing each
        loop = any(b['t'][0] == 'call' and any(y.n == 'next' for y in w.callee(b['t'][1])) for b in x.blocks) and any(s_[0] == '=' and s_[2][0] == 'bin' and s_[2][1] in ('Eq', 'Ne') for b in x.blocks for s_ in b['s'])
        answers = set()
        for (tag, rk), v in out.items():
            if (loop or tag[2]) and all(c[0] == 'i' for c in (v[1] if v[0] == 'u' else [v])): answers |= {c[1] for c in (v[1] if v[0] == 'u' else [v])}; v = ('sym', 'tag', 'test')
            elif loop and tag[2] == 0 and v == T: answers = {0, 1}; v = ('sym', 'tag', 'test')
            if tag[0] != 1 or tag[1]: ctx.violation('enter: adds %d drops %d' % tag[:2], '%s has a path which adds %d and drops %d values: leaving the guard drops one' % (short(x.p), tag[0], tag[1]), x.loc())
            if v != ('sym', 'tag', 'test'): ctx.violation('enter: answer', '%s answers with something other than whether the value is in the whole list of those being converted' % short(x.p), x.loc())
        if answers and answers != {0, 1}: ctx.violation('enter: always %s' % sorted(answers), '%s always gives the same answer' % short(x.p), x.loc())
        calls = [(t, y) for b in x.blocks if not b.get('c') for t in [b['t']] if t[0] == 'call' for y in w.callee(t[1])]
        df = Defs(w, x)
        for t, y in calls:
            if y.n in ('contains', 'push', 'push_back'):
                if not any(w.strip_ref(x.locals[l]) in vp for l in df.params(t[2][1])): ctx.violation('enter: %s of something else' % y.n, '%s does not %s the identity of the value it is given' % (short(x.p), 'look for' if y.n == 'contains' else 'add'), x.loc())
            if y.n in ('skip', 'take', 'last', 'first', 'get', 'filter', 'step_by', 'chunks', 'split_at', 'skip_while', 'take_while', 'index', 'nth'): ctx.violation('enter: part of the list', '%s looks for the value in a part of the list only (%s)' % (short(x.p), y.n), x.loc())
    for x in leave.values():
        q = Ops(w); eng = TEngine(w, q, max_steps=200000)
        out = eng.solve(x, [], (0, 0, 0))
        for m in q.bad: ctx.violation('leave: %s' % m, '%s %s' % (short(x.p), m), x.loc())
        for (tag, _), v in out.items():
            if tag[0] or tag[1] != 1: ctx.violation('leave: adds %d drops %d' % tag[:2], '%s has a path which adds %d and drops %d values: entering the guard adds one' % (short(x.p), tag[0], tag[1]), x.loc())
    ctx.floor('kinds of values', len(kinds), 20)
    ctx.floor('kinds converted part by part under the guard', len(guarded), 6)
    ctx.floor('kinds whose parts are fixed', len({k for k, _ in plain}), 2)
    ctx.floor('conversion sites', len([s for s in nsites if s[0] == 'part']), 6)
    ctx.count(outcomes=ntags, functions_in_recursion=len(back & fwd))
    for k in sorted(guarded): ctx.sample('%s: parts converted in %s, under the guard' % (k, ', '.join(sorted(short(w.insts[i].p) for i in guarded[k]))))
    for k, f in sorted(plain): ctx.sample('%s: %s converts a fixed field (%s)' % (k, f, ', '.join(sorted(fixed.used))))
    ctx.assumptions.append('reference cycles only arise by writing into a value after it was built: fields that are never written hold values older than their owner')
