"""C12: the compiled code has exactly one source location per instruction, and it is that instruction's."""
from typestate import *
from stack import OPCODE, strip
from slices import Defs
from mir import Missing, short
from framework import *
import facts

LOC = 'cordy_sys::Location'


def items(w):
    """kinds of element handed on as one: an instruction together with its location"""
    oc = set(w.adts(OPCODE)); lc = set(w.adts(LOC)); out = {}
    for i, t in enumerate(w.types):
        fs = t['f'] if t['k'] == 'tuple' else [f for _, f in t['v'][0][2]] if t['k'] == 'adt' and t['ak'] == 'struct' and t['v'] and t['d'].startswith('cordy_sys') else ()
        o = [k for k, f in enumerate(fs) if f in oc]; l = [k for k, f in enumerate(fs) if f in lc]
        if len(o) == 1 and len(l) == 1: out[i] = (o[0], l[0])
    return out


class PairQ(TQuery):
    """tag: (instructions appended - locations appended, last value appended without its partner, what was cut off, problem)"""
    max_tags = 200
    GROW = ('push', 'push_within_capacity')
    SAME = ('len', 'is_empty', 'index', 'index_mut', 'get', 'get_mut', 'iter', 'iter_mut', 'deref', 'deref_mut', 'as_slice', 'as_mut_slice', 'capacity', 'reserve', 'last', 'last_mut', 'first', 'clone', 'as_ptr', 'get_unchecked', 'into_iter',
            'drop', 'fmt', 'eq', 'ne', 'borrow', 'as_ref', 'copied', 'cloned', 'contains', 'position')
    def __init__(self, w):
        TQuery.__init__(self); self.w = w
        self.items = items(w)
        if not self.items: raise Missing('instructions with their locations')
        self.vec = {}
        for i, t in enumerate(w.types):
            if t['k'] == 'adt' and t['d'].endswith('vec::Vec') and t['a']:
                s = w.types[t['a'][0]].get('d', '')
                if s.endswith(OPCODE): self.vec[i] = 0
                elif s.endswith(LOC): self.vec[i] = 1
        self.sites = set()
        def touches(x): return any(self.change(x, t) for b in x.blocks if not b.get('c') for t in [b['t']] if t[0] == 'call')
        self.touch = [x for x in w.insts if x.ws and x.body is not None and touches(x)]
        self.rel = {i for i in w.reaching(self.touch) if w.insts[i].ws}

    def table(self, inst, o):
        """0, 1 for the code and the locations; a vector of a function's own is neither"""
        if o[0] == 'k': return None
        t = self.w.place_ty(inst, o[1]); r = self.w.strip_ref(t)
        if r not in self.vec or t == r: return None
        d = self.defs.setdefault(inst.i, None) or Defs(self.w, inst)
        self.defs[inst.i] = d
        back = d.back(o, False)
        # borrowed from a local vector that is made here
        if any(inst.locals[l] in self.vec for l in back if not (1 <= l <= inst.argc and self.w.types[inst.locals[l]]['k'] == 'ref')): return None
        return self.vec[r]
    defs = {}

    def change(self, inst, t):
        if not t[2]: return None
        for y in self.w.callee(t[1]):
            if y.ws or y.n in self.SAME: continue
            k = self.table(inst, t[2][0])
            if k is not None and (self.w.types[y.locals[1]]['k'] == 'ref' and self.w.types[y.locals[1]]['m']): return (k, y.n)
        return None

    def relevant(self, eng, x): return x.i in self.rel
    def descend(self, eng, x, args): return False
    def ret_key(self, v): return None

    def t_call(self, eng, fr, bi, t, x, args, tag, st):
        d, last, cut, bad = tag
        if x.n == 'next' and not x.ws:
            rt = self.w.types[x.locals[0]]; it = rt['a'][0] if rt.get('a') else None
            it = self.w.strip_ref(it) if it is not None else None
            if it in self.items:
                o, l = self.items[it]; n = str(it)
                pair = ('a', None, tuple(sorted([(o, ('sym', 'op', n)), (l, ('sym', 'loc', n))])))
                return [(tag, ('a', 0, ())), (tag, ('a', 1, ((0, pair),)))]
        if x.ws: return None
        c = self.change(fr.inst, t)
        if c is None or x.n != c[1]: return None
        self.sites.add((fr.inst.p, c)); k = c[0]
        if x.n in self.GROW:
            v = strip(args[1]); v = v if v[0] == 'sym' and v[1] in ('op', 'loc') else None
            nd = d + (1 if k == 0 else -1)
            if abs(nd) > 1: return [((max(-1, min(1, nd)), None, cut, bad or 'in %s, several %s are appended without %s' % ((short(fr.inst.p),) + (('instructions', 'their locations') if k == 0 else ('locations', 'their instructions')))), T)]
            if nd == 0:
                # the partner of the one appended before
                other = ('sym', 'op' if v and v[1] == 'loc' else 'loc', v[2]) if v else None
                if other != last: bad = bad or 'in %s, the location appended is not that of the instruction appended' % short(fr.inst.p)
                return [((0, None, cut, bad), T)]
            return [((nd, v, cut, bad), T)]
        if x.n in ('truncate', 'clear'):
            cut = tuple(sorted(set(cut) | {k}))
            return [((d, last, cut if len(cut) < 2 else (), bad), T)]
        return [((d, last, cut, bad or '%s changes the %s by %s' % (short(fr.inst.p), ('code', 'locations')[k], x.n)), T)]


def origin(w, x, o, seen=(), callers=None):
    """what an index is: {'ip'|'ret'|'pc'|'ip-1'|'ret-1'|'?'}"""
    if o[0] == 'k': return {'?'}
    p = o[1]
    t = x.locals[p[0]]
    fs = [e for e in p[1:] if isinstance(e, int)]
    if fs:
        b = w.place_ty(x, p, len(p) - 1)
        ty = w.types[b] if b is not None else {}
        if ty.get('k') == 'adt' and ty['ak'] == 'struct' and isinstance(p[-1], int):
            n = ty['v'][0][2][p[-1]][0]
            if n == 'ip' and ty['d'].endswith('VirtualMachine'): return {'ip'}
            if n == 'return_ip' and ty['d'].endswith('CallFrame'): return {'ret'}
            if ty['d'].endswith('StackFrame'): return {'ret-1'}
        if ty.get('k') == 'tuple' and p[-1] == 0:
            # the counter of an enumeration of the code
            d = Defs(w, x); back = d.back(['c', [p[0]]])
            for l in back:
                for k, c, bi in d.d.get(l, ()):
                    if k == 'c' and any(y.n == 'next' and 'Enumerate' in w.tstr(w.strip_ref(y.locals[1])) and 'Opcode' in w.tstr(w.strip_ref(y.locals[1])) for y in w.callee(c[1])): return {'pc'}
        return {'?'}
    if (x.i, p[0]) in seen: return set()
    seen = seen + ((x.i, p[0]),)
    if 1 <= p[0] <= x.argc:
        out = set()
        for c, ct in callers(x):
            a = ct[2]
            if len(a) == x.argc: out |= origin(w, c, a[p[0] - 1], seen, callers)
            else: out.add('?')
        return out or {'?'}
    out = set(); d = Defs(w, x)
    for k, s, bi in d.d.get(p[0], ()):
        if k == 'c':
            ys = w.callee(s[1])
            if ys and all(y.ws and y.body is not None for y in ys):
                for y in ys: out |= origin(w, y, ['c', [0]], seen, callers)
            elif ys and all(not y.ws and y.n in ('clone', 'into', 'from') for y in ys) and s[2]: out |= origin(w, x, s[2][0], seen, callers)
            else: out.add('?')
        elif s[0] == 'use': out |= origin(w, x, s[1], seen, callers)
        elif s[0] == 'bin' and s[1].startswith('Sub') and s[3][0] == 'k':
            n = const(w, s[3])
            out |= {('%s-1' % y if n == 1 and y in ('ip', 'ret') else '?') for y in origin(w, x, s[2], seen, callers)}
        elif s[0] == 'cast': out |= origin(w, x, s[2], seen, callers)
        else: out.add('?')
    return out or {'?'}


def const(w, o):
    v = Engine(w, Query()).cval(o[1]) if o[0] == 'k' else T
    return v[1] if v[0] == 'i' else None


def run(ctx):
    w = ctx.world()
    ctx.rule('The compiler and the interpreter are analysed from the entry points that compile, with as the state the difference between the instructions and the locations appended, and the last one appended without its partner: '
             'on every path they are appended in pairs, an instruction taken from a block with the location recorded beside it, neither table is changed otherwise, and both are cut back together. '
             'Every index into the locations must be the position of the instruction being executed (one before the next), that of a call (one before the return), or the position of the instruction being disassembled.')
    q = PairQ(w)
    if not q.touch: raise Missing('functions that append to the code')
    call = {}
    for i in q.rel:
        for c in w.callees(w.insts[i]): call.setdefault(c, set()).add(i)
    roots = [w.insts[i] for i in sorted(q.rel) if not any(c in q.rel and c != i for c in call.get(i, ()))]
    seen = set()
    for x in roots or q.touch:
        e = TEngine(w, q)
        try: s = e.solve(x, [T] * x.argc, (0, None, (), None))
        except TooMany as ex: ctx.violation('%s undecided' % short(x.p), 'whether %s appends instructions and locations in pairs cannot be told: %s' % (short(x.p), ex), x.loc()); continue
        seen |= e.fn_seen
        for (d, last, cut, bad), _ in s:
            if bad: ctx.violation('pairs: %s' % bad, 'code and locations get out of step: ' + bad, x.loc())
            elif d: ctx.violation('pairs', 'after %s there is %s than %s' % ((short(x.p),) + (('one instruction more', 'locations') if d > 0 else ('one location more', 'instructions'))), x.loc())
            elif cut: ctx.violation('cut', 'only the %s cut back in %s' % (('code is', 'locations are')[cut[0]], short(x.p)), x.loc())
    ctx.count(functions=len(seen), roots=len(roots))
    ctx.floor('append sites', len(q.sites), 4)
    ctx.floor('functions analysed', len(seen), 5)
    lookups(ctx, w, q)


def lookups(ctx, w, q):
    sites = {}
    for x in w.insts:
        if not x.ws or x.body is None: continue
        for b in x.blocks:
            t = b['t']
            if t[0] == 'call':
                for y in w.callee(t[1]): sites.setdefault(y.i, []).append((x, t))
    callers = lambda x: sites.get(x.i, ())
    n = 0; done = set()
    for x in w.insts:
        if not x.ws or x.body is None: continue
        for b in x.blocks:
            if b.get('c'): continue
            found = []
            t = b['t']
            if t[0] == 'call' and len(t[2]) >= 2 and t[2][0][0] != 'k':
                r = w.strip_ref(w.place_ty(x, t[2][0][1])); ty = w.types[r]
                el = ty['a'][0] if ty.get('a') else ty.get('e')
                if el is not None and w.types[el].get('d', '').endswith(LOC) and any(y.n in ('get', 'index', 'get_unchecked') for y in w.callee(t[1])): found.append((t[2][1], t[6]))
            for s in b['s']:
                if s[0] != '=': continue
                for p in places(s[2]):
                    for k, e in enumerate(p[1:], 1):
                        if isinstance(e, (list, tuple)) and e and e[0] == 'i':
                            ty = w.types[w.place_ty(x, p, k)]
                            if ty.get('e') is not None and w.types[ty['e']].get('d', '').endswith(LOC): found.append((['c', [e[1]]], s[3] if len(s) > 3 else None))
            for o, line in found:
                n += 1
                bad = origin(w, x, o, (), callers) - {'ip-1', 'ret-1', 'pc'}
                if bad and short(x.p) not in done:
                    done.add(short(x.p))
                    ctx.violation('%s index' % short(x.p), '%s looks up the location of an instruction at %s, which is not the position of the instruction executed, called from or shown' % (short(x.p), ', '.join(sorted({'?': 'a position that cannot be told'}.get(y, y) for y in bad))), x.loc(line) if line else x.loc())
    ctx.floor('locations looked up', n, 1)


def places(r):
    out = []
    if r[0] in ('ref', 'addr'): out.append(r[2])
    for o in r[1:]:
        if isinstance(o, list) and o and o[0] in ('c', 'm') and isinstance(o[1], list): out.append(o[1])
    return out
