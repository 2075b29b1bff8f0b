"""C18: whatever equality considers equal is hashed alike."""
from absint import *
from mir import Missing, short
from slices import Defs, field_of
from guards import operands

BITS = 'its bits'
UNORDERED = ('IndexMap', 'IndexSet', 'HashMap', 'HashSet')
SELF = ('sym', 'tag', 'self'); OTHER = ('sym', 'tag', 'other')
COMM = {'wrapping_add', 'Add', 'AddWithOverflow', 'BitXor', 'BitAnd', 'BitOr', 'wrapping_mul', 'bitxor', 'add'}


class Q(Query):
    """self has type a, other type b"""
    def __init__(self, w, a, b, integral=False):
        super().__init__()
        self.w = w; self.a = a; self.b = b; self.integral = integral; self.cmp = set(); self.feeds = []; self.order = set()

    def descend(self, eng, x, args):
        return x.ws and x.n not in ('ty', 'hash', 'eq', 'ne', 'cmp', 'partial_cmp') and not x.n.startswith('as_')

    def model(self, eng, x, args, fr):
        if x.n == 'ty' and x.ws and args:
            return ('a', self.a, ()) if args[0] in (SELF, ('r', SELF)) else ('a', self.b, ()) if args[0] in (OTHER, ('r', OTHER)) else None
        if x.n in ('eq', 'ne') and x.trait and x.trait.endswith('cmp::PartialEq') and args and len(args) == 2:
            u = [v[1] if v[0] == 'r' else v for v in args]
            u = [v[1] if v[0] == 'r' else v for v in u]
            if all(v[0] == 'a' and v[1] is not None and not v[2] for v in u): return ('i', int((u[0][1] == u[1][1]) == (x.n == 'eq')))
            if self.integral and ('sym', 'tag', 'denominator') in u:
                k = [v for v in u if v[0] == 'sym' and isinstance(v[2], tuple) and v[2][0] == 'int']
                if k: return ('i', int((k[0][2][1] == 1) == (x.n == 'eq')))
            if u == [SELF, OTHER] or u == [OTHER, SELF]: return ('sym', 'eqbits') if x.n == 'eq' else None
        if self.integral:
            if x.n == 'denom': return ('sym', 'tag', 'denominator')
            if x.n == 'is_integer': return ('i', 1)
            if x.n == 'from' and not x.ws and args and args[0][0] == 'i': return ('sym', 'tag', ('int', args[0][1]))
            if x.n in ('to_i64', 'to_u64') and not x.ws: return ('a', 1, ((0, ('sym', 'tag', 'integer')),))
            if x.n == 'to_value' and x.ws and args and args[0] == ('sym', 'tag', 'integer'): return ('sym', 'tag', 'integer value')
        return None

    def on_call(self, eng, fr, bi, t, targets, args):
        for x in targets:
            if x.body is None and not x.s: pass
            if x.n in ('eq', 'ne') and x.trait and x.trait.endswith('cmp::PartialEq'):
                k = self.kind(fr, t)
                if k is not None and not k.endswith('vm::Type') and not k.startswith('rug::') or k and 'Rational' in k: self.cmp.add(k)
            if x.n == 'hash' and x.trait and x.trait.endswith('hash::Hash'):
                a = args[0][1] if args[0][0] == 'r' else args[0]
                bits = self.kind(fr, t) in ('usize', 'u64', 'i64', 'isize', 'u32')
                self.feeds.append((BITS if bits else self.kind(fr, t), args[0], t[6]))
            elif x.n.startswith('write') and x.trait and x.trait.endswith('hash::Hasher'): self.feeds.append((BITS, args[1] if len(args) > 1 else T, t[6]))

    def kind(self, fr, t):
        o = t[2][0]
        if o[0] == 'k': return None
        ty = self.w.place_ty(fr.inst, o[1])
        while self.w.types[ty]['k'] in ('ref', 'ptr'): ty = self.w.types[ty]['e']
        return self.w.tstr(ty)


class BitEngine(Engine):
    def rvalue(self, inst, st, r, fr):
        if r[0] == 'bin' and r[1] in ('Eq', 'Ne'):
            a, b = self.operand(inst, st, r[2]), self.operand(inst, st, r[3])
            if {a, b} == {SELF, OTHER}:
                self.q.cmp.add(BITS)
                if self.q.a != self.q.b: return ('i', 0 if r[1] == 'Eq' else 1)      # the bits of values of different types differ
        return Engine.rvalue(self, inst, st, r, fr)


def run(ctx):
    w = ctx.world()
    ctx.rule('For every pair of value types, constant propagation with the two types fixed gives which comparisons decide equality and what is fed to the hasher. Reported: a type whose hash depends on something its equality does not compare (its address, a field that equality ignores, the order of a table compared without regard to order), a type whose equality is decided by another representation than the one hashed, and two types that can be equal whose hashes are not routed through the same representation.')
    ty = w.variants('cordy_sys::vm::Type'); names = {v[0]: k for k, v in ty.items()}
    eqs = [x for x in w.insts if x.ws and x.body is not None and x.p.endswith('ValuePtr as std::cmp::PartialEq>::eq')]
    hs = [x for x in w.insts if x.ws and x.body is not None and x.n == 'hash' and 'vm::ValuePtr as std::hash::Hash' in x.p]
    if not eqs or not hs: raise Missing('equality and hash of ValuePtr')
    eq = eqs[0]
    def compare(a, b):
        q = Q(w, a, b); v = BitEngine(w, q).call(eq, [SELF, OTHER])[0]
        return q, v
    pairs = 0; cross = set()
    for a in names:
        for b in names:
            if a == b: continue
            q, v = compare(a, b); pairs += 1
            if v != ('i', 0): cross.add((a, b))
    for a, b in sorted(cross):
        if (b, a) not in cross: ctx.violation('symmetry %s %s' % (names[a], names[b]), 'a %s can equal a %s but not the other way around' % (names[a], names[b]), eq.loc())
    for h in hs:
        kinds = {}
        for a in names:
            q, v = compare(a, a)
            hq = Q(w, a, a); eng = BitEngine(w, hq); eng.call(h, [SELF, T])
            feeds = {f[0] for f in hq.feeds}
            kinds[a] = (q.cmp, feeds)
            if v == ('i', 0): continue
            if not q.cmp: ctx.violation('compare %s' % names[a], 'what decides equality of two %s values is not recognised' % names[a], eq.loc())
            for f in sorted(feeds, key=str):
                if q.cmp == {BITS}: continue
                if f == BITS and not any(names[a] in ('Rational',) for _ in [0]):
                    ctx.violation('identity %s' % names[a], 'the hash of a %s depends on its bits or address, but its equality compares %s' % (names[a], ', '.join(sorted(q.cmp))), h.loc())
                elif f not in q.cmp and f != BITS and not (f.endswith('vm::ValuePtr') and any(x[0] == a for x in cross)) and norm(f) not in {norm(c) for c in q.cmp}:
                    ctx.violation('representation %s' % names[a], 'the hash of a %s is that of %s, but its equality compares %s' % (names[a], f, ', '.join(sorted(q.cmp))), h.loc())
        for a, b in sorted(cross):
            if names[a] != 'Int':
                if names[b] != 'Int': ctx.violation('cross %s %s' % (names[a], names[b]), 'a %s can equal a %s; nothing makes their hashes agree' % (names[a], names[b]), eq.loc())
                continue
            # b can equal an integer: when it is one, only that integer may be hashed
            hq = Q(w, b, b, True); BitEngine(w, hq).call(h, [SELF, T])
            bad = [f for f in hq.feeds if not (f[0] and f[0].endswith('vm::ValuePtr') and strip(f[1]) == ('sym', 'tag', 'integer value'))]
            if bad or not hq.feeds: ctx.violation('cross %s %s' % (names[a], names[b]), 'a %s can equal an integer, but a whole %s is hashed as %s rather than as the integer' % (names[b], names[b], ', '.join(sorted({str(f[0]) for f in bad})) or 'nothing'), h.loc())
    ctx.floor('type_pairs', pairs, 500)
    ctx.floor('types_hashed', sum(1 for a in kinds if kinds[a][1]), 20)
    ctx.count(types_equal_across=len(cross))
    fields(ctx, w)


def strip(v):
    while v[0] == 'r': v = v[1]
    return v


def norm(s): return s.split('::')[-1].rstrip('>')


def adt_of(w, t):
    while w.types[t]['k'] in ('ref', 'ptr'): t = w.types[t]['e']
    return w.types[t] if w.types[t]['k'] == 'adt' else None


def fields(ctx, w):
    """per workspace type: fields hashed are fields compared; unordered tables are hashed without regard to order"""
    H = {}; Eq = {}
    for x in w.insts:
        if not x.ws or x.body is None or not x.trait or x.argc < 1: continue
        a = adt_of(w, x.locals[1])
        if a is None: continue
        if x.n == 'hash' and x.trait.endswith('hash::Hash'): H.setdefault(a['d'] if not a['d'].endswith('Prefix') else a['s'], []).append(x)
        if x.n == 'eq' and x.trait.endswith('cmp::PartialEq'): Eq.setdefault(a['d'] if not a['d'].endswith('Prefix') else a['s'], []).append(x)
    n = 0
    touch = {}
    for table, out in ((H, 'h'), (Eq, 'e')):
        for d, xs in table.items():
            for x in xs:
                for D, fs, whole in touched(w, x): touch.setdefault((out, D), set()).update(fs | ({'*'} if whole else set()))
    for (k, D), fs in sorted(touch.items(), key=str):
        if k != 'h': continue
        ef = touch.get(('e', D))
        if ef is None: continue
        n += 1
        nf = [f for f in fs if f != '*']
        fn = fieldnames(w, D)
        for f in sorted(nf):
            if f not in ef and '*' not in ef: ctx.violation('field %s.%s' % (D.split('::')[-1], fn.get(f, f)), 'the hash of %s depends on its field %s, which its equality ignores' % (D.split('::')[-1], fn.get(f, f)), '')
        if '*' in fs and '*' not in ef and set(fn) - ef: ctx.violation('field %s' % D.split('::')[-1], 'the hash of %s may depend on all its fields, its equality compares only %s' % (D.split('::')[-1], ', '.join(fn.get(f, str(f)) for f in sorted(ef))), '')
    ctx.floor('types_with_fields_compared', n, 8)
    ob = 0
    for d, xs in sorted(Eq.items()):
        hf = {f for f in touch.get(('h', d), ()) if f != '*'}
        for x in xs:
            if not hf or w.types[w.strip_ref(x.locals[1])].get('ak') != 'struct' or x.argc != 2: continue
            D = Defs(w, x); cmpf = compared(w, x, D, d)
            for f in sorted(hf):
                if not any(f in c for c in cmpf.values()): continue
                ob += 1
                v = DiffEngine(w, Differ(w, x, {k for k, c in cmpf.items() if f in c})).call(x, [T] * x.argc)[0]
                if v != ('i', 0): ctx.violation('weaker %s.%s' % (d.split('::')[-1], fieldnames(w, d).get(f, f)), 'two %s values can be equal although their %s, which is hashed, differs' % (d.split('::')[-1], fieldnames(w, d).get(f, f)), x.loc())
    ctx.floor('field_comparisons', ob, 8)
    for d, xs in sorted(Eq.items()):
        names = {y.n for x in xs for y in tree(w, x)} | {w.insts[c].n for x in xs for c in w.callees(x)}
        whole = any(w.types[w.strip_ref(y.locals[1])].get('d', '').split('::')[-1] in UNORDERED for x in xs for c in w.callees(x) for y in [w.insts[c]] if y.n in ('eq', 'ne') and y.body is not None and y.argc == 2)
        if names & {'keys', 'contains_key'} and not whole and not names & {'get', 'values', 'iter', 'get_key_value', 'get_index', 'index'}:
            hn = {w.insts[c].n for dd, hx in H.items() if d.split('::')[-1] in dd for x in hx for y in tree(w, x) for c in w.callees(y)}
            if hn & {'iter', 'values', 'into_iter'}: ctx.violation('entries %s' % d.split('::')[-1], 'equality of %s compares keys only, but the values are hashed as well' % d.split('::')[-1], xs[0].loc())
    # order
    m = 0
    loose = {d for d, xs in Eq.items() if any(y.n in ('contains', 'contains_key', 'get', 'is_subset', 'is_superset', 'into_sorted_vec') or 'sort' in y.n for x in xs for y in tree(w, x))}
    for d, xs in H.items():
        for x in xs:
            tr = tree(w, x)
            tables = any(unordered(w, y) for y in tr)
            inner = {adt_of(w, t)['d'] for y in tr for t in y.locals if adt_of(w, t)}
            if not tables and not (loose & (inner | {d})): continue
            m += 1
            for y in tr:
                bad = ordered_feed(w, y, y is x)
                if bad: ctx.violation('order %s' % (w.types[w.strip_ref(x.locals[1])]['s'].split('::')[-1].rstrip('>')), '%s feeds the entries of a table one after the other, but equality of these tables does not depend on the order of their entries (%s)' % (short(y.p), bad), y.loc())
    ctx.floor('unordered_tables_hashed', m, 2)


def compared(w, x, D, d):
    """{(block, statement or 't'): fields} of comparisons of the same fields of both operands"""
    out = {}
    def both(a, b):
        fa, fb = D.fields(a, d), D.fields(b, d)
        if fa and fa == fb and D.params(a) != D.params(b): return frozenset(fa)
    for bi, b in enumerate(x.blocks):
        for si, s in enumerate(b['s']):
            if s[0] == '=' and s[2][0] == 'bin' and s[2][1] in ('Eq', 'Ne'):
                f = both(s[2][2], s[2][3])
                if f and len(f) == 1: out[(bi, s[3])] = f
        t = b['t']
        if t[0] == 'call' and len(t[2]) == 2 and any(y.n in ('eq', 'ne') for y in w.callee(t[1])):
            f = both(t[2][0], t[2][1])
            if f and len(f) == 1: out[(bi, 't')] = f
    return out


class Differ(Query):
    def __init__(self, w, x, at):
        super().__init__(); self.w = w; self.x = x; self.at = at; self.cur = None
    def descend(self, eng, x, args): return False
    def on_call(self, eng, fr, bi, t, targets, args): self.cur = (bi, 't') if fr.inst is self.x else None
    def model(self, eng, x, args, fr):
        if x.n in ('eq', 'ne') and self.cur in self.at: return ('i', int(x.n == 'ne'))
        return None


class DiffEngine(Engine):
    def rvalue(self, inst, st, r, fr):
        if r[0] == 'bin' and r[1] in ('Eq', 'Ne') and inst is self.q.x:
            for bi, b in enumerate(inst.blocks):
                for s in b['s']:
                    if s[0] == '=' and s[2] is r and (bi, s[3]) in self.q.at: return ('i', int(r[1] == 'Ne'))
        return Engine.rvalue(self, inst, st, r, fr)


def fieldnames(w, D):
    for t in w.types:
        if t['k'] == 'adt' and t['d'] == D: return {i: f[0] for i, f in enumerate(t['v'][0][2])}
    return {}


def touched(w, x):
    """[(ADT def, field set, passed on whole)] of workspace ADTs read in x, through references and lock guards"""
    out = {}
    def place(p):
        t = x.locals[p[0]]
        for i, e in enumerate(p[1:]):
            ty = w.types[t] if t is not None else {'k': '?'}
            if isinstance(e, int) and ty['k'] == 'adt' and ty['d'].startswith('cordy') and ty['ak'] == 'struct' and 'ptr::' not in ty['d']: out.setdefault(ty['d'], [set(), False])[0].add(e)
            t = w.place_ty(x, p[:i + 2])
    for b in x.blocks:
        for s in b['s']:
            if s[0] != '=': continue
            if s[2][0] in ('ref', 'discr'): place(s[2][2] if s[2][0] == 'ref' else s[2][1])
            else:
                for o in operands(s[2]):
                    if o[0] != 'k': place(o[1])
        t = b['t']
        if t[0] == 'call':
            for o in t[2]:
                if o[0] == 'k': continue
                place(o[1])
                a = adt_of(w, w.place_ty(x, o[1]))
                if a and a['d'].startswith('cordy') and a['ak'] == 'struct' and 'ptr::' not in a['d'] and w.types[w.place_ty(x, o[1])]['k'] == 'ref' and not a['d'].endswith('ValuePtr'):
                    for y in w.callee(t[1]):
                        if y.n not in ('hash', 'eq', 'ne', 'borrow', 'try_borrow', 'drop'):
                            if y.n in ('deref', 'deref_mut') and y.ws:
                                for D, fs, wh in touched(w, y): out.setdefault(D, [set(), False])[0].update(fs)
                            else: out.setdefault(a['d'], [set(), False])[1] = True
    return [(d, f, wh) for d, (f, wh) in out.items()]


def tree(w, x, seen=None):
    """x and the workspace functions and closures it uses, without other Hash/PartialEq implementations"""
    seen = {} if seen is None else seen
    if x.i in seen: return list(seen.values())
    seen[x.i] = x
    for c in sorted(w.callees(x)):
        y = w.insts[c]
        if not y.ws and y.body is not None and y.n in ('fold', 'for_each', 'map', 'sum', 'call_mut', 'call_once', 'call', 'next', 'collect', 'reduce') or y.n in ('contains', 'contains_key', 'is_subset', 'is_superset', 'into_sorted_vec', 'sort', 'sort_unstable'): seen.setdefault(y.i, y)
        if y.body is None or not y.ws: continue
        if y.trait and (y.n in ('hash', 'eq', 'ne', 'deref', 'deref_mut', 'borrow', 'drop', 'clone') or y.trait.endswith(('Hash', 'PartialEq'))): continue
        if y.n in ('borrow', 'try_borrow', 'ty') or y.n.startswith('as_'): continue
        tree(w, y, seen)
    # closures created here
    for b in x.blocks:
        for s in b['s']:
            if s[0] == '=' and s[2][0] == 'agg' and s[2][1][0] == 'closure':
                for y in w.insts:
                    if y.ws and y.body is not None and y.p.startswith(x.p + '::{closure') and y.i not in seen: tree(w, y, seen)
    return list(seen.values())


def unordered(w, x):
    if not x.ws: return False
    for b in x.blocks:
        for s in b['s']:
            if s[0] == '=' and s[2][0] == 'ref':
                t = w.place_ty(x, s[2][2])
                if t is not None and w.types[t]['k'] == 'adt' and w.types[t]['d'].split('::')[-1] in UNORDERED: return True
        t = b['t']
        if t[0] == 'call' and t[2]:
            for o in t[2][:1]:
                if o[0] != 'k':
                    a = adt_of(w, w.place_ty(x, o[1]))
                    if a and a['d'].split('::')[-1] in UNORDERED: return True
    return False


def in_loop(x):
    succ = x.succ(); out = set()
    for b in range(len(x.blocks)):
        seen = set(); st = list(succ[b])
        while st:
            c = st.pop()
            if c == b: out.add(b); break
            if c in seen: continue
            seen.add(c); st += succ[c]
    return out


def ordered_feed(w, x, root):
    if not x.ws or x.body is None: return None
    D = Defs(w, x); loops = in_loop(x); closure = '{closure' in x.p.rsplit('::', 1)[-1]
    ops = set(); feeds = False
    for bi, b in enumerate(x.blocks):
        t = b['t']
        if t[0] != 'call' or b.get('c'): continue
        for y in w.callee(t[1]):
            hasher = None
            if y.n == 'hash' and y.trait and y.trait.endswith('hash::Hash') and len(t[2]) > 1: hasher = t[2][1]
            elif y.n.startswith('write') and y.trait and y.trait.endswith('hash::Hasher'): hasher = t[2][0]
            elif y.n == 'hash_slice': return 'hash_slice'
            if hasher is None or bi not in loops and not closure:
                if hasher is not None and y.n == 'hash':
                    a = adt_of(w, w.place_ty(x, t[2][0][1])) if t[2][0][0] != 'k' else None
                    if a and a['d'].split('::')[-1] in ('Vec', 'VecDeque'): return 'the entries are collected and hashed in sequence'
                continue
            if y.n.startswith('write') and not (bi in loops or closure): continue
            ref = D.referent(hasher)
            if any(1 <= l <= x.argc for l in ref): return 'one hasher for all entries'
            feeds = True
            made = [d for l in ref for k, d, db in D.d.get(l, ()) if k == 'c' and (db in loops or closure)]
            if not made: return 'one hasher for all entries'
    if feeds and not closure:
        acc = set()
        for bi, b in enumerate(x.blocks):
            t = b['t']
            if bi in loops and t[0] == 'call' and any(y.n == 'finish' for y in w.callee(t[1])): acc.add(t[3][0])
        ch = True
        while ch:
            ch = False
            for bi, b in enumerate(x.blocks):
                if bi not in loops: continue
                for s in b['s']:
                    if s[0] == '=' and s[2][0] in ('bin', 'use', 'cast', 'un') and any(o[0] != 'k' and o[1][0] in acc for o in operands(s[2])):
                        if s[2][0] == 'bin' and s[2][1] not in ('Lt', 'Gt', 'Eq'): ops.add(s[2][1])
                        if s[2][0] == 'un': ops.add(s[2][1])
                        if s[1][0] not in acc: acc.add(s[1][0]); ch = True
                t = b['t']
                if t[0] == 'call' and any(o[0] != 'k' and o[1][0] in acc for o in t[2]) and w.types[x.locals[t[3][0]]]['s'] in ('u64', 'usize', 'u128', 'u32'):
                    ops.update(y.n for y in w.callee(t[1]))
                    if t[3][0] not in acc: acc.add(t[3][0]); ch = True
        if ops - COMM or len({o.replace('WithOverflow', '').replace('wrapping_', '').lower() for o in ops}) > 1: return 'the hashes of the entries are combined with %s' % ', '.join(sorted(ops))
    return None
