"""Where values come from: backward tracing over MIR, across calls (summaries of what a function returns, in terms of its parameters)."""
import collections
from mir import Missing, short
from slices import Defs
from guards import operands

VAL = 'cordy_sys::vm::ValuePtr'
PTR = 'vm/value/ptr.rs'


class Prod:
    """where the values an operand may be come from: {(kind, detail)}
    alloc T: newly made representation T; imm: a value without representation; read A.f: an element of that field; ? f: unknown; param j: of this function"""
    def __init__(self, w, leaf=None):
        self.w = w; self.val = set(w.adts('vm::ValuePtr')); self.d = {}; self.c = {}; self.m = {}; self.leaf = leaf or (lambda x, t, ys: None)
        if not self.val: raise Missing('ValuePtr')
        self.rev = collections.defaultdict(list)
        for x in w.insts:
            if x.body is None: continue
            for b in x.blocks:
                t = b['t']
                if t[0] == 'call' and not b.get('c'):
                    for y in w.callee(t[1]): self.rev[y.i].append((x, t))

    def defs(self, x):
        if x.i not in self.d: self.d[x.i] = Defs(self.w, x)
        return self.d[x.i]

    def carries(self, t):
        if t not in self.c: self.c[t] = self.w.ty_contains(self.w.strip_ref(t), lambda ty: ty['d'] == VAL or ty['d'].endswith('ptr::Prefix'))
        return self.c[t]

    def live(self, x, bi): return True

    # ---- within a function, parameters left as they are
    def of(self, x, o, seen=None):
        if o[0] == 'k': return {('imm', '')}
        return self.place(x, o[1], seen if seen is not None else set())

    def place(self, x, p, seen):
        w = self.w
        for n in range(len(p) - 1, 0, -1):
            if not isinstance(p[n], int): continue
            b = w.place_ty(x, p, n); ty = w.types[b] if b is not None else {}
            if ty.get('k') == 'adt' and ty['ak'] == 'struct' and ty['d'].startswith('cordy') and b not in self.val and not ty['d'].endswith('ptr::Prefix'):
                return {('read', '%s.%s' % (ty['d'].split('::')[-1], ty['v'][0][2][p[n]][0]))}
        return self.local(x, p[0], seen)

    def local(self, x, l, seen):
        w = self.w
        if (x.i, l) in seen: return set()
        seen.add((x.i, l)); out = set()
        if 1 <= l <= x.argc: out.add(('param', l))
        for k, d, bi in self.defs(x).d.get(l, ()):
            if not self.live(x, bi): continue
            if k == 's':
                if d[0] == 'ref': out |= self.place(x, d[2], seen)
                elif d[0] in ('discr', 'len'): continue
                elif d[0] == 'agg':
                    for o in operands(d):
                        t = w.place_ty(x, o[1]) if o[0] != 'k' else None
                        if o[0] == 'k' or self.carries(t if t is not None else x.locals[o[1][0]]): out |= self.of(x, o, seen)
                    if isinstance(d[1], list) and d[1][0] == 'adt' and d[1][1] in self.val: out.add(('imm', ''))
                else:
                    for o in operands(d): out |= self.of(x, o, seen)
            else: out |= self.ret(x, d, seen)
        return out

    def summary(self, y):
        """what y gives, in terms of its parameters"""
        if y.i in self.m: return self.m[y.i]
        self.m[y.i] = set()
        while True:
            r = self.local(y, 0, set())
            if r <= self.m[y.i]: break
            self.m[y.i] |= r
        return self.m[y.i]

    def ret(self, x, t, seen):
        w = self.w; ys = w.callee(t[1]); out = set()
        if not ys: return {('?', 'an unknown function')}
        k = self.leaf(x, t, ys)
        if k is not None: return k
        for y in ys:
            if y.ws and y.body is not None:
                pre = [w.types[s] for a in range(1, y.argc + 1) for s in [y.locals[a]] if w.types[s]['k'] == 'adt' and w.types[s]['d'].endswith('ptr::Prefix')]
                if y.file.endswith(PTR) and pre: out |= {('alloc', ty['a'][0]) for ty in pre}; continue
                if y.file.endswith(PTR) and y.n == 'clone': out |= self.of(x, t[2][0], seen) if t[2] else set(); continue
                r = self.summary(y)
                for k, v in r:
                    if k != 'param': out.add((k, v))
                    elif v - 1 < len(t[2]) and self.carries(y.locals[v]): out |= self.of(x, t[2][v - 1], seen)
                if not any(k != 'param' for k, v in r) and not any(self.carries(y.locals[v]) for k, v in r): out.add(('imm', ''))
                continue
            a = [o for o in t[2] if o[0] != 'k' and self.carries(x.locals[o[1][0]])]
            for o in a: out |= self.of(x, o, seen)
            if not a: out.add(('?', short(y.p)))
        return out

    # ---- parameters resolved through all callers
    def resolve(self, x, leaves, stop=lambda x: False, seen=None):
        """[(function, leaf)]: parameters are followed to the callers, up to the functions where to stop"""
        seen = seen if seen is not None else set(); out = set()
        for k, v in leaves:
            if k != 'param' or stop(x): out.add((x.i, k, v)); continue
            if (x.i, v) in seen: continue
            seen.add((x.i, v)); cs = [(c, t) for c, t in self.rev[x.i]]
            for c, t in cs:
                if len(t[2]) == x.argc: out |= self.resolve(c, self.of(c, t[2][v - 1]), stop, seen)
                elif self.carries(x.locals[v]): out.add((x.i, '?', 'argument of ' + short(x.p)))
            if not cs: out.add((x.i, '?', 'argument of ' + short(x.p)))
        return out

    def all(self, x, o): return {(k, v) for _, k, v in self.resolve(x, self.of(x, o))}
