"""Constant propagation extended with linear symbolic numbers and opaque collections.

('sym', 'lin', names, k)   the sum of the named unknowns plus k; every unknown stands for a large number
('sym', 'tag', name)       a collection (or anything inside it)
('sym', 'rng', rev, a, b)  the range a..b, walked backwards if rev"""
from typestate import *
import absint


def N(name, k=0): return ('sym', 'lin', (name,), k)
def C(name): return ('sym', 'tag', name)
def is_lin(v): return v[0] == 'sym' and v[1] == 'lin'
def is_tag(v): return v[0] == 'sym' and v[1] == 'tag'
def is_rng(v): return v[0] == 'sym' and v[1] == 'rng'
def lin_of(v): return (v[2], v[3]) if is_lin(v) else ((), v[1]) if v[0] == 'i' else None
def mk(names, k): return ('sym', 'lin', tuple(sorted(names)), k) if names else ('i', k)


def strip(v):
    while v[0] == 'r': v = v[1]
    return v


def show(v):
    v = strip(v)
    if is_lin(v): return '+'.join(v[2]) + ('%+d' % v[3] if v[3] else '')
    if v[0] == 'i': return str(v[1])
    if is_tag(v): return str(v[2])
    if v[0] == 'u': return '|'.join(sorted(show(x) for x in v[1]))
    return '?'


class Lin:
    """mixin for the engines"""
    def rvalue(self, inst, st, r, frame):
        if r[0] == 'cast' and r[1] == 'IntToInt':
            v = self.operand(inst, st, r[2])
            if is_lin(v) or is_tag(v): return v
        if r[0] == 'bin':
            a = lin_of(self.operand(inst, st, r[2])); b = lin_of(self.operand(inst, st, r[3]))
            if a and b and (a[0] or b[0]):
                v = arith(r[1], a, b)
                if v is None and r[1] in ('Eq', 'Ne') and getattr(self.q, 'distinct', False): v = ('i', int(r[1] == 'Ne'))
                if v is not None: return v
        return super().rvalue(inst, st, r, frame)

    def havoc(self, inst, st, v):
        if v[0] == 'p' and v[3]:
            cur = self.read(inst, st, (v[1],) + v[2])
            if is_tag(cur) or is_rng(cur): return
            t = self.w.place_ty(inst, (v[1],) + v[2]); ty = self.w.types[t] if t is not None else {}
            # nothing can change what a closure captured by shared reference
            if ty.get('k') == 'closure' and all(self.w.types[f]['k'] == 'ref' and not self.w.types[f]['m'] for f in ty['f']): return
        super().havoc(inst, st, v)


def arith(op, a, b):
    if op.startswith('Add'): return mk(a[0] + b[0], a[1] + b[1])
    if op.startswith('Sub'):
        names = list(a[0])
        for n in b[0]:
            if n not in names: return None
            names.remove(n)
        return mk(names, a[1] - b[1])
    if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
        if a[0] == b[0]: return binop(op, ('i', a[1]), ('i', b[1]))
        if not b[0] and 0 <= b[1] <= 8 and a[1] >= -4: return ('i', int(op in ('Gt', 'Ge', 'Ne')))   # unknowns are large
        if not a[0] and 0 <= a[1] <= 8 and b[1] >= -4: return ('i', int(op in ('Lt', 'Le', 'Ne')))
    return None


class LEngine(Lin, Engine): pass


class LTEngine(Lin, TEngine):
    def vapply(self, inst, st, x, args, fr):
        if not hasattr(self, 'veng'): self.veng = LEngine(self.w, self.q, max_ctx=100)
        return self.veng.apply(inst, st, x, args, fr)
