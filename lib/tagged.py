"""Tagged words: constant propagation that keeps the known bits of a machine word, the symbolic value shifted into the rest, and
pointers of a given kind as concrete addresses."""
from typestate import *
from dispatch import is_panic
from mir import Missing

TYPE = 'cordy_sys::vm::Type'
FULL = (1 << 64) - 1


def W(mask, val, term=None):
    """bits in mask are known to be val; term: (name, shift) of the value in the others"""
    if mask & FULL == FULL: return ('i', val & FULL)
    return ('sym', 'w', mask, val & mask, term)

def bits(v):
    """(mask, value, term) of a word"""
    if v[0] == 'i': return FULL, v[1] & FULL, None
    if v[0] == 'sym' and v[1] == 'w': return v[2], v[3], v[4]
    if v[0] == 'sym' and v[1] == 'in': return 0, 0, (v[2], 0)
    return None

def IN(name): return ('sym', 'in', name)


def bitop(op, a, b):
    x, y = bits(a), bits(b)
    if op in ('Shl', 'ShlUnchecked') and y and y[0] == FULL:
        n = y[1] & 63
        if x is None: return W((1 << n) - 1, 0)
        return W((x[0] << n | ((1 << n) - 1)) & FULL, x[1] << n & FULL, (x[2][0], x[2][1] + n) if x[2] else None)
    if op in ('Shr', 'ShrUnchecked') and y and y[0] == FULL and x:
        n = y[1] & 63
        if x[0] == FULL: return ('i', x[1] >> n)
        if x[2] and x[2][1] == n: return IN(x[2][0])
        return W(x[0] >> n & FULL, x[1] >> n, (x[2][0], x[2][1] - n) if x[2] else None)
    if op == 'BitOr' and (x or y):
        x = x or (0, 0, None); y = y or (0, 0, None)
        ones = x[1] | y[1]; zeros = x[0] & ~x[1] & y[0] & ~y[1]
        return W(ones | zeros, ones, x[2] or y[2] if not (x[2] and y[2]) else None)
    if op == 'BitAnd' and (x or y):
        x = x or (0, 0, None); y = y or (0, 0, None)
        ones = x[0] & x[1] & y[0] & y[1]; zeros = (x[0] & ~x[1]) | (y[0] & ~y[1])
        t = x[2] or y[2]
        if t is x[2] and y[0] == FULL or t is y[2] and x[0] == FULL:
            m = y[1] if t is x[2] else x[1]
            if t and (m >> t[1]) << t[1] != m and m | ((1 << t[1]) - 1) != FULL and ~m & ~((1 << t[1]) - 1) & FULL: t = None
        return W((ones | zeros) & FULL, ones, t)
    if op in ('Eq', 'Ne') and x and y:
        k = x[0] & y[0]
        if (x[1] ^ y[1]) & k: return ('i', int(op == 'Ne'))
        if k == FULL: return ('i', int((x[1] == y[1]) == (op == 'Eq')))
    return None


class Bits:
    def rvalue(self, inst, st, r, frame):
        if r[0] == 'bin':
            a = self.operand(inst, st, r[2]); b = self.operand(inst, st, r[3])
            if a[0] == 'i' and b[0] == 'i' and r[1] in ('BitAnd', 'BitOr', 'Shr', 'Shl'):
                x, y = a[1] & FULL, b[1] & FULL
                return ('i', x & y if r[1] == 'BitAnd' else x | y if r[1] == 'BitOr' else 0 if y > 63 else x >> y if r[1] == 'Shr' else x << y & FULL)
            if a[0] == 'sym' or b[0] == 'sym' or r[1] in ('Shl', 'ShlUnchecked', 'BitOr', 'BitAnd'):
                v = bitop(r[1], a, b)
                if v is not None: return v
                return T
        if r[0] == 'un' and r[1] == 'Not':
            a = self.operand(inst, st, r[2])
            t = self.w.place_ty(inst, r[2][1]) if r[2][0] != 'k' else None
            if a[0] == 'i' and t is not None and self.w.types[t]['k'] != 'bool': return ('i', ~a[1] & FULL)
        if r[0] == 'cast':
            v = self.operand(inst, st, r[2])
            if v[0] == 'sym' and v[1] in ('w', 'in') or v[0] == 'i' and r[1] != 'IntToInt':
                self.q.on_cast(self, frame, inst, st, r, v)
                return v
        if r[0] == 'discr':
            v = self.read(inst, st, r[1]) if hasattr(self, 'read') else T
            if v[0] == 'sym' and v[1] == 'in': return v
        if r[0] == 'agg' and isinstance(r[1], list) and r[1][0] == 'adt' and self.w.types[r[1][1]]['ak'] == 'union':
            v = self.operand(inst, st, r[2][0])
            self.q.on_union(self, frame, inst, r, v)
            if v[0] == 'u' and all(y[0] == 'i' for y in v[1]) or bits(v): return word(self.w, r[1][1], v)
            return T
        return super().rvalue(inst, st, r, frame)


class BEngine(Bits, Engine): pass
class BTEngine(Bits, TEngine):
    def vapply(self, inst, st, x, args, fr):
        if not hasattr(self, 'veng'): self.veng = BEngine(self.w, self.q, max_ctx=2000)
        return self.veng.apply(inst, st, x, args, fr)


def word(w, t, v):
    return ('a', None, tuple((i, v) for i, f in enumerate(w.types[t]['v'][0][2]) if w.types[f[1]]['k'] in ('uint', 'int') or w.tstr(f[1]) in ('usize', 'u64', 'i64')))


class Tagged:
    """the kinds of value and the tag bits that stand for them, as the function that tells the kind has it"""
    BITS = 6
    def __init__(self, w):
        self.w = w
        vt = [i for i, t in enumerate(w.types) if t.get('k') == 'adt' and t['d'].endswith('ValuePtr') and t['d'].startswith('cordy_sys::vm')]
        if not vt: raise Missing('ValuePtr')
        self.vt = vt[0]
        self.ty = [x for x in w.need(name='ty') if x.p.endswith('ValuePtr::ty')][0]
        self.kinds = {i: n for n, (i, _, _) in w.variants(TYPE).items()}
        self.idx = {n: i for i, n in self.kinds.items()}
        self.kind = {}
        for b in range(1 << self.BITS):
            q = WordQ(w, self, None); q.own = True
            r = BEngine(w, q).call(self.ty, [('r', word(w, self.vt, ('i', b)))])[0]
            self.kind[b] = self.kinds[r[1]] if r and r[0] == 'a' and r[1] is not None else None
        self.pointer = [b for b in self.kind if self.kind[b] is None]
        self.inline = {}
        for b, k in self.kind.items():
            if k is not None: self.inline.setdefault(k, []).append(b)
        if not self.pointer or len({b & 3 for b in self.pointer}) != 1: raise Missing('one tag for pointers')
        self.ptag = self.pointer[0] & 3
    def at(self, slot): return 0x1000 * (slot + 1) | self.ptag
    def words(self, k, slot=0):
        """the words a value of kind k may be"""
        return self.inline.get(k) or [self.at(slot)]
    def value(self, v): return word(self.w, self.vt, ('i', v))


class WordQ(TQuery):
    """kinds: the kind behind the address of each slot"""
    max_tags = 400
    own = False
    def __init__(self, w, tg, kinds):
        TQuery.__init__(self); self.w = w; self.tg = tg; self.kinds = kinds; self.casts = set(); self.panics = set(); self.unions = []; self.called = set()
        self.rc = None
    def slot(self, v):
        while v[0] == 'r': v = v[1]
        if v[0] == 'a' and v[1] is None and v[2]: v = v[2][0][1]
        return v
    def on_cast(self, eng, fr, inst, st, r, v):
        t = self.w.types[r[3]] if len(r) > 3 and isinstance(r[3], int) else {}
        if t.get('k') in ('ptr', 'ref') and v[0] == 'i':
            e = self.w.types[t['e']]
            if e.get('k') == 'adt' and e['a'] and e['d'].endswith('Prefix'):
                a = self.w.tstr(e['a'][0])
                if a != '()': self.casts.add((v[1] >> 12, v[1] & 0xfff, a))
    def on_union(self, eng, fr, inst, r, v): self.unions.append((inst, r, v))
    def model(self, eng, x, args, fr):
        if is_panic(x): self.panics.add(fr.inst.p); return ('never',)
        if not self.own and self.kinds is not None and x.n == 'ty' and x.p.endswith('ValuePtr::ty'):
            v = self.slot(args[0])
            if v[0] == 'i':
                if v[1] & 3 == self.tg.ptag and v[1] >> 12: return ('a', self.tg.idx[self.kinds[(v[1] >> 12) - 1]], ())
                k = self.tg.kind[v[1] & 63]
                if k is not None: return ('a', self.tg.idx[k], ())
        if x.n in ('eq', 'ne') and len(args) == 2 and x.body is not None and self.w.types[self.w.strip_ref(x.locals[1])].get('d') == TYPE:
            a, b = (v[1] if v[0] == 'r' else v for v in args)
            if a[0] == b[0] == 'a' and None not in (a[1], b[1]): return ('i', int((a[1] == b[1]) == (x.n == 'eq')))
        if not x.ws and x.n == 'transmute' and args and bits(args[0]): return args[0]
        if not x.ws and x.n == 'into_raw' and 'Box' in x.p: return W(7, 0)
        return None
    def descend(self, eng, x, args):
        if x.body is None: return False
        if self.own: return x.ws
        if not x.ws: return x.n in ('ne', 'max', 'lt', 'gt', 'le', 'ge') and x.trait and 'cmp' in x.trait and len(x.blocks) < 12
        return any(self.slot(a)[0] == 'i' and a[0] in ('r', 'a') and bits(self.slot(a)) for a in args[:2]) or len(x.blocks) <= 6
