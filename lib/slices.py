"""Intraprocedural def-use helpers over one MIR body (flow-insensitive, may-analysis)."""
from guards import operands


class Defs:
    def __init__(self, w, x):
        self.w = w; self.x = x
        self.d = {}     # local -> [('s', rvalue) | ('c', terminator)]
        self.uses = {}
        for bi, b in enumerate(x.blocks):
            if b.get('c'): continue
            for s in b['s']:
                if s[0] == '=': self.d.setdefault(s[1][0], []).append(('s', s[2], bi))
            t = b['t']
            if t[0] == 'call': self.d.setdefault(t[3][0], []).append(('c', t, bi))

    def back(self, o, all_args=True, stop=None):
        """locals the operand may derive from (through copies, references, aggregates and calls)"""
        seen = set(); st = [o[1][0]] if o[0] != 'k' else []
        while st:
            l = st.pop()
            if l in seen: continue
            seen.add(l)
            for k, d, bi in self.d.get(l, ()):
                if k == 's':
                    if d[0] in ('ref', 'discr'): st.append(d[2][0] if d[0] == 'ref' else d[1][0])
                    elif d[0] in ('len', 'cpy', 'addr') : st += [p[0] for p in d[1:] if isinstance(p, list) and p and isinstance(p[0], int)]
                    else: st += [p[1][0] for p in operands(d) if p[0] != 'k']
                else:
                    if stop and stop(d): continue
                    args = d[2] if all_args else d[2][:1]
                    st += [p[1][0] for p in args if p[0] != 'k']
        return seen

    def params(self, o, all_args=True):
        return {l for l in self.back(o, all_args) if 1 <= l <= self.x.argc}

    def fields(self, o, adt, stop=None):
        """indices of fields of the ADT (def path suffix) that the operand may derive from"""
        out = set(); seen = set()
        def place(p):
            f = field_of(self.w, self.x, p, adt)
            if f is not None: out.add(f); return
            st.append(p[0])
        st = []
        if o[0] != 'k': place(o[1])
        while st:
            l = st.pop()
            if l in seen: continue
            seen.add(l)
            for k, d, bi in self.d.get(l, ()):
                if k == 's':
                    if d[0] == 'ref': place(d[2])
                    elif d[0] == 'discr': place(d[1])
                    else:
                        for p in operands(d):
                            if p[0] != 'k': place(p[1])
                else:
                    if stop and stop(d): continue
                    for p in d[2]:
                        if p[0] != 'k': place(p[1])
        return out

    def referent(self, o):
        """locals of the body the operand refers to: through references, copies and deref calls only"""
        seen = set(); st = [o[1][0]] if o[0] != 'k' else []
        while st:
            l = st.pop()
            if l in seen: continue
            seen.add(l)
            for k, d, bi in self.d.get(l, ()):
                if k == 's':
                    if d[0] == 'ref': st.append(d[2][0])
                    elif d[0] in ('use', 'cast'): st += [p[1][0] for p in operands(d) if p[0] != 'k']
                elif any(y.n in ('deref', 'deref_mut', 'as_mut_slice', 'as_mut', 'borrow_mut', 'make_contiguous', 'index_mut') for y in self.w.callee(d[1])):
                    st += [p[1][0] for p in d[2][:1] if p[0] != 'k']
        return seen

    def tainted(self, sources, in_place=lambda t: False):
        """locals that may carry the results of calls satisfying `sources(term)` (or, for `in_place(term)`, what their
        receiver refers to); taint follows copies, references and calls with a tainted argument, but parameters and
        what is only reached through `&mut` arguments of a workspace function are not tainted"""
        t = set()
        for b in self.x.blocks:
            k = b['t']
            if k[0] == 'call' and not b.get('c') and sources(k):
                t.add(k[3][0])
                if in_place(k): t |= {l for o in k[2][:1] if o[0] != 'k' for l in self.referent(o) if not 1 <= l <= self.x.argc}
        ch = True
        while ch:
            ch = False
            for l, ds in self.d.items():
                if l in t or 1 <= l <= self.x.argc: continue
                for k, d, bi in ds:
                    if k == 's': src = [p[1][0] for p in operands(d) if p[0] != 'k'] + ([d[2][0]] if d[0] == 'ref' else [])
                    else:
                        src = [p[1][0] for p in d[2] if p[0] != 'k']
                        if any(y.ws for y in self.w.callee(d[1])): src = [s for s in src if not self.w.tstr(self.x.locals[s]).startswith('&mut')]
                    if any(s in t for s in src): t.add(l); ch = True; break
        return t


def field_of(w, x, p, adt):
    """the field of the ADT that the place goes through first"""
    t = x.locals[p[0]]; variant = None
    for n, e in enumerate(p[1:]):
        ty = w.types[t] if t is not None else {'k': '?'}
        if isinstance(e, int) and ty['k'] == 'adt' and (ty['d'] == adt or ty['d'].endswith('::' + adt)): return e
        t = w.place_ty(x, p[:n + 2])
    return None


def field_events(w, x, adt):
    """[(block, field, kind, detail)] for every mutable use of a field of the ADT in x: kind 'assign' | 'borrow' (detail: the
    calls the mutable borrow may reach, as (block, terminator))"""
    out = []
    uses = None
    for bi, b in enumerate(x.blocks):
        if b.get('c'): continue
        for s in b['s']:
            if s[0] != '=': continue
            f = field_of(w, x, s[1], adt)
            if f is not None: out.append((bi, f, 'assign', s))
            if s[2][0] == 'ref' and s[2][1]:
                f = field_of(w, x, s[2][2], adt)
                if f is not None: out.append((bi, f, 'borrow', s[1][0]))
            if s[2][0] == 'use' and s[2][1][0] != 'k':   # a field that is itself a mutable reference, moved or copied out
                f = field_of(w, x, s[2][1][1], adt)
                if f is not None and w.tstr(w.place_ty(x, s[2][1][1])).startswith('&mut'): out.append((bi, f, 'borrow', s[1][0]))
        t = b['t']
        if t[0] == 'call':
            f = field_of(w, x, t[3], adt)
            if f is not None: out.append((bi, f, 'assign', t))
            for o in t[2]:
                if o[0] != 'k':
                    f = field_of(w, x, o[1], adt)
                    if f is not None and w.tstr(w.place_ty(x, o[1])).startswith('&mut'): out.append((bi, f, 'arg', (bi, t)))
    return out


def forward(x, l):
    """locals that may hold (a copy or reborrow of) the reference in local l, and the calls they are passed to"""
    seen = {l}; ch = True
    while ch:
        ch = False
        for b in x.blocks:
            for s in b['s']:
                if s[0] != '=' or len(s[1]) != 1 or s[1][0] in seen: continue
                r = s[2]
                src = r[2][0] if r[0] == 'ref' else (r[1][1][0] if r[0] == 'use' and r[1][0] != 'k' else r[2][1][0] if r[0] == 'cast' and r[2][0] != 'k' else None)
                if src in seen: seen.add(s[1][0]); ch = True
    calls = [(bi, b['t']) for bi, b in enumerate(x.blocks) if b['t'][0] == 'call' and any(o[0] != 'k' and o[1][0] in seen for o in b['t'][2])]
    return seen, calls
