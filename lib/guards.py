"""Which container lock guards may be held at each call: forward dataflow over MIR, drop flags tracked."""


class Guards:
    def __init__(self, w, is_guard):
        self.w = w; self.is_guard = is_guard; self._g = {}

    def of(self, t):
        """guard types contained by value in type t: frozenset of (guard name, type id of the locked value)"""
        if t in self._g: return self._g[t]
        out = set()
        def go(t, seen):
            if t in seen: return
            seen.add(t)
            ty = self.w.types[t]; k = ty['k']
            if k == 'adt':
                n = self.is_guard(ty)
                if n: out.add((n, self.w.tstr(ty['a'][-1]) if ty['a'] else '?')); return
                for v in ty['v']:
                    for _, ft in v[2]: go(ft, seen)
                for a in ty['a']:
                    if ty['d'].split('::')[-1] in ('ManuallyDrop', 'MaybeUninit', 'Box', 'Vec', 'Rc', 'Arc'): go(a, seen)
            elif k in ('tuple', 'closure'):
                for f in ty['f']: go(f, seen)
            elif k in ('array', 'slice'): go(ty['e'], seen)
        go(t, set())
        self._g[t] = frozenset(out)
        return self._g[t]

    def analyse(self, x):
        """-> [(guards held, callee instance, line)] for every call and drop of x made while a guard may be held"""
        w = self.w
        gl = {i for i, t in enumerate(x.locals) if self.of(t)}
        if not gl: return []
        flags = self.flags(x)
        start = (frozenset(i for i in gl if 1 <= i <= x.argc), ())
        seen = {0: {(): set(start[0])}}
        work = [(0, ())]
        out = set()
        while work:
            b, fl = work.pop()
            cur = set(seen[b][fl]); fv = dict(fl); blk = x.blocks[b]
            discr = {}
            for s in blk['s']:
                if s[0] == '=':
                    r = s[2]
                    mv = False
                    for o in operands(r):
                        if o[0] == 'm': mv = self.move(x, o[1], cur) or mv
                    if r[0] == 'discr': discr[s[1][0]] = r[1]
                    if len(s[1]) == 1 and s[1][0] in flags: fv[s[1][0]] = r[1][1].get('v') if r[0] == 'use' and r[1][0] == 'k' else None
                    if s[1][0] in gl and '*' not in s[1]:
                        if len(s[1]) == 1 and not mv: cur.discard(s[1][0])
                        if mv: cur.add(s[1][0])
                elif s[0] == 'x': cur.discard(s[1])
            t = blk['t']; k = t[0]; outs = []
            if k == 'call':
                for o in t[2]:
                    if o[0] == 'm': self.move(x, o[1], cur)
                for y in w.callee(t[1]):
                    for l in cur: out.add((l, y.i, t[6]))
                if t[4] >= 0:
                    c = set(cur)
                    if t[3][0] in gl and '*' not in t[3]: c.add(t[3][0])
                    outs = [(t[4], c, fv)]
            elif k == 'drop':
                for l in cur - {t[1][0]}:
                    if t[4] >= 0: out.add((l, t[4], t[5]))
                c = set(cur)
                if len(t[1]) == 1: c.discard(t[1][0])
                elif '*' not in t[1]: self.move(x, t[1], c)
                outs = [(t[2], c, fv)]
            elif k == 'switch':
                o = t[1]
                d = o[1][0] if o[0] != 'k' and len(o[1]) == 1 else None
                if d in flags and fv.get(d) is not None:
                    v = int(fv[d])
                    tgt = [tb for sv, tb in t[2] if int(sv) == v] or [t[3]]
                    outs = [(z, cur, fv) for z in tgt]
                elif d in discr and discr[d][0] in gl and '*' not in discr[d]:
                    pl = discr[d]; pt = w.place_ty(x, pl); ty = w.types[pt]
                    vs = {int(v[1]): v for v in ty['v']}
                    rest = set(vs)
                    for sv, tb in t[2]:
                        c = set(cur); rest.discard(int(sv))
                        if int(sv) in vs and not any(self.of(ft) for _, ft in vs[int(sv)][2]) and self.of(pt) == self.of(x.locals[pl[0]]): c.discard(pl[0])
                        outs.append((tb, c, fv))
                    c = set(cur)
                    if rest and not any(self.of(ft) for r_ in rest for _, ft in vs[r_][2]) and self.of(pt) == self.of(x.locals[pl[0]]): c.discard(pl[0])
                    outs.append((t[3], c, fv))
                else:
                    for sv, tb in t[2]:
                        f2 = dict(fv)
                        outs.append((tb, cur, f2))
                    outs.append((t[3], cur, fv))
            else: outs = [(z, cur, fv) for z in x.succ()[b]]
            for z, c, f in outs:
                key = tuple(sorted((a, v) for a, v in f.items() if v is not None))
                m = seen.setdefault(z, {})
                if len(m) > 40 and key not in m: key = ()
                if key not in m: m[key] = set(c); work.append((z, key))
                elif not c <= m[key]:
                    m[key] |= c
                    if (z, key) not in work: work.append((z, key))
        return [(self.of(x.locals[l]), w.insts[y], line) for l, y, line in sorted(out)]

    def move(self, x, place, cur):
        """a move out of place: -> does it carry a guard"""
        if '*' in place: return False
        t = self.w.place_ty(x, place)
        g = self.of(t) if t is not None else frozenset()
        if not g: return False
        l = place[0]
        was = l in cur
        if len(place) == 1 or g == self.of(x.locals[l]): cur.discard(l)
        return was

    def flags(self, x):
        """bool locals which are only ever assigned constants"""
        ok = {i for i, t in enumerate(x.locals) if i > x.argc and self.w.types[t]['k'] == 'bool'}
        for b in x.blocks:
            for s in b['s']:
                if s[0] == '=':
                    if s[1][0] in ok and not (len(s[1]) == 1 and s[2][0] == 'use' and s[2][1][0] == 'k' and s[2][1][1].get('v') is not None): ok.discard(s[1][0])
                    if s[2][0] == 'ref' and s[2][2][0] in ok: ok.discard(s[2][2][0])
            t = b['t']
            if t[0] == 'call' and t[3][0] in ok: ok.discard(t[3][0])
        return ok


def operands(r):
    k = r[0]
    if k == 'use': return [r[1]]
    if k == 'cast': return [r[2]]
    if k == 'bin': return [r[2], r[3]]
    if k == 'un': return [r[2]]
    if k == 'agg': return r[2]
    return [o for o in r[1:] if isinstance(o, list) and o and o[0] in ('c', 'm', 'k')]
