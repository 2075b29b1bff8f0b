"""Interprocedural conditional constant propagation over the dumped MIR.

A query fixes the variant of every otherwise unknown value of some enum types ("the token is `+`",
"the built-in is `map`") and the engine computes, flow- and context-sensitively, an
over-approximation of what is then reachable: CFG edges whose switch value is known to differ are
pruned, everything else is kept. Nothing is executed and no input is chosen: unknown stays unknown.

Values:  ('T',) unknown | ('i', n) | ('s', str) | ('a', variant|None, ((field, value)...)) |
         ('r', value) reference to value | ('p', local, proj, mut) pointer to place of this frame |
         ('f', inst) function | ('arr', (v...)) | ('u', frozenset(values)) one of |
         ('dd', place) discriminant of unknown place | ('sym', ...) query specific symbol
"""
T = ('T',)
MAXU = 24


def mk_union(vals):
    vals = set(vals)
    flat = set()
    for v in vals:
        if v[0] == 'u': flat |= v[1]
        else: flat.add(v)
    if T in flat: return T
    # join adts with the same variant
    byv = {}
    rest = set()
    for v in flat:
        if v[0] == 'a':
            k = v[1]
            byv[k] = join_adt(byv[k], v) if k in byv else v
        elif v[0] == 'r':
            if 'r' in byv: byv['r'] = ('r', join(byv['r'][1], v[1]))
            else: byv['r'] = v
        else: rest.add(v)
    rest |= set(byv.values())
    if None in byv and len([k for k in byv if k != 'r']) > 1: return T
    if len(rest) == 1: return next(iter(rest))
    if len(rest) > MAXU: return T
    return ('u', frozenset(rest))


def join_adt(a, b):
    fa, fb = dict(a[2]), dict(b[2])
    out = []
    for k in sorted(set(fa) & set(fb)):
        v = join(fa[k], fb[k])
        if v != T: out.append((k, v))
    return ('a', a[1], tuple(out))


def join(a, b):
    if a == b: return a
    if a == T or b == T: return T
    return mk_union([a, b])


def depth(v, d=0):
    if d > 7: return d
    k = v[0]
    if k == 'a': return max([depth(x, d + 1) for _, x in v[2]] or [d])
    if k == 'r': return depth(v[1], d + 1)
    if k == 'u': return max(depth(x, d) for x in v[1])
    return d


def clip(v, n=6):
    k = v[0]
    if n <= 0:
        return v if k in ('i', 's', 'f', 'sym') else (('a', v[1], ()) if k == 'a' else T)
    if k == 'a':
        f = tuple((i, clip(x, n - 1)) for i, x in v[2])
        return ('a', v[1], tuple((i, x) for i, x in f if x != T))
    if k == 'r': return ('r', clip(v[1], n - 1))
    if k == 'u': return mk_union([clip(x, n) for x in v[1]])
    if k == 'arr' and len(v[1]) > 64: return T
    return v


class Query:
    """override to steer the engine"""
    assume = None      # {adt def path: value}

    def __init__(self): self.assume = {}
    def descend(self, eng, inst, args): return inst.ws
    def model(self, eng, inst, args, frame): return None   # -> value or None (default handling)
    def on_pointer(self, eng, fr, t, targets, args): return targets    # a call through a pointer whose target is not known
    def on_call(self, eng, frame, bi, term, targets, args): pass
    def on_stmt(self, eng, frame, bi, stmt, val, st): pass
    def on_return(self, eng, frame, val): pass
    def assume_ty(self, eng, t): return None


class Frame:
    __slots__ = ('inst', 'events', 'key', 'args', 'stack')


class Engine:
    def __init__(self, world, query, max_ctx=400, max_steps=4000000):
        self.w = world; self.q = query
        self.memo = {}; self.active = {}
        self.ctx = {}
        self.max_ctx = max_ctx
        self.steps = 0
        self.max_steps = max_steps
        self.widened = 0
        self.fn_seen = set()
        self._aty = {}

    # -- constants
    def cval(self, c, depth_=0):
        t = c.get('t'); v = c.get('v')
        return self.cv(v, t)

    def cv(self, v, t):
        ty = self.w.types[t] if t is not None else {'k': '?'}
        k = ty['k']
        if k == 'fndef': return ('f', ty['i'])
        if v is None: return ('sym', 'unk')
        if isinstance(v, bool): return ('i', int(v))
        if isinstance(v, int): return ('i', v)
        if isinstance(v, dict):
            if 's' in v: return ('s', v['s'])
            if 'fn' in v: return ('f', v['fn'])
            if 'static' in v: return ('r', ('sym', 'static', v['static']))
            if 'r' in v:
                inner = v['r']
                et = ty.get('e')
                return ('r', self.cv(inner, et))
            if 'f' in v:
                if k == 'array' or k == 'slice':
                    return ('arr', tuple(self.cv(x, ty['e']) for x in v['f'])) if len(v['f']) <= 600 else T
                vr = v.get('vr')
                if k == 'adt' and ty['ak'] != 'enum': vr = None
                fs = []
                for i, x in enumerate(v['f']):
                    ft = self.w.field_ty(t, vr, i)
                    xv = self.cv(x, ft) if ft is not None else T
                    if xv != T: fs.append((i, xv))
                return ('a', vr, tuple(fs))
        return T

    def top(self, t):
        """the unknown value of a type, under the query's assumptions"""
        if t is None: return T
        if t in self._aty: return self._aty[t]
        ty = self.w.types[t]
        v = T
        if ty['k'] == 'adt' and ty['d'] in self.q.assume: v = self.q.assume[ty['d']]
        else:
            x = self.q.assume_ty(self, t)
            if x is not None: v = x
            elif ty['k'] in ('ref', 'ptr'):
                e = ty['e']
                self._aty[t] = T
                inner = self.top(e)
                if inner != T: v = ('r', inner)
            elif ty['k'] == 'fndef': v = ('f', ty['i'])
        self._aty[t] = v
        return v

    # -- places
    def read(self, inst, st, place, escaped=()):
        w = self.w
        l = place[0]
        t = inst.locals[l]
        v = st.get(l, T)
        return self.proj(inst, st, v, t, place[1:])

    def proj(self, inst, st, v, t, proj):
        w = self.w
        variant = None
        if v[0] == 'sym' and v[1] == 'tag': return v   # anything inside a tagged value carries its tag
        for n, e in enumerate(proj):
            if v == T and t is not None: v = self.top(t)
            if v[0] == 'sym' and v[1] == 'tag': return v
            if v[0] == 'u':
                return mk_union([self.proj(inst, st, x, t, proj[n:] if variant is None else (['d', variant],) + tuple(proj[n:])) for x in v[1]] or [T])
            if e == '*':
                ty = w.types[t] if t is not None else {'k': '?'}
                if ty['k'] in ('ref', 'ptr'): t = ty['e']
                elif ty['k'] == 'adt' and ty['a']: t = ty['a'][0]
                else: t = None
                variant = None
                if v[0] == 'p':
                    v = self.read(inst, st, (v[1],) + v[2])
                elif v[0] == 'r': v = v[1]
                elif v[0] == 's': pass
                elif v[0] == 'arr': pass
                else: v = T
            elif isinstance(e, int):
                ft = w.field_ty(t, variant if variant is not None else (v[1] if v[0] == 'a' else None), e) if t is not None else None
                if v[0] == 'a':
                    v = dict(v[2]).get(e, T)
                else:
                    v = T
                t = ft; variant = None
            elif e[0] == 'd':
                variant = e[1]
                if v[0] == 'a' and v[1] is not None and v[1] != variant:
                    return ('bot',)
            elif e[0] in ('i', 'c'):
                ty = w.types[t] if t is not None else {}
                t = ty.get('e'); variant = None
                if v[0] == 'sym' and v[1] == 'static':
                    v = self.static(v[2])
                if v[0] == 'sym' and v[1] == 'seq': v = ('arr', tuple(v[2][v[3]:]))
                if v[0] == 'arr':
                    idx = st.get(e[1], T) if e[0] == 'i' else ('i', e[1] if not e[2] else len(v[1]) - e[1])
                    if idx[0] == 'i' and 0 <= idx[1] < len(v[1]): v = v[1][idx[1]]
                    elif idx[0] == 'u' and all(x[0] == 'i' and 0 <= x[1] < len(v[1]) for x in idx[1]): v = mk_union([v[1][x[1]] for x in idx[1]])
                    else: v = mk_union(v[1]) if v[1] else T
                else: v = T
            else:
                return T
        if v == T and t is not None: v = self.top(t)
        return v

    def static(self, p):
        s = self.w.statics.get(p)
        if s and s['v'] is not None and not s['m']: return self.cv(s['v'], s['t'])
        return T

    def write(self, inst, st, place, val, weak=False):
        l = place[0]
        if len(place) == 1:
            st[l] = val
            return
        cur = st.get(l, T)
        # pointer in local
        if place[1] == '*' and cur[0] == 'p':
            self.write(inst, st, (cur[1],) + tuple(cur[2]) + tuple(place[2:]), val)
            return
        st[l] = self.upd(inst, st, cur, inst.locals[l], place[1:], val)

    def upd(self, inst, st, cur, t, proj, val):
        if not proj: return val
        e = proj[0]
        w = self.w
        ty = w.types[t] if t is not None else {'k': '?'}
        if cur == T and t is not None: cur = self.top(t)
        if e == '*':
            et = ty.get('e') if ty['k'] in ('ref', 'ptr') else None
            if cur[0] == 'p':
                self.write(inst, st, (cur[1],) + tuple(cur[2]) + tuple(proj[1:]), val)
                return cur
            inner = cur[1] if cur[0] == 'r' else T
            if cur[0] == 'u': return T
            return ('r', self.upd(inst, st, inner, et, proj[1:], val))
        if isinstance(e, int):
            ft = w.field_ty(t, cur[1] if cur[0] == 'a' else None, e) if t is not None else None
            if cur[0] == 'a':
                f = dict(cur[2]); f[e] = self.upd(inst, st, f.get(e, T), ft, proj[1:], val)
                if f[e] == T: del f[e]
                return ('a', cur[1], tuple(sorted(f.items())))
            if cur == T and ty['k'] in ('tuple', 'closure') or (ty['k'] == 'adt' and ty['ak'] == 'struct'):
                nv = self.upd(inst, st, T, ft, proj[1:], val)
                return ('a', None, ((e, nv),)) if nv != T else T
            return T
        if isinstance(e, (list, tuple)) and e[0] == 'd':
            if cur[0] == 'a' and cur[1] == e[1]:
                if len(proj) > 1 and isinstance(proj[1], int):
                    f = dict(cur[2]); ft = w.field_ty(t, e[1], proj[1])
                    f[proj[1]] = self.upd(inst, st, f.get(proj[1], T), ft, proj[2:], val)
                    if f[proj[1]] == T: del f[proj[1]]
                    return ('a', cur[1], tuple(sorted(f.items())))
                return cur
            return cur if cur[0] == 'a' else T
        return T

    def refine(self, inst, st, place, variant):
        """on the edge where place is known to hold `variant`"""
        cur = self.read(inst, st, place)
        if cur[0] == 'a' and cur[1] == variant: return
        if cur[0] == 'sym' and cur[1] == 'tag': return   # what is inside keeps its tag
        if cur[0] == 'u':
            alts = [x for x in cur[1] if x[0] == 'a' and x[1] == variant]
            nv = mk_union(alts) if alts else ('a', variant, ())
        else: nv = ('a', variant, ())
        # do not refine through index projections
        if any(isinstance(e, (list, tuple)) and e[0] in ('i', 'c', 'sub', 'o') for e in place[1:]): return
        self.write(inst, st, tuple(place), nv)

    def operand(self, inst, st, o):
        if o[0] == 'k':
            if 'rt' in o[1]: return ('i', 0)
            return self.cval(o[1])
        return self.read(inst, st, o[1])

    def discr_of(self, inst, place, v):
        """discriminant int(s) for value v at place"""
        t = self.w.place_ty(inst, place)
        if t is None: return T
        return self.discr_val(t, v)

    def discr_val(self, t, v):
        ty = self.w.types[t]
        if ty['k'] != 'adt' or ty['ak'] != 'enum': return T
        if v[0] == 'a' and v[1] is not None: return ('i', int(ty['v'][v[1]][1]))
        if v[0] == 'u' and all(x[0] == 'a' and x[1] is not None for x in v[1]):
            return mk_union([('i', int(ty['v'][x[1]][1])) for x in v[1]])
        return T

    def rvalue(self, inst, st, r, frame):
        k = r[0]
        if k == 'use': return self.operand(inst, st, r[1])
        if k == 'ref':
            place = r[2]
            # reborrow simplification
            if len(place) >= 2 and place[1] == '*':
                base = st.get(place[0], T)
                if base == T: base = self.top(inst.locals[place[0]])
                if base[0] == 'p': return ('p', base[1], tuple(base[2]) + tuple(map(tup, place[2:])), r[1])
                if base[0] == 's' and len(place) == 2: return base
                if base[0] == 'sym' and base[1] == 'tag': return base
                if base[0] in ('r', 'u'):
                    if r[1] and base[0] == 'r':
                        return ('p', place[0], tuple(map(tup, place[1:])), r[1])
                    v = self.proj(inst, st, base, inst.locals[place[0]], place[1:])
                    return ('r', v) if v != ('bot',) else v
            return ('p', place[0], tuple(map(tup, place[1:])), r[1])
        if k == 'discr':
            v = self.read(inst, st, r[1])
            if v == ('bot',): return v
            d = self.discr_of(inst, r[1], v)
            if d == T: return ('dd', tuple(map(tup, r[1])))
            if d[0] == 'u': return ('ddu', tuple(map(tup, r[1])), d)
            return d
        if k == 'cast':
            v = self.operand(inst, st, r[2])
            if v[0] == 'sym' and v[1] == 'tag' and r[1] != 'IntToInt': return v
            if r[1] in ('IntToInt',):
                if v[0] == 'ddu': v = v[2]
                if v[0] in ('i',) or (v[0] == 'u' and all(x[0] == 'i' for x in v[1])): return v
                if v[0] == 'a' and v[1] is not None and r[2][0] != 'k':
                    return self.discr_val(self.w.place_ty(inst, r[2][1]), v)
                return T
            if r[1] == 'reify': return ('f', r[4]) if len(r) > 4 else T
            if r[1] in ('unsize', 'PtrToPtr', 'PointerCoercion', 'Transmute', 'FnPtrToPtr'):
                if r[1] == 'Transmute' and v[0] not in ('r', 'p', 'f', 'a'): return T
                if r[1] == 'Transmute': return T if v[0] == 'a' else v
                return v
            return v if v[0] in ('p', 'r', 'f') else T
        if k == 'bin':
            a = self.operand(inst, st, r[2]); b = self.operand(inst, st, r[3])
            if a[0] == 'ddu' : a = a[2]
            if b[0] == 'ddu' : b = b[2]
            return binop(r[1], a, b)
        if k == 'un':
            a = self.operand(inst, st, r[2])
            if r[1] == 'Not':
                if a[0] == 'i':
                    t = self.w.place_ty(inst, r[2][1]) if r[2][0] != 'k' else None
                    if t is not None and self.w.types[t]['k'] == 'bool': return ('i', 1 - a[1])
                    return T
                if a[0] == 'u' and all(x in (('i', 0), ('i', 1)) for x in a[1]): return a
            if r[1] == 'Neg' and a[0] == 'i': return ('i', -a[1])
            if r[1] == 'PtrMetadata':
                if a[0] == 'p': a = ('r', self.read(inst, st, (a[1],) + a[2]))
                if a[0] == 'r' and a[1][0] == 'arr': return ('i', len(a[1][1]))
                if a[0] == 'r' and a[1][0] == 'sym' and a[1][1] == 'seq': return ('i', len(a[1][2]) - a[1][3])
                if a[0] == 's': return ('i', len(a[1].encode()))
            return T
        if k == 'agg':
            h = r[1]
            vals = [self.operand(inst, st, o) for o in r[2]]
            if h == 'array': return ('arr', tuple(vals)) if len(vals) <= 64 else T
            if isinstance(h, list) and h[0] == 'adt':
                ty = self.w.types[h[1]]
                if ty['ak'] == 'union': return T
                vr = h[2] if ty['ak'] == 'enum' else None
                return ('a', vr, tuple((i, v) for i, v in enumerate(vals) if v != T))
            if h == 'tuple' or isinstance(h, list): return ('a', None, tuple((i, v) for i, v in enumerate(vals) if v != T))
            if h == 'rawptr': return vals[0] if vals else T
            return T
        if k == 'rep': return T
        return T

    # -- calls
    out_depth = 6

    def outval(self, inst, st, v, n=0):
        """turn frame pointers into snapshots"""
        if n > self.out_depth: return T
        k = v[0]
        if k == 'p':
            x = self.read(inst, st, (v[1],) + v[2])
            return ('r', self.outval(inst, st, x, n + 1)) if x != ('bot',) else ('r', T)
        if k == 'r': return ('r', self.outval(inst, st, v[1], n + 1))
        if k == 'a': return ('a', v[1], tuple((i, y) for i, y in ((i, self.outval(inst, st, x, n + 1)) for i, x in v[2]) if y != T))
        if k == 'u': return mk_union([self.outval(inst, st, x, n + 1) for x in v[1]])
        if k == 'arr': return ('arr', tuple(self.outval(inst, st, x, n + 1) for x in v[1]))
        if k in ('dd',): return T
        if k == 'ddu': return v[2]
        if k == 'bot': return T
        return v

    def havoc(self, inst, st, v):
        k = v[0]
        if k == 'p':
            if v[3]:
                self.write(inst, st, (v[1],) + v[2], T)
            else:
                self.havoc(inst, st, self.read(inst, st, (v[1],) + v[2]))
        elif k == 'a':
            for _, x in v[2]: self.havoc(inst, st, x)
        elif k == 'r': self.havoc(inst, st, v[1])
        elif k == 'u':
            for x in v[1]: self.havoc(inst, st, x)
        elif k == 'arr':
            for x in v[1]: self.havoc(inst, st, x)

    def call(self, inst, args, stack=()):
        """analyse inst with abstract args; returns (ret value or None if it never returns, events)"""
        args = tuple(clip(a) for a in args)
        key = (inst.i, args)
        if key in self.memo: return self.memo[key]
        if key in self.active or len(stack) > 90:
            self.active[key] = True
            return (T, frozenset())
        n = self.ctx.get(inst.i, 0)
        if n >= self.max_ctx:
            self.widened += 1
            args = tuple(T for _ in args); key = (inst.i, args)
            if key in self.memo: return self.memo[key]
            if key in self.active: return (T, frozenset())
        self.ctx[inst.i] = n + 1
        self.active[key] = False
        fr = Frame(); fr.inst = inst; fr.events = set(); fr.key = key; fr.args = args; fr.stack = stack
        ret = self.run(inst, args, fr)
        del self.active[key]
        res = (ret, frozenset(fr.events))
        self.memo[key] = res
        self.fn_seen.add(inst.i)
        return res

    def run(self, inst, args, fr):
        body = inst.body
        st0 = {}
        for i in range(inst.argc):
            a = args[i] if i < len(args) else T
            if a == T: a = self.top(inst.locals[i + 1])
            st0[i + 1] = a
        # spread "rust-call" closures: caller handles
        states = {0: st0}
        work = [0]
        ret = None
        visits = {}
        while work:
            bi = work.pop()
            self.steps += 1
            if self.steps > self.max_steps: raise RuntimeError('absint: step budget exceeded in %s' % inst.p)
            visits[bi] = visits.get(bi, 0) + 1
            st = dict(states[bi])
            b = body['b'][bi]
            dead = False
            for s in b['s']:
                if s[0] == '=':
                    v = self.rvalue(inst, st, s[2], fr)
                    if v == ('bot',): dead = True; break
                    self.q.on_stmt(self, fr, bi, s, v, st) if self.q_stmt else None
                    self.write(inst, st, tuple(map(tup, s[1])), v)
                elif s[0] == 'x':
                    st.pop(s[1], None)
                elif s[0] == 'sd':
                    self.write(inst, st, tuple(map(tup, s[1])), ('a', s[2], ()))
            if dead: continue
            outs = self.term(inst, st, b['t'], bi, fr)
            if outs is None:   # return
                v = self.outval(inst, st, st.get(0, T) if st.get(0, T) != T else self.top(inst.locals[0]))
                ret = v if ret is None else join(ret, v)
                continue
            for tb, ns in outs:
                if tb not in states:
                    states[tb] = ns; work.append(tb)
                else:
                    old = states[tb]
                    new = {}
                    changed = False
                    for k, ov in old.items():
                        if k in ns:
                            nv = ns[k]
                            if ov == nv: new[k] = ov
                            else:
                                j = join(ov, nv)
                                if visits.get(tb, 0) > 6 and j != ov: j = T
                                if j != ov: changed = True
                                if j != T: new[k] = clip(j, 2 + clip.__defaults__[0])
                                else: changed = changed or ov != T
                        else: changed = True
                    if changed:
                        states[tb] = new
                        if tb not in work: work.append(tb)
        return ret

    q_stmt = True

    def term(self, inst, st, t, bi, fr):
        k = t[0]
        if k == 'goto': return [(t[1], st)]
        if k == 'return': return None
        if k == 'drop':
            self.q.on_drop(self, fr, bi, t, st) if hasattr(self.q, 'on_drop') else None
            return [(t[2], st)]
        if k == 'assert':
            c = self.operand(inst, st, t[1])
            if c[0] == 'i' and bool(c[1]) != bool(t[2]): return []
            return [(t[3], st)]
        if k == 'switch':
            v = self.operand(inst, st, t[1])
            place = None
            if v[0] == 'dd': place = v[1]; v = T
            elif v[0] == 'ddu': place = v[1]; v = v[2]
            vals = None
            if v[0] == 'i': vals = {v[1]}
            elif v[0] == 'u' and all(x[0] == 'i' for x in v[1]): vals = {x[1] for x in v[1]}
            outs = []
            listed = set()
            vmap = None
            if place is not None:
                pt = self.w.place_ty(inst, place)
                if pt is not None and self.w.types[pt]['k'] == 'adt':
                    vmap = {int(x[1]): i for i, x in enumerate(self.w.types[pt]['v'])}
            nbits = None
            for sv, tb in t[2]:
                sv = int(sv)
                listed.add(sv)
                if vals is not None and not any(x == sv or (x < 0 and (sv - x) in (1 << 8, 1 << 16, 1 << 32, 1 << 64, 1 << 128)) for x in vals): continue
                ns = dict(st)
                if vmap is not None and sv in vmap: self.refine(inst, ns, place, vmap[sv])
                elif t[1][0] != 'k' and len(t[1][1]) == 1: ns[t[1][1][0]] = ('i', sv)
                outs.append((tb, ns))
            if vals is None:
                rest = None
                if vmap is not None:
                    rest = set(vmap) - listed
                if rest is None or rest:
                    ns = dict(st)
                    if rest is not None and len(rest) == 1: self.refine(inst, ns, place, vmap[next(iter(rest))])
                    elif rest is not None and len(rest) <= MAXU and vmap is not None:
                        # remember the remaining variants
                        cur = self.read(inst, ns, place)
                        if cur == T and not any(isinstance(e, (list, tuple)) and e[0] in ('i', 'c', 'sub', 'o') for e in place[1:]):
                            self.write(inst, ns, tuple(place), mk_union([('a', vmap[x], ()) for x in rest]))
                    outs.append((t[3], ns))
            else:
                rest = {x for x in vals if x not in listed and not any((s - x) in (1 << 8, 1 << 16, 1 << 32, 1 << 64, 1 << 128) for s in listed if x < 0)}
                if rest:
                    ns = dict(st)
                    if vmap is not None:
                        cur = self.read(inst, ns, place)
                        if cur[0] == 'u':
                            alts = [x for x in cur[1] if x[0] == 'a' and int(self.w.types[self.w.place_ty(inst, place)]['v'][x[1]][1]) in rest]
                            if alts: self.write(inst, ns, tuple(place), mk_union(alts))
                    outs.append((t[3], ns))
            return outs
        if k == 'call':
            rawargs = [self.operand(inst, st, o) for o in t[2]]
            if any(a == ('bot',) for a in rawargs): return []
            args = [self.outval(inst, st, a) for a in rawargs]
            c = t[1]
            if 'ptr' in c:
                pv = self.operand(inst, st, c['ptr'])
                if pv[0] == 'f' and pv[1] >= 0: targets = [self.w.insts[pv[1]]]
                elif pv[0] == 'u' and all(x[0] == 'f' for x in pv[1]): targets = [self.w.insts[x[1]] for x in pv[1]]
                else: targets = self.w.callee(c)
            else: targets = self.w.callee(c)
            if 'ptr' in c and len(targets) != 1: targets = self.q.on_pointer(self, fr, t, targets, args)
            self.q.on_call(self, fr, bi, t, targets, args)
            ret = None
            returned = False
            for x in targets:
                r = self.apply(inst, st, x, args, fr)
                if r is not None:
                    returned = True
                    ret = r if ret is None else join(ret, r)
            if not targets: returned = True; ret = T
            for o, a in zip(t[2], rawargs): self.havoc(inst, st, a)
            if t[4] < 0 or not returned: return []
            dt = self.w.place_ty(inst, t[3])
            if ret == T: ret = self.top(dt)
            self.write(inst, st, tuple(map(tup, t[3])), ret)
            return [(t[4], st)]
        return []

    def apply(self, inst, st, x, args, fr):
        """-> abstract return value, or None when it does not return"""
        m = self.q.model(self, x, args, fr)
        if m is not None: return m if m != ('never',) else None
        if x.k == 'intrinsic':
            if x.n == 'discriminant_value' and args:
                a = args[0]
                v = a[1] if a[0] == 'r' else T
                if v == T and x.s: v = self.top(x.s[0])
                if v != T and x.s: return self.discr_val(x.s[0], v)
            if x.n in ('unlikely', 'likely', 'black_box') and args: return args[0]
            if x.n == 'cold_path': return T
            if x.n in ('abort', 'unreachable'): return None
            return T
        if x.body is not None and self.q.descend(self, x, args):
            if x.k == 'item' and x.p.endswith('}') and len(args) == 2 and x.argc != len(args) and args[1][0] in ('a', 'T'):
                f = dict(args[1][2]) if args[1][0] == 'a' else {}
                args = [args[0]] + [f.get(i, T) for i in range(x.argc - 1)]
            elif x.k == 'item' and '{closure' in x.p.rsplit('::', 1)[-1] and len(args) == 2 and x.argc >= 1:
                # rust-call ABI: the second argument is a tuple of the actual arguments
                f = dict(args[1][2]) if args[1][0] == 'a' and args[1][1] is None else {}
                args = [args[0]] + [f.get(i, T) for i in range(x.argc - 1)]
            r, ev = self.call(x, args, fr.stack + (fr.inst.i,))
            fr.events |= ev
            return r
        return T


def tup(e): return tuple(e) if isinstance(e, list) else e


def binop(op, a, b):
    if a[0] == 'u' or b[0] == 'u':
        xs = a[1] if a[0] == 'u' else [a]; ys = b[1] if b[0] == 'u' else [b]
        if len(xs) * len(ys) > 64: return T
        return mk_union([binop(op, x, y) for x in xs for y in ys])
    if a[0] == 'i' and b[0] == 'i':
        x, y = a[1], b[1]
        if op == 'Eq': return ('i', int(x == y))
        if op == 'Ne': return ('i', int(x != y))
        if op == 'Lt': return ('i', int(x < y))
        if op == 'Le': return ('i', int(x <= y))
        if op == 'Gt': return ('i', int(x > y))
        if op == 'Ge': return ('i', int(x >= y))
        if op in ('Add', 'AddUnchecked'): return ('i', x + y)
        if op in ('Sub', 'SubUnchecked'): return ('i', x - y)
        if op in ('Mul',): return ('i', x * y)
        if op == 'Rem' and x >= 0 and y > 0: return ('i', x % y)
        if op == 'Div' and x >= 0 and y > 0: return ('i', x // y)
        if op == 'BitAnd': return ('i', x & y)
        if op == 'BitOr': return ('i', x | y)
        if op == 'BitXor': return ('i', x ^ y)
        if op == 'Shl' and 0 <= y < 64: return ('i', x << y)
        if op == 'Shr' and 0 <= y < 128: return ('i', x >> y)
    return T
