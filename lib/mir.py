"""Loads the MIR facts dumped by /verif/driver and offers call graph and CFG queries over them."""
import json, collections, functools

WS = ('cordy_sys', 'cordy', 'cordy_web')


class Inst:
    __slots__ = ('i', 'p', 'n', 'c', 'k', 's', 'sp', 'self_ty', 'trait', 'traitdef', 'dropty', 'body', 'w', '_succ')

    def __init__(self, w, d):
        self.w = w
        self.i = d['i']; self.p = d['p']; self.n = d['n']; self.c = d['c']; self.k = d['k']; self.s = d['s']; self.sp = d['sp']
        self.self_ty = d.get('self'); self.trait = d.get('trait'); self.traitdef = d.get('traitdef'); self.dropty = d.get('dropty', -1)
        self.body = None; self._succ = None

    @property
    def ws(self): return self.c in WS
    @property
    def blocks(self): return self.body['b'] if self.body else []
    @property
    def locals(self): return self.body['l']
    @property
    def argc(self): return self.body['ac']

    def loc(self, line=None):
        if self.body and self.body['sp']: f, l = self.body['sp']
        elif self.sp: f, l = self.sp
        else: return '?'
        return '%s:%d' % (self.w.rel(self.w.files[f]), line or l)

    @property
    def file(self):
        sp = self.sp or (self.body and self.body['sp'])
        return self.w.rel(self.w.files[sp[0]]) if sp else '?'

    def short(self):
        return short(self.p)

    def succ(self):
        if self._succ is None:
            self._succ = [succs(b['t']) for b in self.blocks]
        return self._succ

    def __repr__(self): return '<%s>' % self.p


def short(p):
    import re
    p = re.sub(r'\bcordy_sys::', '', p)
    p = p.replace('cordy_sys::', '')
    return p


def succs(t, unwind=False):
    """normal (non unwind) successors"""
    k = t[0]
    if k == 'goto': return [t[1]]
    if k == 'switch': return [b for _, b in t[2]] + [t[3]]
    if k == 'drop': return [t[2]] + ([t[3]] if unwind and t[3] >= 0 else [])
    if k == 'call': return ([t[4]] if t[4] >= 0 else []) + ([t[5]] if unwind and t[5] >= 0 else [])
    if k == 'assert': return [t[3]] + ([t[5]] if unwind and t[5] >= 0 else [])
    return []


class World:
    def __init__(self, path, root='/repo'):
        d = json.load(open(path))
        self.root = root
        self.crate = d['crate']
        self.types = d['types']
        self.files = d['files']
        self.insts = [Inst(self, x) for x in d['insts']]
        for b in d['bodies']: self.insts[b['i']].body = b
        self.vtables = d['vtables']
        self.reified = d['reified']
        self.consts = {c['p']: c for c in d['consts']}
        self.statics = {c['p']: c for c in d['statics']}
        self.roots = d['roots']
        self.by_name = collections.defaultdict(list)
        self.by_path = collections.defaultdict(list)
        for x in self.insts:
            self.by_name[x.n].append(x)
            self.by_path[x.p].append(x)
        self._cg = {}
        self._rev = None
        self._adt = {}
        for i, t in enumerate(self.types):
            if t['k'] == 'adt': self._adt.setdefault(t['d'], []).append(i)
        self._contains = {}

    def rel(self, f):
        r = self.root.rstrip('/') + '/'
        return f[len(r):] if f.startswith(r) else f

    # ---- types
    def tstr(self, t): return self.types[t]['s']

    def adts(self, suffix):
        """type ids of ADTs whose def path ends with `suffix` on a :: boundary"""
        out = []
        for d, ids in self._adt.items():
            if d == suffix or d.endswith('::' + suffix): out += ids
        return out

    def adt_defs(self, suffix):
        return [d for d in self._adt if d == suffix or d.endswith('::' + suffix)]

    def variants(self, suffix):
        """{name: (index, discr, fields)} of the enum"""
        ids = self.adts(suffix)
        if not ids: raise Missing('enum ' + suffix)
        t = self.types[ids[0]]
        return {v[0]: (i, int(v[1]), v[2]) for i, v in enumerate(t['v'])}

    def field_ty(self, t, variant, f):
        ty = self.types[t]
        k = ty['k']
        if k == 'adt':
            vs = ty['v']
            v = vs[variant if variant is not None else 0] if vs else None
            if v and f < len(v[2]): return v[2][f][1]
            return None
        if k in ('tuple', 'closure'): return ty['f'][f] if f < len(ty['f']) else None
        return None

    def place_ty(self, inst, place, upto=None):
        t = inst.locals[place[0]]
        variant = None
        for e in (place[1:] if upto is None else place[1:upto]):
            if t is None: return None
            if e == '*':
                ty = self.types[t]
                if ty['k'] in ('ref', 'ptr'): t = ty['e']
                elif ty['k'] == 'adt' and ty['a']: t = ty['a'][0]
                else: return None
                variant = None
            elif isinstance(e, int):
                t = self.field_ty(t, variant, e); variant = None
            elif e[0] == 'd': variant = e[1]
            elif e[0] in ('i', 'c'):
                ty = self.types[t]
                t = ty.get('e'); variant = None
            elif e[0] == 'sub': pass
            else: return None
        return t

    def strip_ref(self, t):
        while t is not None and self.types[t]['k'] in ('ref', 'ptr'): t = self.types[t]['e']
        return t

    def ty_contains(self, t, pred, seen=None):
        """does type t (by value, not through refs/pointers... but through generic args) contain a type satisfying pred(def)"""
        if seen is None: seen = set()
        if t in seen: return False
        seen.add(t)
        ty = self.types[t]
        k = ty['k']
        if k == 'adt':
            if pred(ty): return True
            for v in ty['v']:
                for _, ft in v[2]:
                    if self.ty_contains(ft, pred, seen): return True
            return any(self.ty_contains(a, pred, seen) for a in ty['a'])
        if k in ('tuple', 'closure'): return any(self.ty_contains(f, pred, seen) for f in ty['f'])
        if k in ('array', 'slice'): return self.ty_contains(ty['e'], pred, seen)
        return False

    # ---- functions
    def fns(self, path=None, name=None, ws=True, self_ty=None, file=None):
        out = []
        for x in (self.by_name[name] if name else self.insts):
            if ws and not x.ws: continue
            if x.body is None: continue
            if path and not (x.p == path or x.p.endswith('::' + path)): continue
            if self_ty and x.self_ty != self_ty and not (x.self_ty or '').startswith(self_ty) : continue
            if file and x.file != file: continue
            out.append(x)
        return out

    def need(self, path=None, **kw):
        r = self.fns(path, **kw)
        if not r: raise Missing('function %s %s' % (path or '', kw or ''))
        return r

    def callee(self, c):
        """list of possible target insts for a callee dict"""
        if 'i' in c:
            if 'virt' in c: return self.virt(c['virt'], c['n'])
            return [self.insts[c['i']]]
        if 'ptr' in c: return self.fnptr_targets(c['t'])
        return []

    def virt(self, trait, n):
        return [self.insts[v['m'][n]] for v in self.vtables if v['trait'] == trait and n < len(v['m']) and v['m'][n] >= 0] or \
               [self.insts[m] for v in self.vtables for m in v['m'] if m >= 0 and self.insts[m].trait == trait]

    @functools.lru_cache(None)
    def fnptr_targets(self, t):
        s = self.types[t]['s']
        out = []
        for r in self.reified:
            x = self.insts[r]
            if x.body is None: out.append(x); continue
            n = s.count(',') + 1
            import re
            m = re.match(r'^(?:for<[^>]*> )?(?:unsafe )?(?:extern "[^"]*" )?fn\((.*)\)(?: -> (.*))?$', s)
            if not m: out.append(x); continue
            args = split_args(m.group(1))
            if len(args) != x.argc:
                continue
            ok = all(norm(self.types[x.locals[k + 1]]['s']) == norm(a) for k, a in enumerate(args))
            if ok: out.append(x)
        return out

    def callees(self, inst):
        """set of inst indices called (or dropped, or referenced) from inst"""
        if inst.i in self._cg: return self._cg[inst.i]
        out = set()
        for bi, b in enumerate(inst.blocks):
            t = b['t']
            for st in b['s']:   # a closure turned into a `dyn Fn` counts as called where it is turned
                if st[0] == '=' and st[2][0] == 'cast' and st[2][1] == 'unsize': out |= self.dyn_fn(inst, st[2])
            if t[0] == 'call':
                if t[1].get('virt') in DYN_FN: continue
                for x in self.callee(t[1]): out.add(x.i)
            elif t[0] == 'drop' and t[4] >= 0:
                out.add(t[4])
                d = self.insts[t[4]]
        if inst.k == 'drop' and inst.dropty >= 0 and self.types[inst.dropty]['k'] == 'dyn':
            for v in self.vtables:
                if v['trait'] == self.types[inst.dropty]['d']: out.add(v['drop'])
        self._cg[inst.i] = out
        return out

    def dyn_fn(self, inst, r):
        def pointee(t):
            ty = self.types[t]
            return ty['e'] if ty['k'] in ('ref', 'ptr') else ty['a'][0] if ty['k'] == 'adt' and ty['a'] else None
        d = pointee(r[3])
        if d is None or self.types[d]['k'] != 'dyn' or self.types[d].get('d') not in DYN_FN: return set()
        src = self.place_ty(inst, r[2][1]) if r[2][0] != 'k' else r[2][1].get('t')
        e = pointee(src) if src is not None else None
        out = set()
        for v in self.vtables:
            if v['trait'] in DYN_FN and v['t'] == e: out |= {m for m in v['m'] if m >= 0}
        return out

    def reach(self, start, stop=lambda x: False):
        seen = set(); st = [x.i if isinstance(x, Inst) else x for x in start]
        while st:
            i = st.pop()
            if i in seen: continue
            seen.add(i)
            if stop(self.insts[i]): continue
            st += [j for j in self.callees(self.insts[i]) if j not in seen]
        return seen

    def rev(self):
        if self._rev is None:
            r = collections.defaultdict(set)
            for x in self.insts:
                if x.body is None: continue
                for j in self.callees(x): r[j].add(x.i)
            self._rev = r
        return self._rev

    def reaching(self, targets, through=lambda x: True):
        """all instances from which a target is reachable"""
        r = self.rev(); seen = set(); st = [x.i if isinstance(x, Inst) else x for x in targets]
        while st:
            i = st.pop()
            if i in seen: continue
            seen.add(i)
            for j in r[i]:
                if j not in seen and through(self.insts[j]): st.append(j)
        return seen

    def path_to(self, start, targets, stop=lambda x: False):
        targets = set(t.i if isinstance(t, Inst) else t for t in targets)
        prev = {}; q = collections.deque()
        for s in start:
            prev[s.i] = None; q.append(s.i)
        while q:
            i = q.popleft()
            if i in targets:
                out = []
                while i is not None: out.append(self.insts[i]); i = prev[i]
                return out[::-1]
            if stop(self.insts[i]): continue
            for j in sorted(self.callees(self.insts[i])):
                if j not in prev: prev[j] = i; q.append(j)
        return None


DYN_FN = ('std::ops::FnMut', 'std::ops::Fn', 'std::ops::FnOnce')


class Missing(Exception):
    pass


def norm(s):
    import re
    s = re.sub(r"for<[^>]*> ", '', s)
    s = re.sub(r"'[a-z_0-9]+ ", '', s)
    return s.replace(' ', '')


def split_args(s):
    out = []; d = 0; cur = ''
    for c in s:
        if c in '<([': d += 1
        elif c in '>)]': d -= 1
        if c == ',' and d == 0: out.append(cur.strip()); cur = ''
        else: cur += c
    if cur.strip(): out.append(cur.strip())
    return out


# ---------- pretty printing for debugging
def pplace(p):
    s = '_%d' % p[0]
    for e in p[1:]:
        if e == '*': s = '(*%s)' % s
        elif isinstance(e, int): s += '.%d' % e
        else: s += '{%s}' % ','.join(map(str, e))
    return s


def pop(w, o):
    if o[0] in 'cm' and o[0] != 'k': return ('move ' if o[0] == 'm' else '') + pplace(o[1])
    c = o[1]
    v = c.get('v')
    t = w.types[c['t']]['s'] if 't' in c else ''
    if 'fd' in str(v): return t
    return 'const(%s:%s%s)' % (json.dumps(v)[:60], t, ' from ' + c['from'] if 'from' in c else '')


def show(w, inst):
    out = ['fn %s [%s] argc=%d %s' % (inst.p, ', '.join(w.tstr(s) for s in inst.s), inst.argc, inst.loc())]
    for n, p in inst.body['n']: out.append('  dbg %s = %s' % (n, pplace(p)))
    for i, l in enumerate(inst.locals): out.append('  _%d: %s' % (i, w.tstr(l)))
    for bi, b in enumerate(inst.blocks):
        if b.get('c'): continue
        out.append(' bb%d:' % bi)
        for s in b['s']:
            if s[0] == '=':
                r = s[2]
                if r[0] == 'use': rs = pop(w, r[1])
                elif r[0] == 'ref': rs = ('&mut ' if r[1] else '&') + pplace(r[2])
                elif r[0] == 'discr': rs = 'discr ' + pplace(r[1])
                elif r[0] == 'agg':
                    h = r[1]
                    if isinstance(h, list) and h[0] == 'adt':
                        ty = w.types[h[1]]; h = ty['d'] + '::' + ty['v'][h[2]][0]
                    rs = '%s(%s)' % (h, ', '.join(pop(w, o) for o in r[2]))
                elif r[0] == 'cast': rs = 'cast %s %s as %s' % (r[1], pop(w, r[2]), w.tstr(r[3]))
                elif r[0] == 'bin': rs = '%s(%s, %s)' % (r[1], pop(w, r[2]), pop(w, r[3]))
                else: rs = str(r)
                out.append('   %s = %s  // %s' % (pplace(s[1]), rs, s[3]))
            elif s[0] != 'x': out.append('   %s' % s)
        t = b['t']
        if t[0] == 'call':
            c = t[1]
            nm = w.insts[c['i']].p + '<' + ','.join(w.tstr(x)[:60] for x in w.insts[c['i']].s) + '>' if 'i' in c else str(c)
            out.append('   %s = CALL %s(%s) -> bb%d  // %d' % (pplace(t[3]), nm, ', '.join(pop(w, a) for a in t[2]), t[4], t[6]))
        elif t[0] == 'switch': out.append('   switch %s %s else bb%d // %d' % (pop(w, t[1]), t[2], t[3], t[4]))
        elif t[0] == 'drop': out.append('   drop %s -> bb%d // %d' % (pplace(t[1]), t[2], t[5]))
        else: out.append('   %s' % (t,))
    return '\n'.join(out)
