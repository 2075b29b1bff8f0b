"""Name resolution of the compiler for one abstract symbol table.

The tables (variables of the current, the enclosing and the global frame; captured variables; module members) are opaque
collections of which only is known, per scenario, what kind of entry they hold: none, entries that match the name looked
for, or entries that do not."""
from linear import *
from mir import Missing

PARSER = 'cordy_sys::compiler::parser::Parser'
FD = N('FD')
PASS = {'deref', 'deref_mut', 'iter', 'iter_mut', 'into_iter', 'as_slice', 'as_mut_slice', 'as_ref', 'as_mut', 'borrow', 'borrow_mut', 'by_ref', 'copied', 'cloned', 'fuse', 'clone', 'skip', 'take_while', 'as_str', 'to_string', 'to_owned', 'values', 'into', 'split_last_mut'}


def fields(w, d):
    ids = w.adts(d)
    if not ids: raise Missing('type ' + d)
    return {f[0]: i for i, f in enumerate(w.types[ids[0]]['v'][0][2])}


def struct(w, d, **kw):
    f = fields(w, d)
    for k in kw:
        if k not in f: raise Missing('field %s of %s' % (k, d))
    return ('a', None, tuple(sorted((f[k], v) for k, v in kw.items() if v != T)))


def variant(w, d, name, *vals):
    v = w.variants(d).get(name)
    if v is None: raise Missing('variant %s of %s' % (name, d))
    return ('a', v[0], tuple((i, x) for i, x in enumerate(vals) if x != T))


class ResolveQ(Query):
    """scenario: dict with cur/enc/glob (list of locals, see local()), upenc/upmid (list of captured), fd, md, module, native"""
    def __init__(self, w, sc):
        Query.__init__(self); self.w = w; self.sc = sc
        self.events = set(); self.pushed = set()
        self.lq = 'semantic::LValueReference'
        self.parser = [i for i, t in enumerate(w.types) if t.get('k') == 'adt' and t['d'] == PARSER]
        pf = {f[0]: i for i, f in enumerate(w.types[self.parser[0]]['v'][0][2])}
        self.pv = ('a', None, tuple(sorted((pf[k], v) for k, v in (('function_depth', sc.get('fd', FD)), ('scope_depth', sc.get('sd', ('i', 5))), ('module_depth', ('i', sc.get('md', 0)))))))
        self.opt = {}

    def ends(self, t, *names):
        ty = self.w.types[t]
        return ty.get('k') == 'adt' and ty['d'].startswith('cordy_sys::') and ty['d'].rsplit('::', 1)[-1] in names

    def elem(self, t):
        """what a collection type holds: Locals, Local, UpValue, Module or field"""
        ty = self.w.types[t]
        if ty['k'] in ('ref', 'ptr'): return self.elem(ty['e'])
        if ty['k'] == 'slice': return self.kind(ty['e'])
        if ty['k'] == 'adt' and ty['a']:
            for a in ty['a']:
                if isinstance(a, int):
                    k = self.kind(a) or self.elem(a)
                    if k: return k
        return None

    def kind(self, t):
        ty = self.w.types[t]
        if ty.get('k') == 'adt' and ty['d'].startswith('cordy_sys::compiler::') and ty['d'].rsplit('::', 1)[-1] in ('Locals', 'Local', 'UpValue', 'Module', 'LateBinding'): return ty['d'].rsplit('::', 1)[-1]
        return None

    def assume_ty(self, eng, t):
        ty = self.w.types[t]
        if ty.get('k') != 'adt': return None
        if t in self.parser: return self.pv
        if ty['d'].endswith('::Vec'):
            k = self.elem(t)
            if k == 'Locals': return C('frames')
            if k == 'Module': return C('modules')
        return None

    def some(self, v):
        return ('a', 1, ((0, v),)) if v != T else ('a', 1, ())

    none = ('a', 0, ())

    def local(self, base, spec):
        """spec: global | local | uninit | other | this"""
        ref = 'semantic::Reference'
        name = variant(self.w, ref, 'This') if spec == 'this' else variant(self.w, ref, 'Named', C('other' if spec == 'other' else 'want'))
        g = spec in ('global', 'uninitglobal')
        return struct(self.w, 'semantic::Local', name=name, index=N('idx@' + base), scope_depth=('i', 0 if g else self.sc.get('lsd', 1)), function_depth=('i', 0 if g else 1), initialized=('i', 0 if spec.startswith('uninit') else 1))

    def up(self, base, spec):
        """spec: same | otherkind | otherindex"""
        k = 'local' if base == 'enc' else 'outer'
        is_local = ('i', int((base == 'enc') == (spec != 'otherkind')))
        return struct(self.w, 'semantic::UpValue', is_local=is_local, index=C('DIFF' if spec == 'otherindex' else 'SAME'))

    def members(self, base, t):
        """(list of abstract elements, may the collection end) of a collection"""
        k = self.elem(t)
        sc = self.sc
        if k == 'Local':
            p = sc.get(base, [])
            return [self.local(base, s) for s in p], not p or any(s in ('other', 'this', 'uninit', 'uninitglobal') for s in p) or base in sc.get('ends', ())
        if k == 'UpValue':
            p = sc.get('up' + base, [])
            return [self.up(base, s) for s in p], not p or p != ['same']
        if k == 'Locals': return [C('enc')], True
        if k == 'Module':
            if not sc.get('md'): return [], True
            return [self.module()], sc.get('method') != 'static'
        if base == 'modf': return ([('a', None, ((0, ('r', C('want'))), (1, ('r', N('field')))))] if sc.get('field') else []), not sc.get('field')
        if base in ('modm', 'modn'): return [], True
        return None, True

    def module(self, last=False):
        return struct(self.w, 'semantic::Module', is_module=('i', int(self.sc.get('is_module', 0))), methods=C('modn' if last and self.sc.get('outer') else 'modm'), fields=C('modf'))

    def method(self):
        ids = [d for d in self.w.adt_defs('Method') if d.startswith('cordy_sys::vm')]
        return ('a', None, ((0, N('method')), (1, ('i', int(self.sc['method'] == 'instance')))))

    def model(self, eng, x, args, fr):
        sc = self.sc
        if x.ws:
            if x.n == 'find' and 'NativeFunction' in x.p:
                v = strip(args[0]) if args else T
                if not is_tag(v) or v[2] not in ('want',): self.events.add(('native', show(v)))
                return self.some(C('native')) if sc.get('native') else self.none
            for k in range(1, x.argc + 1):
                if x.body is not None and self.ends(x.locals[k], 'ParserErrorType'):
                    a = args[k - 1]
                    self.events.add(('error', a[1] if a[0] == 'a' else None)); return T
            return None
        if not args: return None
        a0 = args[0]; v = strip(a0)
        n = x.n
        # comparison of names, and of indices of captured variables
        if n in ('eq', 'ne') and len(args) == 2:
            a, b = strip(args[0]), strip(args[1])
            r = self.same(a, b)
            if r is not None: return ('i', int(r == (n == 'eq')))
        if n in ('min', 'max') and len(args) == 2 and v[0] == 'i' and strip(args[1])[0] == 'i': return ('i', (min if n == 'min' else max)(v[1], strip(args[1])[1]))
        if v[0] == 'a' and n in ('into_iter', 'rev') and 'Range' in x.p + ''.join(self.w.tstr(s) for s in x.s or () if isinstance(s, int)):
            f = dict(v[2])
            return ('sym', 'rng', n == 'rev', f.get(0, T), f.get(1, T))
        if is_rng(v):
            if n in ('into_iter', 'by_ref', 'iter'): return v
            if n == 'rev': return ('sym', 'rng', not v[2], v[3], v[4])
            if n in ('next', 'next_back'): return self.range_next(v, n)
        if not is_tag(v): return None
        base, _, fl = v[2].partition('|') if isinstance(v[2], str) else (v[2], '', '')
        rev = 'R' in fl; enum = 'E' in fl
        def tag(b, r, e): return C(b + ('|' + 'R' * r + 'E' * e if r or e else ''))
        if n == 'rev': return tag(base, not rev, enum)
        if n == 'enumerate': return tag(base, rev, True)
        if n in PASS: return v if n in ('into_iter', 'iter', 'iter_mut', 'rev') else a0
        ts = [s for s in x.s or () if isinstance(s, int)]
        def coll():
            for s in ts:
                if self.kind(s): return s, self.kind(s)
                k = self.elem(s)
                if k: return s, k
            return None, 'field' if base == 'modf' else None
        t, k = coll()
        if n in ('next', 'next_back', 'nth'):
            m, end = self.elements(base, k, t)
            if m is None: return T
            back = rev != (n == 'next_back')
            if k in ('Local', 'Module', 'Locals') and not back: self.events.add(('order', base))
            outs = [self.some(self.wrap(e, enum, base)) for e in m] + ([self.none] if end else [])
            return self.u(outs)
        if n in ('find', 'rfind', 'position', 'rposition', 'any', 'find_map', 'find_or_first', 'all', 'filter', 'map'):
            return self.search(eng, x, args, fr, n, base, k, t, rev, enum)
        if base == 'frames':
            if n in ('last', 'last_mut'): return self.some(('r', C('cur')))
            if n in ('first', 'first_mut'): return self.some(('r', C('glob')))
            if n in ('index', 'index_mut', 'get', 'get_mut', 'get_unchecked', 'get_unchecked_mut') and len(args) > 1:
                r = ('r', C(self.frame_at(strip(args[1]))))
                return self.some(r) if n.startswith('get') and 'unchecked' not in n else r
            return T
        if base == 'modules':
            if n in ('last', 'last_mut'): return self.some(('r', self.module(last=True)))
            if n in ('index', 'index_mut') and len(args) > 1: return ('r', self.module())
            if n in ('first', 'first_mut', 'get', 'get_mut'): self.events.add(('order', base)); return self.some(('r', self.module()))
            if n == 'is_empty': return ('i', int(not sc.get('md')))
            return T
        if k == 'UpValue':
            if n == 'push':
                a = args[1]
                f = dict(a[2]) if a[0] == 'a' else {}
                uf = fields(self.w, 'semantic::UpValue')
                self.events.add(('push', base, show(f.get(uf['is_local'], T)), f.get(uf['index'], T)))
                self.pushed.add(base)
                return T
            if n == 'len': return N('n@' + base, int(base in self.pushed))
        if k in ('Local', 'UpValue') and n in ('index', 'index_mut', 'get', 'get_mut', 'last', 'last_mut'):
            i = strip(args[1]) if len(args) > 1 else T
            ok = k == 'Local' and i == N('idx@' + base)
            r = ('r', C('%s@%s' % (k.lower(), base) if ok else 'bad'))
            return r if n.startswith('index') else self.some(r)
        if base in ('modm', 'modf', 'modn'):
            key = strip(args[1]) if len(args) > 1 else T
            if n in ('get', 'get_mut', 'contains_key', 'get_full', 'get_index_of', 'get_key_value'):
                if key != C('want'): self.events.add(('key', show(key))); return T
                has = sc.get('method') if base == 'modm' else sc.get('field') if base == 'modf' else None
                val = ('r', self.method() if base == 'modm' and has else N('field'))
                if n == 'contains_key': return ('i', int(bool(has)))
                if not has: return self.none
                if n in ('get', 'get_mut'): return self.some(val)
                if n == 'get_key_value': return self.some(('a', None, ((0, ('r', C('want'))), (1, val))))
                return T
        return None

    def wrap(self, e, enum, base):
        e = ('r', e) if e[0] != 'a' or not base.startswith('mod') or base == 'modules' else e
        return ('a', None, ((0, N('pos@' + base)), (1, e))) if enum else e

    def elements(self, base, k, t):
        if k == 'field': return self.members(base, self.parser[0])
        if t is None: return None, True
        if self.kind(t): return self.members2(base, k)
        return self.members2(base, k)

    def members2(self, base, k):
        for t, ty in enumerate(self.w.types):
            if ty['k'] == 'adt' and ty['d'].endswith('::Vec') and self.elem(t) == k: return self.members(base, t)
        return None, True

    def search(self, eng, x, args, fr, n, base, k, t, rev, enum):
        clo = [s for s in x.s or () if isinstance(s, int) and self.w.types[s]['k'] == 'closure']
        ys = [y for s in clo for y in self.w.by_path.get(self.w.types[s]['d'], ()) if y.body is not None]
        m, end = self.elements(base, k, t)
        if m is None or not ys: return None
        back = rev != (n in ('rfind', 'rposition'))
        if k in ('Local', 'Module', 'Locals') and n in ('find', 'rfind', 'position', 'rposition', 'find_map') and not back: self.events.add(('order', base))
        if n in ('map', 'filter'): return None
        outs = []
        for e in m:
            el = self.wrap(e, enum, base)
            for y in ys:
                r, ev = eng.call(y, [('r', args[1]) if self.w.types[y.locals[1]]['k'] == 'ref' else args[1], ('r', el) if n in ('find', 'rfind') else el][:y.argc])
                fr.events |= ev
                if n == 'find_map': outs.append(r); continue
                hit = r != ('i', 0); miss = r != ('i', 1)
                if n == 'any': outs.append(r if r is not None else T); continue
                if hit: outs.append(self.some(el if n in ('find', 'rfind') else N('pos@' + base)))
                if miss: outs.append(self.none)
        if end or not m: outs.append(self.none if n != 'any' else ('i', 0))
        return self.u(outs)

    def u(self, vs):
        vs = [v for v in vs if v is not None]
        if not vs: return ('never',)
        r = vs[0]
        for v in vs[1:]: r = join(r, v)
        return r

    def frame_at(self, i):
        l = lin_of(i)
        fd = self.sc.get('fd', FD)
        if i == ('i', 0): return 'glob' if fd != ('i', 0) else 'cur'
        if i == fd: return 'cur'
        if i == T or i[0] == 'u': return 'enc'
        if l == (('depth',), 0): return 'enc'
        if l == (('mid',), 0): return 'mid'
        if l and l[0] == ('FD',) and l[1] < 0: return 'enc'
        return 'bad'

    def range_next(self, v, n):
        rev = v[2] != (n == 'next_back')
        a, b = v[3], v[4]
        if rev and a == ('i', 0) and b == self.sc.get('fd', FD): return self.u([self.some(N('depth'))] + ([self.none] if not self.sc.get('enc') or 'local' not in self.sc['enc'] or 'enc' in self.sc.get('ends', ()) else []))
        if not rev and b == FD and (a == N('depth', 1) or a == T or all(lin_of(x) and lin_of(x)[0] == ('FD',) and lin_of(x)[1] <= 0 for x in (a[1] if a[0] == 'u' else [a]))):
            self.pushed.discard('mid')
            return self.u(([self.some(N('mid'))] if self.sc.get('mid', True) else []) + [self.none])
        return self.u([self.some(N('bad')), self.none])

    def same(self, a, b):
        for p, q in ((a, b), (b, a)):
            if is_tag(p) and p[2] in ('SAME', 'DIFF') and not is_tag(q): self.events.add(('compared', show(q))); return p[2] == 'SAME'
        names = ('want', 'other')
        if is_tag(a) and is_tag(b) and a[2] in names and b[2] in names: return a[2] == b[2]
        return None

    def descend(self, eng, x, args):
        if x.body is None: return False
        if x.ws: return x.p.startswith('cordy_sys::compiler') or x.self_ty is not None and 'Method' in x.self_ty
        return len(x.blocks) <= 10 and (x.p.startswith('std::option') or x.p.startswith('core::option') or 'Option' in x.p or 'PartialEq' in x.p or x.n in ('replace', 'take', 'swap'))

    def on_stmt(self, eng, fr, bi, s, val, st):
        if s[2][0] == 'agg' and isinstance(s[2][1], list) and s[2][1][0] == 'adt' and self.ends(s[2][1][1], 'LateBinding'):
            f = dict(val[2]) if val[0] == 'a' else {}
            lf = fields(self.w, 'semantic::LateBinding')
            fb = f.get(lf['fallback'], T)
            self.events.add(('late', 'none' if fb == self.none else show(dict(fb[2]).get(0, T)) if fb[0] == 'a' and fb[1] == 1 else '?', show(f.get(lf['name'], T))))
        p = s[1]
        if len(p) >= 3 and isinstance(p[-1], int) and p[-2] == '*':
            t = self.w.place_ty(fr.inst, p, len(p) - 1)
            if t is not None and self.ends(t, 'Local') and p[-1] == fields(self.w, 'semantic::Local')['captured'] and val == ('i', 1):
                b = eng.read(fr.inst, st, tuple(map(tup, p[:-1])))
                if is_tag(b): self.events.add(('captured', b[2]))
                elif b[0] == 'a': self.events.add(('captured', 'local@' + show(dict(b[2]).get(fields(self.w, 'semantic::Local')['index'], T)).split('@')[-1]))


class Same:
    def rvalue(self, inst, st, r, frame):
        if r[0] == 'bin' and r[1] in ('Eq', 'Ne'):
            a = self.operand(inst, st, r[2]); b = self.operand(inst, st, r[3])
            s = self.q.same(a, b)
            if s is not None: return ('i', int(s == (r[1] == 'Eq')))
        return super().rvalue(inst, st, r, frame)


class ResolveE(Same, LEngine): pass


class ResolveTE(Same, LTEngine):
    def vapply(self, inst, st, x, args, fr):
        if not hasattr(self, 'veng'): self.veng = ResolveE(self.w, self.q, max_ctx=100)
        return self.veng.apply(inst, st, x, args, fr)


def results(w, q, v):
    """the kinds of reference in an abstract result"""
    names = {i: n for n, (i, _, _) in w.variants('semantic::LValueReference').items()}
    out = set()
    if v is None: return out
    for x in v[1] if v[0] == 'u' else [v]:
        if x[0] != 'a' or x[1] is None: out.add('?'); continue
        f = dict(x[2])
        n = names[x[1]]
        nf = len(w.types[w.adts('semantic::LValueReference')[0]]['v'][x[1]][2])
        out.add(n + ('(%s)' % ', '.join(show(f.get(i, T)) for i in range(nf)) if nf and n != 'LateBinding' else ''))
    return out
