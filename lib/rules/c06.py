"""C06: whatever can be called directly can be called everywhere."""
from typestate import *
from dispatch import A, is_sym, has_sym, is_panic
from mir import Missing, short
from rules.c25 import of_vm

TYPE = 'cordy_sys::vm::Type'
NATIVE = ('NativeFunction', 'PartialNativeFunction')     # by argument kind: C03
SMALL = ('err', 'ok', 'branch', 'from_residual', 'from_output', 'as_result', 'map', 'map_err', 'Ok', 'Err', 'into', 'from', 'and_then')


class TagQ(Query):
    """values as their tag bits; what is behind a pointer is of kind t"""
    def __init__(self, w, t=None): Query.__init__(self); self.w = w; self.t = t
    def model(self, eng, x, args, fr):
        if is_panic(x): return ('never',)
        if self.t is not None and x.n == 'ty' and x.p.endswith('ValuePtr::ty'): return self.t
        if x.n in ('eq', 'ne') and len(args) == 2 and x.body is not None and self.w.types[self.w.strip_ref(x.locals[1])].get('d') == TYPE:
            a, b = (v[1] if v[0] == 'r' else v for v in args)
            if a[0] == b[0] == 'a' and None not in (a[1], b[1]): return ('i', int((a[1] == b[1]) == (x.n == 'eq')))
        return None
    def descend(self, eng, x, args): return x.ws and x.body is not None and x.argc == 1 and len(x.blocks) <= 12


class Tags:
    """which kind each pattern of tag bits stands for, as the function that tells the kind has it"""
    BITS = 6
    def __init__(self, w):
        self.w = w
        vt = [i for i, t in enumerate(w.types) if t.get('k') == 'adt' and t['d'].endswith('ValuePtr') and t['d'].startswith('cordy_sys::vm')]
        fs = [f for f in w.types[vt[0]]['v'][0][2]]
        self.at = [i for i, f in enumerate(fs) if w.tstr(f[1]) == 'usize']
        self.ty = [x for x in w.need(name='ty') if x.p.endswith('ValuePtr::ty')]
        if not vt or not self.at or not self.ty: raise Missing('tagged values')
        self.kinds = {i: n for n, (i, _, _) in w.variants(TYPE).items()}
        self.kind = {}
        for b in range(1 << self.BITS):
            r = Engine(w, TagQ(w)).call(self.ty[0], [self.value(b)])[0]
            self.kind[b] = self.kinds[r[1]] if r and r[0] == 'a' and r[1] is not None else None
        self.pointer = [b for b in self.kind if self.kind[b] is None]
        self.inline = {}
        for b, k in self.kind.items():
            if k is not None: self.inline.setdefault(k, []).append(b)
        self._t = {}
    def value(self, b): return ('r', ('a', None, tuple((i, ('i', b)) for i in self.at)))
    def table(self, x):
        """{kind: answers} of a question about the kind"""
        if x.i not in self._t:
            t = {}
            for k, i in ((n, i) for i, n in self.kinds.items()):
                for b in self.inline.get(k, [] if k == 'Never' else self.pointer):
                    r = Engine(self.w, TagQ(self.w, ('a', i, ()))).call(x, [self.value(b)])[0]
                    t.setdefault(k, set()).add(r[1] if r and r[0] == 'i' else None)
            self._t[x.i] = t
        return self._t[x.i]


class KindQ(TQuery):
    """the kind of every value asked for is t, as far as it is asked about the value in question"""
    max_tags = 200
    def __init__(self, w, t, who=None):
        TQuery.__init__(self); self.w = w; self.t = t; self.who = who; self.seen = set(); self.preds = {}
        self.pos = {}
    def mine(self, args):
        if self.who is None: return True
        v = args[0]
        while v[0] == 'r': v = v[1]
        return is_sym(v) and v[2] == self.who
    def pred(self, x):
        """a function that only looks at the kind of the value"""
        if x.i not in self.preds:
            r = False
            if x.ws and x.body is not None and x.argc == 1 and len(x.blocks) <= 12:
                t = self.w.types[self.w.strip_ref(x.locals[1])]
                r = t.get('d', '').endswith(('ValuePtr', 'vm::Type')) and self.w.tstr(x.locals[0]) == 'bool'
            self.preds[x.i] = r
        return self.preds[x.i]
    def model(self, eng, x, args, fr):
        if is_panic(x): return ('never',)
        if x.n == 'ty' and x.p.endswith('ValuePtr::ty'): return self.t if self.mine(args) else None
        if x.n == 'clone' and args: return args[0][1] if args[0][0] == 'r' else args[0]
        if args and self.t is not None and self.pred(x) and is_sym(self.bare(args[0])) and self.mine(args):
            if not hasattr(self.w, '_tags'): self.w._tags = Tags(self.w)
            got = self.w._tags.table(x).get(self.w._tags.kinds[self.t[1]], {None})
            return ('i', next(iter(got))) if len(got) == 1 and got != {None} else None
        if x.n in ('eq', 'ne') and len(args) == 2 and x.body is not None and self.w.types[self.w.strip_ref(x.locals[1])].get('d') == TYPE:
            a, b = (self.bare(v) for v in args)
            if a[0] == b[0] == 'a' and None not in (a[1], b[1]): return ('i', int((a[1] == b[1]) == (x.n == 'eq')))
        if x.n in ('eq', 'ne') and len(args) == 2 and not x.ws and 'Option' in x.p:
            a, b = (self.bare(v) for v in args)
            if a[0] == b[0] == 'a' and None not in (a[1], b[1]):
                if a[1] != b[1]: return ('i', int(x.n == 'ne'))
                if a[1] == 0: return ('i', int(x.n == 'eq'))
                p, q = dict(a[2]).get(0, T), dict(b[2]).get(0, T)
                if p[0] == q[0] == 'i': return ('i', int((p == q) == (x.n == 'eq')))
        return None
    def bare(self, v):
        while v[0] == 'r': v = v[1]
        return v
    def descend(self, eng, x, args):
        if x.body is None: return False
        if self.pred(x) and args and (args[0][0] == 'a' or self.mine(args)): return True
        if x.ws and args and args[0][0] == 'a' and args[0] == self.t and len(x.blocks) < 30: return True
        if x.ws and x.argc > 1 and len(x.blocks) <= 40 and any(a[0] == 'i' for a in args) and self.w.types[self.w.strip_ref(x.locals[1])].get('d', '').endswith('VirtualMachine') and 'esult' in self.w.tstr(x.locals[0]): return True
        return len(x.blocks) <= 12 and x.n in SMALL


class PosQ(KindQ):
    """tag: which of the dispatched calls the value reached"""
    def __init__(self, w, t, who, froms, root, nargs=None):
        KindQ.__init__(self, w, t, who); self.froms = froms; self.root = root; self.nargs = nargs; self.tags = set(); self.rel = None
    def t_call(self, eng, fr, bi, t, x, args, tag, st):
        if x.i in self.froms and args:
            v = args[0]
            while v[0] == 'r': v = v[1]
            if is_sym(v) and v[2] == self.who:
                self.tags.add(self.froms[x.i])
                return [(tag, T)]
        if x.n == 'min_nargs' and 'ValuePtr' in x.p and self.mine(args):
            self.tags.add('min_nargs')
            if self.nargs is not None: return [(tag, ('a', 1, ((0, ('i', self.nargs)),)))]
            return [(tag, T)]
        return None
    def relevant(self, eng, x): return False


def run(ctx):
    w = ctx.world()
    ctx.rule('For every kind of value (except built-ins, whose routes C03 compares) and 0, 1 and 2 arguments, constant propagation through the call instruction decides whether a call can succeed; the pre-dispatched calls made by built-ins must accept the value for exactly the same combinations and hand the function and its arguments on in order; the test for functions and the number of parameters must be given exactly for the kinds that can be called; and every built-in that takes a function must reach the pre-dispatched call for every such kind.')
    ty = w.variants(TYPE)
    inv = of_vm(w, 'invoke')
    kinds = [k for k in ty if k not in NATIVE + ('Error', 'Never')]
    can = {}
    for k in kinds:
        for n in (0, 1, 2, 3):
            q = KindQ(w, ('a', ty[k][0], ()))
            s = TEngine(w, q).solve(inv, [T, ('i', n)], ())
            ctx.count(direct_calls=1)
            can[k, n] = any(rk != 1 for _, rk in s)
    callable_ = {k for k in kinds if any(can[k, n] for n in range(4))}
    ctx.floor('callable_kinds', len(callable_), 8)
    froms = {}; routes = {}
    for k in (0, 1, 2):
        p = 'cordy_sys::core::InvokeArg%d' % k
        frm = [x for x in w.need(name='from') if x.p == p + '::from' and x.body is not None]
        iv = [x for x in w.need(name='invoke') if x.p == p + '::invoke' and x.body is not None]
        if not frm or not iv: raise Missing(p)
        for f in frm: froms[f.i] = k
        names = {i: n for n, (i, _, _) in w.variants(p).items()}
        for t in kinds:
            q = KindQ(w, ('a', ty[t][0], ()))
            s = TEngine(w, q).solve(frm[0], [A('f')], ())
            ctx.count(dispatched_calls=1)
            oks = [v for (_, rk), v in s.items() if rk != 1]
            how = 'a value of kind %s with %d argument%s' % (t, k, '' if k == 1 else 's')
            if can[t, k] and not oks: ctx.violation('%s/%d rejected' % (t, k), '%s can be called directly, but not by a built-in' % how, frm[0].loc())
            for v in oks:
                pv = dict(v[2]).get(0, T) if v[0] == 'a' else T
                vs = pv[1] if pv[0] == 'u' else [pv]
                for y in vs:
                    if y[0] != 'a' or y[1] is None: ctx.violation('%s/%d route' % (t, k), 'it cannot be told how a built-in calls %s' % how, frm[0].loc()); continue
                    if any(r is not None for r in [handed(w, iv[0], y, k)]): 
                        for g in handed(w, iv[0], y, k):
                            ctx.count(routes=1)
                            want = ('invoke_func%d' % k, ('f',) + tuple('a%d' % (i + 1) for i in range(k)))
                            if g != want and (can[t, k] or g[0] == 'returned'):
                                ctx.violation('%s/%d handed' % (t, k), 'a built-in that calls %s (as %s) does %s instead of calling it with its arguments' % (how, names.get(y[1]), '%s(%s)' % (g[0], ', '.join(g[1]))), iv[0].loc())
    # the test for functions
    tests(ctx, w, ty, kinds, can, callable_)
    positions(ctx, w, ty, froms, can, callable_)
    ctx.sample({'callable with n arguments': {k: [n for n in range(4) if can[k, n]] for k in sorted(callable_)}})


class HandQ(Query):
    def __init__(self, w): Query.__init__(self); self.w = w; self.got = set()
    def model(self, eng, x, args, fr):
        if is_panic(x): return ('never',)
        if x.n == 'clone' and args: return args[0][1] if args[0][0] == 'r' else args[0]
        return None
    def name(self, a):
        while a[0] == 'r': a = a[1]
        if is_sym(a): return a[2]
        if a[0] == 'arr': return '[' + ' '.join(self.name(y) for y in a[1]) + ']'
        return '_'
    def on_call(self, eng, fr, bi, t, targets, args):
        for x in targets:
            if x.trait and x.trait.endswith('VirtualInterface') and x.n.startswith('invoke'):
                ns = tuple(self.name(a) for a in args[1:])
                n = x.n
                if n == 'invoke_func' and len(ns) == 2 and ns[1].startswith('['): ns = (ns[0],) + tuple(ns[1][1:-1].split()); n = 'invoke_func%d' % (len(ns) - 1)
                self.got.add((n, ns))
            elif not (x.trait and x.trait.endswith('VirtualInterface')) and any(has_sym(a) for a in args) and x.n not in ('clone', 'drop', 'ok', 'branch', 'from_output', 'deref', 'as_ref', 'borrow', 'index', 'from', 'into', 'into_iter', 'to_vec') and not (self.descend(eng, x, args)):
                self.got.add((short(x.p), tuple(self.name(a) for a in args)))
            elif x.n == 'ok' and args and self.name(args[0]) != '_': self.got.add(('returned', (self.name(args[0]),)))
    def descend(self, eng, x, args): return x.ws and x.body is not None and len(x.blocks) <= 12 and x.p.startswith('cordy_sys::core::') and any(has_sym(a) for a in args) and not x.n.startswith('invoke_')


def handed(w, iv, v, k):
    q = HandQ(w); e = Engine(w, q)
    selfv = ('r', v) if w.types[iv.locals[1]]['k'] == 'ref' else v
    e.call(iv, [selfv] + [A('a%d' % (i + 1)) for i in range(k)] + [T])
    return sorted(q.got)


def tests(ctx, w, ty, kinds, can, callable_):
    ev = [x for x in w.need(name='is_evaluable') if 'ValuePtr' in x.p]
    mn = [x for x in w.need(name='min_nargs') if 'ValuePtr' in x.p]
    if not ev or not mn: raise Missing('the tests for functions')
    for k in kinds:
        q = KindQ(w, ('a', ty[k][0], ()))
        r = Engine(w, q).call(ev[0], [('r', A('f'))])[0]
        ctx.count(function_tests=2)
        if k != 'List':
            if r != ('i', int(k in callable_)): ctx.violation('%s test' % k, 'a value of kind %s %s be called, but %s regarded as a function' % (k, 'can' if k in callable_ else 'cannot', 'is not' if r == ('i', 0) else 'is'), ev[0].loc())
        s = TEngine(w, KindQ(w, ('a', ty[k][0], ()))).solve(mn[0], [('r', A('f'))], ())
        got = {rk for _, rk in s}
        # handing the question on to the wrapped function is as good as an answer
        if k != 'List' and (1 if k in callable_ else 0) not in got | ({1} if None in got and k in callable_ else set()) or (k not in callable_ and got - {0}) or (k in callable_ and k != 'List' and 0 in got):
            ctx.violation('%s parameters' % k, 'a value of kind %s %s be called, but the number of its parameters is %s' % (k, 'can' if k in callable_ else 'cannot', 'given' if 1 in got else 'not given'), mn[0].loc())
        for (_, rk), v in s.items():
            n = dict(v[2]).get(0, T) if v[0] == 'a' and rk == 1 else T
            if n[0] == 'i' and k in callable_ and (not can.get((k, n[1]), True) or any(can[k, m] for m in range(n[1]))):
                ctx.violation('%s least' % k, 'a value of kind %s needs %s arguments, but is said to need %d' % (k, ' or '.join(str(m) for m in range(4) if can[k, m]), n[1]), mn[0].loc())


def positions(ctx, w, ty, froms, can, callable_):
    """every place a built-in gets ready to call a function: reached for every kind that can be called"""
    vt = [i for i, t in enumerate(w.types) if t.get('k') == 'adt' and t['d'].endswith('ValuePtr') and t['d'].startswith('cordy_sys::vm')]
    bad_names = set(froms)
    done = set()
    for x in sorted(w.insts, key=lambda x: x.i):
        if not x.ws or x.body is None or x.i in froms or '{closure' in x.p: continue
        if not any(b['t'][0] == 'call' and any(y.i in froms for y in w.callee(b['t'][1])) for b in x.blocks): continue
        if x.p in done: continue
        done.add(x.p)
        ps = [i for i in range(1, x.argc + 1) if w.strip_ref(x.locals[i]) in vt or w.tstr(x.locals[i]).startswith('std::option::Option<') and 'ValuePtr' in w.tstr(x.locals[i])]
        hit = False
        for p in ps:
            base = PosQ(w, None, 'f', froms, x)
            wrap = lambda v: ('a', 1, ((0, v),)) if w.tstr(x.locals[p]).startswith('std::option::Option<') else ('r', v) if w.types[x.locals[p]]['k'] == 'ref' else v
            args = [wrap(A('f')) if i == p else T for i in range(1, x.argc + 1)]
            TEngine(w, base).solve(x, args, ())
            arities = base.tags - {'min_nargs'}
            if not arities: continue
            hit = True
            decided = 'min_nargs' in base.tags
            for k in sorted(callable_):
                if decided:
                    for n in (1, 2):
                        if k == 'List' or not can[k, n]: continue
                        q = PosQ(w, ('a', ty[k][0], ()), 'f', froms, x, n); TEngine(w, q).solve(x, args, ()); ctx.count(positions=1)
                        if n in arities and q.tags - {'min_nargs'} != {n}: ctx.violation('%s %s by %d' % (short(x.p), k, n), '%s calls a %s that takes %d argument%s with %s' % (short(x.p), k, n, '' if n == 1 else 's', ' or '.join(map(str, sorted(q.tags - {'min_nargs'}))) or 'nothing'), x.loc())
                else:
                    q = PosQ(w, ('a', ty[k][0], ()), 'f', froms, x); TEngine(w, q).solve(x, args, ()); ctx.count(positions=1)
                    ok = [n for n in arities if can[k, n]]
                    if ok and k != 'List' and not set(ok) & q.tags: ctx.violation('%s %s' % (short(x.p), k), '%s does not call a %s, which can be called with %s argument%s' % (short(x.p), k, ' or '.join(map(str, ok)), '' if ok == [1] else 's'), x.loc())
            if decided and arities != {1, 2}: ctx.violation('%s arities' % short(x.p), '%s decides by the number of parameters, but calls functions with %s arguments only' % (short(x.p), ', '.join(map(str, sorted(arities)))), x.loc())
        if not hit: ctx.violation('%s unseen' % short(x.p), '%s gets ready to call a value that is not one of its parameters' % short(x.p), x.loc())
        ctx.count(call_positions=1)
    ctx.floor('call_positions', ctx.coverage.get('call_positions', 0), 8)
