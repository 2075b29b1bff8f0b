"""What a built-in function does for each argument count, read off the dispatch code by constant
propagation (one analysis per function variant and calling route)."""
from absint import *
from mir import Missing, short

NF = 'cordy_sys::core::NativeFunction'
A = lambda n: ('sym', 'val', n)


def is_sym(v): return v[0] == 'sym' and v[1] == 'val'


def rep(v, n=0):
    """printable abstraction of an argument: symbols and constants, '_' for unknown"""
    k = v[0]
    if is_sym(v): return v[2]
    if k == 'r': return rep(v[1], n + 1)
    if k == 'i': return str(v[1])
    if k == 's': return repr(v[1])
    if k == 'u':
        xs = sorted({rep(x) for x in v[1]})
        return '|'.join(xs)
    if k == 'a':
        if n > 3: return '_'
        body = ','.join('%s:%s' % (i, rep(x, n + 1)) for i, x in v[2] if rep(x, n + 1) != '_')
        return '#%s{%s}' % ('' if v[1] is None else v[1], body) if body or v[1] is not None else '_'
    return '_'


def has_sym(v):
    k = v[0]
    if is_sym(v): return True
    if k == 'r': return has_sym(v[1])
    if k == 'a': return any(has_sym(x) for _, x in v[2])
    if k == 'u': return any(has_sym(x) for x in v[1])
    if k == 'arr': return any(has_sym(x) for x in v[1])
    return False


def syms(v):
    k = v[0]
    if is_sym(v): return {v[2]}
    if k == 'r': return syms(v[1])
    if k == 'a': return set().union(*[syms(x) for _, x in v[2]]) if v[2] else set()
    if k in ('u', 'arr'): return set().union(*[syms(x) for x in v[1]]) if v[1] else set()
    return set()


NEUTRAL = {'clone', 'into_iter', 'to_value', 'ok', 'err', 'from', 'into', 'branch', 'from_output', 'from_residual', 'borrow', 'deref', 'as_ref', 'index', 'drop', 'new', 'fmt', 'as_result', 'new_const'}


def is_panic(x):
    return x.p.startswith(('core::panicking::', 'std::panicking::', 'std::rt::panic', 'std::rt::begin_panic', 'core::option::expect_failed', 'core::option::unwrap_failed', 'core::result::unwrap_failed'))


class DispatchQ(Query):
    """events: ('leaf', name, argreprs) ('err', RuntimeError variant, argreprs) ('partial', variant) ('self',) ('panic', fn)"""
    ENUMS = (NF, 'cordy_sys::vm::operator::BinaryOp', 'cordy_sys::vm::operator::UnaryOp', 'cordy_sys::vm::operator::CompareOp', 'cordy_sys::core::Argument', 'cordy_sys::core::PartialArgument', 'cordy_sys::core::InvokeArg0', 'cordy_sys::core::InvokeArg1', 'cordy_sys::core::InvokeArg2')

    def __init__(self, w, native=None, extra=None, stop=()):
        Query.__init__(self)
        self.w = w
        if native is not None: self.assume[NF] = ('a', native, ())
        if extra: self.assume.update(extra)
        self.stop = set(stop)
        self._d = {}

    def disp(self, x):
        """is x part of the dispatch code: a workspace function which takes one of the dispatched enums"""
        r = self._d.get(x.i)
        if r is None:
            r = False
            if x.ws and x.body is not None:
                for t in x.locals[1:x.argc + 1]:
                    ty = self.w.types[self.w.strip_ref(t)]
                    if ty['k'] == 'adt' and ty['d'] in self.ENUMS: r = True
                if any(x.p.startswith('<%s as' % e) and x.n in ('fmt', 'hash', 'clone') for e in self.ENUMS) or x.n in ('fmt', 'hash', 'as_error'): r = False
            self._d[x.i] = r
        return r

    def descend(self, eng, x, args):
        if x.i in self.stop: return False
        if self.disp(x): return True
        if x.n in ('ge', 'gt', 'le', 'lt', 'eq', 'ne') : return False
        return x.ws and x.body is not None and len(x.blocks) <= 12 and not has_sym_l(args) and any(self.enumish(a) for a in args)

    def enumish(self, a):
        return a[0] in ('a',) and a[1] is not None or (a[0] == 'r' and self.enumish(a[1]))

    def model(self, eng, x, args, fr):
        if x.n == 'clone' and args:
            a = args[0]
            return a[1] if a[0] == 'r' else a
        if x.n in ('deref', 'as_ref', 'borrow') and x.argc if x.body else False:
            pass
        if x.n == 'pop' and x.trait and 'VirtualInterface' in x.trait:
            return None
        if is_panic(x): return ('never',)
        return None

    def on_call(self, eng, fr, bi, t, targets, args):
        for x in targets:
            if x.i in self.stop:
                fr.events.add(('leaf', short(x.p), tuple(rep(a) for a in args))); continue
            if is_panic(x): fr.events.add(('panic', short(fr.inst.p))); continue
            if self.descend(eng, x, args): continue
            if x.n in NEUTRAL: continue
            nm = short(x.p)
            if x.n in ('lt', 'gt', 'le', 'ge', 'eq', 'ne', 'cmp', 'max', 'min', 'partial_cmp') and not x.p.startswith('cordy_sys::core'): nm = x.n
            if any(has_sym(a) for a in args) or (x.ws and self.core(x)):
                fr.events.add(('leaf', nm, tuple(rep(a) for a in args)))

    def core(self, x):
        return x.p.startswith(('cordy_sys::core::', 'cordy_sys::vm::operator::')) or bool(x.trait and x.trait.endswith('VirtualInterface'))

    def on_stmt(self, eng, fr, bi, stmt, v, st):
        r = stmt[2]
        if r[0] == 'agg' and isinstance(r[1], list) and r[1][0] == 'adt':
            ty = self.w.types[r[1][1]]; last = ty['d'].split('::')[-1]
            if last == 'RuntimeError': fr.events.add(('err', ty['v'][r[1][2]][0], tuple(rep(x) for _, x in sorted(dict(v[2]).items())) if v[0] == 'a' else ()))
            elif last == 'PartialArgument':
                f = dict(v[2]) if v[0] == 'a' else {}
                fr.events.add(('partial', ty['v'][r[1][2]][0], tuple(rep(eng.outval(fr.inst, st, f.get(i, T))) for i in range(len(r[2])))))


def has_sym_l(args): return any(has_sym(a) for a in args)
