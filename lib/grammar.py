"""Which syntax tree nodes the parser builds when the next token is known: constant propagation over the
whole grammar (every parser method, recursion included) with the look-ahead fixed and everything else unknown."""
from absint import *
from mir import Missing

TOK = 'cordy_sys::compiler::ScanToken'
PARSER = 'cordy_sys::compiler::parser::Parser'
EXPR = 'cordy_sys::compiler::parser::expr::Expr'
OPS = {'cordy_sys::vm::operator::BinaryOp': 'BinaryOp', 'cordy_sys::vm::operator::UnaryOp': 'UnaryOp', 'cordy_sys::vm::operator::CompareOp': 'CompareOp', 'cordy_sys::core::NativeFunction': 'NativeFunction'}


def is_parser(x): return bool(x.self_ty and x.self_ty.split('<')[0] == PARSER)


class GrammarQ(Query):
    def __init__(self, w, toks, ident=None, stop=()):
        Query.__init__(self)
        self.w = w; self.ident = ident; self.stop = set(stop)
        tv = w.variants('compiler::ScanToken')
        for n in [t for t in toks if t and not isinstance(t, tuple)]:
            if n not in tv: raise Missing('token ' + n)
        def val(t):
            if t is None: return T
            if isinstance(t, tuple): return ('a', 1, ((0, ('r', mk_union([('a', tv[n][0], ()) for n in t]))),))
            return ('a', 1, ((0, ('r', ('a', tv[t][0], ()))),))
        self.toks = [val(t) for t in toks] + [T] * 3
        self.names = {d: {v: n for n, (v, _, _) in w.variants(d).items()} for d in OPS}
        self._la = {}

    def lookahead(self, x):
        """number of the look-ahead argument when x is a look-ahead function"""
        r = self._la.get(x.i, 0)
        if r == 0:
            r = None
            if x.ws and x.body is not None and is_parser(x):
                t = self.w.types[x.locals[0]]
                if t['k'] == 'adt' and t['d'].endswith('::Option') and t['a'] and self.w.types[t['a'][0]]['k'] == 'ref' and self.w.types[self.w.strip_ref(t['a'][0])].get('d') == TOK:
                    inner = [y for y in self.w.callees(x) if self.w.insts[y].ws and is_parser(self.w.insts[y])]
                    r = 'arg' if x.argc == 2 else ('base' if not inner else None)
            self._la[x.i] = r
        return r

    def model(self, eng, x, args, fr):
        la = self.lookahead(x)
        if la == 'arg': return self.toks[args[1][1]] if args[1][0] == 'i' and args[1][1] < 3 else T
        if la == 'base': return self.toks[0]
        if self.ident and x.n == 'eq' and len(args) == 2:
            s = [a for a in args if deref(a)[0] == 's']
            if len(s) == 1: return ('i', int(deref(s[0])[1] == self.ident))
        if x.n in self.stop: return T
        if x.ws and x.self_ty == EXPR and args: return self.expr(x, args)
        return None

    def expr(self, x, args):
        f = self.ops_in(x, args)
        nf = [v for k, v in f if k == 'NativeFunction' and v != '?']
        if x.n == 'native' and nf: return ('sym', 'native', '|'.join(nf))
        return T

    def descend(self, eng, x, args):
        if not x.ws or x.body is None or x.n in self.stop: return False
        if x.self_ty == EXPR: return False
        if is_parser(x): return True
        if '{closure' in x.p and PARSER in x.p: return True
        if x.p.startswith('cordy_sys::core::NativeFunction::') or any(d in x.p for d in OPS) : return True
        return False

    def ops_in(self, x, args):
        out = []
        for k, a in enumerate(args):
            if k >= x.argc: break
            self.find(a, x.locals[k + 1], out)
        return tuple(out)

    def find(self, v, t, out, n=0):
        if n > 4: return
        t = self.w.strip_ref(t)
        ty = self.w.types[t] if t is not None else {'k': '?'}
        v = deref(v)
        if ty['k'] == 'adt' and ty['d'] in OPS:
            k = OPS[ty['d']]
            if v[0] == 'a' and v[1] is not None: out.append((k, self.names[ty['d']][v[1]]))
            elif v[0] == 'u': out += [(k, self.names[ty['d']][y[1]]) for y in sorted(v[1], key=repr) if y[0] == 'a' and y[1] is not None]
            else: out.append((k, '?'))
        elif ty['k'] == 'tuple':
            f = dict(v[2]) if v[0] == 'a' else {}
            for i, ft in enumerate(ty['f']): self.find(f.get(i, T), ft, out, n + 1)

    def on_call(self, eng, fr, bi, t, targets, args):
        for x in targets:
            if x.ws and x.self_ty == EXPR and x.body is not None:
                ops = self.ops_in(x, args)
                s = deref(args[0]) if args else T
                fr.events.add(('expr', x.n, ops, s[2] if s[0] == 'sym' and s[1] == 'native' else None, fr.inst.i, bi))
            elif x.n == 'push' and not x.ws and x.body is not None:
                ops = self.ops_in(x, args)
                if ops: fr.events.add(('push', 'push', ops, None, fr.inst.i, bi))


def deref(v):
    while v[0] == 'r': v = v[1]
    return v


def dominators(inst):
    """block -> set of dominating blocks (normal edges)"""
    succ = inst.succ(); n = len(succ)
    reach = set(); st = [0]
    while st:
        b = st.pop()
        if b in reach: continue
        reach.add(b); st += succ[b]
    pred = {b: [] for b in reach}
    for b in reach:
        for s in succ[b]: pred[s].append(b)
    dom = {b: set(reach) for b in reach}; dom[0] = {0}
    ch = True
    while ch:
        ch = False
        for b in sorted(reach):
            if b == 0: continue
            ps = [dom[p] for p in pred[b]]
            new = set.intersection(*ps) | {b} if ps else {b}
            if new != dom[b]: dom[b] = new; ch = True
    return dom
