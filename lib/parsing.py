"""Abstract parsing: the typestate engine over the grammar with the remaining tokens as the automaton state.

The state is (tokens not yet consumed, builder log). Everything but the kind of the tokens is unknown: literals,
names, locations, scopes. The log is the sequence of syntax tree constructors in the order in which they are
called, which is the tree in postfix notation. Look-ahead and consumption are the only parser primitives modelled."""
from typestate import *
from grammar import is_parser, PARSER, EXPR, TOK, OPS, deref
from mir import Missing

BUILDER_RESULT = EXPR


class ParseQ(TQuery):
    max_tags = 4000

    def __init__(self, w):
        TQuery.__init__(self)
        self.w = w
        self.tv = w.variants('compiler::ScanToken')
        self.names = {d: {v: n for n, (v, _, _) in w.variants(d).items()} for d in OPS}
        self._la = {}; self._rel = {}
        self.expr_t = EXPR
        p = w.adt_type(PARSER) if hasattr(w, 'adt_type') else None
        self.prim = [x for x in w.insts if not x.ws and x.n in ('pop_front', 'front') and self.deque(x)]
        if not [x for x in self.prim if x.n == 'pop_front']: raise Missing('consumption of tokens')
        self.consumers = w.reaching([x for x in self.prim if x.n == 'pop_front'])
        self.builders = [x for x in w.insts if x.ws and x.self_ty == EXPR and x.body is not None]
        self.building = w.reaching(self.builders)
        self.looking = w.reaching([x for x in w.insts if self.lookahead(x)])

    def deque(self, x):
        t = self.w.types[self.w.strip_ref(x.locals[1])] if x.argc else {'k': '?'}
        if t['k'] != 'adt' or not t['d'].endswith('VecDeque'): return False
        e = self.w.types[t['a'][0]]
        return e['k'] == 'tuple' and any(self.w.types[f].get('d') == TOK for f in e['f'])

    def assume_ty(self, eng, t):
        ty = self.w.types[t]
        if ty['k'] == 'adt' and ty['d'] == PARSER:
            _, _, fields = next(iter(self.w.variants(PARSER).values()))
            names = [f[0] if isinstance(f, (list, tuple)) else f for f in fields]
            if 'error_recovery' not in names: raise Missing('field error_recovery')
            return ('a', None, ((names.index('error_recovery'), ('i', 0)),))
        return None

    def tokval(self, t):
        """t: variant name | (variant, text)"""
        if isinstance(t, tuple): return ('a', self.tv[t[0]][0], ((0, ('s', t[1])),))
        return ('a', self.tv[t][0], ())

    def lookahead(self, x):
        r = self._la.get(x.i, 0)
        if r == 0:
            r = None
            if x.ws and x.body is not None and is_parser(x):
                t = self.w.types[x.locals[0]]
                if t['k'] == 'adt' and t['d'].endswith('::Option') and t['a'] and self.w.types[t['a'][0]]['k'] == 'ref' and self.w.types[self.w.strip_ref(t['a'][0])].get('d') == TOK:
                    inner = [y for y in self.w.callees(x) if self.w.insts[y].ws and is_parser(self.w.insts[y])]
                    r = 'arg' if x.argc == 2 else ('base' if not inner else None)
            self._la[x.i] = r
        return r

    def relevant(self, eng, x):
        r = self._rel.get(x.i)
        if r is None:
            r = self._rel[x.i] = bool(x.body is not None and x.k != 'drop' and x.self_ty != EXPR and x not in self.prim and (x.i in self.consumers or x.i in self.building or x.i in self.looking) and not self.opaque(x))
        return r

    def opaque(self, x): return False

    def descend(self, eng, x, args):
        if x.body is None or x.self_ty == EXPR: return False
        if not x.ws: return x.k != 'drop' and any(self.w.insts[y].ws and self.w.insts[y].n == '{closure' or '{closure' in self.w.insts[y].p.rsplit('::', 1)[-1] and self.w.insts[y].ws for y in self.w.callees(x))
        if '{closure' in x.p and PARSER in x.p: return True
        return is_parser(x) and x.i not in self.consumers and x.i not in self.building and x.i not in self.looking or any(d in x.p for d in OPS) or (x.n == 'eq' and TOK in x.p)

    def peek(self, tag, n):
        toks = tag[0]
        return ('a', 1, ((0, ('r', self.tokval(toks[n]))),)) if n < len(toks) else ('a', 0, ())

    def builder(self, x): return x.ws and x.self_ty == EXPR and x.body is not None

    def label(self, x, args):
        out = []
        for k, a in enumerate(args):
            if k < x.argc: self.find(a, x.locals[k + 1], out)
        return tuple(out)

    def find(self, v, t, out, n=0):
        if n > 4: return
        t = self.w.strip_ref(t)
        ty = self.w.types[t] if t is not None else {'k': '?'}
        v = deref(v)
        if ty['k'] == 'adt' and ty['d'] in OPS:
            k = OPS[ty['d']]
            out.append((k, self.names[ty['d']].get(v[1], '?') if v[0] == 'a' else '?'))
        elif ty['k'] == 'tuple':
            f = dict(v[2]) if v[0] == 'a' else {}
            for i, ft in enumerate(ty['f']): self.find(f.get(i, T), ft, out, n + 1)

    def is_expr(self, t): return t is not None and self.w.types[t].get('d') == EXPR

    def exprs_in(self, t):
        """(number of expressions, is a list of them possible) in an argument type"""
        ty = self.w.types[t]
        if ty.get('d') == EXPR: return 1, False
        if ty['k'] == 'tuple': return sum(self.exprs_in(f)[0] for f in ty['f']), any(self.exprs_in(f)[1] for f in ty['f'])
        if ty['k'] == 'adt' and ty['d'].endswith('::Box') and ty['a']: return self.exprs_in(ty['a'][0])
        if ty['k'] == 'adt' and ty['d'].endswith('::Vec') and ty['a']: return 0, any(self.exprs_in(ty['a'][0]))
        return 0, False

    def build(self, x, args, tag):
        """outcomes of calling a constructor of the syntax tree"""
        toks, log, pend = tag
        rt = self.w.types[x.locals[0]]
        n = 0; lst = False
        for k in range(x.argc):
            a, b = self.exprs_in(x.locals[k + 1]); n += a; lst |= b
        returns_expr = rt.get('d') == EXPR
        result = rt['k'] == 'adt' and rt['d'].endswith('::Result') and rt['a'] and self.is_expr(rt['a'][0])
        if not returns_expr and not result: return None
        if len(log) > 60: return []
        ev = (x.n, n, lst) + self.label(x, args)
        return [((toks, log + (ev,), pend), ('a', 0, ()) if result else T)]

    def t_call(self, eng, fr, bi, term, x, args, tag, st):
        la = self.lookahead(x)
        if la == 'arg': return [(tag, self.peek(tag, args[1][1]))] if args[1][0] == 'i' else [(tag, T)]
        if la == 'base': return [(tag, self.peek(tag, 0))]
        if x in self.prim:
            toks = tag[0]
            if not toks: return [(tag, ('a', 0, ()))]
            pair = ('a', None, ((1, self.tokval(toks[0])),))
            if x.n == 'front': return [(tag, ('a', 1, ((0, ('r', pair)),)))]
            return [((toks[1:],) + tag[1:], ('a', 1, ((0, pair),)))]
        if self.builder(x):
            return self.build(x, args, tag)
        if not x.ws and x.n in ('next', 'pop', 'next_back', 'pop_front', 'pop_back') and x.argc == 1 and 'UnaryOp' in self.w.tstr(x.locals[1]):
            ty = self.w.tstr(x.locals[1])
            if not tag[2]: return [(tag, ('a', 0, ()))]
            last = ('Rev<' in ty) != (x.n in ('pop', 'next_back', 'pop_back'))
            op, rest = (tag[2][-1], tag[2][:-1]) if last else (tag[2][0], tag[2][1:])
            uop = next(d for d in OPS if OPS[d] == 'UnaryOp')
            tv = self.w.types[x.locals[0]]['a'][0]
            v = ('a', next(k for k, n in self.names[uop].items() if n == op), ())
            if self.w.types[tv]['k'] == 'tuple':
                v = ('a', None, tuple((i, v) for i, f in enumerate(self.w.types[tv]['f']) if self.w.types[f].get('d') == uop))
            return [((tag[0], tag[1], rest), ('a', 1, ((0, v),)))]
        if not x.ws and x.n in ('push', 'push_back') and x.argc == 2:
            ops = []
            self.find(args[1], x.locals[2], ops)
            n, _ = self.exprs_in(x.locals[2])
            if ops and ops[0][0] == 'UnaryOp': return [((tag[0], tag[1], tag[2] + (ops[0][1],)), T)]
            if ops or n:
                return [((tag[0], tag[1] + (('push', n) + tuple(ops),), tag[2]), T)]
        if x.n in ('eq', 'ne') and len(args) == 2:
            r = same(args[0], args[1])
            if r is not None: return [(tag, ('i', int(r == (x.n == 'eq'))))]
        return None


def same(a, b):
    a, b = deref(a), deref(b)
    if a[0] == b[0] and a[0] in ('i', 's'): return a[1] == b[1]
    if a[0] == 'a' and b[0] == 'a' and a[1] is not None and b[1] is not None:
        if a[1] != b[1]: return False
        fa, fb = dict(a[2]), dict(b[2])
        if not fa and not fb: return True
        r = [same(fa.get(k, T), fb.get(k, T)) for k in set(fa) | set(fb)]
        return False if False in r else None if None in r else True
    return None


class ParseE(TEngine):
    """callee summaries do not depend on what was built before"""
    def tapply(self, inst, st, x, args, fr, tag):
        m = self.q.model(self, x, args, fr)
        if m is not None: return [] if m == ('never',) else [(tag, m)]
        if x.body is not None and x.k != 'intrinsic' and self.q.relevant(self, x):
            args = self.shuffle(x, args)
            key = (x.i, tuple(clip(a) for a in args), (tag[0], (), ()))
            self.deps.setdefault(key, set()).add(self.cur)
            return [((tg[0], tag[1] + tg[1], tag[2] + tg[2]), v) for (tg, _), v in self.want(key).items() if len(tag[1]) + len(tg[1]) <= 40]
        r = self.vapply(inst, st, x, args, fr)
        return [] if r is None else [(tag, r)]
