"""C16: an expression evaluates its parts once, from left to right, and optimisation does not change what it does."""
from emission import EmitH
from stack import *
from cells import *
from rules.c27 import closures
from rules.c25 import of_vm
import absint, typestate
from typestate import TQuery, TEngine, TooMany


def box(v): return ('a', None, ((0, ('r', v)),))
def sym(*k): return ('sym',) + k


class Trees:
    """expressions as values of the analysis, and back"""
    def __init__(self, w):
        self.w = w; self.v = w.variants('expr::ExprType'); self.n = {i: n for n, (i, _, _) in self.v.items()}
        self.et = w.types[w.adts('expr::ExprType')[0]]['v']
        self.nf = w.variants('core::NativeFunction'); self.nfn = {i: n for n, (i, _, _) in self.nf.items()}
        self.lit = w.variants('vm::LiteralType') if w.adts('vm::LiteralType') else w.variants('LiteralType')
        self.bop = w.variants('operator::BinaryOp'); self.bopn = {i: n for n, (i, _, _) in self.bop.items()}
        self.lv = w.variants('semantic::LValueReference')

    def kind(self, t):
        """what a part of an expression holds"""
        ty = self.w.types[t]; s = self.w.tstr(t)
        if ty['k'] != 'adt': return None
        if s.endswith('Option<cordy_sys::compiler::parser::expr::Expr>>'): return 'opt'
        if ty['d'].endswith('boxed::Box') and 'expr::Expr' in s: return 'box'
        if ty['d'].endswith('vec::Vec') and s.endswith('expr::Expr>'): return 'vec'
        if ty['d'].endswith('vec::Vec') and s.endswith('expr::Expr)>'): return 'vec3'
        return None

    # a tree is ('E'|'W'|'S'|'C', id) or (variant, part, part, ...)
    LEAF = {'E': 'Assignment', 'W': 'LValue', 'S': 'Function', 'C': 'Int'}

    def enc(self, t):
        if t[0] in self.LEAF:
            k = self.LEAF[t[0]]
            f = ((0, sym('cst', t[1])),) if t[0] == 'C' else ((99, sym('leaf', t)),)
            return ('a', None, ((1, ('a', self.v[k][0], f)),))
        i, _, fs = self.v[t[0]]
        out = []
        for j, (p, (_, ft)) in enumerate(zip(t[1:], self.et[i][2])):
            k = self.kind(ft)
            if k == 'box': p = box(self.enc(p))
            elif k == 'vec': p = seq(tuple(self.enc(x) for x in p))
            elif k == 'vec3': p = seq(tuple(('a', None, ((0, sym('loc', n)), (1, sym('cmp', n)), (2, self.enc(x)))) for n, x in enumerate(p)))
            elif k == 'opt': p = box(('a', 1, ((0, self.enc(p)),)) if p is not None else ('a', 0, ()))
            if p != T: out.append((j, p))
        return ('a', None, ((1, ('a', i, tuple(out))),))

    def dec(self, v):
        v = strip(v)
        if v[0] != 'a' or v[1] is not None: return ('?',)
        e = dict(v[2]).get(1, T)
        if e[0] != 'a' or e[1] is None: return ('?',)
        f = dict(e[2]); n = self.n[e[1]]
        if 99 in f and len(f[99]) > 2: return f[99][2]
        if n == 'Int' and f.get(0, T)[:2] == ('sym', 'cst'): return ('C', f[0][2])
        out = [n]
        for j, (_, ft) in enumerate(self.et[e[1]][2]):
            k = self.kind(ft); p = f.get(j, T)
            if k in ('box', 'opt'):
                q = dict(p[2]).get(0, T) if p[0] == 'a' else p
                p = strip(q)
                if k == 'box': out.append(self.dec(p))
                else: out.append(self.dec(dict(p[2]).get(0, T)) if p[0] == 'a' and p[1] == 1 else None if p[0] == 'a' and p[1] == 0 else ('?',))
            elif k == 'vec': out.append(tuple(self.dec(x) for x in p[2][p[3]:]) if is_seq(p) else ('?',))
            elif k == 'vec3': out.append(tuple(self.dec(dict(x[2]).get(2, T)) if x[0] == 'a' else ('?',) for x in p[2][p[3]:]) if is_seq(p) else ('?',))
            else: out.append(strip(p))
        return tuple(out)

    def parts(self, t):
        """(part, kind) of a tree, in the order of declaration"""
        i = self.v[t[0]][0]
        return [(p, self.kind(ft)) for p, (_, ft) in zip(t[1:], self.et[i][2])]

    def text(self, t):
        if t is None: return 'none'
        if t[0] == 'C': return 'constant'
        if t[0] in self.LEAF: return {'E': 'effect%s', 'W': 'read%s', 'S': 'function%s'}[t[0]] % t[1]
        if t[0] not in self.v: return '?'
        out = []
        for p, k in self.parts(t):
            if k in ('vec', 'vec3'): out.append('[%s]' % ', '.join(self.text(x) for x in p))
            elif k: out.append(self.text(p))
            elif t[0] == 'NativeFunction' and p[0] == 'a': out.append(self.nfn[p[1]])
            elif t[0] == 'Binary' and p[0] == 'a': out.append(self.bopn[p[1]])
            elif t[0] == 'Literal' and p[0] == 'a': out.append({i: n for n, (i, _, _) in self.lit.items()}.get(p[1], '?'))
            elif t[0] == 'Binary' and p == ('i', 1): out.append('swapped')
        return t[0] + ('(%s)' % ', '.join(out) if out else '')


class Meaning:
    """what an expression means: the events of its evaluation in order, and the value in terms of the parts"""
    EFFECT = ('Exit', 'Index', 'SetField', 'SwapField', 'Assignment', 'PatternAssignment', 'ArrayAssignment', 'ArrayOpAssignment')
    READ = ('LValue',)

    def __init__(self, tr, facts, asop, swap): self.tr = tr; self.facts = facts; self.asop = asop; self.swap = swap

    def partial(self, nf, n):
        m = 2 if nf in self.asop or self.swap.get(nf) in self.asop else self.facts.get(('min', nf))
        return m is not None and m > n

    def ev(self, t):
        """(value, events)"""
        k = t[0]
        if k == 'E': return ('val', t), (('effect', t),)
        if k == 'W': return ('val', t), (('read', t),)
        if k == 'S': return ('val', t), ()
        if k == 'C': return ('cst', t[1]), ()
        if k == '?': raise Undecided('a part that cannot be told')
        if k == 'Nil': return ('cst', ('lit', 'Nil')), ()
        if k in CONSTANTS: return ('cst', t[1]), ()
        if k == 'NativeFunction': return ('nf', t[1]), ()
        if k in ('Field', 'Function'): return (k, t[1:]), ()
        if k == 'Comma':
            if t[2] == ('i', 0) and len(t[1]) == 1 and t[1][0][0] != 'Unroll': return self.ev(t[1][0])
            return self.ev(('Literal', ('a', self.tr.lit['Vector'][0], ()), t[1]))
        if k == 'Binary':
            l, el = self.ev(t[2]); r, er = self.ev(t[3])
            if t[4][0] != 'i': raise Undecided('whether operands are swapped')
            return self.binary(t[1], l, r), er + el if t[4][1] else el + er
        if k == 'Unary':
            a, ea = self.ev(t[2])
            return ('unary', t[1], a) if a[0] != 'cst' else ('cst', ('fold', t[1], a[1])), ea
        if k in ('LogicalAnd', 'LogicalOr'):
            l, el = self.ev(t[1]); r, er = self.ev(t[2])
            return (k, l, r), el + ((('if', k, (), er),) if er else ())
        if k == 'IfThenElse':
            c, ec = self.ev(t[1]); a, ea = self.ev(t[2]); b, eb = self.ev(t[3])
            known = self.facts.get(('bool', c))
            if known is not None: return (a, ec + ea) if known else (b, ec + eb)
            return ('if', c, a, b), ec + ((('if', c, ea, eb),) if ea or eb else ())
        if k == 'Compare':
            v, e = self.ev(t[1]); out = [v]; tail = []
            for n, x in enumerate(t[2]):
                y, ey = self.ev(x); out.append(y); tail.append(ey)
            nested = ()
            for n in range(len(tail) - 1, 0, -1): nested = (('if', 'compare', tail[n] + nested, ()),) if tail[n] or nested else ()
            return ('compare',) + tuple(out), e + (tail[0] if tail else ()) + nested
        if k == 'Call':
            f, e = self.ev(t[1]); args = []
            for x in t[2]:
                a, ea = self.ev(x); args.append(a); e = e + ea
            return self.call(f, tuple(args), e)
        if k == 'Compose':
            a, ea = self.ev(t[1])
            if t[2][0] == 'Literal' and self.tr.lit['List'][0] == t[2][1][1] and not any(x[0] == 'Unroll' for x in t[2][2]) and len(t[2][2]) == 1:
                i, ei = self.ev(t[2][2][0]); v = ('Index', a, i); return v, ea + ei + (('effect', v),)
            if t[2][0] == 'SliceLiteral':
                vs = []; e = ea
                for x in t[2][1:]:
                    if x is None: continue
                    v, ev = self.ev(x); vs.append(v); e = e + ev
                return (('Slice', 'SliceWithStep')[len(vs) == 3], a) + tuple(vs), e
            f, ef = self.ev(t[2])
            return self.call(f, (a,), ea + ef)
        if k == 'Literal' or k in self.tr.v:
            vs = []; e = ()
            for p, kind in self.tr.parts(t):
                if kind in ('vec', 'vec3'):
                    xs = []
                    for x in p: v, ev = self.ev(x); xs.append(v); e = e + ev
                    vs.append(tuple(xs))
                elif kind == 'opt' and p is None: vs.append(None)
                elif kind: v, ev = self.ev(p); vs.append(v); e = e + ev
                else: vs.append(p)
            if k in self.EFFECT: e = e + (('effect', (k,) + tuple(vs)),)
            if k in self.READ: e = e + (('read', (k, tuple(vs))),)
            return (k,) + tuple(vs), e
        raise Undecided(k)

    def binary(self, op, l, r): return ('binary', op, l, r) if l[0] != 'cst' or r[0] != 'cst' else ('cst', ('fold', op, l[1], r[1]))

    def call(self, f, args, e):
        un = any(a[0] == 'Unroll' for a in args)
        if f[0] == 'partial' :      # what a partial function is given is added to what it has
            return self.call(f[1], f[2] + args, e)
        if f[0] == 'nf':
            nf = f[1][1]; name = self.tr.nfn[nf]
            if not un and len(args) == 2:
                op = self.asop.get(nf); sw = self.asop.get(self.swap.get(nf))
                if op is not None: return self.binary(('a', op, ()), *args), e
                if sw is not None: return self.binary(('a', sw, ()), args[1], args[0]), e
            if not un and len(args) == 1 and name in ('Min', 'Max') and args[0][0] == 'nf' and self.tr.nfn[args[0][1][1]] == 'Int': return ('cst', ('i', {'Min': -2**62, 'Max': 2**62 - 1}[name])), e
            if not un and self.partial(nf, len(args)): return ('partial', f, args), e
        v = ('call', f, args)
        return v, e + (('effect', v),)


class Undecided(Exception): pass


def order(ev):
    """events, with reads that stand next to each other in no particular order"""
    out = []; run = []
    for x in ev:
        if x[0] == 'if':
            x = ('if', x[1]) + tuple(order(y) for y in x[2:])
            if all(z[0] == 'read' for b in x[2:] for z in flat(b)): x = ('read', x)
        if x[0] == 'read': run.append(x)
        else:
            out += sorted(run, key=repr) + [x]; run = []
    return tuple(out + sorted(run, key=repr))


def flat(b): return [z for x in b for z in (flat([y for br in x[2:] for y in br]) if x[0] == 'if' else flat([x[1]]) if x[0] == 'read' and x[1][0] == 'if' else [x])]


def closures(w, x):
    ts = {c for c in x.s or () if isinstance(c, int) and w.types[c]['k'] == 'closure'}
    return [y for c in ts for y in w.by_path.get(w.types[c]['d'], ()) if y.body is not None and y.argc and w.strip_ref(y.locals[1]) == c]


class OptQ(TQuery):
    """the optimizer run on the shape of an expression; tag = what was assumed about constants and functions"""
    max_tags = 400
    seqs = EmitH.seqs; num = EmitH.num
    def __init__(self, w, tr, visit=None):
        TQuery.__init__(self); self.w = w; self.tr = tr; self.visit = visit
        self.opt = set(); self.fwd = self.rev = ()
        self.et = set(w.adts('expr::Expr')); self.nft = set(w.adts('core::NativeFunction'))
        self.valued = set(w.adts('vm::ValuePtr')) | set(w.adts('operator::UnaryOp')) | set(w.adts('operator::BinaryOp'))
        self.rel = {x.i for x in w.insts if x.ws and x.body is not None and (x.p.startswith(('cordy_sys::compiler::parser::expr', '<cordy_sys::compiler::parser::expr', '<cordy_sys::compiler::parser::codegen', 'cordy_sys::compiler::parser::codegen')) or
                    x.argc and w.strip_ref(x.locals[1]) in self.nft and x.p.startswith(('cordy_sys::core', '<cordy_sys::core')) or 'as cordy_sys::compiler::parser::expr::Traversable' in x.p or 'as cordy_sys::compiler::parser::Traversable' in x.p)}
        self.types = {n: i for n, (i, _, _) in w.variants('vm::Type').items()}; self.ops = set()

    def holds(self, t): return self.w.tstr(t).endswith(('expr::Expr', 'expr::Expr)'))
    def relevant(self, eng, x): return x.i in self.rel
    def ret_key(self, v): return v
    def assume(self): return {}
    assume = {}

    def t_stmt(self, eng, fr, bi, s, val, st, tag):
        if s[2][0] == 'agg' and s[2][1] == 'array' and '*' in s[1]: st['vec'] = seq(tuple(eng.operand(fr.inst, st, o) for o in s[2][2]))
        return tag

    def fact(self, tag, k, v):
        d = dict(tag)
        if k in d: return tag if d[k] == v else None
        d[k] = v
        return tuple(sorted(d.items(), key=repr))

    def cst(self, args):
        for a in args:
            a = strip(a)
            if a[0] == 'sym' and a[1] == 'cst': return a

    def purity_min(self, a, b):
        if a[0] == b[0] == 'a' and a[1] is not None and b[1] is not None: return a if a[1] <= b[1] else b

    def t_call(self, eng, fr, bi, t, x, args, tag, st):
        w = self.w
        if x.n == 'box_assume_init_into_vec_unsafe' and 'vec' in st: return [(tag, st['vec'])]
        if not x.ws and x.n in ('any', 'all') and args and is_seq(strip(args[0])):
            ys = closures(w, x)
            if len(ys) != 1: return None
            v = strip(args[0]); live = {tag}; out = []
            for e in (reversed(v[2][v[3]:]) if v[4] else v[2][v[3]:]):
                new = set()
                for tg in live:
                    for tg2, r in eng.tapply(fr.inst, st, ys[0], [self.env(ys[0], args[1]), ('a', None, ((0, e),))], fr, tg):
                        for b in (0, 1):
                            if r[0] == 'i' and r[1] != b: continue
                            if (x.n == 'any') == bool(b): out.append((tg2, ('i', b)))
                            else: new.add(tg2)
                live = new
            return out + [(tg, ('i', int(x.n == 'all'))) for tg in live]
        if not x.ws and x.n == 'map' and args and is_seq(strip(args[0])):
            ys = closures(w, x)
            if len(ys) != 1: return None
            v = strip(args[0]); live = {(tag, ())}
            for e in (tuple(reversed(v[2][v[3]:])) if v[4] else v[2][v[3]:]):
                live = {(tg2, done + (r,)) for tg, done in live for tg2, r in eng.tapply(fr.inst, st, ys[0], [self.env(ys[0], args[1]), ('a', None, ((0, e),))], fr, tg)}
            return [(tg, seq(d)) for tg, d in live]
        if not x.ws and x.n == 'map' and 'Option' in x.p and args and strip(args[0])[0] == 'a' and strip(args[0])[1] is not None:
            v = strip(args[0]); ys = closures(w, x)
            if v[1] == 0: return [(tag, ('a', 0, ()))]
            if len(ys) == 1: return [(tg, ('a', 1, ((0, r),))) for tg, r in eng.tapply(fr.inst, st, ys[0], [self.env(ys[0], args[1]), ('a', None, ((0, dict(v[2]).get(0, T)),))], fr, tag)]
        if not x.ws and x.n == 'append' and len(args) == 2 and is_seq(strip(args[0])) and is_seq(strip(args[1])):
            for a, nv in ((0, seq(strip(args[0])[2] + strip(args[1])[2])), (1, seq(()))):
                p = eng.operand(fr.inst, st, t[2][a])
                if p[0] == 'p': eng.write(fr.inst, st, (p[1],) + p[2], nv)
            return [(tag, T)]
        if x.ws and x.body is not None and x.argc == 1 and w.strip_ref(x.locals[1]) in self.nft and w.tstr(x.locals[0]) == 'u32':
            v = strip(args[0])
            if v[0] == 'a':
                out = []
                for k in (range(4) if v[1] not in self.ops else (2,)):
                    tg = self.fact(tag, ('min', v[1]), k)
                    if tg is not None: out.append((tg if v[1] not in self.ops else tag, ('i', k)))
                return out
        if not args and x.ws and x.n == 'nil' and x.body is not None and x.locals[0] in self.valued: return [(tag, sym('cst', ('lit', 'Nil')))]
        c = self.cst(args)
        if c is not None and (x.ws and x.body is not None and x.argc and w.strip_ref(x.locals[1]) in self.valued or x.n in ('to_value', 'as_result', 'ok', 'clone', 'from')):
            rt = w.tstr(x.locals[0]) if x.body is not None else ''
            if x.n == 'apply':
                vs = [strip(a) for a in args]
                return [(tag, sym('cst', ('fold', vs[0]) + tuple(v[2] if v[:2] == ('sym', 'cst') else ('?',) for v in vs[1:])))]
            if x.n == 'as_result': return [(tag, ('a', 0, ((0, c),))), (tag, ('a', 1, ()))]
            if rt == 'bool':
                out = []
                if x.n != 'to_bool': return [(tag, c)]
                for b in (0, 1):
                    tg = self.fact(tag, ('bool', ('cst', c[2])), b)
                    if tg is not None: out.append((tg, ('i', b)))
                return out
            if x.n == 'ty':
                k = 'Int' if not isinstance(c[2], tuple) else c[2][1] if c[2][0] == 'lit' else None
                return [(tag, ('a', self.types[k], ()) if k in self.types else ('a', self.types['LongStr'], ()) if k == 'Str' else T)]
            return [(tag, c)]
        if self.visit is not None:
            r = self.visit(x, args)
            if r is not None: return [(tag, r)]
        return self.seqs(eng, fr, t, x, args, tag, st)

    def env(self, y, a): return a if self.w.types[y.locals[1]]['k'] != 'ref' else ('r', a)

    def model(self, eng, x, args, fr):
        if x.n == 'new' and 'boxed::Box' in x.p and args: return box(args[0])
        if not args: return EmitH.model(self, eng, x, args, fr)
        v = strip(args[0])
        if not x.ws and x.n == 'min' and len(args) == 1 and is_seq(v):
            el = v[2][v[3]:]
            if not el: return ('a', 0, ())
            m = el[0]
            for e in el[1:]:
                m = self.purity_min(strip(m), strip(e))
                if m is None: return T
            return ('a', 1, ((0, m),))
        if not x.ws and x.n in ('min', 'max') and len(args) == 2:
            a, b = strip(args[0]), strip(args[1]); m = self.purity_min(a, b)
            if m is not None: return m if x.n == 'min' else (b if m is a else a)
        if not x.ws and x.n in ('unwrap_or', 'unwrap') and v[0] == 'a' and v[1] is not None:
            return dict(v[2]).get(0, T) if v[1] == 1 else args[1] if len(args) > 1 else ('never',)
        if not x.ws and x.n == 'into_iter' and is_seq(v) and len(x.locals) > 1 and self.w.types[x.locals[1]]['k'] == 'ref': return seq(tuple(e if e[0] == 'r' else ('r', e) for e in v[2]), v[3], v[4])
        return EmitH.model(self, eng, x, args, fr)

    def descend(self, eng, x, args): return not x.ws and ('Option' in x.p or 'PartialEq' in x.p or 'convert' in x.p) and len(x.blocks or ()) <= 10 or x.ws and len(x.blocks) <= 12


class OptE(TEngine):
    out_depth = 60
    def exprs(self, inst):
        r = self._ex.get(inst.i)
        if r is None: r = self._ex[inst.i] = {i for i, t in enumerate(inst.locals) if 'expr::Expr' in self.w.tstr(t) and self.w.types[t]['k'] == 'adt'}
        return r
    def split(self, inst, st):
        ex = self.exprs(inst)
        return TEngine.split(self, inst, st) + tuple((l, v) for l, v in sorted((z for z in st.items() if isinstance(z[0], int)), key=lambda z: z[0]) if v[0] == 'sym' and v[1] == 'seq' or l in ex)
    def havoc(self, inst, st, v):
        if v[0] == 'p' and v[3] and self.read(inst, st, (v[1],) + v[2])[:2] == ('sym', 'seq'): return
        super().havoc(inst, st, v)


def tables(ctx, w, tr):
    """which operator the function form of an operator stands for, and which takes its arguments the other way around"""
    fn = [x for x in w.insts if x.ws and x.body is not None and x.argc == 1 and w.strip_ref(x.locals[1]) in set(w.adts('core::NativeFunction'))]
    ops = [x for x in fn if 'BinaryOp' in w.tstr(x.locals[0]) and w.tstr(x.locals[0]).startswith('std::option::Option')]
    sw = [x for x in fn if x.locals[0] in set(w.adts('core::NativeFunction')) and x.n not in ('clone', 'borrow', 'to_owned', 'from')]
    if not ops or not sw: raise Missing('the tables of operators')
    asop, swap = {}, {}
    for i, n in tr.nfn.items():
        v = ('a', i, ())
        for x, d in ((ops[0], asop), (sw[0], swap)):
            r = Engine(w, Query()).call(x, [('r', v) if w.types[x.locals[1]]['k'] == 'ref' else v])[0]
            if d is asop:
                if r is not None and r[0] == 'a' and r[1] == 1: d[i] = dict(r[2]).get(0, T)[1]
            elif r is not None and r[0] == 'a': d[i] = r[1]
    return asop, swap


def opt(w, tr, x, t, visit=None, ops=()):
    q = OptQ(w, tr, visit); q.ops = ops; e = OptE(w, q, max_steps=300000); e._ex = {}; e.veng = Engine(w, q, max_ctx=100); e.veng.out_depth = 60
    args = [T] * x.argc
    for j in range(x.argc):
        if x.locals[j + 1] in q.et: args[j] = tr.enc(t)
    return q, e.solve(x, args, ())


LEAVES = {'E': lambda n: ('E', n), 'W': lambda n: ('W', n), 'S': lambda n: ('S', n), 'C': lambda n: ('C', n)}
CONSTANTS = ('Bool', 'Int', 'Complex', 'Str')
TRANSIENT = ('Comma', 'Empty', 'VarEmpty', 'VarLValue', 'Error', 'Unroll')


def forms(tr, n):
    """(number of parts, how to put an expression of this kind together from them)"""
    i = tr.v[n][0]; out = [(0, [])]
    for j, (fn, ft) in enumerate(tr.et[i][2]):
        k = tr.kind(ft); s = tr.w.tstr(ft); new = []
        for c, acc in out:
            if k == 'box': new.append((c + 1, acc + [lambda l, c=c: l[c]]))
            elif k == 'opt': new += [(c, acc + [lambda l: None]), (c + 1, acc + [lambda l, c=c: l[c]])]
            elif k == 'vec3': new += [(c + m, acc + [lambda l, c=c, m=m: tuple(l[c:c + m])]) for m in (2, 3)]
            elif k == 'vec':
                for m, un in ((0, ()), (1, ()), (2, ()), (1, (0,)), (2, (0,)), (2, (1,))):
                    new.append((c + m, acc + [lambda l, c=c, m=m, un=un: tuple(('Unroll', x) if z in un else x for z, x in enumerate(l[c:c + m]))]))
            elif n in CONSTANTS: new.append((c, acc + [lambda l: sym('cst', ('lit', n))]))
            elif s == 'bool' and n == 'Call': new.append((c, acc + [lambda l: 'unroll']))
            elif s == 'bool': new += [(c, acc + [lambda l, b=b: ('i', b)]) for b in (0, 1)]
            elif s.endswith('LiteralType'): new += [(c, acc + [lambda l, b=b: ('a', b, ())]) for b in (tr.lit['List'][0], tr.lit['Dict'][0])]
            elif s.endswith('operator::BinaryOp'): new.append((c, acc + [lambda l: ('a', tr.bop['Sub'][0], ())]))
            elif s.endswith('core::NativeFunction'): new.append((c, acc + [lambda l: ('a', tr.nf['Print'][0], ())]))
            else: new.append((c, acc + [lambda l, j=j: sym('pay', j)]))
        out = new
    def make(acc):
        def f(l):
            t = [n] + [a(l) for a in acc]
            if 'unroll' in t: t[t.index('unroll')] = ('i', int(any(x[0] == 'Unroll' for x in t[2])))
            return tuple(t)
        return f
    return [(c, make(acc)) for c, acc in out]


def leafs(kinds, base=1): return [LEAVES[k](base + j) for j, k in enumerate(kinds)]


def catalogue(tr, asop, swap):
    """the shapes of expressions that are tried"""
    from itertools import product
    nf = lambda n: ('NativeFunction', ('a', tr.nf[n][0], ()))
    bop = ('a', tr.bop['Sub'][0], ())
    call = lambda f, *a: ('Call', f, tuple(a), ('i', int(any(x[0] == 'Unroll' for x in a))))
    names = [n for n in tr.v if n not in TRANSIENT]
    seen = set()
    def one(t):
        if t not in seen: seen.add(t); return [t]
        return []
    inner = []
    for n in names:
        for c, make in forms(tr, n):
            for ks in ([ks for ks in product('EWS', repeat=c)] if c <= 3 else [('S',) * j + (k,) + ('S',) * (c - j - 1) for j in range(c) for k in 'EW'] + [('W',) * c, ('E',) * c]):
                yield from one(make(leafs(ks)))
            for ks in [('C',) * c] + [('C',) * j + ('E',) * (c - j) for j in range(1, c)] + [('E',) * j + ('C',) * (c - j) for j in range(1, c)] if c else []:
                yield from one(make(leafs(ks)))
            for ks in {('S',) * c, ('W',) * c} | {('S',) * j + (k,) + ('S',) * (c - j - 1) for j in range(c) for k in 'EW'}: inner.append(make(leafs(ks, 10)))
    for f in ('Map', 'OperatorSub', 'OperatorDiv', 'OperatorDivSwap', 'Print'):
        for ks in ('', 'E', 'W', 'S', 'EE', 'WS'): inner.append(call(nf(f), *leafs(ks, 10)))
    for f in ('Map', 'OperatorSub', 'OperatorDivSwap'):
        for k in 'EWS':
            a = LEAVES[k](10); inner += [call(nf(f), ('Unroll', a)), call(nf(f), ('Unroll', a), ('S', 11)), call(call(nf(f), ('Unroll', a)), ('S', 11)), ('Compose', a, nf(f)), ('Compose', ('S', 11), call(nf(f), a))]
    for x in inner:
        for k in 'EWS':
            l = LEAVES[k](1)
            for t in (('Compose', l, x), ('Compose', x, l), call(nf('OperatorDivSwap'), x, l), call(nf('OperatorDivSwap'), l, x)): yield from one(t)
    for f, (i, _, _) in tr.nf.items():
        special = i in asop or swap.get(i) in asop or f in ('Map', 'Min', 'Max', 'Print')
        if not special:
            yield from one(call(nf(f), ('E', 1), ('W', 2))); yield from one(call(call(nf(f), ('E', 1)), ('W', 2))); yield from one(call(call(nf(f), ('E', 1)), ('Unroll', ('W', 2))))
            yield from one(('Compose', ('E', 1), call(nf(f), ('W', 2)))); yield from one(('Compose', ('W', 1), call(nf(f), ('E', 2)))); yield from one(call(nf(f), ('C', 1), ('C', 2)))
            continue
        for ks in ('E', 'EW', 'WE', 'ES', 'WW', 'CC', 'EWS'): yield from one(call(nf(f), *leafs(ks)))
        yield from one(call(nf(f), ('Unroll', ('E', 1)), ('W', 2)))
        yield from one(call(nf(f), ('E', 1), ('Unroll', ('E', 2))))
        yield from one(call(nf(f), nf('Int')))
        for a in ('E', 'W', 'S'):
            yield from one(('Compose', LEAVES[a](1), call(nf(f), ('E', 2)))); yield from one(('Compose', LEAVES[a](1), call(nf(f), ('W', 2))))
            yield from one(('Compose', ('E', 1), call(nf(f), ('S', 2), LEAVES[a](3)))); yield from one(('Compose', LEAVES[a](1), call(nf(f), ('Unroll', ('E', 2)))))
            yield from one(('Compose', LEAVES[a](1), nf(f)))
        yield from one(call(call(nf(f), ('E', 1)), ('W', 2))); yield from one(call(call(nf(f), ('E', 1)), ('Unroll', ('W', 2))))
        yield from one(call(call(nf(f), ('Unroll', ('E', 1))), ('W', 2))); yield from one(call(call(nf(f), ('E', 1), ('E', 2)), ('E', 3)))
        yield from one(call(call(nf(f)), ('E', 3), ('E', 4))); yield from one(call(call(nf(f), ('C', 1)), ('C', 2)))
        yield from one(('Compose', ('W', 1), call(call(nf(f), ('W', 2)), ('W', 3))))


def plain(v):
    """constants written one way"""
    if isinstance(v, tuple):
        if v[:2] == ('sym', 'cst'): return plain(v[2])
        if v and v[0] == 'cst': return ('cst', plain(v[1]))
        return tuple(plain(x) for x in v)
    return v


def same(a, b):
    if a == b: return True
    if isinstance(a, tuple) and isinstance(b, tuple):
        if b == ('cst', ('lit', 'Nil')) and a[:1] == ('cst',) and isinstance(a[1], tuple) and a[1][:1] == ('fold',): return True     # which constant it is is not known
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return False


def rejects(tr, t):
    """expressions that the optimizer may find to be an error"""
    return t[0] in ('Binary', 'Unary') and all(x[0] == 'C' for x in t[2:4] if x[0] != 'i') or t[0] == 'Compose' and t[2][0] == 'Literal' or t[0] == 'Call' and all(x[0] == 'C' for x in flat_args(t))


def flat_args(t): return (flat_args(t[1]) if t[1][0] == 'Call' else ()) + t[2]


class Part:
    """what one process found"""
    def __init__(self): self.violations = []; self.coverage = {}
    def violation(self, *v): self.violations.append(v)
    def count(self, **kw):
        for k, v in kw.items(): self.coverage[k] = self.coverage.get(k, 0) + v


def spread(ctx, n, job):
    """job(part, k) for k < n in processes of their own"""
    import os, pickle, traceback
    pids = []
    for k in range(n):
        r, wr = os.pipe(); pid = os.fork()
        if pid == 0:
            os.close(r); part = Part()
            try: job(part, k)
            except BaseException: part = traceback.format_exc()
            with os.fdopen(wr, 'wb') as f: pickle.dump(part if isinstance(part, str) else (part.violations, part.coverage), f)
            os._exit(0)
        os.close(wr); pids.append((pid, r))
    got = []
    for pid, r in pids:
        with os.fdopen(r, 'rb') as f: got.append(f.read())
        os.waitpid(pid, 0)
    for d in got:
        d = pickle.loads(d) if d else 'a process ended early'
        if isinstance(d, str): ctx.violation('undecided', 'the analysis ends early: %s' % ' / '.join(d.strip().split('\n')[-3:])); continue
        for v in d[0]: ctx.violation(*v)
        ctx.count(**d[1])


def optimised(ctx, w, tr, asop, swap):
    vis = [x for x in w.insts if x.ws and x.body is not None and 'Visitor' in x.p and 'ptimizer' in x.p and x.n == 'visit']
    if not vis: raise Missing('the optimizer')
    todo = [(x, t) for x in vis for t in catalogue(tr, asop, swap)]
    n = 8
    spread(ctx, n, lambda part, k: validate(part, w, tr, asop, swap, todo[k::n]))


def validate(ctx, w, tr, asop, swap, todo):
    ops = {i for i in tr.nfn if i in asop or swap.get(i) in asop}
    for x, t in todo:
        ctx.count(shapes=1)
        k = 'optimised %s' % (t[0] if t[0] not in ('Compose', 'Call') else '%s of %s' % (t[0], '/'.join(sorted({y[0] for y in ([t[1], t[2]] if t[0] == 'Compose' else [t[1]] + list(t[2])) if y[0] not in Trees.LEAF}) or ['parts'])))
        try: q, s = opt(w, tr, x, t, ops=ops)
        except TooMany as e: ctx.violation(k, 'what the optimizer does to %s cannot be told: %s' % (tr.text(t), e), x.loc()); continue
        if not s: ctx.violation(k, 'what the optimizer does to %s cannot be told' % tr.text(t), x.loc()); continue
        for (tag, _), v in s.items():
            r = tr.dec(v); ctx.count(results=1)
            m = Meaning(tr, dict(tag), asop, swap)
            if r[0] == 'Error' and rejects(tr, t): continue
            try: a, b = m.ev(t), m.ev(r)
            except Undecided as e: ctx.violation(k, 'what the optimizer does to %s cannot be told: %s in %s' % (tr.text(t), e, tr.text(r)), x.loc()); continue
            ea, eb = order(plain(a[1])), order(plain(b[1]))
            if ea != eb and not same(ea, eb):
                one = sorted(repr(z) for z in flat(ea)) == sorted(repr(z) for z in flat(eb))
                ctx.violation(k, '%s becomes %s, which %s' % (tr.text(t), tr.text(r), 'evaluates its parts in another order' if one else 'does not evaluate the same parts'), x.loc())
            elif not same(plain(a[0]), plain(b[0])): ctx.violation(k, '%s becomes %s, which is something else' % (tr.text(t), tr.text(r)), x.loc())


def walked(ctx, w, tr):
    """going through an expression with a visitor that changes nothing gives the same expression, every part of it visited once"""
    wk = [x for x in w.insts if x.ws and x.body is not None and x.n == 'walk' and x.argc and w.tstr(x.locals[1]).endswith('expr::Expr')]
    if not wk: raise Missing('the walk over an expression')
    vis = {x.i for x in w.insts if x.ws and x.n == 'visit' and 'Visitor' in x.p}
    def hook(x, args):
        if x.i in vis:
            v = strip(args[-1])
            return ('a', None, tuple(sorted(v[2] + ((98, ('i', 1)),)))) if v[0] == 'a' and 98 not in dict(v[2]) else T
        if x in wk:
            v = strip(args[0]); t = tr.dec(v)
            if t[0] in Trees.LEAF:
                e = dict(v[2]); k = dict(e[1][2])
                if (100, ('i', 1)) in k.items(): return ('never',)
                return ('a', None, ((1, ('a', e[1][1], tuple(sorted(e[1][2] + ((100, ('i', 1)),))))),))
    for x in wk:
        for n in tr.v:
            if n in ('Comma',) and 'Opt' in w.tstr(x.locals[2]): continue
            for c, make in forms(tr, n):
                t = make(leafs(('E',) * c))
                ctx.count(walks=1); k = 'walk %s' % n
                try: q, s = opt(w, tr, x, t, hook)
                except TooMany as e: ctx.violation(k, 'what visiting %s makes of it cannot be told: %s' % (tr.text(t), e), x.loc()); continue
                if not s: ctx.violation(k, 'what visiting %s makes of it cannot be told' % tr.text(t), x.loc())
                for v in s.values():
                    r = tr.dec(v); old = t
                    if n == 'Call' and r[0] == n: r = r[:3] + (('i', int(any(a[0] == 'Unroll' for a in r[2]))),)
                    if n in CONSTANTS: r, old = r[0] if r[0] != 'C' else n, n
                    if r != old: ctx.violation(k, 'visiting %s with a visitor that changes nothing makes it %s' % (tr.text(t), tr.text(r) if isinstance(r, tuple) else r), x.loc())
                    elif unvisited(v) or 98 not in dict(strip(v)[2]): ctx.violation(k, 'visiting %s leaves parts of it out' % tr.text(t), x.loc())


def unvisited(v):
    """leaves that were not gone through"""
    if v[0] == 'r': return unvisited(v[1])
    if is_seq(v): return sum((unvisited(e) for e in v[2][v[3]:]), [])
    if v[0] != 'a': return []
    f = dict(v[2])
    return [f[99]] if 99 in f and 100 not in f else sum((unvisited(e) for e in f.values()), [])


def processed(ctx, w, tr, asop, swap):
    """what is done to an expression before it is optimized keeps its meaning"""
    vis = [x for x in w.insts if x.ws and x.body is not None and 'Visitor' in x.p and 'ptimizer' not in x.p and x.n == 'visit']
    if not vis: raise Missing('the visitor that prepares expressions')
    todo = [(x, make(leafs(('E',) * c))) for x in vis for n in tr.v if n not in ('Empty', 'VarEmpty', 'VarLValue', 'Error', 'Unroll') for c, make in forms(tr, n)]
    validate(ctx, w, tr, asop, swap, todo)


def run(ctx):
    absint.clip.__defaults__ = (40,)
    w = ctx.world()
    ctx.rule('The optimizer (visit, and everything it calls in the compiler) is analysed on the shape of every kind of expression, with parts that have an effect, read a variable, are pure or constant, and calls and compositions of them with every native function; the shape that comes out must have the same value as a term over the parts and constants, and the same effects in the same order, where a read may only move across what has no effect. Constants and the number of arguments functions need are case distinctions.')
    ctx.rule('The walk over an expression, with a visitor that changes nothing, gives the same expression for every kind, with every part gone through once; what prepares expressions for emission keeps their meaning in the same sense.')
    tr = Trees(w)
    asop, swap = tables(ctx, w, tr)
    ctx.floor('operators that have a function', len(asop), 15)
    walked(ctx, w, tr)
    processed(ctx, w, tr, asop, swap)
    optimised(ctx, w, tr, asop, swap)
    ctx.floor('expression shapes', ctx.coverage['shapes'], 4000)
    ctx.floor('results of optimizing', ctx.coverage['results'], 5000)
