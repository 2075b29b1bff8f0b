"""C28: the code generated for an expression computes it: the instructions emitted for every kind of expression, run on a symbolic stack."""
import itertools
from emission import *
from rules.c25 import EmitE
from rules.c16 import Trees, forms, leafs, sym, Undecided, TRANSIENT
import absint


class CodeQ(EmitH):
    """tag = tuple of what is emitted"""
    max_tags = 4000
    START = ()
    def __init__(self, w, tr, roots):
        EmitH.__init__(self, w, None, roots); self.tr = tr; self.onames = {i: n for n, (i, _, _) in w.variants(OPCODE).items()}

    def ret_key(self, v): return v if v[0] == 'sym' else TQuery.ret_key(self, v)

    def val(self, v):
        v = strip(v)
        if v[0] == 'a' and v[1] is not None: return ('v', v[1])
        if v[0] == 'i': return v[1]
        if v[0] == 'sym': return v
        return None

    def add(self, tag, e): return tag + (e,) if len(tag) < 60 else tag

    def descend(self, eng, x, args): return EmitH.descend(self, eng, x, args) or x.ws and x.body is not None and x.p.startswith(('cordy_sys::vm::operator', '<cordy_sys::vm::operator')) and len(x.blocks) <= 20

    def t_stmt(self, eng, fr, bi, s, val, st, tag): return tag

    def instruction(self, v):
        v = strip(v)
        if v == ('sym', 'placeholder'): return ('op', 'placeholder')
        if v[0] != 'a' or v[1] is None: return ('op', '?')
        f = dict(v[2]); fs = self.w.types[self.w.adts(OPCODE)[0]]['v'][v[1]][2]
        return ('op', self.onames[v[1]]) + tuple(self.val(f.get(i, T)) for i in range(len(fs)))

    def t_call(self, eng, fr, bi, t, x, args, tag, st):
        r = self.role(x)
        if r == 'expr':
            a = [strip(y) for i, y in enumerate(args) if self.w.strip_ref(x.locals[i + 1]) in self.expr]
            return [(self.add(tag, ('part', self.tr.dec(a[0]) if a else ('?',))), T)]
        if r == 'error': return []
        if r == 'placeholder': return [(tag, ('sym', 'placeholder'))]
        if r == 'emit':
            v = strip(args[[i for i in range(x.argc) if x.locals[i + 1] in self.opt][0]])
            vs = v[1] if v[0] == 'u' else [v]
            return [(self.add(tag, self.instruction(y)), T) for y in vs]
        if r == 'term': return [(tag, T)]
        if r == 'fork':
            n = sum(e[0] == 'fork' for e in tag)
            return [(self.add(tag, ('fork', n)), ('sym', 'br', n))]
        if r == 'join':
            b = strip(args[[i for i in range(x.argc) if x.locals[i + 1] in self.fwd][0]]); ty = strip(args[[i for i in range(x.argc) if x.locals[i + 1] in self.bt][0]])
            return [(self.add(tag, ('join', b[2] if b[0] == 'sym' and b[1] == 'br' else None, self.bv.get(ty[1]) if ty[0] == 'a' else None, self.val(dict(ty[2]).get(0, T)) if ty[0] == 'a' else None)), T)]
        if r in ('label', 'back', 'patch'): return [(self.add(tag, (r,)), T)]
        if x.ws and any(self.w.tstr(x.locals[i + 1]).endswith(('semantic::LValue', 'semantic::LValue>')) for i in range(x.argc)): return [(tag, T)]      # the targets: C26, C27
        if x.ws and x.body is not None and self.w.tstr(x.locals[0]) == 'u32':
            for a in args:
                a = strip(a)
                if a[:2] == ('sym', 'cst'): return [(tag, a)]
        return self.seqs(eng, fr, t, x, args, tag, st)


class Stuck(Exception): pass


class Machine:
    """the instructions on a symbolic stack: what each is documented to do"""
    LOADS = ('PushLocal', 'PushGlobal', 'PushUpValue')
    def __init__(self, code):
        self.code = code; self.to = {}
        for p, e in enumerate(code):
            if e[0] == 'join':
                if e[1] is None or e[1] in self.to: raise Stuck('a branch that is not known is joined')
                self.to[e[1]] = (p, e[2], e[3])
            if e[0] in ('label', 'back', 'patch'): raise Stuck('code is changed later or jumped back to')

    def run(self):
        """the paths: (conditions, effects, value)"""
        out = []; work = [(0, (), (), (), (), ())]
        while work:
            pc, st, lits, unr, eff, cond = work.pop()
            if pc == len(self.code):
                if len(st) != 1: raise Stuck('%d values are left' % len(st))
                if lits or unr: raise Stuck('something is left unfinished')
                out.append((cond, eff, st[0])); continue
            e = self.code[pc]; nx = pc + 1
            if e[0] == 'part':
                if e[1][0] != 'E': raise Stuck('%s is emitted as an expression' % e[1][0])
                work.append((nx, st + (e[1],), lits, unr, eff + (e[1],), cond)); continue
            if e[0] == 'join': work.append((nx, st, lits, unr, eff, cond)); continue
            if e[0] == 'fork':
                if e[1] not in self.to: raise Stuck('a branch is never joined')
                p, kind, arg = self.to[e[1]]
                if p < pc: raise Stuck('a branch goes back')
                def go(to, s, c): work.append((to, s, lits, unr, eff, cond + c))
                if kind == 'Jump': go(p, st, ()); continue
                if not st: raise Stuck('nothing to test')
                v = st[-1]
                if kind in ('JumpIfFalse', 'JumpIfTrue', 'JumpIfFalsePop', 'JumpIfTruePop'):
                    k = 'True' in kind; s = st[:-1] if kind.endswith('Pop') else st
                    go(p, s, ((v, k),)); go(nx, s, ((v, not k),)); continue
                if kind == 'Compare' and len(st) > 1:
                    c = ('compare', arg, st[-2], st[-1])
                    go(p, st[:-2] + (('bool', 0),), ((c, False),)); go(nx, st[:-2] + (st[-1],), ((c, True),)); continue
                raise Stuck('a branch of an unknown kind')
            n, a = e[1], e[2:]
            def pop(k):
                nonlocal st
                if len(st) < k: raise Stuck('%s finds too few values' % n)
                r = st[len(st) - k:]; st = st[:len(st) - k]; return r
            def push(*v):
                nonlocal st
                st = st + v
            if n == 'Nil': push(('nil',))
            elif n in ('True', 'False'): push(('bool', int(n == 'True')))
            elif n in ('Constant', 'NativeFunction', 'GetFieldFunction') : push((n, a[0]))
            elif n in self.LOADS: push(('load', n) + a)
            elif n == 'Pop': pop(1)
            elif n == 'Swap': x, y = pop(2); push(y, x)
            elif n == 'Dup': x, = pop(1); push(x, x)
            elif n in ('Unary', 'GetField'): x, = pop(1); push((n, a[0], x))
            elif n == 'Binary': x, y = pop(2); push((n, a[0], x, y))
            elif n == 'GetFieldPeek': x, = pop(1); push(x, ('GetField', a[0], x))
            elif n == 'SetField': x, y = pop(2); v = (n, a[0], x, y); eff = eff + (v,); push(v)
            elif n == 'OpIndex': x = pop(2); v = ('Index',) + x; eff = eff + (v,); push(v)
            elif n == 'OpIndexPeek': x = pop(2); v = ('Index',) + x; eff = eff + (v,); push(*x, v)
            elif n in ('OpSlice', 'OpSliceWithStep'): push(('Slice',) + pop(3 if n == 'OpSlice' else 4))
            elif n in ('Slice', 'SliceWithStep'): push(('slice',) + pop(2 if n == 'Slice' else 3))
            elif n == 'StoreArray': v = (n,) + pop(3); eff = eff + (v,); push(v)
            elif n in ('StoreLocal', 'StoreGlobal', 'StoreUpValue'):
                x, = pop(1); v = ('store', n, a[0], x); eff = eff + (v,)
                if n != 'StoreUpValue' and a[1] == 1: pass
                else: push(x)
            elif n == 'Unroll':
                x, = pop(1); push(('unrolled', x))
                if a[0] == 1: unr = unr + ((x,),)
                elif a[0] == 0 and unr: unr = unr[:-1] + (unr[-1] + (x,),)
                else: raise Stuck('an argument is unrolled outside of a call')
            elif n == 'Call':
                if not isinstance(a[0], int) or a[1] not in (0, 1): raise Stuck('the operands of a call are not known')
                xs = pop(a[0] + 1); u = tuple(x[1] for x in xs[1:] if x[0] == 'unrolled')
                if bool(a[1]) != bool(u): raise Stuck('a call %s unrolled arguments is not marked as such' % ('with' if u else 'without'))
                if a[1]:
                    if not unr or unr[-1] != u: raise Stuck('a call counts unrolled arguments that are not its own')
                    unr = unr[:-1]
                v = ('call',) + xs; eff = eff + (v,); push(v)
            elif n == 'LiteralBegin': lits = lits + ((a[0], ()),)
            elif n in ('LiteralAcc', 'LiteralUnroll'):
                if not lits: raise Stuck('%s outside of a literal' % n)
                if n == 'LiteralAcc' and not isinstance(a[0], int): raise Stuck('the number of entries is not known')
                xs = pop(a[0]) if n == 'LiteralAcc' else (('unrolled',) + pop(1),)
                lits = lits[:-1] + ((lits[-1][0], lits[-1][1] + xs),)
            elif n == 'LiteralEnd':
                if not lits: raise Stuck('%s outside of a literal' % n)
                push(('literal',) + lits[-1]); lits = lits[:-1]
            elif n == 'Closure': x, = pop(1); push(('closure', x))
            elif n in ('CloseLocal', 'CloseUpValue'):
                x, = pop(1)
                if x[0] != 'closure': raise Stuck('a variable is captured by what is not a function')
                push(x + ((n,) + a,))
            elif n == 'ExecPattern': x, = pop(1); v = ('destructure', x); eff = eff + (v,); push(x)
            elif n == 'Exit': out.append((cond, eff + ('exit',), ('exit',))); continue
            else: raise Stuck('the instruction %s' % n)
            work.append((nx, st, lits, unr, eff, cond))
        return frozenset(out)


MARK = 'NotEqual'       # the operator that stands for `.=`


def expected(tr, t, oc):
    """the paths of an expression, from what the language says it means"""
    k = t[0]; nl = lambda v: ('v', v[1]) if v[0] == 'a' else v[1] if v[0] == 'i' else v
    one = lambda e, v: frozenset([((), e, v)])
    marked = ('v', tr.bop[MARK][0])
    def combine(op, old, rhs):      # `op=` and `.=`
        if op == marked: v = ('call', rhs, old); return v, (v,)
        return ('Binary', op, old, rhs), ()
    if k == 'Nil': return one((), ('nil',))
    if k == 'Exit': return one(('exit',), ('exit',))
    if k == 'Bool': return one((), ('bool', t[1][1]))
    if k in ('Int', 'Complex', 'Str'): return one((), ('Constant', t[1]))
    if k == 'NativeFunction': return one((), (k, nl(t[1])))
    if k == 'Field': return one((), ('GetFieldFunction', t[1]))
    if k == 'Function':
        v = ('Constant', t[1])
        return one((), ('closure', v) + tuple((oc[o[1]],) + tuple(nl(x) for _, x in o[2]) for o in t[2]) if t[2] else v)
    if k == 'LValue': return one((), ('load', 'PushLocal', sym('slot')))
    if k == 'Assignment':
        v = ('store', 'StoreLocal', sym('slot'), t[2]); return one((t[2], v), t[2])
    if k == 'PatternAssignment': return one((t[2], ('destructure', t[2])), t[2])
    if k == 'Unary': return one((t[2],), (k, nl(t[1]), t[2]))
    if k == 'Binary': return one((t[3], t[2]) if t[4][1] else (t[2], t[3]), (k, nl(t[1]), t[2], t[3]))
    if k == 'GetField': return one((t[1],), (k, t[2], t[1]))
    if k == 'SetField': v = (k, t[2], t[1], t[3]); return one((t[1], t[3], v), v)
    if k == 'SwapField':
        x, e = combine(nl(t[4]), ('GetField', t[2], t[1]), t[3]); v = ('SetField', t[2], t[1], x)
        return one((t[1], t[3]) + e + (v,), v)
    if k == 'Index': v = (k, t[1], t[2]); return one((t[1], t[2], v), v)
    if k in ('Slice', 'SliceWithStep'): return one(t[1:], ('Slice',) + t[1:])
    if k == 'SliceLiteral': p = tuple(x for x in t[1:] if x is not None); return one(p, ('slice',) + p)
    if k == 'ArrayAssignment': v = ('StoreArray',) + t[1:]; return one(t[1:] + (v,), v)
    if k == 'ArrayOpAssignment':
        old = ('Index', t[1], t[2]); x, e = combine(nl(t[3]), old, t[4]); v = ('StoreArray', t[1], t[2], x)
        return one((t[1], t[2], old, t[4]) + e + (v,), v)
    if k == 'Call':
        args = tuple(('unrolled', x[1]) if x[0] == 'Unroll' else x for x in t[2]); v = ('call', t[1]) + args
        return one((t[1],) + tuple(x[1] if x[0] == 'unrolled' else x for x in args) + (v,), v)
    if k == 'Compose': v = ('call', t[2], t[1]); return one((t[1], t[2], v), v)
    if k == 'Literal':
        args = tuple(('unrolled', x[1]) if x[0] == 'Unroll' else x for x in t[2])
        return one(tuple(x[1] if x[0] == 'unrolled' else x for x in args), ('literal', nl(t[1]), args))
    if k in ('LogicalAnd', 'LogicalOr'):
        go = k == 'LogicalAnd'
        return frozenset([(((t[1], not go),), (t[1],), t[1]), (((t[1], go),), (t[1], t[2]), t[2])])
    if k == 'IfThenElse': return frozenset([(((t[1], b),), (t[1], x), x) for b, x in ((True, t[2]), (False, t[3]))])
    if k == 'Compare':
        out = []; cond = (); eff = (t[1],); l = t[1]
        for n, x in enumerate(t[2]):
            eff = eff + (x,); op = tr.cmp[n]
            if n == len(t[2]) - 1: out.append((cond, eff, ('Binary', ('v', tr.bop[tr.cmpn[op]][0]), l, x)))
            else:
                c = ('compare', ('v', op), l, x); out.append((cond + ((c, False),), eff, ('bool', 0))); cond = cond + ((c, True),); l = x
        return frozenset(out)
    raise Undecided(k)


class Shapes(Trees):
    """expressions whose comparisons and operators are concrete"""
    def __init__(self, w):
        Trees.__init__(self, w)
        v = w.variants('operator::CompareOp'); self.cmpn = {i: n for n, (i, _, _) in v.items()}
        self.cmp = [v[n][0] for n in ('LessThan', 'GreaterThanEqual', 'NotEqual', 'Equal') if n in v]
        if len(self.cmp) < 4: raise Missing('comparison operators')

    def enc(self, t):
        v = Trees.enc(self, t)
        if t[0] == 'Compare':
            (k, e), = v[2]; f = dict(e[2])
            f[1] = seq(tuple(('a', None, tuple((j, ('a', self.cmp[n], ()) if j == 1 else y) for j, y in x[2])) for n, x in enumerate(f[1][2])))
            v = ('a', None, ((k, ('a', e[1], tuple(sorted(f.items())))),))
        return v


def cases(w, tr):
    """expressions of every kind, with parts that are opaque"""
    oc = w.variants(OPCODE); ops = lambda n: ('a', tr.bop[n][0], ())
    lv = ('a', tr.lv['Local'][0], ((0, sym('slot')),))
    for n in tr.v:
        if n in TRANSIENT: continue
        i, _, fs = tr.v[n]
        fm = forms(tr, n)
        if n in ('Call', 'Literal'):
            for un in ((), (0, 2), (1,), (1, 2), (0, 1, 2), (2,), (0,)):
                args = lambda l, un=un: tuple(('Unroll', x) if z in un else x for z, x in enumerate(l))
                if n == 'Call': fm.append((4, lambda l, args=args: ('Call', l[0], args(l[1:]), ('i', 0))))
                else: fm.append((3, lambda l, args=args: ('Literal', ('a', 0, ()), args(l))))
        for c, make in fm:
            t = make(leafs(('E',) * c))
            if n == 'Call': t = t[:3] + (('i', int(any(x[0] == 'Unroll' for x in t[2]))),)
            alts = [t]
            for j, (fn, ft) in enumerate(tr.et[i][2]):
                s = w.tstr(ft); put = lambda vs: [y[:j + 1] + (v,) + y[j + 2:] for y in alts for v in vs]
                if n == 'Bool': alts = put([('i', 0), ('i', 1)])
                elif s.endswith('operator::BinaryOp'): alts = put([ops('Sub'), ops('Add')] + ([ops(MARK)] if n in ('SwapField', 'ArrayOpAssignment') else []))
                elif s.endswith('operator::UnaryOp'): alts = put([('a', v[0], ()) for v in w.variants('operator::UnaryOp').values()])
                elif s.endswith('LiteralType'): alts = put([('a', v[0], ()) for v in tr.lit.values()])
                elif s.endswith('LValueReference'): alts = put([lv])
                elif n == 'PatternAssignment' and tr.kind(ft) is None: alts = put([('a', None, ((0, seq(())),))])
                elif n == 'Function' and 'Opcode' in s:
                    cl = lambda k, p: ('a', oc[k][0], ((0, sym('captured', p)),))
                    alts = put([(), (cl('CloseLocal', 1),), (cl('CloseLocal', 1), cl('CloseUpValue', 2)), (cl('CloseUpValue', 1), cl('CloseLocal', 2), cl('CloseLocal', 3))])
            yield from alts


def run(ctx):
    absint.clip.__defaults__ = (40,)
    w = ctx.world(); tr = Shapes(w)
    ctx.rule('The code generator is analysed on every kind of expression with opaque parts (lists of arguments and entries up to two or three, with every placement of unrolled ones; all literal kinds, branches joined symbolically); the instructions it emits, on every path, are executed on a symbolic stack with the documented meaning of each instruction and branch, and must give exactly the paths, the conditions, the order of parts and effects and the value the expression stands for.')
    ee = w.need(name='emit_expr')[0]
    xi = [i for i in range(1, ee.argc + 1) if ee.locals[i] in set(w.adts('expr::Expr'))][0]
    oc = {i: n for n, (i, _, _) in w.variants(OPCODE).items()}
    kinds = set()
    for t in cases(w, tr):
        q = CodeQ(w, tr, {ee.i}); e = EmitE(w, q, max_ctx=200, max_steps=1000000); e.out_depth = 60
        a = [T] * ee.argc; a[xi - 1] = encode(tr, t)
        k = t[0]; ctx.count(expressions=1)
        try: s = e.solve(ee, a, ())
        except TooMany as ex: ctx.violation('%s undecided' % k, 'the code generated for %s cannot be followed: %s' % (tr.text(t), ex), ee.loc()); continue
        if not s: ctx.violation('%s no code' % k, 'no code is generated for %s' % tr.text(t), ee.loc()); continue
        want = expected(tr, t, oc); kinds.add(k)
        for code, _ in s:
            ctx.count(sequences=1, instructions=sum(y[0] != 'part' for y in code))
            try: got = Machine(code).run()
            except Stuck as ex: ctx.violation('%s: %s' % (k, ex), 'the code generated for %s cannot be what it means: %s (%s)' % (tr.text(t), ex, show_code(code)), ee.loc()); continue
            if got == want: continue
            g, x = sorted(got, key=repr), sorted(want, key=repr)
            why = 'is evaluated on other conditions' if {c for c, _, _ in g} != {c for c, _, _ in x} else 'has its parts and effects in another order or number' if {y[:2] for y in g} != {y[:2] for y in x} else 'gives another value'
            ctx.violation('%s: %s' % (k, why), 'by the code generated for it, %s %s (%s)' % (tr.text(t), why, show_code(code)), ee.loc())
    ctx.floor('kinds of expressions', len(kinds), 27)
    ctx.floor('instruction sequences', ctx.coverage.get('sequences', 0), 100)


def encode(tr, t):
    if t[0] == 'Function':
        return ('a', None, ((1, ('a', tr.v[t[0]][0], ((0, t[1]), (1, seq(t[2]))))),))
    return tr.enc(t)


def show_code(code): return ' ; '.join('part %s' % (e[1][1] if len(e[1]) > 1 else '?') if e[0] == 'part' else e[1] if e[0] == 'op' else '%s %s' % (e[0], e[1] if len(e) > 1 else '') for e in code)[:200]
