"""C04: all spellings of an operator mean the same operation."""
import re
from absint import *
from dispatch import *
from grammar import *
from rules.c03 import RouteQ, normal, canon, show, essence, reachable

BOP = 'cordy_sys::vm::operator::BinaryOp'
UOP = 'cordy_sys::vm::operator::UnaryOp'
COP = 'cordy_sys::vm::operator::CompareOp'
# operators whose result does not depend on the side of an operand, confirmed by reading vm/operator.rs; all others need a reversed form
COMMUTATIVE = {'Mul', 'Equal', 'NotEqual'}
ATOM = 'IntLiteral'


def spelling(w):
    """token variant -> text in the source, as the error reporting names it"""
    fns = [x for x in w.fns(name='as_error') if x.argc == 1 and w.types[w.strip_ref(x.locals[1])].get('d') == TOK] or \
          [x for x in w.fns() if x.argc == 1 and w.types[w.strip_ref(x.locals[1])].get('d') == TOK and w.tstr(x.locals[0]).endswith('String')]
    if not fns: raise Missing('function describing a token')
    f = fns[0]
    out = {}
    for name, (v, _, fields) in w.variants('compiler::ScanToken').items():
        q = StrQ(w); q.assume[TOK] = ('a', v, ())
        e = Engine(w, q)
        e.call(f, [('r', ('a', v, ()))])
        ss = q.strs
        m = re.fullmatch(r"'(.*)' (token|keyword)", next(iter(ss))) if len(ss) == 1 else None
        if m: out[name] = m.group(1)
    return out


class StrQ(Query):
    def __init__(self, w): Query.__init__(self); self.w = w; self.strs = set()
    def descend(self, eng, x, args): return x.ws and x.body is not None
    def on_call(self, eng, fr, bi, t, targets, args):
        for x in targets:
            if x.ws: continue
            for a in args:
                a = deref(a)
                if a[0] == 's': self.strs.add(a[1])


def norm_cmp(out):
    """gt(a,b) is lt(b,a), and so on"""
    res = set()
    for x in out:
        if x[0] == 'run' and x[1] in ('gt', 'ge') and len(x[2]) == 2: x = ('run', {'gt': 'lt', 'ge': 'le'}[x[1]], (x[2][1], x[2][0]))
        elif x[0] == 'run' and x[1] in ('eq', 'ne') and len(x[2]) == 2: x = ('run', x[1], tuple(sorted(x[2])))
        res.add(x)
    return frozenset(res)


def run(ctx):
    w = ctx.world()
    nf = w.variants('core::NativeFunction'); bop = w.variants(BOP); uop = w.variants(UOP); cop = w.variants(COP)
    bn = {v[0]: n for n, v in bop.items()}; nn = {v[0]: n for n, v in nf.items()}
    ctx.rule('Every operator token is followed through the parser (constant propagation over the whole grammar with the look-ahead fixed), the built-in dispatch, the operator tables, the code generator, the optimizer and the interpreter arm. Reported: a spelling whose operation or operand order differs from the infix one, a non-commutative operator without a reversed form, a code generator or optimizer arm which changes operator or operand order.')
    sp = spelling(w)
    ctx.count(token_spellings=len(sp))
    A1, A2 = A('a1'), A('a2')
    bapply = w.need(BOP + '::apply')[0]; uapply = w.need(UOP + '::apply')[0]; capply = w.need(COP + '::apply')[0]
    vm = 'VirtualMachine'
    inv2 = w.need('core::invoke_arg2')[0]; inv1 = w.need('core::invoke_arg1')[0]

    def outcome(root, args, **kw):
        q = RouteQ(w, None, kw.get('extra')); e = Engine(w, q)
        r, ev = e.call(root, args)
        ctx.count(dispatches=1)
        return norm_cmp(essence(normal(w, ev)[0], 2))

    def native2(name, a, b):
        q = RouteQ(w, nf[name][0]); e = Engine(w, q); r, ev = e.call(inv2, [('a', nf[name][0], ()), a, b, T])
        ctx.count(dispatches=1)
        return norm_cmp(essence(normal(w, ev)[0], 2))

    def native1(name):
        q = RouteQ(w, nf[name][0]); e = Engine(w, q); r, ev = e.call(inv1, [('a', nf[name][0], ()), A1, T])
        ctx.count(dispatches=1)
        return norm_cmp(essence(normal(w, ev)[0], 1))

    # --- tables between operator kinds
    def table(root, arg):
        r = Engine(w, DispatchQ(w)).call(root, [arg])[0]
        return r
    asb = w.need('core::NativeFunction::as_binary_operator')[0]; swp = w.need('core::NativeFunction::swap')[0]
    toop = {}
    for name, (v, _, _) in nf.items():
        self_ = ('a', v, ())
        r = table(asb, ('r', self_) if w.types[asb.locals[1]]['k'] == 'ref' else self_)
        if r and r[0] == 'a' and r[1] == 1: toop[name] = bn[dict(r[2])[0][1]]
        elif not (r and r[0] == 'a' and r[1] == 0): ctx.violation('as_binary_operator %s' % name, 'cannot determine the operator of built-in %s' % name, asb.loc())
    swap = {}
    for name, (v, _, _) in nf.items():
        r = table(swp, ('r', ('a', v, ())) if w.types[swp.locals[1]]['k'] == 'ref' else ('a', v, ()))
        if r and r[0] == 'a' and r[1] is not None: swap[name] = nn[r[1]]
        else: ctx.violation('swap %s' % name, 'cannot determine the reversed form of %s' % name, swp.loc())
    apply2 = {}
    for op, (v, _, _) in bop.items():
        apply2[op] = (outcome(bapply, [('a', v, ()), A1, A2]), outcome(bapply, [('a', v, ()), A2, A1]))
        if not apply2[op][0]: ctx.violation('apply %s' % op, 'operator %s does nothing' % op, bapply.loc())
    seen = {}
    for op in bop:
        k = apply2[op][0]
        if k in seen: ctx.violation('apply %s=%s' % (op, seen[k]), 'operators %s and %s perform the same operation: %s' % (op, seen[k], show(k)), bapply.loc())
        seen[k] = op
    for name, op in sorted(toop.items()):
        ctx.count(native_operators=1)
        got = native2(name, A1, A2)
        if got != apply2[op][0]:
            ctx.violation('function %s' % name, 'the function value of operator %s does: %s; the operator does: %s' % (op, show(got), show(apply2[op][0])), inv2.loc())
        s = swap.get(name)
        if s is None: continue
        if swap.get(s) != name: ctx.violation('swap %s' % name, 'the reversed form of the reversed form of %s is %s' % (name, swap.get(s)), swp.loc())
        if s == name:
            if op not in COMMUTATIVE: ctx.violation('noswap %s' % name, 'operator %s is not commutative but has no reversed form: applying it partially from the right takes the operands in the wrong order' % op, swp.loc())
            continue
        if s in toop: ctx.violation('swap %s operator' % name, 'the reversed form of %s is the operator %s' % (name, toop[s]), swp.loc())
        got = native2(s, A1, A2)
        if got != apply2[op][1]:
            ctx.violation('reversed %s' % name, 'the reversed form of operator %s does: %s; expected: %s' % (op, show(got), show(apply2[op][1])), inv2.loc())
    for name in nf:
        if name not in toop and swap.get(name) not in (None, name) and swap[name] not in toop:
            ctx.violation('swap %s' % name, '%s is exchanged with %s when applied from the right but neither is an operator' % (name, swap[name]), swp.loc())
    conv = [x for x in w.fns(name='from') if x.argc == 1 and w.types[x.locals[1]].get('d') == COP and w.types[x.locals[0]].get('d') == BOP]
    if not conv: raise Missing('conversion from comparison to binary operator')
    back = [x for x in w.fns(name='from') if x.argc == 1 and w.types[x.locals[1]].get('d') == BOP and w.types[x.locals[0]].get('d') == COP]
    c2b = {}
    for c, (v, _, _) in cop.items():
        r = Engine(w, DispatchQ(w)).call(conv[0], [('a', v, ())])[0]
        b = bn.get(r[1]) if r and r[0] == 'a' else None
        c2b[c] = b
        got = outcome(capply, [('a', v, ()), ('r', A1), ('r', A2)])
        ctx.count(comparisons=1)
        want = frozenset(x for x in apply2[b][0] if x[0] == 'run') if b else None
        if {x for x in got if x[0] == 'run'} != want: ctx.violation('compare %s' % c, 'a chained comparison %s does: %s; the operator does: %s' % (c, show(got), show(want or [])), capply.loc())
        for f in back:
            r = Engine(w, DispatchQ(w)).call(f, [('a', bop[b][0], ())])[0] if b else None
            if not (r and r[0] == 'a' and r[1] == v): ctx.violation('compare %s back' % c, 'operator %s is turned into another comparison' % b, f.loc())
    parser(ctx, w, sp, toop, swap, c2b, apply2, native1, native2, uapply, uop, nf)
    interpreter(ctx, w, bapply, uapply, capply)
    codegen(ctx, w, bop, uop)
    optimizer(ctx, w)
    ctx.floor('native_operators', ctx.coverage.get('native_operators', 0), 20)
    ctx.floor('infix_tokens', ctx.coverage.get('infix_tokens', 0), 20)
    ctx.floor('section_tokens', ctx.coverage.get('section_tokens', 0), 20)
    ctx.floor('assignment_tokens', ctx.coverage.get('assignment_tokens', 0), 13)
    ctx.sample({'token_to_operator': {t: b for t, b in sorted(ctx._infix.items())}})


def events(w, t0, t1=None, ident=None, stop=()):
    q = GrammarQ(w, [(t0, ATOM, 'OpenParen'), t1], ident, stop); e = Engine(w, q); e.q_stmt = False
    return e.call(w.need(name='parse_expr')[0], [T])[1]


def parser(ctx, w, sp, toop, swap, c2b, apply2, native1, native2, uapply, uop, nf):
    text = {}
    for t, s in sp.items(): text.setdefault(s, []).append(t)
    END = ('IntLiteral', 'CloseParen', 'Comma')
    infix = {}; where = 'cordy-sys/src/compiler/parser/mod.rs'
    roots = sorted(sp)
    W = {'is not': ('KeywordIs', 'KeywordNot'), 'not in': ('KeywordNot', 'KeywordIn')}
    cases = [(t, sp[t], t, END) for t in roots] + [(k, k, a, b) for k, (a, b) in W.items()]
    from_op = {op: n for n, op in toop.items()}
    for key, s, t0, t1 in cases:
        ev = events(w, t0, t1)
        ctx.count(grammar_runs=1)
        bins, cmps, uns, logical, assigns, nat, calls = set(), set(), set(), set(), set(), set(), []
        for kind, fn, ops, native, inst, bi in ev:
            vals = {v for k, v in ops if v != '?'}
            for k, v in ops:
                if v == '?': continue
                if kind == 'push': (cmps if k == 'CompareOp' else uns if k == 'UnaryOp' else bins).add(v)
                elif fn == 'op_assign': assigns.add(v)
                elif fn == 'logical': logical.add(v)
                elif k == 'BinaryOp': bins.add(v)
                elif k == 'UnaryOp': uns.add(v)
                elif k == 'CompareOp': cmps.add(v)
                elif k == 'NativeFunction': nat.add(v)
            if native: calls.append((fn, native, inst, bi))
        ops = bins | {c2b.get(c) for c in cmps}
        if len(ops) > 1: ctx.violation('infix %s' % s, 'infix `%s` builds more than one operator: %s' % (s, sorted(map(str, ops))), where); continue
        if len(uns) > 1: ctx.violation('prefix %s' % s, 'prefix `%s` builds more than one operator: %s' % (s, sorted(uns)), where); continue
        if ops:
            infix[s] = next(iter(ops)); ctx.count(infix_tokens=1)
        un = next(iter(uns)) if uns else None
        if assigns:
            ctx.count(assignment_tokens=1)
            infix['assign ' + s] = tuple(sorted(assigns))
        # sections
        if nat or calls:
            ctx.count(section_tokens=1)
            section(ctx, w, s, infix.get(s), un, nat, calls, toop, swap, from_op, native1, native2, apply2, uapply, uop, where)
        elif ops and s in infix:
            ctx.violation('section %s' % s, 'operator `%s` cannot be used as a function value' % s, where)
        if un and not ops:
            ctx.count(prefix_tokens=1)
    # assignments: `<op>=` performs <op>
    for k, ops in sorted(infix.items()):
        if not k.startswith('assign '): continue
        s = k[7:]
        base = s[:-1]
        if base == '.':
            marker = ops
            if len(ops) != 1: ctx.violation('assign .=', '`.=` builds %s' % (ops,), where)
            ctx._marker = ops[0]
            continue
        if tuple([infix.get(base)]) != ops: ctx.violation('assign %s' % s, '`%s` performs %s but `%s` is %s' % (s, '/'.join(ops), base, infix.get(base)), where)
    if getattr(ctx, '_marker', None) is None: ctx.violation('assign .=', '`.=` is not an assignment operator', where)
    real = {v for k, v in infix.items() if k.startswith('assign ') and k != 'assign .='}
    if (ctx.__dict__.get('_marker'),) in real: ctx.violation('assign marker', 'the marker of `.=` is also built by another compound assignment', where)
    for nm, op in (('max', 'Max'), ('min', 'Min')):
        ev = events(w, 'Identifier', 'Equals', nm)
        got = {v for kind, fn, ops, native, i, b in ev if fn == 'op_assign' for k, v in ops}
        ctx.count(assignment_tokens=1)
        if got != {op}: ctx.violation('assign %s=' % nm, '`%s =` performs %s' % (nm, sorted(got)), where)
    ctx._infix = infix


def section(ctx, w, s, op, un, nat, calls, toop, swap, from_op, native1, native2, apply2, uapply, uop, where):
    allowed = set()
    if op:
        for n in nat:
            base = toop.get(n) or toop.get(swap.get(n))
            if base is None and n == 'OperatorSub' and un: pass
            elif base is not None and base != op: ctx.violation('section %s' % s, 'the function value of `%s` is %s, the infix operator is %s' % (s, n, op), where)
    # without a call: the plain operator, or the unary one
    dual = None
    for n in nat:
        if n in toop or swap.get(n) in toop: continue
        dual = n
        # unary, possibly also binary when called with two arguments
        if un:
            q = RouteQ(w, None); e = Engine(w, q); r, ev = e.call(uapply, [('a', uop[un][0], ()), A('a1')])
            want = norm_cmp(essence(normal(w, ev)[0], 1)); got = native1(n)
            if got != want: ctx.violation('unary section %s' % s, 'the function value of unary `%s` does: %s; the operator does: %s' % (s, show(got), show(want)), where)
        else: ctx.violation('section %s' % s, 'the function value of `%s` is %s, which is not that operator' % (s, n), where)
        if op:
            got = native2(n, A('a1'), A('a2'))
            if got != apply2[op][0]: ctx.violation('section %s binary' % s, 'the function value of `%s` with two arguments does: %s; the operator does: %s' % (s, show(got), show(apply2[op][0])), where)
    for fn, native, inst, bi in calls:
        for n in native.split('|'):
            side = 'call' if fn != 'call' else classify(w, w.insts[inst], bi)
            ctx.count(section_calls=1)
            if n not in toop and swap.get(n) not in toop: continue
            plain = n in toop
            if swap.get(n) == n: continue
            if side == 'prefix' and plain:
                ctx.violation('section (%s x)' % s, '`(%s x)` supplies x as the first operand of %s instead of the second' % (s, n), w.insts[inst].loc())
            if side == 'suffix' and not plain:
                ctx.violation('section (x %s)' % s, '`(x %s)` supplies x as the second operand of %s instead of the first' % (s, swap.get(n)), w.insts[inst].loc())


def classify(w, inst, bi):
    """is the operator before (prefix) or after (suffix) the operand expression on the way to this call"""
    dom = dominators(inst)
    if bi not in dom: return '?'
    exprs, advs = [], []
    for b in dom[bi]:
        t = inst.blocks[b]['t']
        if t[0] != 'call' or b == bi: continue
        for x in w.callee(t[1]):
            if not x.ws or x.body is None or not is_parser(x): continue
            rt = w.types[x.locals[0]]
            if rt.get('d') == EXPR: exprs.append(b)
            elif x.n.startswith('advance'): advs.append(b)
    if not exprs: return '?'
    last = max(exprs, key=lambda b: len(dom[b]))
    after = [a for a in advs if last in dom[a]]
    before = [a for a in advs if a in dom[last]]
    if after: return 'suffix'
    if before: return 'prefix'
    return '?'


def interpreter(ctx, w, bapply, uapply, capply):
    run_ = [x for x in w.need(name='run') if 'VirtualMachine' in x.p]
    oc = w.variants('cordy_sys::vm::Opcode')
    for r in run_:
        for name, ap, n in (('Unary', uapply, 1), ('Binary', bapply, 2), ('Compare', capply, 2)):
            ctx.count(interpreter_arms=1)
            q = RouteQ(w, None, {'cordy_sys::vm::Opcode': ('a', oc[name][0], ((0, A('op')), (1, T)))})
            q.stop = {ap.i}
            ret, ev = Engine(w, q).call(r, [T])
            out, npop = normal(w, {x for x in ev if x[0] in ('pop', 'leaf')})
            runs = {x for x in out if x[0] == 'run' and x[1].endswith('::apply')}
            want = ('op',) + tuple('a%d' % (i + 1) for i in range(n))
            if {x[2] for x in runs} != {want}: ctx.violation('interpreter %s' % name, 'the instruction %s applies its operator to %s, expected %s' % (name, sorted(x[2] for x in runs), want), r.loc())


class CodeQ(Query):
    """code emitted for one kind of expression; sub-expressions are symbols"""
    def __init__(self, w):
        Query.__init__(self); self.w = w
        self.oc = {v[0]: n for n, v in w.variants('cordy_sys::vm::Opcode').items()}

    def is_emit(self, x): return x.ws and is_parser(x) and x.argc == 2 and self.w.types[x.locals[2]].get('d') == EXPR and self.w.types[x.locals[0]]['s'] == '()'

    def model(self, eng, x, args, fr):
        if self.is_emit(x) and any(i == x.i for i in fr.stack + (fr.inst.i,)): return T
        return None

    def descend(self, eng, x, args):
        if not x.ws or x.body is None: return False
        return is_parser(x) and not self.pushes(x)

    def pushes(self, x): return any(self.w.types[x.locals[k]].get('d', '').endswith('cordy_sys::vm::Opcode') for k in range(1, x.argc + 1))

    def on_call(self, eng, fr, bi, t, targets, args):
        for x in targets:
            if not x.ws or x.body is None: continue
            if self.is_emit(x):
                a = args[1]
                fr.events.add(('emit', rep(a) if a[0] == 'sym' else '_', fr.inst.i, bi))
            elif is_parser(x):
                for k in range(1, x.argc):
                    if self.w.types[x.locals[k + 1]].get('d', '').endswith('cordy_sys::vm::Opcode'):
                        a = args[k]
                        if a[0] == 'a' and a[1] is not None: fr.events.add(('op', self.oc[a[1]], tuple(rep(dict(a[2]).get(i, T)) for i in range(2)), fr.inst.i, bi))
                        else: fr.events.add(('op', '?', (), fr.inst.i, bi))


def sub_expr(w, t, name):
    """symbolic payload for a field of an expression"""
    return A(name)


def codegen(ctx, w, bop, uop):
    """an operator node emits exactly that operator"""
    emit = w.need(name='emit_expr')[0]
    ex = w.variants('expr::ExprType')
    marker = getattr(ctx, '_marker', None)
    for kind, (v, _, fields) in ex.items():
        opf = [i for i, (n, t) in enumerate(fields) if w.types[t].get('d') in (BOP, UOP)]
        if not opf: continue
        E_ = w.types[fields[opf[0]][1]]['d']
        for op, (ov, _, _) in (bop if E_ == BOP else uop).items():
            val = ('a', v, tuple((i, ('a', ov, ()) if i == opf[0] else ('sym', 'tag', 'f%d' % i)) for i in range(len(fields))))
            q = CodeQ(w); e = Engine(w, q); e.q_stmt = False
            r, ev = e.call(emit, [T, ('a', None, ((1, val),))])
            ctx.count(codegen_runs=1)
            oth = 'Binary' if E_ == BOP else 'Unary'
            got = [(x[1], x[2][0]) for x in ev if x[0] == 'op' and x[1] in ('Binary', 'Unary', 'Compare', '?')]
            calls = [x for x in ev if x[0] == 'op' and x[1] == 'Call']
            want = [(oth, '#%d{}' % ov)]
            if kind != 'Binary' and op == marker and E_ == BOP:
                swaps = [x for x in ev if x[0] == 'op' and x[1] == 'Swap']
                if got or not calls or not swaps: ctx.violation('codegen %s .=' % kind, 'compiling `.=` for %s emits %s instead of a call of the right operand' % (kind, got or 'no call'), emit.loc())
                continue
            if sorted(set(got)) != want or calls:
                ctx.violation('codegen %s %s' % (kind, op), 'compiling %s with operator %s emits %s' % (kind, op, sorted(set(got)) + [c[1] for c in calls]), emit.loc())
    ctx.floor('codegen_runs', ctx.coverage.get('codegen_runs', 0), 70)


class OptQ(Query):
    def __init__(self, w, bapply): Query.__init__(self); self.w = w; self.b = bapply.i
    def model(self, eng, x, args, fr):
        if x.i == self.b:
            fr.events.add(tuple(tags(a) for a in args)); return T
        t = self.w.types[x.locals[0]] if x.body is not None else {}
        if x.ws and x.argc >= 1 and t.get('k') == 'adt' and t['d'].endswith('::Result') and args and tags(args[0]):   # into_const
            return mk_union([('a', 0, ((0, ('sym', 'tag', tags(args[0]))),)), ('a', 1, ((0, ('sym', 'tag', tags(args[0]))),))])
        return None
    def descend(self, eng, x, args):
        return x.ws and x.body is not None and any(tags(a) for a in args) and x.self_ty != EXPR


def tags(v):
    k = v[0]
    if k == 'sym' and v[1] == 'tag': return v[2]
    if k == 'r': return tags(v[1])
    return ''


def optimizer(ctx, w):
    vis = [x for x in w.need(name='visit') if 'optimizer' in x.p]
    if not vis: raise Missing('optimizer visitor')
    ex = w.variants('expr::ExprType'); bapply = w.need(BOP + '::apply')[0]
    v, _, fields = ex['Binary']
    for sw in (0, 1):
        payload = []
        k = 0
        for i, (n, t) in enumerate(fields):
            d = w.types[t]
            if d.get('d') == BOP: payload.append((i, ('sym', 'tag', 'op')))
            elif d['k'] == 'bool': payload.append((i, ('i', sw)))
            else: k += 1; payload.append((i, ('sym', 'tag', 'lhs' if k == 1 else 'rhs')))
        q = OptQ(w, bapply); e = Engine(w, q); e.q_stmt = False
        r, ev = e.call(vis[0], [T, ('a', None, ((1, ('a', v, tuple(payload))),))])
        ctx.count(optimizer_runs=1)
        if not ev: ctx.violation('optimizer fold', 'no constant folding of binary operators found', vis[0].loc())
        for x in ev:
            if x != ('op', 'lhs', 'rhs'): ctx.violation('optimizer fold swap=%d' % sw, 'constant folding of a binary operator (swap=%s) applies it to %s' % (bool(sw), x), vis[0].loc())
