"""C23: error messages name operators and tokens as they are written."""
from parsing import *
from dispatch import DispatchQ, is_panic
from rules.c04 import spelling, StrQ, BOP, UOP, COP
from rules.c22 import A, ID
import rules.c22 as c22
import absint

NF = 'cordy_sys::core::NativeFunction'
ERR = 'RuntimeError'


class ScanQ(TQuery):
    """abstract scanning: the characters not yet read are the state; (remaining, word being built, tokens)"""
    max_tags = 2000

    def __init__(self, w):
        TQuery.__init__(self)
        self.w = w
        self.names = {v: n for n, (v, _, _) in w.variants('compiler::ScanToken').items()}
        self.prim = [x for x in w.insts if not x.ws and x.body is not None and x.n in ('next', 'peek', 'next_if', 'next_if_eq') and x.argc and self.chars(x.locals[1])]
        if not [x for x in self.prim if x.n == 'next']: raise Missing('reading of characters')
        self.reach = w.reaching(self.prim + [x for x in w.insts if self.output(x)])

    def chars(self, t):
        s = self.w.tstr(self.w.strip_ref(t))
        return 'Chars' in s and 'Peekable' in s

    def output(self, x):
        return not x.ws and x.n in ('push', 'push_back') and x.body is not None and x.argc == 2 and TOK in self.w.tstr(x.locals[2]) and 'Location' in self.w.tstr(x.locals[2])

    def relevant(self, eng, x): return x.body is not None and x.ws and x.k != 'drop' and x.i in self.reach

    def descend(self, eng, x, args): return x.ws and x.body is not None and len(x.blocks) <= 20 and x.i not in self.reach

    def token(self, v, n=0):
        v = deref(v)
        if v[0] == 'a' and v[1] is None and n < 3:
            f = dict(v[2])
            return self.token(f.get(1, T), n + 1)
        return self.names.get(v[1], '?') if v[0] == 'a' else '?'

    def t_call(self, eng, fr, bi, term, x, args, tag, st):
        rest, word, out = tag
        if x in self.prim:
            if x.n == 'next':
                if not rest: return [(tag, ('a', 0, ()))]
                return [((rest[1:], word, out), ('a', 1, ((0, ('i', ord(rest[0]))),)))]
            if x.n == 'peek':
                return [(tag, ('a', 1, ((0, ('r', ('i', ord(rest[0])))),)) if rest else ('a', 0, ()))]
            return [(tag, T)]
        if self.output(x):
            return [((rest, word, out + (self.token(args[1]),)), T)]
        if not x.ws and 'String' in x.p and x.n in ('new', 'push', 'with_capacity') and len(word) < 30:
            if x.n == 'push': return [((rest, word + (chr(args[1][1]) if args[1][0] == 'i' else '?'), out), T)]
            return [((rest, '', out), T)]
        if x.n in ('eq', 'ne') and len(args) == 2:
            s = [deref(a)[1] for a in args if deref(a)[0] == 's']
            if len(s) == 1 and '?' not in word: return [(tag, ('i', int((s[0] == word) == (x.n == 'eq'))))]
        return None

    def model(self, eng, x, args, fr):
        if x.n in ('copied', 'cloned') and args and args[0][0] == 'a':
            f = dict(args[0][2])
            return ('a', args[0][1], ((0, deref(f[0])),)) if 0 in f else args[0]
        if x.n in ('unwrap', 'expect', 'unwrap_unchecked') and not x.ws and args and args[0][0] == 'a':
            return dict(args[0][2]).get(0, ('never',) if args[0][1] == 0 else None)
        return None


class PayQ(Query):
    """operators and functions named by the errors raised on the paths of one operation"""
    def __init__(self, w, kind, raising):
        Query.__init__(self)
        self.w = w; self.kind = kind; self.raising = raising; self.found = {}
        self.names = {v: n for n, (v, _, _) in w.variants(kind).items()}
        self.steps = 0

    def descend(self, eng, x, args):
        if x.body is None or x.k == 'drop' or x.i not in self.raising or x.trait and x.trait.endswith('VirtualInterface'): return False
        # a call of another function, which the program supplied: that operation is analysed for itself
        for a, ty in zip(args, x.locals[1:x.argc + 1]):
            if self.w.types[self.w.strip_ref(ty)].get('d') in (NF, BOP, UOP) and (a == T or a == ('r', T)): return False
        return True

    def on_pointer(self, eng, fr, t, targets, args): return []     # its target is analysed where the pointer is created

    def on_call(self, eng, fr, bi, t, targets, args):
        for x in targets:
            if x.body is None: continue
            for a, ty in zip(args, x.locals[1:x.argc + 1]):
                a = deref(a)
                for f in (a[1] if a[0] == 'u' else (a,)):
                    if f[0] == 'f' and f[1] >= 0 and self.w.types[ty]['k'] == 'fnptr' and self.descend(eng, self.w.insts[f[1]], ()):
                        y = self.w.insts[f[1]]
                        if y.i not in fr.stack: eng.call(y, [T] * y.argc, fr.stack + (fr.inst.i,))

    def on_stmt(self, eng, fr, bi, stmt, v, st):
        r = stmt[2]
        if r[0] == 'agg' and isinstance(r[1], list) and r[1][0] == 'adt' and self.w.types[r[1][1]]['d'].endswith('::' + ERR):
            ty = self.w.types[r[1][1]]; var = ty['v'][r[1][2]]
            f = dict(v[2]) if v[0] == 'a' else {}
            for i, ft in enumerate(var[2]):
                if self.w.types[ft[1] if isinstance(ft, (list, tuple)) else ft].get('d') == self.kind:
                    x = eng.outval(fr.inst, st, f.get(i, T))
                    vs = x[1] if x[0] == 'u' else (x,)
                    for y in vs: self.found.setdefault((var[0], self.names.get(y[1], '?') if y[0] == 'a' else '?'), fr.inst)


def strings(w, f, arg, ty):
    q = StrQ(w); q.assume[ty] = arg
    Engine(w, q).call(f, [('r', arg)])
    return q.strs


def run(ctx):
    w = ctx.world()
    ctx.rule('The description of every token, operator and built-in is read off the reporting code (constant propagation, one run per enum variant). A described token is scanned back (the scanner analysed with the described characters as input, remaining characters being the automaton state) and must be that token; a described operator is scanned and parsed back (abstract parsing) and must build that operator; and every run-time error which names an operator or built-in must name the one being performed (constant propagation from the dispatch with the operation fixed).')
    sp = spelling(w)
    ctx.floor('described_tokens', len(sp), 70)
    nonlit = [n for n in w.variants('compiler::ScanToken') if n not in sp]
    for n in nonlit:
        if not (w.variants('compiler::ScanToken')[n][2] or n == 'NewLine'): ctx.violation('token %s' % n, 'the description of token %s does not quote how it is written' % n)
    # tokens, scanned back
    sq = ScanQ(w); se = TEngine(w, sq)
    roots = [x for x in w.fns(name='scan') if x.i in sq.reach and x.argc == 1 and not sq.chars(x.locals[1]) and 'SourceView' in w.tstr(x.locals[1])]
    if not roots: raise Missing('the scanner')
    root = roots[0]; where = 'cordy-sys/src/reporting.rs'
    def scan(s):
        """all possible token sequences, None for an unknown one"""
        ctx.count(scanned=1)
        res = set()
        for (tg, _) in se.solve(root, [T] * root.argc, (s, '', ())): res.add(tg[2] if not tg[0] else None)
        return res
    for t, s in sorted(sp.items()):
        got = scan(s)
        if got != {(t,)}:
            ctx.violation('token %s' % t, 'token %s is described as `%s`, which is read as %s' % (t, s, ' or '.join(' '.join(x) if x else 'nothing' for x in sorted(got, key=repr))), where)
        got = scan(s + ' ')
        if got != {(t,)}:
            ctx.violation('token %s' % t, 'token %s is described as `%s`, which is read as %s before a space' % (t, s, ' or '.join(' '.join(x) if x else 'nothing' for x in sorted(got, key=repr))), where)
    by = {}
    for t, s in sorted(sp.items()):
        if s in by: ctx.violation('token %s=%s' % (by[s], t), 'tokens %s and %s are both described as `%s`' % (by[s], t, s), where)
        by[s] = t
    # operators, parsed back
    pq = c22.RootQ(w); pe = ParseE(w, pq)
    expr = w.need(name='parse_expr')[0]
    conv = [x for x in w.fns(name='from') if x.argc == 1 and w.types[x.locals[1]].get('d') == COP and w.types[x.locals[0]].get('d') == BOP]
    bn = {v: n for n, (v, _, _) in w.variants(BOP).items()}
    c2b = {}
    for c, (v, _, _) in w.variants(COP).items():
        r = Engine(w, DispatchQ(w)).call(conv[0], [('a', v, ())])[0] if conv else None
        c2b[c] = bn.get(r[1]) if r and r[0] == 'a' else '?'
    def built(ts, kind):
        ctx.count(token_strings=1)
        out = set()
        for (tg, _) in pe.solve(expr, [T] * expr.argc, (ts, (), ())):
            if tg[0]: out.add('nothing'); continue
            labs = [l for ev in tg[1] for l in (ev[3:] if ev[0] != 'push' else ev[2:])]
            labs = [('BinaryOp', c2b.get(n, '?')) if k == 'CompareOp' else (k, n) for k, n in labs]
            ops = {n for k, n in labs if k == kind}
            out.add(next(iter(ops)) if len(ops) == 1 else '+'.join(sorted(ops)) or 'nothing')
        return out or {'nothing'}
    def tokens(s):
        got = scan(s)
        if len(got) != 1 or None in got: return None
        ts = next(iter(got))
        words = s.split()
        return tuple((ID, words[0]) if t == ID else t for t in ts)
    for d, kind in ((BOP, 'BinaryOp'), (UOP, 'UnaryOp')):
        fns = [x for x in w.fns(name='as_error') if x.argc == 1 and w.types[w.strip_ref(x.locals[1])].get('d') == d]
        if not fns: raise Missing('description of %s' % kind)
        seen = {}
        for n, (v, _, _) in sorted(w.variants(d).items()):
            ctx.count(described_operators=1)
            ss = strings(w, fns[0], ('a', v, ()), d)
            if len(ss) != 1: ctx.violation('name %s' % n, 'cannot determine how operator %s is described: %s' % (n, sorted(ss)), fns[0].loc()); continue
            s = next(iter(ss))
            if s in seen: ctx.violation('name %s=%s' % (seen[s], n), 'operators %s and %s are both described as `%s`' % (seen[s], n, s), fns[0].loc())
            seen[s] = n
            ts = tokens(s)
            got = {'nothing'}
            if ts is not None:
                got = built(((A,) if kind == 'BinaryOp' else ()) + ts + (A,), kind)
                if len(ts) == 1 and isinstance(ts[0], tuple): got = built((A,) + ts + (by['='], A), kind)
            if got != {n}:
                ctx.violation('name %s' % n, 'operator %s is described as `%s`, which is %s' % (n, s, ' or '.join('operator ' + g if g in w.variants(d) else 'not an operator' for g in sorted(got))), fns[0].loc())
    # names of the built-ins standing for operators, and uniqueness of all names
    nf = w.variants(NF)
    names = w.need(NF + '::name')[0]
    toop = w.need(NF + '::as_binary_operator')[0]
    swp = w.need(NF + '::swap')[0]
    nn = {v: n for n, (v, _, _) in nf.items()}
    def val(v): return ('a', v, ())
    def arg(f, v): return ('r', val(v)) if w.types[f.locals[1]]['k'] == 'ref' else val(v)
    ops = {}; swap = {}
    for n, (v, _, _) in nf.items():
        r = Engine(w, DispatchQ(w)).call(toop, [arg(toop, v)])[0]
        if r and r[0] == 'a' and r[1] == 1: ops[n] = bn.get(dict(r[2])[0][1])
        r = Engine(w, DispatchQ(w)).call(swp, [arg(swp, v)])[0]
        if r and r[0] == 'a' and r[1] is not None: swap[n] = nn[r[1]]
    seen = {}
    text = {}
    for n, (v, _, _) in sorted(nf.items()):
        r = Engine(w, DispatchQ(w)).call(names, [arg(names, v)])[0]
        r = deref(r) if r else T
        if r[0] != 's': ctx.violation('builtin %s' % n, 'cannot determine the name of built-in %s' % n, names.loc()); continue
        text[n] = r[1]
        ctx.count(builtin_names=1)
    for n, s in sorted(text.items()):
        op = ops.get(n) or ops.get(swap.get(n))
        if op:
            m = s[1:-1].strip() if s.startswith('(') and s.endswith(')') else s
            ts = tokens(m)
            got = {'nothing'} if ts is None else built((A,) + ts + (A,), 'BinaryOp')
            if got != {op}: ctx.violation('builtin %s' % n, 'the function value of operator %s is named `%s`, which is %s' % (op, s, ' or '.join(sorted(got))), names.loc())
            ctx.count(operator_builtins=1)
        if s in seen:
            m = seen[s]
            if swap.get(n) != m: ctx.violation('builtin %s=%s' % (m, n), 'built-ins %s and %s are both named `%s`' % (m, n, s), names.loc())
        seen[s] = n
    # payloads
    raising = w.reaching([x for x in w.insts if x.body is not None and x.ws and raises(w, x)])
    ctx.coverage['raising_functions'] = len(raising)
    inv = []
    def payload(f, args, kind, assume, want, what, key):
        q = PayQ(w, kind, raising); q.assume.update(assume)
        e = Engine(w, q); e.call(f, args)
        for (var, n), inst in sorted(q.found.items(), key=repr):
            if n == '?': ctx.count(payloads_of_callbacks=1); continue   # the function value the program handed over
            ctx.count(payloads=1)
            if n not in want: ctx.violation('%s %s %s' % (key, var, n), '%s raises %s naming %s' % (what, var, n if n != '?' else 'an unknown operation'), inst.loc())
    for d in (BOP, UOP):
        f = w.need(d + '::apply')[0]
        for n, (v, _, _) in sorted(w.variants(d).items()):
            payload(f, [val(v)] + [T] * (f.argc - 1), d, {}, {n}, 'operator %s' % n, n)
    disp = [(k, w.need('core::invoke_%s' % k)[0]) for k in ('arg0', 'arg1', 'arg2', 'arg3', 'var')]
    for n, (v, _, _) in sorted(nf.items()):
        for k, f in disp:
            args = [val(v) if w.types[w.strip_ref(t)].get('d') == NF and w.types[t]['k'] != 'ref' else ('r', val(v)) if w.types[w.strip_ref(t)].get('d') == NF else T for t in f.locals[1:f.argc + 1]]
            payload(f, args, NF, {}, {n}, 'built-in `%s`' % text.get(n, n), 'builtin %s' % n)
            op = ops.get(n) or ops.get(swap.get(n))
            if op: payload(f, args, BOP, {}, {op}, 'the function value `%s`' % text.get(n, n), 'builtin %s' % n)
    ctx.floor('scanned', ctx.coverage.get('scanned', 0), 140)
    ctx.floor('described_operators', ctx.coverage.get('described_operators', 0), 26)
    ctx.floor('builtin_names', ctx.coverage.get('builtin_names', 0), 120)
    ctx.floor('operator_builtins', ctx.coverage.get('operator_builtins', 0), 30)
    ctx.floor('payloads', ctx.coverage.get('payloads', 0), 40)
    ctx.sample({'tokens': sp})


def raises(w, x):
    for b in x.blocks:
        for s in b['s']:
            if s[0] == '=' and s[2][0] == 'agg' and isinstance(s[2][1], list) and s[2][1][0] == 'adt' and w.types[s[2][1][1]]['d'].endswith('::' + ERR): return True
    return False
