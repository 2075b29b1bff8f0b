"""C25: evaluating an expression leaves exactly one value on the operand stack."""
from emission import *
from typestate import TooMany

ENDS = {'Exit', 'Yield', 'AssertFailed', 'Return'}
# (height after falling through or executing, height after jumping), as the code generator relies on them
CALLS = ('invoke_func0', 'invoke_func1', 'invoke_func2', 'invoke_func', 'invoke_eval')


def of_vm(w, name, vm=None, path='VirtualMachine'):
    """the function for one instance of the virtual machine"""
    out = []
    for x in w.need(name=name):
        if not x.ws or x.body is None or path not in x.p: continue
        ts = [w.strip_ref(l) for l in x.locals[1:x.argc + 1]]
        if any(t == vm if vm is not None else w.types[t].get('d') == VM for t in ts): out.append(x)
    if not out: raise Missing('%s of the virtual machine' % name)
    return out[0]


def interpreter(ctx, w):
    inv = of_vm(w, 'invoke'); vm = w.strip_ref(inv.locals[1])
    run = of_vm(w, 'run', vm)
    tab = Table(w); tab.by = {}
    for n, i, flags, v in ops(w):
        key = (i, tuple(p if w.tstr(ft) == 'bool' else None for p, (_, ft) in zip(flags, w.types[w.adts(OPCODE)[0]]['v'][i][2])))
        at = 'instruction %s%s' % (n, ''.join('(%d)' % f[1] for f in key[1] if f is not None))
        ctx.count(instructions=1)
        per = []
        for k in (0, 1, 2):
            if k != 1 and n != 'Unroll': continue
            go, ret, q = instruction(w, run, v, k, inv.i)
            ctx.count(states=len(q.effects))
            if q.bad: ctx.violation(at, 'what %s does to the operand stack cannot be told: %s' % (at, ', '.join('%s in %s' % (b, a) for a, b in sorted(q.bad)))); continue
            per.append((k, go, ret))
        if len(per) != (3 if n == 'Unroll' else 1): continue
        if n == 'Return':
            if {(h, f) for h, f, *_ in per[0][1]} - {((('fp',), 0), ())}: ctx.violation(at, 'returning does not remove exactly the frame of the function from the operand stack', run.loc())
        if n in ENDS: tab.eff[key] = None; continue
        if n == 'Unroll':
            for k, go, ret in per:
                for h, f, u, l, j, ua in go:
                    if h[0] != ('len',) or f: ctx.violation(at, 'unrolling an argument leaves an unknown number of values', run.loc())
                    elif h[1] != ua or u != key[1][0][1]: ctx.violation(at, 'unrolling an argument of %d elements moves the operand stack by %+d, but counts %s more arguments' % (k, h[1], '%+d' % ua if isinstance(ua, int) else 'an unknown number of'), run.loc())
            tab.eff[key] = (((), 0), None, key[1][0][1], 0); continue
        go = per[0][1]
        if n == 'Call':
            native = {(h, u, l) for h, f, u, l, j, ua in go if not f}; user = {f for h, f, *_ in go if f}
            want = (('-arg', 'len') if not key[1][1][1] else ('-arg', '-unrolled', 'len'), 0)
            if {h for h, _, _ in native} != {want} or any(f != (want,) for f in user) or not user: ctx.violation(at, 'a call is made with another number of arguments than the instruction has', run.loc())
            du = {(u, l) for _, u, l in native} or {(0, 0)}
            if len(du) != 1: ctx.violation(at, '%s finishes an unrolled call only sometimes' % at, run.loc())
            tab.eff[key] = ((('-arg',) + (('-unrolled',) if key[1][1][1] else ()), 0), None) + min(du); continue
        fall = {(h, u, l) for h, f, u, l, j, ua in go if not j and not f}; jump = {(h, u, l) for h, f, u, l, j, ua in go if j and not f}
        if any(f for _, f, *_ in go): ctx.violation(at, '%s enters a function' % at, run.loc()); continue
        if len(fall) + (n == 'Jump') != 1 or len(jump) > 1 or any(h[0].count('len') != 1 for h, _, _ in fall | jump): ctx.violation(at, '%s leaves the operand stack at different heights: %s' % (at, ', '.join(sorted(show_lin(h) for h, _, _ in fall | jump)) or 'never'), run.loc()); continue
        f = next(iter(fall)) if fall else (L0, 0, 0); j = next(iter(jump)) if jump else None
        if j and (j[1], j[2]) != (0, 0): ctx.violation(at, '%s leaves an unrolled call or a literal unfinished' % at, run.loc())
        less = lambda h: (tuple(x for x in h[0] if x != 'len'), h[1])
        tab.eff[key] = (less(f[0]), less(j[0]) if j else None, f[1], f[2])
    tab.eff_of = lambda n: [e for (i, _), e in tab.eff.items() if tab.names[i] == n]
    return run, inv, tab


def words(m):
    n = {'pn': 'the bound arguments', 'max': 'the number of parameters', 'arg': 'the arguments'}
    return ' '.join(('less ' if x.startswith('-') else 'plus ') + n.get(x.lstrip('-'), x.lstrip('-')) for x in m[0]).replace('plus ', '', 1) + (' %+d' % m[1] if m[1] else '')


def calling(ctx, w, inv):
    """a call takes the function and its arguments off and leaves one value, or enters the function with the arguments in place"""
    for n in (0, 1, 2, 3, 4, None):
        q = StackQ(w, inv); q.root = inv
        e = StackEngine(w, q, max_steps=3000000)
        s = e.solve(inv, [('r', q.vmv), N('arg') if n is None else ('i', n)], (True, L0, (), 0, 0, False, 0))
        ctx.count(call_routes=len(s))
        if q.bad: ctx.violation('call unknown', 'what a call does to the operand stack cannot be told: %s' % ', '.join('%s in %s' % (b, a) for a, b in sorted(q.bad)))
        arg = (('arg',), 0) if n is None else ((), n)
        seen = set()
        for (t, rk), v in s.items():
            if rk == 1: continue
            h, frames = t[1], t[2]
            k = dict(v[2]).get(0, T) if v[0] == 'a' else T
            kind = k[1] if k[0] == 'a' else None
            what = 'a call with %s arguments' % ('any number of' if n is None else n)
            if (t[3], t[4]) != (0, 0): ctx.violation('call state', '%s changes the state of unrolled arguments or literals' % what, inv.loc())
            if kind is None: ctx.violation('call kind', 'it cannot be told whether %s entered a function' % what, inv.loc()); continue
            seen.add(kind)
            if kind == 0:
                if frames: ctx.violation('call native frame', '%s that is complete leaves a frame' % what, inv.loc())
                elif h not in (add(L0, arg, -1), add(L0, (('fields',), 0), -1)) and not (n is None and h[0] == ('len',) and -3 <= h[1] <= 0): ctx.violation('call native', '%s leaves the operand stack at %s instead of %s' % (what, show_lin(h), show_lin(add(L0, arg, -1))), inv.loc())
            else:
                if len(frames) != 1 or frames[0] != add(L0, arg, -1): ctx.violation('call frame', '%s enters a function whose variables start at %s instead of its first argument' % (what, ', '.join(show_lin(f) for f in frames) or 'nowhere'), inv.loc()); continue
                m = add(h, frames[0], -1)
                if m not in (arg, add(arg, (('pn',), 0)), (('max',), 0)): ctx.violation('call arguments %s' % show_lin(m, None), 'a function may be entered with %s values in place of its parameters' % words(m), inv.loc())
        if n is None and seen != {0, 1}: ctx.violation('call routes', 'calls that enter a function and calls that do not are not told apart', inv.loc())
    for name in CALLS:
        for x in [of_vm(w, name, w.strip_ref(inv.locals[1]))]:
            q = StackQ(w, inv, invoke=inv.i); q.root = x
            e = StackEngine(w, q, max_steps=1000000)
            args = [('r', q.vmv)] + [('r', seq((T, T))) if w.tstr(x.locals[i]).startswith('&[') or 'Vec<' in w.tstr(x.locals[i]) else T for i in range(2, x.argc + 1)]
            s = e.solve(x, args, (True, L0, (), 0, 0, False, 0))
            ctx.count(entry_points=1)
            if q.bad: ctx.violation('%s unknown' % name, 'what %s does to the operand stack cannot be told' % name, x.loc())
            if not any(rk != 1 for _, rk in s): ctx.violation('%s never' % name, '%s never returns' % name, x.loc())
            for (t, rk), v in s.items():
                if rk == 1: continue
                if t[2] or t[1] != L0: ctx.violation('%s height' % name, '%s leaves the operand stack at %s%s' % (name, show_lin(t[1]), ', in a function it entered' if t[2] else ''), x.loc())
            want = {'invoke_func0': ((), 0), 'invoke_func1': ((), 1), 'invoke_func2': ((), 2), 'invoke_func': ((), 2)}.get(name)
            if want is not None and q.invoked != {want}: ctx.violation('%s arguments' % name, '%s calls the function with %s arguments' % (name, ' or '.join(show_lin(y, None) for y in sorted(q.invoked)) or 'no'), x.loc())


def patterns(ctx, w, inv):
    """what the targets of a pattern take from the stack"""
    sv = w.variants('vm::StoreOp'); stores = {}
    vm_t = w.strip_ref(inv.locals[1]); st = of_vm(w, 'store', vm_t)
    for n, (i, _, fs) in sv.items():
        q = StackQ(w, inv); q.root = st
        e = StackEngine(w, q, max_steps=1000000)
        s = e.solve(st, [('r', q.vmv), ('a', i, ((0, N('arg')),) if fs else ()), T], (True, L0, (), 0, 0, False, 0))
        hs = {t[1] for (t, rk) in s if rk != 1}
        ctx.count(stores=1)
        if len(hs) != 1 or next(iter(hs))[0] != ('len',): ctx.violation('store %s' % n, 'storing to a target of a pattern (%s) leaves the operand stack at %s' % (n, ', '.join(sorted(show_lin(h) for h in hs)) or 'nothing'), st.loc()); continue
        stores[i] = -next(iter(hs))[1]
    # terms: each stores once, from the last to the first
    ap = [of_vm(w, 'apply', vm_t, 'Pattern')]
    tt = [i for i in range(len(w.types)) if w.types[i].get('k') == 'adt' and w.types[i]['d'] == 'cordy_sys::core::pattern::Term' and 'vm::StoreOp' in w.tstr(i)][0]
    tv = {v[0]: (k, v[2]) for k, v in enumerate(w.types[tt]['v'])}
    storeless = {}
    pt = w.strip_ref(ap[0].locals[1]); pf = {f[0]: i for i, f in enumerate(w.types[pt]['v'][0][2])}
    vm = next(i for i in range(2, ap[0].argc + 1) if w.types[w.strip_ref(ap[0].locals[i])].get('d') == VM)
    op = lambda n: ('a', sv[n][0], ((0, N('of ' + n)),) if sv[n][2] else ())
    def term(n, s='Local'):
        k, fs = tv[n]
        return ('a', k, tuple((i, op(s)) for i, (_, ft) in enumerate(fs) if w.types[ft].get('d', '').endswith('::StoreOp')))
    names = {i: n for n, (i, _, _) in sv.items()}
    def stored(ts):
        q = StackQ(w, inv, trace=True); q.root = ap[0]
        args = [T] * ap[0].argc; args[0] = ('r', ('a', None, ((pf['terms'], seq(ts)),))); args[vm - 1] = ('r', q.vmv)
        e = StackEngine(w, q, max_steps=1000000)
        s = e.solve(ap[0], args, ((), L0, (), 0, 0, False, 0))
        ctx.count(patterns=1)
        return {t[0] for (t, rk) in s if rk != 1}
    for n in tv:
        if n == 'Pattern': continue
        got = stored([term(n)])
        if len(got) != 1 or len(next(iter(got))) != 1: ctx.violation('term %s' % n, 'a target of a pattern (%s) is assigned %s times' % (n, ' or '.join(str(len(g)) for g in got) or 'no'), ap[0].loc()); continue
        i = next(iter(got))[0][0]
        if n in ('Array', 'Field') :
            if i is None: ctx.violation('term %s' % n, 'it cannot be told how a target of a pattern (%s) is assigned' % n, ap[0].loc()); continue
            storeless[n] = stores.get(i, 0)
            if names[i] != n: ctx.violation('term %s' % n, 'a target of a pattern (%s) is assigned as %s' % (n, names[i]), ap[0].loc())
        elif next(iter(got))[0] != (sv['Local'][0], 'of Local'): ctx.violation('term %s' % n, 'a target of a pattern (%s) is assigned elsewhere' % n, ap[0].loc())
    got = stored([term('Array'), term('Index', 'Global'), term('Field')])
    if {tuple(names.get(i) for i, _ in g) for g in got} != {('Field', 'Global', 'Array')}: ctx.violation('pattern order', 'the targets of a pattern are assigned in another order than their operands lie on the stack (%s)' % ' or '.join(', '.join(str(names.get(i)) for i, _ in g) for g in got), ap[0].loc())
    return stores, storeless


class JumpQ(Query):
    """which instruction is generated for a kind of branch"""
    def __init__(self, w, bt, v):
        Query.__init__(self); self.w = w; self.bt = bt; self.v = v; self.ops = set(w.adts(OPCODE)); self.made = set()
    def assume_ty(self, eng, t): return ('a', self.v, ()) if t in self.bt else None
    def descend(self, eng, x, args): return x.ws and x.body is not None and x.n != 'placeholder' and len(x.blocks) < 20
    def on_stmt(self, eng, fr, bi, s, val, st):
        if s[0] == '=' and s[2][0] == 'agg' and isinstance(s[2][1], list) and s[2][1][0] == 'adt' and s[2][1][1] in self.ops: self.made.add(s[2][1][2])


def emission(ctx, w, tab, stores, storeless):
    ev = w.variants('expr::ExprType')
    ee = w.need(name='emit_expr')[0]; eo = w.need(name='emit_optimized_expr')[0]
    # kinds of branches
    em = [x for x in w.need(name='emit') if x.ws and x.body is not None and w.strip_ref(x.locals[1]) in w.adts('graph::Code')]
    if not em: raise Missing('emission of the code graph')
    for n, (i, _, _) in w.variants('BranchType').items():
        q = JumpQ(w, set(w.adts('BranchType')), i); Engine(w, q).call(em[0], [T] * em[0].argc)
        made = {tab.names[k] for k in q.made}
        ctx.count(branch_kinds=1)
        if made != {n}: ctx.violation('branch %s' % n, 'a %s branch is generated as %s' % (n, ', '.join(sorted(made)) or 'nothing'), em[0].loc())
    def solve(x, args, what, want=1):
        q = EmitH(w, tab, {ee.i, eo.i}); q.root = x; q.stores = stores; q.storeless = storeless
        e = EmitE(w, q, max_ctx=200, max_steps=2000000)
        try: s = e.solve(x, args, EmitH.START)
        except TooMany as ex: ctx.violation('%s undecided' % what, 'the code generated for %s cannot be followed: %s' % (what, ex), x.loc()); return
        ctx.count(shapes=1, generated=q.pushes)
        n = 0
        for (h, u, l, ok, ph, br, pat, pr), _ in s:
            n += 1
            if pr: ctx.violation('%s: %s' % (what, pr.split(' leave')[0]), 'in the code generated for %s, %s' % (what, pr), x.loc()); continue
            if ph: ctx.violation('%s reserved' % what, 'an instruction reserved in the code for %s is never filled in' % what, x.loc())
            if br: continue        # a branch that is not joined: not the one guessed
            if pat: ctx.violation('%s operands' % what, 'the code generated for %s leaves operands of a pattern on the stack' % what, x.loc())
            if not ok: continue
            if h != want: ctx.violation('%s height' % what, 'the code generated for %s leaves %d values on the operand stack instead of %d' % (what, h, want), x.loc())
            if u or l: ctx.violation('%s unfinished' % what, 'the code generated for %s leaves %s unfinished' % (what, 'a literal' if l else 'an unrolled call'), x.loc())
        if s and all(t[5] for t, _ in s): ctx.violation('%s branches' % what, 'a branch in the code generated for %s is never joined' % what, x.loc())
        return n
    import itertools
    xi = [i for i in range(1, ee.argc + 1) if ee.locals[i] in set(w.adts('expr::Expr'))][0]
    q0 = EmitH(w, tab, set())
    some = 0
    for n, (i, _, fs) in ev.items():
        choices = [shapes(q0, w, ft) for _, ft in fs]
        if any(c is None for c in choices): ctx.violation('%s parts' % n, 'the parts of %s are not known' % n); continue
        got = 0
        for c in itertools.product(*choices):
            a = [T] * ee.argc
            a[xi - 1] = ('a', None, ((1, ('a', i, tuple((k, v) for k, v in enumerate(c) if v != T))),))
            got += solve(ee, a, 'a %s expression' % n) or 0
        some += got > 0
    ctx.floor('expression kinds that generate code', some, 30)
    solve(eo, [T] * eo.argc, 'an optimized expression')


class EmitE(LTEngine):
    def split(self, inst, st):
        return super().split(inst, st) + tuple((l, v) for l, v in sorted(st.items()) if v[0] == 'sym' and v[1] in ('br', 'seq'))
    def havoc(self, inst, st, v):
        if v[0] == 'p' and v[3] and is_seq(self.read(inst, st, (v[1],) + v[2])): return
        super().havoc(inst, st, v)
    def vapply(self, inst, st, x, args, fr):
        if not hasattr(self, 'veng'): self.veng = LEngine(self.w, self.q, max_ctx=100)
        return self.veng.apply(inst, st, x, args, fr)


def run(ctx):
    w = ctx.world()
    try: analyse(ctx, w)
    except TooMany as e: ctx.violation('undecided', 'the operand stack cannot be followed: %s' % e)


def analyse(ctx, w):
    ctx.rule('The effect of every instruction on the operand stack, as a linear expression over its operands, derived from the interpreter by interprocedural typestate; the code generator is then run abstractly over every kind of expression with those effects, assuming one value for each part')
    run_, inv, tab = interpreter(ctx, w)
    ctx.floor('instructions', ctx.coverage.get('instructions', 0), 55)
    calling(ctx, w, inv)
    stores, storeless = patterns(ctx, w, inv)
    emission(ctx, w, tab, stores, storeless)
