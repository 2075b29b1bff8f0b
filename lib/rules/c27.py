"""C27: a variable always holds what was last stored in it, also when functions have captured it."""
from cells import *
from depth import Nest, NestE, FIELDS, SC
from rules.c24 import cycles
from rules.c25 import of_vm
from rules.c26 import EmitQ
from emission import EmitH
from resolve import struct, ResolveQ, ResolveTE, variant, fields, C
from stack import is_seq, seq, counted
from typestate import TooMany


MINE = ('PushLocal', 'StoreLocal', 'PushGlobal', 'StoreGlobal', 'PushUpValue', 'StoreUpValue', 'CloseLocal', 'CloseUpValue', 'LiftUpValue', 'Return', 'Swap')


def lin(*names, k=0): return (tuple(sorted(names)), k)


def text(e):
    """an effect in words"""
    def v(x): return 'slot %s' % show_lin(x[2][1], None) if is_(x, 'val') and isinstance(x[2], tuple) else 'its value' if is_(x, 'val') else show(x)
    h, mem, cells, links, ev = e
    def c(i): return {'open': 'the variable linked to slot %s', 'env': 'the captured variable %s', 'new': 'a new captured variable%s'}[i[0]] % (show_lin(i[-1], None) if i[0] != 'new' else '')
    out = ['slot %s := %s' % (show_lin(l, None), v(x)) for l, x in mem]
    out += ['%s := %s' % (c(i), {0: 'linked to ', 1: ''}.get(x[1], '?') + ', '.join(v(y) if y[0] == 'sym' and y[1] == 'val' else 'slot ' + show(y) for _, y in x[2]) if x[0] == 'a' else 'nothing') for i, x in cells]
    out += ['link %s%s' % ('removed at ' if l[0] == 'remove' else 'added at ', show_lin(l[1], None)) for l in links]
    out += ['%s captured' % c(x[2]) if isinstance(x, tuple) else str(x) for x in ev]
    return '; '.join(out) or 'nothing'


def interpreter(ctx, w):
    inv = of_vm(w, 'invoke'); vm = w.strip_ref(inv.locals[1])
    run = of_vm(w, 'run', vm)
    LEN, TOP = lin('len'), lin('len', k=-1)
    A, FPA, FN = lin('arg'), lin('arg', 'fp'), lin('fp', k=-1)
    K = lin('k'); each = lin('each fp to len')
    sites = set(); seen = set()
    ops_t = w.types[w.adts(OPCODE)[0]]['v']
    for n, i, flags, v in ops(w):
        if n not in MINE: continue
        for init in ('open', 'closed'):
            for has in (0, 1):
                try: q, ret = effects(w, run, v, init, has)
                except TooMany as err: ctx.violation('instruction %s' % n, 'what instruction %s does to variables cannot be told: %s' % (n, err), run.loc()); seen.add(n); continue
                ctx.count(instruction_states=1)
                sites |= q.sites
                got = {(e[0], e[1], tuple(c for c in e[2] if c[1] != q.content((), c[0])), e[3], e[4]) for e in q.effects}
                envc = ('env', slot0(FN), A); at = 'instruction %s' % n
                where = run.loc()
                top = slot0(TOP)
                flag = [f[1] for f, (_, ft) in zip(flags, ops_t[i][2]) if w.tstr(ft) == 'bool']
                pop = -1 if flag == [1] else 0
                want = None
                if n == 'PushLocal': want = (add(LEN, LIN1), ((LEN, slot0(FPA)),), (), (), ())
                elif n == 'PushGlobal': want = (add(LEN, LIN1), ((LEN, slot0(A)),), (), (), ())
                elif n == 'StoreLocal': want = (lin('len', k=pop), ((FPA, top),), (), (), ())
                elif n == 'StoreGlobal': want = (lin('len', k=pop), ((A, top),), (), (), ())
                elif n == 'PushUpValue': want = (add(LEN, LIN1), ((LEN, slot0(K) if init == 'open' else val('kept')),), (), (), ())
                elif n == 'StoreUpValue': want = (LEN, ((K, top),), (), (), ()) if init == 'open' else (LEN, (), ((envc, q.closed(top)),), (), ())
                elif n == 'CloseLocal':
                    cid = ('open', FPA) if has else ('new', q.open(FPA))
                    want = (LEN, (), (), () if has else (('add', FPA, cid),), (('capture', top, cid),))
                elif n == 'CloseUpValue': want = (LEN, (), (), (), (('capture', top, envc),))
                elif n == 'LiftUpValue': want = (LEN, (), ((('open', FPA), q.closed(slot0(FPA))),), (('remove', FPA),), ()) if has else (LEN, (), (), (), ())
                elif n == 'Return': want = (lin('fp'), ((FN, top),), ((('open', each), q.closed(slot0(each))),), (('remove', each),), ()) if has else (lin('fp'), ((FN, top),), (), (), ())
                elif n == 'Swap': want = (LEN, ((lin('len', k=-2), top), (TOP, slot0(lin('len', k=-2)))), (), (), ())
                ex = lin('each fp to len-1')
                if n == 'Return' and has and got == {(lin('fp'), ((FN, top),), ((('open', ex), q.closed(slot0(ex))),), (('remove', ex),), ())}: want = next(iter(got))   # the value returned is no variable
                if want is not None:
                    seen.add(n)
                    if q.bad: ctx.violation(at, 'what %s does to variables cannot be told: %s' % (at, ', '.join('%s in %s' % (b, a.rsplit('::', 1)[-1]) for a, b in sorted(q.bad))), where)
                    elif got != {want}: ctx.violation(at, '%s does not do what it is for%s: %s instead of %s' % (at, '' if n not in ('PushUpValue', 'StoreUpValue', 'CloseLocal', 'LiftUpValue', 'Return') else ', for a variable %s' % ('still in its slot' if (init == 'open' if n in ('PushUpValue', 'StoreUpValue') else has) else 'no longer in its slot' if n in ('PushUpValue', 'StoreUpValue') else 'not yet captured'), ' | '.join(sorted(text(e) for e in got)) or 'nothing', text(want)), where)
    for n in MINE:
        if n not in seen: raise Missing('instruction ' + n)
    # storing by destructuring
    st = [x for x in w.need(name='store') if x.ws and x.body is not None and x.argc == 3 and 'StoreOp' in w.tstr(x.locals[2]) and w.strip_ref(x.locals[1]) == vm]
    if not st: raise Missing('store of the virtual machine')
    sv = {nm: i for nm, (i, _, _) in w.variants('vm::StoreOp').items()}
    for kind, tgt in (('Local', FPA), ('Global', A), ('UpValue', K)):
        if kind not in sv: raise Missing('store operation ' + kind)
        for init in ('open', 'closed') if kind == 'UpValue' else ('open',):
            q, ret = effects(w, st[0], None, init, 0, [('a', sv[kind], ((0, N('arg')),)), val('stored')])
            sites |= q.sites
            ctx.count(instruction_states=1)
            got = {(t[0], t[1], tuple(c for c in t[2] if c[1] != q.content((), c[0])), t[3], t[4]) for t, rk in ret if rk != 1}
            want = (LEN, ((tgt, val('stored')),), (), (), ()) if init == 'open' else (LEN, (), ((('env', slot0(FN), A), q.closed(val('stored'))),), (), ())
            if q.bad or got != {want}: ctx.violation('store %s' % kind, 'destructuring into %s variable stores wrongly: %s instead of %s' % ({'Local': 'a local', 'Global': 'a global', 'UpValue': 'a captured'}[kind], ' | '.join(sorted(text(e) for e in got)) or 'nothing', text(want)), st[0].loc())
    # after an error
    rec = of_vm(w, 'run_recovery')
    q, ret = effects(w, rec, None, 'open', 1, [N('locals')])
    sites |= q.sites
    link = ('open', lin('each link'))
    for t, rk in ret:
        c = dict(t[2]).get(link)
        if c is not None and c != q.closed(slot0(lin('each link'))): ctx.violation('recovery', 'after an error captured variables are not detached from their slots', rec.loc())
    if not any(link in dict(t[2]) for t, rk in ret): ctx.violation('recovery', 'after an error captured variables are not detached from their slots', rec.loc())
    # nothing else works on captured variables
    n = 0
    for x in w.fns():
        if x.body is None or not x.ws or 'Test' in x.p: continue
        if any(VM.split('::')[-1] in w.tstr(l) and w.types[w.strip_ref(l)].get('d') == VM and w.strip_ref(l) != vm for l in x.locals[1:x.argc + 1]): continue
        for bi, b in enumerate(x.blocks):
            t = b['t']
            if t[0] != 'call' or 'ptr' in t[1]: continue
            for y in w.callee(t[1]):
                k = q.kind(y, x, t)
                if k in ('cell', 'env', 'open') and y.n not in ('len', 'fmt', 'clone', 'drop', 'eq', 'hash', 'deref', 'iter', 'is_empty', 'clear', 'with_hasher', 'new', 'default'):
                    n += 1
                    if (x.p, bi) not in sites: ctx.violation('other use %s' % x.short(), '%s works on captured variables (%s) outside the instructions for them' % (x.p, y.n), x.loc())
    ctx.floor('uses_of_captured_variables', n, 8)


class LeaveQ(EmitQ):
    """what removing variables emits, for given variables"""
    def __init__(self, w, lt, vs):
        EmitQ.__init__(self, w); self.lt = lt; self.vs = vs
    num = EmitH.num
    def holds(self, t): return False
    def add(self, tag, e): return tag + (e,) if len(tag) < 10 else tag
    def local(self, x): return not x.ws and any(isinstance(s, int) and s == self.lt for s in x.s or ())
    def t_call(self, eng, fr, bi, t, x, args, tag, st):
        v = strip(args[0]) if args else T
        if self.local(x) and x.n == 'len' and ('Vec' in x.p or 'slice' in x.p): return [(tag, ('i', len(self.vs)))]
        r = EmitH.seqs(self, eng, fr, t, x, args, tag, st)
        if r is not None: return r
        return EmitQ.t_call(self, eng, fr, bi, t, x, args, tag, st)
    def model(self, eng, x, args, fr):
        if self.local(x) and args and not is_seq(strip(args[0])):
            if x.n in ('iter', 'iter_mut', 'into_iter', 'deref', 'deref_mut', 'as_slice'): return seq(tuple(('r', v) for v in self.vs))
            if x.n in ('index', 'index_mut', 'get_unchecked') and strip(args[1])[0] == 'i' and strip(args[1])[1] < len(self.vs): return ('r', self.vs[strip(args[1])[1]])
            if x.n == 'get' and strip(args[1])[0] == 'i':
                i = strip(args[1])[1]
                return ('a', 1, ((0, ('r', self.vs[i])),)) if i < len(self.vs) else ('a', 0, ())
        r = EmitH.model(self, eng, x, args, fr)
        if r is not None: return r
        return EmitQ.model(self, eng, x, args, fr)


class LeaveE(Counting, LTEngine):
    def split(self, inst, st): return LTEngine.split(self, inst, st) + tuple((l, st.get(l)) for l in sorted(set(self.counters(inst).values()))) + tuple((l, v) for l, v in sorted(st.items()) if v[0] == 'sym' and v[1] in ('once', 'seq'))
    def havoc(self, inst, st, v):
        if v[0] == 'p' and v[3] and self.read(inst, st, (v[1],) + v[2])[:2] in (('sym', 'once'), ('sym', 'seq')): return
        super().havoc(inst, st, v)


def removal(ctx, w):
    """variables which have been captured are detached from their slot when they are removed"""
    pop = w.need(name='pop_locals')[0]
    lt = [i for i, t in enumerate(w.types) if t.get('k') == 'adt' and t['d'].endswith('::Local') and 'cordy_sys::compiler' in t['d']]
    if not lt: raise Missing('the type Local')
    names = [f[0] for f in w.types[lt[0]]['v'][0][2]]
    for k in ('scope_depth', 'captured', 'index'):
        if k not in names: raise Missing('the field %s of variables' % k)
    ot = w.types[pop.locals[2]]['v']
    some = [i for i, v in enumerate(ot) if v[0] == 'Some'][0]
    def var(d, c, i): return ('a', None, tuple(sorted([(names.index('scope_depth'), ('i', d)), (names.index('captured'), ('i', c)), (names.index('index'), ('i', i))])))
    for vs in ((), ((1, 0),), ((1, 1),), ((3, 1),), ((1, 1), (2, 1)), ((1, 1), (3, 0), (3, 1)), ((2, 0), (3, 1)), ((2, 1), (2, 1), (4, 1))):
        for lifts in (0, 1):
            for pops in (0, 1):
                for scope in (None, 2, 3):
                    q = LeaveQ(w, lt[0], [var(d, c, i) for i, (d, c) in enumerate(vs)]); e = LeaveE(w, q, max_steps=500000)
                    s = e.solve(pop, [T, ('a', 1 - some, ()) if scope is None else ('a', some, ((0, ('i', scope)),)), ('i', 0), ('i', pops), ('i', lifts)], ())
                    gone = [i for i, (d, c) in enumerate(vs) if scope is None or d >= scope]
                    got = {tuple(ev[-1] if isinstance(ev, tuple) else ev for ev in tag) for tag, _ in s}
                    want = tuple('LiftUpValue(%d)' % i for i in reversed(gone) if lifts and vs[i][1]) + ('Pop',) * (len(gone) * pops)
                    ctx.count(removals_of_variables=1)
                    def order(g): return tuple(sorted(y for y in g if y != 'Pop')) + tuple(y for y in g if y == 'Pop') if 'Pop' not in g or all(y == 'Pop' for y in g[g.index('Pop'):]) else g
                    if {order(g) for g in got} != {order(want)}:
                        ctx.violation('removal %s' % ('of captured variables' if any(vs[i][1] for i in gone) else 'of variables'), 'leaving %s with variables of %s emits %s instead of %s' % ('everything' if scope is None else 'scopes from depth %d on' % scope, ', '.join('%sdepth %d' % ('captured ' if c else '', d) for d, c in vs) or 'no scope', ' or '.join(', '.join(g) or 'nothing' for g in sorted(got)) or 'nothing', ', '.join(want) or 'nothing'), pop.loc())
    ctx.floor('removals_of_variables', ctx.coverage.get('removals_of_variables', 0), 90)


class ExitQ(TQuery):
    """tag = (change of the scope depth, scopes whose captured variables have been detached since anything was parsed, parsed anything in this scope, depth of the loop begun here)"""
    max_tags = 300
    def __init__(self, w, nest, cyc, root, capture):
        TQuery.__init__(self); self.capture = capture; self.ret = w.variants(OPCODE)['Return'][0]; self.w = w; self.n = nest; self.cyc = cyc; self.root = root; self.viol = {}; self.rel = nest.exits
        lp = [i for i, t in enumerate(w.types) if t.get('k') == 'adt' and t['d'].endswith('::Loop') and 'cordy_sys::compiler' in t['d']][0]
        self.lp = lp; self.lv = ('a', None, tuple((i, ('sym', 'tag', n)) for i, n in enumerate(nest.loop)))
    def field(self, inst, place): return self.n.field(inst, place)
    def assume_ty(self, eng, t): return self.lv if t == self.lp else None
    def relevant(self, eng, x): return x.i in self.rel and x.i not in self.cyc
    def descend(self, eng, x, args): return x.ws and x.body is not None and x.i not in self.rel and len(x.blocks) < 12
    def t_stmt(self, eng, fr, bi, s, val, st, tag):
        k = self.n.field(fr.inst, s[1])
        if k != SC: return tag
        if val[0] == 'sym' and val[1] == 'dep' and abs(val[3]) < 6:
            return ((val[3],) + tag[0][1:], tag[1], tag[2] and val[3] <= tag[0][0]) + tag[3:]
        return tag
    def model(self, eng, x, args, fr):
        if x.n in ('clone', 'copied', 'cloned') and args and not x.ws and strip(args[0])[0] == 'sym': return strip(args[0])
        return self.n.model(eng, x, args, fr)
    def bad(self, k, m, x): self.viol.setdefault('%s %s' % (k, self.root.short()), (m % self.root.p, x.loc()))
    def key(self, v):
        v = strip(v)
        if v[0] == 'sym' and v[1] == 'dep' and v[2] == SC: return v[3]
        if v[0] == 'sym' and v[1] == 'tag': return v[2]
        return None
    def covers(self, a, b):
        """leaving scopes from a on includes those from b on"""
        if a == -99 or a == b: return True
        if isinstance(a, int) and isinstance(b, int): return a <= b
        return a == self.n.roles.get('break') and b == self.n.roles.get('continue')
    def t_call(self, eng, fr, bi, t, x, args, tag, st):
        d, lifted, parsed, loop, pending = tag
        if self.is_return(x, args): return [((d, lifted | {-99}, parsed, loop, False), T)]
        if x.i == self.n.pop_locals.i:
            sc = args[1]
            k = -99 if sc[0] == 'a' and sc[1] is not None and not sc[2] and self.w.types[x.locals[2]]['v'][sc[1]][0] == 'None' else self.key(dict(sc[2]).get(0, T)) if sc[0] == 'a' and sc[1] is not None else None
            fl = [a[1] if a[0] == 'i' else None for a in args[2:5]]
            self.n.count['exits'] = self.n.count.get('exits', 0) + 1
            if k is None or None in fl: self.bad('exit', '%s leaves scopes that cannot be told', fr.inst); return [(tag, T)]
            modify, pop, lifts = fl
            if lifts: return [((d, lifted | {k}, parsed, loop, pending), T)]
            if (pop or modify) and (parsed or self.root.i != fr.inst.i or isinstance(k, str)) and not any(self.covers(l, k) for l in lifted):
                if not pop: return [((d, lifted, parsed, loop, True), T)]
                self.bad('dropped', '%s removes variables without detaching the captured ones from their slots', fr.inst)
            return [(tag, T)]
        if not x.ws and x.n == 'push' and any(isinstance(s, int) and s == self.lp for s in x.s or ()): return [((d, lifted, parsed, d[0], pending), T)]
        if x.ws and x.n == 'join_reverse':
            self.n.count['jumps back'] = self.n.count.get('jumps back', 0) + 1
            if len(args) > 1 and self.key2(args[1]) is not None:
                k = self.n.roles.get('break')
                if not any(self.covers(l, k) for l in lifted): self.bad('continue', '%s starts the next iteration without detaching captured variables of the loop from their slots', fr.inst)
            elif loop is not None and loop > 0 and not any(self.covers(l, 1) for l in lifted): self.bad('iteration', '%s starts the next iteration without detaching captured variables of the loop from their slots', fr.inst)
            return [(tag, T)]
        if x.i in self.capture and x.i in self.cyc and x.i != self.root.i or x.i == self.root.i: return [((d, frozenset(), True, loop, pending), T)]
        return None
    def is_return(self, x, args):
        """emits the instruction that ends a function, which detaches every variable of it"""
        return x.ws and any(a[0] == 'a' and a[1] == self.ret and self.w.types[l].get('d') == OPCODE for l, a in zip(x.locals[1:x.argc + 1], args))
    def key2(self, v):
        v = strip(v)
        if v[0] == 'sym' and v[1] == 'tag': return v[2]
        if v[0] == 'a' and len(v[2]) == 1: return self.key2(v[2][0][1])
        return None


def exits(ctx, w):
    """on every way out of a scope or to the next iteration"""
    q = Nest(w)
    q.pop_locals = w.need(name='pop_locals')[0]
    jr = [x for x in w.need(name='join_reverse') if x.ws]
    lpid = [i for i, t in enumerate(w.types) if t.get('k') == 'adt' and t['d'].endswith('::Loop') and 'cordy_sys::compiler' in t['d']]
    if not lpid: raise Missing('the type Loop')
    from rules.c24 import LoopQ
    q.roles = {}
    for kind in ('break', 'continue'):
        x = w.need(name='parse_%s_statement' % kind)[0]
        lq = LoopQ(w, q.pop_locals.i, lpid[0], q.loop); Engine(w, lq).call(x, [T] * x.argc)
        tags = {s[1] for s in lq.seen if s[0] == 'pop' and s[3] != ('i', 0)}
        if len(tags) == 1: q.roles[kind] = tags.pop()
    q.exits = set(q.rel) | set(w.reaching([q.pop_locals] + jr))
    q.exits = {i for i in q.exits if w.insts[i].ws and w.insts[i].p.startswith('cordy_sys::compiler::')}
    cyc = cycles(w, q.exits)
    lt = [t for t in w.types if t.get('k') == 'adt' and t['d'].endswith('::Local') and 'cordy_sys::compiler' in t['d']]
    ci = [f[0] for f in lt[0]['v'][0][2]].index('captured')
    marks = [x for x in w.fns() if x.body is not None and x.ws and any(s[0] == '=' and len(s[1]) > 1 and s[1][-1] == ci and w.types[w.place_ty(x, s[1], len(s[1]) - 1) or 0].get('d') == lt[0]['d'] for b in x.blocks for s in b['s'])]
    if not marks: raise Missing('where variables are marked as captured')
    capture = w.reaching(marks)
    marking(ctx, w, marks)
    # roots: grammar functions and entry points from which an exit is reached without another grammar function
    called = {j for i in q.exits for j in w.callees(w.insts[i])}
    roots = []
    for i in sorted(q.exits):
        x = w.insts[i]
        if i == q.pop_locals.i or x.body is None or not any(w.types[w.strip_ref(l)].get('d') == 'cordy_sys::compiler::parser::Parser' for l in x.locals[1:x.argc + 1]): continue
        if i in cyc or i not in called: roots.append(x)
    n = 0
    for x in roots:
        # reaches an exit without entering another grammar function?
        todo = [x]; seen = {x.i}; hit = False
        while todo and not hit:
            for j in w.callees(todo.pop()):
                y = w.insts[j]
                if j == q.pop_locals.i or y in jr: hit = True; break
                if j in q.exits and j not in cyc and j not in seen: seen.add(j); todo.append(y)
        if not hit: continue
        n += 1
        eq = ExitQ(w, q, cyc, x, capture); e = NestE(w, eq, max_ctx=60, max_steps=1500000)
        try: r = e.solve(x, [T] * x.argc, ((0,) * 5, frozenset(), False, None, False))
        except TooMany as err: ctx.violation('exits %s' % x.short(), 'the ways out of scopes in %s cannot be told: %s' % (x.p, err), x.loc()); continue
        if any(tag[4] for tag, _ in r): eq.bad('dropped', '%s removes variables without detaching the captured ones from their slots', x)
        for k, (m, l) in sorted(eq.viol.items()): ctx.violation(k, m, l)
    ctx.coverage['functions_with_exits'] = n
    for k, m, least in (('exits', 'ways out of scopes', 8), ('jumps back', 'jumps to the next iteration', 3)): ctx.floor(m.replace(' ', '_'), q.count.get(k, 0), least)


def closures(w, x):
    return [y for c in x.s or () if isinstance(c, int) and w.types[c]['k'] == 'closure' for y in w.by_path.get(w.types[c]['d'], ()) if y.body is not None]


class ListQ(EmitQ):
    """short vectors and iterators over them"""
    seqs = EmitH.seqs; num = EmitH.num
    def holds(self, t): return True
    def add(self, tag, e): return tag + (e,) if len(tag) < 10 else tag
    def t_call(self, eng, fr, bi, t, x, args, tag, st):
        if not x.ws and x.n == 'for_each' and args and is_seq(strip(args[0])):
            v = strip(args[0]); outs = {tag}
            ys = closures(self.w, x)
            if len(ys) != 1: return None
            for e in (reversed(v[2][v[3]:]) if v[4] else v[2][v[3]:]):
                new = set()
                for tg in outs: new |= {tg2 for tg2, _ in eng.tapply(fr.inst, st, ys[0], [args[1] if self.w.types[ys[0].locals[1]]['k'] != 'ref' else ('r', args[1]), ('a', None, ((0, e),))], fr, tg)}
                outs = new
            return [(tg, T) for tg in outs]
        return self.seqs(eng, fr, t, x, args, tag, st) or EmitQ.t_call(self, eng, fr, bi, t, x, args, tag, st)
    def model(self, eng, x, args, fr):
        if not x.ws and x.n == 'into_iter' and args and is_seq(strip(args[0])) and len(x.locals) > 1 and self.w.types[x.locals[1]]['k'] == 'ref':
            v = strip(args[0]); return seq(tuple(e if e[0] == 'r' else ('r', e) for e in v[2]), v[3], v[4])
        if not x.ws and args and is_seq(strip(args[0])):
            v = strip(args[0]); el = tuple(reversed(v[2][v[3]:])) if v[4] else v[2][v[3]:]
            if x.n in ('map', 'filter_map', 'for_each', 'flat_map', 'filter'):
                ys = closures(self.w, x)
                if x.n != 'map' or len(ys) != 1: return T
                return seq(tuple(LEngine(self.w, self).call(ys[0], [args[1] if self.w.types[ys[0].locals[1]]['k'] != 'ref' else ('r', args[1]), e])[0] or T for e in el))
            if x.n == 'collect': return seq(el)
        return EmitH.model(self, eng, x, args, fr) or EmitQ.model(self, eng, x, args, fr)


def closing(ctx, w):
    """what a function captures is captured in the order in which it is numbered"""
    lt = [i for i, t in enumerate(w.types) if t.get('k') == 'adt' and t['d'].endswith('::Locals') and 'cordy_sys::compiler' in t['d']]
    ut = [i for i, t in enumerate(w.types) if t.get('k') == 'adt' and t['d'].endswith('::UpValue') and 'cordy_sys::compiler' in t['d']]
    if not lt or not ut: raise Missing('the types Locals and UpValue')
    def vec(l): return w.types[l].get('d', '').endswith('::Vec') and OPCODE in w.tstr(l)
    make = [x for x in w.fns() if x.ws and x.body is not None and x.argc == 1 and w.strip_ref(x.locals[1]) == lt[0] and vec(x.locals[0])]
    emit = [x for x in w.fns() if x.ws and x.body is not None and x.argc == 2 and 'Parser' in w.tstr(x.locals[1]) and vec(w.strip_ref(x.locals[2])) and '{closure' not in x.p]
    if not make or not emit: raise Missing('where functions capture variables')
    def up(loc, i): return struct(w, 'semantic::UpValue', is_local=('i', loc), index=N(i))
    names = {v[0]: n for n, v in w.variants(OPCODE).items()}
    for x in make:
        for kinds in ((), (1,), (0,), (1, 0), (0, 1), (1, 1, 0)):
            q = ListQ(w); e = LeaveE(w, q)
            els = seq(tuple(up(k, 'i%d' % j) for j, k in enumerate(kinds)))
            s = e.solve(x, [('r', struct(w, 'compiler::Locals', upvalues=els))], ())
            ctx.count(capture_lists=1)
            want = ['%s(i%d)' % ('CloseLocal' if k else 'CloseUpValue', j) for j, k in enumerate(kinds)]
            for v in s.values():
                got = [q.op(o) for o in v[2][v[3]:]] if is_seq(v) else None
                if got != want: ctx.violation('captures', 'a function that captures %s is given %s' % (', '.join(want) or 'nothing', ', '.join(got) if got is not None else 'something else'), x.loc())
    for x in emit:
        ov = w.variants(OPCODE)
        for n in (0, 1, 2, 3):
            q = ListQ(w); e = LeaveE(w, q)
            s = e.solve(x, [T, seq(tuple(('a', ov['CloseLocal'][0], ((0, N('i%d' % j)),)) for j in range(n)))], ())
            ctx.count(capture_lists=1)
            want = ['Closure'] * (n > 0) + ['CloseLocal(i%d)' % j for j in range(n)]
            got = {tuple(ev[-1] if isinstance(ev, tuple) else ev for ev in tag) for tag, _ in s}
            if got != {tuple(want)}: ctx.violation('captured in order', 'capturing %d variable%s emits %s instead of %s' % (n, '' if n == 1 else 's', ' or '.join(', '.join(g) or 'nothing' for g in sorted(got)), ', '.join(want) or 'nothing'), x.loc())
    ctx.floor('capture_lists', ctx.coverage.get('capture_lists', 0), 10)


class MarkQ(ResolveQ, TQuery):
    """whether the variable referred to is marked as captured; tag = the variables marked"""
    def __init__(self, w, sc, rel):
        ResolveQ.__init__(self, w, sc); self.rel = rel
        self.cap = fields(w, 'semantic::Local')['captured']
        self.opt_t = w.adts('semantic::LValueReference')
    def relevant(self, eng, x): return x.i in self.rel
    def ret_key(self, v): return v[1] if v[0] == 'a' else None
    def t_stmt(self, eng, fr, bi, s, val, st, tag):
        self.on_stmt(eng, fr, bi, s, val, st)
        p = s[1]
        if len(p) >= 2 and p[-1] == self.cap:
            t = self.w.place_ty(fr.inst, p, len(p) - 1)
            if t is not None and self.ends(t, 'Local'):
                new = {e[1] for e in self.events if e[0] == 'captured'}
                self.events = {e for e in self.events if e[0] != 'captured'}
                return tag | new if val == ('i', 1) else tag - new
        return tag


def marking(ctx, w, marks):
    """a variable that a function refers to from inside another is marked as captured, whenever it is"""
    x = w.need(name='resolve_reference')[0]
    rel = {i for i in w.reaching(marks) if w.insts[i].ws and w.insts[i].p.startswith('cordy_sys::compiler::')}
    names = {i: n for n, (i, _, _) in w.variants('semantic::LValueReference').items()}
    n = 0
    for name, sc in (('Named', dict(enc=['local'], upenc=[], upmid=[], mid=True)), ('Named', dict(enc=['local'], upenc=['same'], upmid=[], mid=True)), ('Named', dict(enc=['local'], upenc=[], upmid=[], mid=False)),
                     ('Named', dict(enc=['local'], upenc=['same'], mid=False)), ('This', dict(enc=['this'], upenc=['same'], mid=False)), ('This', dict(enc=['this'], upenc=[], upmid=[], mid=True))):
        q = MarkQ(w, sc, rel)
        s = ResolveTE(w, q).solve(x, [T, variant(w, 'semantic::Reference', name, *([C('want')] if name == 'Named' else []))], frozenset())
        ctx.count(captures_marked=1)
        for tag, rk in s:
            if rk is None: ctx.violation('marks unknown', 'what a name refers to cannot be told', x.loc()); continue
            if names[rk] in ('UpValue', 'UpValueThis'):
                n += 1
                if not any(t == 'local@enc' or t.startswith('enc') for t in tag): ctx.violation('marks %s' % name, 'a variable can be captured without being marked as captured', x.loc())
                for t in tag:
                    if 'enc' not in t: ctx.violation('marks other', 'another variable is marked as captured: %s' % t, x.loc())
    if not n: raise Missing('references to captured variables')


def run(ctx):
    w = ctx.world()
    ctx.rule('Interpreter: with the operand stack, the environments of functions and the table of links to open captured variables as the symbolic state, each instruction is analysed for a captured variable still linked to its slot and one detached from it, and for a slot with and without a link; each must read, write, capture, link and detach exactly the variable it is for, no other instruction may, and returning detaches all variables of the frame before they go. Nothing else in the workspace may work on captured variables.')
    ctx.rule('Compiler: removing a variable from the stack emits the instruction that detaches it exactly if it was captured, before the removal; on every path out of a scope, and to the next iteration of a loop with variables of its own, the captured variables of the scopes left are detached after everything in them has been parsed.')
    interpreter(ctx, w)
    removal(ctx, w)
    closing(ctx, w)
    exits(ctx, w)
