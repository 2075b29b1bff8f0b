"""C24: every scope the compiler opens is closed again."""
from depth import *
from typestate import TooMany


class LoopQ(Query):
    """which depth of the loop `break` and `continue` remove variables down to, and where they jump"""
    def __init__(self, w, pop, loop_t, names):
        Query.__init__(self); self.w = w; self.pop = pop; self.seen = set(); self.t = loop_t
        self.v = ('a', None, tuple((i, ('sym', 'tag', n)) for i, n in enumerate(names)))

    def assume_ty(self, eng, t): return self.v if t == self.t else None

    def descend(self, eng, x, args): return x.ws and x.body is not None and len(x.blocks) <= 12

    def model(self, eng, x, args, fr):
        if x.n in ('clone', 'copied', 'cloned') and args: return args[0][1] if args[0][0] == 'r' else args[0]
        return None

    def on_call(self, eng, fr, bi, t, targets, args):
        for x in targets:
            if x.i == self.pop: self.seen.add(('pop', tag_of(args[1]), args[2], args[3]))
            elif x.ws and x.n == 'join_reverse': self.seen.add(('jump', tag_of(args[1])))


def tag_of(v):
    if v[0] == 'sym' and v[1] == 'tag': return v[2]
    if v[0] == 'r': return tag_of(v[1])
    if v[0] == 'a':
        s = {tag_of(x) for _, x in v[2]} - {None}
        return s.pop() if len(s) == 1 else None
    return None


class PopQ(Query):
    """are variables removed, for one depth of a variable and one scope to leave"""
    def __init__(self, w, local_t, val):
        Query.__init__(self); self.w = w; self.t = local_t; self.v = val; self.popped = False
    def assume_ty(self, eng, t): return self.v if t == self.t else None
    def descend(self, eng, x, args): return x.ws and x.body is not None
    def on_call(self, eng, fr, bi, t, targets, args):
        for x in targets:
            if not x.ws and 'Vec' in x.p and x.n in ('pop', 'truncate', 'remove', 'swap_remove', 'drain', 'retain', 'clear', 'split_off') and any(isinstance(y, int) and self.w.types[y].get('d', '').endswith('::Local') for y in x.s or ()): self.popped = True


def run(ctx):
    w = ctx.world()
    ctx.rule('Typestate analysis of all parser functions: each is summarised by how it changes the scope, function and module depth, the stacks of frames, modules and loops, and which variables it leaves declared, on every path and for each way parsing may fail; calls compose summaries. Reported: a grammar rule, or an entry point, with any net change; a scope left while a variable declared in it is still in the table; a loop ended in another frame or at another depth than `break` leaves to; a variable declared with a depth other than the current one.')
    q = Nest(w); e = NestE(w, q, max_ctx=60)
    q.pop_locals = w.need(name='pop_locals')[0]
    lt = [i for i, t in enumerate(w.types) if t.get('k') == 'adt' and t['d'].endswith('::Local') and 'cordy_sys::compiler' in t['d']][0]
    lp = [i for i, t in enumerate(w.types) if t.get('k') == 'adt' and t['d'].endswith('::Loop') and 'cordy_sys::compiler' in t['d']][0]
    # what break and continue do
    q.roles = {}
    for kind in ('break', 'continue'):
        x = w.need(name='parse_%s_statement' % kind)[0]
        lq = LoopQ(w, q.pop_locals.i, lp, q.loop); eng = Engine(w, lq)
        eng.call(x, [T] * x.argc)
        pops = {s for s in lq.seen if s[0] == 'pop' and s[3] != ('i', 0)}
        if any(s[0] == 'pop' and s[2] != ('i', 0) for s in lq.seen): ctx.violation('%s forgets variables' % kind, '`%s` removes variables from the table of the code after it' % kind, x.loc())
        for _, tg, mod, emit in pops:
            if emit != ('i', 1): ctx.violation('%s keeps variables' % kind, '`%s` does not remove the variables of the scopes it leaves from the stack' % kind, x.loc())
        tags = {s[1] for s in pops}
        if len(tags) != 1 or tags == {None}: ctx.violation('%s scope' % kind, '`%s` does not remove variables down to a scope of the innermost loop' % kind, x.loc())
        else: q.roles[kind] = tags.pop()
        if kind == 'continue' and {s[1] for s in lq.seen if s[0] == 'jump'} != {q.loop[0]}: ctx.violation('continue target', '`continue` does not jump to the start of the innermost loop', x.loc())
    # the innermost loop of the innermost frame
    n = 0
    for x in w.fns():
        if x.body is None or not x.p.startswith('cordy_sys::compiler'): continue
        for b in x.blocks:
            t = b['t']
            if t[0] != 'call' or 'ptr' in t[1]: continue
            for y in w.callee(t[1]):
                if not y.ws and y.s and any(isinstance(s, int) and s == lp for s in y.s):
                    if y.n in ('last_mut', 'last'): n += 1
                    elif y.n in ('first', 'first_mut', 'get', 'get_mut', 'iter', 'iter_mut', 'swap', 'reverse', 'index', 'index_mut', 'find', 'next', 'nth', 'last_chunk'): ctx.violation('loop lookup %s' % x.short(), '%s looks for a loop other than the innermost' % x.p, x.loc())
    ctx.floor('loop_lookups', n, 1)
    # removal of variables honours the scope
    pop = q.pop_locals
    ot = w.types[pop.locals[2]]
    some = [i for i, v in enumerate(ot['v']) if v[0] == 'Some'][0]; none = 1 - some
    k = q.local.index('scope_depth')
    for depth in (1, 2, 3):
        for scope in (None, 1, 2, 3):
            for modify in (0, 1):
                pq = PopQ(w, lt, ('a', None, ((k, ('i', depth)),))); eng = Engine(w, pq)
                eng.call(pop, [T, ('a', none, ()) if scope is None else ('a', some, ((0, ('i', scope)),)), ('i', modify), T, T])
                want = modify == 1 and (scope is None or depth >= scope)
                ctx.count(removal_cases=1)
                if pq.popped != want: ctx.violation('pop_locals %s' % ('forgets' if pq.popped else 'keeps'), 'leaving %s %s a variable declared at depth %d' % ('everything' if scope is None else 'scopes from depth %d on' % scope, 'removes' if pq.popped else 'keeps', depth), pop.loc())
    # the nesting itself
    ents = [x for x in w.fns() if x.i in q.rel and x.p.startswith('cordy_sys::compiler::parser::') and x.n in ('parse', 'parse_incremental_repl', 'parse_incremental_eval')]
    if len(ents) < 3: raise Missing('the three entry points of the parser')
    try:
        for x in ents: e.solve(x, [T] * x.argc, ZERO)
    except TooMany as err:
        for k, (m, l) in sorted(q.viol.items()): ctx.violation(k, m, l)
        ctx.violation('unbounded', 'the nesting of the compiler cannot be bounded: %s' % err)
        return
    cyc = cycles(w, q.rel)
    seen = {}
    for (i, a, _), v in e.sum.items():
        x = w.insts[i]
        if i not in cyc and x not in ents: continue
        seen[i] = True
        for (tg, _) in v:
            d = tg[0]
            for n, name in enumerate(FIELDS + ('stack of functions', 'stack of modules')):
                if d[n]: ctx.violation('%s %s' % (name, x.short()), '%s returns with %s changed by %+d on some path' % (x.p, name, d[n]), x.loc())
            if tg[1]: ctx.violation('loop left %s' % x.short(), '%s returns with a loop begun and not ended' % x.p, x.loc())
            if tg[2]: ctx.violation('loop ended %s' % x.short(), '%s ends a loop it did not begin' % x.p, x.loc())
            if tg[5]: ctx.violation('scope left %s' % x.short(), '%s leaves a scope it did not enter' % x.p, x.loc())
    for k, (m, l) in sorted(q.viol.items()): ctx.violation(k, m, l)
    ctx.coverage['summaries'] = len(e.sum)
    ctx.coverage['grammar_functions'] = len(seen)
    for k, n in q.count.items(): ctx.coverage[k.replace(' ', '_')] = n
    ctx.floor('grammar_functions', len(seen), 25)
    for k, n in (('changes of depth', 15), ('declarations', 1), ('removals of variables', 6), ('loops begun', 1), ('loops ended', 3)): ctx.floor(k, q.count.get(k, 0), n)
    ctx.sample({'grammar functions': sorted(w.insts[i].n for i in seen)})


def cycles(w, rel):
    """members of call cycles among rel"""
    idx = {}; low = {}; st = []; on = set(); out = set(); c = [0]
    g = {i: [j for j in w.callees(w.insts[i]) if j in rel] for i in rel}
    for r in sorted(rel):
        if r in idx: continue
        work = [(r, iter(g[r]))]; idx[r] = low[r] = c[0]; c[0] += 1; st.append(r); on.add(r)
        while work:
            v, it = work[-1]
            for u in it:
                if u not in idx:
                    idx[u] = low[u] = c[0]; c[0] += 1; st.append(u); on.add(u); work.append((u, iter(g[u]))); break
                elif u in on: low[v] = min(low[v], idx[u])
            else:
                work.pop()
                if work: low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == idx[v]:
                    comp = []
                    while True:
                        u = st.pop(); on.discard(u); comp.append(u)
                        if u == v: break
                    if len(comp) > 1 or v in g[v]: out |= set(comp)
    return out
