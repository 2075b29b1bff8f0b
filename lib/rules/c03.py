"""C03: every built-in is callable with exactly the argument counts it declares, on every route."""
import re
from absint import *
from dispatch import *

N = 6          # argument counts 0..5; every count above 3 takes the same arms


class RouteQ(DispatchQ):
    def __init__(self, w, native, extra=None):
        DispatchQ.__init__(self, w, native, extra)
        self.type_variant = None

    def model(self, eng, x, args, fr):
        if x.n == 'ty' and x.p.endswith('ValuePtr::ty') and self.type_variant is not None: return self.type_variant
        if x.n == 'pop' and x.trait and x.trait.endswith('VirtualInterface'):
            fr.events.add(('pop', fr.inst.i, self.cur_bi)); return A('pop%d_%d' % (fr.inst.i, self.cur_bi))
        if x.n == 'popn' and x.trait and x.trait.endswith('VirtualInterface'):
            fr.events.add(('popn', rep(args[1]))); return T
        if x.n == 'err' and x.body is not None:
            t = self.w.types[x.locals[0]]
            if t['k'] == 'adt' and t['d'].endswith('::result::Result'): return ('a', 1, ())
        return DispatchQ.model(self, eng, x, args, fr)

    def on_call(self, eng, fr, bi, t, targets, args):
        self.cur_bi = bi
        for x in targets:
            if x.n == 'to_value' and args and args[0][0] == 'a' and x.self_ty == NF: fr.events.add(('self',))
        DispatchQ.on_call(self, eng, fr, bi, t, targets, args)


IGN = {'ty', 'as_native', 'pop', 'popn', 'into_vec', 'as_partial_native', 'consume', 'box_assume_init_into_vec_unsafe'}


def normal(w, ev, prefix=(), ctx=None):
    """outcome set with operands named a1.. in call order; pops numbered in reverse order of execution"""
    pops = sorted({(e[1], e[2]) for e in ev if e[0] == 'pop'})
    ren = {}
    bad = None
    if pops:
        insts = {p[0] for p in pops}
        inst = w.insts[pops[0][0]]
        order = []
        rest = [p[1] for p in pops]
        # a pop at block b executes before one at block c iff c is reachable from b
        reach = {b: reachable(inst, b) for b in rest}
        rest.sort(key=lambda b: sum(1 for c in rest if c != b and b in reach[c]))
        n = len(rest)
        for k, b in enumerate(rest): ren['pop%d_%d' % (inst.i, b)] = 'a%d' % (len(prefix) + n - k)
        if len(insts) > 1: bad = 'pops in several functions'
    out = set()
    for e in ev:
        if e[0] == 'leaf':
            if e[1].rsplit('::', 1)[-1] in IGN: continue
            out.add(('run', canon(e[1]), tuple(sub(a, ren) for a in e[2])))
        elif e[0] == 'err': out.add(('error', e[1], tuple(sub(a, ren) for a in e[2][1:])) if e[1] == 'IncorrectArgumentsNativeFunction' else ('error', e[1], ()))
        elif e[0] == 'partial': out.add(('partial', e[1], tuple(sub(a, ren) for a in e[2])))
        elif e[0] == 'panic': out.add(('panic', e[1]))
        elif e[0] == 'self': out.add(('self',))
    npop = len(pops)
    for e in ev:
        if e[0] == 'popn': npop = npop + int(e[1]) if e[1].isdigit() else None
    return frozenset(out), npop


def canon(n): return re.sub(r'<[^<>]*(<[^<>]*>)*[^<>]*>', '<>', n)


def sub(a, ren):
    for k in sorted(ren, key=len, reverse=True): a = a.replace(k, ren[k])
    return a


def reachable(inst, b):
    seen = set(); st = list(inst.succ()[b])
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x); st += inst.succ()[x]
    return seen


def direct(w, root, V, n):
    q = RouteQ(w, V); e = Engine(w, q)
    r, ev = e.call(root, [('a', V, ()), ('i', n), T])
    return normal(w, ev) + (e,)


def show(out): return '; '.join(sorted(str(x[0]) + (' ' + str(x[1]) if len(x) > 1 else '') + ('(' + ', '.join(x[2]) + ')' if len(x) > 2 else '') for x in out)) or 'nothing'


def run(ctx):
    w = ctx.world()
    nf = w.variants('core::NativeFunction')
    ty = w.variants('cordy_sys::vm::Type')
    stack = [x for x in w.need(name='invoke_stack') if x.argc == 3][0]
    vmty = stack.s
    pick = lambda xs: [x for x in xs if not x.s or x.s[0] in vmty or x.s == vmty][0]
    mn = w.need('core::NativeFunction::min_nargs')[0]
    partial = pick(w.need(name='invoke_partial'))
    ctx.rule('For every built-in and 0..5 arguments, constant propagation over the call dispatch (invoke_stack and everything it calls that takes a built-in, its argument kind or a partial) computes which implementation, partial application or error is reached; a reachable panic arm, a differing outcome between the direct call, the call made by another built-in (InvokeArg0/1/2) and the completion of a partial application, a wrong operand order, a wrong number of popped operands or a wrong count in the error is reported. Each is compared with the declaration table and with the signatures in docs/library.md.')
    table = w.statics.get('cordy_sys::core::NATIVE_FUNCTIONS')
    if not table or not table['v']: raise Missing('static NATIVE_FUNCTIONS')
    rows = table['v']['f']
    fields = [f[0] for f in w.types[w.adts('core::NativeFunctionInfo')[0]]['v'][0][2]]
    fi = {n: i for i, n in enumerate(fields)}
    names = {}
    accept = {}
    D = {}
    dispatched = set()
    for name, (V, _, _) in nf.items():
        row = rows[V]['f'] if V < len(rows) else None
        if row is None or row[fi['native']]['vr'] != V:
            ctx.violation('table %s' % name, 'row %d of the built-in table does not describe %s' % (V, name), 'cordy-sys/src/core/mod.rs'); continue
        label = row[fi['name']]['s']
        names.setdefault((label), []).append((name, row[fi['hidden']]))
        mr = Engine(w, RouteQ(w, V)).call(mn, [('a', V, ())])[0]
        least = mr[1] if mr and mr[0] == 'i' else None
        if least is None: raise Missing('value of min_nargs for %s' % name)
        for n in range(N):
            out, npop, e = direct(w, stack, V, n)
            dispatched |= e.fn_seen
            D[name, n] = out
            ctx.count(direct_dispatches=1)
            check(ctx, name, n, out, npop, 'called directly')
            if n < least and not any(x[0] in ('partial', 'self') for x in out):
                ctx.violation('%s min_nargs' % name, 'the optimizer takes %s with %d arguments for a partial application, but calling it so does: %s' % (name, n, show(out)), mn.loc())
        acc = [n for n in range(N) if any(x[0] == 'run' for x in D[name, n]) or not D[name, n]]
        par = [n for n in range(N) if any(x[0] in ('partial', 'self') for x in D[name, n])]
        rej = [n for n in range(N) if any(x[0] == 'error' and x[1] == 'IncorrectArgumentsNativeFunction' for x in D[name, n])]
        accept[name] = (acc, par, rej)
        for n in range(N):
            if sum(n in s for s in (acc, par, rej)) > 1:
                ctx.violation('%s/%d ambiguous' % (name, n), '%s with %d arguments has outcomes of several kinds: %s' % (name, n, show(D[name, n])), stack.loc())
        sig = row[fi['args']]['s']
        declared(ctx, name, label, sig, acc, par)
    # the same name never resolves to two visible built-ins
    for label, fs in names.items():
        vis = [f for f, hidden in fs if not hidden]
        if len(vis) > 1: ctx.violation('name %s' % label, 'the name %s denotes %s' % (label, ' and '.join(vis)), 'cordy-sys/src/core/mod.rs')
    docs(ctx, names, accept)
    routes(ctx, w, nf, ty, D, pick)
    partials(ctx, w, nf, D, partial)
    ctx.floor('builtins', len(nf), 120)
    ctx.floor('documented_signatures', ctx.coverage.get('documented_signatures', 0), 80)
    ctx.floor('indirect_dispatches', ctx.coverage.get('indirect_dispatches', 0), 350)
    ctx.floor('partial_dispatches', ctx.coverage.get('partial_dispatches', 0), 150)
    ctx.coverage['dispatch_functions'] = len(dispatched)
    for nm in ('Map', 'Insert', 'Min', 'Range'):
        if nm in nf: ctx.sample({'builtin': nm, 'outcomes': {str(n): show(D[nm, n]) for n in range(4)}})


def check(ctx, name, n, out, npop, how, held=0):
    for x in out:
        if x[0] == 'panic':
            ctx.violation('%s/%d %s panic' % (name, n, how), 'built-in %s, %s with %d arguments, has no implementation: a panic in %s is reachable' % (name, how, n, x[1]), x[1])
        if x[0] == 'error' and x[1] == 'IncorrectArgumentsNativeFunction' and x[2] and x[2][-1] != str(n):
            ctx.violation('%s/%d %s count' % (name, n, how), '%s, %s with %d arguments, raises an error which says %s' % (name, how, n, x[2]), 'IncorrectArgumentsNativeFunction')
        if x[0] in ('run', 'partial') and x[2]:
            seen = [a for a in x[2] if re.fullmatch(r'a\d+', a)]
            if x[0] == 'partial' and seen != sorted(seen):
                ctx.violation('%s/%d %s order' % (name, n, how), '%s, %s with %d arguments, stores them as %s' % (name, how, n, seen), str(x[1]))
    runs = [x for x in out if x[0] in ('run', 'partial')]
    if runs and npop is not None and npop != n - held:
        ctx.violation('%s/%d %s pops' % (name, n, how), '%s, %s with %d arguments, takes %d operands off the stack instead of %d' % (name, how, n, npop, n - held), 'invoke')


def declared(ctx, name, label, sig, acc, par):
    params = [p.strip() for p in sig.split(',') if p.strip()]
    if '...' in params or sig == '...':
        ok = not acc or len(acc) > 1
    else:
        hi = len(params); lo = len([p for p in params if not p.endswith('?')])
        ok = not acc or (min(acc) <= lo and hi <= max(acc) and min(acc) <= hi)
        if acc and '?' in sig: ok = ok and hi == max(acc)
    ctx.count(declared_signatures=1)
    if not ok: ctx.violation('%s declared' % name, '%s is declared as %s(%s) but accepts %s arguments' % (name, label, sig, acc), 'cordy-sys/src/core/mod.rs')
    if par and acc and max(par) >= min(acc):
        ctx.violation('%s partial' % name, '%s is partial with %s arguments though it can run with %s' % (name, par, acc), 'invoke_stack')
    if acc and sorted(acc) != list(range(min(acc), max(acc) + 1)):
        ctx.violation('%s gap' % name, '%s accepts %s arguments' % (name, acc), 'invoke_stack')


def docs(ctx, names, accept):
    text = ctx.read('docs/library.md')
    for m in re.finditer(r'^###+ .*?`(?:<[^`]*?> )?([a-z_]+)\(([^`\n]*)`\s*$', text, re.M):
        label, rest = m.group(1), m.group(2)
        depth = 1; end = len(rest)
        for i, c in enumerate(rest):
            depth += (c == '(') - (c == ')')
            if depth == 0: end = i; break
        sig = rest[:end]
        if label not in names: ctx.violation('doc %s' % label, 'docs/library.md documents %s, which is no built-in' % label, 'docs/library.md'); continue
        ctx.count(documented_signatures=1)
        depth = 0; ps = []; cur = ''
        for i, c in enumerate(sig):
            if c in '<([': depth += 1
            elif c in ')]' or (c == '>' and sig[i - 1] != '-'): depth -= 1
            if c == ',' and depth == 0: ps.append(cur); cur = ''
            else: cur += c
        if cur.strip(): ps.append(cur)
        if any('...' == p.strip() for p in ps): continue
        hi = len(ps); lo = len([p for p in ps if '=' not in p.replace('=>', '') and '?' not in p.split(':')[0]])
        f = [x for x, h in names[label] if not h]
        if not f: continue
        acc = accept[f[0]][0]
        if acc and not all(n in acc for n in range(lo, hi + 1)):
            ctx.violation('doc %s' % label, '%s is documented as %s(%s) but accepts %s arguments' % (label, label, sig, acc), 'docs/library.md')


def routes(ctx, w, nf, ty, D, pick):
    """calls made by other built-ins"""
    for k in (0, 1, 2):
        ity = 'cordy_sys::core::InvokeArg%d' % k
        frm = [x for x in w.need(name='from') if x.p == ity + '::from'] or _missing(ity + '::from')
        inv = [x for x in w.need(name='invoke') if x.p == ity + '::invoke'] or _missing(ity + '::invoke')
        inv = pick(inv)
        for name, (V, _, _) in nf.items():
            q = RouteQ(w, V); q.type_variant = ('a', ty['NativeFunction'][0], ())
            q.assume.pop('x', None)
            e = Engine(w, q)
            r, ev1 = e.call(frm[0], [A('f')])
            evs = set(ev1)
            oks = results(w, r)
            if oks is None: ctx.violation('%s/%d route' % (name, k), 'cannot determine how %s is dispatched by built-ins with %d arguments' % (name, k), frm[0].loc()); continue
            for v in oks:
                # invoke takes self by value (InvokeArg0) or by reference
                selfv = ('r', v) if w.types[inv.locals[1]]['k'] == 'ref' else v
                q2 = RouteQ(w, V); e2 = Engine(w, q2)
                r2, ev2 = e2.call(inv, [selfv] + [A('a%d' % (i + 1)) for i in range(k)] + [T])
                evs |= ev2
                if any(x[0] == 'noop' for x in ev2): pass
            out, _ = normal(w, evs)
            ctx.count(indirect_dispatches=1)
            exp = D.get((name, k))
            if exp is None: continue
            check(ctx, name, k, out, None, 'called by a built-in')
            a, b = essence(out, k), essence(exp, k)
            if a != b:
                ctx.violation('%s/%d routes differ' % (name, k), '%s called by a built-in with %d arguments: %s; called directly: %s' % (name, k, show(a - b) if a - b else 'not ' + show(b - a), show(b)), inv.loc())


def _missing(what): raise Missing(what)


def results(w, r):
    """the InvokeArg values inside an ErrorResult<InvokeArg>"""
    if r is None: return []
    rs = list(r[1]) if r[0] == 'u' else [r]
    out = []
    for x in rs:
        if x[0] != 'a': return None
        if x[1] == 0:      # Ok
            v = dict(x[2]).get(0, T)
            vs = list(v[1]) if v[0] == 'u' else [v]
            for y in vs:
                if y[0] != 'a': return None
                out.append(y)
    return out


def essence(out, k):
    """what matters for agreement: which implementation gets which operands, or which refusal"""
    res = set()
    for x in out:
        if x[0] == 'run': res.add(('run', x[1], tuple(a if re.search(r'\ba\d', a) else ('_' if not a.lstrip('-').isdigit() else a) for a in x[2])))
        elif x[0] == 'panic': res.add(('panic', '_'))
        elif x[0] == 'self': pass
        else: res.add(x)
    return frozenset(res)


def partials(ctx, w, nf, D, root):
    """completion of partial applications, from the stack and from InvokeArg1/2"""
    pa = w.variants('core::PartialArgument')
    ty = w.variants('cordy_sys::vm::Type')
    # which partials can exist for which built-in
    exist = {}
    for (name, n), out in D.items():
        for x in out:
            if x[0] == 'partial': exist.setdefault((name, x[1]), n)
    for (name, pv), held in sorted(exist.items()):
        V = nf[name][0]
        fields = tuple((i, A('a%d' % (i + 1))) for i in range(len(pa[pv][2])))
        if len(fields) != held: ctx.violation('%s %s held' % (name, pv), '%s stores %d operands as %s' % (name, held, pv), root.loc())
        pval = ('a', pa[pv][0], fields)
        for n in range(0, 4):
            q = RouteQ(w, V, {'cordy_sys::core::PartialArgument': pval})
            e = Engine(w, q); r, ev = e.call(root, [T, ('i', n), T])
            out, npop = normal(w, ev, fields)
            ctx.count(partial_dispatches=1)
            total = held + n
            check(ctx, name, total, out, npop, 'completed from %s' % pv, held)
            compare(ctx, name, total, n, out, D, 'completed from %s' % pv, root)
        for k in (1, 2):
            ity = 'cordy_sys::core::InvokeArg%d' % k
            frm = [x for x in w.need(name='from') if x.p == ity + '::from'][0]
            inv = [x for x in w.need(name='invoke') if x.p == ity + '::invoke' and x.s[:1] == root.s[:1]] or [x for x in w.need(name='invoke') if x.p == ity + '::invoke']
            inv = inv[0]
            q = RouteQ(w, V, {'cordy_sys::core::PartialArgument': pval}); q.type_variant = ('a', ty['PartialNativeFunction'][0], ())
            e = Engine(w, q); r, ev1 = e.call(frm, [A('f')])
            oks = results(w, r); evs = set(ev1)
            if oks is None: ctx.violation('%s %s/%d route' % (name, pv, k), 'cannot determine how a partial %s is dispatched' % name, frm.loc()); continue
            for v in oks:
                q2 = RouteQ(w, V, {'cordy_sys::core::PartialArgument': pval}); e2 = Engine(w, q2)
                r2, ev2 = e2.call(inv, [('r', v)] + [A('a%d' % (held + i + 1)) for i in range(k)] + [T])
                evs |= ev2
            out, _ = normal(w, evs)
            ctx.count(partial_dispatches=1)
            check(ctx, name, held + k, out, None, 'completed from %s by a built-in' % pv)
            compare(ctx, name, held + k, k, out, D, 'completed from %s by a built-in' % pv, inv)


def compare(ctx, name, total, n, out, D, how, where):
    if n == 0:
        return
    a, b = essence(out, total), essence(D[name, total], total) if (name, total) in D else None
    if b is None: return
    if a != b: ctx.violation('%s/%d %s differs' % (name, total, how), '%s %s with %d arguments in all: %s; called directly: %s' % (name, how, total, show(a) or 'nothing', show(b)), where.loc())
