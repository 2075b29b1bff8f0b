"""C01: no container is locked while program code runs, or exclusively while it may be read again."""
from guards import Guards
from mir import Missing, short

PTR = 'cordy_sys::vm::value::ptr::'


def lock_fns(w, ctx):
    """guard types and the functions that take a lock, found by structure: the ADTs whose Drop writes the lock cell of a value prefix"""
    guards = {}
    for x in w.insts:
        if x.ws and x.n == 'drop' and x.body is not None and x.trait and x.trait.endswith('ops::Drop') and x.argc == 1:
            t = w.types[w.strip_ref(x.locals[1])]
            if t['k'] == 'adt' and any(w.tstr(ft).startswith(('&std::cell::Cell<u16>', "&'")) and 'Cell<' in w.tstr(ft) for v in t['v'] for _, ft in v[2]):
                guards[t['d']] = None
    if len(guards) < 2: raise Missing('lock guard types (a shared and an exclusive one)')
    # exclusive guards are those that can be dereferenced mutably
    for d in guards:
        guards[d] = 'exclusive' if any(y.n == 'deref_mut' and y.argc == 1 and w.types[w.strip_ref(y.locals[1])].get('d') == d for y in w.insts if y.ws and y.body is not None) else 'shared'
    if set(guards.values()) != {'exclusive', 'shared'}: raise Missing('one shared and one exclusive lock guard')
    return guards


def run(ctx):
    w = ctx.world()
    ctx.rule('Forward dataflow finds, for every call in the program, which lock guards (the types whose Drop releases the lock of a value) may still be held. Reported: such a call from which the interpreter loop is reachable in the resolved call graph; a call made under an exclusive lock from which a panicking lock of the same kind of container is reachable; and a call made under a shared lock from which an exclusive lock of the same kind is reachable. Not counted: equality of keys inside the hash table that is being changed (only keys of equal hash are compared, and hashing refuses a locked container), and exclusive locks on values just created or taken from an internal table of copies.')
    kinds = lock_fns(w, ctx)
    g = Guards(w, lambda ty: kinds.get(ty['d']))
    # functions that lock and panic if they cannot: they return a guard itself
    locks = {}
    for x in w.insts:
        if not x.ws or x.body is None: continue
        t = w.types[x.locals[0]]
        if t['k'] == 'adt' and t['d'] in kinds and x.argc == 1 and x.s:
            locks[x.i] = (kinds[t['d']], w.tstr(t['a'][-1]))
    ctx.count(lock_functions=len(locks))
    if not locks: raise Missing('functions that lock a value')
    loop = [x for x in w.insts if x.ws and x.body is not None and w.types[w.strip_ref(x.locals[1]) if x.argc else 0].get('d', '').endswith('vm::VirtualMachine') and interprets(w, x)]
    if not loop: raise Missing('interpreter loop')
    vm = w.reaching(loop)
    # call graph for locks, without key equality inside hash tables and without exclusive locks of fresh values
    fresh = fresh_sites(w, locks)
    rev = {}
    for x in w.insts:
        if x.body is None: continue
        if x.n == 'equivalent' and x.trait and x.trait.endswith('Equivalent'): continue
        if x.ws is False and x.n == 'eq' and x.p.startswith('hashbrown'): continue
        cs = set(w.callees(x))
        cs -= fresh.get(x.i, set())
        for c in cs: rev.setdefault(c, set()).add(x.i)
    reach = {}
    for i, k in locks.items():
        s = reach.setdefault(k, set()); st = [i]
        while st:
            j = st.pop()
            if j in s: continue
            s.add(j); st += rev.get(j, ())
    nfn = ncall = 0
    for x in w.insts:
        if x.body is None or x.i in locks: continue
        if x.self_ty and any(d in x.self_ty for d in kinds): continue
        rs = g.analyse(x)
        if any(g.of(t) for t in x.locals): nfn += 1
        for held, y, line in rs:
            ncall += 1
            for kind, T in sorted(held):
                if y.i in vm:
                    p = w.path_to([y], loop)
                    ctx.violation('callback %s %s' % (short(x.p), T.split('::')[-1]), '%s calls %s, which can run program code, while it holds a %s lock on a %s (path: %s)' % (short(x.p), short(y.p), kind, T, ' > '.join(short(z.p) for z in (p or [y])[:8])), x.loc(line))
                std = lambda k: next((short(z.p) for z in (w.path_to([y], [w.insts[i] for i, q in locks.items() if q == k]) or []) if not z.ws), short(y.p))
                if kind == 'exclusive' and y.i in reach.get(('shared', T), ()):
                    ctx.violation('relock %s in %s' % (T.split('::')[-1], std(('shared', T))), '%s calls %s, which can lock a %s, while it holds an exclusive lock on a %s: the interpreter aborts when they are the same' % (short(x.p), short(y.p), T, T), x.loc(line))
                if y.i in reach.get(('exclusive', T), ()):
                    ctx.violation('relock exclusively %s in %s' % (T.split('::')[-1], std(('exclusive', T))), '%s calls %s, which can lock a %s exclusively, while it holds a %s lock on a %s: the interpreter aborts when they are the same' % (short(x.p), short(y.p), T, kind, T), x.loc(line))
        if x.n == 'forget' and x.s and g.of(x.s[0]): ctx.violation('forget %s' % short(x.p), 'a lock guard is leaked: the container stays locked', x.loc())
    ctx.floor('functions_holding_locks', nfn, 40)
    ctx.floor('calls_under_lock', ncall, 60)
    ctx.count(functions_reaching_program_code=len(vm))


def interprets(w, x):
    """the loop: a function with a switch over the instruction enum with most of its variants"""
    for b in x.blocks:
        for s in b['s']:
            if s[0] == '=' and s[2][0] == 'discr':
                t = w.place_ty(x, s[2][1])
                if t is not None and w.types[t].get('d', '').endswith('::Opcode'):
                    sw = b['t']
                    if sw[0] == 'switch' and len(sw[2]) > 30: return True
    return False


def fresh_sites(w, locks):
    """per function: exclusive lock instances only applied to values created here or taken from a HashMap (tables of the implementation, never containers of the program)"""
    out = {}
    excl = {i for i, (k, _) in locks.items() if k == 'exclusive'}
    for x in w.insts:
        if not x.ws or x.body is None: continue
        sites = {}
        for b in x.blocks:
            t = b['t']
            if t[0] != 'call': continue
            for y in w.callee(t[1]):
                if y.i in excl: sites.setdefault(y.i, []).append(t)
        for i, ts in sites.items():
            if all(is_fresh(w, x, t[2][0]) for t in ts): out.setdefault(x.i, set()).add(i)
    return out


def is_fresh(w, x, o, depth=0):
    if o[0] == 'k' or depth > 12: return False
    l = o[1][0]
    defs = []
    for b in x.blocks:
        for s in b['s']:
            if s[0] == '=' and s[1] == [l]: defs.append(('s', s[2]))
        t = b['t']
        if t[0] == 'call' and t[3] == [l]: defs.append(('c', t))
    if not defs: return False
    for k, d in defs:
        if k == 's':
            if d[0] == 'use' and d[1][0] != 'k': ok = is_fresh(w, x, d[1], depth + 1)
            elif d[0] == 'ref': ok = is_fresh(w, x, ['c', d[2]], depth + 1)
            elif d[0] == 'cast': ok = is_fresh(w, x, d[2], depth + 1)
            else: ok = False
        else:
            ys = w.callee(d[1])
            if not ys: return False
            y = ys[0]
            if y.n in ('get_mut', 'insert', 'or_insert', 'or_insert_with') and 'std::collections::' in y.p: ok = True
            elif y.n in ('to_value', 'list', 'new') and y.ws and w.tstr(y.locals[0]).endswith('ValuePtr') if y.body else False: ok = True
            elif d[2]: ok = is_fresh(w, x, d[2][0], depth + 1)
            else: ok = False
        if not ok: return False
    return True
