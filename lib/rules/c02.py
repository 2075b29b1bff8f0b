"""C02: a raised error is never dropped, turned into an ordinary value, or overwritten while evaluation carries on."""
from typestate import *
from mir import Missing, short
from slices import Defs

ERR = ('cordy_sys::vm::ErrorPtr', 'cordy_sys::vm::ValueResult', 'cordy_sys::vm::RuntimeError')
STD = ('std::', 'core::', 'alloc::')
SINKS = ('cordy_sys::vm::DetailRuntimeError', 'cordy_sys::vm::ExitType', 'cordy_sys::compiler::ParserErrorType', 'cordy_sys::compiler::parser::expr::ExprType', 'cordy_sys::vm::value::ptr::Prefix')
CONTROL = ('RuntimeExit', 'RuntimeYield')   # not errors: how the interpreter loop is left on purpose


class Errors:
    """which types hold a run-time error by value"""
    def __init__(self, w):
        self.w = w; self.c = {}

    def carries(self, t):
        if t in self.c: return self.c[t]
        w = self.w; seen = set(); found = [False]
        def go(t):
            if t in seen or found[0]: return
            seen.add(t); ty = w.types[t]; k = ty['k']
            if k == 'adt':
                if ty['d'] in ERR: found[0] = True; return
                if ty['d'].startswith(STD):
                    for v in ty['v']:
                        for _, ft in v[2]: go(ft)
                    if ty['d'].split('::')[-1] in ('ManuallyDrop', 'MaybeUninit', 'Box', 'Vec', 'Rc', 'Arc'):
                        for a in ty['a']: go(a)
            elif k in ('tuple', 'closure'):
                for f in ty['f']: go(f)
            elif k in ('array', 'slice'): go(ty['e'])
        go(t)
        self.c[t] = found[0]
        return found[0]

    def may(self, v, t):
        """may the abstract value v of type t hold an error"""
        if not self.carries(t): return False
        ty = self.w.types[t]
        if v[0] == 'u': return any(self.may(x, t) for x in v[1])
        if v[0] == 'a' and ty['k'] == 'adt' and ty['ak'] == 'enum' and v[1] is not None:
            f = dict(v[2])
            return any(self.may(f.get(i, T), ft) for i, (_, ft) in enumerate(ty['v'][v[1]][2]))
        if v[0] == 'a' and ty['k'] == 'tuple':
            f = dict(v[2])
            return any(self.may(f.get(i, T), ft) for i, ft in enumerate(ty['f']))
        return True

    def slot(self, t):
        """&mut Option<error>: where a callback leaves an error for its caller"""
        ty = self.w.types[t]
        if not ty['s'].startswith('&mut '): return False
        i = self.w.types[self.w.strip_ref(t)]
        return i['k'] == 'adt' and i['d'].endswith('option::Option') and self.carries(self.w.strip_ref(t)) and not i['s'].startswith('std::option::Option<std::result')


def slots(w, E, x):
    """places of x which are error slots owned by its caller"""
    out = []
    for p in range(1, x.argc + 1):
        t = x.locals[p]
        if E.slot(t): out.append((p, '*')); continue
        d = 0; s = w.types[t]
        u = w.strip_ref(t)
        if w.types[u]['k'] == 'closure':
            pre = (p,) if u == t else (p, '*')
            for i, ft in enumerate(w.types[u]['f']):
                if E.slot(ft): out.append(pre + (i, '*'))
                elif w.types[ft]['s'].startswith('&mut &mut') and E.slot(w.types[ft].get('e', w.types[ft].get('t', ft))): out.append(pre + (i, '*', '*'))
    return out


class Q(TQuery):
    """tag: does the caller's error slot certainly hold no error"""
    split_types = ('Result', 'Option', 'ControlFlow')
    def __init__(self, w, E, x, err=None):
        super().__init__()
        self.w = w; self.E = E; self.slots = slots(w, E, x); self.err = err; self.dropped = []; self.carried = []; self.ret = set()
        self.D = Defs(w, x) if self.slots else None

    def none(self, eng, st, inst, tag):
        if tag: return True
        return all(eng.read(inst, st, p)[0] == 'a' and not self.E.may(eng.read(inst, st, p), self.w.place_ty(inst, list(p))) for p in self.slots)

    def is_slot(self, fr, o):
        """the operand refers to the slot"""
        if o[0] == 'k' or not self.slots: return False
        if any(E_slot for E_slot in [self.E.slot(fr.inst.locals[o[1][0]])]): return True
        t = self.w.types[self.w.strip_ref(fr.inst.locals[o[1][0]])]
        return t['k'] == 'adt' and t['d'].endswith('option::Option') and bool(self.D.params(o))

    def t_call(self, eng, fr, bi, term, x, args, tag, st):
        if x.n in ('is_none', 'is_some') and 'Option' in x.p and term[2] and self.is_slot(fr, term[2][0]):
            yes, no = (1, 0) if x.n == 'is_none' else (0, 1)
            return [((True,), ('i', yes)), (tag, ('i', no))]
        rt = self.w.types[x.locals[0]] if x.body is not None else self.w.types[self.w.place_ty(fr.inst, term[3])]
        t = x.locals[0] if x.body is not None else self.w.place_ty(fr.inst, term[3])
        if self.slots and t is not None and self.E.carries(t) and not any(a[0] != 'k' and self.E.carries(fr.inst.locals[a[1][0]]) for a in term[2]) and not any(self.is_slot(fr, a) for a in term[2]):
            if not self.none(eng, st, fr.inst, tag): self.carried.append((bi, x, term))
        if tag and any(self.is_slot(fr, a) and self.w.tstr(fr.inst.locals[a[1][0]]).startswith('&mut') for a in term[2] if a[0] != 'k'): tag = ()
        if self.err is not None and x.n == 'as_err' and x.ws: return [(tag, ('r', ('a', self.err, ())))]
        return [(tag, T)]

    def t_stmt(self, eng, fr, bi, stmt, val, st, tag):
        if tag and len(stmt[1]) > 1 and tuple(map(tup, stmt[1])) in self.slots: return ()
        return tag

    def t_drop(self, eng, fr, bi, term, st, tag):
        t = self.w.place_ty(fr.inst, term[1])
        if t is not None and self.E.carries(t):
            v = eng.read(fr.inst, st, tuple(map(tup, term[1])))
            if self.E.may(v, t) and not (tag and tuple(map(tup, term[1])) in self.slots): self.dropped.append((bi, term, t, tuple(term[1])))
        return tag
    def model(self, eng, x, args, fr): return T


def analyse(w, E, x, err=None):
    q = Q(w, E, x, err)
    out = TEngine(w, q, max_steps=400000).solve(x, [T] * x.argc, ())
    return q, out


def run(ctx):
    w = ctx.world()
    ctx.rule('Typestate over MIR: in every function handling run-time errors by value (results, the errors themselves, options and slots of them), on every path, a value that may hold an error must be moved on: returned, handed to another function, or put into the report. Reported: an error that is dropped on some path, including inside library functions that discard it (ok, unwrap_or, ...), a library function that panics on it, an error slot overwritten while it may hold an earlier error, a callback which may still run program code or raise another error after an error was recorded, and error values unpacked into ordinary ones.')
    E = Errors(w)
    fns = [x for x in w.insts if x.body is not None and x.k == 'item' and any(E.carries(t) for t in x.locals) or x.body is not None and x.k == 'item' and x.ws and slots(w, E, x)]
    callers = {}
    for x in fns:
        for y in w.callees(x): callers.setdefault(y, set()).add(x.i)
    obligations = 0; nslots = 0; errs = w.variants('vm::RuntimeError')
    for x in fns:
        try: q, out = analyse(w, E, x)
        except TooMany as e: ctx.violation('size %s' % short(x.p), '%s is too complex to follow its errors: %s' % (short(x.p), e), x.loc()); continue
        obligations += sum(1 for b in x.blocks if b['t'][0] == 'call' and w.place_ty(x, b['t'][3]) is not None and E.carries(w.place_ty(x, b['t'][3])))
        nslots += len(q.slots)
        if q.dropped and any(y.n == 'as_err' for c in w.callees(x) for y in [w.insts[c]]): q.dropped = per_error(w, E, x, q.dropped, errs)
        for bi, term, t, place in q.dropped:
            if not x.ws:
                if '*' in place: continue          # a library adapter storing the residual of the iteration it ends
                for c in sorted(callers.get(x.i, ())):
                    y = w.insts[c]
                    if y.ws and not capacity_only(w, y, x): ctx.violation('discard %s in %s' % (x.n, short(y.p)), '%s discards the error of a fallible operation with %s' % (short(y.p), x.n), y.loc())
                continue
            if E.w.types[t]['d'].endswith('option::Option') and '*' not in place and only_errors(w, x, E, bi) : continue
            if '*' in place: ctx.violation('overwrite %s' % short(x.p), '%s records an error in a slot which may already hold an earlier one, which is lost' % short(x.p), x.loc(term[5]))
            else: ctx.violation('drop %s' % short(x.p), '%s drops a %s which may hold a raised error' % (short(x.p), w.tstr(t)), x.loc(term[5]))
        for bi, y, term in q.carried:
            ctx.violation('carry on %s' % short(x.p), '%s calls %s although an error may already have been recorded: evaluation carries on after an error' % (short(x.p), short(y.p)), x.loc(term[6]))
    # library functions that panic on an error
    for x in w.insts:
        if x.ws or x.body is None or not any(E.carries(t) for t in x.locals[:x.argc + 1]): continue
        if any(w.insts[c].n in ('unwrap_failed', 'expect_failed') for c in w.callees(x)):
            for c in sorted(callers.get(x.i, ())):
                if w.insts[c].ws and not (iterable_len(w, w.insts[c], x) and collections_have_len(ctx, w)): ctx.violation('panic %s' % short(w.insts[c].p), '%s panics when the operation raises an error (%s)' % (short(w.insts[c].p), x.n), w.insts[c].loc())
    unpack(ctx, w, E)
    ctx.floor('functions_handling_errors', len([x for x in fns if x.ws]), 200)
    ctx.floor('error_producing_calls', obligations, 500)
    ctx.floor('error_slots', nslots, 2)


def per_error(w, E, x, dropped, errs):
    """of the drops in a function that looks at the error, those that happen for real errors: one analysis per kind of error"""
    blocks = set()
    for name, (i, d, f) in errs.items():
        if name in CONTROL: continue
        q, _ = analyse(w, E, x, i)
        blocks |= {b for b, _, _, _ in q.dropped}
    return [d for d in dropped if d[0] in blocks]


def only_errors(w, x, E, bi):
    """every return reachable from the block returns another error: from there control only reaches `from_residual` results"""
    seen = set(); st = [bi]; rets = set()
    defs = {}
    while st:
        b = st.pop()
        if b in seen: continue
        seen.add(b)
        st += x.succ()[b]
    # the return place must have been assigned from an error residual before, on every path to bi
    pred = {}
    for b in range(len(x.blocks)):
        for s in x.succ()[b]: pred.setdefault(s, []).append(b)
    back = set(); st = [bi]
    while st:
        b = st.pop()
        if b in back: continue
        back.add(b)
        t = x.blocks[b]['t']
        if b != bi and t[0] == 'call' and t[3] == [0]:
            rets.add(all(y.n in ('from_residual', 'err') or y.n == 'from' for y in w.callee(t[1])))
            continue
        if any(s[0] == '=' and s[1][0] == 0 for s in x.blocks[b]['s']): rets.add(False); continue
        if b == 0: rets.add(False)
        st += pred.get(b, [])
    return rets == {True}


def capacity_only(w, y, x, depth=0):
    """the result of x in y is only used as the capacity of a new collection"""
    ok = False
    for b in y.blocks:
        t = b['t']
        if t[0] != 'call' or x.i not in {z.i for z in w.callee(t[1])}: continue
        seen = {t[3][0]}; ch = True
        while ch:
            ch = False
            for b2 in y.blocks:
                for s in b2['s']:
                    if s[0] == '=' and len(s[1]) == 1 and s[1][0] not in seen and any(l in seen for l in rlocals(s[2])): seen.add(s[1][0]); ch = True
        if 0 in seen:
            cs = [w.insts[c] for c in w.rev.get(y.i, ())] if not callable(w.rev) else [w.insts[c] for c in w.rev().get(y.i, ())]
            if depth > 3 or not cs or not all(capacity_only(w, z, y, depth + 1) for z in cs if z.body is not None): return False
            ok = True
        for b2 in y.blocks:
            t2 = b2['t']
            if t2[0] == 'call' and any(o[0] != 'k' and o[1][0] in seen for o in t2[2]):
                if not all(z.n in ('with_capacity', 'reserve', 'min', 'with_capacity_and_hasher') for z in w.callee(t2[1])): return False
                ok = True
            elif t2[0] == 'switch' and t2[1][0] != 'k' and t2[1][1][0] in seen: return False
    return ok


def iterable_len(w, y, x):
    """y unwraps (with x) only the length of the collection inside an Iterable"""
    D = Defs(w, y); ok = False
    for b in y.blocks:
        t = b['t']
        if t[0] != 'call' or x.i not in {z.i for z in w.callee(t[1])}: continue
        src = [d for l in D.back(t[2][0]) for k, d, bi in D.d.get(l, ()) if k == 'c']
        if not src or not all(z.n == 'len' and z.p.endswith('ValuePtr>::len') for d in src for z in w.callee(d[1])): return False
        if not D.fields(t[2][0], 'vm::Iterable'): return False
        ok = True
    return ok


def collections_have_len(ctx, w):
    """for every type of value put into Iterable::Collection, ValuePtr::len cannot fail"""
    it = w.variants('vm::Iterable')['Collection'][0]; n = 0
    ln = [x for x in w.fns(name='len') if x.p.endswith('ValuePtr>::len')]
    if not ln: raise Missing('ValuePtr::len')
    makers = [x for x in w.insts if x.ws and x.body is not None and not any(w.types[w.strip_ref(x.locals[p])].get('d', '').endswith(('vm::Iterable', 'vm::IterableRev')) for p in range(1, x.argc + 1))
              and any(s[0] == '=' and s[2][0] == 'agg' and s[2][1][0] == 'adt' and w.types[s[2][1][1]].get('d', '').endswith('vm::Iterable') and s[2][1][2] == it for b in x.blocks for s in b['s'])]
    for name, (i, d, f) in w.variants('vm::Type').items():
        made = []
        class TQ(Query):
            def descend(self, eng, inst, args): return inst.ws and inst.n in ('err', 'from', 'into')
            def model(self, eng, x, args, fr): return ('a', i, ()) if x.n == 'ty' and x.ws else None
            def on_stmt(self, eng, fr, bi, s, val, st):
                if s[2][0] == 'agg' and s[2][1][0] == 'adt' and w.types[s[2][1][1]].get('d', '').endswith('vm::Iterable') and s[2][1][2] == it: made.append(fr.inst)
        eng = Engine(w, TQ())
        for m in makers: eng.call(m, [T] * m.argc)
        if not made: continue
        n += 1
        v = eng.call(ln[0], [T])[0]
        if not (v is not None and v[0] == 'a' and v[1] == 0): return False
    ctx.count(collection_types=n)
    return n > 0 and bool(makers)


def rlocals(r):
    from guards import operands
    out = [o[1][0] for o in operands(r) if o[0] != 'k']
    if r[0] == 'ref': out.append(r[2][0])
    return out


def unpack(ctx, w, E):
    """functions taking the value out of an error-carrying wrapper, or building one: by the answer of is_err, the result must say the same"""
    n = 0
    for x in w.insts:
        if not x.ws or x.body is None or x.k != 'item': continue
        if not any(E.carries(t) for t in x.locals[1:x.argc + 1]): continue
        moves = False
        for b in x.blocks:
            for s in b['s']:
                if s[0] != '=': continue
                from guards import operands
                for o in operands(s[2]):
                    if o[0] == 'm' and len(o[1]) > 1 and w.types[x.locals[o[1][0]]].get('d') in ERR[:2]: moves = True
            if b['t'][0] == 'call':
                for o in b['t'][2]:
                    if o[0] == 'm' and len(o[1]) > 1 and w.types[x.locals[o[1][0]]].get('d') in ERR[:2]: moves = True
        if not moves: continue
        n += 1
        rt = x.locals[0]
        if not E.carries(rt):
            ctx.violation('unpack %s' % short(x.p), '%s turns a possible error into a %s' % (short(x.p), w.tstr(rt)), x.loc()); continue
        if w.types[rt].get('ak') == 'enum' and w.types[x.locals[1]].get('d') == ERR[1]:
            for ans in (0, 1):
                q = Q(w, E, x)
                q.model = lambda eng, y, args, fr, ans=ans: ('i', ans) if y.n == 'is_err' else ('i', 1 - ans) if y.n == 'is_ok' else T
                q.t_call = lambda eng, fr, bi, term, y, args, tag, st: [(tag, q.model(eng, y, args, fr))]
                out = TEngine(w, q).solve(x, [T] * x.argc, ())
                for (tg, rk), v in out.items():
                    says = E.may(v, rt)
                    if bool(ans) != says: ctx.violation('unpack %s' % short(x.p), '%s gives %s for a value that %s an error' % (short(x.p), w.types[rt]['v'][v[1]][0] if v[0] == 'a' and v[1] is not None else '?', 'is' if ans else 'is not'), x.loc())
    ctx.floor('unpacking_functions', n, 2)
