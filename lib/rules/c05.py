"""C05: a global variable is never touched before its declaration has run."""
from mir import Missing, short
from slices import Defs, field_of, field_events
from typestate import *
from guards import operands

VM = 'vm::VirtualMachine'
OPCODE = 'cordy_sys::vm::Opcode'
G = ('sym', 'tag', 'global')


def is_parser(w, x): return x.body is not None and x.argc >= 1 and 'Parser<' in w.tstr(x.locals[1])


class VmEngine(TEngine):
    """keeps the global's index through integer casts, and the outcome of comparing it with the number of initialized globals"""
    def rvalue(self, inst, st, r, frame):
        if r[0] == 'cast' and r[1] == 'IntToInt':
            v = self.operand(inst, st, r[2])
            if v == G: return G
        if r[0] == 'bin' and r[1] in ('Lt', 'Ge', 'Gt', 'Le'):
            a = self.operand(inst, st, r[2]); b = self.operand(inst, st, r[3])
            if a == G and self.q.count(self, inst, r[3]): return {'Lt': ('sym', 'lt', 1), 'Ge': ('sym', 'lt', 0)}.get(r[1], T)
            if b == G and self.q.count(self, inst, r[2]): return {'Gt': ('sym', 'lt', 1), 'Le': ('sym', 'lt', 0)}.get(r[1], T)
        if r[0] == 'un' and r[1] == 'Not':
            v = self.operand(inst, st, r[2])
            if v[0] == 'sym' and v[1] == 'lt': return ('sym', 'lt', 1 - v[2])
        return TEngine.rvalue(self, inst, st, r, frame)

    def tterm(self, inst, st, t, bi, fr, tag):
        if t[0] == 'switch':
            v = self.operand(inst, st, t[1])
            if v[0] == 'sym' and v[1] == 'lt':
                out = []
                for val, b in list(t[2]) + [(None, t[3])]:
                    known = int(val) if val is not None else (1 - int(t[2][0][0]) if len(t[2]) == 1 else None)
                    if known is None: out.append((b, dict(st), tag))
                    else: out.append((b, dict(st), ('ok',) if known == v[2] else ('bad',)))
                return out
        return TEngine.tterm(self, inst, st, t, bi, fr, tag)


def vm_side(ctx, w):
    vms = w.adts(VM)
    if not vms: raise Missing(VM)
    names = [f[0] for f in w.types[vms[0]]['v'][0][2]]
    fty = [w.tstr(f[1]) for f in w.types[vms[0]]['v'][0][2]]
    stack = [i for i, t in enumerate(fty) if t.startswith('std::vec::Vec<') and 'ValuePtr' in t and names[i] == 'stack']
    count = [i for i, n in enumerate(names) if n == 'global_count']
    gname = [i for i, n in enumerate(names) if n == 'globals']
    if len(stack) != 1 or len(count) != 1 or len(gname) != 1: raise Missing('the stack, global_count and globals of the virtual machine')
    stack, count, gname = stack[0], count[0], gname[0]
    notdecl = w.variants('vm::RuntimeError').get('ValueErrorVariableNotDeclaredYet')
    if notdecl is None: raise Missing('ValueErrorVariableNotDeclaredYet')
    defs = {}
    def d(x):
        if x.i not in defs: defs[x.i] = Defs(w, x)
        return defs[x.i]
    def receiver(x, o): return d(x).fields(o, VM, stop=lambda t: not any(y.n in ('deref_mut', 'deref', 'as_mut', 'borrow_mut') for y in w.callee(t[1])))
    uses = []

    class Q(TQuery):
        max_tags = 200
        what = ''
        def relevant(self, eng, x): return x.ws and x.body is not None and x.argc and 'VirtualMachine<' in w.tstr(x.locals[1]) and x.n not in ('run',) and x not in invoking
        def descend(self, eng, x, args): return False
        def count(self, eng, inst, o): return o[0] != 'k' and receiver(inst, o) == {count}
        def t_call(self, eng, fr, bi, term, x, args, tag, st):
            if G in args and term[2] and not x.ws and args[0] != G:
                fs = receiver(fr.inst, term[2][0])
                if stack in fs:
                    uses.append((self.what, x.n))
                    if tag != ('ok',): ctx.violation('unchecked %s' % self.what, '%s touches the stack slot of a global (by `%s`) without having compared its index with the number of initialized globals' % (self.what, x.n), fr.inst.loc(term[6]))
                elif gname in fs and tag == ('bad',): return [(('bad', 'named'), T)]
            return None
        def t_stmt(self, eng, fr, bi, s, val, st, tag):
            t = w.place_ty(fr.inst, s[1])
            if t is not None and w.types[t].get('d') == OPCODE and s[2][0] == 'use' and s[2][1][0] != 'k' and '*' in s[2][1][1]:
                if tag and tag[0] == 'bad': ctx.violation('continues %s' % self.what, '%s goes on to the next instruction although the global has not been declared yet' % self.what, fr.inst.loc(s[3]))
                return ()
            r = s[2]
            if r[0] == 'agg' and isinstance(r[1], list) and r[1][0] == 'adt' and w.types[r[1][1]]['d'].endswith('vm::RuntimeError') and r[1][2] == notdecl[0]:
                if tag == ('bad', 'named'): return ('err',)
                if tag == ('bad',): ctx.violation('names %s' % self.what, 'the error raised by %s does not name the variable it was asked for' % self.what, fr.inst.loc(s[3]))
            return tag
    runs = [x for x in w.insts if x.ws and x.body is not None and x.n == 'run' and 'VirtualMachine' in x.p]
    stores = [x for x in w.insts if x.ws and x.body is not None and x.n == 'store' and x.argc == 3 and w.types[x.locals[2]].get('d', '').endswith('::StoreOp')]
    if not runs or not stores: raise Missing('the interpreter loop and the store of pattern assignments')
    invoking = {w.insts[i] for i in w.reaching(runs)}
    oc = w.variants(OPCODE); so = w.variants('vm::StoreOp')
    jobs = []
    for n in ('PushGlobal', 'StoreGlobal'):
        if n not in oc: raise Missing('instruction ' + n)
        for x in runs: jobs.append((x, 'instruction ' + n, {OPCODE: ('a', oc[n][0], ((0, G),))}, [T] * x.argc))
    for x in stores:
        jobs.append((x, 'StoreOp::Global', {}, [T, ('a', so['Global'][0], ((0, G),)), T]))
    nuse = 0
    for x, what, assume, args in jobs:
        q = Q(); q.assume = assume; q.what = what
        del uses[:]
        e = VmEngine(w, q)
        out = e.solve(x, args, ())
        if not uses: ctx.violation('no access %s' % what, '%s never touches the stack slot of its global' % what, x.loc())
        nuse += len(uses)
        for (tag, rv), v in out.items():
            if tag and tag[0] == 'bad': ctx.violation('no error %s' % what, '%s returns without the error although the global has not been declared yet' % what, x.loc())
        ctx.count(vm_obligations=1)
    ctx.floor('global_slot_accesses', nuse, 3)
    # the number of initialized globals
    for x in w.insts:
        if not x.ws or x.body is None or x.i not in w.reach(runs): continue
        for bi, f, k, s in field_events(w, x, VM):
            if f != count or k != 'assign': continue
            reached = set()
            if x in runs:
                for n, v in oc.items():
                    class R(Query):
                        def descend(self, eng, y, a): return False
                        def on_stmt(self, eng, fr, b, stmt, val, st):
                            if stmt is s: reached.add(n)
                    q = R(); q.assume = {OPCODE: ('a', v[0], ())}
                    Engine(w, q).call(x, [T] * x.argc)
            inc = s[2][0] == 'use' and s[2][1][0] != 'k' and any(r[0] == 'bin' and r[1].startswith('Add') and ['k', 1] == [r[3][0], r[3][1].get('v') if r[3][0] == 'k' else None] for _, r, _ in [dd for l in [s[2][1][1][0]] for dd in d(x).d.get(l, ()) if dd[0] == 's']) or (s[2][0] == 'bin' and s[2][1].startswith('Add') and s[2][3][0] == 'k' and s[2][3][1].get('v') == 1)
            ctx.count(count_updates=1)
            if reached != {'InitGlobal'} or not inc:
                ctx.violation('count in %s' % short(x.p), 'the number of initialized globals is changed by %s' % (', '.join(sorted(reached)) or short(x.p)) if inc else 'InitGlobal does not add exactly one to the number of initialized globals', x.loc(s[3] if isinstance(s[3], int) else None))
    ctx.floor('count_updates', ctx.coverage.get('count_updates', 0), 1)


class OpQ(Query):
    """emitted instructions and calls of the parser"""
    def __init__(self, w, glob=None):
        Query.__init__(self); self.w = w; self.glob = glob; self.ops = set(); self.called = set()
        self.names = {v[0]: n for n, v in w.variants(OPCODE).items()}
    def pushes(self, x): return any(self.w.types[x.locals[k]].get('d', '') == OPCODE for k in range(1, x.argc + 1))
    def model(self, eng, x, args, fr):
        if self.glob is not None and x.n == 'is_global' and x.ws: return ('i', self.glob)
        return None
    def descend(self, eng, x, args): return x.ws and x.body is not None and not self.pushes(x) and x.n not in self.stop
    stop = ()
    def on_call(self, eng, fr, bi, t, targets, args):
        for x in targets:
            if not x.ws or x.body is None: continue
            self.called.add(x.n)
            for k in range(min(x.argc, len(args))):
                if self.w.types[x.locals[k + 1]].get('d', '') == OPCODE:
                    a = args[k]
                    for alt in (a[1] if a[0] == 'u' else [a]):
                        self.ops.add((self.names[alt[1]], dict(alt[2]).get(0, T)) if alt[0] == 'a' and alt[1] is not None else ('?', T))


def compiler_side(ctx, w):
    lref = w.variants('parser::semantic::LValueReference')
    LREF = w.types[w.adts('parser::semantic::LValueReference')[0]]['d']
    refs = [v for k, v in lref.items()]
    def one(name, **kw):
        r = [x for x in w.insts if x.ws and x.body is not None and x.n == name]
        if not r: raise Missing('function ' + name)
        return r
    # 1. the instruction chosen for a resolved global
    loads = [x for x in w.insts if x.ws and is_parser(w, x) and any(w.types[x.locals[k]].get('d') == LREF for k in range(1, x.argc + 1)) and not w.tstr(x.locals[0]).startswith('&')]
    emitters = []
    for x in loads:
        k = [k for k in range(1, x.argc + 1) if w.types[x.locals[k]].get('d') == LREF][0]
        q = OpQ(w); args = [T] * x.argc; args[k - 1] = ('a', lref['Global'][0], ((0, G),))
        Engine(w, q).call(x, args)
        if not q.ops: continue
        emitters.append(x.n)
        ctx.count(compiler_obligations=1)
        bad = [(n, v) for n, v in q.ops if not (n in ('PushGlobal', 'StoreGlobal') and v == G)]
        if bad: ctx.violation('global in %s' % x.n, 'for a global variable %s emits %s' % (x.n, ', '.join(sorted(n for n, _ in bad))), x.loc())
    ctx.floor('reference_emitters', len(emitters), 2)
    so = w.variants('vm::StoreOp'); pso = w.variants('parser::semantic::ParserStoreOp')
    for x in w.insts:
        if x.ws and x.body is not None and w.types[x.locals[0]].get('d', '').endswith('ParserStoreOp') and x.argc and w.types[x.locals[1]].get('d') == LREF:
            for v, want in (('Global', ('a', pso['Bound'][0], ((0, ('a', so['Global'][0], ((0, G),))),))), ('LateBinding', None)):
                q = OpQ(w); a = [T] * x.argc; a[0] = ('a', lref[v][0], ((0, G),))
                r, _ = Engine(w, q).call(x, a)
                ctx.count(compiler_obligations=1)
                if want is not None and r != want: ctx.violation('pattern global', 'a global variable in a pattern is not stored by StoreOp::Global of its index', x.loc())
                if want is None and not (r[0] == 'a' and r[1] == pso['LateBoundGlobal'][0]): ctx.violation('pattern late', 'a late bound variable in a pattern is not marked as such', x.loc())
    # 2. late bindings turn into the checked instructions
    rt = w.variants('parser::semantic::ReferenceType'); RT = w.types[w.adts('parser::semantic::ReferenceType')[0]]['d']
    lb = w.variants('parser::semantic::LateBound')
    res = [x for x in w.insts if x.ws and is_parser(w, x) and any(w.types[x.locals[k]].get('d', '').endswith('semantic::LateBound') for k in range(1, x.argc + 1))]
    rest = [x for x in w.insts if x.ws and is_parser(w, x) and x.argc == 1 and any(s[0] == '=' and s[2][0] == 'discr' and w.types[w.place_ty(x, s[2][1])].get('d') == RT for b in x.blocks for s in b['s'])]
    if not res or not rest: raise Missing('the resolution of late bindings')
    for x in res + rest:
        for ty, want in (('Load', 'PushGlobal'), ('Store', 'StoreGlobal')):
            q = OpQ(w); q.assume = {RT: ('a', rt[ty][0], ())}
            a = [T] * x.argc
            for k in range(1, x.argc + 1):
                if w.types[x.locals[k]].get('d', '').endswith('semantic::LateBound'): a[k - 1] = ('a', lb['Local'][0], ((0, G),))
            Engine(w, q).call(x, a)
            ctx.count(compiler_obligations=1)
            if {n for n, _ in q.ops} != {want} or (x in res and any(v != G for _, v in q.ops)):
                ctx.violation('late %s in %s' % (ty, x.n), '%s resolves a late bound %s of a global by %s instead of %s' % (x.n, ty.lower(), sorted(n for n, _ in q.ops), want), x.loc())
    # 3. patterns: whatever rewrites a late bound entry rewrites it to a global store
    n = 0
    for x in w.insts:
        if not x.ws or x.body is None: continue
        if not any('&mut' in w.tstr(x.locals[k]) and w.tstr(x.locals[k]).endswith('ParserStoreOp') for k in range(1, x.argc + 1)): continue
        for b in x.blocks:
            for s in b['s']:
                if s[0] == '=' and s[2][0] == 'agg' and isinstance(s[2][1], list) and s[2][1][0] == 'adt' and w.types[s[2][1][1]]['d'].endswith('::StoreOp'):
                    n += 1
                    if s[2][1][2] != so['Global'][0]: ctx.violation('late pattern', 'a late bound variable in a pattern is resolved to StoreOp::%s' % w.types[s[2][1][1]]['v'][s[2][1][2]][0], x.loc(s[3]))
    ctx.floor('late_pattern_rewrites', n, 1)
    # 4. globals are never captured, and are referenced as globals
    r = [x for x in w.insts if x.ws and is_parser(w, x) and x.n == 'resolve_reference']
    up = [x for x in w.insts if x.ws and is_parser(w, x) and x.n == 'resolve_upvalue']
    if not r or not up or not one('is_global'): raise Missing('resolve_reference / resolve_upvalue')
    for x in r:
        q = OpQ(w, 1); q.stop = ('resolve_upvalue', 'semantic_error')
        v, _ = Engine(w, q).call(x, [T, T])
        ctx.count(compiler_obligations=1)
        if 'resolve_upvalue' in q.called: ctx.violation('captured global', 'a global variable can be captured like a local of the enclosing function, which is read without the check', x.loc())
        vs = {a[1] for a in (v[1] if v[0] == 'u' else [v]) if a[0] == 'a'} if v != T else None
        if vs is not None and (lref['Local'][0] in vs or lref['UpValue'][0] in vs): ctx.violation('global as local', 'a reference to a global variable resolves to a local', x.loc())
    ar = [x for x in w.insts if x.ws and x.body is not None and w.types[x.locals[0]].get('d') == LREF and x.argc == 1 and w.tstr(w.strip_ref(x.locals[1])).endswith('::Local')]
    if not ar: raise Missing('the reference of a local')
    for x in ar:
        v, _ = Engine(w, OpQ(w, 1)).call(x, [T])
        ctx.count(compiler_obligations=1)
        if not (v[0] == 'a' and v[1] == lref['Global'][0]): ctx.violation('as_reference', 'a global variable is referenced as something else than a global', x.loc())
    # 5. what is a global
    for x in one('is_global'):
        t = w.types[w.strip_ref(x.locals[1])]
        fi = {f[0]: i for i, f in enumerate(t['v'][0][2])}
        if 'function_depth' not in fi or 'scope_depth' not in fi: raise Missing('depths of a local')
        for fd in (0, 1):
            for sd in (0, 1):
                v, _ = Engine(w, OpQ(w)).call(x, [('r', ('a', None, tuple(sorted(((fi['function_depth'], ('i', fd)), (fi['scope_depth'], ('i', sd)))))))])
                if v != ('i', int(fd == 0 and sd == 0)): ctx.violation('is_global', 'a variable at function depth %d and scope depth %d is %sa global' % (fd, sd, '' if fd or sd else 'not '), x.loc())
    # 6. InitGlobal is emitted by the initialization of a global, and by nothing else
    oc = w.variants(OPCODE)
    inits = set()
    for x in w.insts:
        if not x.ws or x.body is None or not is_parser(w, x): continue
        for b in x.blocks:
            t = b['t']
            ops = [s[2] for s in b['s'] if s[0] == '=' and s[2][0] == 'agg' and isinstance(s[2][1], list) and s[2][1][0] == 'adt' and w.types[s[2][1][1]]['d'] == OPCODE]
            ks = [o[1] for o in t[2] if o[0] == 'k' and o[1].get('t') is not None and w.types[o[1]['t']].get('d') == OPCODE] if t[0] == 'call' else []
            ks += [s[2][1][1] for s in b['s'] if s[0] == '=' and s[2][0] == 'use' and s[2][1][0] == 'k' and s[2][1][1].get('t') is not None and w.types[s[2][1][1]['t']].get('d') == OPCODE]
            if any(o[1][2] == oc['InitGlobal'][0] for o in ops) or any((k.get('v') or {}).get('vr') == oc['InitGlobal'][0] for k in ks if isinstance(k.get('v'), dict)): inits.add(x)
    if not inits: raise Missing('the code emitting InitGlobal')
    class EQ(TQuery):
        def __init__(self, g): TQuery.__init__(self); self.g = g; self.assume = {}
        def relevant(self, eng, x): return False
        def model(self, eng, x, args, fr): return ('i', self.g) if x.n == 'is_global' and x.ws else None
        def descend(self, eng, x, args): return False
        def t_call(self, eng, fr, bi, term, x, args, tag, st):
            if x.ws and any(a[0] == 'a' and a[1] == oc['InitGlobal'][0] and x.body is not None and w.types[x.locals[k + 1]].get('d') == OPCODE for k, a in enumerate(args)): return [(tag + ('init',), T)]
            return None
    marks = [x for x in inits if x.argc == 2]
    for x in inits:
        if x not in marks: ctx.violation('InitGlobal in %s' % short(x.p), 'InitGlobal is emitted outside the initialization of a local', x.loc()); continue
        for g in (0, 1):
            out = TEngine(w, EQ(g)).solve(x, [T, T], ())
            ctx.count(compiler_obligations=1)
            for (tag, rv), v in out.items():
                if tag != ('init',) * g: ctx.violation('init %d' % g, 'initializing a %s emits InitGlobal %d times' % ('global' if g else 'local that is no global', len(tag)), x.loc())
    return marks


def declarations(ctx, w, marks):
    """declare, evaluate the initial value, initialize: in this order in every statement"""
    oc = w.variants(OPCODE)
    LVAL = w.types[w.adts('parser::semantic::LValue')[0]]['d']; lv = w.variants('parser::semantic::LValue')
    decl = [x for x in w.insts if x.ws and is_parser(w, x) and x.n == 'declare_local']
    if not decl: raise Missing('declare_local')
    runs = [x for x in w.insts if x.ws and x.body is not None and x.n == 'run' and 'VirtualMachine' in x.p]
    EXPR = w.types[w.adts('parser::expr::Expr')[0]]['d']
    # functions which switch to the code of another function
    inner = set()
    for x in w.insts:
        if x.ws and x.body is not None and any(t[0] == 'call' and any(y.n == 'push' and not y.ws and w.tstr(y.s[0]).endswith('::Locals') for y in w.callee(t[1]) if y.s) for t in (b['t'] for b in x.blocks)): inner.add(x)
    if not inner: raise Missing('the code compiling function bodies')
    stmts = [x for x in w.insts if x.ws and is_parser(w, x) and x.n == 'parse_statements']
    if not stmts: raise Missing('parse_statements')
    emits = [x for x in w.insts if x.ws and is_parser(w, x) and any(w.types[x.locals[k]].get('d') == EXPR for k in range(2, x.argc + 1)) and w.tstr(x.locals[0]) == '()']
    lvinit = {x for x in w.insts if x.ws and x.body is not None and x.argc == 2 and w.types[w.strip_ref(x.locals[1])].get('d') == LVAL and x.i in w.reaching(marks)}
    lvdecl = {x for x in w.insts if x.ws and x.body is not None and x.argc == 2 and w.types[w.strip_ref(x.locals[1])].get('d') == LVAL and x.i in w.reaching(decl)}
    if not lvinit or not lvdecl: raise Missing('declaration and initialization of patterns')
    # the targets of a declaration are names, which destructuring stores to without running program code
    targets = {x for x in w.insts if x.ws and x.body is not None and x.argc and w.tstr(w.strip_ref(x.locals[1])).split('<')[-1].rstrip('>').endswith('semantic::LValue') or x.ws and x.body is not None and x.argc and 'Vec<' in w.tstr(x.locals[1]) and 'LValue' in w.tstr(x.locals[1])} - lvinit - lvdecl
    calls = {oc[n][0] for n in oc if n.startswith('Call') and n != 'CallNative'}
    seen = {'decl': 0, 'init': 0, 'run': 0}
    reach = w.reaching(list(marks) + decl + emits, through=lambda x: x not in inner and x not in stmts)

    class Q(TQuery):
        max_tags = 200
        split_types = ('option::Option',)
        def relevant(self, eng, x): return x.ws and x.body is not None and x.i in reach and x not in inner and x not in stmts and x not in emits and x not in targets
        def descend(self, eng, x, args): return False
        def model(self, eng, x, args, fr): return T if x in stmts or x in inner or x in targets else None
        def t_call(self, eng, fr, bi, term, x, args, tag, st):
            if x in emits or (x.ws and x.body is not None and any(a[0] == 'a' and a[1] in calls and w.types[x.locals[k + 1]].get('d') == OPCODE for k, a in enumerate(args[:x.argc]))):
                seen['run'] += 1
                if tag == ('init',): ctx.violation('early init in %s' % short(fr.inst.p), 'program code is compiled to run after a global counts as declared, and before its declaration is complete', fr.inst.loc(term[6]))
                return [(tag, T)]
            if x in decl:
                seen['decl'] += 1
                if x.argc >= 3 and args[2] == ('i', 1): return [(('init',), ('a', 1, ())), (tag, ('a', 0, ()))]
                if x.argc >= 3 and args[2] == ('i', 0): return [(('decl',), ('a', 1, ())), (tag, ('a', 0, ()))]
                return [(('init',), ('a', 1, ())), (('decl',), ('a', 1, ())), (tag, ('a', 0, ()))]
            if x in lvdecl and fr.inst not in lvdecl:
                seen['decl'] += 1
                return [(('decl',), T)]
            if x in marks or (x in lvinit and fr.inst not in lvinit):
                seen['init'] += 1
                return [(('init',), T)]
            return None
        def t_goto(self, eng, fr, bi, tb, tag): return tag
    # statements: what parse_statements calls
    starts = {}
    for x in stmts:
        for bi, b in enumerate(x.blocks):
            if b['t'][0] == 'call' and not b.get('c'):
                for y in w.callee(b['t'][1]):
                    if y.ws and is_parser(w, y) and y.i in reach and y not in stmts: starts[y.i] = [T if o[0] != 'k' else ('i', int(o[1]['v'])) if isinstance(o[1].get('v'), (bool, int)) else T for o in b['t'][2]]
    for i, args in sorted(starts.items()):
        x = w.insts[i]
        out = TEngine(w, Q()).solve(x, args, ())
        ctx.count(statements=1)
        for (tag, rv), v in out.items():
            if tag == ('decl',): ctx.violation('never initialized in %s' % short(x.p), 'a variable is declared, but never counted as declared, on some path through the statement', x.loc())
    ctx.floor('statements', ctx.coverage.get('statements', 0), 5)
    for k in seen: ctx.floor('%s_sites' % k, seen[k], 2)
    # every variant of a pattern that declares variables initializes them
    def kinds(fs, target, payload):
        out = {}
        for x in fs:
            for n, v in lv.items():
                q = OpQ(w); q.stop = tuple(t.n for t in target)
                Engine(w, q).call(x, [('r', ('a', v[0], ((0, payload),) if v[2] and 'LValueReference' in w.tstr(v[2][0][1]) else ())), T])
                if any(t.n in q.called for t in target): out.setdefault(n, x)
        return out
    lref = w.variants('parser::semantic::LValueReference')
    dk = kinds(lvdecl, decl, ('a', lref['Named'][0], ())); ik = kinds(lvinit, marks, ('a', lref['Local'][0], ()))
    ctx.count(pattern_kinds=len(dk))
    for n in sorted(set(dk) - set(ik)): ctx.violation('kind %s' % n, 'variables of a %s pattern are declared but never initialized' % n, dk[n].loc())
    # declare_local(.., true) initializes on every path that declares
    class D(TQuery):
        split_types = ('option::Option',)
        def relevant(self, eng, x): return False
        def descend(self, eng, x, args): return False
        def t_call(self, eng, fr, bi, term, x, args, tag, st): return [(tag + ('init',), T)] if x in marks else None
    for x in decl:
        for init in (0, 1):
            out = TEngine(w, D()).solve(x, [T, T, ('i', init)][:x.argc], ())
            for (tag, rv), v in out.items():
                if rv != 0 and tag != ('init',) * init: ctx.violation('declare_local %d' % init, 'declare_local(init=%s) initializes the variable %d times' % (bool(init), len(tag)), x.loc())


def run(ctx):
    w = ctx.world()
    ctx.rule('Interpreter: in PushGlobal, StoreGlobal and StoreOp::Global the index of the global, followed through casts and calls, reaches the operand stack only on the edge on which it is less than global_count, and on the other edge ValueErrorVariableNotDeclaredYet naming globals[index] is returned before another instruction is fetched; global_count grows by one in InitGlobal only. Compiler: a global, whether resolved at once or late, becomes PushGlobal, StoreGlobal or StoreOp::Global and is never captured; InitGlobal is emitted exactly once per global by its initialization, and a typestate analysis of every statement requires that no program code is compiled to run between a global counting as declared and its declaration being complete.')
    vm_side(ctx, w)
    marks = compiler_side(ctx, w)
    declarations(ctx, w, marks)
