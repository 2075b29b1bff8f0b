"""C15: what a program stores once is immutable, and what it builds each time is newly made."""
import collections
from mir import Missing, short
from guards import operands
from origins import *

CELLS = ('UnsafeCell', 'Rc', 'Arc', 'Cell', 'RefCell')


def mutable(w):
    """representations that can change: {type id: why}"""
    muts = set()
    for x in w.insts:
        if x.body is None or x.n not in ('borrow_mut', 'try_borrow_mut') or not x.argc: continue
        t = w.types[w.strip_ref(x.locals[1])]
        if t['k'] == 'adt' and t['d'].endswith('ptr::Prefix'): muts.add(t['a'][0])
    c = {}
    def why(t):
        if t in c: return c[t]
        n = w.tstr(t).split('::')[-1]
        if t in muts: r = 'some code changes a %s in place' % n
        elif w.ty_contains(t, lambda ty: ty['d'] == VAL): r = 'a %s holds other values' % n
        elif w.ty_contains(t, lambda ty: ty['d'].split('::')[-1] in CELLS and ty['d'].startswith(('std', 'core', 'alloc'))): r = 'a %s has parts that can change while it is shared' % n
        else: r = None
        c[t] = r; return r
    return why, muts


def run(ctx):
    w = ctx.world()
    try: analyse(ctx, w)
    except Missing as e: ctx.violation('anchor %s' % e, 'the construct the rule is anchored on is not there: %s' % e, 'cordy-sys/src')


def analyse(ctx, w):
    ctx.rule('every value put in the table of constants is traced to where it is made, across calls: it is a value without representation or a newly made representation which holds no other values, has no interior mutability and is borrowed mutably nowhere')
    ctx.rule('the instructions that build a list, vector, set or dict and a closure, and the creation of an instance of a struct, give a representation made on the spot; a literal under construction is taken off its stack, and cannot be copied')
    ctx.rule('there is no static or thread local variable that holds values, and the interpreter holds values only as constants, globals, stack, literals under construction, captured variables and the arguments of the program')
    P = Prod(w); why, muts = mutable(w)
    vec = [t for t in range(len(w.types)) if w.types[t]['k'] == 'adt' and w.types[t]['d'].endswith('vec::Vec') and w.types[t]['a'][0] in P.val]
    sl = [t for t in range(len(w.types)) if w.types[t]['k'] == 'slice' and w.types[t]['e'] in P.val]
    tab = set(vec) | set(sl)
    # -- what goes into the constants
    n = 0; kinds = set()
    for x in w.insts:
        if x.body is None or not x.ws or '/compiler/' not in x.file: continue
        given = []
        def slot(p): return len(p) > 1 and p[1] == '*' and w.types[x.locals[p[0]]]['s'].startswith('&mut') and (w.strip_ref(x.locals[p[0]]) in tab if len(p) > 2 else w.strip_ref(x.locals[p[0]]) in P.val) and w.place_ty(x, p) in P.val
        for bi, b in enumerate(x.blocks):
            if b.get('c'): continue
            t = b['t']
            if t[0] == 'call' and t[2]:
                ys = w.callee(t[1])
                if all(y.ws for y in ys): continue
                a = t[2][0]
                ft = x.locals[a[1][0]] if a[0] != 'k' else None
                if ft is None or w.types[ft]['k'] != 'ref' or not w.types[ft]['s'].startswith('&mut') or w.strip_ref(ft) not in tab: continue
                for o in t[2][1:]:
                    if o[0] != 'k' and P.carries(x.locals[o[1][0]]): given.append(o)
            for s in b['s']:
                # a slot of the table assigned
                if s[0] == '=' and slot(s[1]):
                    given += [o for o in operands(s[2])]
        for bi, b in enumerate(x.blocks):
            t = b['t']
            if t[0] == 'call' and not b.get('c') and slot(t[3]):
                for k in {(k, v) for _, k, v in P.resolve(x, P.ret(x, t, set()))}: n += 1; kinds.add(k); judge(ctx, w, x, k, why)
        for o in given:
            for k in P.all(x, o): n += 1; kinds.add(k); judge(ctx, w, x, k, why)
    ctx.count(constants=n)
    ctx.floor('kinds of constants', len(kinds), 5)
    # -- what is built
    lit = w.adts('value::Literal')
    if not lit: raise Missing('Literal')
    cl = [x for x in w.insts if x.n == 'clone' and x.body is not None and x.argc == 1 and w.strip_ref(x.locals[1]) in lit]
    for x in cl: ctx.violation('literal copied', 'a literal under construction can be copied, with everything in it', x.loc())
    built = {'Literal': [x for x in w.insts if x.body is not None and x.n == 'to_value' and x.argc == 1 and x.locals[1] in lit],
             'closure': [x for x in w.insts if x.body is not None and x.ws and x.p.endswith('::to_closure')],
             'instance': [x for x in w.insts if x.body is not None and x.ws and x.n == 'instance' and x.locals[0] in P.val],
             'partial': [x for x in w.insts if x.body is not None and x.ws and x.n == 'to_partial']}
    for what, xs in built.items():
        if not xs: raise Missing('the function that makes a ' + what)
        for x in xs:
            for k, v in P.summary(x):
                ctx.count(built=1)
                if k == 'alloc': continue
                ctx.violation('built %s %s' % (what, k), '%s gives a value that it has not newly made (%s %s)' % (short(x.p), {'imm': 'a fixed value', 'read': 'kept in', '?': 'from', 'param': 'its argument'}[k], v), x.loc())
    # a literal is taken where it is turned into a value
    for x in built['Literal']:
        for c, t in P.rev[x.i]:
            if not c.ws: continue
            d = P.defs(c); ok = False; ctx.count(literals=1)
            for l in d.back(t[2][0]):
                for k, s, bi in d.d.get(l, ()):
                    if k == 'c' and any(y.n in ('pop', 'new', 'remove', 'swap_remove', 'take', 'replace') for y in w.callee(s[1])): ok = True
            if not ok: ctx.violation('literal kept', '%s turns a literal into a value without taking it off the stack of literals' % short(c.p), c.loc())
    # -- nothing else remembers values
    for name, s in sorted(w.statics.items()):
        ctx.count(statics=1)
        if 't' in s and w.ty_contains(s['t'], lambda ty: ty['d'] == VAL): ctx.violation('static %s' % name, 'the static variable %s holds values which outlive an evaluation' % name, s.get('f', name))
    for x in w.insts:
        if x.body is None: continue
        for l in x.locals:
            s = w.types[l]['s']
            if 'LocalKey<' in s and x.ws and w.ty_contains(w.strip_ref(l), lambda ty: ty['d'] == VAL):
                ctx.violation('thread local %s' % short(x.p), '%s uses a thread local variable which holds values' % short(x.p), x.loc())
    vms = w.adts('vm::VirtualMachine')
    if not vms: raise Missing('VirtualMachine')
    ok = ('Vec<value::ptr::ValuePtr>', 'Vec<vm::value::ptr::ValuePtr>')
    for f, ft in w.types[vms[0]]['v'][0][2]:
        if not w.ty_contains(ft, lambda ty: ty['d'] == VAL): continue
        ctx.count(holders=1)
        ctx.sample('VirtualMachine.%s: %s' % (f, w.tstr(ft)))
        if f not in ('constants', 'stack', 'literal_stack', 'open_upvalues', 'globals', 'args'):
            ctx.violation('holder %s' % f, 'the interpreter keeps values in %s, which outlive the evaluation that made them' % f, 'cordy-sys/src/vm/mod.rs')


def judge(ctx, w, x, k, why):
    kind, v = k
    if kind == 'imm': return
    if kind == 'alloc':
        r = why(v)
        ctx.sample('%s <- %s' % (short(x.p), w.tstr(v)))
        if r: ctx.violation('constant %s' % w.tstr(v).split('::')[-1], '%s puts a %s in the table of constants, to be shared by all evaluations, but %s' % (short(x.p), w.tstr(v).split('::')[-1], r), x.loc())
        return
    ctx.violation('constant %s %s' % (kind, v), '%s puts a value in the table of constants which may be of any kind (%s %s)' % (short(x.p), {'read': 'read from', '?': 'from'}[kind], v), x.loc())
