"""C30: only assignments and the built-ins that are documented to modify a collection change one, and only that one."""
import collections
from dispatch import *
from mir import Missing, short
from origins import Prod, VAL
from rules.c25 import of_vm
from rules.c03 import RouteQ, reachable

# what the language reference says modifies its (last) argument, and which kinds of collection
MODIFIERS = {
    'Pop': {'List', 'Set', 'Dict', 'Heap'}, 'PopFront': {'List'}, 'Push': {'List', 'Set', 'Heap'}, 'PushFront': {'List'},
    'Insert': {'List', 'Dict'}, 'Remove': {'List', 'Set', 'Dict'}, 'Clear': {'List', 'Vector', 'Set', 'Dict', 'Heap'},
    'Union': {'Set'}, 'Intersect': {'Set'}, 'Difference': {'Set'}, 'Default': {'Dict'},
}
FRESH = {'GroupBy': {'Vector'}}     # the groups it is making
INSTRUCTIONS = {
    'StoreArray': {'List', 'Vector', 'Dict'}, 'SetField': {'StructImpl'},
    'OpIndex': {'Dict', 'List', 'Vector'}, 'OpIndexPeek': {'Dict', 'List', 'Vector'},   # a missing key is filled in by the default function; sequences are borrowed as if to be changed
    'ExecPattern': {'Dict', 'List', 'Vector'},                                      # stores to elements
    'GetField': {'StructImpl'}, 'GetFieldPeek': {'StructImpl'},                     # borrowed as if to be changed, but only read
    'SwapField': {'StructImpl'}, 'Call': {'StructImpl', 'Dict'},
}
SAME = {'Int': 'a default', 'Copy': 'a value that cannot be changed'}
KEEPS = {'Min', 'Max', 'NotIn', 'In'}     # give one of the operands (or a bool)
COLL = ('List', 'Vector', 'Set', 'Dict', 'Heap', 'StructImpl')
CALLS = ('invoke', 'invoke_arg1', 'invoke_arg2', 'invoke_arg3', 'invoke_var', 'invoke_stack', 'invoke_partial', 'invoke_func', 'invoke_func0', 'invoke_func1', 'invoke_func2', 'invoke_eval', 'run', 'run_frame', 'spin')


class EffQ(RouteQ):
    def __init__(self, w, V):
        super().__init__(w, V); self.leaves = {}; self.pops = set()
    def model(self, eng, x, args, fr):
        if x.n == 'pop' and x.trait and x.trait.endswith('VirtualInterface'): self.pops.add((fr.inst, self.cur_bi))
        return super().model(eng, x, args, fr)
    def last(self):
        """the symbols of the values popped first, which are the last arguments"""
        out = set()
        for x, b in self.pops:
            if not any(y is x and c != b and b in reachable(x, c) for y, c in self.pops): out.add('pop%d_%d' % (x.i, b))
        return out
    def on_call(self, eng, fr, bi, t, targets, args):
        super().on_call(eng, fr, bi, t, targets, args)
        for x in targets:
            if not self.descend(eng, x, args): self.leaves.setdefault(x.i, set()).add(tuple(rep(a) for a in args))


class OpQ(Query):
    """the calls made by one instruction"""
    def __init__(self, w, oc, v, vm):
        super().__init__(); self.w = w; self.oc = set(oc); self.v = v; self.vm = vm; self.leaves = set(); self.sites = set()
    def assume_ty(self, eng, t): return ('a', self.v, ()) if t in self.oc else None
    def descend(self, eng, x, args): return False
    def on_call(self, eng, fr, bi, t, targets, args):
        self.sites.add(bi)
        for x in targets: self.leaves.add(x.i)


class Ident(Prod):
    """which parameters a function may give back as they are (not parts of them)"""
    def same(self, t):
        ty = self.w.types[self.w.strip_ref(t)]
        if ty['k'] != 'adt': return False
        if ty['d'] == VAL or ty['d'].endswith(('::ValueResult', 'ErrorPtr')): return True
        return ty['d'].endswith(('option::Option', 'result::Result', 'ops::ControlFlow', 'convert::Infallible')) and any(self.same(a) for a in ty['a'])
    def local(self, x, l, seen):
        if not self.same(x.locals[l]): return {('part', '')} if self.carries(x.locals[l]) else set()
        return super().local(x, l, seen)
    def given_back(self, x):
        return {v for k, v in self.summary(x) if k == 'param'} if x.ws and x.body is not None and self.same(x.locals[0]) else set()


class Kinded(Ident):
    """the same, restricted to what is executed for operands of one kind"""
    def __init__(self, base, vis): self.__dict__.update(base.__dict__); self.m = {}; self.vis = vis; self.known = {i for i, b in vis}
    def live(self, x, bi): return x.i not in self.known or (x.i, bi) in self.vis


class ResultQ(Query):
    """what is executed by an operator for an operand of one kind"""
    def __init__(self, w, kinds): super().__init__(); self.w = w; self.kinds = kinds; self.vis = set()
    def on_call(self, eng, fr, bi, t, targets, args): self.vis.add((fr.inst.i, bi))
    def on_stmt(self, eng, fr, bi, s, v, st): self.vis.add((fr.inst.i, bi))
    def model(self, eng, x, args, fr):
        if x.n == 'ty' and x.body is not None and args:
            a = args[0]
            while a[0] == 'r': a = a[1]
            return ('a', self.kinds[a[2]], ()) if is_sym(a) and a[2] in self.kinds else None
        if x.n == 'clone' and args: return args[0][1] if args[0][0] == 'r' else args[0]
        if is_panic(x): return ('never',)
        return None
    def descend(self, eng, x, args): return x.ws and x.body is not None and x.n not in ('ty',) and any(is_sym(a) or a[0] == 'r' and is_sym(a[1]) for a in args) and '{' not in x.p and x.locals and self.w.types[self.w.strip_ref(x.locals[0])].get('d', '').endswith(('ValuePtr', 'ValueResult'))


class Effects:
    def __init__(self, w):
        self.w = w; self.P = Prod(w); self.mut = {}; self.sites = collections.defaultdict(list)
        for x in w.insts:
            if x.body is None or not x.argc: continue
            if x.n in ('borrow_mut', 'try_borrow_mut') or x.n in ('as_ptr', 'value') and False:
                t = w.types[w.strip_ref(x.locals[1])]
                if t['k'] == 'adt' and t['d'].endswith('ptr::Prefix'):
                    n = w.tstr(t['a'][0]).split('::')[-1]
                    if n in COLL: self.mut[x.i] = n
        for x in w.insts:
            if x.body is None or x.n in ('borrow_mut', 'try_borrow_mut'): continue
            for bi, b in enumerate(x.blocks):
                t = b['t']
                if t[0] == 'call' and not b.get('c'):
                    for y in w.callee(t[1]):
                        if y.i in self.mut: self.sites[x.i].append((t, self.mut[y.i]))
        cs = [x for x in w.insts if x.ws and x.body is not None and x.p == 'cordy_sys::core::collections::copy' or x.ws and x.n == 'copy' and '::core::' in x.p and x.body is not None]
        self.copy = {x.i for x in cs}
        if not self.mut or not self.sites: raise Missing('mutable borrows of collections')

    def stop(self, x):
        return x.i in self.copy or bool(x.trait and x.trait.endswith('VirtualInterface')) or \
               x.n in CALLS and x.p.startswith(('cordy_sys::core', 'cordy_sys::vm::VirtualMachine', '<cordy_sys::vm::VirtualMachine'))

    def inside(self, start):
        """functions run by the given ones, apart from what is called on behalf of the program"""
        return self.w.reach([self.w.insts[i] for i in start], stop=self.stop)

    def of(self, leaves):
        """[(site function, kind, {(leaf, param) | description})]"""
        out = []
        seen = {i for i in self.inside(leaves) if not self.stop(self.w.insts[i])}
        for i in seen & set(self.sites):
            x = self.w.insts[i]
            for t, k in self.sites[i]:
                r = self.P.resolve(x, self.P.of(x, t[2][0]), stop=lambda y: y.i in leaves)
                src = set()
                for j, kind, v in r:
                    if kind == 'imm': continue
                    if kind == 'param' and j in leaves: src.add((j, v))
                    elif kind == 'param' or j not in seen and kind != 'param': continue
                    elif kind == 'alloc': src.add((None, 'new'))
                    else: src.add((None, '%s %s' % (kind, v)))
                out.append((x, k, src))
        return out


def run(ctx):
    w = ctx.world()
    try: analyse(ctx, w)
    except Missing as e: ctx.violation('anchor %s' % e, 'the construct the rule is anchored on is not there: %s' % e, 'cordy-sys/src')


def analyse(ctx, w):
    ctx.rule('for every built-in, everything it runs (apart from functions of the program) is searched for places where a list, vector, set, dict, heap or struct is borrowed for change; only the built-ins documented as modifying one have any, for the documented kinds')
    ctx.rule('the collection borrowed for change is traced back to the arguments: it is the last argument of the built-in and no other')
    ctx.rule('of the instructions, only those that assign an element or a field, and look-ups that may fill in a default, reach such a place; operators, conversions, comparisons and literals do not')
    E = Effects(w); I = Ident(w)
    nf = w.variants('core::NativeFunction')
    stack = [x for x in w.need(name='invoke_stack') if x.argc == 3][0]
    seen_mod = set()
    for name, (V, _, _) in sorted(nf.items()):
        may = MODIFIERS.get(name, set()) | FRESH.get(name, set())
        leaves = {}; last = {}; got = {}
        for n in range(5):
            q = EffQ(w, V); Engine(w, q).call(stack, [('a', V, ()), ('i', n), T])
            for i, a in q.leaves.items(): leaves.setdefault(i, set()).update((n, z) for z in a)
            last[n] = q.last(); got[n] = (q.leaves, last[n])
        ctx.count(builtins=1)
        for n, (lv, pops) in got.items():
            for i, al in lv.items():
                if w.insts[i].p.startswith('cordy_sys::vm::operator'): continue      # judged per kind of operand below
                back = I.given_back(w.insts[i])
                for a in al:
                    if not any('pop' in z for z in a): continue
                    ctx.count(results=1)
                    for v in back:
                        if name not in MODIFIERS and name not in SAME: ctx.violation('%s/%d gives argument' % (name, n), 'the built-in %s with %d arguments can give back one of its arguments itself, in %s, where a new value is expected' % (name, n, short(w.insts[i].p)), w.insts[i].loc())
                        elif name in MODIFIERS and a[v - 1] not in pops: ctx.violation('%s/%d gives other argument' % (name, n), 'the built-in %s with %d arguments gives back an argument that is not the collection it changes' % (name, n), w.insts[i].loc())
        for x, k, src in E.of(leaves):
            ctx.count(effects=1)
            if k not in may:
                ctx.violation('%s changes %s' % (name, k), 'the built-in %s can change a %s it was given, in %s, though it is not documented to modify anything of that kind' % (name, k, short(x.p)), x.loc()); continue
            seen_mod.add((name, k))
            if name in FRESH: continue
            for l, v in src:
                if l is None:
                    if v != 'new': ctx.violation('%s changes other %s' % (name, k), 'the built-in %s changes a %s that is not its argument (%s), in %s' % (name, k, v, short(x.p)), x.loc())
                    continue
                for n, args in leaves[l]:
                    if n == 0: continue
                    r = args[v - 1] if v - 1 < len(args) else '?'
                    ctx.count(arguments=1)
                    if r not in last[n]: ctx.violation('%s/%d changes %s of another argument' % (name, n, k), 'the built-in %s with %d arguments changes a %s in its argument %s rather than in the last one' % (name, n, k, r), x.loc())
            if not any(l is not None for l, v in src): ctx.violation('%s changes no argument' % name, 'the %s changed by %s in %s is not its argument' % (k, name, short(x.p)), x.loc())
    ctx.floor('builtins', ctx.coverage.get('builtins', 0), 120)
    ctx.floor('modifier and kind', len(seen_mod), 18)
    # -- the instructions
    slices = set()
    run_ = of_vm(w, 'run'); oc = w.adts('vm::opcode::Opcode') or w.adts('Opcode')
    for i, (n, _, _) in enumerate(w.types[oc[0]]['v']):
        q = OpQ(w, oc, i, None); Engine(w, q).call(run_, [T] * run_.argc)
        ctx.count(instructions=1)
        if n in ('OpSlice', 'OpSliceWithStep'): slices |= {j for j in q.leaves if I.same(w.insts[j].locals[0]) if w.insts[j].ws and w.insts[j].body is not None and w.insts[j].p.startswith('cordy_sys::core')}
        may = INSTRUCTIONS.get(n, set())
        leaves = {j for j in q.leaves if not E.stop(w.insts[j])}
        hit = {(x, k) for x, k, src in E.of({j: set() for j in leaves})}
        hit |= {(run_, k) for t, k in E.sites.get(run_.i, ()) if any(run_.blocks[b]['t'] is t for b in q.sites)}
        for x, k in sorted(hit, key=lambda z: (z[0].p, z[1])):
            ctx.count(effects=1)
            if k not in may: ctx.violation('instruction %s changes %s' % (n, k), 'the instruction %s can change a %s, in %s' % (n, k, short(x.p)), x.loc())
    ctx.floor('instructions', ctx.coverage.get('instructions', 0), 50)
    operators(ctx, w)
    slicing(ctx, w, slices, I, E.copy)
    ctx.sample({'modifiers': {a: sorted(k for b, k in seen_mod if b == a) for a, _ in sorted(seen_mod)}})



def operators(ctx, w):
    ctx.rule('no operator gives back an operand that is a list, vector, set, dict, heap or struct itself (other than min and max): for every operator, side and kind of collection, the result is computed by constant propagation')
    ty = w.variants('cordy_sys::vm::Type')
    kinds = [k for k in ('List', 'Vector', 'Set', 'Dict', 'Heap', 'Struct') if k in ty]
    base = Ident(w)
    for en in ('BinaryOp', 'UnaryOp'):
        ops = w.variants('vm::operator::' + en)
        ap = [x for x in w.need(name='apply') if x.self_ty and x.self_ty.endswith(en) or x.p.endswith(en + '::apply')]
        if not ap: raise Missing(en + '::apply')
        ap = ap[0]; vals = [i for i in range(1, ap.argc + 1) if w.types[w.strip_ref(ap.locals[i])].get('d') == VAL]
        for op, (V, _, _) in ops.items():
            if op in KEEPS: continue
            for i in vals:
                for k in kinds:
                    args = [T] * ap.argc; args[0] = ('a', V, ())
                    for j in vals: args[j - 1] = A('x%d' % j)
                    q = ResultQ(w, {'x%d' % i: ty[k][0]}); Engine(w, q).call(ap, args)
                    ctx.count(operators=1)
                    if not any(z == ap.i for z, _ in q.vis): raise Missing('the body of the operator ' + op)
                    if i in Kinded(base, q.vis).given_back(ap): ctx.violation('%s gives operand' % op, 'the operator %s with a %s as operand gives that %s itself rather than a new one' % (op, k, k), ap.loc())
    ctx.floor('operators', ctx.coverage.get('operators', 0), 150)



def slicing(ctx, w, fns, I, copy):
    ctx.rule('taking a slice of a list or vector, or a copy of any collection, never gives that collection itself')
    ty = w.variants('cordy_sys::vm::Type')
    xs = [w.insts[j] for j in sorted(fns)] + [x for x in w.need(name='apply') if x.p.endswith('Slice::apply')]
    if not fns: raise Missing('the function that takes a slice')
    if not copy: raise Missing('the function that copies')
    for x in xs + [w.insts[i] for i in sorted(copy)]:
        for i in range(1, x.argc + 1):
            if w.types[w.strip_ref(x.locals[i])].get('d') != VAL: continue
            for k in ('List', 'Vector') if x.i not in copy else ('List', 'Vector', 'Set', 'Dict', 'Heap', 'Struct'):
                args = [T] * x.argc
                for j in range(1, x.argc + 1):
                    if w.types[w.strip_ref(x.locals[j])].get('d') == VAL: args[j - 1] = ('r', A('x%d' % j)) if w.types[x.locals[j]]['k'] == 'ref' else A('x%d' % j)
                q = ResultQ(w, {'x%d' % i: ty[k][0]}); q.at = x; Engine(w, q).call(x, args)
                ctx.count(slices=1)
                if i in Kinded(I, q.vis).given_back(x): ctx.violation('%s gives operand' % short(x.p), '%s gives a %s itself rather than a new one' % (short(x.p), k), x.loc())
