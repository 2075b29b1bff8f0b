"""C11: every unit of code the compiler produces ends with the instruction that leaves it."""
from typestate import *
from stack import OPCODE, strip
from mir import Missing, short
from framework import *
from rules.c29 import BlockQ, BlockE, show_ops
import itertools

LEAVE = ('Exit', 'Yield', 'Return')


class EndQ(TQuery):
    """tag: (what was last done to the unit being compiled, problem)"""
    max_tags = 60
    def __init__(self, w):
        TQuery.__init__(self); self.w = w
        self.oc = set(w.adts(OPCODE)); self.block = set(w.adts('graph::Block')); self.code = set(w.adts('graph::Code')); self.locs = set(w.adts('Locals'))
        if not (self.oc and self.block and self.code and self.locs): raise Missing('code, blocks of code and the variables of functions')
        self.names = {i: n for n, (i, _, _) in w.variants(OPCODE).items()}
        self.seen = set()
        self.vecs = {i: k for k, s in (('block', self.block), ('locals', self.locs)) for i, t in enumerate(w.types) if t['k'] == 'adt' and t['d'].endswith('vec::Vec') and t['a'] and t['a'][0] in s}
        prim = [x for x in w.insts if self.role(x) in ('op', 'emit')]
        self.rel = {i for i in w.reaching(prim + [x for x in w.insts if not x.ws and x.body is not None and x.argc and self.w.strip_ref(x.locals[1]) in self.vecs and x.n in ('push', 'pop')]) if w.insts[i].ws}

        # functions that end a unit begun by their caller see what the caller did last; for all others it cannot matter
        here = lambda x, n: any(b['t'][0] == 'call' and not b.get('c') and any(not y.ws and y.n == n and y.body is not None and y.argc and self.vecs.get(w.strip_ref(y.locals[1])) == 'locals' for y in w.callee(b['t'][1])) for b in x.blocks)
        self.through = {i for i in w.reaching([x for x in prim if self.role(x) == 'emit']) if w.insts[i].ws}
        self.opens = {i for i in self.rel if w.insts[i].body is not None and here(w.insts[i], 'push')}
        self.through |= {i for i in self.rel if w.insts[i].body is not None and here(w.insts[i], 'pop') and i not in self.opens}
        # where the variables of parameters are set up no code is compiled: the ones pushed belong to no function yet
        self.bare = {i for i in self.opens if not any(y.ws and y.body is not None and y.locals[0] in self.locs for c in w.callees(w.insts[i]) for y in [w.insts[c]] if y.body is not None and y.argc > 1)}

    def role(self, x):
        w = self.w
        if not x.ws or x.body is None or not x.argc: return None
        r = w.strip_ref(x.locals[1]); ps = [x.locals[i] for i in range(2, x.argc + 1)]
        if r in self.block and w.types[x.locals[1]]['k'] == 'ref' and any(p in self.oc for p in ps):
            # appending gives the identifier of the new instruction, or takes none
            if not any(w.tstr(p) == 'usize' for p in ps): return 'op'
            return 'inside'
        if r in self.code and any('Vec<' in w.tstr(p) and w.tstr(p).endswith('Opcode>') and w.types[p]['k'] == 'ref' for p in ps): return 'emit'
        return None

    def relevant(self, eng, x): return x.i in self.rel and self.role(x) is None
    def descend(self, eng, x, args): return False
    def ret_key(self, v): return v[1] if v[0] == 'a' and v[1] is not None and not v[2] else None

    def t_call(self, eng, fr, bi, t, x, args, tag, st):
        last, bad = tag; r = self.role(x)
        if r == 'inside': return [(tag, T)]
        if r == 'op':
            k = next(i for i in range(2, x.argc + 1) if x.locals[i] in self.oc)
            v = strip(args[k - 1]); n = self.names.get(v[1]) if v[0] == 'a' else None
            return [((n if n in LEAVE else 'instruction', bad), T)]
        if r == 'emit':
            if last == 'written': return [(tag, T)]
            self.seen.add(('unit', last)); return [(('written', bad or (None if last == self.top else 'the end of the code of %s is %s, not %s' % (self.what, self.said(last), self.top))), T)]
        if not x.ws and x.body is not None and x.argc and args:
            k = self.vecs.get(self.w.strip_ref(x.locals[1]))
            if k == 'block' and x.n == 'push' and last != 'written': return [(('branch', bad), T)]
            if k == 'locals' and fr.inst.i in self.bare: return None
            if k == 'locals' and x.n == 'push': return [(('begun', bad), T)]
            if k == 'locals' and x.n == 'pop':
                self.seen.add(('function', fr.inst.p, last))
                return [(('done', bad or (None if last == 'Return' else 'the end of a function body compiled in %s is %s, not Return' % (short(fr.inst.p), self.said(last)))), T)]
        return None

    def said(self, l): return {'instruction': 'another instruction', 'branch': 'where a branch leads', 'begun': 'nothing', 'done': 'a function inside it', None: 'nothing'}.get(l, l)


class EndE(TEngine):
    def tapply(self, inst, st, x, args, fr, tag):
        if x.i in self.q.through or not self.q.relevant(self, x): return TEngine.tapply(self, inst, st, x, args, fr, tag)
        return [(((tag[0] if l == 'same' else l), tag[1] or b), v) for (l, b), v in TEngine.tapply(self, inst, st, x, args, fr, ('same', None))]


APIS = (('a program', ('compile', 'parse'), 'Exit'), ('an interactive line', ('incremental_compile',), 'Yield'), ('an evaluated text', ('eval_compile',), 'Return'))


def run(ctx):
    w = ctx.world()
    ctx.rule('The compiler is analysed from each of its entry points with what was last done to the unit being compiled as the state (an instruction appended, a block begun for a branch to reach, a function begun or ended inside). '
             'When the variables of a function are discarded the last must be Return, and when a unit is written out it must be Exit for a program, Yield for an interactive line, Return for an evaluated text: on every path, errors included.')
    q0 = EndQ(w)
    fin = [x for x in w.insts if x.ws and x.body is not None and x.argc and 'Parser<' in w.tstr(x.locals[1]) and any(q0.role(w.insts[c]) == 'emit' for c in w.callees(x))]
    if not fin: raise Missing('where the parser writes the code out')
    total = set(); nf = set()
    for what, names, end in APIS:
        tops = [x for x in w.insts if x.ws and x.body is not None and x.n in names and '::compiler' in x.p and '{closure' not in x.p and 'Parser' not in x.p]
        # the rules given to the parser: the methods of the parser called in them or in their closures, which write the code out
        rules = set()
        for x in w.insts:
            if x.ws and x.body is not None and any(x.p == y.p or x.p.startswith(y.p + '::{closure') for y in tops):
                for c in w.callees(x):
                    y = w.insts[c]
                    if y.ws and y.body is not None and y.argc == 1 and 'Parser<' in w.tstr(y.locals[1]) and c in w.reaching(fin): rules.add(c)
        if not rules: raise Missing('the rule by which the parser compiles %s' % what)
        for c in sorted(rules):
            x = w.insts[c]; q = EndQ.__new__(EndQ); q.__dict__.update(q0.__dict__); q.seen = set(); q.top = end; q.what = what
            e = EndE(w, q)
            try: s = e.solve(x, [T], (None, None))
            except TooMany as ex: ctx.violation('%s undecided' % what, 'how %s ends cannot be told: %s' % (what, ex), x.loc()); continue
            total |= e.fn_seen; nf |= {f[1] for f in q.seen if f[0] == 'function'}
            for (last, bad), _ in s:
                if bad: ctx.violation('%s: %s' % (what, bad), '%s, so execution would run on into what follows' % bad, x.loc())
                elif last != 'written': ctx.violation('%s not written' % what, 'the code of %s is not written out on a path of %s' % (what, short(x.p)), x.loc())
            ctx.count(units=1)
    ctx.count(functions=len(total))
    ctx.floor('units', ctx.coverage.get('units', 0), 3)
    ctx.floor('function bodies', len(nf), 1)
    kept(ctx, w)
    ctx.sample('function bodies end in: ' + ', '.join(sorted(short(f) for f in nf)))


def kept(ctx, w):
    """optimizing a block that ends with an instruction that leaves the unit keeps that end"""
    q0 = BlockQ(w)
    roots = [x for x in w.insts if x.ws and x.body is not None and x.i in q0.rel and x.argc == 1 and w.strip_ref(x.locals[1]) in set(w.adts('graph::Code')) and w.tstr(x.locals[0]) == '()']
    if len(roots) != 1: raise Missing('the optimizer of code')
    x = roots[0]; v = w.variants(OPCODE); names = {i: n for n, (i, _, _) in v.items()}
    def op(n, *a): return ('a', v[n][0], tuple((k, ('i', y)) for k, y in enumerate(a)))
    some = [op('Return'), op('Exit'), op('Yield'), op('Pop'), op('Nil'), op('PushLocal', 3), op('StoreLocal', 3, 0), op('StoreGlobal', 3, 0), op('StoreUpValue', 3), op('PushUpValue', 3)]
    for k in range(4):
        for first in itertools.product(some, repeat=k):
            for end in some[:3]:
                ops = first + (end,)
                q = BlockQ.__new__(BlockQ); q.__dict__.update(q0.__dict__)
                e = BlockE(w, q, max_steps=200000); e.cur_tag = (ops, None, None); e._rg = {}
                ctx.count(blocks_optimized=1)
                try: s = e.solve(x, [T], (ops, None, None))
                except TooMany as ex: ctx.violation('optimizer undecided', 'what is left of a block of %s cannot be told: %s' % (show_ops(names, ops), ex), x.loc()); return
                for (got, _, bad), _ in s:
                    if bad or got[-1:] != (end,) or got.count(end) != ops.count(end):
                        ctx.violation('optimizer %s' % names[end[1]], 'a block of %s is optimized to %s, without the instruction that leaves the unit%s' % (show_ops(names, ops), show_ops(names, got), ': ' + bad if bad else ''), x.loc()); break
