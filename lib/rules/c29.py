"""C29: what the optimizer makes of the instructions of a block does the same as they did."""
import itertools
from typestate import *
from stack import OPCODE, is_seq, seq, strip
from framework import Missing
from rules.c16 import spread


class BlockQ(TQuery):
    """tag = (instructions of the block, position of the cursor, problem)"""
    max_tags = 300
    def __init__(self, w):
        TQuery.__init__(self); self.w = w
        self.oc = w.adts(OPCODE)[0]; self.block = set(w.adts('graph::Block'))
        if not self.block: raise Missing('blocks of code')
        # cursors: structures that hold a block and a position in it
        self.cur = {}
        for i, t in enumerate(w.types):
            if t['k'] == 'adt' and t['ak'] == 'struct' and t['d'].startswith('cordy_sys'):
                fs = t['v'][0][2]
                if any(w.strip_ref(f) in self.block and w.types[f]['k'] == 'ref' for _, f in fs):
                    p = [k for k, (_, f) in enumerate(fs) if w.tstr(f) in ('isize', 'usize', 'i32', 'u32')]
                    if len(p) == 1: self.cur[i] = p[0]
        mut = [x for x in w.insts if self.role(x) in ('get', 'set', 'remove', 'insert')]
        self.rel = {i for i in w.reaching(mut) if w.insts[i].ws} | {x.i for x in w.insts if x.ws and x.body is not None and x.argc and w.strip_ref(x.locals[1]) in self.cur}

    def role(self, x):
        """methods of a block that optimizing uses, by what they take and give"""
        if not x.ws or x.body is None or not x.argc or self.w.strip_ref(x.locals[1]) not in self.block: return None
        ps = [self.w.tstr(x.locals[i]) for i in range(2, x.argc + 1)]; r = self.w.tstr(x.locals[0])
        if ps == ['usize'] and 'Option<' in r and r.endswith('Opcode>'): return 'get'
        if ps == ['usize'] and r == 'usize': return None
        if ps[:1] == ['usize'] and len(ps) == 2 and x.locals[3] == self.oc: return 'set'
        if ps == ['usize'] and (r == '()' or x.locals[0] == self.oc): return 'remove'
        if not ps and r == 'usize': return 'len'
        if not ps and r == 'bool': return 'empty'

    def relevant(self, eng, x): return x.i in self.rel
    def ret_key(self, v): return v
    def descend(self, eng, x, args): return x.body is not None and len(x.blocks) <= 12 and ('Option' in x.p or 'convert' in x.p or x.ws)

    def t_stmt(self, eng, fr, bi, s, val, st, tag):
        p = s[1]; w = self.w
        if len(p) > 1 and isinstance(p[-1], int):
            b = w.place_ty(fr.inst, p, len(p) - 1)
            if b in self.cur and p[-1] == self.cur[b]: return (tag[0], val[1], tag[2]) if val[0] == 'i' else (tag[0], None, 'the position in the block is not known')
            if b == self.oc or b in self.block: return (tag[0], tag[1], 'instructions are changed in place')
        if s[2][0] == 'agg' and isinstance(s[2][1], list) and s[2][1][0] == 'adt' and s[2][1][1] in self.cur:
            v = eng.operand(fr.inst, st, s[2][2][self.cur[s[2][1][1]]])
            return (tag[0], v[1] if v[0] == 'i' else None, tag[2] if v[0] == 'i' else 'the position in the block is not known')
        return tag

    def known(self, v, t):
        """a value all of which is known"""
        v = strip(v); ty = self.w.types[t]
        if v[0] == 'i': return v
        if v[0] != 'a' or v[1] is None or ty['k'] != 'adt' or v[1] >= len(ty['v']): return None
        f = dict(v[2]); fs = []
        for k, (_, ft) in enumerate(ty['v'][v[1]][2]):
            y = self.known(f.get(k, T), ft)
            if y is None: return None
            fs.append((k, y))
        return ('a', v[1], tuple(fs))

    def t_call(self, eng, fr, bi, t, x, args, tag, st):
        ops, cur, bad = tag
        if x.n in ('eq', 'ne') and len(args) == 2:
            a, b = (self.known(args[k], self.w.strip_ref(x.locals[k + 1])) for k in (0, 1))
            if a is not None and b is not None: return [(tag, ('i', int((a == b) == (x.n == 'eq'))))]
            return None
        if not x.ws and x.n == 'into_iter' and args and strip(args[0])[0] == 'a' and 'Range' in self.w.tstr(x.locals[0]): return [(tag, args[0])]
        if not x.ws and x.n == 'next' and args and 'Range' in self.w.tstr(self.w.strip_ref(x.locals[1])):
            v = strip(args[0]); f = dict(v[2]) if v[0] == 'a' else {}
            p = eng.operand(fr.inst, st, t[2][0])
            if f.get(0, T)[0] == 'i' and f.get(1, T)[0] == 'i' and p[0] == 'p':
                if f[0][1] >= f[1][1]: return [(tag, ('a', 0, ()))]
                eng.write(fr.inst, st, (p[1],) + p[2], ('a', v[1], ((0, ('i', f[0][1] + 1)),) + tuple((k, y) for k, y in v[2] if k)))
                return [(tag, ('a', 1, ((0, f[0]),)))]
        r = self.role(x)
        if r is None: return None
        if r == 'len': return [(tag, ('i', len(ops)))]
        if r == 'empty': return [(tag, ('i', int(not ops)))]
        i = args[1]
        if i[0] != 'i': return [((ops, cur, 'which instruction is looked at is not known'), T)]
        n = i[1]
        if n >= 1 << 63: n = -1
        if r == 'get': return [(tag, ('a', 1, ((0, ops[n]),)) if 0 <= n < len(ops) else ('a', 0, ()))]
        if not 0 <= n < len(ops): return [((ops, cur, 'an instruction outside of the block is changed'), ('never',))]
        if r == 'remove': return [((ops[:n] + ops[n + 1:], cur, bad), ops[n] if self.w.tstr(x.locals[0]) != '()' else T)]
        v = self.known(args[2], self.oc)
        if v is None: return [((ops, cur, 'what an instruction is replaced by is not known'), T)]
        return [((ops[:n] + (v,) + ops[n + 1:], cur, bad), T)]


class BlockE(TEngine):
    """the position of a cursor is in the state"""
    def split(self, inst, st):
        r = self._rg.get(inst.i)
        if r is None: r = self._rg[inst.i] = {i for i, t in enumerate(inst.locals) if self.w.types[t]['k'] == 'adt' and self.w.tstr(t).startswith('std::ops::Range<')}
        return TEngine.split(self, inst, st) + tuple((l, v) for l, v in sorted(st.items()) if l in r)
    def havoc(self, inst, st, v):
        if v[0] == 'p' and v[1] in self._rg.get(inst.i, ()): return
        super().havoc(inst, st, v)
    def read(self, inst, st, place, escaped=()):
        if len(place) > 1 and isinstance(place[-1], int):
            b = self.w.place_ty(inst, place, len(place) - 1)
            if b in self.q.cur and place[-1] == self.q.cur[b]:
                c = self.cur_tag[1]
                return ('i', c) if c is not None else T
        return super().read(inst, st, place, escaped)


class State:
    """the operand stack and variables, symbolically"""
    def __init__(self, names): self.names = names
    def run(self, ops):
        taken = 0; st = []; mem = {}; base = ('start',)
        def pop():
            nonlocal taken
            if st: return st.pop()
            taken += 1; return ('stack', base, taken)
        for o in ops:
            n = self.names[o[1]]; f = tuple(v[1] if v[0] == 'i' else v for _, v in o[2])
            if n in ('PushLocal', 'PushGlobal', 'PushUpValue'): k = (n[4:], f[0]); st.append(mem.get(k, ('var', base) + k))
            elif n in ('StoreLocal', 'StoreGlobal', 'StoreUpValue'):
                v = pop(); mem[(n[5:], f[0])] = v
                if not (len(f) > 1 and f[1]): st.append(v)
            elif n == 'Pop': pop()
            elif n == 'PopN':
                for _ in range(f[0]): pop()
            elif n == 'Dup': v = pop(); st += [v, v]
            elif n == 'Swap': a = pop(); b = pop(); st += [a, b]
            elif n in ('Nil', 'True', 'False', 'NativeFunction', 'Constant', 'GetFieldFunction'): st.append(('const', n) + f)
            else: base = ('after', o, self.freeze(base, taken, st, mem)); taken = 0; st = []; mem = {}
        return self.freeze(base, taken, st, mem)
    def freeze(self, base, taken, st, mem):
        st = list(st)
        while st and taken and st[0] == ('stack', base, taken): st.pop(0); taken -= 1     # popped and pushed again
        return (base, taken, tuple(st), tuple(sorted((k, v) for k, v in mem.items() if v != ('var', base) + k)))


def sequences(w, tier):
    v = w.variants(OPCODE)
    ty = w.types[w.adts(OPCODE)[0]]['v']
    def op(n, *f): return ('a', v[n][0], tuple((k, ('i', int(x))) for k, x in enumerate(f)))
    stores = [op('StoreLocal', 3, 0), op('StoreLocal', 3, 1), op('StoreLocal', 5, 0), op('StoreGlobal', 3, 0), op('StoreGlobal', 3, 1), op('StoreUpValue', 3)]
    loads = [op('PushLocal', 3), op('PushLocal', 5), op('PushGlobal', 3), op('PushGlobal', 5), op('PushUpValue', 3), op('PushUpValue', 5)]
    rest = [op('Pop'), op('PopN', 2), op('Nil'), op('Swap')]
    some = stores + loads + rest
    for k in range(4): yield from itertools.product(some, repeat=k)
    few = [op('StoreLocal', 3, 0), op('Pop'), op('PushLocal', 3), op('PushLocal', 5), op('Nil')]
    for k in (4, 5): yield from itertools.product(few, repeat=k)
    for k in (*range(6, 20), 40): yield (op('Pop'),) * k
    glob = [op('StoreGlobal', 3, 0), op('Pop'), op('PushGlobal', 3), op('StoreUpValue', 3), op('PushUpValue', 3)]
    for k in (4,) + ((5,) if tier == 'thorough' else ()): yield from itertools.product(glob, repeat=k)
    # every instruction next to those
    def any_op(n):
        fs = ty[v[n][0]][2]; out = [()]
        for k, (_, t) in enumerate(fs):
            s = w.tstr(t)
            out = [o + ((k, x),) for o in out for x in ([('i', 0), ('i', 1)] if s == 'bool' else [('i', 3)] if s in ('u32', 'i32', 'usize', 'i64') else [('a', 0, ())])]
        return [('a', v[n][0], o) for o in out]
    for n in v:
        for x in any_op(n):
            for y in some:
                yield from ((x, y), (y, x))
                for z in (op('Pop'), op('PushLocal', 3), op('StoreLocal', 3, 0)): yield from ((x, y, z), (y, x, z), (y, z, x))
            yield (x, x); yield (x, x, op('Pop'), op('Pop'))


def show_ops(names, ops): return ', '.join(names[o[1]] + ('(%s)' % ', '.join(str(x[1]) for _, x in o[2]) if o[2] else '') for o in ops) or 'nothing'


def run(ctx):
    w = ctx.world()
    ctx.rule('The optimization of blocks is analysed, with the instructions of a block and the position of the cursor as the state, for all sequences of up to three of the instructions on variables, stores and pops, up to five of those merged, and every instruction next to them; what results must take the same values from the operand stack, leave the same values on it and in the same variables, any other instruction seeing and producing an arbitrary state.')
    q0 = BlockQ(w)
    if not q0.cur: raise Missing('the cursor of the optimizer')
    roots = [x for x in w.insts if x.ws and x.body is not None and x.i in q0.rel and x.argc == 1 and w.strip_ref(x.locals[1]) in set(w.adts('graph::Code')) and w.tstr(x.locals[0]) == '()']
    if len(roots) != 1: raise Missing('the optimizer of code')
    x = roots[0]; names = {i: n for n, (i, _, _) in w.variants(OPCODE).items()}
    todo = list(dict.fromkeys(sequences(w, ctx.tier)))
    n = 8
    def job(part, k):
        m = State(names)
        for ops in todo[k::n]:
            q = BlockQ.__new__(BlockQ); q.__dict__.update(q0.__dict__)
            e = BlockE(w, q, max_steps=200000); e.cur_tag = (ops, None, None); e._rg = {}
            part.count(blocks=1)
            try: s = e.solve(x, [T], (ops, None, None))
            except TooMany as ex: part.violation('undecided', 'what the optimizer makes of a block of %s cannot be told: %s' % (show_ops(names, ops), ex), x.loc()); continue
            want = m.run(ops); some = False
            for (got, _, bad), _ in s:
                some |= got != ops
                if bad: part.violation('undecided %s' % bad, 'in optimizing a block of %s, %s' % (show_ops(names, ops), bad), x.loc()); continue
                if m.run(got) != want: part.violation('%s' % ' '.join(dict.fromkeys(names[o[1]] for o in ops if o not in got or got.count(o) != ops.count(o)) or ['order']), 'a block of %s is optimized to %s, which does something else' % (show_ops(names, ops), show_ops(names, got)), x.loc())
            if not s: part.violation('no result', 'optimizing a block of %s does not end' % show_ops(names, ops), x.loc())
            part.count(changed=int(some))
    spread(ctx, n, job)
    access(ctx, w, q0)
    ctx.floor('blocks', ctx.coverage.get('blocks', 0), 5000)
    ctx.floor('blocks changed', ctx.coverage.get('changed', 0), 500)


class AccessQ(TQuery):
    """calls on the vector of instructions that are given the index"""
    def __init__(self): TQuery.__init__(self); self.calls = set()
    def relevant(self, eng, x): return x.ws and x.body is not None
    def t_call(self, eng, fr, bi, t, x, args, tag, st):
        if not x.ws:
            for k, a in enumerate(args):
                if strip(a) == ('sym', 'ix'): self.calls.add((x.n, k, x.p))
        elif x.body is None: return [(tag, T)]
        return None


def access(ctx, w, q0):
    """getting, changing and removing an instruction act on the one asked for and keep the order of the others"""
    allow = {'get': ('get', 'get_mut', 'index'), 'set': ('index_mut', 'get_mut', 'get_unchecked_mut'), 'remove': ('remove',)}
    n = 0
    for x in w.insts:
        r = q0.role(x)
        if r not in allow: continue
        n += 1; q = AccessQ(); a = [T] * x.argc; a[1] = ('sym', 'ix')
        TEngine(w, q).solve(x, a, ())
        calls = {c for c in q.calls if c[0] not in ('clone', 'into', 'from', 'fmt')}
        if len(calls) != 1 or any(c[0] not in allow[r] or c[1] != 1 for c in calls):
            ctx.violation('block %s' % r, 'it cannot be told that %s acts on the instruction at the index given: %s' % (x.n, ', '.join(sorted(c[2] for c in calls)) or 'no access'), x.loc())
    ctx.floor('block methods', n, 3)
