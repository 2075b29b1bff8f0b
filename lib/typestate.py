"""Interprocedural typestate analysis on top of the constant propagation engine.

A query gives a finite automaton state (the tag) and says how calls and statements change it; the engine
computes for every function, calling context and tag on entry the set of (tag, variant of the returned value)
on return, keeping block states apart per tag. Recursive functions are solved by chaotic iteration from bottom."""
from absint import *
from mir import succs
import absint


class TQuery(Query):
    tag0 = ()
    def relevant(self, eng, x): return False          # descend for its effect on the tag
    def t_call(self, eng, fr, bi, term, x, args, tag, st): return None   # None | [(tag, value)] outcomes
    def t_stmt(self, eng, fr, bi, stmt, val, st, tag): return tag
    def t_drop(self, eng, fr, bi, term, st, tag): return tag
    def t_goto(self, eng, fr, bi, tb, tag): return tag
    def t_const(self, eng, x, args): return None
    def t_enter(self, eng, x, args, tag): return tag
    def ret_key(self, v): return v[1] if v[0] == 'a' else None
    split_types = ()      # block states are kept apart by the variant of locals of these types (def path suffixes), and of the return place
    max_tags = 64
    eager = False         # solve a callee on its first call, rather than after its caller
    liveness = False      # forget locals that are not read any more


class TooMany(Exception): pass


class TEngine(Engine):
    def __init__(self, world, query, **kw):
        Engine.__init__(self, world, query, **kw)
        self._sp = {}; self._live = {}; self.sum = {}; self.deps = {}; self.todo = []; self.cur = None; self.cur_tag = None
        self.widened_at = set()

    def solve(self, inst, args, tag):
        key = (inst.i, tuple(clip(a) for a in args), tag)
        self.want(key)
        while self.todo: self.one(self.todo.pop())
        return self.sum[key]

    def one(self, k):
        prev = self.cur, self.cur_tag
        self.cur = k
        fr = Frame(); fr.inst = self.w.insts[k[0]]; fr.events = set(); fr.key = k; fr.args = k[1]; fr.stack = ()
        out = self.trun(fr.inst, k[1], fr, k[2])
        self.cur, self.cur_tag = prev
        old = self.sum[k]
        new = dict(old); ch = False
        for rk, v in out.items():
            if rk not in new: new[rk] = v; ch = True
            else:
                j = join(new[rk], v)
                if j != new[rk]: new[rk] = j; ch = True
        self.fn_seen.add(k[0])
        if ch:
            self.sum[k] = new
            for d in self.deps.get(k, ()):
                if d not in self.todo and d != self.cur: self.todo.append(d)

    def splits(self, inst):
        r = self._sp.get(inst.i)
        if r is None:
            r = self._sp[inst.i] = [i for i, t in enumerate(inst.locals) if self.w.types[t]['k'] == 'adt' and (self.w.types[t]['ak'] == 'enum' and i == 0 or any(self.w.types[t]['d'].endswith(d) for d in self.q.split_types))]
        return r

    def split(self, inst, st):
        return tuple(self.q.ret_key(st[l]) if l in st else None for l in self.splits(inst))

    def want(self, key):
        if key not in self.sum:
            self.sum[key] = {}
            if self.q.eager: self.one(key)
            else: self.todo.append(key)
        return self.sum[key]

    def trun(self, inst, args, fr, tag):
        st0 = {}
        for i in range(inst.argc):
            a = args[i] if i < len(args) else T
            if a == T: a = self.top(inst.locals[i + 1])
            st0[i + 1] = a
        states = {(0, tag, ()): st0}; work = [(0, tag, ())]; visits = {}; out = {}; ntags = {}
        while work:
            node = work.pop()
            bi, tag, _ = node
            self.steps += 1
            if self.steps > self.max_steps: raise TooMany('step budget exceeded in %s' % inst.p)
            visits[node] = visits.get(node, 0) + 1
            st = dict(states[node]); dead = False; self.cur_tag = tag
            for s in inst.blocks[bi]['s']:
                if s[0] == '=':
                    v = self.rvalue(inst, st, s[2], fr)
                    if v == ('bot',): dead = True; break
                    tag = self.q.t_stmt(self, fr, bi, s, v, st, tag)
                    if tag is None: dead = True; break
                    self.cur_tag = tag
                    self.write(inst, st, tuple(map(tup, s[1])), v)
                elif s[0] == 'x': st.pop(s[1], None)
                elif s[0] == 'sd': self.write(inst, st, tuple(map(tup, s[1])), ('a', s[2], ()))
            if dead: continue
            for tb, ns, ntag in self.tterm(inst, st, inst.blocks[bi]['t'], bi, fr, tag):
                if tb is None:
                    v = self.outval(inst, st, ns.get(0, T) if ns.get(0, T) != T else self.top(inst.locals[0]))
                    rk = (ntag, self.q.ret_key(v))
                    out[rk] = v if rk not in out else join(out[rk], v)
                    continue
                ntag = self.q.t_goto(self, fr, bi, tb, ntag)
                if ntag is None: continue
                if self.q.liveness:
                    lv = self.live(inst)[tb]
                    ns = {l: v for l, v in ns.items() if l in lv}
                k = (tb, ntag, self.split(inst, ns))
                if k not in states:
                    ntags.setdefault(tb, set()).add(k)
                    if len(ntags[tb]) > self.q.max_tags: raise TooMany('too many states in %s' % inst.p)
                    states[k] = ns; work.append(k)
                else:
                    old = states[k]; new = {}; changed = False
                    for l, ov in old.items():
                        if l in ns:
                            nv = ns[l]
                            if ov == nv: new[l] = ov
                            else:
                                j = join(ov, nv)
                                if visits.get(k, 0) > 6 and j != ov: j = T
                                if j != ov: changed = True
                                if j != T: new[l] = clip(j, 2 + clip.__defaults__[0])
                        else: changed = True
                    if changed:
                        states[k] = new
                        if k not in work: work.append(k)
        return out

    def live(self, inst):
        r = self._live.get(inst.i)
        if r is not None: return r
        def uses(e, out):
            if isinstance(e, (list, tuple)):
                if e and isinstance(e[0], int) and not isinstance(e[0], bool): out.add(e[0])
                for y in e: uses(y, out)
        taken = {0}; steps = []
        for b in inst.blocks:
            bs = []
            for s in b['s']:
                if s[0] == '=':
                    u = set(); uses(s[2], u); d = None
                    if len(s[1]) == 1: d = s[1][0]
                    else: uses(s[1], u)
                    if s[2][0] not in ('use', 'bin', 'un', 'cast', 'agg', 'discr', 'len'): taken |= u
                    bs.append((u, d))
                elif s[0] != 'x':
                    u = set(); uses(s[1:], u); bs.append((u, None))
            t = b['t']; u = set(); d = None
            if t[0] == 'call':
                uses(t[2], u); uses(t[1].get('ptr') if isinstance(t[1], dict) else t[1], u)
                if len(t[3]) == 1: d = t[3][0]
                else: uses(t[3], u)
            else: uses(t[1:], u)
            bs.append((u, d)); steps.append(bs)
        lv = [set(taken) for _ in inst.blocks]; ch = True
        while ch:
            ch = False
            for i in range(len(steps) - 1, -1, -1):
                cur = set(taken)
                for s in succs(inst.blocks[i]['t'], True): cur |= lv[s]
                for u, d in reversed(steps[i]):
                    if d is not None and d not in taken: cur.discard(d)
                    cur |= u
                if cur != lv[i]: lv[i] = cur; ch = True
        self._live[inst.i] = lv
        return lv

    def tterm(self, inst, st, t, bi, fr, tag):
        k = t[0]
        if k == 'return': return [(None, st, tag)]
        if k == 'drop':
            tag = self.q.t_drop(self, fr, bi, t, st, tag)
            return [(t[2], st, tag)] if tag is not None else []
        if k != 'call': return [(b, ns, tag) for b, ns in (self.term(inst, st, t, bi, fr) or ())]
        rawargs = [self.operand(inst, st, o) for o in t[2]]
        if any(a == ('bot',) for a in rawargs): return []
        args = [self.outval(inst, st, a) for a in rawargs]
        c = t[1]
        if 'ptr' in c:
            pv = self.operand(inst, st, c['ptr'])
            if pv[0] == 'f' and pv[1] >= 0: targets = [self.w.insts[pv[1]]]
            elif pv[0] == 'u' and all(x[0] == 'f' for x in pv[1]): targets = [self.w.insts[x[1]] for x in pv[1]]
            else: targets = self.w.callee(c)
        else: targets = self.w.callee(c)
        outs = {}
        for x in targets:
            r = self.q.t_call(self, fr, bi, t, x, args, tag, st)
            if r is None: r = self.tapply(inst, st, x, args, fr, tag)
            for ntag, v in r:
                kk = (ntag, self.q.ret_key(v))
                outs[kk] = v if kk not in outs else join(outs[kk], v)
        if not targets: outs[(tag, None)] = T
        if t[4] < 0: return []
        res = []
        dt = self.w.place_ty(inst, t[3])
        for (ntag, _), v in outs.items():
            ns = dict(st)
            for o, a in zip(t[2], rawargs): self.havoc(inst, ns, a)
            if v == T: v = self.top(dt)
            self.write(inst, ns, tuple(map(tup, t[3])), v)
            res.append((t[4], ns, ntag))
        return res

    def shuffle(self, x, args):
        if x.k == 'item' and ('{closure' in x.p.rsplit('::', 1)[-1] or x.p.endswith('}')) and len(args) == 2 and x.argc >= 1 and (x.argc != 2 or '{closure' in x.p.rsplit('::', 1)[-1]):
            f = dict(args[1][2]) if args[1][0] == 'a' and args[1][1] is None else {}
            return [args[0]] + [f.get(i, T) for i in range(x.argc - 1)]
        return args

    def tapply(self, inst, st, x, args, fr, tag):
        m = self.q.model(self, x, args, fr)
        if m is not None: return [] if m == ('never',) else [(tag, m)]
        if x.body is not None and x.k != 'intrinsic' and self.q.relevant(self, x):
            args = self.shuffle(x, args)
            key = (x.i, tuple(clip(a) for a in args), self.q.t_enter(self, x, args, tag))
            n = self.ctx.setdefault(x.i, set())
            if key[1] not in n:
                if len(n) >= self.max_ctx: key = (x.i, tuple(T for _ in args), key[2]); self.widened_at.add(x.p)
                n.add(key[1])
            self.deps.setdefault(key, set()).add(self.cur)
            return [(tg, v) for (tg, _), v in self.want(key).items()]
        r = self.vapply(inst, st, x, args, fr)
        return [] if r is None else [(tag, r)]

    def vapply(self, inst, st, x, args, fr):
        """the value of a call that does not affect the tag: plain constant propagation"""
        if not hasattr(self, 'veng'):
            self.veng = Engine(self.w, self.q, max_ctx=100)
        return self.veng.apply(inst, st, x, args, fr)
