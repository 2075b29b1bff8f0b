"""Nesting of the compiler as a typestate: for every parser function, by how much it changes the scope, function
and module depth, the stacks of frames, modules and loops, and which variables it leaves declared.

Every function is analysed once from depth zero; a call adds the summary of the callee to the state of the caller.
tag = (deltas, loops, pops, kills, gens, reqs)
  deltas  change of FIELDS and of the STACKS since entry
  loops   loops begun and not ended: (frame, scope which `break` leaves to)
  pops    loops of the caller ended: (frame, scope)
  kills   variables of the caller removed: (frame, from which scope on)
  gens    variables declared and not removed: (frame, scope)
  reqs    scopes of the caller left, whose variables must be gone: (frame, scope)"""
from typestate import *
import absint
from mir import Missing

FIELDS = ('scope_depth', 'function_depth', 'module_depth')
STACKS = {'semantic::Locals': 'locals', 'semantic::Module': 'modules'}
PARSER = 'cordy_sys::compiler::parser::Parser'
SC, FN, MD, FR, MS = range(5)
LIMIT = 4
ZERO = ((0, 0, 0, 0, 0), (), (), frozenset(), frozenset(), frozenset())


def kept(gens, kills): return frozenset(g for g in gens if not any(g[0] == f and g[1] >= s for f, s in kills))


class Nest(TQuery):
    max_tags = 160

    def __init__(self, w):
        TQuery.__init__(self)
        self.w = w; self.viol = {}; self.count = {}
        pt = [t for t in w.types if t.get('k') == 'adt' and t['d'] == PARSER]
        if not pt: raise Missing('the parser type')
        names = [f[0] for f in pt[0]['v'][0][2]]
        for f in FIELDS:
            if f not in names: raise Missing('the parser field ' + f)
        self.fields = {names.index(f): i for i, f in enumerate(FIELDS)}
        lt = [t for t in w.types if t.get('k') == 'adt' and t['d'].endswith('::Local') and 'cordy_sys::compiler' in t['d']]
        lp = [t for t in w.types if t.get('k') == 'adt' and t['d'].endswith('::Loop') and 'cordy_sys::compiler' in t['d']]
        if not lt or not lp: raise Missing('the types Local and Loop')
        self.local = [f[0] for f in lt[0]['v'][0][2]]; self.loop = [f[0] for f in lp[0]['v'][0][2]]
        eff = [x for x in w.insts if x.ws and x.body is not None and x.p.startswith('cordy_sys::compiler') and self.direct(x)]
        if not eff: raise Missing('any change of the nesting depth')
        self.rel = {i for i in w.reaching(eff) if w.insts[i].ws and w.insts[i].p.startswith('cordy_sys::compiler::')}
        self.reset = {}

    def elem(self, x):
        """kind of stack the callee works on, if it is a method of a vector of one"""
        if x.ws or not x.s: return None
        for t in x.s:
            if isinstance(t, int) and self.w.types[t].get('k') == 'adt':
                d = self.w.types[t]['d'].split('::')
                if d[:2] == ['cordy_sys', 'compiler'] and d[-1] in ('Locals', 'Module', 'Loop', 'Local', 'Expr', 'LateBinding'): return d[-1]
        return None

    def direct(self, x):
        for b in x.blocks:
            for s in b['s']:
                if s[0] == '=' and (self.field(x, s[1]) is not None or any(self.field(x, o[1]) is not None for o in ops(s[2]))): return True
            t = b['t']
            if t[0] == 'call' and 'ptr' not in t[1]:
                for y in self.w.callee(t[1]):
                    if self.elem(y) in ('Locals', 'Module', 'Loop', 'Local') and y.n in ('push', 'pop', 'insert', 'remove', 'swap_remove', 'truncate', 'clear', 'drain', 'append', 'extend', 'split_off') and 'Vec' in y.p: return True
        return False

    def field(self, x, place):
        if len(place) < 2 or not isinstance(place[-1], int) or place[-1] not in self.fields: return None
        t = self.w.place_ty(x, place, len(place) - 1)
        return self.fields[place[-1]] if t is not None and self.w.types[t].get('d') == PARSER else None

    def relevant(self, eng, x): return x.i in self.rel
    def descend(self, eng, x, args): return x.ws and x.body is not None and x.i not in self.rel and len(x.blocks) < 12

    def ret_key(self, v): return v[1] if v[0] == 'a' else (v[2:] if v[0] == 'sym' and v[1] == 'ex' else None)

    def bad(self, key, msg, x):
        self.viol.setdefault(key, (msg, x.loc()))

    def t_stmt(self, eng, fr, bi, s, val, st, tag):
        k = self.field(fr.inst, s[1])
        if k is None: return tag
        d = list(tag[0]); old = d[k]
        if val[0] == 'sym' and val[1] == 'dep' and val[2] == k: new = val[3]
        else:
            if not self.param(fr.inst): self.bad('lost %s %s' % (FIELDS[k], fr.inst.short()), '%s sets %s to something other than a depth it had' % (fr.inst.p, FIELDS[k]), fr.inst)
            return tag
        if abs(new) > LIMIT:
            self.bad('unbounded %s %s' % (FIELDS[k], fr.inst.short()), '%s changes %s by more than %d' % (fr.inst.p, FIELDS[k], LIMIT), fr.inst); return None
        d[k] = new
        self.count['changes of depth'] = self.count.get('changes of depth', 0) + 1
        reqs, gens = tag[5], tag[4]
        if k == SC and new < old:
            for lev in range(new + 1, old + 1):
                left = [g for g in tag[4] if g[1] == lev]
                if left: gens = gens - frozenset(left)   # reported once
                if left: self.bad('variables %s' % fr.inst.short(), '%s leaves a scope on a path on which variables declared in it are still visible' % fr.inst.p, fr.inst)
                if lev <= 0 and not any(s <= lev for f, s in tag[3]): reqs = reqs | {(tag[0][FR], lev)}
        return (tuple(d), tag[1], tag[2], tag[3], gens, reqs)

    def param(self, x):
        """constructing a parser"""
        return not any(PARSER in self.w.tstr(t) for t in x.locals[1:x.argc + 1])

    def t_enter(self, eng, x, args, tag): return ZERO

    def shift(self, v, tag):
        return v

    def compose(self, eng, fr, x, a, b):
        """state a of the caller followed by summary b of a callee"""
        d = a[0]; s0, f0 = d[SC], d[FR]
        nd = tuple(p + q for p, q in zip(d, b[0]))
        if max(abs(v) for v in nd) > LIMIT:
            self.bad('unbounded %s' % fr.inst.short(), '%s nests ever deeper' % fr.inst.p, fr.inst); return None
        for f, s in b[5]:
            if any(g[1] == s + s0 for g in kept(a[4], {(f1 + f0, s1 + s0) for f1, s1 in b[3]})): self.bad('variables %s' % fr.inst.short(), '%s leaves a scope on a path on which variables declared in it are still visible' % fr.inst.p, fr.inst)
        reqs = a[5] | frozenset((f + f0, s + s0) for f, s in b[5] if s + s0 <= 0)
        loops = list(a[1]); pops = list(a[2])
        for f, s in b[2]:
            if loops: self.endloop(fr, loops.pop(), (f + f0, s + s0))
            else: pops.append((f + f0, s + s0))
        loops += [(f + f0, s + s0) for f, s in b[1]]
        if len(loops) > 4 or len(pops) > 4:
            self.bad('loops %s' % fr.inst.short(), '%s begins or ends ever more loops' % fr.inst.p, fr.inst); return None
        kills = frozenset((f + f0, s + s0) for f, s in b[3])
        gens = kept(a[4], kills) | frozenset((f + f0, s + s0) for f, s in b[4])
        return (nd, tuple(loops), tuple(pops), norm(a[3] | kills), gens, reqs)

    def endloop(self, fr, loop, at):
        self.count['loops ended'] = self.count.get('loops ended', 0) + 1
        if loop[0] != at[0]: self.bad('loop frame %s' % fr.inst.short(), '%s ends a loop of another function than it began' % fr.inst.p, fr.inst)
        elif loop[1] != at[1] + 1: self.bad('loop scope %s' % fr.inst.short(), '%s: `break` removes variables of scopes from depth %+d on, relative to where the loop ends, and not of exactly the scopes inside the loop' % (fr.inst.p, loop[1] - at[1]), fr.inst)

    def t_call(self, eng, fr, bi, t, x, args, tag, st):
        e = self.elem(x)
        d = tag[0]
        if e in ('Locals', 'Module', 'Loop', 'Local') and 'Vec' in x.p:
            if e == 'Expr': return None
            if x.n == 'push':
                if e == 'Loop':
                    v = dict(args[1][2]) if args[1][0] == 'a' else {}
                    deps = [(n, v.get(i, T)) for i, n in enumerate(self.loop)]
                    ds = [(n, y[3]) for n, y in deps if y[0] == 'sym' and y[1] == 'dep' and y[2] == SC]
                    if len(ds) < 2: self.bad('loop depths %s' % fr.inst.short(), '%s begins a loop without recording the depths of its scopes' % fr.inst.p, fr.inst); return [(tag, T)]
                    outer = min(y for _, y in ds); inner = max(y for _, y in ds)
                    names = dict(ds)
                    if self.roles:
                        o, i_ = (names.get(self.roles.get(k)) for k in ('break', 'continue'))
                        if o is None or i_ is None: self.bad('loop depths %s' % fr.inst.short(), '%s begins a loop without recording the scope which `break` or `continue` leaves to' % fr.inst.p, fr.inst); return [(tag, T)]
                        if i_ != d[SC] + 1: self.bad('loop head %s' % fr.inst.short(), '%s: `continue` removes variables of scopes from depth %+d on, relative to the head of the loop, and not of exactly the scopes inside' % (fr.inst.p, i_ - d[SC]), fr.inst)
                        outer = o
                    self.count['loops begun'] = self.count.get('loops begun', 0) + 1
                    return [((d, tag[1] + ((d[FR], outer),), tag[2], tag[3], tag[4], tag[5]), T)]
                if e == 'Local':
                    v = dict(args[1][2]) if args[1][0] == 'a' else {}
                    for i, n in enumerate(self.local):
                        if n in FIELDS:
                            k = FIELDS.index(n); y = v.get(i, T)
                            if not (y[0] == 'sym' and y[1] == 'dep' and y[2] == k and y[3] == d[k]): self.bad('declared %s %s' % (n, fr.inst.short()), '%s declares a variable whose %s is not the current one' % (fr.inst.p, n), fr.inst)
                    self.count['declarations'] = self.count.get('declarations', 0) + 1
                    return [((d, tag[1], tag[2], tag[3], tag[4] | {(d[FR], d[SC])}, tag[5]), T)]
                k = FR if e == 'Locals' else MS
                nd = list(d); nd[k] += 1
                return [((tuple(nd),) + tag[1:], T)] if nd[k] <= LIMIT else []
            if x.n == 'pop':
                if e == 'Loop':
                    if tag[1]: self.endloop(fr, tag[1][-1], (d[FR], d[SC])); return [((d, tag[1][:-1]) + tag[2:], T)]
                    return [((d, (), tag[2] + ((d[FR], d[SC]),)) + tag[3:], T)] if len(tag[2]) < 4 else []
                if e == 'Local': return [(tag, T)]   # see pop_locals
                k = FR if e == 'Locals' else MS
                nd = list(d); nd[k] -= 1
                gens, kills = tag[4], tag[3]
                if e == 'Locals':
                    gens = frozenset(g for g in gens if g[0] < d[FR])
                    if any(f == d[FR] for f, _ in tag[1]): self.bad('loops %s' % fr.inst.short(), '%s leaves a function in which a loop has not ended' % fr.inst.p, fr.inst)
                return [((tuple(nd), tag[1], tag[2], kills, gens, tag[5]), T)] if nd[k] >= -LIMIT else []
            if x.n in ('insert', 'remove', 'swap_remove', 'truncate', 'clear', 'drain', 'append', 'extend', 'split_off'):
                self.bad('stack %s %s' % (e, fr.inst.short()), '%s changes the stack of %s other than by pushing and popping' % (fr.inst.p, e), fr.inst)
                return [(tag, T)]
        if x.i == self.pop_locals.i:
            self.count['removals of variables'] = self.count.get('removals of variables', 0) + 1
            sc, modify = args[1], args[2]
            if modify != ('i', 0):
                if sc[0] == 'a' and sc[1] is not None and modify == ('i', 1):
                    if not sc[2]:
                        if self.w.types[x.locals[2]]['v'][sc[1]][0] != 'None': return [(tag, T)]
                        kill = (d[FR], -99)
                    else:
                        y = sc[2][0][1]
                        if not (y[0] == 'sym' and y[1] == 'dep' and y[2] == SC): return [(tag, T)]
                        if y[3] != d[SC]: self.bad('scope popped %s' % fr.inst.short(), '%s removes variables of other scopes than the innermost' % fr.inst.p, fr.inst)
                        kill = (d[FR], y[3])
                    kills = norm(tag[3] | {kill})
                    return [((d, tag[1], tag[2], kills, kept(tag[4], {kill}), tag[5]), T)]
            return [(tag, T)]
        r = self.extra(eng, fr, bi, t, x, args, tag, st)
        if r is not None: return r
        if x.i in self.rel and x.body is not None:
            outs = []
            a = tuple(self.lift(y, tag, -1) if y[0] in ('i', 'f', 'sym') or y[0] == 'a' and (y[1] is not None or has_dep(y)) else T for y in args)
            key = (x.i, a, ZERO)
            n = eng.ctx.setdefault(x.i, set())
            if a not in n:
                if len(n) >= 12: key = (x.i, tuple(T for _ in a), ZERO)
                n.add(key[1])
            eng.deps.setdefault(key, set()).add(eng.cur)
            for (tg, _), v in eng.want(key).items():
                c = self.compose(eng, fr, x, tag, tg)
                if c is None: continue
                outs.append((c, self.lift(v, tag)))
            return self.after(fr, x, args, tag, outs)
        return None

    def lift(self, v, tag, sign=1):
        """a value returned by a callee, seen from the caller, or (sign -1) an argument seen from the callee"""
        k = v[0]
        if k == 'sym' and v[1] == 'ex': return ('sym', 'ex', v[2] + sign * tag[0][FN], v[3] + sign * tag[0][FR])
        if k == 'sym' and v[1] == 'dep': return ('sym', 'dep', v[2], v[3] + sign * tag[0][v[2]])
        if not has_dep(v): return v
        if k == 'a': return ('a', v[1], tuple((i, self.lift(x, tag, sign)) for i, x in v[2]))
        if k == 'r': return ('r', self.lift(v[1], tag, sign))
        if k == 'u': return mk_union([self.lift(x, tag, sign) for x in v[1]])
        return T

    def model(self, eng, x, args, fr):
        if not x.ws and x.n in ('saturating_sub', 'wrapping_sub', 'saturating_add', 'wrapping_add') and len(args) == 2:
            a, b = args
            if a[0] == 'sym' and a[1] == 'dep' and b[0] == 'i': return ('sym', 'dep', a[2], a[3] + (b[1] if x.n.endswith('add') else -b[1]))
        return None

    def extra(self, eng, fr, bi, t, x, args, tag, st): return None
    def after(self, fr, x, args, tag, outs): return outs
    roles = None


def ops(r):
    out = []
    def go(r):
        if isinstance(r, (list, tuple)):
            if len(r) == 2 and r[0] in ('c', 'm') and isinstance(r[1], (list, tuple)): out.append(r)
            else:
                for y in r: go(y)
    go(r)
    return out


def norm(kills):
    """only the outermost removal per frame matters, and only in what was there on entry"""
    best = {}
    for f, s in kills:
        if s <= 0 and f <= 0: best[f] = min(s, best.get(f, 99))
    return frozenset(best.items())


def has_dep(v):
    k = v[0]
    if k == 'sym': return v[1] in ('dep', 'ex')
    if k == 'a': return any(has_dep(x) for _, x in v[2])
    if k == 'r': return has_dep(v[1])
    if k in ('u', 'arr'): return any(has_dep(x) for x in v[1])
    return False


class NestE(TEngine):
    """reads of a depth field give the depth relative to entry"""
    cur_tag = ZERO

    def rvalue(self, inst, st, r, frame):
        if r[0] == 'bin' and r[1] in ('Add', 'Sub', 'AddUnchecked', 'SubUnchecked'):
            a = self.operand(inst, st, r[2]); b = self.operand(inst, st, r[3])
            if a[0] == 'sym' and a[1] == 'dep' and b[0] == 'i': return ('sym', 'dep', a[2], a[3] + (b[1] if r[1].startswith('Add') else -b[1]))
            if b[0] == 'sym' and b[1] == 'dep' and a[0] == 'i' and r[1].startswith('Add'): return ('sym', 'dep', b[2], b[3] + a[1])
        return TEngine.rvalue(self, inst, st, r, frame)

    def read(self, inst, st, place, escaped=()):
        k = self.q.field(inst, place)
        if k is not None: return ('sym', 'dep', k, self.cur_tag[0][k])
        return TEngine.read(self, inst, st, place, escaped)
