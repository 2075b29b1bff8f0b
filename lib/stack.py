"""Heights of the operand stack: what each instruction and each way of calling does to it, as an interprocedural
typestate whose state is the height as a linear expression over the unknowns of the instruction (operand counts,
the number of unrolled elements, the frame pointer)."""
from linear import *
from mir import Missing

VM = 'cordy_sys::vm::VirtualMachine'
OPCODE = 'cordy_sys::vm::Opcode'
L0 = (('len',), 0)


class Seq:
    """small vectors and iterators over them: ('sym', 'seq', elements, position, reversed)"""

def seq(elems, pos=0, rev=False): return ('sym', 'seq', tuple(elems), pos, rev)
def is_seq(v): return v[0] == 'sym' and v[1] == 'seq'


def counted(w, x, args):
    """a range with known ends, as the sequence of its numbers"""
    if x.ws or not args or x.n not in ('into_iter', 'rev', 'iter', 'enumerate'): return None
    v = strip(args[0])
    if v[0] != 'a' or v[1] is not None or not x.s: return None
    ts = [w.tstr(t) for t in x.s if isinstance(t, int)]
    f = dict(v[2]); a, b = f.get(0, T), f.get(1, T)
    if not any(t.startswith('std::ops::Range<') for t in ts) or a[0] != 'i' or b[0] != 'i' or b[1] - a[1] > 8: return None
    s = seq([('i', i) for i in range(a[1], b[1])])
    return seq(s[2], 0, True) if x.n == 'rev' else s


class Neg:
    """differences of unknowns"""
    def rvalue(self, inst, st, r, frame):
        if r[0] == 'bin' and r[1].startswith(('Sub', 'Add')):
            a = lin_of(self.operand(inst, st, r[2])); b = lin_of(self.operand(inst, st, r[3]))
            if a and b and (a[0] or b[0]):
                v = mk(*add(a, b, -1 if r[1].startswith('Sub') else 1))
                return v
        return super().rvalue(inst, st, r, frame)


class StackVEngine(Neg, LEngine): pass


class StackEngine(Neg, LTEngine):
    def split(self, inst, st):
        return LTEngine.split(self, inst, st) + tuple((l, v) for l, v in sorted(st.items()) if is_seq(v))

    def vapply(self, inst, st, x, args, fr):
        if not hasattr(self, 'veng'): self.veng = StackVEngine(self.w, self.q, max_ctx=100)
        return self.veng.apply(inst, st, x, args, fr)

    def havoc(self, inst, st, v):
        if v[0] == 'p' and v[3] and is_seq(self.read(inst, st, (v[1],) + v[2])): return
        super().havoc(inst, st, v)


def add(a, b, sign=1):
    """sums of linear expressions (names, k); a name with a leading '-' counts negatively"""
    n = {}
    for (names, _), sg in ((a, 1), (b, sign)):
        for x in names:
            if x.startswith('-'): n[x[1:]] = n.get(x[1:], 0) - sg
            else: n[x] = n.get(x, 0) + sg
    return (tuple(sorted(y for x, c in n.items() for y in [x if c > 0 else '-' + x] * abs(c))), a[1] + sign * b[1])


def show_lin(a, base='len'):
    names = list(a[0])
    if base in names: names.remove(base)
    s = ''.join((n if n.startswith('-') else '+' + n) for n in names) + ('%+d' % a[1] if a[1] or not names else '')
    return s if base in a[0] or base is None else '=' + s


class StackQ(TQuery):
    """tag: (entered, height, frames, depth of the unroll stack, depth of the literal stack, jumped, added to the unroll counter)"""
    max_tags = 400
    distinct = False
    def __init__(self, w, inst, op=None, elems=1, invoke=None, trace=False):
        TQuery.__init__(self); self.w = w; self.op = op; self.elems = elems; self.invoke = invoke; self.trace = trace; self.invoked = set()
        t = next((w.strip_ref(l) for l in inst.locals[1:inst.argc + 1] if w.types[w.strip_ref(l)].get('d') == VM), 0)
        if w.types[t].get('d') != VM: raise Missing('the virtual machine')
        self.vm = t
        self.f = {f[0]: i for i, f in enumerate(w.types[t]['v'][0][2])}
        for k in ('ip', 'code', 'stack', 'call_stack', 'literal_stack', 'unroll_stack'):
            if k not in self.f: raise Missing('field %s of the virtual machine' % k)
        self.vmv = ('a', None, tuple(sorted([(self.f[k], C(k)) for k in ('code', 'stack', 'call_stack', 'literal_stack', 'unroll_stack')] + [(self.f['ip'], N('ip'))])))
        self.frame = self.names('CallFrame'); self.func = self.names('value::func::Function'); self.part = self.names('value::func::PartialFunction')
        self.effects = set(); self.bad = set()
        self.rel = None

    def names(self, d):
        ids = [i for i, ty in enumerate(self.w.types) if ty.get('k') == 'adt' and ty['d'].startswith('cordy_sys::vm') and ty['d'].endswith('::' + d.rsplit('::', 1)[-1]) and len(ty['v']) == 1]
        if not ids: raise Missing('type ' + d)
        return ids[0], {f[0]: i for i, f in enumerate(self.w.types[ids[0]]['v'][0][2])}

    def assume_ty(self, eng, t):
        if t == self.vm: return self.vmv
        ty = self.w.types[t]
        if ty.get('k') == 'adt' and ty['d'] == OPCODE: return self.op
        if t == self.func[0]: return ('a', None, tuple(sorted((self.func[1][k], C(v)) for k, v in (('args', 'params'), ('default_args', 'defaults')) if k in self.func[1])))
        if t == self.part[0]: return ('a', None, ((self.part[1]['args'], C('pargs')),) if 'args' in self.part[1] else ())
        return None

    def is_stackish(self, y):
        return not y.ws and y.n in ('push', 'pop', 'truncate', 'splice', 'swap_remove', 'remove', 'insert', 'extend', 'drain', 'clear', 'append', 'split_off', 'extend_from_slice', 'resize', 'retain', 'dedup') and 'Vec' in y.p

    def relevant(self, eng, x):
        if self.rel is None:
            vec = {self.w.types[self.vm]['v'][0][2][self.f[k]][1] for k in ('stack', 'unroll_stack', 'literal_stack', 'call_stack')}
            fx = []
            for y in self.w.insts:
                if not y.ws or y.body is None: continue
                for b in y.blocks:
                    t = b['t']
                    if t[0] == 'call' and 'ptr' not in t[1] and any(self.is_stackish(z) and any(self.w.strip_ref(l) in vec for l in self.argty(y, t[2][:1])) for z in self.w.callee(t[1])): fx.append(y); break
            self.rel = set(self.w.reaching(fx))
        return x.i in self.rel and x.ws and any(self.w.strip_ref(t) == self.vm or self.w.tstr(self.w.strip_ref(t)) == 'std::vec::Vec<cordy_sys::vm::ValuePtr>' and self.w.types[t]['k'] == 'ref' for t in x.locals[1:x.argc + 1])

    def argty(self, y, ops):
        for o in ops:
            if o[0] != 'k':
                t = self.w.place_ty(y, tuple(map(tup, o[1])))
                if t is not None: yield t

    def t_call(self, eng, fr, bi, t, x, args, tag, st):
        ent, h, frames, u, l, j, ua = tag
        if x.ws and x.trait and x.trait.endswith('VirtualInterface') and (x.n.startswith('invoke_func') or x.n == 'invoke_eval') and x is not self.root:
            k = strip(args[-1])
            if x.n[-1].isdigit(): self.invoked.add(((), int(x.n[-1])))
            elif k[0] == 'arr' or is_seq(k): self.invoked.add(((), len(k[1]) if k[0] == 'arr' else len(k[2]) - k[3]))
            else: self.invoked.add((('?',), 0))
            return [(tag, T)]
        if x.ws and x is not self.root and self.invoke is not None and x.i == self.invoke:
            n = lin_of(strip(args[1])) if len(args) > 1 else None
            if n is None: self.bad.add((fr.inst.p, 'invoke')); return [(tag, T)]
            self.invoked.add(n)
            nh = add(h, n, -1)
            ok = lambda k: ('a', 0, ((0, ('a', k, ())),))
            return [((ent, nh, frames, u, l, j, ua), ok(0)), ((ent, ((), 0), frames + (nh,), u, l, j, ua), ok(1)), (tag, ('a', 1, ()))]
        if x.ws and x is not self.root and x.n == 'apply' and 'Pattern' in x.p:
            return [((ent, add(h, (('operands',), 0), -1), frames, u, l, j, ua), ('a', 0, ())), (tag, ('a', 1, ()))]
        if x.ws and x.n == 'store' and x is not self.root and self.trace and len(args) > 1:
            v = strip(args[1])
            ent = (ent or ()) + ((v[1] if v[0] == 'a' else None, show(dict(v[2]).get(0, T)) if v[0] == 'a' else '?'),)
            return [((ent, h, frames, u, l, j, ua), ('a', 0, ())), (tag, ('a', 1, ()))]
        if x.ws and x.n == 'run' and x.self_ty is not None and VM.split('::')[-1] in x.p and x is not self.root:
            if not frames: return [(tag, T)]
            return [((ent, frames[-1], frames[:-1], u, l, j, ua), ('a', 0, ())), (tag, ('a', 1, ()))]
        if not args: return None
        v = strip(args[0])
        a = [lin_of(strip(y)) for y in args]
        # iteration over a short sequence
        if x.n in ('next', 'next_back') and is_seq(v):
            o = t[2][0]
            p = eng.operand(fr.inst, st, o)
            if p[0] == 'p' and v[3] < len(v[2]):
                e = v[2][v[3]] if v[4] == (x.n == 'next_back') else v[2][len(v[2]) - 1 - v[3]]
                eng.write(fr.inst, st, (p[1],) + p[2], seq(v[2], v[3] + 1, v[4]))
                return [(tag, ('a', 1, ((0, e),) if e != T else ()))]
            if v[3] >= len(v[2]): return [(tag, ('a', 0, ()))]
        if x.ws: return None
        if is_tag(v):
            n = x.n; c = v[2]
            def out(dh=None, val=T, **kw):
                nt = [ent, h, frames, u, l, j, ua]
                if dh is not None: nt[1] = dh
                for k, y in kw.items(): nt[{'u': 3, 'l': 4, 'frames': 2}[k]] = y
                return [(tuple(nt), val)]
            some = lambda y: ('a', 1, ((0, y),) if y != T else ())
            if c == 'code':
                if n in ('get_unchecked', 'index', 'get') and self.op is not None:
                    if ent: self.effects.add((h, frames, u, l, j, ua)); return []
                    r = ('r', self.op)
                    return [((True, h, frames, u, l, j, ua), some(r) if n == 'get' else r)]
                if n == 'len': return out(val=N('codelen'))
            if c == 'stack':
                if n == 'len': return out(val=mk(*h))
                if n == 'push': return out(add(h, ((), 1)))
                if n in ('pop', ): return out(add(h, ((), -1)), some(T))
                if n in ('swap_remove', 'remove'): return out(add(h, ((), -1)))
                if n == 'insert': return out(add(h, ((), 1)))
                if n in ('truncate', 'split_off', 'resize') :
                    if a[1] is None: self.bad.add((fr.inst.p, n)); return out()
                    return out(a[1])
                if n in ('splice', 'drain'):
                    r = args[1]
                    lo = hi = None
                    if r[0] == 'a':
                        f = dict(r[2]); rt = self.w.tstr(next(iter([s for s in x.s or () if isinstance(s, int) and 'Range' in self.w.tstr(s)]), 0)) if x.s else ''
                        lo = lin_of(strip(f.get(0, T))); hi = lin_of(strip(f.get(1, T)))
                        if 'RangeFrom' in rt: hi = h
                    if lo is None or hi is None: self.bad.add((fr.inst.p, n)); return out()
                    nh = add(h, add(hi, lo, -1), -1)
                    if n == 'splice':
                        k = self.count(x, args[2])
                        if k is None: self.bad.add((fr.inst.p, n)); return out()
                        nh = add(nh, k)
                    return out(nh)
                if n in ('extend', 'append', 'extend_from_slice'):
                    k = self.count(x, args[1])
                    if k is None: self.bad.add((fr.inst.p, n)); return out()
                    return out(add(h, k))
                if n == 'clear': return out(((), 0))
                if n in ('retain', 'dedup'): self.bad.add((fr.inst.p, n))
            if c == 'unroll_stack':
                if n == 'push': return out(u=u + 1)
                if n == 'pop': return out(u=u - 1, val=some(N('unrolled')))
                if n in ('last_mut', 'last'): return out(val=some(('r', N('unrolled'))))
                if n == 'len': return out(val=N('udepth'))
                if n in ('index', 'index_mut', 'get_mut', 'get') and a[1] == (('udepth',), -1):
                    r = ('r', N('unrolled'))
                    return out(val=r if n.startswith('index') else some(r))
            if c == 'literal_stack':
                if n == 'push': return out(l=l + 1)
                if n == 'pop': return out(l=l - 1, val=some(T))
            if c == 'call_stack':
                if n == 'push':
                    f = dict(args[1][2]) if args[1][0] == 'a' else {}
                    fp = lin_of(strip(f.get(self.frame[1]['frame_pointer'], T)))
                    return out(frames=frames + (fp or (('?',), 0),))
                if n == 'pop': return out(val=some(('a', None, ((self.frame[1]['frame_pointer'], N('fp')),))), frames=frames[:-1])
                if n == 'len': return out(val=N('depth'))
                if n in ('index', 'index_mut', 'last', 'last_mut'):
                    r = ('r', ('a', None, ((self.frame[1]['frame_pointer'], N('fp')),)))
                    return out(val=r if n.startswith('index') else some(r))
        return None

    def count(self, x, v):
        if any('Empty' in self.w.tstr(s) for s in x.s or () if isinstance(s, int) and self.w.types[s]['k'] == 'adt' and 'iter::' in self.w.tstr(s)): return ((), 0)
        v = strip(v)
        if is_tag(v) and v[2] == 'pargs': return (('pn',), 0)
        if is_seq(v): return ((), len(v[2]) - v[3])
        return None

    def t_stmt(self, eng, fr, bi, s, val, st, tag):
        p = s[1]
        ent, h, frames, u, l, j, ua = tag
        if len(p) >= 2 and p[-1] == self.f['ip'] and self.w.place_ty(fr.inst, p, len(p) - 1) == self.vm:
            lv = lin_of(strip(val))
            if lv and 'offset' in lv[0]: return (ent, h, frames, u, l, True, ua)
        if p[-1] == '*' and self.w.tstr(self.w.place_ty(fr.inst, p)) == 'i32':
            lv = lin_of(strip(val))
            if lv and lv[0] == ('unrolled',): return (ent, h, frames, u, l, j, lv[1])
            if ent and u >= 0 and lv is None: return (ent, h, frames, u, l, j, '?')
        return tag

    def ret_key(self, v): return v[2] if v[0] == 'sym' and v[1] == 'vr' else TQuery.ret_key(self, v)

    def result(self, x, args):
        """results of the interpreter's own kind, of which only the failure matters"""
        if not x.ws or x.body is None: return None
        ret = self.w.tstr(x.locals[0])
        if ret.endswith('::ValueResult'):
            if x.n in ('err', 'from_residual', 'from', 'into'): return ('sym', 'vr', 1)
            if x.n in ('ok', 'from_output'): return ('sym', 'vr', 0)
        if args and args[0][0] == 'sym' and args[0][1] == 'vr' and x.n in ('branch', 'as_result'): return ('a', args[0][2], ())
        return None

    def model(self, eng, x, args, fr):
        r = self.result(x, args) or counted(self.w, x, args)
        if r is not None: return r
        if x.ws and x.n == 'num_fields': return N('fields')
        if x.ws and x.n == 'to_iter' and args: return ('a', 0, ((0, seq([T] * self.elems)),))
        if not args: return None
        v = strip(args[0])
        if x.ws and x.n == 'lookup' and x.argc == 2 and self.w.types[self.w.strip_ref(x.locals[0])].get('k') == 'adt':
            ty = self.w.types[self.w.strip_ref(x.locals[0])]; a = lin_of(strip(args[1]))
            f = [f[0] for f in ty['v'][0][2]]
            if a and 'nargs' in f: return ('r', ('a', None, ((f.index('nargs'), mk(tuple('nargs of ' + n for n in a[0]), 0)),)))
        if x.ws: return None
        if is_tag(v):
            if v[2] == 'params' and x.n == 'len': return N('max')
            if v[2] == 'defaults' and x.n == 'len': return N('defaults')
            if v[2] == 'pargs' and x.n == 'len': return N('pn')
            if v[2] in ('pargs', 'params', 'defaults', 'stack', 'unroll_stack', 'literal_stack', 'call_stack', 'code') and x.n in ('deref', 'deref_mut', 'borrow', 'as_ref', 'as_slice', 'as_mut'): return args[0]
            if v[2] == 'pargs' and x.n in ('iter', 'into_iter', 'cloned', 'copied', 'clone', 'drain', 'to_vec'): return v
        if is_seq(v):
            if x.n in ('iter', 'iter_mut'): return seq([('r', e) if e[0] != 'r' else e for e in v[2]], v[3], v[4])
            if x.n in ('cloned', 'copied'): return seq([strip(e) for e in v[2]], v[3], v[4])
            if x.n in ('deref', 'deref_mut', 'as_slice', 'as_ref', 'borrow', 'by_ref'): return ('r', v)
            if x.n == 'into_iter': return v
            if x.n == 'rev': return seq(v[2], v[3], not v[4])
            if x.n == 'len': return ('i', len(v[2]) - v[3])
            if x.n in ('index', 'get', 'index_mut', 'get_unchecked') and len(args) > 1 and args[1][0] == 'i':
                if not 0 <= args[1][1] < len(v[2]): return ('never',) if x.n.startswith('index') else ('a', 0, ())
                e = v[2][args[1][1]]; e = e if e[0] == 'r' else ('r', e)
                return ('a', 1, ((0, e),)) if x.n == 'get' else e
        return None

    def descend(self, eng, x, args):
        if x.body is None: return False
        if x.ws: return not x.p.startswith('cordy_sys::compiler') and len(x.blocks) <= 25
        return len(x.blocks) <= 12 and ('Option' in x.p or 'Result' in x.p or 'convert' in x.p or x.n in ('branch', 'from_residual', 'take', 'replace', 'swap', 'unwrap', 'map', 'ok_or'))


def ops(w):
    """every instruction with symbolic operands"""
    ids = w.adts(OPCODE)
    if not ids: raise Missing('instructions')
    for i, (n, _, fs) in enumerate(w.types[ids[0]]['v']):
        cases = [()]
        for k, (fn, ft) in enumerate(fs):
            s = w.tstr(ft)
            vals = [('i', 0), ('i', 1)] if s == 'bool' else [N('offset')] if s == 'i32' else [N('arg')] if s == 'u32' else [T]
            cases = [c + ((k, v),) for c in cases for v in vals]
        for c in cases: yield n, i, tuple(v for _, v in c), ('a', i, tuple((k, v) for k, v in c if v != T))


def instruction(w, run, v, elems=1, invoke=None):
    """the effects of one instruction on the stack: {(height, frames, unroll, literal, jumped, unrolled)} going on, and on return"""
    q = StackQ(w, run, v, elems, invoke); q.root = run
    e = StackEngine(w, q, max_steps=3000000)
    s = e.solve(run, [('r', q.vmv)], (False, L0, (), 0, 0, False, 0))
    ret = {tag[1:] for (tag, rk) in s if rk != 1}
    return q.effects, ret, q
