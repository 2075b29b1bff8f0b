"""Operand stack height of the code the compiler emits: an abstract run of the code generator over the possible shapes
of an expression, where every instruction that is appended moves the height by what the interpreter does for it."""
from stack import *


class Table:
    """what the instructions do, as derived from the interpreter: {(variant, flags): (fall, jump, unroll, literal)}; None: does not go on"""
    def __init__(self, w): self.w = w; self.eff = {}; self.names = {i: n for n, (i, _, _) in w.variants(OPCODE).items()}; self.idx = {n: i for i, n in self.names.items()}
    def flags(self, v):
        fs = self.w.types[self.w.adts(OPCODE)[0]]['v'][v[1]][2]
        f = dict(v[2])
        return tuple(f.get(k, T) if self.w.tstr(t) == 'bool' else None for k, (_, t) in enumerate(fs))
    def lookup(self, v):
        if v[0] != 'a' or v[1] is None: return []
        fl = self.flags(v)
        return [e for (i, f), e in self.eff.items() if i == v[1] and all(x is None or x == T or x == y for x, y in zip(fl, f))]


class EmitH(TQuery):
    """tag: (height, unroll depth, literal depth, reachable, placeholders, open branches, operands of patterns, problem)"""
    max_tags = 20000
    distinct = False
    START = (0, 0, 0, True, 0, 0, 0, None)

    def __init__(self, w, table, roots):
        TQuery.__init__(self); self.w = w; self.tab = table; self.roots = roots
        g = 'parser::core::'
        self.opt = set(w.adts(OPCODE)); self.fwd = set(w.adts('ForwardBlockId')); self.rev = set(w.adts('ReverseBlockId')); self.bt = set(w.adts('BranchType'))
        self.rt = set(w.adts('semantic::ReferenceType')); self.err = set(w.adts('ParserErrorType')); self.term = {i for i in range(len(w.types)) if w.types[i].get('k') == 'adt' and w.types[i]['d'] == 'cordy_sys::core::pattern::Term'}
        for k, s in (('opcodes', self.opt), ('forward branches', self.fwd), ('branch types', self.bt), ('reference types', self.rt), ('pattern terms', self.term), ('errors', self.err)):
            if not s: raise Missing(k)
        self.bv = {i: n for n, (i, _, _) in w.variants('BranchType').items()}
        self.expr = set(w.adts('expr::Expr')); self.et = set(w.adts('expr::ExprType'))
        self.unroll = w.variants('expr::ExprType')['Unroll'][0]
        self.code = set(w.adts('graph::Code')) | set(w.adts('graph::Block'))
        self.roles = {}; self.rel = None; self.used = set(); self.pushes = 0; self.problems = set()
        self.elem = ('a', None, ((1, ('a', w.variants('expr::ExprType')['Nil'][0], ())),))
        self.unr = ('a', None, ((1, ('a', self.unroll, ())),))

    # ---- roles of functions
    def role(self, x):
        if x.i in self.roles: return self.roles[x.i]
        r = None
        if x.ws and x.body is not None:
            ps = [x.locals[i] for i in range(1, x.argc + 1)]
            me = self.w.strip_ref(ps[0]) if ps else None
            if me in self.code:
                block = me in set(self.w.adts('graph::Block'))
                if x.locals[0] in self.fwd: r = 'fork'
                elif x.locals[0] in self.rev: r = 'label'
                elif any(p in self.fwd for p in ps) and any(p in self.bt for p in ps): r = 'join'
                elif any(p in self.rev for p in ps) and any(p in self.bt for p in ps): r = 'back'
                elif any(p in self.opt for p in ps) and x.n == 'push': r = 'emit'
                elif any(p in self.opt for p in ps): r = 'patch'
            if any(p in self.err for p in ps): r = 'error'
            if x.n == 'placeholder' and x.locals[0] in self.opt: r = 'placeholder'
            if x.i in self.roots: r = 'expr'
        elif not x.ws and x.n == 'push' and 'Vec' in x.p and x.s and any(isinstance(s, int) and s in self.term for s in x.s): r = 'term'
        self.roles[x.i] = r
        return r

    def relevant(self, eng, x):
        if self.rel is None:
            eff = [y for y in self.w.insts if self.role(y) in ('fork', 'join', 'label', 'back', 'emit', 'error', 'expr', 'term') or y.ws and y.body is not None and any(s[0] == '=' and s[2][0] == 'agg' and isinstance(s[2][1], list) and s[2][1][0] == 'adt' and s[2][1][1] in self.rt for b in y.blocks for s in b['s'])]
            self.rel = {i for i in self.w.reaching(eff) if self.w.insts[i].ws and self.w.insts[i].p.startswith(('cordy_sys::compiler', 'cordy_sys::core::pattern', '<cordy_sys::compiler'))}
        return x.i in self.rel

    def ret_key(self, v): return v if v[0] == 'sym' and v[1] in ('br', 'seq') else TQuery.ret_key(self, v)

    def bad(self, tag, what): return tag[:7] + (tag[7] or what,)

    def emit(self, tag, v, jump=None):
        """one instruction is appended"""
        h, u, l, ok, ph, br, pat, pr = tag
        if v == ('sym', 'placeholder'): return [(h, u, l, ok, ph + 1, br, pat, pr)]
        es = self.tab.lookup(v)
        if not es: return [self.bad(tag, 'an instruction that is not known is emitted')]
        out = []
        for e in es:
            if e is None: out.append((h, u, l, False, ph, br, pat, pr)); continue
            fall, _, du, dl = e
            out.append(self.apply(tag, v, fall, du, dl))
        return out

    def apply(self, tag, v, eff, du, dl):
        h, u, l, ok, ph, br, pat, pr = tag
        if not ok: return tag
        names, k = eff
        nh = h + k; npat = pat
        f = dict(v[2])
        for n in names:
            if n == 'len': continue
            s = -1 if n.startswith('-') else 1
            b = n.lstrip('-')
            if b == 'operands': nh -= pat; npat = 0
            elif b == 'unrolled': pass                     # matched by what unrolling added
            elif b == 'arg':
                a = next((x for i, x in f.items() if x[0] == 'i' and self.w.tstr(self.w.types[self.w.adts(OPCODE)[0]]['v'][v[1]][2][i][1]) == 'u32'), None)
                if a is None: return self.bad(tag, 'the operand of %s is not known' % self.tab.names[v[1]])
                nh += s * a[1]
            else: return self.bad(tag, 'the effect of %s is not known' % self.tab.names[v[1]])
        return (nh, u + du, l + dl, ok, ph, br, npat, pr)

    def t_call(self, eng, fr, bi, t, x, args, tag, st):
        h, u, l, ok, ph, br, pat, pr = tag
        r = self.role(x)
        self.cur_used = x
        if r == 'expr':
            a = [strip(y) for i, y in enumerate(args) if self.w.strip_ref(x.locals[i + 1]) in self.expr]
            if a and a[0][0] == 'a' and dict(a[0][2]).get(1, T)[:2] == ('a', self.unroll): return [(self.bad(tag, 'an unrolled argument is emitted as an expression'), T)]
            return [((h + 1 if ok else h, u, l, ok, ph, br, pat, pr), T)]
        if r == 'error': return []                          # not compiled: the program does not run
        if r == 'placeholder': return [(tag, ('sym', 'placeholder'))]
        if r == 'emit':
            self.pushes += 1
            v = strip(args[[i for i in range(x.argc) if x.locals[i + 1] in self.opt][0]])
            vs = v[1] if v[0] == 'u' else [v]
            return [(n, T) for y in vs for n in self.emit(tag, strip(y))]
        if r == 'term':
            self.pushes += 1
            v = strip(args[1]); k = self.operands(v)
            if k is None: return [(self.bad(tag, 'a pattern with a term that is not known'), T)]
            return [((h, u, l, ok, ph, br, pat + k, pr), T)]
        if r == 'fork':
            out = []
            for i, n in self.bv.items():
                es = self.tab.eff_of(n)
                for e in es:
                    fall, jump, du, dl = e if e else (None, None, 0, 0)
                    hj = h + jump[1] if jump else None
                    if n == 'Jump': out.append(((h, u, l, False, ph, br + 1, pat, pr), ('sym', 'br', i, h + jump[1] if ok else None, u, l, pat)))
                    else: out.append(((h + fall[1] if ok else h, u, l, ok, ph, br + 1, pat, pr), ('sym', 'br', i, h + jump[1] if ok else None, u, l, pat)))
            return out
        if r == 'join':
            b = strip(args[[i for i in range(x.argc) if x.locals[i + 1] in self.fwd][0]]); ty = strip(args[[i for i in range(x.argc) if x.locals[i + 1] in self.bt][0]])
            if b[0] != 'sym' or b[1] != 'br' or ty[0] != 'a': return [(self.bad(tag, 'a branch whose origin or kind is not known is joined'), T)]
            if b[2] != ty[1]: return []
            self.pushes += 1
            if b[3] is None: return [((h, u, l, ok, ph, br - 1, pat, pr), T)]
            if ok and (b[3], b[4], b[5], b[6]) != (h, u, l, pat):
                return [(self.bad((h, u, l, ok, ph, br - 1, pat, pr), 'the paths joined after a %s branch leave %s value%s on the stack' % (self.bv[ty[1]], ' and '.join('%d' % y for y in sorted({b[3], h})), 's')), T)]
            return [((b[3], b[4], b[5], True, ph, br - 1, b[6], pr), T)]
        if r in ('label', 'back', 'patch') : return [(tag, T)]
        return self.seqs(eng, fr, t, x, args, tag, st)

    def seqs(self, eng, fr, t, x, args, tag, st):
        if x.ws or not args: return None
        v = strip(args[0]); n = x.n
        if n in ('new', 'with_capacity') : return None
        if not is_seq(v): return None
        p = eng.operand(fr.inst, st, t[2][0])
        def put(nv):
            if p[0] == 'p': eng.write(fr.inst, st, (p[1],) + p[2], nv)
        some = lambda y: ('a', 1, ((0, y),) if y != T else ())
        el = v[2][v[3]:]
        if n in ('next', 'next_back'):
            if not el:
                put(seq((), 1, v[4]))      # kept apart from the state after the last element
                return [(tag, ('a', 0, ()))]
            front = (n == 'next') != v[4]
            e = el[0] if front else el[-1]
            put(seq(el[1:] if front else el[:-1], 0, v[4]))
            return [(tag, some(e))]
        if n in ('for_each', 'map') and len(args) == 2:
            ts = {c for c in x.s or () if isinstance(c, int) and self.w.types[c]['k'] == 'closure'}
            ys = [y for c in ts for y in self.w.by_path.get(self.w.types[c]['d'], ()) if y.body is not None and y.argc and self.w.strip_ref(y.locals[1]) == c]
            if len(ys) != 1: return None
            env = args[1] if self.w.types[ys[0].locals[1]]['k'] != 'ref' else ('r', args[1]); live = {(tag, ())}
            for e in (tuple(reversed(el)) if v[4] else el):
                live = {(tg2, done + (r,)) for tg, done in live for tg2, r in eng.tapply(fr.inst, st, ys[0], [env, ('a', None, ((0, e),))], fr, tg)}
            return [(tg, seq(d) if n == 'map' else T) for tg, d in live]
        if n == 'push': put(seq(el + (args[1],))); return [(tag, T)]
        if n == 'pop':
            if not el: return [(tag, ('a', 0, ()))]
            put(seq(el[:-1])); return [(tag, some(el[-1]))]
        if n in ('swap_remove', 'remove') and args[1][0] == 'i' and args[1][1] < len(el):
            i = args[1][1]; rest = el[:i] + el[i + 1:] if n == 'remove' else el[:i] + ((el[-1],) if i < len(el) - 1 else ()) + el[i + 1:-1]
            put(seq(rest)); return [(tag, el[i])]
        if n in ('drain', 'split_off', 'truncate'):
            lo, hi = 0, len(el)
            if n == 'drain':
                f = dict(args[1][2]) if args[1][0] == 'a' else {}
                rt = ' '.join(self.w.tstr(s) for s in x.s or () if isinstance(s, int))
                if 'RangeFull' in rt: pass
                elif 'RangeFrom' in rt: lo = self.num(f.get(0))
                elif 'RangeTo' in rt: hi = self.num(f.get(0))
                else: lo, hi = self.num(f.get(0)), self.num(f.get(1))
            else: lo = self.num(args[1])
            if lo is None or hi is None: return None
            put(seq(el[:lo] + el[hi:])); return [(tag, seq(el[lo:hi]))]
        if n == 'reverse': put(seq(tuple(reversed(el)))); return [(tag, T)]
        return None

    def num(self, v): return v[1] if v is not None and v[0] == 'i' else None

    def model(self, eng, x, args, fr):
        if x.ws: return None
        r = counted(self.w, x, args)
        if r is not None: return r
        if x.n in ('new', 'with_capacity') and 'Vec' in x.p and x.s and any(isinstance(s, int) and self.holds(s) for s in x.s): return seq(())
        if not args: return None
        v = strip(args[0])
        if not is_seq(v): return None
        el = v[2][v[3]:]; n = x.n
        if n in ('iter', 'iter_mut'): return seq([('r', e) if e[0] != 'r' else e for e in el], 0, v[4])
        if n in ('cloned', 'copied'): return seq([strip(e) for e in el], 0, v[4])
        if n in ('deref', 'deref_mut', 'as_slice', 'as_ref', 'as_mut', 'borrow', 'as_mut_slice'): return ('r', v)
        if n in ('into_iter', 'by_ref', 'into_boxed_slice', 'collect', 'peekable', 'fuse'): return seq(el, 0, v[4]) if n != 'collect' or not v[4] else seq(tuple(reversed(el)))
        if n == 'rev': return seq(el, 0, not v[4])
        if n in ('len', 'count'): return ('i', len(el))
        if n == 'is_empty': return ('i', int(not el))
        if n == 'enumerate':
            order = tuple(reversed(el)) if v[4] else el
            return seq(tuple(('a', None, ((0, ('i', i)), (1, e))) for i, e in enumerate(order)))
        if n == 'zip' and len(args) > 1 and is_seq(strip(args[1])):
            o = strip(args[1]); oe = o[2][o[3]:]
            a = tuple(reversed(el)) if v[4] else el; b = tuple(reversed(oe)) if o[4] else oe
            return seq(tuple(('a', None, ((0, y), (1, z))) for y, z in zip(a, b)))
        if n in ('skip', 'take') and args[1][0] == 'i':
            a = tuple(reversed(el)) if v[4] else el
            return seq(a[args[1][1]:] if n == 'skip' else a[:args[1][1]])
        if n in ('first', 'last') : return ('a', 1, ((0, ('r', el[0 if n == 'first' else -1])),)) if el else ('a', 0, ())
        if n in ('index', 'index_mut') and args[1][0] == 'i' and args[1][1] < len(el): return ('r', el[args[1][1]])
        if n in ('any', 'all'): return None
        return None

    def holds(self, t, n=0):
        ty = self.w.types[t]
        if t in self.fwd or t in self.rev: return True
        if ty['k'] == 'tuple' and n < 3: return any(self.holds(f, n + 1) for f in ty['f'])
        return False

    def operands(self, v):
        """what a term of a pattern takes from the stack"""
        if v[0] == 'u':
            s = {self.operands(strip(y)) for y in v[1]}
            return s.pop() if len(s) == 1 else None
        if v[0] != 'a' or v[1] is None: return None
        ty = self.w.types[next(iter(self.term))]['v']
        n = ty[v[1]][0]; f = dict(v[2])
        if n in self.storeless: return self.storeless[n]
        if n == 'Pattern': return 0
        k = 0
        for i, (fn, ft) in enumerate(ty[v[1]][2]):
            o = f.get(i, T)
            if o[0] == 'a' and o[1] is not None and dict(o[2]).get(0, T)[0] == 'a':
                so = dict(o[2])[0]
                if so[1] in self.stores: k += self.stores[so[1]]
        return k

    def t_stmt(self, eng, fr, bi, s, val, st, tag):
        if s[2][0] == 'agg' and isinstance(s[2][1], list) and s[2][1][0] == 'adt' and s[2][1][1] in self.rt and tag[4]:
            n = self.w.types[s[2][1][1]]['v'][s[2][1][2]][0]
            h, u, l, ok, ph, br, pat, pr = tag
            if n == 'Load': return (h + 1, u, l, ok, ph - 1, br, pat, pr)
            if n == 'Store': return (h, u, l, ok, ph - 1, br, pat, pr)
        return tag

    def descend(self, eng, x, args):
        if x.body is None or self.relevant(eng, x): return False
        return x.ws and x.p.startswith('cordy_sys::compiler') and len(x.blocks) < 30 or not x.ws and ('Option' in x.p or 'PartialEq' in x.p or 'convert' in x.p) and len(x.blocks) <= 10


def shapes(q, w, ft, depth=0):
    """small values of the type of a part of an expression"""
    ty = w.types[ft]; s = w.tstr(ft)
    if ty['k'] == 'adt' and s.startswith('std::vec::Vec<'):
        inner = s[len('std::vec::Vec<'):-1]
        if inner.endswith('::Expr'):
            a, b = q.elem, q.unr
            return [seq(x) for x in ((), (a,), (b,), (a, a), (a, b), (b, a), (b, b), (a, b, a), (b, a, b), (a, a, b))]
        if inner.endswith('::Opcode'):
            ids = q.tab.idx
            return [seq(()), seq((('a', ids['CloseLocal'], ()), ('a', ids['CloseUpValue'], ())))]
        if inner.startswith('(') and inner.endswith('Expr)'):
            t3 = ('a', None, ((2, q.elem),))
            return [seq((t3,) * k) for k in (2, 3)]
        if inner.endswith('::LValue'): return [seq(x) for x in lvalues(w)]
        return None
    if s == 'bool': return [('i', 0), ('i', 1)]
    if ty['k'] == 'adt' and ty['d'].endswith('semantic::LValueReference'): return references(w)
    return [T]


def references(w):
    """every kind of reference an expression may hold; members of `self` directly and captured"""
    out = []
    for n, (i, _, fs) in w.variants('semantic::LValueReference').items():
        if n in ('Invalid', 'Named', 'This', 'Array', 'Field'): continue
        out.append(('a', i, ()))
    return out


def lvalues(w):
    lv = {n: i for n, (i, _, _) in w.variants('semantic::LValue').items()}; rf = {n: i for n, (i, _, _) in w.variants('semantic::LValueReference').items()}
    named = lambda r, k='Named': ('a', lv[k], ((0, ('a', rf[r], ())),))
    arr, fld, loc, this = named('Array'), named('Field'), named('Local'), named('ThisField')
    empty, vempty, var = ('a', lv['Empty'], ()), ('a', lv['VarEmpty'], ()), named('Global', 'VarNamed')
    terms = lambda *x: ('a', lv['Terms'], ((0, seq(x)),))
    return [(loc, named('UpValue')), (empty, named('LateBinding')), (vempty, fld), (arr, var), (fld, arr, this), (terms(arr, loc), fld), (loc, named('ThisField', 'VarNamed')), (terms(terms(fld, fld), empty), terms(arr))]
