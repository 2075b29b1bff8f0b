"""What the interpreter does to the slots of the operand stack and to captured variables, as an interprocedural typestate.

state (tag): (entered, height, slots written, contents of captured variables, open links added or removed, events)
values:  ('sym', 'val', x)         a program value, known by where it was at the beginning
         ('sym', 'at', lin, value)  a value seen in its slot
         ('sym', 'cell', id)        a captured variable: ('open', slot) linked to a slot, ('env', function, n), ('new', content)
         ('sym', 'ent', key)        an entry of the table of open links"""
from stack import *

LIN1 = ((), 1)


def val(x): return ('sym', 'val', x)
def slot0(l): return val(('slot', l))
def cell(i): return ('sym', 'cell', i)
def is_(v, k): return v[0] == 'sym' and v[1] == k
def plain(v):
    v = strip(v)
    return v[3] if is_(v, 'at') else v
def below(a, b):
    """a < b if known"""
    if a[0] == b[0]: return a[1] < b[1]
    ra = 0 if a[0][:1] == ('fp',) or a[0][:1] == ('arg',) or 'fp' in a[0] else 1
    rb = 0 if 'fp' in b[0] or b[0][:1] == ('arg',) else 1
    if a[0] == ('fp',) and 'fp' in b[0]: return a[1] < b[1] + 1
    if b[0] == ('fp',) and 'fp' in a[0]: return False
    return ra < rb


def is_span(v): return v[0] == 'a' and v[1] is None and len(v[2]) == 2 and all(lin_of(x) is not None for _, x in v[2]) and any(is_lin(x) for _, x in v[2])


class Counting:
    def counters(self, inst):
        """the locals which count in steps of one: {local or copy of it: local}"""
        if not hasattr(self, '_cnt'): self._cnt = {}
        r = self._cnt.get(inst.i)
        if r is None:
            sums = set(); r = {}
            for b in inst.blocks:
                for s in b['s']:
                    if s[0] == '=' and s[2][0] == 'bin' and s[2][1].startswith(('Add', 'Sub')) and len(s[1]) == 1 and s[2][3][0] == 'k' and s[2][3][1].get('v') == 1 and s[2][2][0] != 'k' and len(s[2][2][1]) == 1: sums.add((s[1][0], s[2][2][1][0]))
            copies = {(s[1][0], s[2][1][1][0]) for b in inst.blocks for s in b['s'] if s[0] == '=' and len(s[1]) == 1 and s[2][0] == 'use' and s[2][1][0] != 'k' and len(s[2][1][1]) <= 2}
            for t, l in sums:
                if l == t or (l, t) in copies: r[l] = l
                for a, h in copies:
                    if a == l and ((h, t) in copies or h == t): r[h] = h
            for a, h in copies:
                if h in r and a not in r: r[a] = h
            self._cnt[inst.i] = r
        return r


class CEngine(Counting, StackEngine):
    def rvalue(self, inst, st, r, frame):
        # counting up to an unknown number stands for each of the numbers
        if r[0] == 'bin' and r[1] in ('Lt', 'Ne', 'Gt', 'Le', 'Ge', 'Eq'):
            i, o = (2, 3) if r[1] in ('Lt', 'Ne', 'Ge', 'Eq') else (3, 2)
            cnt = self.counters(inst)
            if r[i][0] != 'k' and r[i][1][0] in cnt and len(r[i][1]) == 1:
                a = lin_of(self.operand(inst, st, r[i])); b = lin_of(self.operand(inst, st, r[o]))
                if a and b and a[0] and b[0] and (r[1] in ('Lt', 'Gt', 'Ne') or r[1] in ('Ge', 'Le', 'Eq')):
                    go = int(r[1] in ('Lt', 'Gt', 'Ne'))
                    if len(a[0]) == 1 and a[0][0].startswith('each ') and a[1] == 1: return ('i', 1 - go)
                    if not any(n.startswith('each ') for n in a[0]) and a[0] != b[0]:
                        st[cnt[r[i][1][0]]] = N('each %s to %s' % (show(mk(*a)), show(mk(*b))))
                        return ('i', go)
        return super().rvalue(inst, st, r, frame)

    def split(self, inst, st):
        return tuple((l, st.get(l)) for l in sorted(set(self.counters(inst).values()))) + StackEngine.split(self, inst, st) + tuple((l, v) for l, v in sorted(st.items()) if v[0] == 'sym' and v[1] in ('cell', 'at', 'drain', 'drained') or is_span(v))

    def havoc(self, inst, st, v):
        if v[0] == 'p' and v[3]:
            cur = self.read(inst, st, (v[1],) + v[2])
            if is_span(cur) or cur[0] == 'sym' and cur[1] in ('drain', 'drained'): return
        super().havoc(inst, st, v)


class CellQ(TQuery):
    max_tags = 400
    distinct = False
    split_types = ('UpValue', 'Entry')
    def __init__(self, w, inst, op, init, has):
        TQuery.__init__(self); self.w = w; self.op = op; self.init = init; self.has = has
        t = next((w.strip_ref(l) for l in inst.locals[1:inst.argc + 1] if w.types[w.strip_ref(l)].get('d') == VM), 0)
        if w.types[t].get('d') != VM: raise Missing('the virtual machine')
        self.vm = t
        fs = w.types[t]['v'][0][2]
        self.f = {f[0]: i for i, f in enumerate(fs)}
        for k in ('ip', 'code', 'stack', 'call_stack', 'open_upvalues'):
            if k not in self.f: raise Missing('field %s of the virtual machine' % k)
        self.vmv = ('a', None, tuple(sorted([(self.f[k], C(k)) for k in ('code', 'stack', 'call_stack', 'open_upvalues')] + [(self.f['ip'], N('ip'))])))
        one = lambda suffix: [i for i, ty in enumerate(w.types) if ty.get('k') == 'adt' and ty['d'].startswith('cordy_sys::vm') and ty['d'].endswith('::' + suffix) and ty['v']]
        for k in ('CallFrame', 'Closure', 'UpValue'):
            if not one(k): raise Missing('type ' + k)
        self.frame = {f[0]: i for i, f in enumerate(w.types[one('CallFrame')[0]]['v'][0][2])}
        self.closure = one('Closure')[0]; self.upvalue = one('UpValue')[0]
        up = [n for n, *_ in w.types[self.upvalue]['v']]
        if sorted(up) != ['Closed', 'Open']: raise Missing('the two states of a captured variable')
        self.OPEN, self.CLOSED = up.index('Open'), up.index('Closed')
        ef = [i for i, f in enumerate(w.types[self.closure]['v'][0][2]) if 'UpValue' in w.tstr(f[1])]
        if len(ef) != 1: raise Missing('the environment of a closure')
        self.env = ef[0]
        self.envt = w.types[self.closure]['v'][0][2][self.env][1]
        self.mapt = fs[self.f['open_upvalues']][1]; self.stackt = fs[self.f['stack']][1]; self.framest = fs[self.f['call_stack']][1]
        self.effects = set(); self.bad = set(); self.sites = set(); self.rel = None

    def open(self, lin): return ('a', self.OPEN, ((0, mk(*lin)),))
    def closed(self, v): return ('a', self.CLOSED, ((0, plain(v)),))
    def closureval(self, v): return ('r', ('a', None, ((self.env, ('sym', 'env', v)),)))

    def assume_ty(self, eng, t):
        if t == self.vm: return self.vmv
        ty = self.w.types[t]
        if ty.get('k') == 'adt' and ty['d'] == OPCODE: return self.op
        return None

    def kind(self, y, inst, t):
        """which of the observed tables a library function works on"""
        if y.ws or not t[2] or t[2][0][0] == 'k': return None
        t = self.w.place_ty(inst, tuple(map(tup, t[2][0][1])))
        if t is None: return None
        t = self.w.strip_ref(t); s = self.w.tstr(t)
        if t == self.stackt: return 'stack'
        if t == self.mapt: return 'open'
        if t == self.framest: return 'frames'
        if t == self.envt: return 'env'
        if s.startswith('std::cell::Cell<') and 'UpValue' in s: return 'cell'
        return None

    def relevant(self, eng, x):
        if self.rel is None:
            fx = []
            for y in self.w.insts:
                if y.body is None: continue
                for b in y.blocks:
                    t = b['t']
                    if t[0] == 'call' and 'ptr' not in t[1] and any(self.kind(z, y, t) for z in self.w.callee(t[1])): fx.append(y); break
            self.rel = set(self.w.reaching(fx))
        if not x.ws: return x.body is not None and ('hash' in x.p and 'Entry' in x.p or x.i in self.rel and x.n in ('map', 'for_each', 'and_then', 'inspect', 'unwrap_or_else', 'map_or') and 'Option' in x.p) and len(x.blocks) < 30
        if x.n == 'run' and x is not self.root: return False
        if x.i not in self.rel: return False
        if x.p.endswith('}'): return True
        return any(self.w.strip_ref(t) in (self.vm, self.closure, self.upvalue, self.stackt, self.mapt, self.envt) or self.kindt(t) for t in x.locals[1:x.argc + 1])

    def kindt(self, t):
        s = self.w.tstr(self.w.strip_ref(t))
        return 'Cell<' in s and 'UpValue' in s

    def content(self, cells, c):
        for i, v in cells:
            if i == c: return v
        if c[0] == 'new': return c[1]
        if c[0] == 'open': return self.open(c[1])
        return self.open((('k',), 0)) if self.init == 'open' else self.closed(val('kept'))

    def t_call(self, eng, fr, bi, t, x, args, tag, st):
        ent, h, mem, cells, links, ev = tag
        k = self.kind(x, fr.inst, t)
        if k: self.sites.add((fr.inst.p, bi))
        if x.ws and x.n == 'run' and x is not self.root and 'VirtualMachine' in x.p: return [(tag, T)]
        if not args: return None
        v = strip(args[0]); a = [lin_of(strip(y)) for y in args]; n = x.n
        some = lambda y: ('a', 1, ((0, y),) if y != T else ())
        def out(val=T, **kw):
            nt = [ent, h, mem, cells, links, ev]
            for f, y in kw.items(): nt[('ent', 'h', 'mem', 'cells', 'links', 'ev').index(f)] = y
            return [(tuple(nt), val)]
        def at(l): return ('sym', 'at', l, dict(mem).get(l, slot0(l)))
        def put(m, l, y): return tuple(sorted([(i, z) for i, z in m if i != l] + [(l, plain(y))]))
        def cut(m, l): return tuple((i, z) for i, z in m if below(i, l))
        # a counting loop over unknown numbers stands for each of them
        if n == 'next' and not x.ws and v[0] == 'a' and v[1] is None:
            f = dict(v[2]); lo, hi = lin_of(f.get(0, T)), lin_of(f.get(1, T))
            ts = [self.w.tstr(s) for s in x.s or () if isinstance(s, int)]
            if lo is not None and hi is not None and ('std::ops::Range<' in x.p or any(s.startswith('std::ops::Range<') for s in ts)):
                p = eng.operand(fr.inst, st, t[2][0])
                if lo == hi:
                    if p[0] == 'p': eng.write(fr.inst, st, (p[1],) + p[2], ('sym', 'drained'))
                    return out(('a', 0, ()))
                if p[0] == 'p':
                    eng.write(fr.inst, st, (p[1],) + p[2], ('a', None, ((0, mk(*hi)), (1, mk(*hi)))))
                    return [(tag, some(N('each %s to %s' % (show(mk(*lo)), show(mk(*hi))))))]
        if n == 'next' and not x.ws and is_(v, 'drain'):
            p = eng.operand(fr.inst, st, t[2][0])
            if p[0] == 'p':
                eng.write(fr.inst, st, (p[1],) + p[2], ('sym', 'drained', 1))
                e = (('each link',), 0)
                return [((ent, h, mem, cells, links, ev + ('drain',)), some(('a', None, ((0, mk(*e)), (1, cell(('open', e)))))))]
        if is_(v, 'drained') and n == 'next':
            p = eng.operand(fr.inst, st, t[2][0])
            if p[0] == 'p': eng.write(fr.inst, st, (p[1],) + p[2], ('sym', 'drained'))
            return out(('a', 0, ()))
        if x.ws: return None
        if v[0] == 'a' and len(v[2]) == 1 and v[2][0][1][0] == 'sym' and v[2][0][1][1] in ('occ', 'ent'):
            e = v[2][0][1]
            if n in ('or_insert', 'or_insert_with', 'or_insert_with_key', 'insert_entry', 'insert'):
                if e[1] == 'occ' and n.startswith('or_'): return out(('r', e[3]))
                c = strip(args[1]) if not n.startswith('or_insert_with') else self.made(eng, fr, st, x, args[1])
                if not is_(c, 'cell'): self.bad.add((fr.inst.p, 'what is linked')); return out()
                return out(('r', c), links=links + (('add', e[2], c[2]),))
            if n not in ('key',): self.bad.add((fr.inst.p, n + ' of the open links'))
        if v[0] == 'sym' and v[1] == 'ent' and n in ('insert', 'insert_entry') and len(args) > 1:
            c = strip(args[1])
            r = ('r', c) if n == 'insert' else ('sym', 'occ', v[2], c)
            if not is_(c, 'cell'): self.bad.add((fr.inst.p, 'what is linked')); return out()
            return out(r, links=links + (('add', v[2], c[2]),))
        if is_(v, 'occ') and n in ('get', 'into_mut', 'get_mut'): return out(('r', v[3]))
        if is_(v, 'occ') and n == 'remove': return out(v[3], links=links + (('remove', v[2]),))
        if is_(v, 'cell'):
            i = v[2]; cur = self.content(cells, i)
            setc = lambda y: tuple(sorted([(j, z) for j, z in cells if j != i] + [(i, ('a', y[1], tuple((q, plain(z)) for q, z in y[2])) if y[0] == 'a' else y)], key=repr))
            if k == 'cell':
                if n in ('take',): return out(cur, cells=setc(('sym', 'default')))
                if n == 'set': return out(cells=setc(strip(args[1])))
                if n == 'replace': return out(cur, cells=setc(strip(args[1])))
                if n in ('swap', 'update', 'as_ptr', 'get_mut', 'into_inner'): self.bad.add((fr.inst.p, n)); return out()
        if is_(v, 'env') and k == 'env':
            if n in ('index', 'get', 'index_mut', 'get_unchecked'):
                if a[1] is None: self.bad.add((fr.inst.p, 'which captured variable')); return out()
                r = ('r', cell(('env', v[2], a[1])))
                return out(some(r) if n == 'get' else r)
            if n == 'push':
                c = strip(args[1])
                if not is_(c, 'cell'): self.bad.add((fr.inst.p, 'what is captured')); return out()
                return out(ev=ev + (('capture', v[2], c[2]),))
            if n not in ('len', 'deref', 'deref_mut', 'iter', 'clone', 'drop'): self.bad.add((fr.inst.p, n))
        if not is_tag(v): return None
        c = v[2]
        if c == 'code':
            if n in ('get_unchecked', 'index', 'get') and self.op is not None:
                if ent: self.effects.add(tag[1:]); return []
                r = ('r', self.op)
                return [((True, h, mem, cells, links, ev), some(r) if n == 'get' else r)]
            if n == 'len': return out(N('codelen'))
        if c == 'stack':
            if n == 'len': return out(mk(*h))
            if n == 'push': return out(h=add(h, LIN1), mem=put(mem, h, args[1]))
            top = add(h, LIN1, -1)
            if n == 'pop': return out(some(plain(at(top))), h=top, mem=tuple((i, z) for i, z in mem if i != top))
            if n in ('last', 'last_mut'): return out(some(('r', at(top))))
            if n in ('index', 'index_mut', 'get', 'get_mut', 'get_unchecked', 'get_unchecked_mut'):
                if a[1] is None:
                    if 'mut' in n: self.bad.add((fr.inst.p, 'which slot is written'))
                    return out()
                r = ('r', at(a[1]))
                return out(some(r) if n in ('get', 'get_mut') else r)
            if n == 'swap_remove' and a[1] is not None:
                r = plain(at(a[1])); m = put(mem, a[1], at(top))
                return out(r, h=top, mem=tuple((i, z) for i, z in m if i != top))
            if n == 'truncate' and a[1] is not None: return out(h=a[1], mem=cut(mem, a[1]))
            if n == 'resize': return out(h=a[1] or (('?',), 0), mem=(), ev=ev + ('resize',))
            if n == 'swap' and a[1] is not None and a[2] is not None: return out(mem=put(put(mem, a[1], at(a[2])), a[2], at(a[1])))
            if n in ('insert', 'remove', 'extend', 'drain', 'splice', 'clear', 'append', 'split_off', 'rotate_left', 'rotate_right', 'reverse', 'fill', 'iter_mut', 'truncate', 'swap', 'swap_remove', 'retain', 'dedup'): self.bad.add((fr.inst.p, n + ' of the operand stack'))
        if c == 'open_upvalues':
            if n == 'is_empty': return out(('i', 0) if self.has else T)
            if n == 'len': return out()
            if n in ('entry', 'remove', 'get', 'get_mut', 'contains_key', 'insert', 'index', 'remove_entry'):
                if a[1] is None: self.bad.add((fr.inst.p, 'which slot is linked')); return out()
                key = a[1]; it = cell(('open', key)); present = self.has
                for l in links:
                    if l[1] == key: present = l[0] == 'add'; it = cell(l[2]) if present else None
                if n == 'entry': return out(('a', self.entry(x, True), ((0, ('sym', 'occ', key, it)),)) if present else ('a', self.entry(x, False), ((0, ('sym', 'ent', key)),)))
                if n == 'contains_key': return out(('i', int(present)))
                if n == 'insert':
                    cc = strip(args[2])
                    if not is_(cc, 'cell'): self.bad.add((fr.inst.p, 'what is linked')); return out()
                    return out(some(it) if present else ('a', 0, ()), links=links + (('add', key, cc[2]),))
                if not present: return out(('a', 0, ())) if n != 'index' else []
                if n in ('remove', 'remove_entry'): return out(some(it if n == 'remove' else ('a', None, ((0, mk(*key)), (1, it)))), links=links + (('remove', key),))
                return out(some(('r', it)) if n != 'index' else ('r', it))
            if n == 'drain': return out(('sym', 'drain'))
            if n == 'clear': return out(ev=ev + ('clear',))
            if k and n not in ('iter', 'keys', 'values', 'deref', 'capacity'): self.bad.add((fr.inst.p, n + ' of the open links'))
        if c == 'call_stack':
            fr0 = ('a', None, ((self.frame['frame_pointer'], N('fp')),))
            if n == 'pop': return out(some(fr0))
            if n == 'len': return out(N('depth'))
            if n in ('index', 'index_mut'): return out(('r', fr0))
            if n in ('last', 'last_mut', 'get'): return out(some(('r', fr0)))
        return None

    def made(self, eng, fr, st, x, f):
        """what the function handed to a library function returns"""
        todo = [x]; seen = set()
        while todo:
            y = todo.pop()
            if y.i in seen or y.body is None: continue
            seen.add(y.i)
            if y.ws: return strip(eng.vapply(fr.inst, st, y, [f], fr) or T)
            for b in y.blocks:
                if b['t'][0] == 'call' and 'ptr' not in b['t'][1]: todo += [z for z in self.w.callee(b['t'][1]) if z.ws or '{closure' in z.p or z.n in ('call_once', x.n, 'or_try_insert_with')]
        return T

    def entry(self, x, occ):
        for t in self.w.types:
            if t.get('k') == 'adt' and t['d'].endswith('hash_map::Entry') or t.get('k') == 'adt' and t['d'].endswith('hash::map::Entry'):
                for i, v in enumerate(t['v']):
                    if v[0] == ('Occupied' if occ else 'Vacant'): return i
        raise Missing('entries of a table')

    def t_stmt(self, eng, fr, bi, s, v, st, tag):
        p = tuple(map(tup, s[1]))
        if len(p) >= 2 and p[-1] == '*':
            b = strip(eng.read(fr.inst, st, p[:-1]))
            if is_(b, 'at'):
                ent, h, mem, cells, links, ev = tag
                return (ent, h, tuple(sorted([(i, z) for i, z in mem if i != b[2]] + [(b[2], plain(v))])), cells, links, ev)
        return tag

    def ret_key(self, v): return v if v[0] == 'sym' and v[1] in ('cell', 'at') else TQuery.ret_key(self, v)

    def model(self, eng, x, args, fr):
        if not args: return None
        v = strip(args[0])
        if x.ws and x.body is not None and (is_(v, 'val') or is_(v, 'at')) and x.argc == 1:
            if self.w.tstr(x.locals[0]).endswith('Closure>') and 'Prefix' in self.w.tstr(x.locals[0]): return self.closureval(plain(v))
        if v[0] == 'a' and len(v[2]) == 1 and v[2][0][0] == self.env and is_(v[2][0][1], 'env') and x.n in ('borrow', 'borrow_mut', 'deref', 'deref_mut', 'as_ref', 'as_mut'): return ('r', v)
        if x.ws and x.n in ('clone', 'to_value', 'into') and (is_(v, 'val') or is_(v, 'at')): return plain(v)
        if x.ws and x.n == 'clone' and v[0] == 'a' and self.w.strip_ref(x.locals[1]) == self.upvalue: return v
        if x.ws: return None
        if v[0] == 'a' and x.n == 'into_iter' and any(self.w.tstr(s).startswith('std::ops::Range<') for s in x.s or () if isinstance(s, int)): return v
        if is_(v, 'val') or is_(v, 'at'):
            if x.n in ('clone', 'cloned', 'to_owned'): return plain(v)
            if x.n == 'replace' and is_(v, 'at') and 'mem' in x.p: return None
            if x.n in ('deref', 'as_ref', 'borrow', 'as_mut', 'deref_mut', 'borrow_mut'): return args[0]
        if is_(v, 'cell'):
            if x.n in ('clone', 'deref', 'as_ref', 'borrow', 'cloned'): return ('r', v) if x.n != 'clone' and args[0][0] == 'r' else v
            if x.n == 'new': return v
        if x.n == 'new' and 'Cell' in x.p and v[0] == 'a': return cell(('new', ('a', v[1], tuple((i, plain(z)) for i, z in v[2]))))
        if v[0] == 'a' and v[1] == 1 and len(v[2]) == 1 and x.n in ('cloned', 'copied') and 'Option' in x.p: return ('a', 1, ((0, plain(v[2][0][1])),))
        if is_tag(v) and x.n in ('deref', 'deref_mut', 'borrow', 'as_ref', 'as_slice', 'as_mut', 'as_mut_slice'): return args[0]
        if is_(v, 'env') and x.n in ('deref', 'deref_mut', 'as_slice'): return args[0]
        if is_(v, 'drain') and x.n in ('into_iter', 'by_ref'): return args[0]
        return None

    def descend(self, eng, x, args):
        if x.body is None: return False
        if x.ws: return not x.p.startswith('cordy_sys::compiler') and len(x.blocks) <= 25
        return len(x.blocks) <= 12 and ('Option' in x.p or 'Result' in x.p or 'convert' in x.p or x.n in ('branch', 'from_residual', 'take', 'swap', 'unwrap', 'map', 'ok_or'))


def effects(w, inst, op, init, has, args=None, start=L0):
    q = CellQ(w, inst, op, init, has); q.root = inst
    e = CEngine(w, q, max_steps=3000000)
    s = e.solve(inst, [('r', q.vmv)] + (args or []), (False, start, (), (), (), ()))
    ret = {(tag[1:], rk) for (tag, rk) in s}
    return q, ret
