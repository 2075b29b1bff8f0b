"""C17: a value is always handled as the type it was created with."""
from collections import Counter
from tagged import *
from mir import Missing, short

SYNTH = ('Error', 'Never')      # never the kind of a value a program has
SOURCE = {'bool': 'Bool', 'i64': 'Int', 'u32': 'GetField', 'core::NativeFunction': 'NativeFunction'}


def creation(ctx, w, tg):
    """{pointer kind: type of the representation}"""
    rep = {}
    pre = [x for x in w.insts if x.body is not None and x.ws and x.n == 'new' and 'Prefix' in x.p]
    if not pre: raise Missing('Prefix::new')
    pi = {x.i: x for x in pre}
    for x in w.insts:
        if x.body is None: continue
        for b in x.blocks:
            for s in b['s']:
                if s[0] == '=' and s[2][0] == 'agg' and isinstance(s[2][1], list) and s[2][1][0] == 'adt' and w.types[s[2][1][1]].get('d', '').endswith('ptr::Prefix') and x.i not in pi:
                    ctx.violation('prefix %s' % short(x.p), '%s makes a reference counted value in another way' % short(x.p), x.loc())
    class Q(Query):
        def __init__(self): Query.__init__(self); self.got = set()
        def on_call(self, eng, fr, bi, t, targets, args):
            for y in targets:
                if y.i in pi: self.got.add((y.i, args[0][1] if args[0][0] == 'a' else None))
        def descend(self, eng, x, args): return False
    for x in w.insts:
        if x.body is None or not x.ws: continue
        if not any(b['t'][0] == 'call' and any(y.i in pi for y in w.callee(b['t'][1])) for b in x.blocks): continue
        q = Q(); Engine(w, q).call(x, [])
        for i, k in q.got:
            t = w.types[pi[i].locals[0]]; T_ = w.tstr(t['a'][0])
            ctx.count(creations=1)
            if k is None: ctx.violation('creation %s' % short(x.p), 'it cannot be told as which kind %s creates a %s' % (short(x.p), T_), x.loc()); continue
            k = tg.kinds[k]
            if k in tg.inline: ctx.violation('creation %s' % k, '%s creates a reference counted value of kind %s, which is not one' % (short(x.p), k), x.loc())
            if rep.setdefault(k, T_) != T_: ctx.violation('creation %s' % k, 'values of kind %s are created as %s and as %s' % (k, rep[k], T_), x.loc())
    for T_ in set(rep.values()):
        ks = sorted(k for k in rep if rep[k] == T_)
        if len(ks) > 1: ctx.violation('creation of %s' % T_, '%s is created as kinds %s' % (T_, ', '.join(ks)), '')
    # what a new one starts with
    for x in pre[:1]:
        fs = [f[0] for f in w.types[x.locals[0]]['v'][0][2]]
        r = Engine(w, Query1()).call(x, [('a', 3, ()), T])[0]
        f = dict(r[2]) if r and r[0] == 'a' else {}
        ki = [i for i, g in enumerate(w.types[x.locals[0]]['v'][0][2]) if w.types[g[1]].get('d') == TYPE]
        if not ki or f.get(ki[0]) != ('a', 3, ()): ctx.violation('prefix kind', 'a new value does not record the kind it is created as', x.loc())
        fs = count_field(w, tg)
        if not fs: raise Missing('the field with the reference count')
        if any(f.get(i) != ('sym', 'cell', 1) for i in fs): ctx.violation('prefix references', 'a new value does not start with one reference', x.loc())
    return rep


class Query1(Query):
    def model(self, eng, x, args, fr):
        if x.n == 'new' and 'Cell' in x.p and 'RefCell' not in x.p and args and args[0][0] == 'i': return ('sym', 'cell', args[0][1])
        return None


def kinds_of(tg, v):
    b = bits(v)
    if b is None: return set()
    got = {tg.kind[p] for p in range(1 << tg.BITS) if (p ^ b[1]) & b[0] & ((1 << tg.BITS) - 1) == 0}
    return {'a pointer' if g is None else g for g in got}


def words(ctx, w, tg):
    """every word made into a value carries the tag of the kind it stands for"""
    made = {}; n = 0; todo = []; done = set()
    for x in w.insts:
        if x.body is None or not x.ws: continue
        if not any(s[0] == '=' and s[2][0] == 'agg' and isinstance(s[2][1], list) and s[2][1][0] == 'adt' and s[2][1][1] == tg.vt for b in x.blocks for s in b['s']): continue
        if any(w.strip_ref(t) == tg.vt for t in x.locals[1:x.argc + 1]): continue       # copies: see clone
        todo.append((x, 0))
    while todo:
        x, d = todo.pop()
        if x.i in done: continue
        done.add(x.i)
        ps = x.locals[1:x.argc + 1]
        q = WordQ(w, tg, None); q.own = True
        args = []
        for i, t in enumerate(ps):
            args.append(IN('in%d' % i) if w.types[t]['k'] in ('uint', 'int') or w.types[t].get('d', '').endswith('NativeFunction') else T)
        BEngine(w, q).call(x, args)
        n += 1
        src = w.tstr(w.strip_ref(ps[0])) if ps else None
        want = next((k for s, k in SOURCE.items() if src and src.endswith(s)), None)
        if src == 'str': continue                                    # by the bytes it is assembled from, below
        if src and 'Prefix' in src: want = 'a pointer'
        who = short(x.p)
        vals = {y for _, _, v in q.unions for y in (v[1] if v[0] == 'u' else [v])}
        if not vals: ctx.violation('word %s' % who, 'it cannot be told what %s makes a value of' % who, x.loc()); continue
        kinds = [kinds_of(tg, y) for y in vals]
        if any(len(k) != 1 for k in kinds) and d < 3:
            up = [y for y in w.insts if y.ws and y.body is not None and w.strip_ref(y.locals[0]) == tg.vt and any(b['t'][0] == 'call' and any(z.i == x.i for z in w.callee(b['t'][1])) for b in y.blocks)]
            if up: todo += [(y, d + 1) for y in up]; continue         # a helper: its callers choose the tag
        for y, got in zip(vals, kinds):
                b = bits(y)
                if len(got) != 1: ctx.violation('word %s' % who, 'a value made by %s may be taken for %s' % (who, ' or '.join(sorted(got)) or 'anything'), x.loc()); continue
                g = next(iter(got)); made.setdefault(g, []).append((x, b))
                if want and g != want: ctx.violation('word %s' % who, '%s makes %s of a %s, instead of %s' % (who, g, src, want), x.loc())
                if g == 'Never': ctx.violation('word %s' % who, '%s makes a value of no kind' % who, x.loc())
    ctx.floor('word_constructors', n, 20)
    # short texts are put together from bytes
    strs = []
    for x in w.insts:
        if x.body is None or not x.ws or x.argc != 1 or w.tstr(w.strip_ref(x.locals[1])) != 'str': continue
        if not any(s[0] == '=' and s[2][0] == 'agg' and isinstance(s[2][1], list) and s[2][1][0] == 'adt' and s[2][1][1] == tg.vt for b in x.blocks for s in b['s']): continue
        class Q(WordQ):
            seen = None
            def on_stmt(self, eng, fr, bi, s, v, st):
                p = s[1]
                if len(p) == 2 and isinstance(p[1], (list, tuple)) and p[1][0] in ('i', 'c') and w.tstr(w.place_ty(fr.inst, p)) == 'u8': self.seen.add(v)
        q = Q(w, tg, None); q.own = True; q.seen = set()
        BEngine(w, q).call(x, [])
        kinds = set()
        for v in q.seen:
            b = bits(v)
            kinds |= {tg.kind[p] for p in range(1 << tg.BITS) if (p ^ b[1]) & b[0] & ((1 << tg.BITS) - 1) == 0} if b else {'?'}
        strs.append(x)
        if kinds != {'ShortStr'}: ctx.violation('word %s' % short(x.p), 'a text stored in the value itself is tagged as %s' % (' or '.join(sorted(map(str, kinds))) or 'nothing'), x.loc())
    if not strs: raise Missing('texts stored in the value itself')
    for k in ('Bool', 'Int', 'GetField', 'NativeFunction', 'Nil', 'a pointer'):
        if k not in made: ctx.violation('no word %s' % k, 'no constructor makes a value of kind %s' % k, '')
    return made


def payload(ctx, w, tg, made):
    """what was put beside the tag is read back from where it was put"""
    acc = []
    for x in w.insts:
        if x.body is None or not x.ws or x.argc != 1 or w.strip_ref(x.locals[1]) != tg.vt: continue
        rt = w.tstr(x.locals[0])
        want = {'i64': ['Int', 'Bool'], 'u32': ['GetField'], 'bool': []}.get(rt) if not rt.endswith('NativeFunction') else ['NativeFunction']
        if not want or not x.p.startswith('cordy_sys::vm::ValuePtr::') or len(x.blocks) > 24: continue
        acc.append((x, want))
    n = 0; truth = {}
    for x, kinds in acc:
        for k in kinds:
            for src, b in made.get(k, []):
                q = WordQ(w, tg, None); q.own = True
                if b[0] == FULL: v = tg.value(b[1])
                else: v = word(w, tg.vt, W(*b))
                r = BEngine(w, q).call(x, [('r', v)])[0]
                if r is None: continue                         # refuses the kind
                n += 1
                name = b[2] and b[2][0]
                if k == 'Bool':
                    truth.setdefault(x.i, set()).add((b[1], r))
                    continue
                if r != IN(name): ctx.violation('payload %s %s' % (short(x.p), k), '%s does not read from a value of kind %s what %s put into it' % (short(x.p), k, short(src.p)), x.loc())
                if k == 'Int' and not signed(w, x): ctx.violation('payload sign %s' % short(x.p), '%s reads a negative integer as a positive one' % short(x.p), x.loc())
    # true and false
    bs = sorted({b[1] for _, b in made.get('Bool', []) if b[0] == FULL})
    if not any(sorted(r for _, r in v) == [('i', 0), ('i', 1)] for v in truth.values()): ctx.violation('payload Bool', 'no accessor reads false as 0 and true as 1', '')
    if len(bs) != 2: ctx.violation('booleans', 'true and false are not two different values', '')
    ctx.floor('payload_reads', n, 4)


def signed(w, x, depth=0):
    """the shift which removes the tag is one of a signed number"""
    for b in x.blocks:
        for s in b['s']:
            if s[0] == '=' and s[2][0] == 'bin' and s[2][1].startswith('Shr'):
                o = s[2][2]; t = w.place_ty(x, o[1]) if o[0] != 'k' else None
                if t is not None and w.types[t]['k'] != 'int': return False
        t = b['t']
        if depth < 2 and t[0] == 'call':
            for y in w.callee(t[1]):
                if y.ws and y.body is not None and y.argc == 1 and 'ValuePtr' in y.p and w.tstr(y.locals[0]) == 'i64' and not signed(w, y, depth + 1): return False
    return True


class CountQ(WordQ):
    """tag: (change of the reference count, representations freed)"""
    def __init__(self, w, tg, kinds, refs): WordQ.__init__(self, w, tg, kinds); self.refs = refs; self.rel = None
    def relevant(self, eng, x):
        if not x.ws or x.body is None: return False
        if self.rel is None:
            fx = [y for y in self.w.insts if y.ws and y.body is not None and any(b['t'][0] == 'call' and any(self.effect(z) for z in self.w.callee(b['t'][1])) for b in y.blocks)]
            self.rel = set(self.w.reaching(fx))
        return x.i in self.rel and ('ptr' in x.p or 'ValuePtr' in x.p or 'Prefix' in x.p)
    def effect(self, z):
        return not z.ws and (z.n in ('get', 'set', 'replace', 'update') and 'cell::Cell:' in z.p or z.n in ('from_raw', 'drop_in_place', 'dealloc', 'read') and ('Box' in z.p or 'ptr' in z.p or 'alloc' in z.p))
    def t_call(self, eng, fr, bi, t, x, args, tag, st):
        d, freed = tag
        if x.ws or x is None: return None
        if 'cell::Cell:' in x.p and x.s and any(isinstance(s, int) and self.w.types[s]['k'] == 'uint' for s in x.s):
            if x.n == 'get': return [(tag, ('i', self.refs + d))]
            if x.n == 'set': return [((args[1][1] - self.refs if args[1][0] == 'i' else '?', freed), T)]
            if x.n == 'replace': return [((args[1][1] - self.refs if args[1][0] == 'i' else '?', freed), ('i', self.refs + d))]
        if x.n == 'from_raw' and 'Box' in x.p:
            a = self.w.tstr(x.s[0]) if x.s and isinstance(x.s[0], int) else '?'
            return [((d, freed + (a,)), T)]
        if x.n in ('drop_in_place', 'dealloc') and not any('Box' in (self.w.tstr(s) if isinstance(s, int) else '') for s in x.s or ()): return [((d, freed + ('?',)), T)]
        return None


def counting(ctx, w, tg, rep, made):
    dr = [x for x in w.need(name='drop') if x.p.startswith('<cordy_sys::vm::ValuePtr as')]
    cl = [x for x in w.need(name='clone') if x.p.startswith('<cordy_sys::vm::ValuePtr as')]
    if not dr or not cl: raise Missing('drop and clone of values')
    for k in tg.idx:
        if k == 'Never' : continue
        if k not in tg.inline and k not in rep: ctx.violation('kind %s' % k, 'no value of kind %s is ever created' % k, ''); continue
        for word_ in tg.words(k):
            for refs in (1, 2, 3):
                q = CountQ(w, tg, [k], refs)
                s = BTEngine(w, q).solve(dr[0], [('r', tg.value(word_))], (0, ()))
                ctx.count(drops=1)
                got = {tag for tag, _ in s}
                want = {(0, ())} if k in tg.inline else {(-1, ('cordy_sys::vm::value::ptr::Prefix<%s>' % rep[k],) if refs == 1 else ())}
                if got != want:
                    g = sorted(got, key=str)[0] if got else None
                    if g is None: msg = 'dropping a value of kind %s always panics' % k
                    elif k in tg.inline: msg = 'dropping a value of kind %s, which refers to nothing, changes a reference count' % k
                    elif g[0] != -1: msg = 'dropping a value of kind %s changes its reference count by %s' % (k, g[0])
                    elif refs == 1 and not g[1]: msg = 'a value of kind %s is not freed when its last reference is dropped' % k
                    elif refs > 1: msg = 'a value of kind %s is freed while %d references to it are left' % (k, refs - 1)
                    else: msg = 'a value of kind %s, created as %s, is freed as %s' % (k, rep[k], ' and '.join(g[1]))
                    ctx.violation('drop %s' % k, msg, dr[0].loc())
            q = CountQ(w, tg, [k], 1)
            s = BTEngine(w, q).solve(cl[0], [('r', tg.value(word_))], (0, ()))
            ctx.count(clones=1)
            for (tag, _), v in s.items():
                if tag[1] or tag[0] != (0 if k in tg.inline else 1): ctx.violation('clone %s' % k, 'cloning a value of kind %s changes its reference count by %s instead of %d' % (k, tag[0], k not in tg.inline), cl[0].loc())
                if q.slot(v) != ('i', word_): ctx.violation('clone copy %s' % k, 'the clone of a value of kind %s is not the same value' % k, cl[0].loc())
            for src, b in (made.get(k, []) if k in tg.inline else []):
                q = CountQ(w, tg, [k], 1); v = word(w, tg.vt, W(*b))
                for r in BTEngine(w, q).solve(cl[0], [('r', v)], (0, ())).values():
                    if q.slot(r) != q.slot(v): ctx.violation('clone copy %s' % k, 'the clone of a value of kind %s is not the same value' % k, cl[0].loc())
            if not s: ctx.violation('clone %s' % k, 'cloning a value of kind %s always panics' % k, cl[0].loc())


def handling(ctx, w, tg, rep):
    """everything done with a value of some kind reads it as what it was created as"""
    fns = [x for x in w.insts if x.ws and x.body is not None and x.argc and w.strip_ref(x.locals[1]) == tg.vt and ('ValuePtr::' in x.p or x.p.startswith('<cordy_sys::vm::ValuePtr as') or 'ValuePtr>::' in x.p)]
    traits = 0; seen = set(); accessors = {}
    kinds = [k for k in tg.idx if k in tg.inline or k in rep]
    for x in sorted(fns, key=lambda x: x.i):
        two = x.argc >= 2 and w.strip_ref(x.locals[2]) == tg.vt
        std = bool(x.trait) and not x.trait.startswith('cordy') and x.n not in ('drop', 'clone')
        if x.n in ('drop', 'clone') and x.trait: continue
        if touches_generic(w, x): continue     # reads the value as whatever its caller says: judged in the caller
        if x.p in seen and not x.s: continue
        seen.add(x.p); ctx.count(functions=1)
        traits += std
        one = accessor(w, tg, rep, x)
        if one and not std: accessors[x.i] = one
        else: one = ()
        sub = lambda v: ('r', v) if w.types[x.locals[1]]['k'] == 'ref' else v
        for k in kinds:
            for o in (kinds if two else [None]):
                for a in tg.words(k, 0)[:2]:
                    for b in (tg.words(o, 1)[:1] if o else [None]):
                        q = WordQ(w, tg, [k, o]); e = BEngine(w, q, max_steps=200000)
                        args = [sub(tg.value(a))] + ([sub(tg.value(b))] if o else [])
                        e.call(x, args); ctx.count(handled=1)
                        for slot, _, t in q.casts:
                            kk = (k, o)[slot - 1] if slot in (1, 2) else None
                            if kk is None: continue
                            if kk in tg.inline: ctx.violation('%s reads %s' % (short(x.p), kk), '%s takes a value of kind %s for a pointer' % (short(x.p), kk), x.loc())
                            elif rep[kk] != t and t not in one: ctx.violation('%s reads %s' % (short(x.p), kk), '%s reads a value of kind %s, created as %s, as %s' % (short(x.p), kk, rep[kk], t), x.loc())
                        if std and q.panics and k not in SYNTH and o not in SYNTH:
                            ctx.violation('%s refuses %s' % (short(x.p), k), '%s reads a value of kind %s%s as another kind (%s fails)' % (short(x.p), k, ' together with %s' % o if o else '', ', '.join(sorted(short(p) for p in q.panics))), x.loc())
    ctx.floor('standard_operations', traits, 5)
    ctx.count(accessors=len(accessors))


def accessor(w, tg, rep, x):
    """representations it reads most pointers as, whatever their kind: its callers answer for the kind"""
    n = Counter()
    for k in rep:
        q = WordQ(w, tg, [k, None]); v = tg.value(tg.words(k)[0])
        BEngine(w, q).call(x, [('r', v) if w.types[x.locals[1]]['k'] == 'ref' else v])
        n.update({t for _, _, t in q.casts})
    return {t for t in n if n[t] * 2 > len(rep)}


# what a question about the kind of a value is asked for
PRED = {'is_nil': ['Nil'], 'is_bool': ['Bool'], 'is_precise_int': ['Int'], 'is_int': ['Int', 'Bool'], 'is_native': ['NativeFunction'], 'is_field': ['GetField'], 'is_short_str': ['ShortStr'], 'is_long_str': ['LongStr'],
        'is_str': ['ShortStr', 'LongStr'], 'is_complex': ['Bool', 'Int', 'Complex'], 'is_rational': ['Bool', 'Int', 'Rational'], 'is_list': ['List'], 'is_set': ['Set'], 'is_dict': ['Dict'], 'is_heap': ['Heap'], 'is_vector': ['Vector'],
        'is_struct': ['Struct'], 'is_struct_type': ['StructType'], 'is_range': ['Range'], 'is_enumerate': ['Enumerate'], 'is_slice': ['Slice'], 'is_function': ['Function'], 'is_closure': ['Closure'], 'is_memoized': ['Memoized'],
        'is_partial_function': ['PartialFunction'], 'is_partial_native': ['PartialNativeFunction'], 'is_err': ['Error'], 'is_synthetic_iterable': ['Iter']}


def predicates(ctx, w, tg, rep):
    """a question about the kind of a value is answered by its kind alone"""
    n = 0
    for x in w.insts:
        if not x.ws or x.body is None or x.argc != 1 or w.strip_ref(x.locals[1]) != tg.vt or w.tstr(x.locals[0]) != 'bool' or 'ValuePtr' not in x.p: continue
        want = PRED.get(x.n) or (sorted(rep) if x.n == 'is_ptr' else None)
        if want is None: continue
        n += 1
        for k in list(tg.inline) + list(rep):
            if k in ('Never',): continue
            for wd in tg.words(k):
                q = WordQ(w, tg, [k, None]); r = BEngine(w, q).call(x, [('r', tg.value(wd))])[0]; ctx.count(predicate_cases=1)
                if r != ('i', int(k in want)):
                    ctx.violation('%s %s' % (x.n, k), '%s %s for a value of kind %s' % (short(x.p), 'may not hold' if k in want else 'may hold', k), x.loc())
    ctx.floor('predicates', n, 20)


def truth_values(ctx, w, tg, made):
    """true and false are read back as what they were made of"""
    mk = {x.i: x for x, b in made.get('Bool', []) if x.argc == 1 and w.tstr(x.locals[1]) == 'bool'}
    if not mk: raise Missing('the constructor of booleans')
    n = 0
    for c in mk.values():
        ws_ = []
        for t in (0, 1):
            q = WordQ(w, tg, None); q.own = True
            BEngine(w, q).call(c, [('i', t)])
            v = {b for _, _, v in q.unions for b in (v[1] if v[0] == 'u' else [v])}
            ws_.append(bits(next(iter(v)))[1] if len(v) == 1 and bits(next(iter(v))) else None)
        if None in ws_ or ws_[0] == ws_[1]: ctx.violation('booleans', 'true and false are not two different values', c.loc()); continue
        for x in w.insts:
            if not x.ws or x.body is None or x.argc != 1 or w.strip_ref(x.locals[1]) != tg.vt or w.tstr(x.locals[0]) != 'bool' or 'ValuePtr' not in x.p or 'fals' in x.n or 'not' in x.n: continue
            r = []
            for v in ws_:
                q = WordQ(w, tg, None)
                r.append(BEngine(w, q).call(x, [('r', tg.value(v))])[0])
            if r[0] == r[1]: continue
            n += 1
            if r != [('i', 0), ('i', 1)]: ctx.violation('%s of booleans' % x.n, '%s does not tell true from false' % short(x.p), x.loc())
    ctx.floor('truth_readers', n, 2)


def count_field(w, tg):
    """the fields of the prefix which cloning a value touches"""
    cl = [x for x in w.need(name='clone') if x.p.startswith('<cordy_sys::vm::ValuePtr as')][0]
    seen = {cl.i}; todo = [cl]; fs = set()
    while todo:
        x = todo.pop()
        for b in x.blocks:
            for s in b['s']:
                if s[0] == '=' and s[2][0] == 'ref':
                    p = s[2][2]; t = w.types[w.strip_ref(x.locals[p[0]])]
                    f = [e for e in p[1:] if isinstance(e, int)]
                    if t.get('k') == 'adt' and t['d'].endswith('Prefix') and f: fs.add(f[0])
            if b['t'][0] == 'call' and 'ptr' not in b['t'][1]:
                for y in w.callee(b['t'][1]):
                    if y.ws and y.body is not None and y.i not in seen and ('Prefix' in y.p): seen.add(y.i); todo.append(y)
    return fs


def touches_generic(w, x):
    """the representation is chosen by a type parameter"""
    return x.argc >= 1 and x.n in () or any(isinstance(s, int) for s in (x.s or ())) and 'Prefix' in w.tstr(x.locals[0])


def run(ctx):
    w = ctx.world()
    ctx.rule('Each creation of a reference counted value fixes which representation stands behind a kind; the words that stand for the others are found by constant propagation of all tag bit patterns through the function that tells the kind. For every kind (and pairs of kinds for comparisons) constant propagation with known bits of the words through cloning, dropping (with one, two and three references left), equality, ordering, hashing, printing and every other method of a value then requires: the count goes up and down by one exactly for reference counted kinds, the last drop frees exactly the representation created, and whatever a word is cast to is the representation of its kind.')
    tg = Tagged(w)
    ctx.floor('inline_kinds', len(tg.inline), 6)
    rep = creation(ctx, w, tg)
    ctx.floor('reference_counted_kinds', len(rep), 18)
    made = words(ctx, w, tg)
    payload(ctx, w, tg, made)
    counting(ctx, w, tg, rep, made)
    predicates(ctx, w, tg, rep)
    truth_values(ctx, w, tg, made)
    handling(ctx, w, tg, rep)
    ctx.sample({'representations': rep})
