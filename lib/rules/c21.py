"""C21: the C header and the interpreter agree on the foreign function interface."""
import re, os, subprocess, tempfile
from typestate import *
from slices import Defs
from mir import Missing, short

HDR = 'cordy/cordy.h'
SRC = 'cordy/src/ffi.rs'
# kind of value -> (code, type its content is taken out as)
PASS = {'Nil': ('NIL', None), 'Bool': ('BOOL', ('bool',)), 'Int': ('INT', ('i64',)), 'ShortStr': ('STR', ('&str', 'String', 'Rc<str>')), 'LongStr': ('STR', ('&str', 'String', 'Rc<str>')),
        'Vector': ('ARRAY', ('Vector',)), 'List': ('ARRAY', ('List',))}
GIVES = {'NIL': 'nil', 'BOOL': 'bool', 'INT': 'i64', 'STR': 'str', 'ARRAY': 'Vec', 'ERR': 'error'}


ARITH = ('Add', 'Sub', 'Mul', 'Div', 'Rem', 'Shl', 'Shr', 'BitAnd', 'BitOr', 'BitXor')
BITS = {'i8': 7, 'u8': 8, 'i16': 15, 'u16': 16, 'i32': 31, 'u32': 32, 'i64': 63, 'u64': 64, 'usize': 64, 'isize': 63, 'i128': 127, 'u128': 128, 'bool': 1}
def bits(s): return BITS.get(s, 0)
def adt(w, t): return w.types[w.strip_ref(t)].get('d', '')


class Header:
    def __init__(self, ctx):
        self.path = os.path.join(ctx.repo, HDR)
        t = ctx.read(HDR)
        t = re.sub(r'/\*.*?\*/', '', t, flags=re.S); t = re.sub(r'//[^\n]*', '', t)
        self.t = t
        self.codes = set(re.findall(r'\b(TY_[A-Z_]+)\b', t))
        self.field = {}
        for c, f in re.findall(r'_(?:VALUE|AS)\(\s*(TY_\w+)\s*,\s*(\w+)', t): self.field.setdefault(c, set()).add(f)
    def check(self, asserts):
        """the assertions the C compiler refutes"""
        d = tempfile.mkdtemp(prefix='c21')
        try:
            p = os.path.join(d, 'w.c')
            lines = ['#include <stddef.h>', '#include "%s"' % self.path, '#define V ((cordy_value_t*) 0)']
            off = len(lines)
            for i, (k, e, m) in enumerate(asserts): lines.append(e if e.startswith('static') else '_Static_assert(%s, "A%d");' % (e, i))
            open(p, 'w').write('\n'.join(lines) + '\n')
            r = subprocess.run(['clang', '-std=gnu11', '-fsyntax-only', '-ferror-limit=0', '-Wno-everything', p], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            bad = {}
            for l in r.stdout.split('\n'):
                m = re.match(r'(.*?):(\d+):\d+: (?:fatal )?error: (.*)', l)
                if m: bad[int(m.group(2)) - 1 - off if m.group(1) == p else -1] = m.group(3)
            if r.returncode and not bad: bad[-1] = r.stdout[-200:]
            return [(asserts[i] if 0 <= i < len(asserts) else None, m) for i, m in sorted(bad.items())]
        finally:
            for f in os.listdir(d): os.remove(os.path.join(d, f))
            os.rmdir(d)


class Conv(TQuery):
    """(content taken out as, field of the union used, value made)"""
    liveness = True; eager = True; max_tags = 5000
    def __init__(self, w, ut, ct, kind=None):
        super().__init__(); self.w = w; self.ut = ut; self.ct = ct; self.kind = kind; self.odd = set()
    def relevant(self, eng, x): return x.ws and x.body is not None and x.p.startswith('cordy::') and not (x.i in self.roots and x.i != self.root)
    def descend(self, eng, x, args): return x.ws
    def ret_key(self, v): return v[1] if v[0] == 'a' else None
    def place(self, x, p):
        for n in range(1, len(p)):
            if isinstance(p[n], int):
                b = self.w.place_ty(x, p, n)
                if b is not None and self.w.types[b].get('d') == self.ut: return p[n]
        return None
    def ops(self, r):
        if r[0] == 'use' or r[0] == 'cast': o = [y for y in r[1:] if isinstance(y, list) and y and y[0] in ('c', 'm')]
        elif r[0] in ('bin', 'cbin', 'un'): o = [y for y in r[1:] if isinstance(y, list) and y and y[0] in ('c', 'm')]
        elif r[0] == 'agg': o = [y for y in r[2] if y[0] in ('c', 'm')]
        else: o = []
        out = [y[1] for y in o]
        for y in r[1:]:
            if r[0] in ('ref', 'addr', 'cpy', 'discr') and isinstance(y, list) and y and isinstance(y[0], int): out.append(y)
        return out
    def t_stmt(self, eng, fr, bi, stmt, val, st, tag):
        got, field, made = tag
        r = stmt[2]
        for p in self.ops(r):
            f = self.place(fr.inst, p)
            if f is not None: field = field | {f}
        f = self.place(fr.inst, stmt[1])
        if f is not None: field = field | {f}
        if r[0] == 'cast' and r[1] == 'IntToInt' and r[2][0] != 'k':
            a, b = self.w.types[self.w.place_ty(fr.inst, r[2][1])]['s'], self.w.types[r[3]]['s']
            if bits(b) < bits(a): self.odd.add('a conversion of %s to %s' % (a, b))
        if r[0] in ('bin', 'cbin') and str(r[1]).replace('WithOverflow', '').replace('Unchecked', '') in ARITH and any(o[0] != 'k' and bits(self.w.types[self.w.place_ty(fr.inst, o[1])]['s']) for o in r[2:4]): self.odd.add('a computation (%s)' % r[1])
        if r[0] == 'agg' and r[1][0] == 'adt' and self.w.types[r[1][1]].get('d') == self.ut: field = field | {r[1][3] if len(r[1]) > 3 and r[1][3] >= 0 else r[1][2]}
        return (got, field, made)
    def t_call(self, eng, fr, bi, t, x, args, tag, st):
        got, field, made = tag
        for o in t[2]:
            if o[0] != 'k':
                f = self.place(fr.inst, o[1])
                if f is not None: field = field | {f}
        if x.n in ('rev', 'skip', 'step_by', 'filter', 'filter_map', 'take_while', 'skip_while', 'dedup', 'reverse', 'truncate', 'pop', 'chain', 'insert', 'swap', 'sort', 'flatten', 'flat_map', 'map_while', 'unwrap_or', 'unwrap_or_else', 'unwrap_or_default', 'to_string_lossy', 'from_vec_unchecked', 'from_utf8_unchecked', 'to_lowercase', 'to_uppercase', 'trim', 'as_slices', 'split_at', 'split_first', 'split_last', 'first', 'last', 'nul_position', 'split', 'split_once', 'replace', 'saturating_add', 'clamp', 'abs', 'unsigned_abs') and not x.ws: self.odd.add(x.n)
        if x.n == 'ty' and x.ws and self.kind is not None: return [((got, field, made), ('a', self.kind, ()))]
        if x.ws and x.n in ('is_nil', 'is_bool', 'is_int', 'is_precise_int') and self.kind is not None: return [((got, field, made), T)]
        if x.ws and not x.p.startswith('cordy::') and x.body is not None and x.argc >= 1 and adt(self.w, x.locals[1]).endswith('ValuePtr'):
            rt = self.w.tstr(x.locals[0])
            if x.n.startswith(('as_', 'get_', 'to_', 'into_')): return [((got | {rt}, field, made), T)]
        rt = self.w.types[self.w.place_ty(fr.inst, t[3])]
        if x.ws and not x.p.startswith('cordy::') and rt.get('d', '').endswith('ValuePtr') and not (x.argc >= 1 and adt(self.w, x.locals[1]).endswith('ValuePtr')):
            m = self.w.tstr(self.w.strip_ref(x.locals[1])) if x.argc >= 1 and x.body is not None else x.n
            if x.n not in ('deref', 'clone', 'branch'): made = made | {m}
        if x.ws and not x.p.startswith('cordy::') and rt.get('d', '').endswith('ValueResult') and x.n in ('err',): made = made | {'error'}
        if x.i in self.roots and x.i != self.root or x.i == self.root: return [((got, field, made), T)]
        if (got, field, made) != tag:
            return [((a, b, c), v) for (a, b, c), v in [(tg, v) for tg, v in self.more(eng, fr, bi, t, x, args, (got, field, made), st)]]
        return None
    def more(self, eng, fr, bi, t, x, args, tag, st):
        return eng.tapply(fr.inst, st, x, args, fr, tag)


def run(ctx):
    ctx.rule('compile-time assertions, generated from the layout of the mirror types in the interpreter and compiled against the C header (sizes, offsets, kinds of fields, codes, types of the injected functions); the functions given to libraries are extern "C"; for each kind of value and each code, constant propagation of the conversions: the code and field used are those of the header, the content is of that kind, and any other kind is refused')
    w = ctx.world('cordy')
    try: check(ctx, w, Header(ctx))
    except Missing as e: ctx.violation('anchor %s' % e, 'the construct the rule is anchored on is not there: %s' % e, SRC)
    except TooMany as e: ctx.violation('too many states', 'the conversions do not come to an end: %s' % e, SRC)


def check(ctx, w, h):
    unions = [t for t in w.types if t['k'] == 'adt' and t['ak'] == 'union' and t['d'].startswith('cordy::')]
    if len(unions) != 1: raise Missing('the union of a passed value')
    ut = unions[0]; ui = next(i for i, t in enumerate(w.types) if t is ut)
    val = [(i, t) for i, t in enumerate(w.types) if t['k'] == 'adt' and t['ak'] == 'struct' and t['d'].startswith('cordy::') and any(y[1] == ui or w.types[y[1]].get('d') == ut['d'] for y in t['v'][0][2])]
    if len(val) != 1: raise Missing('the struct of a passed value')
    vi, vt = val[0]
    uf = next(i for i, y in enumerate(vt['v'][0][2]) if w.types[y[1]].get('d') == ut['d'])
    cf = [i for i, y in enumerate(vt['v'][0][2]) if w.types[y[1]].get('ak') == 'enum']
    if len(cf) != 1: raise Missing('the code of a passed value')
    cf = cf[0]; ct = w.types[vt['v'][0][2][cf][1]]
    codes = {v[0].upper(): (i, int(v[1])) for i, v in enumerate(ct['v'])}
    ufields = ut['v'][0][2]
    structs = {i: w.types[y[1]] for i, y in enumerate(ufields) if w.types[y[1]]['k'] == 'adt' and w.types[y[1]]['d'].startswith('cordy::')}
    for what, t in [('a passed value', vt), ('the union', ut)] + [('an array', t) for t in structs.values()]:
        if not t.get('reprc'): ctx.violation('repr %s' % what, '%s (%s) has no layout that C knows of: it is not repr(C)' % (short(t['d']), what), SRC)
    # -- the conversions
    V = [x for x in w.insts if x.ws and x.body is not None and x.p.startswith('cordy::') and x.k == 'item']
    def is_vp(t): return w.types[t].get('d', '').endswith('::ValuePtr')
    tov = [x for x in V if x.argc == 1 and is_vp(w.strip_ref(x.locals[1])) and 'CordyValue' in w.tstr(x.locals[0]) or x.argc == 1 and is_vp(w.strip_ref(x.locals[1])) and vt['s'] in w.tstr(x.locals[0])]
    frv = [x for x in V if x.argc == 1 and adt(w, x.locals[1]) == vt['d'] and w.types[x.locals[0]].get('d', '').endswith(('ValueResult', 'ValuePtr')) or x.argc == 1 and adt(w, x.locals[1]) == vt['d'] and 'ValuePtr' in w.tstr(x.locals[0])]
    if not tov or not frv: raise Missing('the conversions of passed values')
    ty = [t for t in w.types if t['k'] == 'adt' and t['d'] == 'cordy_sys::vm::Type'][0]
    roots = {x.i for x in tov + frv}
    writes = {}; reads = {}; n = 0
    for x in tov:
        for k, v in enumerate(ty['v']):
            q = Conv(w, ut['d'], ct['d'], k); q.roots = roots; q.root = x.i
            r = TEngine(w, q, max_ctx=2000).solve(x, (T,), (frozenset(), frozenset(), frozenset()))
            n += 1; good = 0
            for ((got, field, made), rk), v2 in r.items():
                if rk != 0: continue                                   # refused
                f = dict(dict(v2[2]).get(0, T)[2]) if v2[0] == 'a' and dict(v2[2]).get(0, T)[0] == 'a' else {}
                c = f.get(cf, T); name = [nm for nm, (i, _) in codes.items() if c[0] == 'a' and i == c[1]]
                want = PASS.get(v[0])
                if want is None: ctx.violation('pass %s' % v[0], 'a value of kind %s is passed%s instead of being refused' % (v[0], ' as ' + name[0] if name else ''), x.loc()); continue
                good += 1
                if name != [want[0]]: ctx.violation('code of %s' % v[0], 'a value of kind %s is passed with the code %s instead of %s' % (v[0], name[0] if name else '?', want[0]), x.loc())
                if want[1] and not any(any(a in g for a in want[1]) for g in got): ctx.violation('content of %s' % v[0], 'the content of a value of kind %s is not taken out as %s' % (v[0], want[1][0]), x.loc())
                if want[1] and any(not any(a in g for a in want[1]) for g in got): ctx.violation('content of %s' % v[0], 'the content of a value of kind %s is taken out as %s' % (v[0], ', '.join(sorted(g for g in got if not any(a in g for a in want[1])))), x.loc())
                if len(field) != 1: ctx.violation('field of %s' % v[0], 'a value of kind %s is written to %d fields' % (v[0], len(field)), x.loc())
                else: writes.setdefault(want[0], set()).update(field)
            if v[0] in PASS and not good: ctx.violation('refuse %s' % v[0], 'a value of kind %s is never passed' % v[0], x.loc())
            if q.odd: ctx.violation('elements %s' % v[0], 'a value of kind %s goes through %s, so that something else is passed' % (v[0], ', '.join(sorted(q.odd))), x.loc())
    for x in frv:
        for c, (k, _) in codes.items():
            q = Conv(w, ut['d'], ct['d']); q.roots = roots; q.root = x.i
            a = ('a', None, ((cf, ('a', k, ())),))
            if w.types[x.locals[1]]['k'] == 'ref': a = ('r', a)
            r = TEngine(w, q, max_ctx=2000).solve(x, (a,), (frozenset(), frozenset(), frozenset()))
            n += 1
            m = set(); f = set()
            for (got, field, made), rk in r: m |= made; f |= field
            want = GIVES.get(c)
            ok = {y for y in m if y != 'error'}
            if want is None: ctx.violation('unknown code %s' % c, 'the interpreter knows a code %s that this rule does not' % c, SRC); continue
            if want == 'error':
                if ok or 'error' not in m: ctx.violation('result %s' % c, 'a result with the code %s is not made into an error' % c, x.loc())
            elif len(ok) != 1 or want not in next(iter(ok)): ctx.violation('result %s' % c, 'a result with the code %s is made into a value from %s instead of %s' % (c, ', '.join(sorted(ok)) or 'nothing', want), x.loc())
            if c != 'NIL':
                if len(f) != 1: ctx.violation('read %s' % c, 'a result with the code %s is read from %d fields' % (c, len(f)), x.loc())
                reads.setdefault(c, set()).update(f)
            if q.odd: ctx.violation('elements of result %s' % c, 'a result goes through %s' % ', '.join(sorted(q.odd)), x.loc())
    ctx.count(conversions=n); ctx.floor('conversions analysed', n, 33)
    # -- layout: assertions for the C compiler
    A = []
    def need(k, e, m): A.append((k, e, m))
    need('size of a value', 'sizeof(cordy_value_t) == %d' % vt['sz'], 'a passed value takes %d bytes in the interpreter, not in the header' % vt['sz'])
    need('alignment of a value', '_Alignof(cordy_value_t) == %d' % vt['al'], 'a passed value is aligned to %d in the interpreter, not in the header' % vt['al'])
    need('offset of the code', 'offsetof(cordy_value_t, ty) == %d && sizeof(V->ty) == %d' % (vt['off'][cf], ct['sz']), 'the code is at offset %d with %d bytes in the interpreter, not in the header' % (vt['off'][cf], ct['sz']))
    for c, (_, v) in codes.items(): need('code %s' % c, 'TY_%s == %d' % (c, v), 'the code %s is %d in the interpreter and not in the header' % (c, v))
    for c in sorted(h.codes):
        if c[3:] not in codes: ctx.violation('code %s' % c, 'the header has a code %s that the interpreter does not know: such a value has no valid code there' % c, HDR)
    ctype = {'i64': 'int64_t', 'i32': 'int32_t', 'u32': 'uint32_t', 'u64': 'uint64_t', 'usize': 'size_t', 'u8': 'uint8_t', 'i8': 'int8_t', 'bool': 'bool'}
    fields = 0
    for c in codes:
        hf = h.field.get('TY_' + c)
        if not hf: ctx.violation('header field %s' % c, 'the header has no field for values with the code %s' % c, HDR); continue
        if len(hf) != 1: ctx.violation('header field %s' % c, 'the header uses the fields %s for values with the code %s' % (' and '.join(sorted(hf)), c), HDR); continue
        hf = next(iter(hf))
        for how, fs in (('read', reads.get(c, ())), ('written', writes.get(c, ()))):
            for f in fs:
                t = w.types[ufields[f][1]]; fields += 1
                off = vt['off'][uf] + ut['off'][f]
                msg = 'a value with the code %s is %s as %s at offset %d by the interpreter, but the field %s of the header is not that' % (c, how, t['s'], off, hf)
                need('field %s %s' % (c, how), 'offsetof(cordy_value_t, %s) == %d' % (hf, off), msg)
                if t['k'] in ('ptr', 'ref'): need('type %s %s' % (c, how), '__builtin_types_compatible_p(__typeof__(V->%s), const char*) || __builtin_types_compatible_p(__typeof__(V->%s), char*)' % (hf, hf), msg)
                elif t['k'] == 'adt':
                    need('type %s %s' % (c, how), 'sizeof(V->%s) == %d' % (hf, t['sz']), msg)
                elif c == 'NIL': pass
                elif t['s'] in ctype:
                    sz = 'sizeof(V->%s) %s sizeof(%s)' % (hf, '==' if how == 'read' or t['s'] not in ('i64', 'u64') else '<=', ctype[t['s']])
                    if c == 'INT': sz += ' && ((__typeof__(V->%s)) -1 < 0) == ((%s) -1 < 0)' % (hf, ctype[t['s']])
                    need('type %s %s' % (c, how), sz, msg)
                else: ctx.violation('type %s %s' % (c, how), 'a value with the code %s is %s as %s, which has no counterpart in C' % (c, how, t['s']), SRC)
    # -- arrays: which field holds what
    roles = {}; parts = 0
    for x in V:
        d = None
        for b in x.blocks:
            if b.get('c'): continue
            t = b['t']
            if t[0] == 'call' and t[2]:
                for y in w.callee(t[1]):
                    if not y.ws and y.n in ('from_raw_parts', 'from_raw_parts_in') and 'Vec' in y.p and vt['s'] in w.tstr(w.place_ty(x, t[3])):
                        d = d or Defs(w, x); parts += 1
                        for k, role in enumerate(('ptr', 'len', 'capacity')):
                            for st in structs.values():
                                for f in d.fields(t[2][k], st['d']): roles.setdefault((st['d'], f), set()).add(role)
            for s in b['s']:
                if s[0] == '=' and s[2][0] == 'agg' and s[2][1][0] == 'adt' and w.types[s[2][1][1]].get('d') in {st['d'] for st in structs.values()}:
                    d = d or Defs(w, x); sd = w.types[s[2][1][1]]['d']
                    for k, o in enumerate(s[2][2]):
                        got = set()
                        for l in d.back(o, False):
                            for kk, dd, _ in d.d.get(l, ()):
                                if kk == 's' and dd[0] == 'use' and dd[1][0] != 'k' and len(dd[1][1]) == 2 and isinstance(dd[1][1][1], int):
                                    src = dd[1][1][0]
                                    if any(kk2 == 'c' and any(y.n == 'into_raw_parts' for y in w.callee(d2[1])) for kk2, d2, _ in d.d.get(src, ())): got.add(('ptr', 'len', 'capacity')[dd[1][1][1]])
                                if kk == 'c':
                                    for y in w.callee(dd[1]):
                                        if y.n in ('as_mut_ptr', 'as_ptr', 'leak', 'len', 'capacity'): got.add({'len': 'len', 'capacity': 'capacity'}.get(y.n, 'ptr'))
                        if len(got & {'len', 'capacity', 'ptr'}) == 1: roles.setdefault((sd, k), set()).update(got); parts += 1
    for (sd, f), r in sorted(roles.items()):
        st = next(t for t in structs.values() if t['d'] == sd)
        if len(r) != 1: ctx.violation('array field %d' % f, 'the field %s of an array is used as %s' % (st['v'][0][2][f][0], ' and as '.join(sorted(r))), SRC); continue
        r = next(iter(r)); t = w.types[st['v'][0][2][f][1]]
        need('array %s' % r, 'offsetof(cordy_vec_t, %s) == %d && sizeof(((cordy_vec_t*) 0)->%s) == %d' % (r, st['off'][f], r, 8), 'the %s of an array is at offset %d in the interpreter, not in the header' % (r, st['off'][f]))
    ctx.floor('parts of arrays', parts, 4); ctx.floor('fields of arrays', len(roles), 3)
    # -- functions given to libraries
    m = re.search(r'_cordy_api_init\s*\(([^)]*)\)\s*\{(.*?)\}', h.t, re.S)
    if not m: raise Missing('_cordy_api_init of the header')
    params = [p.split()[-1].strip('*') for p in m.group(1).split(',')]
    held = {p: v for v, p in re.findall(r'(\w+)\s*=\s*(\w+)\s*;', m.group(2))}
    casts = {}
    for sig, v in re.findall(r'\(\(\s*([^;#]*?\(\*\)\s*\([^()]*\))\s*\)\s*(\w+)\s*\)', h.t): casts[v] = sig.lstrip('(').strip()
    given = 0
    for x in V:
        d = None
        for b in x.blocks:
            t = b['t']
            if t[0] != 'call' or 'ptr' not in t[1] or b.get('c'): continue
            ft = w.tstr(t[1]['t'])
            if ft.count('c_void') == len(t[2]) and t[2]:
                d = d or Defs(w, x)
                if 'extern "C"' not in ft: ctx.violation('abi of initialisation', 'a library is initialised through a pointer that is not extern "C"', x.loc())
                if len(t[2]) != len(params): ctx.violation('initialisation', 'a library is initialised with %d functions, and the header takes %d' % (len(t[2]), len(params)), x.loc()); continue
                for k, o in enumerate(t[2]):
                    sig = set()
                    for l in d.back(o, False):
                        for kk, dd, _ in d.d.get(l, ()):
                            if kk == 's' and dd[0] == 'cast' and dd[1] == 'reify': sig.add((w.tstr(dd[3]), dd[4] if len(dd) > 4 else -1))
                    if len(sig) != 1: ctx.violation('injected %s' % params[k], 'what is given to libraries as %s is not one known function' % params[k], x.loc()); continue
                    s, fi = next(iter(sig)); given += 1
                    if 'extern "C"' not in s: ctx.violation('abi of %s' % params[k], 'the function given to libraries as %s has the calling convention of Rust, and the header calls it with that of C' % params[k], x.loc())
                    cast = casts.get(held.get(params[k]))
                    mm = re.search(r'fn\((.*)\)(?: -> (.*))?$', s)
                    if not cast or not mm: ctx.violation('injected %s' % params[k], 'the header never calls what it is given as %s' % params[k], HDR); continue
                    def cty(y):
                        y = y.strip()
                        if y == '' or y == '()': return 'void'
                        if vt['s'] in y: return 'cordy_value_t' + ('*' if '*' in y else '')
                        if y.startswith('*') and ('i8' in y or 'u8' in y or 'c_char' in y): return 'const char*' if 'const' in y else 'char*'
                        return ctype.get(y, '?' + y)
                    mine = '%s (*) (%s)' % (cty(mm.group(2) or ''), ', '.join(cty(y) for y in mm.group(1).split(',')) or 'void')
                    if '?' in mine: ctx.violation('injected %s' % params[k], 'the function given to libraries as %s has a type C does not know: %s' % (params[k], s), x.loc()); continue
                    need('type of %s' % params[k], '__builtin_types_compatible_p(%s, %s)' % (cast, mine), 'the header calls what it is given as %s as %s, and it is %s' % (params[k], cast, mine))
            elif vt['s'] in ft:
                d = d or Defs(w, x)
                if 'extern "C"' not in ft: ctx.violation('abi of calls', 'library functions are called through a pointer that is not extern "C"', x.loc())
                src = []
                for k, names in ((0, ('as_ptr', 'as_mut_ptr')), (1, ('len',))):
                    got = [dd for l in d.back(t[2][k], False) for kk, dd, _ in d.d.get(l, ()) if kk == 'c' and any(y.n in names for y in w.callee(dd[1]))] if len(t[2]) == 2 else []
                    src.append(set.union(*[d.back(dd[2][0], False) for dd in got]) if got else set())
                if not (src[0] & src[1]): ctx.violation('arguments of calls', 'a library function is not called with the arguments and their number', x.loc())
                ctx.count(calls=1)
    ctx.floor('functions given to libraries', given, 3); ctx.floor('calls of library functions', ctx.coverage.get('calls', 0), 1)
    sig = re.search(r'#define\s+CORDY_EXTERN\(name\)\s+(.*)', h.t)
    if not sig: raise Missing('CORDY_EXTERN of the header')
    A.append(('signature', 'static %s; ' % sig.group(1).strip().replace(' name(', ' c21_f(') + '_Static_assert(__builtin_types_compatible_p(__typeof__(&c21_f), cordy_value_t (*)(cordy_value_t*, size_t)), "sig");', 'library functions are not declared by the header as the interpreter calls them'))
    for a, m in h.check(A):
        if a is None: ctx.violation('header', 'the header does not compile: %s' % m, HDR)
        else: ctx.violation(a[0], a[2], HDR)
    ctx.count(assertions=len(A)); ctx.floor('assertions compiled', len(A), 20); ctx.floor('fields of values', fields, 8)
