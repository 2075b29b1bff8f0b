"""C20: highlighted source is well formed and cannot bring in markup of its own."""
import re, html
from typestate import *
from mir import Missing, short

MOD = 'cordy-sys/src/syntax.rs'
HTML = "<>&\"'"
TERM = '[]\\'
TAKE = ('take', 'replace', 'insert')


def adt(w, t): return w.types[w.strip_ref(t)].get('d', '')
def show(c): return repr(chr(c)) if isinstance(c, int) else str(c)


def chars_of(w, fns):
    """the characters that some function treats apart, and one that none does"""
    out = {10, 13, 9, 32} | {ord(c) for c in HTML + TERM}
    for x in fns:
        for b in x.blocks:
            t = b['t']
            if t[0] == 'switch':
                o = t[1]
                if o[0] != 'k' and w.types[w.place_ty(x, o[1])].get('k') == 'char': out |= {int(v) for v, _ in t[2]}
            for s in b['s']:
                if s[0] == '=' and s[2][0] in ('bin', 'cbin'):
                    for o in s[2][2:4]:
                        if o[0] == 'k' and isinstance(o[1].get('v'), int) and w.types[o[1]['t']].get('k') == 'char': out.add(o[1]['v'])
            for a in (t[2] if t[0] == 'call' else ()):
                if a[0] == 'k' and isinstance(a[1].get('v'), int) and a[1].get('t') is not None and w.types[a[1]['t']].get('k') == 'char': out.add(a[1]['v'])
    return sorted({c for c in out if c < 0x110000} | {ord('x'), 0x3b1})


def strip(v):
    while v[0] == 'r': v = v[1]
    return v


def plain(w, x):
    """a comparison of two values of an enum without payload"""
    if x.body is None or x.argc != 2: return x.body is None
    t = x.locals[1]
    for _ in range(3): t = w.strip_ref(t)
    t = w.types[t]
    return t['k'] == 'adt' and t['ak'] == 'enum' and all(not v[2] for v in t['v'])


class Known(TQuery):
    def model(self, eng, x, args, fr):
        if x.n in ('eq', 'ne') and len(args) == 2:
            a, b = (strip(y) for y in args)
            if a[0] == b[0] == 'a' and a[1] is not None and b[1] is not None and not a[2] and not b[2] and plain(self.w, x): return ('i', int((a[1] == b[1]) == (x.n == 'eq')))
            return None
        if x.ws or 'option::Option' not in x.p or not args: return None
        v = args[0][1] if args[0][0] == 'r' else args[0]
        if v[0] != 'a' or v[1] is None: return None
        if x.n in ('is_some', 'is_none'): return ('i', int((v[1] == 1) == (x.n == 'is_some')))
        if x.n in ('unwrap', 'expect', 'unwrap_unchecked'): return ('never',) if v[1] == 0 else dict(v[2]).get(0, T)
        if x.n in ('copied', 'cloned') and v[1] == 1:
            y = dict(v[2]).get(0, T)
            return ('a', 1, ((0, y[1] if y[0] == 'r' else y),))
        return v if x.n in ('copied', 'cloned') else None


class Walk(Known):
    """the source walked over: (open element, character taken, character looked at, end seen, current element, element remembered)"""
    liveness = True; eager = True; max_tags = 20000
    def __init__(self, w, leaf):
        super().__init__(); self.w = w; self.leaf = leaf; self.bad = {}; self.n = {}; self.begun = set()
        en = [t for t in w.types if t['k'] == 'adt' and t['d'].endswith('::ScanTokenType')]
        if not en: raise Missing('ScanTokenType')
        self.en = en[0]; self.names = [v[0] for v in self.en['v']]; self.ed = self.en['d']
        self.fmt = {x.i for x in w.insts if x.ws and x.body is not None and x.n in ('begin', 'end', 'push') and re.search(r'<.* as .*syntax::Formatter>', x.p) and x.argc == 2}
        self.leaves = {x.i for x in w.insts if x.i in self.fmt and adt(w, x.locals[1]) == leaf}
        self.alpha = (10, ord('x'))
        self.slots = set()
        src = [x for x in w.insts if x.i in self.leaves or (x.n in ('next', 'peek', 'next_if') and self.char_iter(x))]
        self.rel = set(w.reaching(src)) if src else set()
        self.rel |= {x.i for x in w.insts if x.ws and x.body is not None and any(self.opt_ty(l) for l in x.locals)}
    def char_iter(self, x): return x.body is not None and x.argc >= 1 and 'str::Chars' in self.w.tstr(x.locals[1]) or (x.body is None and x.n in ('next', 'peek', 'next_if') and 'Chars' in x.p)
    def opt_ty(self, t):
        t = self.w.types[t]
        return t['k'] == 'adt' and t['d'].endswith('option::Option') and t['a'] and adt(self.w, t['a'][0]) == self.ed and self.w.types[t['a'][0]]['k'] == 'adt'
    def relevant(self, eng, x): return x.i in self.rel and x.i not in self.leaves and '::compiler::' not in x.p and (x.ws or not self.char_iter(x))
    def descend(self, eng, x, args): return x.ws
    def ret_key(self, v): return v[1] if v[0] in ('a', 'i') else None
    def report(self, k, m): self.bad.setdefault(k, m)
    def slot_field(self, x, place):
        """does a place name the element that a wrapper remembers"""
        if len(place) < 2: return False
        for n in range(len(place), 1, -1):
            if isinstance(place[n - 1], int):
                b = self.w.place_ty(x, place, n - 1)
                if b is None: return False
                ty = self.w.types[b]
                if ty['k'] != 'adt' or not ty['d'].startswith('cordy'): return False
                ft = self.w.field_ty(b, None, place[n - 1])
                return ft is not None and self.opt_ty(ft) and len(place) == n
        return False
    def t_stmt(self, eng, fr, bi, stmt, val, st, tag):
        if self.slot_field(fr.inst, stmt[1]):
            self.slots.add(fr.inst.n)
            v = val[1] if val[0] == 'a' else '?'
            if v == 1:
                p = dict(val[2]).get(0, T); v = ('?' if p[0] != 'a' or p[1] is None else p[1])
            elif v == 0: v = None
            return tag[:5] + (v,)
        return tag
    def value(self, slot):
        if slot is None: return ('a', 0, ())
        return ('a', 1, ((0, ('a', slot, ())),)) if slot != '?' else T
    def t_call(self, eng, fr, bi, t, x, args, tag, st):
        opened, took, look, end, cur, slot = tag
        if x.i in self.leaves:
            self.n[x.n] = self.n.get(x.n, 0) + 1
            v = args[1] if len(args) > 1 else T
            if x.n == 'push':
                if took is None: self.report('push twice', 'a character is put out that was not taken from the source'); return []
                if v[0] == 'i' and v[1] != took: self.report('push %s' % show(v[1]), 'a character %s of the source is put out as %s' % (show(took), show(v[1])))
                return [((opened, None, look, end, cur, slot), T)]
            k = v[1] if v[0] == 'a' and v[1] is not None else '?'
            name = self.names[k] if k != '?' else 'some kind'
            if x.n == 'begin':
                if opened is not None: self.report('nested %s' % name, 'an element of %s is begun inside one of %s' % (name, self.names[opened] if opened != '?' else 'some kind')); return []
                self.begun.add(k)
                return [((k, took, look, end, cur, slot), T)]
            if opened is None: self.report('end %s' % name, 'an element of %s is ended that was not begun' % name); return []
            if opened != k: self.report('end %s as %s' % (self.names[opened] if opened != '?' else '?', name), 'an element of %s is ended as one of %s' % (self.names[opened] if opened != '?' else 'some kind', name))
            return [((None, took, look, end, cur, slot), T)]
        if x.i not in self.fmt and x.n in TAKE and (x.body is None or not x.ws) and t[3] is not None and self.opt_ty(self.w.place_ty(fr.inst, t[3])) and self.of_slot(fr.inst, t[2][0]):
            new = None
            if x.n != 'take':
                v = args[1] if len(args) > 1 else T
                if self.opt_ty_val(v): new = None if v[1] == 0 else (dict(v[2]).get(0, T)[1] if dict(v[2]).get(0, T)[0] == 'a' else '?')
                else: new = v[1] if v[0] == 'a' and v[1] is not None else '?'
            return [((opened, took, look, end, cur, new), self.value(slot))]
        if not x.ws and x.n in ('next', 'peek', 'next_if', 'nth', 'last', 'skip') and args:
            rt = self.w.types[self.w.place_ty(fr.inst, t[3])]
            if rt['k'] == 'adt' and rt['d'].endswith('option::Option') and rt['a']:
                it = rt['a'][0]; ie = self.w.types[self.w.strip_ref(it)]
                if ie['k'] == 'char':
                    self.n[x.n] = self.n.get(x.n, 0) + 1
                    ref = self.w.types[it]['k'] == 'ref'
                    def some(c): return ('a', 1, ((0, ('r', ('i', c)) if ref else ('i', c)),))
                    none = [((opened, took, None, True, cur, slot), ('a', 0, ()))]
                    cs = [look] if look is not None else self.alpha
                    if x.n == 'peek':
                        if end: return none
                        return [((opened, took, c, False, cur, slot), some(c)) for c in cs] + (none if look is None else [])
                    if x.n in ('next', 'next_if'):
                        if end: return none
                        if took is not None: self.report('drop', 'a character of the source is taken while the one before was not put out'); return []
                        r = [((opened, c, None, False, cur, slot), some(c)) for c in cs] + (none if look is None else [])
                        if x.n == 'next_if': r.append(((opened, took, look, end, cur, slot), ('a', 0, ())))
                        return r
                    self.report('skip', 'characters of the source are skipped by %s' % x.n); return []
                if ie['k'] == 'tuple':
                    fs = [i for i, f in enumerate(ie['f']) if adt(self.w, f) == self.ed]
                    if fs and x.n == 'next':
                        self.n['token'] = self.n.get('token', 0) + 1
                        ref = self.w.types[it]['k'] == 'ref'
                        out = [((opened, took, look, end, None, slot), ('a', 0, ()))]
                        for k in range(len(self.names)):
                            v = ('a', None, ((fs[0], ('a', k, ())),))
                            out.append(((opened, took, look, end, k, slot), ('a', 1, ((0, ('r', v) if ref else v),))))
                        return out
        return None
    def opt_ty_val(self, v): return v[0] == 'a' and v[1] is not None and bool(v[1] == 0 or v[2] and v[2][0][1][0] == 'a' and v[1] == 1)
    def of_slot(self, x, o):
        """does an operand refer to the remembered element"""
        if o[0] == 'k': return False
        seen = set(); todo = [o[1][0]]
        while todo:
            l = todo.pop()
            if l in seen: continue
            seen.add(l)
            for b in x.blocks:
                for s in b['s']:
                    if s[0] == '=' and len(s[1]) == 1 and s[1][0] == l:
                        r = s[2]
                        if r[0] in ('ref', 'addr', 'rawptr'):
                            p = next((y for y in r[1:] if isinstance(y, (list, tuple))), None)
                            if p is not None:
                                if self.slot_field(x, tuple(map(tup, p))): return True
                                todo.append(p[0])
                        if r[0] in ('use', 'cast'):
                            for y in r[1:]:
                                if isinstance(y, (list, tuple)) and y and y[0] in ('c', 'm') : todo.append(y[1][0])
        return False


class WEngine(TEngine):
    """reads of the remembered element give what the state says"""
    def read(self, inst, st, place, escaped=()):
        q = self.q
        if len(place) > 1 and self.cur_tag is not None:
            if q.slot_field(inst, place): return q.value(self.cur_tag[5])
            # a field inside it
            for n in range(2, len(place)):
                if q.slot_field(inst, place[:n]):
                    v = q.value(self.cur_tag[5])
                    return self.proj(inst, st, v, self.w.place_ty(inst, place, n), place[n:])
        return TEngine.read(self, inst, st, place, escaped)


class Emit(Known):
    """what a formatter writes: the tag is (pieces written so far, skipped or not)"""
    liveness = True; eager = True; max_tags = 2000
    def __init__(self, w, leaf):
        super().__init__(); self.w = w; self.n = 0; self.leaf = leaf
    def owns(self, x): return x.body is not None and x.argc and adt(self.w, x.locals[1]) == self.leaf
    def relevant(self, eng, x): return x.ws and x.body is not None
    def descend(self, eng, x, args): return x.ws
    def ret_key(self, v): return v[1] if v[0] in ('a', 'i') else None
    def t_call(self, eng, fr, bi, t, x, args, tag, st):
        out, skip = tag
        if x.n in ('contains', 'contains_key') and not x.ws and 'Hash' in x.p:
            return [((out, skip), ('i', int(skip)))] if skip is not None else [((out, k), ('i', k)) for k in (0, 1)]
        if x.ws or not t[2]: return None
        ops = [self.w.types[self.w.strip_ref(self.w.place_ty(fr.inst, o[1]))].get('d', '') if o[0] != 'k' else '' for o in t[2]]
        first = t[2][0]
        if ops[0].endswith('string::String') and first[0] != 'k':
            ft = self.w.types[self.w.place_ty(fr.inst, first[1])]
            if ft['k'] == 'ref' and ft.get('m') or x.n == 'add_assign':
                if x.n in ('deref', 'as_str', 'reserve', 'as_mut', 'borrow_mut'): return None
                v = args[1] if len(args) > 1 else T
                while v[0] == 'r': v = v[1]
                self.n += 1
                if x.n == 'push' and v[0] == 'i': p = chr(v[1])
                elif x.n in ('push_str', 'add_assign') and v[0] == 's': p = v[1]
                else: p = None
                if p == '': return [(tag, T)]
                out = out + (p,) if len(out) < 5 else out[:5] + ('+',)
                return [((out, skip), T)]
        return None


def opening(lang, s):
    """is this one whole opening tag, that closes nothing and holds nothing else"""
    if lang == 'html': return re.fullmatch(r'<([a-z]+)((?: [a-z-]+="[^"<>&]*")*)>', s)
    return re.fullmatch(r'\[\[[a-z!]*;[#a-z0-9]*;[#a-z0-9]*(?:;[^\[\]]*)?\]', s)


def closing(lang, s, o):
    return s == '</%s>' % o.group(1) if lang == 'html' else s == ']'


def run(ctx):
    ctx.rule('the walk over the source in product with the states of an element being open and a character being taken (every character taken is put out once, unchanged, and elements are begun and ended in turn, with the same kind); the text each formatter writes for every kind of element and for every character it treats apart, from constant propagation: opening and closing tags match, and characters with a meaning in the output are written as entities')
    total = 0
    for crate, leafname, lang in (('cordy', 'RenderedFormatter', 'html'), ('cordy_web', 'TerminalFormatter', 'term')):
        w = ctx.world(crate)
        impls = [x for x in w.insts if x.ws and x.body is not None and x.n in ('begin', 'end', 'push') and x.argc == 2 and re.search(r'<.* as .*syntax::Formatter>', x.p)]
        leaves = {adt(w, x.locals[1]) for x in impls if adt(w, x.locals[1]).split('::')[0] == crate or '::' not in adt(w, x.locals[1])}
        if not leaves: ctx.violation('anchor %s' % crate, 'no formatter of the highlighter is found in %s' % crate, crate); continue
        for leaf in sorted(leaves):
            try: one(ctx, w, crate, leaf, lang, impls)
            except Missing as e: ctx.violation('anchor %s %s' % (crate, e), 'the construct the rule is anchored on is not there: %s' % e, MOD)
            except TooMany as e: ctx.violation('too many states %s' % crate, 'the states of the highlighter do not come to an end: %s' % e, MOD)
            total += 1
    ctx.floor('formatters', total, 2)


def one(ctx, w, crate, leaf, lang, impls):
    q = Walk(w, leaf)
    scans = [x for x in w.insts if x.ws and x.body is not None and x.p.startswith('cordy_sys::syntax::') and x.k == 'item' and x.n == 'scan']
    if not scans: raise Missing('syntax::scan')
    special = HTML if lang == 'html' else TERM
    fns = [w.insts[i] for i in w.reach(scans) if w.insts[i].ws and w.insts[i].body is not None and ('syntax' in w.insts[i].p or w.insts[i].i in q.leaves)]
    q.alpha = tuple(c for c in chars_of(w, fns))
    eng = WEngine(w, q, max_ctx=100000)
    for s in scans:
        r = eng.solve(s, tuple(T for _ in range(s.argc)), (None, None, None, False, None, None))
        for (opened, took, look, end, cur, slot), _ in r:
            if opened is not None: q.report('left open', 'the text may end inside an element of %s' % (q.names[opened] if opened != '?' else 'some kind'))
            if took is not None: q.report('lost', 'a character of the source may be taken and not put out')
            if not end: q.report('cut', 'the highlighter may end before the source does')
        ctx.count(outcomes=len(r))
        if not r: q.report('no end', 'the highlighter never ends')
    for k, m in sorted(q.bad.items()): ctx.violation('walk %s' % k, m, MOD)
    ctx.count(states=len(eng.sum), **{'events_' + k: v for k, v in q.n.items()})
    for k in ('begin', 'end', 'push', 'next', 'token'): ctx.floor('%s %s' % (crate, k), q.n.get(k, 0), 1)
    ctx.floor('kinds of elements begun in %s' % crate, len(q.begun), 6)
    # what the formatter writes
    m = {x.n: x for x in impls if adt(w, x.locals[1]) == leaf}
    if set(m) != {'begin', 'end', 'push'}: raise Missing('methods of ' + leaf)
    def writes(x, v, skip=None):
        e = Emit(w, leaf); en = TEngine(w, e, max_ctx=5000)
        r = en.solve(x, (T, v), ((), skip))
        return sorted({k[0] for k in r}, key=str), e
    cases = 0
    for k in sorted(q.begun, key=str):
        if k == '?': ctx.violation('kind unknown %s' % crate, 'an element of a kind that is not known is begun', MOD); continue
        name = q.names[k]
        for skip in (0, 1):
            (b, _), (e, _) = writes(m['begin'], ('a', k, ()), skip), writes(m['end'], ('a', k, ()), skip)
            b = {p for p, _ in b}; e = {p for p, _ in e}
            cases += 1
            if len(b) != 1 or len(e) != 1: ctx.violation('tag %s' % name, '%s writes different things for elements of %s' % (short(leaf), name), m['begin'].loc()); continue
            b, e = b.pop(), e.pop()
            dyn = None in b or '+' in b
            bs = ''.join(p or '' for p in b); es = ''.join(p if p else '?' for p in e)
            if not b and not e: continue
            if not b: ctx.violation('close %s%s' % (name, ' skipped' if skip else ''), '%s closes an element of %s%s by %r without having opened one' % (short(leaf), name, ' that is left out' if skip else '', es), m['end'].loc()); continue
            if not e: ctx.violation('open %s%s' % (name, ' skipped' if skip else ''), '%s opens an element of %s%s by %r and never closes it' % (short(leaf), name, ' that is left out' if skip else '', bs), m['begin'].loc()); continue
            if dyn: continue
            o = opening(lang, bs)
            if not o: ctx.violation('opening %s' % name, '%s begins an element of %s by %r, which is not one opening tag' % (short(leaf), name, bs), m['begin'].loc())
            elif not closing(lang, es, o): ctx.violation('closing %s' % name, '%s ends an element of %s by %r, which does not close %r' % (short(leaf), name, es, bs), m['end'].loc())
    own = [w.insts[i] for i in w.reach([m['push']]) if w.insts[i].ws and w.insts[i].body is not None]
    for c in chars_of(w, own):
        ch = chr(c)
        outs, e = writes(m['push'], ('i', c))
        cases += 1
        for out, _ in outs:
            if any(p is None for p in out):
                if ch in special or ch == '\n': ctx.violation('char %s %s' % (lang, show(c)), '%s writes %s in a way that is not known' % (short(leaf), show(c)), m['push'].loc())
                continue
            s = ''.join(p for p in out if p != '+'); more = '+' in out
            bad = None
            for p in out:
                if p == '+': continue
                rest = re.sub(r'&(?:[a-z]+|#\d+);', '', p) if lang == 'html' or '&#' in p else p
                if any(y in rest for y in special): bad = 'writes %s as %r, where it has a meaning of its own' % (show(c), p)
            d = html.unescape(s)
            if bad is None:
                if ch == '\t' and s and not s.strip(' \t'): pass
                elif ch == '\t' and not s and len(outs) > 1: pass
                elif ch == '\r' and not s: pass
                elif more or d != ch: bad = 'writes %s as %r' % (show(c), s + ('…' if more else ''))
            if bad: ctx.violation('char %s %s' % (lang, show(c)), '%s %s' % (short(leaf), bad), m['push'].loc())
    ctx.count(cases=cases)
    ctx.floor('cases of %s' % crate, cases, 20)
