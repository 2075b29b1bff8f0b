"""C31: the scanner divides its source into the tokens, strings and comments of the language.

The lexical grammar is written down here as an automaton over the characters of the source. It is run in
product with the code of the scanner: taking or inspecting the next character gives every class of characters
(the classes are the ones that no comparison in the code or in the grammar tells apart), and every token, error
or character of a literal that the code emits has to be the one that the grammar gives at that place."""
from typestate import *
from mir import Missing
import re

MOD = 'cordy_sys::compiler::scanner::'
OPS = {'!': 'Not', '!=': 'NotEquals', '=': 'Equals', '==': 'DoubleEquals', '>': 'GreaterThan', '>>': 'RightShift', '>>=': 'RightShiftEquals', '>=': 'GreaterThanEquals',
       '<': 'LessThan', '<<': 'LeftShift', '<<=': 'LeftShiftEquals', '<=': 'LessThanEquals', '+': 'Plus', '+=': 'PlusEquals', '-': 'Minus', '-=': 'MinusEquals', '->': 'Arrow',
       '*': 'Mul', '*=': 'MulEquals', '**': 'Pow', '**=': 'PowEquals', '/': 'Div', '/=': 'DivEquals', '|': 'BitwiseOr', '|=': 'OrEquals', '&': 'BitwiseAnd', '&=': 'AndEquals',
       '^': 'BitwiseXor', '^=': 'XorEquals', '%': 'Mod', '%=': 'ModEquals', '.': 'Dot', '.=': 'DotEquals', '...': 'Ellipsis', '(': 'OpenParen', ')': 'CloseParen',
       '[': 'OpenSquareBracket', ']': 'CloseSquareBracket', '{': 'OpenBrace', '}': 'CloseBrace', ',': 'Comma', ':': 'Colon', '_': 'Underscore', ';': 'Semicolon', '@': 'At', '?': 'QuestionMark'}
LONGER = set(OPS) | {'..', '//', '/*'}
KEYWORDS = {k: 'Keyword' + k.capitalize() for k in 'let fn return if elif else then loop while for in is not break continue do true false nil struct exit assert module self native'.split()}
KEYWORDS.update({'and': 'LogicalAnd', 'or': 'LogicalOr'})
LOW = set(map(chr, range(97, 123))); UP = set(map(chr, range(65, 91))); DIG = set('0123456789')
IDENT = LOW | UP | DIG | {'_'}
DIGITS = {10: DIG, 2: set('01'), 16: DIG | set('abcdefABCDEF')}
EOF = 'eof'


class Bad(Exception): pass


def show(c): return 'the end of the source' if c == EOF else 'any character' if c is None else repr(c)


# a tag is (state, last character taken, lookahead or None, tokens and errors to be emitted, characters to be emitted, characters emitted early, width of the location made last)
def after(state, c):
    """the state of the grammar after another character, and what is to be emitted -> (state, toks, out)"""
    k = state[0]
    if k in ('top', 'dead'):
        if c == EOF: return state, (), ''
        if k == 'dead': raise Bad('goes on after the end of the source')
        if c in ' \t\r\n': return ('top',), (), ''
        if c in LOW or c in UP: return ('ident', None, frozenset()), (), c
        if c == '0': return ('zero',), (), ''
        if c in DIG: return ('num', 10, None), (), c
        if c in '\'"': return ('str', c, False, False), (), ''
        if any(o.startswith(c) for o in LONGER): return ('op', c), (), ''
        return ('top',), (('err', 'InvalidCharacter'),), ''
    if k == 'line': return (('top',) if c in ('\n', EOF) else state), (), ''
    if k in ('block', 'block*'):
        if c == EOF: return ('dead',), (('err', 'UnterminatedBlockComment'),), ''
        return (('top',) if k == 'block*' and c == '/' else ('block*',) if c == '*' else ('block',)), (), ''
    if k == 'str':
        q, esc = state[1:3]      # and whether the character before was a backslash
        if c == EOF: return ('dead',), (('err', 'UnterminatedStringLiteral'),), ''
        if c == '\r': return state, (), ''
        if esc: return ('str', q, False, True), (), c if c in '\'"\\' else {'n': '\n', 'r': '\r', 't': '\t'}.get(c) or '\\' + c
        if c == '\\': return ('str', q, True, False), (), ''
        if c == q: return ('top',), (('tok', 'StringLiteral', None),), ''
        return ('str', q, False, False), (), c
    if c == EOF: return state, (), ''
    if k == 'ident':
        if c in IDENT: return ('ident', None, frozenset()), (), c
        raise Bad('takes %s as part of a name' % show(c))
    if k == 'zero':
        if c == 'x': return ('num', 16, None), (), ''
        if c == 'b': return ('num', 2, None), (), ''
        if c in 'ij': return ('top',), (('tok', 'IntLiteral', 0),), ''
        raise Bad('takes %s as part of a number that starts with 0' % show(c))
    if k == 'num':
        if state[2] is None:
            if c in DIGITS[state[1]]: return state, (), c
            if c == '_': return state, (), ''
            if c in 'ij': return ('cnum', state[1], None), (), ''
        raise Bad('takes %s as part of a number of base %d' % (show(c), state[1]))
    if k == 'op':
        if state[1] + c in ('//', '/*'): return (('line',) if c == '/' else ('block',)), (), ''
        if state[1] + c in LONGER: return ('op', state[1] + c), (), ''
        raise Bad('goes on to %s without a token for %r' % (show(c), state[1]))
    raise Bad('takes %s, with %s not finished' % (show(c), what(state)))


def what(s):
    return {'top': 'white space', 'dead': 'the end of the source', 'line': 'a line comment', 'block': 'a block comment', 'block*': 'a block comment', 'str': 'a string', 'ident': 'a name',
            'zero': 'a number that starts with 0', 'num': 'a number', 'cnum': 'a complex number'}.get(s[0]) or 'the operator %r' % s[1]


def emitted(state, la, name, payload):
    """a token that the grammar does not ask for at once: the state after it"""
    k = state[0]
    def end(chars, more=()):
        if la is None: raise Bad('ends %s without having looked at what follows it' % what(state))
        if la in chars or la in more: raise Bad('ends %s although %s follows' % (what(state), show(la)))
    if k == 'op':
        l = state[1]
        if any(o.startswith(l) and o != l for o in LONGER): end({o[len(l)] for o in LONGER if o.startswith(l) and o != l})
        if l == '..':
            if name != 'Dot': raise Bad('gives %s for %r' % (name, l))
            return ('op', '.!')
        if name != ('Dot' if l == '.!' else OPS[l]): raise Bad('gives %s for %r' % (name, l))
        return ('top',)
    if k == 'ident':
        end(IDENT)
        if name != (KEYWORDS[state[1]] if state[1] else 'Identifier'): raise Bad('gives %s for %s' % (name, repr(state[1]) if state[1] else 'a name'))
        if not state[1] and set(KEYWORDS) - state[2]: raise Bad('gives %s for %s' % (name, ', '.join(sorted(set(KEYWORDS) - state[2]))))
        return ('top',)
    if k == 'zero':
        end(IDENT)
        if name != 'IntLiteral' or payload != ('i', 0): raise Bad('gives %s of %s for 0' % (name, payload))
        return ('top',)
    if k in ('num', 'cnum'):
        if k == 'num': end(DIGITS[state[1]] | {'_', 'i', 'j'})
        if name != ('IntLiteral' if k == 'num' else 'ComplexLiteral') or payload != ('sym', 'number'): raise Bad('gives %s of %s for %s' % (name, payload, what(state)))
        if state[2] != 'ok': raise Bad('gives a number for digits that were not converted')
        return ('top',)
    raise Bad('gives %s in %s' % (name, what(state)))


def failed(state, la, name):
    k = state[0]
    if k == 'zero' and name == 'InvalidNumericPrefix':
        if la is None or la not in IDENT - set('xbij'): raise Bad('reports %s for 0 before %s' % (name, show(la)))
        return ('top',)
    if k in ('num', 'cnum') and name == 'InvalidNumericValue' and state[2] == 'fail': return ('top',)
    raise Bad('reports %s in %s' % (name, what(state)))


class Q(TQuery):
    PREDICATES = dict(is_ascii_alphanumeric=lambda c: c.isascii() and c.isalnum(), is_ascii_alphabetic=lambda c: c.isascii() and c.isalpha(), is_ascii_digit=lambda c: c in DIG,
                      is_ascii_lowercase=lambda c: c in LOW, is_ascii_uppercase=lambda c: c in UP, is_ascii_hexdigit=lambda c: c in DIGITS[16], is_ascii_whitespace=lambda c: c in ' \t\n\x0c\r',
                      is_alphanumeric=str.isalnum, is_alphabetic=str.isalpha, is_numeric=str.isnumeric, is_whitespace=str.isspace, is_ascii=str.isascii, is_lowercase=str.islower, is_uppercase=str.isupper)
    max_tags = 60000
    liveness = True; eager = True
    def __init__(self, w):
        super().__init__(); self.w = w; self.bad = {}; self.events = {}; self.states = set()
        self.mine = [x for x in w.insts if x.ws and x.body is not None and x.p.startswith(MOD) and '::tests' not in x.p]
        def tok(d):
            i = [t for t in w.types if t['k'] == 'adt' and t['d'].endswith('::' + d) and t['d'].startswith('cordy_sys::compiler')]
            if not i: raise Missing(d)
            return [v[0] for v in i[0]['v']]
        self.toks = tok('ScanToken'); self.errs = tok('ScanErrorType')
        e = [t for t in w.types if t['k'] == 'adt' and t['d'].endswith('::ScanError')]
        f = [i for t in e for i, y in enumerate(t['v'][0][2]) if w.types[y[1]].get('d', '').endswith('::ScanErrorType')]
        if len(f) != 1: raise Missing('the kind of an error')
        self.efield = f[0]
        def touches(x): return any(self.event(y) or y.p == 'cordy_sys::Location::new' for b in x.blocks if b['t'][0] == 'call' for y in w.callee(b['t'][1]))
        self.touch = [x for x in self.mine if touches(x)]
        self.rel = {i for i in w.reaching(self.touch) if w.insts[i].ws}
        self.near = {x.i for x in self.mine}
        self.chars = self.classes()

    def event(self, y):
        if y.ws: return None
        if y.n in ('next', 'peek') and 'Peekable' in y.p: return y.n
        if y.n == 'from_str_radix': return 'radix'
        if y.n == 'eq' and 'str' in y.p and 'PartialEq' in y.p: return 'eq'
        if y.n == 'push' and y.body is not None and y.argc == 2:
            t = self.w.types[y.locals[2]]
            if t['k'] == 'char': return 'char'
            if t['k'] == 'tuple' and any(self.w.types[e].get('d', '').endswith('::ScanToken') for e in t['f']): return 'token'
            if t.get('d', '').endswith('::ScanError'): return 'error'
        return None

    def classes(self):
        """one of each class of characters that neither the code nor the grammar tells apart"""
        cs = set()
        def const(k):
            if isinstance(k, dict) and isinstance(k.get('v'), int) and self.w.types[k['t']]['k'] == 'char': cs.add(k['v'])
        def walk(r):
            if isinstance(r, list):
                if len(r) == 2 and r[0] == 'k': const(r[1])
                for e in r: walk(e)
        for x in self.mine:
            for b in x.blocks:
                for s in b['s']: walk(s)
                t = b['t']
                if t[0] == 'switch':
                    if t[1][0] != 'k' and self.w.types[self.w.place_ty(x, t[1][1])]['k'] == 'char': cs |= {int(v) for v, _ in t[2]}
                walk(t[1] if t[0] == 'switch' else t[2] if t[0] == 'call' else None)
        cs |= {ord(c) for o in LONGER for c in o} | {ord(c) for c in ' \t\r\n\'"\\azAZ019fFxbijnrt_'}
        reps = set(); last = -1
        for c in sorted(cs):
            if c > last + 1: reps.add(chr(last + 1 if last + 1 < 0xd800 or last + 1 > 0xdfff else 0xe000))
            reps.add(chr(c)); last = c
        # of the rest, one below and one above the letters without accents
        reps.add(chr(last + 1)); reps |= set('\x0c\x85\xa0\xb2\xc9\xe9\u0660') | {chr(0x10ffff)}
        return sorted(reps)

    def relevant(self, eng, x): return x.i in self.rel or x.i in self.near or ('option::Option' in x.p and x.body is not None)
    def descend(self, eng, x, args): return False

    def model(self, eng, x, args, fr):
        if x.n in ('eq', 'ne') and 'Option' in x.p and len(args) == 2:
            a, b = (v[1] if v[0] == 'r' else v for v in args)
            if a[0] == b[0] == 'a' and None not in (a[1], b[1]):
                p, r = dict(a[2]).get(0), dict(b[2]).get(0)
                e = False if a[1] != b[1] else True if a[1] == 0 else p[1] == r[1] if p and r and p[0] == r[0] == 'i' else None
                if e is not None: return ('i', int(e == (x.n == 'eq')))
            return None
        if 'char' in x.p and x.n in self.PREDICATES and args:
            v = args[0][1] if args[0][0] == 'r' else args[0]
            if v[0] == 'i':
                c = chr(v[1])
                return ('i', int(self.PREDICATES[x.n](c)))
        if 'option::Option' in x.p and x.n in ('copied', 'cloned', 'unwrap', 'expect', 'is_some', 'is_none') and args:
            v = args[0][1] if x.n.startswith('is_') and args[0][0] == 'r' else args[0]
            if v[0] != 'a' or v[1] is None: return None
            p = dict(v[2]).get(0, T)
            if x.n.startswith('is_'): return ('i', int((v[1] == 1) == (x.n == 'is_some')))
            if x.n in ('copied', 'cloned'): return ('a', 1, ((0, p[1] if p[0] == 'r' else T),)) if v[1] == 1 else v
            return ('never',) if v[1] == 0 else p
        return None

    def report(self, fr, tag, e):
        key = '%s %s' % (tag[0][0] if tag[0][0] != 'op' else 'op ' + tag[0][1], re.sub(r"'[^']*'|\"[^\"]*\"", '_', str(e)))
        self.bad.setdefault(key, 'in %s, the scanner %s' % (what(tag[0]), e))

    def take(self, tag, c):
        state, last, la, toks, out, early, width = tag
        if toks: raise Bad('takes the next character without %s' % ' '.join(map(str, toks[0][:2])))
        if out: raise Bad('takes the next character without adding %r to the literal' % out)
        if state[0] == 'op' and c == EOF: raise Bad('goes on without a token for %r' % state[1])
        state, toks, out = after(state, c)
        if c == '\n': toks = (('tok', 'NewLine', None),) + toks
        while early and out and early[0] == out[0]: early = early[1:]; out = out[1:]
        if early: raise Bad('adds %r to the literal, which is not there' % early)
        self.states.add(state[0])
        return (state, c if out or state[0] in ('top', 'op', 'line', 'block', 'block*', 'str', 'zero') else None, EOF if c == EOF else None, toks, out, '', None)

    def t_call(self, eng, fr, bi, t, x, args, tag, st):
        if x.p == 'cordy_sys::Location::new':
            a = args[1] if len(args) > 1 else T
            return [(tag[:6] + (a[1] if a[0] == 'i' else None,), T)]
        e = self.event(x)
        if e is None: return None
        self.events[e] = self.events.get(e, 0) + 1
        state, last, la, toks, out, early, width = tag
        try:
            if e in ('next', 'peek'):
                r = []
                for c in ([la] if la is not None else self.chars + [EOF]):
                    try:
                        nt = self.take(tag, c) if e == 'next' else tag[:2] + (c,) + tag[3:]
                        v = ('a', 0, ()) if c == EOF else ('a', 1, ((0, ('i', ord(c)) if e == 'next' else ('r', ('i', ord(c)))),))
                        r.append((nt, v))
                    except Bad as b: self.report(fr, tag, b)
                return r
            if e == 'char':
                v = args[1]
                if v[0] != 'i': raise Bad('adds a character to a literal which is not that of the source (in %s)' % fr.inst.n)
                c = chr(v[1])
                if out:
                    if out[0] != c: raise Bad('adds %r to a literal where it must add %r' % (c, out[0]))
                    out = out[1:]
                    return [((state, last if out or state[0] == 'str' else None, la, toks, out, early, width), T)]
                if la == c and not early: return [((state, last, la, toks, out, early + c, width), T)]
                raise Bad('adds %r to a literal, with %s taken last' % (c, show(last)))
            if e == 'radix':
                if state[0] in ('num', 'cnum'):
                    if args[1] != ('i', state[1]): raise Bad('converts digits of base %d as base %s' % (state[1], args[1]))
                    return [((state[:2] + (ok,),) + tag[1:], ('a', v, ((0, p),) if p else ())) for ok, v, p in (('ok', 0, ('sym', 'number')), ('fail', 1, None))]
                return None
            if e == 'eq':
                if state[0] != 'ident': return None
                k = [a[1] for a in (a[1] if a[0] == 'r' else a for a in args) if a[0] == 's']
                if len(k) != 1: return None
                if state[1] is not None or k[0] in state[2]: return [(tag, ('i', int(k[0] == state[1])))]
                neg = (('ident', None, state[2] | {k[0]}),) + tag[1:]
                if k[0] not in KEYWORDS: raise Bad('treats the name %r apart' % k[0])
                return [(neg, ('i', 0)), ((('ident', k[0], state[2]),) + tag[1:], ('i', 1))]
            if e in ('token', 'error'):
                v = args[1]; f = dict(v[2]) if v[0] == 'a' else {}
                y = f.get(1 if e == 'token' else self.efield, T)
                if y[0] != 'a' or y[1] is None: raise Bad('gives a%s that is not known (in %s)' % (' token' if e == 'token' else 'n error', fr.inst.n))
                name = (self.toks if e == 'token' else self.errs)[y[1]]; p = dict(y[2]).get(0, T)
                kind = 'tok' if e == 'token' else 'err'
                if toks and toks[0][0] == kind and toks[0][1] == name:
                    if kind == 'tok' and toks[0][2] is not None and p != ('i', toks[0][2]): raise Bad('gives %s of %s' % (name, p))
                    if name == 'NewLine' and width not in (None, 1): raise Bad('gives a NewLine of width %s' % width)
                    if out and name != 'NewLine': raise Bad('ends a literal without %r' % out)
                    return [((state, last, la, toks[1:], out, early, None), T)]
                if toks: raise Bad('gives %s where it must give %s' % (name, toks[0][1]))
                if state[0] == 'dead' and name == 'StringLiteral': return [(tag, T)]
                if out or early: raise Bad('ends a literal without %r' % (out or early))
                ns = emitted(state, la, name, p) if kind == 'tok' else failed(state, la, name)
                n = None if kind == 'err' else 1 if state[0] == 'zero' or state[0] == 'op' and state[1] in ('..', '.!') else len(state[1]) if state[0] == 'op' else None
                if n and width not in (None, n): raise Bad('gives %s a width of %s instead of %d' % (name, width, n))
                return [((ns, None, la, (), '', '', None), T)]
        except Bad as b:
            self.report(fr, tag, b); return []
        return None

    def finished(self, tag):
        state, last, la, toks, out, early, width = tag
        if toks: raise Bad('ends without %s' % ' '.join(map(str, toks[0][:2])))
        if la != EOF: raise Bad('ends although not all of the source was read')
        if state[0] not in ('top', 'line', 'dead'): raise Bad('ends with %s not finished' % what(state))


def run(ctx):
    w = ctx.world('cordy')
    try: q = Q(w)
    except Missing as e: ctx.violation('anchor %s' % e, 'the construct the rule is anchored on is not there: %s' % e, 'cordy-sys/src'); return
    ctx.rule('the lexical grammar as an automaton over the characters of the source, in product with the code of the scanner: each token, error and character of a literal emitted is the one the grammar gives there, a token is only ended with the next character known not to continue it, and nothing is left out')
    roots = [x for x in q.mine if x.i in q.rel and not any(x.i != y.i and any(x.i == z.i for b in y.blocks if b['t'][0] == 'call' for z in w.callee(b['t'][1])) for y in q.mine)]
    ctx.count(functions=len([x for x in q.mine if x.i in q.rel]), classes=len(q.chars), tokens=len(q.toks), errors=len(q.errs))
    eng = TEngine(w, q, max_ctx=100000)
    n = 0
    for x in roots:
        try: r = eng.solve(x, tuple(T for _ in range(x.argc)), (('top',), None, None, (), '', '', None))
        except TooMany as e: ctx.violation('too many states', 'the states of the scanner do not come to an end: %s' % e, x.loc()); continue
        for tag, _ in r:
            n += 1
            try: q.finished(tag)
            except Bad as b: q.report(None, tag, b)
    ctx.count(states=len(eng.sum), outcomes=n, **{'events_' + k: v for k, v in q.events.items()})
    ctx.floor('functions that take characters', len(roots), 1)
    ctx.floor('outcomes of the scanner', n, 2)
    ctx.floor('states of the grammar reached', len(q.states), 10)
    ctx.floor('kinds of tokens', len(q.toks), 60)
    for k in ('next', 'peek', 'token', 'error', 'char', 'radix', 'eq'): ctx.floor('events ' + k, q.events.get(k, 0), 1)
    for k, m in q.bad.items(): ctx.violation(k, m, MOD)
    ctx.sample('states %s' % sorted(q.states)); ctx.sample('classes %s' % ''.join(c for c in q.chars if c.isprintable()))
