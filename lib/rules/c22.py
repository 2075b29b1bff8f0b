"""C22: operators bind exactly as the documented precedence table says."""
import re
from parsing import *
from rules.c04 import spelling

A = 'IntLiteral'; ID = 'Identifier'
DOC = 'docs/language.md'


def table(ctx):
    """[[spelling]] of the documented table, tightest level first"""
    text = ctx.read(DOC)
    i = text.find('#### Precedence')
    if i < 0: raise Missing('the precedence table of the language reference')
    rows = re.findall(r'^\|\s*(\d+)\s*\|(.*?)\|[^|]*\|\s*$', text[i:i + 6000], re.M)
    out = []
    for n, cells in rows:
        if int(n) != len(out) + 1: break
        out.append([s.replace('\u2223', '|') for s in re.findall(r'`([^`]+)`', cells)])
    return out


class RootQ(ParseQ):
    def opaque(self, x):
        if x.self_ty == EXPR: return False
        rt = self.w.types[x.locals[0]]
        return any(self.exprs_in(x.locals[k + 1]) != (0, False) for k in range(x.argc)) and rt.get('d') != EXPR


def run(ctx):
    w = ctx.world()
    ctx.rule('For every pair of operators (and prefix, suffix, bracket and assignment context) the parser is analysed on the token string `a op1 b op2 c` with only the kinds of the tokens known: abstract parsing, the remaining tokens being the state of a typestate automaton over all parser functions, which yields the set of all syntax tree constructor sequences the code can perform, in postfix order. Reported: a pair for which any possible sequence is not the tree which the precedence table in %s prescribes.' % DOC)
    rows = table(ctx)
    if len(rows) < 10: raise Missing('ten levels in the precedence table')
    tok = {}
    for t, s in spelling(w).items(): tok.setdefault(s, t)
    def toks(s):
        if s in tok: return (tok[s],)
        if ' ' in s: return tuple(tok[p] for p in s.split())
        if s.endswith('=') and s[:-1].isalpha(): return ((ID, s[:-1]), tok['='])
        raise Missing('token ' + s)
    levels = {}; assigns = []
    for n, row in enumerate(rows, 1):
        for s in row:
            if 3 <= n <= 9: levels[s] = n
            elif n == 10: assigns.append(s)
    prefix = [s for s in rows[1] if s != '->']
    q = RootQ(w); e = ParseE(w, q)
    root = w.need(name='parse_expr')[0]
    stmt = [x for x in w.fns(name='parse_expression') if is_parser(x)]
    if not stmt: raise Missing('parse_expression')
    stmt = stmt[0]
    where = root.loc()
    def logs(ts, r=root):
        ctx.count(token_strings=1)
        out = e.solve(r, [T] * r.argc, (tuple(ts), (), ()))
        res = set()
        for (tg, _) in out:
            res.add(norm(tg[1]) if not tg[0] and not tg[2] else ('rest', tg[0], norm(tg[1])))
        return res
    ident = set()
    def norm(log):
        out = []
        for ev in log:
            if ev in ident and (not out or out[-1][0] != 'push'): continue
            out.append(ev)
        return tuple(out)
    def one(ts, what, r=root):
        l = logs(ts, r)
        if len(l) != 1 or next(iter(l))[0] == 'rest':
            ctx.violation('shape %s' % what, 'the parser does not build one tree for %s: %s' % (what, [text(x) for x in sorted(l, key=repr)][:3] or 'none'), where); return None
        return next(iter(l))
    base = logs((A,))
    if len(base) != 1 or next(iter(base))[0] == 'rest': raise Missing('a single operand as an expression')
    b = next(iter(base)); L = b[0]; ident |= set(b[1:])
    if L[1] or L[2]: raise Missing('a leaf for a literal')
    def sub(t, k, u):
        """template t with its k-th operand replaced by u"""
        out = []; n = -1
        for ev in t:
            if ev == L:
                n += 1
                out += list(u) if n == k else [ev]
            else: out.append(ev)
        return tuple(out)
    def check(key, ts, want, r=root):
        if want is None: return
        got = logs(ts, r)
        ctx.count(obligations=1)
        if not isinstance(want, set): want = {want}
        if got != want:
            bad = [g for g in sorted(got, key=repr) if g not in want]
            ctx.violation(key, '%s is parsed as %s, documented is %s' % (key, text(bad[0]) if bad else 'nothing', text(sorted(want, key=repr)[0])), where)
    tpl = {s: one((A,) + toks(s) + (A,), '`a %s b`' % s) for s in levels}
    ops = [s for s in levels if tpl[s] is not None]
    for s in ops:
        if tpl[s] == (L,) or tpl[s].count(L) != 2: ctx.violation('operands %s' % s, '`a %s b` does not take two operands: %s' % (s, text(tpl[s])), where)
    lists = {s for s in ops if any(ev[0] == 'push' for ev in tpl[s])}
    def chain(s, u):
        return tpl[s][:-1] + tpl[u][1:] if s in lists and u in lists and levels[s] == levels[u] and tpl[s][-1] == tpl[u][-1] else None
    def expect(seq):
        """tree of a op1 b op2 c ... by the table, as a postfix sequence"""
        # loosest level, rightmost occurrence is the root
        if not seq: return (L,)
        m = max(levels[s] for s in seq)
        k = max(i for i, s in enumerate(seq) if levels[s] == m)
        left, right = expect(seq[:k]), expect(seq[k + 1:])
        t = tpl[seq[k]]
        prev = [i for i in range(k) if levels[seq[i]] == m]
        if seq[k] in lists and prev and seq[prev[-1]] in lists:
            # one chained comparison: operands after the first are appended
            return left[:-1] + sub(t[1:], 0, right)
        return sub(sub(t, 1, right), 0, left)
    def string(seq):
        out = [A]
        for s in seq: out += list(toks(s)) + [A]
        return tuple(out)
    def shown(seq): return '`a' + ''.join(' %s %s' % (s, 'bcdefg'[i]) for i, s in enumerate(seq)) + '`'
    for s in ops:
        for u in ops: check(shown([s, u]), string([s, u]), expect([s, u]))
    reps = {}
    for s in ops: reps.setdefault(levels[s], s)
    if ctx.tier == 'thorough': tri = ops
    else: tri = [reps[k] for k in sorted(reps)]
    for s in tri:
        for u in tri:
            for v in (tri if ctx.tier != 'thorough' else [reps[k] for k in sorted(reps)]): check(shown([s, u, v]), string([s, u, v]), expect([s, u, v]))
    # prefix operators
    P = {}
    for p in prefix:
        P[p] = one(toks(p) + (A,), '`%s a`' % p)
    for p, t in P.items():
        if t is None: continue
        if t.count(L) != 1 or len(t) < 2: ctx.violation('operand %s' % p, '`%s a` is not built as an operation on one operand: %s' % (p, text(t)), where); continue
        for s in ops:
            check('`%s a %s b`' % (p, s), toks(p) + string([s]), sub(tpl[s], 0, t))
            if '%s %s' % (s, p) not in levels: check('`a %s %s b`' % (s, p), (A,) + toks(s) + toks(p) + (A,), sub(tpl[s], 1, t))
        for p2, t2 in P.items():
            if t2: check('`%s %s a`' % (p, p2), toks(p) + toks(p2) + (A,), sub(t, 0, t2))
    # suffixes: call, index, field
    S = {'a(b)': ((A,), (tok['('], A, tok[')'])), 'a()': ((A,), (tok['('], tok[')'])), 'a[b]': ((A,), (tok['['], A, tok[']'])), 'a->f': ((A,), (tok['->'], (ID, 'f')))}
    for name, (pre, suf) in S.items():
        t = one(pre + suf, '`%s`' % name)
        if t is None: continue
        if len(t) < 2 or t[0] != L: ctx.violation('suffix %s' % name, '`%s` is not built as an operation on its first operand: %s' % (name, text(t)), where); continue
        ctx.count(suffixes=1)
        for s in ops:
            n = name.replace('a', 'x', 1)
            check('`a %s %s`' % (s, n), (A,) + toks(s) + pre + suf, sub(tpl[s], 1, t))
            check('`%s %s z`' % (n, s), pre + suf + toks(s) + (A,), sub(tpl[s], 0, t))
        for p, u in P.items():
            if u: check('`%s %s`' % (p, name), toks(p) + pre + suf, sub(u, 0, t))
        for m, (pre2, suf2) in S.items():
            t2 = one(pre2 + suf2, '`%s`' % m)
            if t2: check('`%s` then `%s`' % (name, m), pre + suf + suf2, sub(t2, 0, t))
    # brackets group whatever is inside
    O, C = tok['('], tok[')']
    G = one((O, A, C), '`(a)`')
    for s in ops if G else ():
        for u in (ops if ctx.tier == 'thorough' else sorted(reps.values())):
            for x, y in {(s, u), (u, s)}:
                check('`(a %s b) %s c`' % (x, y), (O,) + string([x]) + (C,) + toks(y) + (A,), sub(tpl[y], 0, sub(G, 0, tpl[x])))
                check('`a %s (b %s c)`' % (x, y), (A,) + toks(x) + (O,) + string([y]) + (C,), sub(tpl[x], 1, sub(G, 0, tpl[y])))
    # assignments: loosest, from right to left
    AS = {s: one((A,) + toks(s) + (A,), '`a %s b`' % s) for s in assigns}
    for s, t in AS.items():
        if t is None: continue
        ctx.count(assignments=1)
        if t.count(L) != 2: ctx.violation('operands %s' % s, '`a %s b` does not take two operands: %s' % (s, text(t)), where); continue
        bare = logs((A,) + toks(s) + (A,), stmt)
        if any(l[0] == 'rest' or l.count(L) != 2 for l in bare): ctx.violation('statement %s' % s, 'the statement `a %s b` is not parsed as a whole: %s' % (s, [text(l) for l in bare]), where); continue
        for u in ops:
            check('`a %s b %s c`' % (s, u), (A,) + toks(s) + string([u]), sub(t, 1, tpl[u]))
            check('`a %s b %s c` as a statement' % (s, u), (A,) + toks(s) + string([u]), {sub(l, 1, tpl[u]) for l in bare}, stmt)
        for s2, t2 in AS.items():
            if t2: check('`a %s b %s c`' % (s, s2), (A,) + toks(s) + (A,) + toks(s2) + (A,), sub(t, 1, t2))
    bare = logs((A, tok[','], A, tok['='], A, tok[','], A), stmt)
    if any(l[0] == 'rest' or l.count(L) != 4 for l in bare) or not bare: ctx.violation('pattern', 'the statement `a, b = c, d` is not parsed as a whole: %s' % [text(l) for l in bare], where)
    else:
        for u in ops: check('`a, b = c, d %s e`' % u, (A, tok[','], A, tok['='], A, tok[','], A) + toks(u) + (A,), {sub(l, 3, tpl[u]) for l in bare}, stmt)
    ctx.coverage['parser_functions'] = len(e.fn_seen)
    ctx.coverage['contexts'] = len(e.sum)
    ctx.floor('binary_operators', len(ops), 24)
    ctx.floor('prefix_operators', len(P), 3)
    ctx.floor('suffixes', ctx.coverage.get('suffixes', 0), 4)
    ctx.floor('assignments', ctx.coverage.get('assignments', 0), 14)
    ctx.floor('obligations', ctx.coverage.get('obligations', 0), 1500)
    ctx.sample({'levels': {str(n): [s for s in levels if levels[s] == n] for n in sorted(set(levels.values()))}})


def text(l):
    """a postfix sequence as a tree"""
    if l and l[0] == 'rest': return '%s, leaving %s unread' % (text(l[2]), ' '.join(t if isinstance(t, str) else t[1] for t in l[1]) or 'a pending prefix operator')
    st = []; n = 0
    for ev in l:
        lab = ' '.join(str(x[1]) for x in ev[3 if ev[0] != 'push' else 2:]) or ev[0]
        if ev[0] == 'push':
            if not st: return 'an unbalanced tree'
            st[-1] = ('item', ('%s ' % lab if lab != 'push' else '') + str(st[-1]))
        else:
            items = []
            if ev[2]:
                while st and isinstance(st[-1], tuple): items.insert(0, st.pop()[1])
            if len(st) < ev[1]: return 'an unbalanced tree'
            args = [st.pop() for _ in range(ev[1])][::-1]
            if not ev[1] and not ev[2]:
                st.append('abcdefgh'[n % 8] if ev[0] not in ('nil',) else 'nil'); n += 1
            else: st.append('%s(%s)' % (lab, ', '.join([str(a) for a in args] + items)))
    return ' '.join(str(x) for x in st)
