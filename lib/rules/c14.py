"""C14: the prompt reads on exactly when the first error says that the input ended too early."""
from typestate import *
from slices import Defs
from mir import Missing, short

CM = 'cordy_sys::compiler::'


def adt(w, t): return w.types[w.strip_ref(t)].get('d', '')


def is_opt(w, t, what, ref=None):
    t = w.types[t]
    if t['k'] != 'adt' or not t['d'].endswith('option::Option') or not t['a']: return False
    a = t['a'][0]
    if ref is not None and (w.types[a]['k'] == 'ref') != ref: return False
    return adt(w, a).endswith(what)


class Table(Query):
    def descend(self, eng, x, args): return x.ws
    def model(self, eng, x, args, fr):
        if x.n in ('is_none', 'is_some') and 'option::Option' in x.p:
            v = args[0][1] if args[0][0] == 'r' else args[0]
            if v[0] == 'a' and v[1] is not None: return ('i', int((v[1] == 0) == (x.n == 'is_none')))
        return None


def tables(ctx, w):
    """what is_eof says of each kind of error"""
    n = 0
    for ename, tname in (('ParserError', 'ParserErrorType'), ('ScanError', 'ScanErrorType')):
        f = [x for x in w.insts if x.ws and x.n == 'is_eof' and x.body is not None and x.argc == 1 and adt(w, x.locals[1]).endswith('::' + ename)]
        et = [i for i, t in enumerate(w.types) if t['k'] == 'adt' and t['d'].endswith('::' + ename)]
        kt = [t for t in w.types if t['k'] == 'adt' and t['d'].endswith('::' + tname)]
        if not f or not et or not kt: raise Missing('is_eof of ' + ename)
        et = w.types[et[0]]; kt = kt[0]
        fi = [i for i, y in enumerate(et['v'][0][2]) if w.types[y[1]].get('d') == kt['d']]
        if len(fi) != 1: raise Missing('the kind of ' + ename)
        for vi, v in enumerate(kt['v']):
            opts = [i for i, y in enumerate(v[2]) if is_opt(w, y[1], 'ScanToken')]
            if ename == 'ScanError': cases = [((), v[0].startswith('Unterminated'), '')]
            elif opts: cases = [(((i, ('a', p, ())),), p == 0, ' with %s' % ('a token' if p else 'no token')) for i in opts for p in (0, 1)]
            else: cases = [((), False, '')]
            for fields, want, s in cases:
                eng = Engine(w, Table())
                r = eng.call(f[0], [('r', ('a', None, ((fi[0], ('a', vi, fields)),)))])[0]
                n += 1
                if r != ('i', int(want)):
                    ctx.violation('table %s%s' % (v[0], s), 'an error %s%s %s' % (v[0], s, ('is not taken as the end of the input, although nothing was left' if want else 'is taken as the end of the input, although it is about what is there') if r[0] == 'i' else 'may or may not be taken as the end of the input'), f[0].loc())
    ctx.count(error_cases=n); ctx.floor('kinds of errors', n, 60)


def payloads(ctx, w):
    """an error that may say that nothing was left gets what was found from where the parser looks at the next token"""
    kt = [t for t in w.types if t['k'] == 'adt' and t['d'].endswith('::ParserErrorType')][0]
    P = [x for x in w.insts if x.ws and x.body is not None]
    memo = {}
    def peek0(x, args):
        """does a call look at the next token"""
        if not (x.ws and x.body is not None and x.argc and is_opt(w, x.locals[0], 'ScanToken', True)): return None
        if len(args) > 1: return all(a[0] == 'k' and a[1].get('v') == 0 for a in args[1:])
        if x.i not in memo:
            memo[x.i] = False
            inner = [(y, t[2]) for b in x.blocks for t in [b['t']] if t[0] == 'call' and not b.get('c') for y in w.callee(t[1]) if y.ws and y.body is not None and is_opt(w, y.locals[0], 'ScanToken', True)]
            memo[x.i] = all(peek0(y, a) for y, a in inner)      # none: looks at the tokens itself
        return memo[x.i]
    sites = 0; nones = []
    for x in P:
        d = None
        for bi, b in enumerate(x.blocks):
            if b.get('c'): continue
            ops = []
            for s in b['s']:
                if s[0] == '=' and s[2][0] == 'agg' and s[2][1][0] == 'adt' and w.types[s[2][1][1]].get('d') == kt['d']:
                    ops += [(s[2][2][i], kt['v'][s[2][1][2]][0]) for i, y in enumerate(kt['v'][s[2][1][2]][2]) if is_opt(w, y[1], 'ScanToken') and i < len(s[2][2])]
            t = b['t']
            if t[0] == 'call' and w.types[w.place_ty(x, t[3])].get('d') == kt['d']:
                for o in t[2]:
                    if o[0] != 'k':
                        ot = w.types[w.place_ty(x, o[1])]
                        if any(is_opt(w, y, 'ScanToken') for y in ([w.place_ty(x, o[1])] if ot['k'] == 'adt' else ot['f'] if ot['k'] == 'tuple' else [])): ops.append((o, 'error'))
            for o, name in ops:
                sites += 1
                d = d or Defs(w, x)
                back = d.back(o, False) if o[0] != 'k' else set()
                got = []; seen = False
                for bb in x.blocks:
                    tt = bb['t']
                    if bb.get('c'): continue
                    if tt[0] == 'call' and tt[3][0] in back:
                        for y in w.callee(tt[1]):
                            if y.ws and y.body is not None and (is_opt(w, y.locals[0], 'ScanToken')): got.append((y, peek0(y, tt[2])))
                    for s in bb['s']:
                        if s[0] == '=' and len(s[1]) == 1 and s[1][0] in back:
                            if s[2][0] == 'agg' and s[2][1][0] == 'adt' and is_opt(w, x.locals[s[1][0]], 'ScanToken'): got.append((None, s[2][1][2]))
                            if s[2][0] == 'use' and s[2][1][0] == 'k' and is_opt(w, x.locals[s[1][0]], 'ScanToken'): got.append((None, 0))
                par = [l for l in back if 1 <= l <= x.argc and (is_opt(w, x.locals[l], 'ScanToken') or w.types[x.locals[l]]['k'] == 'tuple')]
                if o[0] == 'k': got.append((None, 0))
                bad = [y for y, ok in got if y is not None and not ok]
                if bad: ctx.violation('payload %s %s' % (name, x.n), '%s makes an %s with what %s gives, which is not the next token' % (short(x.p), name, short(bad[0].p)), x.loc())
                elif any(y is None and ok == 0 for y, ok in got): nones.append((x, name))
                elif not got and not par: ctx.violation('payload %s %s' % (name, x.n), '%s makes an %s with a token of unknown origin' % (short(x.p), name), x.loc())
    ctx.count(error_sites=sites); ctx.floor('places that make an error with the token found', sites, 20)
    # an error that says outright that nothing was left
    class Q(TQuery):
        bad = False; n = 0
        def relevant(self, eng, x): return False
        def descend(self, eng, x, args): return False
        def ret_key(self, v): return None
        def t_call(self, eng, fr, bi, t, x, args, tag, st):
            if peek0(x, t[2]): return [('none', ('a', 0, ())), ('some', ('a', 1, ()))]
            if x.ws and any(w.types[y]['k'] == 'ref' and w.types[y].get('m') for y in x.locals[1:x.argc + 1]) if x.body is not None else False: return [('?', T)]
            return None
        def t_stmt(self, eng, fr, bi, stmt, val, st, tag):
            if val[0] == 'a' and stmt[2][0] == 'agg' and stmt[2][1][0] == 'adt' and w.types[stmt[2][1][1]].get('d') == kt['d']:
                self.n += 1
                for i, y in enumerate(kt['v'][stmt[2][1][2]][2]):
                    if is_opt(w, y[1], 'ScanToken') and dict(val[2]).get(i, T) != T and dict(val[2])[i][1] == 0 and tag != 'none': self.bad = True
            return tag
    for x, name in nones:
        q = Q(); eng = TEngine(w, q); eng.solve(x, tuple(T for _ in range(x.argc)), '?')
        ctx.count(outright=1)
        if q.bad or not q.n: ctx.violation('outright %s %s' % (name, x.n), '%s makes an %s which says that nothing was left, without having found that there is no next token' % (short(x.p), name), x.loc())
    # looking at the next token finds none only if there is none
    base = [x for x in P if x.argc and is_opt(w, x.locals[0], 'ScanToken', True) and adt(w, x.locals[1]).endswith('::Parser') and any(y.n == 'next' and not y.ws for b in x.blocks if b['t'][0] == 'call' for y in w.callee(b['t'][1]))]
    class L(TQuery):
        def relevant(self, eng, x): return False
        def descend(self, eng, x, args): return False
        def ret_key(self, v): return v[1] if v[0] == 'a' else None
        def t_call(self, eng, fr, bi, t, x, args, tag, st):
            if x.n == 'next' and not x.ws:
                if x.body is not None and any(k in w.tstr(x.locals[1]) for k in ('::Take<', '::StepBy<', '::TakeWhile<', '::MapWhile<', '::Scan<')): return [('cut', ('a', 0, ())), ('item', ('a', 1, ()))]
                return [('end', ('a', 0, ())), ('item', ('a', 1, ()))]
            if x.n in ('eq', 'ne') and len(args) == 2 and x.body is not None and adt(w, w.strip_ref(x.locals[1])).endswith('ScanToken'):
                return [('newline', ('i', int(x.n == 'eq'))), ('token', ('i', int(x.n == 'ne')))]
            return None
    pt = [t for t in w.types if t['k'] == 'adt' and t['d'].endswith('parser::Parser')][0]
    ri = [i for i, y in enumerate(pt['v'][0][2]) if w.types[y[1]]['k'] == 'bool' and 'recovery' in y[0]]
    seen = 0
    for x in base:
        if x.argc == 1 and not any(y.n in ('eq', 'ne') for b in x.blocks if b['t'][0] == 'call' for y in w.callee(b['t'][1])): continue   # the one that does not pass newlines
        for rec in (0, 1):
            eng = TEngine(w, L())
            self_ = ('r', ('a', None, tuple((i, ('i', rec)) for i in ri)))
            for (tag, rk), v in eng.solve(x, tuple([self_] + [('i', 0)] * (x.argc - 1)), 'start').items():
                seen += 1
                if rec and rk != 0: ctx.violation('look recovery %s' % x.n, '%s gives a token after an error which was not resolved' % short(x.p), x.loc())
                if not rec and rk != 1 and tag != 'end': ctx.violation('look %s' % x.n, '%s finds no next token although not all tokens were looked at' % short(x.p), x.loc())
                if not rec and rk == 1 and tag not in ('token', 'item'): ctx.violation('look newline %s' % x.n, '%s gives a newline as the next token' % short(x.p), x.loc())
    ctx.count(looks=seen); ctx.floor('places that look at the next token', len([x for x in P if peek0(x, [0])]), 1)
    # errors after the first of a kind that starts recovery are not recorded
    ins = [x for x in P if any(y.n in ('insert', 'insert_full') and 'IndexSet' in y.p and y.body is not None and adt(w, y.locals[2]).endswith('::ParserError') for b in x.blocks if b['t'][0] == 'call' for y in w.callee(b['t'][1]))]
    class R(TQuery):
        done = False
        def relevant(self, eng, x): return False
        def descend(self, eng, x, args): return False
        def ret_key(self, v): return None
        def t_call(self, eng, fr, bi, t, x, args, tag, st):
            if x.n in ('insert', 'insert_full') and 'IndexSet' in x.p:
                v = args[1]; k = [y for _, y in v[2] if y[0] == 'a' and y[1] is not None] if v[0] == 'a' else []
                if k and not any(is_opt(w, y[1], 'ScanToken') for y in kt['v'][k[0][1]][2]): return [(tag, T)]
                self.done = True
            return None
    for x in ins:
        args = [('r', ('i', 1)) if w.types[t]['k'] == 'ref' and w.types[w.strip_ref(t)]['k'] == 'bool' else ('r', ('a', None, tuple((i, ('i', 1)) for i in ri))) if adt(w, t).endswith('parser::Parser') else T for t in x.locals[1:x.argc + 1]]
        q = R(); q.model = lambda eng, y, a, fr: ('a', None, ((0, a[0]),)) if y.p.endswith('ParserError::new') else None
        eng = TEngine(w, q); eng.solve(x, tuple(args), '')
        ctx.count(recorders=1)
        if q.done: ctx.violation('recovery %s' % x.n, '%s records an error while another one is unresolved, when no token can be found' % short(x.p), x.loc())
    ctx.floor('places that record an error', len(ins), 1)


class Compile(TQuery):
    """tag: (first error taken, first error is at the end, an error was written down, were there errors)"""
    max_tags = 400; split_types = ('::IncrementalCompileResult',)
    def __init__(self, w, rel):
        super().__init__(); self.w = w; self.rel = rel; self.asked = 0
    def relevant(self, eng, x): return x.i in self.rel
    def descend(self, eng, x, args): return False
    def err(self, t): return adt(self.w, t).endswith(('::ScanError', '::ParserError'))
    def model(self, eng, x, args, fr):
        if x.ws and x.n == 'is_success' and args:
            v = args[0][1] if args[0][0] == 'r' else args[0]
            if v[0] == 'a' and v[1] is not None: return ('i', int(self.names[v[1]] == 'Success'))
        return None
    def t_call(self, eng, fr, bi, t, x, args, tag, st):
        w = self.w; first, eof, wrote, some = tag
        if x.body is None: return None
        if x.n == 'is_eof' and x.ws:
            self.asked += 1
            v = args[0][1] if args[0][0] == 'r' else args[0]
            if v == ('sym', 'first'): return [((first, e, wrote, some), ('i', e)) for e in ((eof,) if eof is not None else (0, 1))]
            return [(tag, ('i', 0)), (tag, ('i', 1))]
        if x.ws: return None
        r = w.types[x.locals[0]]
        if r['k'] == 'adt' and r['d'].endswith('option::Option') and r['a'] and self.err(r['a'][0]):
            item = ('r', ('sym', 'first')) if x.n in ('first', 'get', 'get_index') or not first else ('r', ('sym', 'later'))
            outs = []
            if first or some != 1: outs.append(((first, eof, wrote, some if some is not None else 0), ('a', 0, ())))
            if some != 0: outs.append(((True, eof, wrote, 1), ('a', 1, ((0, item),))))
            return outs
        if x.n == 'is_empty' and x.argc == 1:
            a = w.types[w.strip_ref(x.locals[1])]
            e = a.get('a') or []
            if e and self.err(e[0]):
                # a new collection of errors: nothing known of it unless the one before was empty
                if some == 1 : return [(tag, ('i', 0))]
                return [((first, eof, wrote, None), ('i', 1)), ((first, eof, wrote, 1), ('i', 0))]
            if e and w.types[e[0]].get('d', '').endswith('String') and a['d'].endswith('Vec'): return [(tag, ('i', int(not wrote)))]
        if x.n == 'push' and x.argc == 2 and w.types[x.locals[2]].get('d', '').endswith('string::String'): return [((first, eof, True, some), T)]
        return None


def compile_(ctx, w):
    rt = [i for i, t in enumerate(w.types) if t['k'] == 'adt' and t['d'].endswith('::IncrementalCompileResult')]
    if not rt: raise Missing('the result of an incremental compile')
    names = [v[0] for v in w.types[rt[0]]['v']]
    fns = [x for x in w.insts if x.ws and x.body is not None and x.p.startswith(CM)]
    top = [x for x in fns if x.locals[0] in rt and x.argc and all(adt(w, t).endswith('CompileParameters') for t in x.locals[1:x.argc + 1])]
    ev = [x for x in fns if x.argc == 2 and adt(w, x.locals[2]).endswith('CompileParameters') and w.types[x.locals[1]].get('d', '').endswith('String')]
    if not top or not ev: raise Missing('incremental_compile and eval_compile')
    uses = [x for x in fns if any(y.n == 'is_eof' and y.ws for b in x.blocks if b['t'][0] == 'call' for y in w.callee(b['t'][1]))]
    rel = {i for i in w.reaching(uses) if w.insts[i].p.startswith(CM) or 'option::Option' in w.insts[i].p}
    n = 0
    for x, prompt in [(x, True) for x in top] + [(x, False) for x in ev]:
        q = Compile(w, rel); q.names = names; eng = TEngine(w, q)
        r = eng.solve(x, tuple(T for _ in range(x.argc)), (False, None, False, None))
        if not prompt:
            for k, out in eng.sum.items():
                y = w.insts[k[0]]
                if y.locals[0] in rt:
                    for (tag, v) in out:
                        n += 1
                        if v is None or names[v] == 'Aborted': ctx.violation('eval aborted', 'text given to eval is treated as unfinished input', y.loc())
            continue
        for ((first, eof, wrote, some), v) in r:
            n += 1
            if v is None: ctx.violation('result unknown', 'the result of %s is not known' % short(x.p), x.loc()); continue
            v = names[v]
            if (v == 'Aborted') != (eof == 1): ctx.violation('abort %s %s' % (v, eof), ('input is treated as unfinished although its first error is %s' % ('not at its end' if eof == 0 else 'not known to be at its end' if some else 'missing')) if v == 'Aborted' else 'input is not treated as unfinished although its first error is at its end', x.loc())
            if v == 'Errors' and eof is None: ctx.violation('abort not asked', 'input with errors is treated as complete without having asked whether the first error is at its end', x.loc())
            if v == 'Success' and some == 1: ctx.violation('success with errors', 'input with errors is compiled', x.loc())
        ctx.count(asked=q.asked)
    ctx.count(outcomes=n); ctx.floor('outcomes of compiling', n, 4)


class Prompt(TQuery):
    """tag: (line appended, newline appended, continuation, result, new source, run)"""
    max_tags = 2000
    def __init__(self, w, names, exits):
        super().__init__(); self.w = w; self.names = names; self.exits = exits; self.bad = set()
    def relevant(self, eng, x): return x.ws and x.body is not None and x.p.startswith('cordy_sys::repl::')
    def descend(self, eng, x, args): return False
    def t_call(self, eng, fr, bi, t, x, args, tag, st):
        line, cont, res, new, ran = tag; w = self.w
        if x.body is None: return None
        r = w.types[x.locals[0]]
        if r['k'] == 'adt' and r['d'].endswith('::IncrementalCompileResult'):
            if line != 2: self.bad.add(('compile', 'the line read is not added, with its end, to the text before it is compiled'))
            if res is not None: self.bad.add(('twice', 'a line is compiled twice'))
            return [((line, cont, n, new, ran), ('a', i, ())) for i, n in enumerate(self.names)]
        if r['k'] == 'adt' and r['d'].endswith('::ExitType'):
            return [((line, cont, res, new, n), ('a', i, ())) for i, n in enumerate(self.exits)]
        if x.ws and x.n == 'push' and adt(w, x.locals[1]).endswith('SourceView'): return [((line, cont, res, new + 1 if new < 2 else 2, ran), T)]
        if not x.ws and x.n in ('push_str', 'push') and adt(w, x.locals[1]).endswith('String') and res is None:
            # to the text of the view
            k = 'line' if x.n == 'push_str' and args[1] not in (('s', '\n'), ('r', ('s', '\n'))) else 'end'
            nl = {(0, 'line'): 1, (1, 'end'): 2}.get((line, k), 3)
            return [((nl, cont, res, new, ran), T)]
        return None
    def t_stmt(self, eng, fr, bi, stmt, val, st, tag):
        line, cont, res, new, ran = tag
        p = stmt[1]
        if len(p) > 1 and isinstance(p[-1], int):
            b = self.w.place_ty(fr.inst, p, len(p) - 1)
            ty = self.w.types[b] if b is not None else {}
            if ty.get('k') == 'adt' and ty['d'].endswith('repl::Repl') and ty['v'][0][2][p[-1]][0] == self.field:
                return (line, val[1] if val[0] == 'i' else None, res, new, ran)
        return tag


def prompt(ctx, w):
    rt = [t for t in w.types if t['k'] == 'adt' and t['d'].endswith('::IncrementalCompileResult')][0]
    et = [t for t in w.types if t['k'] == 'adt' and t['d'].endswith('::ExitType')]
    rr = [t for t in w.types if t['k'] == 'adt' and t['d'].endswith('repl::RunResult')]
    ir = [t for t in w.types if t['k'] == 'adt' and t['d'].endswith('repl::ReadResult')]
    rp = [t for t in w.types if t['k'] == 'adt' and t['d'].endswith('repl::Repl')]
    if not (et and rr and ir and rp): raise Missing('the prompt')
    runs = [x for x in w.insts if x.ws and x.body is not None and x.p.startswith('cordy_sys::repl::') and x.argc == 2 and adt(w, x.locals[1]).endswith('repl::Repl') and adt(w, x.locals[2]).endswith('ReadResult')]
    fs = [(i, y[0]) for i, y in enumerate(rp[0]['v'][0][2]) if w.types[y[1]]['k'] == 'bool']
    if not runs or len(fs) != 1: raise Missing('Repl::run')
    names = [v[0] for v in rt['v']]; rn = [v[0] for v in rr[0]['v']]
    ok = [i for i, v in enumerate(ir[0]['v']) if v[0] == 'Ok'][0]
    n = 0
    for x in runs:
        for c in (0, 1):
            q = Prompt(w, names, [v[0] for v in et[0]['v']]); q.field = fs[0][1]; eng = TEngine(w, q)
            out = eng.solve(x, (('r', ('a', None, ((fs[0][0], ('i', c)),))), ('a', ok, ())), (0, c, None, 0, None))
            for k, m in q.bad: ctx.violation('prompt %s' % k, m, x.loc())
            for (line, cont, res, new, ran), v in out:
                n += 1; v = rn[v] if v is not None else None
                if res is None:
                    if c: ctx.violation('prompt skipped', 'a line that continues unfinished input may be skipped', x.loc())
                    elif (line, cont, new, v) != (0, 0, 0, 'Ok'): ctx.violation('prompt blank', 'a line that is not compiled has an effect', x.loc())
                elif res == 'Aborted':
                    if cont != 1: ctx.violation('prompt not continued', 'the prompt does not read on after unfinished input', x.loc())
                    if new or ran: ctx.violation('prompt dropped', 'unfinished input is dropped or run', x.loc())
                    if v != 'Ok': ctx.violation('prompt ended', 'the prompt ends after unfinished input', x.loc())
                else:
                    if cont != 0: ctx.violation('prompt continued %s' % res, 'the prompt reads on after input that was %s' % ('compiled' if res == 'Success' else 'wrong'), x.loc())
                    exits = res == 'Success' and ran in ('Exit', 'Return')
                    if (res == 'Success') != (ran is not None): ctx.violation('prompt run %s' % res, 'input is run although it does not compile, or not run although it does', x.loc())
                    if (v == 'Exit') != exits: ctx.violation('prompt exit %s' % res, 'the prompt ends without exit, or goes on after it', x.loc())
                    if not exits and new != 1: ctx.violation('prompt text %s' % res, 'input that was %s stays part of the input to come' % ('compiled' if res == 'Success' else 'wrong'), x.loc())
    pf = [x for x in w.insts if x.ws and x.body is not None and x.argc == 1 and adt(w, x.locals[1]).endswith('repl::Repl') and w.types[w.strip_ref(x.locals[0])]['k'] == 'str']
    shown = {}
    for x in pf:
        for c in (0, 1): shown[c] = Engine(w, Table()).call(x, [('r', ('a', None, ((fs[0][0], ('i', c)),)))])[0]
    if len(shown) == 2 and (shown[0] == shown[1] or T in shown.values()): ctx.violation('prompt shown', 'the prompt does not show whether it reads on', pf[0].loc())
    ctx.count(prompt_outcomes=n); ctx.floor('outcomes of the prompt', n, 6)


def run(ctx):
    w = ctx.world('cordy')
    ctx.rule('of each kind of error, with and without a token found, whether it counts as the end of the input, against the list of kinds that say what was found')
    ctx.rule('each error that says what was found is made with the result of looking at the next token, or outright without one where none was found; looking finds none only after all tokens, and errors found while recovering are not recorded')
    ctx.rule('compiling input from the prompt is given up exactly if its first error is at its end, and text given to eval never is')
    ctx.rule('the prompt reads on, keeping the text, exactly after compiling was given up; else the text is closed, and run exactly if it compiled')
    for f in (tables, payloads, compile_, prompt):
        try: f(ctx, w)
        except Missing as e: ctx.violation('anchor %s' % e, 'the construct the rule is anchored on is not there: %s' % e, 'cordy-sys/src')
        except TooMany as e: ctx.violation('too many states', 'the analysis does not come to an end: %s' % e, '')
