"""C26: a name refers to the declaration visible where it is written."""
from resolve import *

OPCODE = 'cordy_sys::vm::Opcode'
LV = 'semantic::LValueReference'
U = N  # payloads of references are symbolic numbers

# (what, name, scenario, references expected, references tolerated besides)
ORDER = [
    ('a built-in', 'Named', dict(native=True, cur=['local'], enc=['local'], glob=['global'], md=1, method='static'), {'NativeFunction(native)'}, ()),
    ('a variable of the function', 'Named', dict(cur=['local'], enc=['local'], glob=['global'], md=1, method='static', field=True), {'Local(idx@cur)'}, ()),
    ('a variable of a block in global code', 'Named', dict(cur=['local'], fd=('i', 0)), {'Local(idx@cur)'}, ()),
    ('a global in global code', 'Named', dict(cur=['global'], fd=('i', 0)), {'Global(idx@cur)'}, ()),
    ('a variable of the function that is not initialized yet, shadowing an enclosing one', 'Named', dict(cur=['uninit'], upenc=['same'], enc=['local'], mid=False), {'UpValue(pos@enc)'}, ()),
    ('a variable of an enclosing function', 'Named', dict(cur=['other'], enc=['local'], glob=['global'], md=1, method='static', upenc=['same'], mid=False), {'UpValue(pos@enc)'}, ()),
    ('a global, seen from a function', 'Named', dict(cur=['other'], enc=['global'], ends=('enc',), glob=['global']), {'Global(idx@glob)'}, ()),
    ('a global next to a variable of an enclosing function with another name', 'Named', dict(enc=['other'], glob=['global']), {'Global(idx@glob)'}, ()),
    ('a global next to an uninitialized variable of an enclosing function', 'Named', dict(enc=['uninit'], glob=['global']), {'Global(idx@glob)'}, ()),
    ('a global that is not initialized yet', 'Named', dict(glob=['uninitglobal']), {'LateBinding'}, ()),
    ('a variable of a block in global code, seen from a function that does not enclose it', 'Named', dict(glob=['local'], ends=('glob',)), {'LateBinding'}, ()),
    ('no declaration, in a function', 'Named', dict(glob=['other']), {'LateBinding'}, ()),
    ('no declaration, in global code', 'Named', dict(fd=('i', 0), cur=['other']), {'Invalid'}, ()),
    ('a global, seen from a method', 'Named', dict(md=1, glob=['global']), {'LateBinding'}, ()),
    ('a function of a module', 'Named', dict(md=1, is_module=1, method='static', glob=['global']), {'Method(method)'}, ()),
    ('a function of a struct', 'Named', dict(md=1, method='static', glob=['global']), {'Method(method)'}, ()),
    ('a method of self', 'Named', dict(md=1, method='instance', cur=['this'], glob=['global']), {'ThisMethod(0, idx@cur, method)'}, ('Invalid',)),
    ('a method of a captured self', 'Named', dict(md=1, method='instance', enc=['this'], upenc=['same'], mid=False, glob=['global']), {'ThisMethod(1, pos@enc, method)'}, ('Invalid',)),
    ('a field of self', 'Named', dict(md=1, field=True, cur=['this'], glob=['global']), {'ThisField(0, idx@cur, field)'}, ('Invalid',)),
    ('a field of a captured self', 'Named', dict(md=1, field=True, enc=['this'], upenc=['same'], mid=False, glob=['global']), {'ThisField(1, pos@enc, field)'}, ('Invalid',)),
    ('a method of self of an enclosing struct', 'Named', dict(md=2, outer=True, method='instance', cur=['this'], ends=('cur',), glob=['global']), {'LateBinding'}, ()),
    ('a function of an enclosing module', 'Named', dict(md=2, outer=True, method='static', cur=['this'], ends=('cur',), glob=['global']), {'Method(method)'}, ()),
    ('a method of self, without self', 'Named', dict(md=1, method='instance', glob=['global']), {'Invalid'}, ()),
    ('a field of self, without self', 'Named', dict(md=1, field=True, glob=['global']), {'Invalid'}, ()),
    ('self', 'This', dict(cur=['this']), {'LocalThis(idx@cur)'}, ('Invalid',)),
    ('self of the enclosing method', 'This', dict(enc=['this'], upenc=['same'], mid=False), {'UpValueThis(pos@enc)'}, ('Invalid',)),
    ('self outside of a method', 'This', dict(cur=['local'], enc=['local'], ends=('cur', 'enc')), {'Invalid'}, ()),
]


def resolution(ctx, w):
    x = w.need(name='resolve_reference')[0]
    err = {i: n for n, (i, _, _) in w.variants('ParserErrorType').items()}
    def run(name, sc):
        q = ResolveQ(w, sc); e = ResolveE(w, q)
        r, _ = e.call(x, [T, variant(w, 'semantic::Reference', name, *([C('want')] if name == 'Named' else []))])
        ctx.count(symbol_tables=1)
        return results(w, q, r), q.events
    for what, name, sc, want, also in ORDER:
        got, ev = run(name, sc)
        if not want <= got or got - want - set(also):
            ctx.violation('resolves %s' % what, 'a name that denotes %s may resolve to %s instead of %s' % (what, ', '.join(sorted(got - set(also))) or 'nothing', ', '.join(sorted(want))), x.loc())
        for e in ev:
            if e[0] == 'order': ctx.violation('order %s' % e[1], 'of the %s the outermost is found first' % {'cur': 'variables of the function', 'enc': 'variables of the enclosing functions', 'glob': 'globals', 'modules': 'enclosing modules', 'frames': 'enclosing functions'}.get(e[1], e[1]), x.loc())
            if e[0] == 'key': ctx.violation('member name', 'members of a module are looked up by another name than the one written', x.loc())
            if e[0] == 'late' and (e[1] != ('idx@glob' if sc.get('glob') == ['global'] else 'none') or e[2] != 'want'): ctx.violation('late %s' % what, 'a name that denotes %s is left to be bound later with %s as fallback' % (what, e[1]), x.loc())
        if want == {'Invalid'} and not any(e[0] == 'error' and err.get(e[1]) in ('UndeclaredIdentifier', 'UndeclaredSelf') for e in ev): ctx.violation('silent %s' % what, 'no error is reported for %s' % what, x.loc())
        if any('UpValue' in g or '(1, ' in g for g in got) and ('captured', 'local@enc') not in ev: ctx.violation('captured', 'a variable of an enclosing function is captured without being marked as captured', x.loc())
    # capturing through the functions in between
    f = 'a variable of an enclosing function'
    for upenc in ([], ['same'], ['otherkind'], ['otherindex']):
        own = 'pos@enc' if upenc == ['same'] else 'n@enc'
        for upmid in (None, [], ['same'], ['otherkind'], ['otherindex']):
            got, ev = run('Named', dict(enc=['local'], upenc=upenc, upmid=upmid or [], mid=upmid is not None))
            mid = 'pos@mid' if upmid == ['same'] else 'n@mid'
            want = {own} | ({mid} if upmid is not None else set())
            res = set()
            for g in got: res |= set(g[8:-1].split('|')) if g.startswith('UpValue(') else {g}
            what = 'captured %s, %s between' % ('already' if upenc == ['same'] else 'anew', 'none' if upmid is None else 'known' if upmid == ['same'] else 'new')
            if res != want: ctx.violation('upvalue %s' % what, 'a variable of an enclosing function (%s) is referenced as captured variable %s instead of %s' % (what, ', '.join(sorted(res)), ', '.join(sorted(want))), x.loc())
            pushes = {(e[1], e[2]): {show(y) for y in (e[3][1] if e[3][0] == 'u' else [e[3]])} for e in ev if e[0] == 'push'}
            for e in ev:
                if e[0] != 'push': continue
                idx = {show(y) for y in (e[3][1] if e[3][0] == 'u' else [e[3]])}
                if e[1] == 'enc' and (e[2] != '1' or idx != {'idx@enc'}): ctx.violation('capture', 'a function captures slot %s instead of the slot of the variable it refers to' % idx, x.loc())
                if e[1] == 'mid' and (e[2] != '0' or not idx <= {own, mid}): ctx.violation('capture through', 'a function in between captures %s instead of the captured variable of the function around it' % ', '.join(sorted(idx)), x.loc())
                if e[1] not in ('enc', 'mid'): ctx.violation('capture %s' % e[1], 'a variable is captured for the wrong function', x.loc())
            if (upenc != ['same']) != any(e[1] == 'enc' for e in ev if e[0] == 'push'): ctx.violation('capture once', 'a variable is not captured exactly when it has not been captured before', x.loc())
            if upmid is not None and (upmid != ['same']) != any(e[1] == 'mid' for e in ev if e[0] == 'push'): ctx.violation('capture through once', 'a function in between does not capture a variable exactly when it has not captured it before', x.loc())
            for e in ev:
                if e[0] == 'compared' and not set(e[1].split('|')) <= {'idx@enc', own, mid}: ctx.violation('capture compared', 'captured variables are recognised by %s' % e[1], x.loc())
    ctx.floor('symbol_tables', ctx.coverage.get('symbol_tables', 0), 44)


class EmitQ(TQuery):
    distinct = True        # different unknown numbers differ
    """instructions and errors produced by a function; tag = tuple of events"""
    max_tags = 60

    def __init__(self, w, assume=None, same=None):
        TQuery.__init__(self); self.w = w; self.asm = assume or {}; self.same = same
        self.oc = {v[0]: n for n, v in w.variants(OPCODE).items()}
        self.opid = w.adts(OPCODE)
        self.rel = None

    def has_op(self, t):
        ty = self.w.types[t]
        return ty['k'] == 'tuple' and any(f in self.opid for f in ty['f'])

    def d(self, t): return self.w.types[t].get('d', '') if self.w.types[t].get('k') == 'adt' else ''

    def assume_ty(self, eng, t):
        d = self.d(t)
        if d.startswith('cordy_sys::'):
            for k, v in self.asm.items():
                if d == k or d.endswith('::' + k): return v
        return None

    def relevant(self, eng, x):
        if self.rel is None:
            eff = [y for y in self.w.insts if y.ws and y.body is not None and y.p.startswith('cordy_sys::compiler') and self.direct(y)]
            self.rel = {i for i in self.w.reaching(eff) if self.w.insts[i].ws and self.w.insts[i].p.startswith(('cordy_sys::compiler', 'cordy_sys::core'))}
        return x.i in self.rel

    def sink(self, y):
        """('push'|'insert', index of the value) for a method of a vector of instructions or late bindings"""
        if y.ws or 'Vec' not in y.p or not y.s: return None
        for t in y.s:
            if isinstance(t, int):
                if self.has_op(t) and y.n in ('push', 'insert'): return y.n
                if self.d(t).endswith('semantic::LateBinding') and y.n in ('push', 'insert'): return 'bind'
                if self.d(t).endswith('semantic::LateBinding') and y.n in ('swap_remove', 'remove', 'retain', 'drain', 'clear', 'truncate', 'extract_if', 'pop'): return 'unbind'
        return None

    def direct(self, x):
        for b in x.blocks:
            t = b['t']
            if t[0] == 'call' and 'ptr' not in t[1] and any(self.sink(y) for y in self.w.callee(t[1])): return True
            for s in b['s']:
                if s[0] == '=' and '*' in s[1][1:] and self.written(x, s[1]): return True
        return any(self.d(t).endswith('ParserErrorType') for t in x.locals[1:x.argc + 1])

    def written(self, x, p):
        t = self.w.place_ty(x, p)
        if t is None: return None
        if t in self.opid or self.has_op(t): return 'set'
        d = self.d(t)
        if d.endswith('semantic::ReferenceType'): return 'ty'
        if d.endswith('semantic::ParserStoreOp'): return 'store op'
        if isinstance(p[-1], int):
            b = self.w.place_ty(x, p, len(p) - 1)
            if b is not None and self.d(b).endswith('semantic::LateBinding') and p[-1] == fields(self.w, 'semantic::LateBinding')['module_depth']: return 'depth'
        return None

    def op(self, v):
        v = strip(v)
        if v[0] != 'a' or v[1] is None: return '?'
        f = dict(v[2]); ar = len(self.w.types[self.opid[0]]['v'][v[1]][2])
        return self.oc[v[1]] + ('(%s)' % ', '.join(show(f.get(i, T)) for i in range(ar)) if ar else '')

    def add(self, tag, e):
        if e in tag or len(tag) > 8: return tag
        return tag + (e,)

    def t_stmt(self, eng, fr, bi, s, val, st, tag):
        if '*' not in s[1][1:]: return tag
        k = self.written(fr.inst, s[1])
        if k is None: return tag
        if k == 'set':
            if val[0] == 'a' and val[1] is None: val = dict(val[2]).get(2, T)
            return self.add(tag, ('set', self.op(val)))
        if k == 'ty':
            names = {i: n for n, (i, _, _) in self.w.variants('semantic::ReferenceType').items()}
            f = dict(val[2]) if val[0] == 'a' else {}
            return self.add(tag, ('ty', names.get(val[1] if val[0] == 'a' else None, '?') + ('(%s)' % show(f[0]) if 0 in f else '')))
        if k == 'depth': return self.add(tag, ('depth', show(val)))
        return self.add(tag, ('store op', self.sop(val)))

    def sop(self, v):
        pn = {i: n for n, (i, _, _) in self.w.variants('semantic::ParserStoreOp').items()}; sn = {i: n for n, (i, _, _) in self.w.variants('vm::StoreOp').items()}
        if v[0] == 'a' and v[1] is not None and pn[v[1]] == 'Bound':
            o = dict(v[2]).get(0, T)
            return sn[o[1]] + ('(%s)' % show(dict(o[2])[0]) if 0 in dict(o[2]) else '') if o[0] == 'a' and o[1] is not None else '?'
        if v[0] == 'a' and v[1] is not None: return pn[v[1]] + ('(%s)' % show(dict(v[2])[0]) if 0 in dict(v[2]) else '')
        return '?'

    def t_call(self, eng, fr, bi, t, x, args, tag, st):
        k = self.sink(x)
        if k in ('push', 'insert'):
            v = strip(args[-1])
            return [(self.add(tag, (k, self.op(dict(v[2]).get(2, T) if v[0] == 'a' else T))), T)]
        if k == 'bind': return [(self.add(tag, ('bind',)), T)]
        if k == 'unbind': return [(self.add(tag, ('unbind',)), T)]
        if x.ws and x.body is not None:
            for i in range(1, x.argc + 1):
                if self.d(x.locals[i]).endswith('ParserErrorType'):
                    a = args[i - 1]
                    return [(self.add(tag, ('error', a[1] if a[0] == 'a' else None)), T)]
        return None

    def model(self, eng, x, args, fr):
        if not x.ws and x.n in ('eq', 'ne') and self.same is not None and x.s is not None and len(args) == 2 and ('String' in x.p or 'str' in x.p or any(isinstance(s, int) and self.w.tstr(s).lstrip('&') in ('std::string::String', 'str') for s in x.s)): return ('i', int(self.same == (x.n == 'eq')))
        if not x.ws and x.n in ('min', 'max') and len(args) == 2 and strip(args[0])[0] == 'i' and strip(args[1])[0] == 'i': return ('i', (min if x.n == 'min' else max)(strip(args[0])[1], strip(args[1])[1]))
        return None

    def descend(self, eng, x, args):
        if x.body is None or self.relevant(eng, x): return False
        return x.ws and x.p.startswith('cordy_sys::compiler') and len(x.blocks) < 30 or not x.ws and ('Option' in x.p or 'PartialEq' in x.p) and len(x.blocks) <= 10


def events(w, q, x, args):
    e = LTEngine(w, q)
    s = e.solve(x, args, ())
    return s


def refs(w):
    """every kind of reference, with symbolic payload"""
    out = []
    for n, (i, _, fs) in w.variants(LV).items():
        vals = []
        for k, (fn, ft) in enumerate(fs):
            ty = w.types[ft]
            if ty['k'] == 'bool': vals.append([('i', 0), ('i', 1)])
            elif w.tstr(ft) == 'u32': vals.append([N(fn if not fn.isdigit() else 'i')])
            else: vals.append([C(n)])
        cases = [[]]
        for v in vals: cases = [c + [y] for c in cases for y in v]
        for c in cases: out.append((n, ('a', i, tuple(enumerate(c))), {fn: c[k] for k, (fn, _) in enumerate(fs)}))
    return out


def load(n, p):
    this = 'PushUpValue(index)' if p.get('upvalue') == ('i', 1) else 'PushLocal(index)'
    return {'Local': ['PushLocal(i)'], 'LocalThis': ['PushLocal(i)'], 'Global': ['PushGlobal(i)'], 'UpValue': ['PushUpValue(i)'], 'UpValueThis': ['PushUpValue(i)'],
            'ThisField': [this, 'GetField(field_index)'], 'Method': ['Constant(i)'], 'ThisMethod': [this, 'GetMethod(function_id)'], 'NativeFunction': ['NativeFunction(NativeFunction)'], 'Invalid': []}.get(n)


def store(n, p, prefix):
    this = 'PushUpValue(index)' if p.get('upvalue') == ('i', 1) else 'PushLocal(index)'
    return {'Local': ['StoreLocal(i, 0)'], 'Global': ['StoreGlobal(i, 0)'], 'UpValue': ['StoreUpValue(i)'], 'ThisField': (['SetField(field_index)'] if prefix else [this, 'Swap', 'SetField(field_index)']), 'Invalid': []}.get(n)


def outcome(s):
    return {tuple(e for e in tag if e[0] != 'error') for (tag, _) in s}, {e[1] for (tag, _) in s for e in tag if e[0] == 'error'}


def references(ctx, w):
    by = {k: w.need(name=k)[0] for k in ('push_load_lvalue', 'push_store_lvalue', 'push_store_lvalue_prefix', 'as_store_op', 'is_assignable')}
    lvt = lambda x: next(i for i in range(1, x.argc + 1) if LV.split('::')[-1] in w.tstr(x.locals[i]))
    err = {i: n for n, (i, _, _) in w.variants('ParserErrorType').items()}
    def run(f, v, **kw):
        x = by[f]; args = [T] * x.argc
        k = lvt(x); args[k - 1] = ('r', v) if w.types[x.locals[k]]['k'] == 'ref' else v
        for i in range(1, x.argc + 1):
            if w.types[x.locals[i]]['k'] == 'bool' and 'prefix' in kw: args[i - 1] = ('i', kw['prefix'])
            if w.tstr(x.locals[i]) == 'usize': args[i - 1] = N('pattern')
        ctx.count(reference_cases=1)
        return x, events(w, EmitQ(w), x, args)
    def check(what, x, s, want, late=None):
        evs, errs = outcome(s)
        if want is None:
            if not s: return
            ctx.violation('%s accepted' % what, '%s is accepted' % what, x.loc()); return
        if not s: ctx.violation('%s panics' % what, '%s aborts the compiler' % what, x.loc()); return
        if errs: ctx.violation('%s rejected' % what, '%s is reported as an error' % what, x.loc()); return
        seq = {tuple(e[1] for e in ev if e[0] in ('push', 'insert', 'set')) for ev in evs}
        if seq != {tuple(want)}: ctx.violation(what, '%s is compiled to %s instead of %s' % (what, ' / '.join(', '.join(y) or 'nothing' for y in sorted(seq)), ', '.join(want) or 'nothing'), x.loc())
    for n, v, p in refs(w):
        if n in ('Named', 'This', 'Array', 'Field'): continue      # never resolved references
        what = n + ('' if not p.get('upvalue') else ' of a captured self' if p['upvalue'] == ('i', 1) else ' of self')
        ok = by['is_assignable']
        r, _ = Engine(w, Query()).call(ok, [('r', v)])
        assignable = n in ('Local', 'Global', 'UpValue', 'ThisField', 'LateBinding')
        if r != ('i', int(assignable)): ctx.violation('assignable %s' % n, 'a reference of kind %s is %sassignable' % (n, '' if r == ('i', 1) else 'not '), ok.loc())
        x, s = run('push_load_lvalue', v)
        if n == 'LateBinding': late(ctx, 'loading a name bound later', x, s, 'Load')
        else: check('loading %s' % what, x, s, load(n, p))
        for prefix in (0, 1):
            x, s = run('push_store_lvalue', v, prefix=prefix)
            if n == 'LateBinding': late(ctx, 'storing to a name bound later', x, s, 'Store')
            elif store(n, p, prefix) is not None: check('storing to %s' % what, x, s, store(n, p, prefix))
            else:
                evs, errs = outcome(s)
                if {err.get(e) for e in errs} != {'AssignmentTargetInvalid'} or any(evs - {()}): ctx.violation('store %s' % n, 'storing to %s, which cannot be assigned, is not rejected' % what, x.loc())
        x, s = run('push_store_lvalue_prefix', v)
        check('preparing to store to %s' % what, x, s, (['PushUpValue(index)' if p['upvalue'] == ('i', 1) else 'PushLocal(index)'] if n == 'ThisField' else []))
        x, s = run('as_store_op', v)
        if assignable or n == 'Invalid':
            pre = ['PushUpValue(index)' if p['upvalue'] == ('i', 1) else 'PushLocal(index)'] if n == 'ThisField' else []
            check('destructuring into %s' % what, x, s, pre)
            q = EmitQ(w)
            got = {q.sop(y) for r in s.values() for y in (r[1] if r[0] == 'u' else [r])}
            want = {'Local': 'Local(i)', 'Global': 'Global(i)', 'UpValue': 'UpValue(i)', 'ThisField': 'Field(field_index)', 'LateBinding': 'LateBoundGlobal(LateBinding)', 'Invalid': 'Invalid'}[n]
            if s and got != {want}: ctx.violation('pattern %s' % what, 'destructuring into %s stores to %s' % (what, ', '.join(sorted(got))), x.loc())
            if n == 'LateBinding': late(ctx, 'destructuring into a name bound later', x, s, 'StorePattern(pattern)', 0)
    ctx.floor('reference_cases', ctx.coverage.get('reference_cases', 0), 50)


def late(ctx, what, x, s, ty, ops=1):
    evs, errs = outcome(s)
    if not s: ctx.violation('%s panics' % what, '%s aborts the compiler' % what, x.loc()); return
    for ev in evs:
        if ('bind',) not in ev: ctx.violation('%s forgotten' % what, '%s is not recorded to be bound' % what, x.loc())
        if [e[1].split('(')[0] for e in ev if e[0] == 'ty'] != [ty.split('(')[0]] or '(' in ty and ('ty', ty) not in ev: ctx.violation('%s as' % what, '%s is recorded as %s' % (what, [e[1] for e in ev if e[0] == 'ty']), x.loc())
        if len([e for e in ev if e[0] in ('push', 'insert', 'set')]) != ops: ctx.violation('%s reserves' % what, '%s does not reserve exactly %d instruction' % (what, ops), x.loc())


def binding(ctx, w):
    x = w.need(name='resolve_late_bindings')[0]; rem = w.need(name='resolve_remaining_late_bindings')[0]; em = w.need(name='end_module')[0]
    err = {i: n for n, (i, _, _) in w.variants('ParserErrorType').items()}
    kt = next(i for i in range(1, x.argc + 1) if w.tstr(x.locals[i]).endswith('LateBound'))
    lb, rt = 'semantic::LateBound', 'semantic::ReferenceType'
    pf = fields(w, 'parser::Parser')
    op = struct(w, 'graph::OpcodeId')
    tys = {'Load': variant(w, rt, 'Load', op), 'Store': variant(w, rt, 'Store', op), 'StorePattern': variant(w, rt, 'StorePattern', N('pattern'))}
    thiss = {'Invalid': variant(w, LV, 'Invalid'), 'LocalThis': variant(w, LV, 'LocalThis', N('this')), 'UpValueThis': variant(w, LV, 'UpValueThis', N('this'))}
    mf = {f[0]: i for i, f in enumerate(w.variants(lb)['Method'][2])}
    bounds = {'a global': variant(w, lb, 'Local', N('g')), 'a method': ('a', w.variants(lb)['Method'][0], ((mf['function_id'], N('fid')), (mf['instance'], ('i', 0)))), 'a method of self': ('a', w.variants(lb)['Method'][0], ((mf['function_id'], N('fid')), (mf['instance'], ('i', 1))))}
    sop = variant(w, 'semantic::ParserStoreOp', 'LateBoundGlobal', N('binding'))
    def want(ty, b, th):
        if b == 'a global': return {'Load': {('set', 'PushGlobal(g)')}, 'Store': {('set', 'StoreGlobal(g, 0)')}, 'StorePattern': {('store op', 'Global(g)')}}[ty]
        if ty != 'Load': return {('error', 'AssignmentTargetInvalid')}
        if b == 'a method': return {('set', 'Constant(fid)')}
        return {('error', 'UndeclaredSelf')} if th == 'Invalid' else {('insert', {'LocalThis': 'PushLocal', 'UpValueThis': 'PushUpValue'}[th] + '(this)'), ('set', 'GetMethod(fid)')}
    def run(f, args, same, ty, th='Invalid', depth=1, pdepth=1, **kw):
        q = EmitQ(w, {'semantic::LateBinding': struct(w, 'semantic::LateBinding', index=N('binding'), ty=tys[ty], this=thiss[th], module_depth=('i', depth), **kw), 'parser::Parser': ('a', None, ((pf['module_depth'], ('i', pdepth)),)), 'semantic::ParserStoreOp': sop}, same)
        s = events(w, q, f, args)
        ctx.count(late_bindings=1)
        return {frozenset((e[0], err.get(e[1])) if e[0] == 'error' else e for e in tag) for (tag, _) in s}
    def judge(key, what, f, got, ev):
        acted = {g for g in got if g}
        extra = [g for g in acted if not g <= ev | {('unbind',)}]
        if not acted or not any(ev <= g for g in acted) or extra:
            bad = sorted({str(e) for g in acted for e in g - ev - {('unbind',)}})
            ctx.violation(key, '%s: %s' % (what, ('does ' + ', '.join(bad)) if bad else 'does not ' + ', '.join(sorted(map(str, ev)))), f.loc())
        # one iteration may pass over bindings that do not match, but what is resolved is taken off the list
        for g in acted:
            if ev & g and ('unbind',) not in g: ctx.violation(key + ' twice', '%s leaves the reference to be bound again' % what, f.loc())
    for ty in tys:
        for b in bounds:
            for th in thiss:
                args = [T] * x.argc; args[kt - 1] = bounds[b]
                ev = want(ty, b, th)
                judge('bind %s %s %s' % (ty, b, th), 'declaring %s, used before by a %s (self: %s)' % (b, ty.lower(), th), x, run(x, args, True, ty, th), ev)
                got = run(x, args, False, ty, th)
                if any(got - {frozenset()}): ctx.violation('bind other %s %s' % (ty, b), 'declaring %s binds names other than its own' % b, x.loc())
                got = run(x, args, True, ty, th, 1, 2)
                if b != 'a global' and any(got - {frozenset()}): ctx.violation('bind module %s' % b, 'declaring %s binds names used outside of its module' % b, x.loc())
                if b == 'a global' and not any(ev <= g for g in got): ctx.violation('bind module %s' % b, 'declaring %s does not bind the names used before' % b, x.loc())
    none = ('a', 0, ())
    for ty in tys:
        got = run(rem, [T] * rem.argc, None, ty, fallback=('a', 1, ((0, N('g')),)), error=('i', 1))
        ev = want(ty, 'a global', None)
        # the errors about fields reported at the same time do not matter here
        got = {frozenset(e for e in g if e != ('error', 'InvalidFieldName')) for g in got}
        judge('remaining %s' % ty, 'at the end, a %s of a name that denotes a global' % ty.lower(), rem, got, ev)
        got = run(rem, [T] * rem.argc, None, ty, fallback=none, error=('i', 1))
        if not any(('error', 'UndeclaredIdentifier') in g for g in got) or any(e[0] in ('set', 'insert', 'push', 'store op') for g in got for e in g): ctx.violation('undeclared %s' % ty, 'at the end, a %s of an undeclared name is not reported' % ty.lower(), rem.loc())
    for d, p, after in ((3, 3, 2), (2, 2, 1), (1, 3, 1), (1, 1, 0)):
        q = EmitQ(w, {'semantic::LateBinding': struct(w, 'semantic::LateBinding', module_depth=('i', d)), 'parser::Parser': ('a', None, ((pf['module_depth'], ('i', p)),))})
        s = events(w, q, em, [('r', q.asm['parser::Parser'])] + [T] * (em.argc - 1))
        ctx.count(late_bindings=1)
        got = {e[1] for (tag, _) in s for e in tag if e[0] == 'depth'}
        if got - {str(after)} or d != after and not got: ctx.violation('module left', 'leaving a module at depth %d, a name used at depth %d counts as used at depth %s instead of %d' % (p, d, ', '.join(sorted(got)) or d, after), em.loc())
    ctx.floor('late_bindings', ctx.coverage.get('late_bindings', 0), 70)


def declarations(ctx, w):
    """a name cannot be declared twice in one scope, nor that of a built-in"""
    x = w.need(name='declare_local')[0]
    err = {i: n for n, (i, _, _) in w.variants('ParserErrorType').items()}
    for what, sc, ok, e in (('a built-in', dict(native=True), False, 'LocalVariableConflictWithNativeFunction'), ('a variable of the same scope', dict(cur=['local'], lsd=1, sd=('i', 1)), False, 'LocalVariableConflict'),
                            ('a variable of an outer scope', dict(cur=['local'], lsd=1, sd=('i', 2), ends=('cur',)), True, None), ('another name in the same scope', dict(cur=['other'], lsd=1, sd=('i', 1)), True, None), ('a variable of the enclosing function', dict(cur=[], enc=['local'], glob=['global'], lsd=1, sd=('i', 1)), True, None)):
        q = DeclQ(w, sc); en = ResolveE(w, q)
        r, _ = en.call(x, [T, C('want'), ('i', 0)][:x.argc])
        ctx.count(declaration_cases=1)
        kinds = {y[1] if y[0] == 'a' else None for y in (r[1] if r[0] == 'u' else [r])}
        errs = {err.get(y[1]) for y in q.events if y[0] == 'error'}
        if ok and (kinds != {1} or errs): ctx.violation('declare %s' % what, 'declaring a name besides %s is rejected (%s)' % (what, ', '.join(sorted(map(str, errs)))), x.loc())
        if not ok and (kinds != {0} or errs != {e}): ctx.violation('declare %s' % what, 'declaring a name that is already %s is not rejected' % what, x.loc())


    # what is declared in global code, in a module or not, is what the names used before denote
    for sc, bound in ((dict(fd=('i', 0), sd=('i', 0)), True), (dict(fd=('i', 0), sd=('i', 0), md=1), True), (dict(fd=('i', 0), sd=('i', 0), md=2, is_module=1), True),
                      (dict(fd=('i', 0), sd=('i', 1)), False), (dict(fd=('i', 1), sd=('i', 1)), False), (dict(fd=('i', 1), sd=('i', 1), md=1), False)):
        q = DeclT(w, sc)
        s = ResolveTE(w, q).solve(x, [T, C('want'), T][:x.argc], ())
        ctx.count(declaration_cases=1)
        got = {tag for (tag, v) in s if v != 0}
        if got != {(('Local',),) if bound else ()}:
            ctx.violation('declare binds %s' % bound, 'declaring a %s (at module depth %d) %s the names used before' % ('global' if bound else 'local variable', sc.get('md', 0), 'does not bind' if bound else 'binds'), x.loc())


class DeclT(ResolveQ, TQuery):
    def __init__(self, w, sc):
        ResolveQ.__init__(self, w, sc)
        self.fx = [y for y in w.insts if y.ws and y.body is not None and any(w.tstr(t).endswith('semantic::LateBound') for t in y.locals[1:y.argc + 1])]
        if not self.fx: raise Missing('a function that binds names used before')
        self.rel = set(w.reaching(self.fx)); self.names = {i: n for n, (i, _, _) in w.variants('semantic::LateBound').items()}

    def relevant(self, eng, x): return x.i in self.rel and x.p.startswith('cordy_sys::compiler')

    def members(self, base, t):
        k = self.elem(t)
        if k == 'Local': return [struct(self.w, 'semantic::Local', name=variant(self.w, 'semantic::Reference', 'Named', C('other')), scope_depth=self.sc['sd'], function_depth=self.sc['fd'])], True
        return ResolveQ.members(self, base, t)

    def model(self, eng, x, args, fr):
        if not x.ws and x.n in ('index', 'index_mut', 'get', 'get_mut', 'last', 'last_mut') and args and is_tag(strip(args[0])) and args[0] != C('frames') and any('Local' in (self.elem(s), self.kind(s)) for s in x.s or () if isinstance(s, int)):
            t = next(t for t, ty in enumerate(self.w.types) if ty['k'] == 'adt' and ty['d'].endswith('::Vec') and self.elem(t) == 'Local')
            r = ('r', self.members('cur', t)[0][0])
            return r if x.n.startswith('index') else self.some(r)
        return ResolveQ.model(self, eng, x, args, fr)

    def t_call(self, eng, fr, bi, t, x, args, tag, st):
        if x in self.fx:
            v = next(args[i - 1] for i in range(1, x.argc + 1) if self.w.tstr(x.locals[i]).endswith('semantic::LateBound'))
            return [(tag + (((self.names.get(v[1]) if v[0] == 'a' else '?'),),), T)]
        return None


class DeclQ(ResolveQ):
    def model(self, eng, x, args, fr):
        if x.ws and x.n in ('resolve_late_bindings', 'init_local', 'semantic_error_at'): return T
        return ResolveQ.model(self, eng, x, args, fr)


def run(ctx):
    w = ctx.world()
    ctx.rule('Constant propagation with symbolic slots over the resolved MIR of the compiler. Name resolution is analysed for abstract symbol tables (which kinds of declarations of the name the current, enclosing and global frames and the modules hold): the reference must be to the first in the documented order, innermost first, with the slot of that declaration, captured once per function between. Every kind of reference must be compiled to the instruction with its slot for loads, stores and destructuring, and every use recorded to be bound later must become that of the declaration it is bound to.')
    resolution(ctx, w)
    references(ctx, w)
    binding(ctx, w)
    declarations(ctx, w)
