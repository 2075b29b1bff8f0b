"""C09: input the compiler rejects leaves no trace in the session."""

from mir import Missing, short
from slices import Defs, field_of, field_events, forward
from guards import operands
from typestate import *

P = 'compiler::CompileParameters'
S = 'compiler::CompileState'
PARSER = 'compiler::parser::Parser'
APPEND = {'push', 'extend', 'append', 'reserve', 'len', 'is_empty', 'extend_from_slice', 'iter', 'index', 'index_mut', 'get', 'last', 'first', 'deref', 'deref_mut', 'as_slice', 'as_ref', 'as_mut', 'by_ref', 'capacity', 'insert_full', 'contains', 'get_mut', 'last_mut', 'fmt', 'clone', 'position', 'enumerate'}


def run(ctx):
    w = ctx.world()
    ctx.rule('(a) Every mutable field of the compile parameters that the parser receives is read by the function that makes the snapshot and written back by the function that restores it from the snapshot field it was saved in: lists by length (then the parser may only append to them), everything else by a full copy free of shared state. (b) Typestate over every public function that compiles incrementally: on each path where the parser ran and the input was not accepted, the snapshot taken before parsing has been restored; on each path where it was accepted, it has not. (c) In the interactive driver nothing runs unless the line was accepted.')
    if not w.adts(P) or not w.adts(S): raise Missing('CompileParameters and CompileState')
    pf = w.types[w.adts(P)[0]]['v'][0][2]; sf = w.types[w.adts(S)[0]]['v'][0][2]
    defs = {}
    def d(x):
        if x.i not in defs: defs[x.i] = Defs(w, x)
        return defs[x.i]
    isS = lambda t: w.types[t]['k'] == 'adt' and w.types[t]['d'].endswith(S)
    saves = [x for x in w.insts if x.ws and x.body is not None and isS(x.locals[0])]
    saves = [x for x in saves if any(s[0] == '=' and s[2][0] == 'agg' and isinstance(s[2][1], list) and s[2][1][0] == 'adt' and isS(s[2][1][1]) for b in x.blocks for s in b['s'])] or saves
    restores = [x for x in w.insts if x.ws and x.body is not None and x.n != 'drop_in_place' and any(isS(w.strip_ref(t)) for t in x.locals[1:x.argc + 1])]
    if not saves or not restores: raise Missing('functions making and restoring a compile snapshot')
    parse = [x for x in w.insts if x.ws and x.body is not None and x.file.endswith('parser/mod.rs') and any(w.types[w.strip_ref(t)].get('d', '').endswith(P) for t in x.locals[1:x.argc + 1])]
    if not parse: raise Missing('the incremental entry of the parser')
    used, pmap = set(), {}
    for x in parse:
        for bi, b in enumerate(x.blocks):
            t = b['t']
            if t[0] == 'call':
                for k, o in enumerate(t[2]):
                    if o[0] == 'k': continue
                    if not w.tstr(w.place_ty(x, o[1])).startswith('&mut'): continue
                    fs = d(x).fields(o, P)
                    used |= fs
                    for y in w.callee(t[1]):
                        if y.n == 'new' and len(fs) == 1: pmap.setdefault(y.i, {})[k + 1] = next(iter(fs))
    used = {f for f in used if w.tstr(pf[f][1]).startswith('&mut')}
    ctx.floor('parameters_given_to_parser', len(used), 8)
    # (a)
    saved = {}
    for x in saves:
        for b in x.blocks:
            for s in b['s']:
                if s[0] == '=' and s[2][0] == 'agg' and isinstance(s[2][1], list) and s[2][1][0] == 'adt' and isS(s[2][1][1]):
                    for k, o in enumerate(s[2][2]):
                        for f in d(x).fields(o, P): saved.setdefault(f, set()).add(k)
    restored = {}; at = {}
    for x in restores:
        for bi, f, kind, det in field_events(w, x, P):
            src = set()
            if kind == 'assign':
                rv = det[2] if det[0] == '=' else None
                for o in (operands(rv) if rv else det[2]):
                    if o[0] != 'k': src |= d(x).fields(o, S)
                how = 'assign'
            else:
                how = None
                seen, calls = forward(x, det) if kind == 'borrow' else (set(), [det])
                for _, t in calls:
                    nm = [y.n for y in w.callee(t[1])]
                    for o in t[2][1:]:
                        if o[0] != 'k': src |= d(x).fields(o, S)
                    if src and any(n in ('truncate', 'clone_from', 'replace', 'swap', 'split_off', 'drain', 'resize') for n in nm): how = nm[0]
                if kind == 'borrow':
                    for b in x.blocks:
                        for s in b['s']:
                            if s[0] == '=' and len(s[1]) == 2 and s[1][1] == '*' and s[1][0] in seen:
                                for o in operands(s[2]):
                                    if o[0] != 'k': src |= d(x).fields(o, S)
                                if src: how = 'assign'
            if how and src: restored.setdefault(f, (set(), set())); restored[f][0].update(src); restored[f][1].add(how); at.setdefault((x.i, f), set()).add(bi)
    # every drop-and-write of `*self.f = state.g` also appears as an assignment through the reference held in the field
    for f in sorted(used):
        nm = pf[f][0]; ctx.count(obligations=2)
        if f not in saved: ctx.violation('not saved: %s' % nm, 'the compile snapshot does not record `%s`, which the parser changes' % nm, saves[0].loc()); continue
        if f not in restored: ctx.violation('not restored: %s' % nm, 'rejected input does not put back `%s`, which the parser changes' % nm, restores[0].loc()); continue
        if not restored[f][0] <= saved[f]: ctx.violation('restored from another field: %s' % nm, '`%s` is restored from what was saved of another field' % nm, restores[0].loc())
        for x in restores:
            if avoids(x, at.get((x.i, f), set())): ctx.violation('not always restored: %s' % nm, 'a path through %s does not put back `%s`' % (short(x.p), nm), x.loc())
        if 'assign' in restored[f][1]:
            for g in saved[f]:
                bad = [t for t in shared(w, sf[g][1])]
                if bad: ctx.violation('shared state: %s' % nm, 'the saved copy of `%s` shares mutable state with it (%s)' % (nm, bad[0]), saves[0].loc())
    # appended lists only grow
    cut = {f for f in used if f in restored and 'assign' not in restored[f][1]}
    pfields = parser_fields(w, pmap, cut)
    ctx.floor('append_only_lists', len(pfields), 5)
    nm = 0
    for x in w.insts:
        if not x.ws or x.body is None or '/compiler/' not in '/' + x.file: continue
        for bi, f, kind, det in field_events(w, x, PARSER):
            if f not in pfields: continue
            calls = forward(x, det)[1] if kind == 'borrow' else [det] if kind == 'arg' else []
            for _, t in calls:
                for y in w.callee(t[1]):
                    nm += 1
                    if y.ws: bad = shrinks(w, y, [k + 1 for k, o in enumerate(t[2]) if o[0] != 'k' and w.tstr(w.place_ty(x, o[1])).startswith('&mut')])
                    else: bad = y.n not in APPEND and not y.n.startswith('fmt')
                    if bad: ctx.violation('shrinks %s %s' % (pfields[f], y.n), '%s changes earlier entries of `%s` (%s), which a rejected input only cuts back to its length' % (short(x.p), pfields[f], y.n), x.loc(t[6]))
    ctx.count(uses_of_append_only_lists=nm)
    # (b)
    entries = [x for x in w.insts if x.ws and x.body is not None and x not in parse and '/compiler/' in '/' + x.file and any(w.types[w.strip_ref(t)].get('d', '').endswith(P) for t in x.locals[1:x.argc + 1])
               and any('/compiler/' not in '/' + w.insts[c].file for c in w.rev()[x.i]) and set(y.i for y in parse) & w.reach([x])]
    ctx.floor('incremental_entries', len(entries), 2)

    class Q(TQuery):
        split_types = ('IncrementalCompileResult',)
        def relevant(self, eng, x): return x.ws and x.body is not None and x.file.endswith('compiler/mod.rs')
        def descend(self, eng, x, args): return x.ws and x.body is not None and len(x.blocks) < 20
        def t_call(self, eng, fr, bi, term, x, args, tag, st):
            if x in saves: return [(('saved' if tag[0] == 'start' else tag[0], tag[1] or tag[0] == 'start'), T)]
            if x in restores:
                if tag[0] == 'parsed' and not tag[1]: ctx.violation('%s snapshot late' % short(fr.inst.p), '%s restores a snapshot taken after parsing began' % short(fr.inst.p), fr.inst.loc(term[6]))
                return [(('restored', tag[1]), T)]
            if x in parse: return [(('parsed', tag[1]), T)]
            return None
    nr = 0
    for x in entries:
        out = TEngine(w, Q()).solve(x, [T] * x.argc, ('start', False))
        rt = w.types[x.locals[0]]
        good = {i for i, v in enumerate(rt['v']) if v[0] in ('Success', 'Ok')}
        for (tag, rv), v in sorted(out.items(), key=repr):
            nr += 1
            if tag[0] == 'parsed' and (rv is None or rv not in good): ctx.violation('%s not restored' % short(x.p), '%s returns after rejecting its input without restoring the compile state' % short(x.p), x.loc())
            if tag[0] == 'restored' and (rv in good): ctx.violation('%s accepted and restored' % short(x.p), '%s undoes the compilation of input it accepts' % short(x.p), x.loc())
    ctx.floor('return_states', nr, 5)
    # (c)
    drivers = [x for x in w.insts if x.ws and x.body is not None and x.file.endswith('repl.rs') and any(w.insts[c].n == 'run_until_completion' for c in w.callees(x))]
    if not drivers: raise Missing('the interactive driver')

    class D(TQuery):
        def relevant(self, eng, x): return x.ws and x.body is not None and x.argc and 'Repl<' in w.tstr(x.locals[1])
        def descend(self, eng, x, args): return False
        def t_call(self, eng, fr, bi, term, x, args, tag, st):
            if x.body is not None and w.types[x.locals[0]].get('d', '').endswith('IncrementalCompileResult'):
                vs = w.types[x.locals[0]]['v']
                return [(v[0], ('a', i, ())) for i, v in enumerate(vs)]
            if x.n == 'run_until_completion' and tag != 'Success': ctx.violation('runs rejected input', 'the interactive driver runs the machine after %s' % (tag or 'no compilation'), fr.inst.loc(term[6]))
            return None
    for x in drivers:
        o = TEngine(w, D()).solve(x, [T] * x.argc, '')
        ctx.floor('driver_states', len(o), 3)


def avoids(x, blocks):
    """is there a path to the return that passes none of the blocks"""
    seen = set(); st = [0]
    while st:
        b = st.pop()
        if b in seen or b in blocks: continue
        seen.add(b)
        if x.blocks[b]['t'][0] == 'return': return True
        st += x.succ()[b]
    return False


def shared(w, t, seen=None):
    seen = seen if seen is not None else set()
    if t in seen: return
    seen.add(t)
    ty = w.types[t]
    if ty['k'] in ('ref', 'ptr'):
        if w.tstr(t).startswith(('&mut', '*mut')): yield w.tstr(t)
        return
    if ty['k'] == 'adt':
        n = ty['d'].split('::')[-1]
        if n in ('Rc', 'Arc', 'RefCell', 'Cell', 'Mutex') : yield w.tstr(t); return
        if n in ('Vec', 'HashMap', 'IndexMap', 'Option', 'Box', 'VecDeque', 'IndexSet', 'HashSet') or ty['d'].startswith('cordy_sys'):
            for a in ty['a']: yield from shared(w, a, seen)
        if ty['d'].startswith('cordy_sys'):
            for v in ty['v']:
                for _, ft in v[2]: yield from shared(w, ft, seen)
    for f in ty.get('f', ()) if ty['k'] in ('tuple', 'closure') else (): yield from shared(w, f, seen)


def parser_fields(w, pmap, cut):
    """{field index of Parser: name} for the lists restored by length"""
    out = {}
    for i, m in pmap.items():
        x = w.insts[i]; df = Defs(w, x)
        for b in x.blocks:
            for s in b['s']:
                if s[0] == '=' and s[2][0] == 'agg' and isinstance(s[2][1], list) and s[2][1][0] == 'adt' and w.types[s[2][1][1]]['d'].endswith(PARSER):
                    names = w.types[s[2][1][1]]['v'][0][2]
                    for k, o in enumerate(s[2][2]):
                        ps = df.params(o) if o[0] != 'k' else set()
                        if len(ps) == 1 and m.get(next(iter(ps))) in cut: out[k] = names[k][0]
    return out


def shrinks(w, y, params, depth=0):
    if y.body is None or depth > 3: return False
    for l in params:
        if l > y.argc or 'Vec<' not in w.tstr(y.locals[l]): continue
        for _, t in forward(y, l)[1]:
            for z in w.callee(t[1]):
                if z.ws:
                    seen = forward(y, l)[0]
                    if shrinks(w, z, [k + 1 for k, o in enumerate(t[2]) if o[0] != 'k' and o[1][0] in seen], depth + 1): return True
                elif z.n not in APPEND and t[2] and t[2][0][0] != 'k' and t[2][0][1][0] in forward(y, l)[0]: return True
    return False
