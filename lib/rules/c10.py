"""C10: a run-time error leaves an interactive session consistent."""
from mir import Missing, short
from slices import Defs, field_of, field_events
from typestate import *

VM = 'vm::VirtualMachine'
IO = ('read', 'write', 'ffi')
CLEAR = {'clear', 'drain', 'take', 'truncate', 'resize', 'resize_with', 'retain', 'split_off'}
GROW = {'push', 'extend', 'insert', 'resize', 'resize_with', 'extend_from_slice'}


def run(ctx):
    w = ctx.world()
    ctx.rule('Execution state is every field of the virtual machine that some function reachable from the interpreter loop changes, less the input and output streams and what is handed to the compiler. A typestate analysis over the interactive driver requires that on every path from the run of a line to the return which asks for the next one, each of these fields is put back: the operand stack resized to the number of declared globals, the global count set to it, open captured-variable links drained and closed before the stack is shortened, the call stack cut to its root, the instruction pointer set to the end of the code, the rest emptied.')
    vms = w.adts(VM)
    if not vms: raise Missing(VM)
    names = [f[0] for f in w.types[vms[0]]['v'][0][2]]
    ftys = [w.tstr(f[1]) for f in w.types[vms[0]]['v'][0][2]]
    drivers = [x for x in w.insts if x.ws and x.body is not None and x.file.endswith('repl.rs') and 'closure' not in x.p and any(y.n == 'run_until_completion' for c in w.callees(x) for y in [w.insts[c]])]
    if not drivers: raise Missing('the interactive driver (a caller of run_until_completion in repl.rs)')
    runs = [x for x in w.insts if x.ws and x.n == 'run_until_completion']
    # compile state: fields that flow into CompileParameters
    comp = set()
    for x in w.insts:
        if x.ws and x.body is not None and any(t[0] == 'call' and any(y.n == 'new' and 'CompileParameters' in y.p for y in w.callee(t[1])) for t in (b['t'] for b in x.blocks)):
            for _, f, k, d in field_events(w, x, VM): comp.add(f)
    state = {}
    for i in sorted(w.reach(runs)):
        x = w.insts[i]
        if not x.ws or x.body is None: continue
        for _, f, k, d in field_events(w, x, VM):
            if f not in comp and names[f] not in IO: state.setdefault(f, short(x.p))
    ctx.floor('execution_state_fields', len(state), 6)
    ctx.sample('execution state: ' + ', '.join('%s (changed by %s)' % (names[f], state[f]) for f in sorted(state)))
    kind = {}
    for f in state:
        t = ftys[f]
        kind[f] = 'upvalues' if 'UpValue' in t else 'frames' if 'CallFrame' in t else 'stack' if 'Vec<' in t and t.rstrip('>').endswith('ValuePtr') else 'number' if t == 'usize' else 'other'
    stack = [f for f in kind if kind[f] == 'stack']
    code = [i for i, t in enumerate(ftys) if 'Vec<' in t and 'Opcode' in t]
    if len(stack) != 1 or len(code) != 1: raise Missing('the operand stack and the code of the virtual machine')
    stack, code = stack[0], code[0]
    defs = {}

    class Q(TQuery):
        max_tags = 400
        def d(self, x):
            if x.i not in defs: defs[x.i] = Defs(w, x)
            return defs[x.i]
        def relevant(self, eng, x):
            return x.ws and x.body is not None and x not in runs and x.argc and x.n != 'incremental_compile' and any(k in w.tstr(x.locals[1]) for k in ('VirtualMachine<', 'Repl<'))
        def descend(self, eng, x, args): return False
        def fields(self, x, o):
            # only what the receiver refers to: through references, never through other calls
            return self.d(x).fields(o, VM, stop=lambda t: not any(y.n in ('deref_mut', 'deref', 'as_mut', 'borrow_mut') for y in w.callee(t[1])))
        def t_call(self, eng, fr, bi, term, x, args, tag, st):
            if x in runs: return [(('ran',) , T)]
            if not tag: return None
            if x.n == 'len' and term[2] and term[2][0][0] != 'k':
                at = w.tstr(w.strip_ref(w.place_ty(fr.inst, term[2][0][1])))
                if at.endswith('Locals'): return [(tag, ('sym', 'globals'))]
                fs = self.fields(fr.inst, term[2][0])
                if fs == {code}: return [(tag, ('sym', 'code'))]
                if fs == {stack} and ('reset', stack) in tag: return [(tag, ('sym', 'globals'))]
            if x.ws or not term[2] or term[2][0][0] == 'k': return None
            fs = self.fields(fr.inst, term[2][0])
            if len(fs) != 1: return None
            f = next(iter(fs))
            if f not in state or not w.tstr(w.place_ty(fr.inst, term[2][0][1])).startswith('&mut'): return None
            add = set()
            n = x.n
            a = args[1] if len(args) > 1 else None
            if n in CLEAR or (n == 'replace' and x.p.startswith('std::mem')):
                if kind[f] == 'stack':
                    upv = [g for g in kind if kind[g] == 'upvalues' and ('reset', g) not in tag]
                    if upv: ctx.violation('stack before captured variables', 'the operand stack is shortened while captured variables of abandoned frames still refer to it', fr.inst.loc(term[6]))
                    if n in ('resize', 'resize_with') and a == ('sym', 'globals'): add.add(('reset', f))
                    elif n == 'truncate' and a == ('sym', 'globals'): add.add(('cut', f))
                elif kind[f] == 'frames':
                    if n == 'truncate' and a == ('i', 1): add.add(('reset', f))
                    elif n == 'clear' or n == 'drain': add.add(('cut', f))
                elif kind[f] == 'upvalues':
                    if n in ('drain', 'take', 'replace') : add.add(('reset', f)); drains.append((fr.inst, f, fr.inst.loc(term[6])))
                    elif n == 'clear' and ('iterated', f) in tag: add.add(('reset', f)); drains.append((fr.inst, f, fr.inst.loc(term[6])))
                elif n != 'truncate' or a == ('i', 0):
                    if n in ('clear', 'drain', 'take', 'truncate', 'replace'): add.add(('reset', f))
            elif n in ('iter', 'iter_mut', 'values', 'values_mut', 'into_iter'): add.add(('iterated', f))
            if n in GROW and ('cut', f) in tag: add.add(('reset', f))
            return [(tuple(dict.fromkeys(tag + tuple(sorted(add)))), T)] if add else None
        def t_stmt(self, eng, fr, bi, s, val, st, tag):
            if not tag: return tag
            f = field_of(w, fr.inst, s[1], VM)
            if f in state and w.tstr(w.place_ty(fr.inst, s[1])) == ftys[f]:
                ok = val == ('sym', 'code') if names[f] == 'ip' else val == ('sym', 'globals') if kind[f] == 'number' else kind[f] not in ('stack', 'upvalues')
                if ok: return tuple(dict.fromkeys(tag + (('reset', f),)))
            return tag
    drains = []
    n = 0
    for x in drivers:
        q = Q(); eng = TEngine(w, q)
        rt = w.types[x.locals[0]]
        okv = [i for i, v in enumerate(rt['v']) if v[0] == 'Ok'] if rt['k'] == 'adt' else []
        if not okv: raise Missing('the result of the interactive driver')
        out = eng.solve(x, [T] * x.argc, ())
        n += len(out)
        bad = set()
        for (tag, rv), v in out.items():
            if not tag or (rv is not None and rv not in okv): continue
            for f in state:
                if ('reset', f) not in tag: bad.add(f)
        for f in sorted(bad):
            what = {'stack': 'is not brought to exactly the declared globals', 'upvalues': 'is not drained and closed', 'frames': 'is not cut to its root frame', 'number': 'is not set to its value for the next line'}.get(kind[f], 'is not emptied')
            ctx.violation('not reset: %s' % names[f], 'after a line has run, `%s`, which %s changes, %s on some path to the next line' % (names[f], state[f], what), x.loc())
    for x, f, loc in drains:
        if not any(s[0] == '=' and s[2][0] == 'agg' and isinstance(s[2][1], list) and w.types[s[2][1][1]].get('d', '').endswith('UpValue') and w.types[s[2][1][1]]['v'][s[2][1][2]][0] == 'Closed' for y in [x] + [z for z in w.insts if z.ws and z.body is not None and (z.p.startswith(x.p + '::{closure') or z.i in w.callees(x))] for b in y.blocks for s in b['s']):
            ctx.violation('captured variables dropped', 'captured variables of abandoned frames are dropped without being closed over their value', loc)
    ctx.floor('driver_exits', n, 3)
    ctx.count(functions=len(state))
