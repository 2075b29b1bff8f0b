"""C08: sets and dicts keep insertion order."""
from mir import Missing, short
from slices import Defs

TABLES = ('indexmap::IndexMap', 'indexmap::IndexSet', 'indexmap::map::IndexMap', 'indexmap::set::IndexSet')
# indexmap operations that move keys other than those removed, or order them anew (complete for indexmap 2.0; `remove` is `swap_remove`)
REORDER = {'swap_remove', 'swap_remove_entry', 'swap_remove_full', 'swap_remove_index', 'swap_take', 'take', 'remove', 'remove_entry', 'swap_indices', 'move_index', 'reverse',
           'sort', 'sort_by', 'sort_keys', 'sort_unstable', 'sort_unstable_by', 'sort_unstable_keys', 'sort_by_cached_key', 'sorted_by', 'sorted_unstable_by', 'shift_insert', 'insert_before', 'insert_sorted',
           'par_sort', 'par_sort_by', 'par_sort_keys', 'par_sort_unstable', 'par_sort_unstable_by', 'par_sort_unstable_keys', 'par_sort_by_cached_key', 'par_sorted_by', 'par_sorted_unstable_by'}
REMOVE = {'shift_remove', 'shift_remove_entry', 'shift_remove_full', 'shift_take', 'swap_remove', 'remove', 'shift_remove_index', 'retain', 'truncate', 'split_off'}
INSERT = {'insert', 'insert_full', 'entry', 'extend', 'append'}
HASH_ITER = {'iter', 'into_iter', 'iter_mut', 'keys', 'values', 'into_keys', 'into_values', 'drain', 'values_mut', 'extract_if', 'union', 'intersection', 'difference', 'symmetric_difference'}
SEQ_REORDER = {'sort', 'sort_by', 'sort_by_key', 'sort_unstable', 'sort_unstable_by', 'sort_unstable_by_key', 'sort_by_cached_key', 'swap_remove', 'swap_remove_back', 'swap_remove_front', 'rotate_left', 'rotate_right', 'reverse', 'rev', 'swap', 'into_sorted_vec', 'push_front', 'select_nth_unstable'}


def table(w, t):
    t = w.strip_ref(t)
    if t is None: return None
    ty = w.types[t]
    if ty['k'] == 'adt' and ty['d'] in TABLES and holds_value(w, t): return ty['d'].split('::')[-1]
    return None


def holds_value(w, t): return any('vm::ValuePtr' in w.tstr(a) or 'vm::value::ptr::ValuePtr' in w.tstr(a) for a in w.types[t]['a'])


def run(ctx):
    w = ctx.world()
    ctx.rule('Every operation on a hash table of program values (resolved indexmap instance, wherever in the workspace it is called) is classified; those which move other keys or order them anew are reported, as are: removing a key and inserting one into the same table in one function, iterating a table that is ordered by hash, building a set or dict from a sequence that was sorted, reversed or read from a heap in that function, the set operators called with their operands exchanged, and replacing a table with one built from another operand.')
    sets = [d for d in ('Set', 'Dict') for a in w.adts('value::collections::' + d)]
    if len(sets) < 2: raise Missing('the set and dict types')
    for d in ('Set', 'Dict'):
        ty = w.types[w.adts('value::collections::' + d)[0]]
        if not any(table(w, ft) for v in ty['v'] for _, ft in v[2]): ctx.violation('representation %s' % d, 'the type %s does not hold an insertion ordered table' % d, 'cordy-sys/src/vm/value/collections.rs')
    nops = nfn = 0
    removers, inserters = {}, {}
    builds = builders(w)
    for x in w.insts:
        if not x.ws or x.body is None: continue
        rem, ins = [], []
        df = None
        for bi, b in enumerate(x.blocks):
            t = b['t']
            if t[0] != 'call': continue
            for y in w.callee(t[1]):
                recv = y.locals[1] if y.body is not None and y.argc else None
                at = w.place_ty(x, t[2][0][1]) if t[2] and t[2][0][0] != 'k' else recv
                k = (table(w, at) if at is not None else None) or (table(w, recv) if recv is not None else None)
                ent = 'indexmap::' in y.p and at is not None and w.types[w.strip_ref(at)].get('d', '').endswith(('OccupiedEntry', 'IndexedEntry'))
                if (k or ent) and y.c == 'indexmap':
                    nops += 1
                    if y.n in REORDER: ctx.violation('%s %s' % (short(x.p), y.n), '%s applies %s to a hash table of program values: it changes the order of other keys' % (short(x.p), y.n), x.loc(t[6]))
                    if y.n in REMOVE: rem.append((bi, t))
                    if y.n in INSERT: ins.append((bi, t))
                    if k == 'IndexSet' and y.n in ('union', 'intersection', 'difference', 'symmetric_difference') and len(t[2]) == 2:
                        df = df or Defs(w, x)
                        a, c = df.params(t[2][0], False), df.params(t[2][1], False)
                        ctx.count(set_operators=1)
                        if a and c and min(a) > max(c): ctx.violation('%s %s operands' % (short(x.p), y.n), '%s computes %s of its operands in exchanged order: the keys of the second come first' % (short(x.p), y.n), x.loc(t[6]))
                if y.n in HASH_ITER and at is not None:
                    ty = w.types[w.strip_ref(at)]
                    if ty['k'] == 'adt' and ty['d'].split('::')[-1] in ('HashMap', 'HashSet', 'BTreeMap', 'BTreeSet') and holds_value(w, w.strip_ref(at)):
                        ctx.violation('%s iterates %s' % (short(x.p), ty['d'].split('::')[-1]), '%s iterates a %s of program values: the order does not depend on insertion' % (short(x.p), ty['d'].split('::')[-1]), x.loc(t[6]))
        if rem or ins: nfn += 1
        if rem: removers[x.i] = rem
        if ins: inserters[x.i] = ins
        flow(ctx, w, x, builds)
        replaced(ctx, w, x)
    for m in (removers, inserters):   # what a closure does is attributed to the function it is written in
        for i in list(m):
            if '::{closure' in w.insts[i].p:
                for y in w.by_path.get(w.insts[i].p.split('::{closure')[0], ()): m.setdefault(y.i, [])
    for x in w.insts:
        if not x.ws or x.body is None: continue
        rem, ins = list(removers.get(x.i, ())), list(inserters.get(x.i, ()))
        for bi, b in enumerate(x.blocks):   # a helper that removes or inserts counts as the operation it makes
            t = b['t']
            if t[0] != 'call' or b.get('c'): continue
            for y in w.callee(t[1]):
                if y.i != x.i and y.ws and y.i in removers: rem.append((bi, t))
                if y.i != x.i and y.ws and y.i in inserters: ins.append((bi, t))
        for rb, rt in rem:
            for ib, it in ins:
                if ib in reach(x, rb): ctx.violation('%s remove+insert' % short(x.p), '%s removes a key and then inserts one in the same table: a key that was present moves to the end' % short(x.p), x.loc(it[6]))
    ctx.floor('table_operations', nops, 45)
    ctx.count(functions_changing_tables=nfn, functions=sum(1 for x in w.insts if x.ws and x.body is not None))


def reach(x, b):
    seen = set(); st = list(x.succ()[b])
    while st:
        c = st.pop()
        if c in seen: continue
        seen.add(c); st += x.succ()[c]
    return seen


def builders(w):
    """workspace functions that turn a sequence given to them into a set or dict"""
    out = set()
    for x in w.insts:
        if not x.ws or x.body is None or not x.argc: continue
        for b in x.blocks:
            t = b['t']
            if t[0] == 'call' and is_build(w, x, t): out.add(x.i)
    return out


def is_build(w, x, t, names=('collect', 'from_iter', 'extend')):
    rt = w.place_ty(x, t[3])
    for y in w.callee(t[1]):
        if y.n in ('collect', 'from_iter') and rt is not None and table(w, rt): return True
        if y.n in ('extend', 'insert') and t[2] and t[2][0][0] != 'k' and table(w, w.place_ty(x, t[2][0][1])): return True
    return False


def flow(ctx, w, x, builds):
    """a reordered sequence flows into a set or dict"""
    sinks = []
    for b in x.blocks:
        t = b['t']
        if t[0] != 'call': continue
        if is_build(w, x, t): sinks.append(t)
        elif any(y.i in builds and y.i != x.i and not w.tstr(y.locals[1]).startswith('&') for y in w.callee(t[1])): sinks.append(t)
    if not sinks: return
    ctx.count(table_constructions=len(sinks))
    def source(t):
        for y in w.callee(t[1]):
            at = w.place_ty(x, t[2][0][1]) if t[2] and t[2][0][0] != 'k' else None
            if y.n in SEQ_REORDER and not y.ws: return True
            if y.n in ('iter', 'into_iter', 'drain', 'into_vec') and at is not None and w.types[w.strip_ref(at)].get('d', '').split('::')[-1] in ('BinaryHeap', 'HashSet', 'HashMap', 'BTreeSet', 'BTreeMap'): return True
        return False
    if not any(b['t'][0] == 'call' and source(b['t']) for b in x.blocks): return
    df = Defs(w, x)
    tn = df.tainted(source, lambda t: any(y.n not in ('iter', 'into_iter', 'rev', 'into_vec', 'drain') for y in w.callee(t[1])))
    for t in sinks:
        if any(o[0] != 'k' and o[1][0] in tn and not w.tstr(w.place_ty(x, o[1])).startswith('&mut') for o in t[2]): ctx.violation('%s reordered' % short(x.p), '%s builds a set or dict from a sequence it has reordered' % short(x.p), x.loc(t[6]))


def replaced(ctx, w, x):
    """the whole table of one operand replaced by one that comes from another operand"""
    df = None
    for b in x.blocks:
        cand = []
        for s in b['s']:
            if s[0] == '=' and '*' in s[1] and s[2][0] == 'use' and s[2][1][0] == 'm':
                pt = w.place_ty(x, s[1])
                if pt is not None and whole(w, pt): cand.append((['c', s[1]], s[2][1], s[3]))
        t = b['t']
        if t[0] == 'call':
            for y in w.callee(t[1]):
                if y.n in ('swap', 'replace') and y.p.startswith('std::mem') and len(t[2]) == 2:
                    et = w.strip_ref(w.place_ty(x, t[2][0][1])) if t[2][0][0] != 'k' else None
                    if et is not None and whole(w, et): cand.append((t[2][0], t[2][1], t[6]))
        for dst, src, line in cand:
            df = df or Defs(w, x)
            a, c = df.params(dst), df.params(src)
            vals = lambda ps: {p for p in ps if w.tstr(x.locals[p]).endswith('ValuePtr')}
            if vals(c) - vals(a) and vals(a): ctx.violation('%s replaced' % short(x.p), '%s replaces the table of one operand with one made from another: keys take the order of the other operand' % short(x.p), x.loc(line))


def whole(w, t):
    ty = w.types[t]
    return bool(table(w, t)) or ty.get('d', '').endswith(('value::collections::Set', 'value::collections::Dict'))
