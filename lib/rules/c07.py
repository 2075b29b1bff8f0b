"""C07: programs act on the host only through their declared channels."""
import re
from dispatch import *
from mir import Missing

# functions of other crates which act on or observe the host, and the channel they belong to; anything else of these modules is undeclared
HOST = re.compile(r"^<?&?(mut )?(std::(fs|net|process|env|os|time|thread|random|io::(stdio|_print|_eprint|stdin|stdout|stderr|Stdin(Lock)?|Stdout(Lock)?|Stderr(Lock)?))\b|std::sys|libc\b|libloading|rustyline|nix|winapi|rand|getrandom|chrono|time::)|RandomState")
HARMLESS = re.compile(r"^<?std::(thread::(LocalKey|local_impl)|sys::(io::error|thread_local|sync|cmath|alloc)|io::Error|env::VarError)|^<.* as std::fmt::\w+>::fmt$|^<.* as std::(error::Error|clone::Clone|ops::Drop)>|^<?std::(thread::AccessError)")
CHANNEL = [
    ('read a file', re.compile(r'std::fs::(read_to_string|read|File::open|File::options|OpenOptions|Metadata|metadata)\b|<&?(std::)?std::fs::File as std::io::Read>|std::fs::File')),
    ('write a file', re.compile(r'std::fs::(write|File::create|File::options|OpenOptions)\b|<&?std::fs::File as std::io::Write>|std::fs::File')),
    ('environment', re.compile(r'std::env::(var|vars|var_os|vars_os|Vars|VarsOs)\b')),
    ('output', re.compile(r'Stdout(Lock)?\b.* as std::io::Write>|std::io::Write::\w+.* at .*Stdout')),
    ('input', re.compile(r'Stdin(Lock)?\b.* as std::io::(Read|BufRead)>|std::io::(Read|BufRead)::\w+.* at .*Stdin')),
    ('native library', re.compile(r'libloading::')),
]
IO = {'read', 'read_line', 'read_to_string', 'read_to_end', 'read_exact', 'read_until', 'lines', 'bytes', 'fill_buf', 'consume', 'skip_until', 'read_buf', 'write', 'write_all', 'write_fmt', 'write_str', 'flush', 'by_ref', 'take', 'chain'}
DECLARED = {'Print': {'output'}, 'Read': {'input'}, 'ReadLine': {'input'}, 'Env': {'environment'}, 'ReadText': {'read a file'}, 'WriteText': {'write a file'}}
# (channel, position of the program value that names what is acted on)
NAMED = {'ReadText': {'read a file': 'a1'}, 'WriteText': {'write a file': 'a1'}, 'Env': {'environment': 'a1'}}
# position of the name
NAMING = {'std::fs::read_to_string': 0, 'std::fs::read': 0, 'std::fs::write': 0, 'std::fs::File::open': 0, 'std::fs::File::create': 0, 'std::fs::OpenOptions::open': 1, 'std::env::var': 0, 'std::env::var_os': 0}
SAME = {'as_str_checked', 'as_str', 'as_str_slice', 'deref', 'as_ref', 'borrow', 'branch', 'clone', 'into', 'from', 'to_owned', 'to_string', 'new', 'as_path', 'as_os_str', 'ok', 'to_str', 'into_owned', 'as_string', 'to_path_buf', 'into_string', 'as_os_string', 'unwrap'}
# crates trusted to compute only: none of their functions used here touches the host
PURE = {'core', 'alloc', 'std', 'indexmap', 'itertools', 'fancy_regex', 'regex', 'regex_automata', 'regex_syntax', 'num_complex', 'num_integer', 'num_traits', 'rug', 'gmp_mpfr_sys', 'az', 'fxhash', 'hashbrown', 'equivalent', 'either', 'bit_set', 'bit_vec', 'aho_corasick', 'memchr', 'libm', 'byteorder', 'libmimalloc_sys', 'mimalloc', 'log'}


def channels(p):
    out = {c for c, r in CHANNEL if r.search(p)}
    return out


class Host:
    def __init__(self, w):
        self.w = w
        self._e = {}

    def label(self, x):
        """path, with the type a trait method or generic type is used at"""
        s = [self.w.tstr(t) for t in (x.s or []) if isinstance(t, int)]
        host = [t for t in s if HOST.search(t.lstrip('&').replace('mut ', ''))] if not HARMLESS.search(x.p) else []
        return x.p + (' at ' + ', '.join(host) if host else '')

    def is_host(self, x):
        if x.ws: return False
        if HARMLESS.search(x.p): return False
        if HOST.search(x.p): return True
        return bool(x.trait or x.traitdef or '::' in x.p) and any('RandomState' in t or (x.n in IO and HOST.search(t.lstrip('&').replace('mut ', ''))) for t in (self.w.tstr(t) for t in (x.s or []) if isinstance(t, int)))

    def edges(self, x):
        """functions called or mentioned as values; a call through a pointer goes to a function mentioned somewhere"""
        r = self._e.get(x.i)
        if r is None:
            r = set()
            for b in x.blocks:
                for s in b['s']:
                    if s[0] == '=': self.mention(s[2], r)
                t = b['t']
                if t[0] == 'call':
                    if 'ptr' not in t[1]: r |= {y.i for y in self.w.callee(t[1])}
                    self.mention(t[2], r)
                elif t[0] == 'drop':
                    r |= {y.i for y in self.dropped(x, b)}
            self._e[x.i] = r
        return r

    def dropped(self, x, b):
        return []

    def mention(self, r, out):
        if isinstance(r, dict):
            t = r.get('t')
            if isinstance(t, int) and self.w.types[t]['k'] == 'fndef' and self.w.types[t].get('i', -1) is not None and self.w.types[t]['i'] >= 0: out.add(self.w.types[t]['i'])
            v = r.get('v')
            if isinstance(v, dict) and isinstance(v.get('fn'), int): out.add(v['fn'])
            return
        if isinstance(r, (list, tuple)):
            if len(r) > 4 and r[0] == 'cast' and r[1] == 'reify' and isinstance(r[4], int) and r[4] >= 0: out.add(r[4])
            if len(r) > 1 and r[0] == 'agg' and isinstance(r[1], list) and r[1] and r[1][0] == 'closure':
                pass
            for y in r:
                if isinstance(y, (list, tuple, dict)): self.mention(y, out)

    def reach(self, roots, stop=lambda x: False):
        """{inst id: inst id of a caller}"""
        seen = {}; todo = [(x.i, None) for x in roots]
        while todo:
            i, p = todo.pop()
            if i in seen: continue
            seen[i] = p
            x = self.w.insts[i]
            if x.body is None or self.is_host(x) or stop(x) and p is not None: continue
            # functions of other crates are followed only to find what they call back
            for y in sorted(self.edges(x)):
                if y not in seen: todo.append((y, i))
        return seen

    def acts(self, roots, stop=lambda x: False):
        """[(host function, caller in the workspace chain)]"""
        out = []
        for i in sorted(self.reach(roots, stop)):
            x = self.w.insts[i]
            if not x.ws or x.body is None: continue
            if stop(x) and x not in roots: continue
            for y in sorted(self.edges(x)):
                if self.is_host(self.w.insts[y]): out.append((self.w.insts[y], x))
        return out


class EffQ(DispatchQ):
    """what one built-in calls, following only the dispatch code"""
    def __init__(self, w, native):
        DispatchQ.__init__(self, w, native)
        self.calls = {}
        self.follow = lambda x: False

    def descend(self, eng, x, args):
        return DispatchQ.descend(self, eng, x, args) or self.follow(x)

    def model(self, eng, x, args, fr):
        m = DispatchQ.model(self, eng, x, args, fr)
        if m is not None: return m
        if x.n in SAME and args and not self.descend(eng, x, args):
            s = set().union(*[names(a) for a in args])
            if s: return ('sym', 'tag', '+'.join(sorted(s)))
        return None

    def on_call(self, eng, fr, bi, t, targets, args):
        for x in targets:
            if is_panic(x) or self.descend(eng, x, args): continue
            self.calls.setdefault(x.i, set()).add(tuple('+'.join(sorted(names(a))) for a in args))


def names(v):
    if v[0] == 'sym' and v[1] in ('val', 'tag') and isinstance(v[2], str): return {v[2]}
    if v[0] == 'r': return names(v[1])
    if v[0] == 'a': return set().union(*[names(x) for _, x in v[2]]) if v[2] else set()
    if v[0] in ('u', 'arr'): return set().union(*[names(x) for x in v[1]]) if v[1] else set()
    return set()


def run(ctx):
    w = ctx.world()
    ctx.rule('Every call from the workspace into a function of another crate that acts on or observes the host (files, network, processes, threads, time, randomness, environment, standard streams, native libraries, system calls) is an effect. Compilation must reach none; the interpreter must reach none but through a built-in or the native library interface; each built-in, analysed with its variant fixed by constant propagation through the dispatch code, must reach exactly the effects it is declared to have, naming the file or variable by the value the program gave.')
    h = Host(w)
    nf = w.variants('core::NativeFunction')
    disp = [w.need('core::invoke_%s' % k)[0] for k in ('arg0', 'arg1', 'arg2', 'arg3', 'var')]
    dq = DispatchQ(w)
    def is_disp(x): return x.ws and x.body is not None and x.p.startswith('cordy_sys::core::') and dq.disp(x)
    # crates used
    crates = {}
    for x in w.insts:
        if x.ws and x.body is not None:
            for i in h.edges(x):
                y = w.insts[i]
                if not y.ws: crates.setdefault(y.c, (x, y))
    ctx.coverage['crates_called'] = len(crates)
    for c, (x, y) in sorted(crates.items()):
        if c not in PURE and not h.is_host(y) and not HOST.search(y.p): ctx.violation('crate %s' % c, '%s calls %s of crate %s, which is not known to leave the host alone' % (x.p, y.p, c), x.loc())
    ext = [x for x in w.insts if x.ws and x.body is None and x.k == 'item' and not x.trait]
    for x in ext: ctx.violation('foreign %s' % x.p, '%s is a foreign function' % x.p, x.loc())
    # compilation
    roots = [x for n in ('compile', 'scan', 'incremental_compile', 'eval_compile') for x in w.fns(name=n) if x.p.startswith('cordy_sys::compiler::')]
    roots += [x for x in w.fns() if x.p.startswith('cordy_sys::compiler::')]
    if len({x.n for x in roots} & {'compile', 'incremental_compile', 'eval_compile'}) < 3: raise Missing('entry points of the compiler')
    acts = h.acts(roots)
    ctx.coverage['compiler_functions'] = len([i for i in h.reach(roots) if w.insts[i].ws])
    for x, c in acts: ctx.violation('compile %s %s' % (c.short(), x.p), 'compiling reaches %s through %s' % (x.p, c.p), c.loc())
    # the interpreter without the built-ins
    vm = [x for x in w.fns() if 'cordy_sys::vm::' in x.p and x.body is not None]
    vi = [x for x in vm if x.trait and x.trait.endswith('VirtualInterface')]
    loops = [x for x in vm if x not in vi]
    if not [x for x in loops if x.n == 'run']: raise Missing('the interpreter loop')
    via = {x.i for x in vi}
    def stop(x): return is_disp(x) or x.i in via
    for x, c in h.acts(loops, stop):
        ch = channels(h.label(x))
        if 'native library' in ch: continue
        ctx.violation('interpreter %s %s' % (c.short(), x.p), 'the interpreter reaches %s through %s outside any built-in function' % (x.p, c.p), c.loc())
    ctx.coverage['interpreter_functions'] = len([i for i in h.reach(loops, stop) if w.insts[i].ws])
    # effects anywhere in what programs can reach
    allacts = h.acts(loops + vi + disp)
    kinds = {}
    for x, c in allacts:
        ch = channels(h.label(x))
        ctx.count(host_calls=1)
        if not ch: ctx.violation('undeclared %s %s' % (c.short(), x.p), 'running a program reaches %s through %s' % (x.p, c.p), c.loc())
        if 'native library' in ch and not c.p.startswith(('cordy::ffi', 'cordy::<ffi')) and 'ffi::' not in c.p: ctx.violation('library %s' % c.short(), '%s loads native code outside the foreign function interface' % c.p, c.loc())
        for k in ch: kinds.setdefault(k, []).append(c)
        if ch & {'input', 'output'} and c.i not in via and not c.p.startswith('cordy::'): ctx.violation('stream %s' % c.short(), '%s uses a stream of the process' % c.p, c.loc())
    # streams are used through the interface the machine was given
    # which built-in has which effect
    loopset = {x.i for x in loops if x.n == 'run'}
    inv = {x.i for x in vi if x.n.startswith('invoke')}
    def stop2(x): return is_disp(x) or x.i in loopset or x.i in inv
    cache = {}; ctx.named = {}
    def effects(i):
        if i not in cache:
            x = w.insts[i]
            if stop2(x): cache[i] = set()
            elif h.is_host(x): cache[i] = {(x.p, tuple(sorted(channels(h.label(x)))))}
            else: cache[i] = {(y.p, tuple(sorted(channels(h.label(y))))) for y, _ in h.acts([x], stop2)}
        return cache[i]
    for n, (v, _, _) in sorted(nf.items()):
        got = {}; where = ''
        for f in disp:
            q = EffQ(w, v); e = Engine(w, q)
            q.follow = lambda x: x.ws and x.body is not None and bool(effects(x.i))
            args = []
            k = 0
            for t in f.locals[1:f.argc + 1]:
                ty = w.types[w.strip_ref(t)]
                if ty.get('d') == NF: args.append(('a', v, ()))
                elif ty.get('d', '').endswith('ValuePtr'): k += 1; args.append(A('a%d' % k))
                else: args.append(T)
            e.call(f, args)
            for i, uses in q.calls.items():
                for p, ch in effects(i):
                    for c in ch or ('undeclared',): got.setdefault(c, []).append((w.insts[i], uses, f))
        ctx.count(builtins=1)
        want = DECLARED.get(n, set())
        # opening a file may read or write it: both channels match
        g = set(got)
        if want and want <= g and g <= want | {'read a file', 'write a file'} and g & {'read a file', 'write a file'} == g and want & g and all(len(channels(p)) == 2 for i in [x.i for c in g - want for x, _, _ in got[c]] for p, _ in effects(i)): g = want
        for c in sorted(g - want):
            x = got[c][0][0]
            ctx.violation('builtin %s %s' % (n, c), 'the built-in %s reaches the host (%s) through %s' % (n, c, x.p), got[c][0][2].loc())
        for c in sorted(want - g): ctx.violation('builtin %s no %s' % (n, c), 'the built-in %s no longer reaches its channel (%s)' % (n, c), disp[0].loc())
        for c, a in NAMED.get(n, {}).items():
            for x, uses, f in got.get(c, ()):
                at = NAMING.get(x.p)
                if at is None: continue   # acts on what was opened by name
                first = {u[at] for u in uses if len(u) > at}
                ctx.count(named=1); ctx.named[n] = True
                if first != {a}: ctx.violation('builtin %s names' % n, 'the built-in %s acts on %s, not on what the program named' % (n, ' or '.join(sorted(first)) or 'something of its own'), f.loc())
    named = {n for n in NAMED if not ctx.named.get(n)}
    for n in sorted(named): ctx.violation('builtin %s unnamed' % n, 'no call made by the built-in %s names what it acts on' % n, disp[0].loc())
    ctx.floor('builtins', ctx.coverage.get('builtins', 0), 120)
    ctx.floor('host_calls', ctx.coverage.get('host_calls', 0), 5)
    ctx.floor('named', ctx.coverage.get('named', 0), 3)
    ctx.floor('compiler_functions', ctx.coverage['compiler_functions'], 200)
    ctx.sample({'effects': sorted({x.p for x, _ in allacts})})
