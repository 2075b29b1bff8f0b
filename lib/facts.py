"""Builds the fact extractor and extracts MIR facts from /repo's current working tree.

Everything lands under /verif/build (git-ignored); facts are keyed by a hash of every source and
manifest file of the repository plus the extractor, so a changed tree is always analysed afresh."""
import os, sys, hashlib, subprocess, fcntl, shutil, pickle, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('CORDY_REPO', '/repo')
BUILD = os.path.join(HERE, 'build')


class BuildError(Exception): pass


def sh(cmd, env=None, cwd=None):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0: raise BuildError('%s failed:\n%s' % (' '.join(cmd), p.stdout[-4000:]))
    return p.stdout


def hash_files(files):
    h = hashlib.sha256()
    for f in sorted(files):
        h.update(f.encode()); h.update(b'\0')
        with open(f, 'rb') as fh: h.update(fh.read())
        h.update(b'\0')
    return h.hexdigest()[:16]


def repo_files():
    out = []
    for d, ds, fs in os.walk(REPO):
        ds[:] = [x for x in ds if x not in ('target', '.git', 'node_modules', 'resources')]
        for f in fs:
            if f.endswith(('.rs', '.toml', '.h', '.c', '.lock')) or d.endswith('docs'): out.append(os.path.join(d, f))
    return out


def driver():
    src = [os.path.join(HERE, 'driver', f) for f in ('main.rs', 'dump.rs')]
    h = hash_files(src)
    out = os.path.join(BUILD, 'driver-' + h)
    if not os.path.exists(out):
        tmp = out + '.tmp%d' % os.getpid()
        sh(['rustc', '+nightly', '--edition', '2021', '-O', src[0], '-o', tmp])
        os.rename(tmp, out)
    return out, h


def base_env():
    env = dict(os.environ)
    for k in ('RUSTUP_TOOLCHAIN', 'RUSTFLAGS', 'CARGO_TARGET_DIR', 'RUSTC', 'RUSTC_WRAPPER', 'RUSTC_WORKSPACE_WRAPPER', 'CARGO_BUILD_TARGET'): env.pop(k, None)
    sysroot = sh(['rustc', '+nightly', '--print', 'sysroot']).strip()
    env['LD_LIBRARY_PATH'] = sysroot + '/lib'
    env['CARGO_NET_OFFLINE'] = 'true'
    return env


def facts():
    """-> directory holding cordy.json, cordy_sys.json, cordy_web.json for the current tree"""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        drv, dh = driver()
        h = hashlib.sha256((hash_files(repo_files()) + dh + hash_files([os.path.join(HERE, 'lib', 'facts.py')])).encode()).hexdigest()[:16]
        out = os.path.join(BUILD, 'facts-' + h)
        if os.path.exists(os.path.join(out, 'done')): return out
        # keep at most a few fact sets
        old = sorted((d for d in os.listdir(BUILD) if d.startswith('facts-')), key=lambda d: os.path.getmtime(os.path.join(BUILD, d)))
        for d in old[:-3]: shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        env = base_env()
        target = os.path.join(BUILD, 'target')
        for sub in ('.fingerprint', 'build', 'incremental'):  # cargo must not consider the workspace crates fresh: the wrapper would be skipped
            fp = os.path.join(target, 'debug', sub)
            if os.path.isdir(fp):
                for d in os.listdir(fp):
                    if d.startswith('cordy'): shutil.rmtree(os.path.join(fp, d))
        env.update(RUSTFLAGS='-Zalways-encode-mir', RUSTC_WORKSPACE_WRAPPER=drv, CORDY_FACTS_DIR=out)
        sh(['cargo', '+nightly', 'check', '-p', 'cordy', '--offline', '--locked', '--target-dir', target], env=env, cwd=REPO)
        web(out, drv, env, target)
        for f in ('cordy.json', 'cordy_sys.json', 'cordy_web.json'):
            if not os.path.exists(os.path.join(out, f)): raise BuildError('no facts for ' + f)
        open(os.path.join(out, 'done'), 'w').close()
        return out


def web(out, drv, env, target):
    """cordy-web cannot be built by cargo here (its wasm-bindgen predates the nightly): it is compiled
    against two stub crates which only provide the #[wasm_bindgen] attribute and the panic hook."""
    stub = os.path.join(BUILD, 'stub')
    os.makedirs(stub, exist_ok=True)
    e = {k: v for k, v in env.items() if k not in ('RUSTC_WORKSPACE_WRAPPER', 'CORDY_FACTS_DIR', 'RUSTFLAGS')}
    src = os.path.join(HERE, 'driver', 'stubs')
    sh(['rustc', '+nightly', '--edition', '2021', '--crate-type', 'proc-macro', '--crate-name', 'wasm_bindgen_macro', os.path.join(src, 'wasm_bindgen_macro.rs'), '--out-dir', stub], env=e)
    sh(['rustc', '+nightly', '--edition', '2021', '--crate-type', 'lib', '--emit', 'metadata', '--crate-name', 'wasm_bindgen', '-L', stub, '--extern', 'wasm_bindgen_macro=%s/libwasm_bindgen_macro.so' % stub, os.path.join(src, 'wasm_bindgen.rs'), '--out-dir', stub], env=e)
    sh(['rustc', '+nightly', '--edition', '2021', '--crate-type', 'lib', '--emit', 'metadata', '--crate-name', 'console_error_panic_hook', os.path.join(src, 'console_error_panic_hook.rs'), '--out-dir', stub], env=e)
    dirs, rm = [], []
    for d, _, fs in os.walk(os.path.join(target, 'debug')):
        if any(f.endswith(('.rmeta', '.so')) for f in fs) and 'incremental' not in d: dirs.append(d)
        rm += [os.path.join(d, f) for f in fs if f.startswith('libcordy_sys-') and f.endswith('.rmeta')]
    rm.sort(key=os.path.getmtime)
    if not rm: raise BuildError('no cordy_sys metadata')
    e2 = dict(e); e2['CORDY_FACTS_DIR'] = out
    sh([drv, 'rustc', '--edition', '2021', '--crate-type', 'lib', '--emit', 'metadata', '--crate-name', 'cordy_web', '-Zalways-encode-mir', '-L', stub] + [x for d in sorted(dirs) for x in ('-L', 'dependency=' + d)] + [
        '--extern', 'cordy_sys=' + rm[-1], '--extern', 'wasm_bindgen=%s/libwasm_bindgen.rmeta' % stub,
        '--extern', 'console_error_panic_hook=%s/libconsole_error_panic_hook.rmeta' % stub,
        os.path.join(REPO, 'cordy-web', 'src', 'lib.rs'), '--out-dir', stub], env=e2)
