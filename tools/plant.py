#!/usr/bin/env python3
"""Confirms planted bugs in a scratch copy of /repo and stores them under /verif/seeded.

Each tools/seeds/*.py file appends dicts to SEEDS: id, property, edits [(file, old, new)], prog (cordy program or
list of (flags, program) runs), needs, breaks; optional: flags, expect (text of the expected output), script (own demo.sh body)."""
import os, sys, subprocess, json, shutil, glob
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COPY = '/tmp/plant/repo'
ENV = dict(os.environ, HOME='/root', RUSTUP_TOOLCHAIN='nightly-2024-05-01', CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='1', CARGO_PROFILE_DEV_DEBUG='line-tables-only', CARGO_TERM_COLOR='never', RUSTC_WRAPPER='')
DEMO = '''#!/bin/bash
# runs each program beside this file and compares the output with the expected one
here="$(cd "$(dirname "$0")" && pwd)"
for p in "$here"/*.cor; do
  flags=""; [ -f "${p%.cor}.flags" ] && flags="$(cat "${p%.cor}.flags")"
  if [ "$flags" = "repl" ]; then out="$(timeout 60 ./target/debug/cordy < "$p" 2>&1)"; else out="$(cd "$here" && timeout 60 "$OLDPWD/target/debug/cordy" $flags "$(basename "$p")" 2>&1)"; fi
  [ $? -eq 124 ] && { echo "timeout: $p"; exit 1; }
  if [ "$out" != "$(cat "${p%.cor}.expected")" ]; then echo "differs: $p"; diff <(echo "$out") "${p%.cor}.expected"; exit 1; fi
done
exit 0
'''


def sh(cmd, cwd=COPY, **kw): return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def main():
    SEEDS = []
    for f in sorted(glob.glob(os.path.join(HERE, 'tools', 'seeds', '*.py'))): exec(open(f).read(), {'SEEDS': SEEDS})
    want = sys.argv[1:]
    if not os.path.isdir(COPY):
        os.makedirs('/tmp/plant', exist_ok=True); subprocess.check_call(['cp', '-a', '/repo', COPY])
    sh(['git', 'checkout', '-q', '--', '.'])
    if sh(['git', 'rev-parse', 'HEAD']).stdout != sh(['git', 'rev-parse', 'HEAD'], cwd='/repo').stdout:
        sh(['git', 'fetch', '-q', '/repo', 'HEAD']); print(sh(['git', 'reset', '-q', '--hard', 'FETCH_HEAD']).stdout)
    todo = [s for s in SEEDS if (want and s['id'] in want) or (not want and not os.path.exists(os.path.join(HERE, 'seeded', s['id'], 'meta.json')))]
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    for s in todo:
        d = '/tmp/plant/demo'
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        runs = s['prog'] if isinstance(s.get('prog'), list) else [(s.get('flags', ''), s['prog'], s.get('expect'))] if 'prog' in s else []
        for k, r in enumerate(runs):
            fl, prog, exp = (tuple(r) + (None,))[:3]
            open('%s/p%d.cor' % (d, k), 'w').write(prog)
            if fl: open('%s/p%d.flags' % (d, k), 'w').write(fl)
            if exp is None:
                if fl == 'repl': o = subprocess.run('/repo/target/debug/cordy < p%d.cor' % k, cwd=d, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True).stdout
                else: o = subprocess.run(['/repo/target/debug/cordy'] + fl.split() + ['p%d.cor' % k], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True).stdout
                exp = o
                print('  expected of %s run %d: %r' % (s['id'], k, o[:300]))
            open('%s/p%d.expected' % (d, k), 'w').write(exp if exp.endswith('\n') else exp + '\n')
        open(d + '/demo.sh', 'w').write(s.get('script') or DEMO)
        for n, t in s.get('files', {}).items(): open(os.path.join(d, n), 'w').write(t)
        os.chmod(d + '/demo.sh', 0o755)
        r = subprocess.run(['bash', d + '/demo.sh'], cwd='/repo', stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0: print('REJECT %s: demo fails on the unchanged tree: %s' % (s['id'], r.stdout[-600:])); continue
        sh(['git', 'checkout', '-q', '--', '.'])
        bad = False
        for f, old, new in s['edits']:
            p = os.path.join(COPY, f); t = open(p).read()
            if t.count(old) != 1: print('REJECT %s: %d matches in %s for %r' % (s['id'], t.count(old), f, old[:80])); bad = True; break
            open(p, 'w').write(t.replace(old, new))
        if bad: continue
        diff = subprocess.run(['git', 'diff'], cwd=COPY, stdout=subprocess.PIPE, text=True).stdout
        b = sh(['cargo', 'build', '--workspace', '--offline', '--locked'])
        if b.returncode: print('REJECT %s: does not build: %s' % (s['id'], b.stdout[-1500:])); continue
        t = sh(['cargo', 'test', '--workspace', '--no-fail-fast', '--offline', '--locked', '--', '--test-threads', '8'])
        open('/tmp/plant/log', 'w').write(t.stdout)
        subprocess.run(['python3', '/opt/vp/results.py', '/tmp/plant/out.json', 'cargo:/tmp/plant/log'], stdout=subprocess.PIPE)
        o = json.load(open('/tmp/plant/out.json'))
        miss = stable - set(o['passed'])
        if miss: print('REJECT %s: tests fail: %s' % (s['id'], sorted(miss)[:5])); continue
        r = subprocess.run(['bash', d + '/demo.sh'], cwd=COPY, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode == 0: print('REJECT %s: demo passes with the patch' % s['id']); continue
        out = os.path.join(HERE, 'seeded', s['id'])
        shutil.rmtree(out, ignore_errors=True); shutil.copytree(d, out)
        open(out + '/patch.diff', 'w').write(diff)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(out + '/meta.json', 'w'), indent=1)
        c = subprocess.run([os.path.join(HERE, 'check'), s['property']], cwd=HERE, env=dict(os.environ, CORDY_REPO=COPY), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        print('KEPT %s: check %s -> %d  %s' % (s['id'], s['property'], c.returncode, c.stdout[:300].split('\n')[0]), flush=True)
    sh(['git', 'checkout', '-q', '--', '.'])


main()
