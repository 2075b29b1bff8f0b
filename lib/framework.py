"""Common parts of every rule: access to the facts, violations, floors, evidence, known findings."""
import os, json, functools
import mir
from mir import World, Missing


class Ctx:
    def __init__(self, pid, facts_dir, repo, tier):
        self.pid = pid; self.dir = facts_dir; self.repo = repo; self.tier = tier
        self.violations = []   # (key, message, where)
        self.coverage = {}
        self.samples = []
        self.rules = []
        self.assumptions = []
        self._w = {}

    def world(self, crate='cordy'):
        if crate not in self._w:
            w = self._w[crate] = World(os.path.join(self.dir, crate + '.json'), self.repo)
            if crate != 'cordy_sys':   # values of statics and consts are only evaluated in their own crate
                s = self.world('cordy_sys')
                for k, v in s.statics.items():
                    if k in w.statics and w.statics[k]['v'] is None: w.statics[k]['v'] = v['v']
                for k, v in s.consts.items(): w.consts.setdefault(k, dict(v, t=None))
        return self._w[crate]

    def violation(self, key, msg, where=''):
        if key not in [k for k, _, _ in self.violations]: self.violations.append((key, msg, where))

    def count(self, **kw):
        for k, v in kw.items(): self.coverage[k] = self.coverage.get(k, 0) + v

    def floor(self, name, n, least):
        """fail closed when a rule matches fewer instances than were confirmed by hand"""
        self.coverage[name] = n
        if n < least: self.violation('floor: %s' % name, 'only %d instances of "%s" found, at least %d were confirmed by hand: the rule no longer sees the code it must check' % (n, name, least))

    def rule(self, text): self.rules.append(text)
    def sample(self, s):
        if len(self.samples) < 12: self.samples.append(s)

    def read(self, rel):
        p = os.path.join(self.repo, rel)
        if not os.path.exists(p): raise Missing('file ' + rel)
        return open(p, encoding='utf-8').read()


def known(here):
    """{(property, key)}: findings listed one per line as `finding: property=<id> key=<key> :: <text>`"""
    out = {}
    p = os.path.join(here, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        for l in open(p, encoding='utf-8'):
            l = l.strip()
            if l.startswith('finding: property='):
                head, _, text = l[len('finding: property='):].partition(' :: ')
                pid, _, key = head.partition(' key=')
                out[(pid.strip(), key.strip())] = text
    return out


def finish(ctx, here, seed, wall):
    kf = known(here)
    new = [v for v in ctx.violations if (ctx.pid, v[0]) not in kf]
    old = [v for v in ctx.violations if (ctx.pid, v[0]) in kf]
    os.makedirs(os.path.join(here, 'evidence'), exist_ok=True)
    os.makedirs(os.path.join(here, 'reports'), exist_ok=True)
    cov = dict(ctx.coverage)
    cov['explanation'] = ' '.join(ctx.rules)
    if ctx.samples: cov['samples'] = ctx.samples
    ev = {'property': ctx.pid, 'tier': ctx.tier, 'seed': seed, 'level': 'other', 'coverage': cov,
          'assumptions': ctx.assumptions, 'wall_s': round(wall, 2), 'violations': len(new)}
    with open(os.path.join(here, 'evidence', ctx.pid + '.json'), 'w') as f: json.dump(ev, f, indent=1, ensure_ascii=False)
    for k, msg, where in old:
        print('KNOWN-FINDING: property=%s %s [%s]' % (ctx.pid, kf[(ctx.pid, k)], k))
    rep = os.path.join(here, 'reports', ctx.pid + '.txt')
    with open(rep, 'w') as f:
        for k, msg, where in new:
            f.write('%s\n  at %s\n  key: %s\n\n' % (msg, where, k))
        if not new: f.write('no violation\n')
    for k, msg, where in new:
        print('%s  (%s)' % (msg, where))
    print('%s: %s; %s' % (ctx.pid, 'VIOLATED' if new else 'held', ', '.join('%s=%s' % (a, b) for a, b in ctx.coverage.items() if isinstance(b, (int, bool)))))
    if new:
        print('VIOLATION property=%s replay=%s' % (ctx.pid, rep))
        return 1
    return 0
