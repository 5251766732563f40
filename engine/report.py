"""Collects what a rule analysed and what it found."""
import json
import os
import time
import build

ROOT = build.ROOT


class Report:
    def __init__(self, pid, tier):
        self.pid = pid
        self.tier = tier
        self.violations = []
        self.known_hit = []
        self.counts = {}
        self.floors = {}
        self.samples = []
        self.assumptions = []
        self.rule = ''
        self.fns = set()
        self.obligations = 0
        self.discharged = 0
        self.t0 = time.time()
        self.known = load_known(pid)
        self._seen = set()
        self.models = {}
        self.configs = set()
        self.swap = {}

    def prog(self, crate, cfg='all'):
        import lib
        cfg = self.swap.get(cfg, cfg)
        self.configs.add(cfg)
        return lib.load_program(os.path.join(build.dump(cfg), crate + '.json'))

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def floor(self, k, n):
        """fail closed when fewer instances were analysed than counted by hand"""
        self.floors[k] = n

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    def used(self, scn):
        self.fns |= scn.e.stats['inlined']
        for k, v in scn.e.stats['models'].items():
            self.models[k] = self.models.get(k, 0) + v

    def held(self, what=None):
        self.obligations += 1
        self.discharged += 1
        if what:
            self.sample(what)

    def violate(self, key, where, detail):
        """key: stable identification of the failing construct (no line numbers)"""
        self.obligations += 1
        if key in self._seen:
            return
        self._seen.add(key)
        for k in self.known:
            if k['key'] == key:
                self.known_hit.append((k, where, detail))
                return
        self.violations.append({'key': key, 'where': where, 'detail': detail})


def load_known(pid):
    out = []
    p = os.path.join(ROOT, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('KNOWN-FINDING: property=%s ' % pid):
                rest = l.split(' ', 2)[2]
                key, _, text = rest.partition(' :: ')
                out.append({'key': key.strip(), 'text': text.strip()})
    return out


def finish(r, level, cmd, trusted):
    for k, n in r.floors.items():
        if r.counts.get(k, 0) < n:
            r.violate('floor:' + k, 'analysis', 'only %d %s analysed, at least %d were counted by hand: the rule lost its anchors' % (r.counts.get(k, 0), k, n))
    cov = {'obligations': r.obligations, 'discharged': r.discharged, 'checker_cmd': cmd, 'trusted_base': trusted,
           'rule': r.rule, 'analysed': dict(sorted(r.counts.items())), 'functions': sorted(r.fns), 'samples': r.samples,
           'configurations': sorted(r.configs), 'library_models_used': len(r.models),
           'known_findings': [k['key'] for k, _, _ in r.known_hit],
           'violations_found': r.violations[:20]}
    ev = {'property': r.pid, 'tier': r.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': level,
          'coverage': cov, 'assumptions': r.assumptions, 'wall_s': round(time.time() - r.t0, 3), 'violations': len(r.violations)}
    d = os.path.join(ROOT, 'evidence')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, r.pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    rd = os.path.join(d, 'replay')
    os.makedirs(rd, exist_ok=True)
    print('%s: %d obligations, %d discharged; %s; %.1fs' % (r.pid, r.obligations, r.discharged,
          ', '.join('%s=%d' % kv for kv in sorted(r.counts.items())), time.time() - r.t0))
    for k, w, dt in r.known_hit:
        print('KNOWN-FINDING: property=%s %s :: %s' % (r.pid, k['key'], k['text']))
    if r.violations:
        path = os.path.join(rd, r.pid + '.json')
        with open(path, 'w') as f:
            json.dump({'property': r.pid, 'violations': r.violations}, f, indent=1)
        for v in r.violations[:12]:
            print('  at %s\n     [%s] %s' % (v['where'], v['key'], v['detail'][:1200]))
        print('VIOLATION property=%s replay=%s' % (r.pid, path))
        return 1
    return 0
