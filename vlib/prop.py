"""Check harness: obligations, findings, evidence, exit status."""
import json, os, re, sys, time, traceback
from . import build

VERIF = build.VERIF


class Check:
    def __init__(self, pid, level='proof'):
        self.pid = pid
        self.level = level
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.t0 = time.time()
        self.obl = []         # (rule, site, status, detail)
        self.assumptions = []
        self.trusted = ['clang 18 front end and the value-preserving LLVM passes of vlib/build.py', 'vlib/alg.py, vlib/vn.py, vlib/equiv.py',
                        'the reference formulas under /verif/spec and in the check modules']
        self.units = []
        self.extra = {}

    def ob(self, rule, site, status, detail='', key=None):
        """status: ok | bad | undecided"""
        if status is True:
            status = 'ok'
        elif status is False:
            status = 'bad'
        self.obl.append({'rule': rule, 'site': site, 'status': status, 'detail': detail, 'key': key or (rule + ' @ ' + re.sub(r':\d+', '', site))})

    def unit(self, u):
        if u not in self.units:
            self.units.append(u)

    def assume(self, *a):
        for x in a:
            if x not in self.assumptions:
                self.assumptions.append(x)

    def allow(self, budget):
        """seconds one comparison may take: little once something is violated
        or the check has run long"""
        left = (400 if self.tier == 'quick' else 780) - (time.time() - self.t0)
        b = 600 if budget is None else budget
        if any(o['status'] == 'bad' for o in self.obl):
            b = min(b, 3)
        return max(2, min(b, left))

    def enough(self):
        """the verdict is settled: do not spend time on further obligations"""
        kn = {k['key'] for k in self.known()}
        b = sum(1 for o in self.obl if o['status'] == 'bad' and o['key'] not in kn)
        return b > 0 and (b >= 8 or time.time() - self.t0 > 120)

    def known(self):
        p = os.path.join(VERIF, 'known_findings.json')
        if not os.path.exists(p):
            return []
        return [k for k in json.load(open(p)).get('findings', []) if k['property'] == self.pid]

    def finish(self, floor=1, quiet=False):
        bad = [o for o in self.obl if o['status'] == 'bad']
        kn = {k['key']: k for k in self.known()}
        news, seen = [], set()
        for o in bad:
            if o['key'] in kn:
                seen.add(o['key'])
            else:
                news.append(o)
        for k in kn.values():
            if k['key'] in seen:
                print('KNOWN-FINDING: property=%s %s' % (self.pid, k['what']))
        n = len(self.obl)
        ok = sum(1 for o in self.obl if o['status'] == 'ok')
        und = [o for o in self.obl if o['status'] == 'undecided']
        ev = {'property': self.pid, 'tier': self.tier if self.tier in ('quick', 'thorough') else 'quick', 'seed': self.seed, 'level': self.level,
              'coverage': {'obligations': n, 'discharged': ok, 'undecided': len(und), 'known_findings': len(seen),
                           'checker_cmd': 'python3 check.py ' + self.pid + ' --tier ' + self.tier,
                           'trusted_base': self.trusted, 'units_analysed': self.units,
                           'explanation': 'Every obligation is one construct (function, call site, store, formula) of the current tree decided by the named rule without running the code.',
                           'rules': sorted({o['rule'] for o in self.obl}),
                           'samples': [{k: o[k] for k in ('rule', 'site', 'status', 'detail')} for o in self.obl[:40]],
                           'undecided_sites': [{k: o[k] for k in ('rule', 'site', 'detail')} for o in und[:60]]},
              'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2), 'violations': len(news)}
        ev['coverage'].update(self.extra)
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        if news:
            rp = os.path.join(VERIF, 'evidence', self.pid + '.violation.txt')
            with open(rp, 'w') as f:
                for o in news:
                    f.write('%s\n  at %s\n  %s\n' % (o['rule'], o['site'], o['detail']))
            for o in news[:20]:
                print('%s: %s: %s -- %s' % (self.pid, o['site'], o['rule'], o['detail'][:600]))
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            return 1
        if n < floor:
            print('%s: only %d obligations found (floor %d): the analysed constructs have vanished' % (self.pid, n, floor))
            return 2
        print('%s: %d obligations, %d discharged, %d undecided, %d known findings, %.1fs' % (self.pid, n, ok, len(und), len(seen), time.time() - self.t0))
        if os.environ.get('VERIF_VERBOSE'):
            for o in und:
                print('   undecided', o['rule'], o['site'], o['detail'][:int(os.environ.get('VERIF_W', '300'))])
        return 0
