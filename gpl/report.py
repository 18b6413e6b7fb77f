"""Common reporting of a check: violations, known findings, evidence, exit status."""
import json
import os
import re
import sys
import time
import traceback

from . import prep
from .prep import AnalysisBroken

VERIF = prep.VERIF
KNOWN = os.path.join(VERIF, 'known-findings.json')


def load_known(pid):
    if not os.path.exists(KNOWN):
        return []
    return [e for e in json.load(open(KNOWN))['findings'] if e['property'] == pid]


class Report:
    def __init__(self, pid, rule):
        self.pid = pid
        self.rule = rule
        self.t0 = time.time()
        self.viol = []
        self.found = []
        self.cov = {}
        self.samples = []
        self.undecided = []
        self.assumptions = ['the analysed program is the preprocessed and type-checked C of the x86_64 configuration without '
                            'machine registers (configure --disable-regs), compiled by clang 18 to unoptimised SSA',
                            'calls through function pointers and library functions outside the repository are summarised']
        self.known = load_known(pid)
        self.n = 0

    def count(self, **kw):
        for k, v in kw.items():
            self.cov[k] = self.cov.get(k, 0) + v

    def sample(self, s, n=12):
        if len(self.samples) < n:
            self.samples.append(s)

    def violation(self, key, text, detail=''):
        """key identifies the construct that is wrong (stable across runs, no line numbers)"""
        for e in self.known:
            if e['key'] == key:
                self.found.append((key, e))
                return
        if any(k == key for k, _, _ in self.viol):
            return
        self.viol.append((key, text, detail))

    def need(self, n, least, what):
        """a rule that found nothing to look at decides nothing"""
        if n < least:
            raise AnalysisBroken('%s: %d found, at least %d expected' % (what, n, least))

    def finish(self):
        tier = os.environ.get('VERIF_TIER', 'quick')
        if tier not in ('quick', 'thorough'):
            tier = 'quick'
        edir = os.path.join(VERIF, 'evidence')
        os.makedirs(edir, exist_ok=True)
        for key, e in self.found:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, e['what']))
        for i, (key, text, detail) in enumerate(self.viol):
            rdir = os.path.join(edir, 'replay')
            os.makedirs(rdir, exist_ok=True)
            p = os.path.join(rdir, '%s-%d.txt' % (self.pid, i))
            with open(p, 'w') as f:
                f.write('property %s\nrule %s\nconstruct %s\n%s\n%s\n' % (self.pid, self.rule, key, text, detail))
            if i < 20:
                print('%s: %s' % (self.pid, text))
                if i == 0 or i < 5:
                    for ln in str(detail).split('\n')[:6]:
                        print('    ' + ln)
            print('VIOLATION property=%s replay=%s' % (self.pid, p))
        cov = dict(self.cov)
        cov['rule'] = self.rule
        cov['explanation'] = self.rule
        cov['samples'] = self.samples
        if self.undecided:
            cov['undecided'] = len(self.undecided)
            cov['undecided_samples'] = self.undecided[:15]
        if self.found:
            cov['known_findings'] = [k for k, _ in self.found]
        ev = {'property': self.pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
              'coverage': cov, 'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2),
              'violations': len(self.viol)}
        tmp = os.path.join(edir, '.%s.%d' % (self.pid, os.getpid()))
        with open(tmp, 'w') as f:
            json.dump(ev, f, indent=1, sort_keys=True, default=str)
        os.rename(tmp, os.path.join(edir, self.pid + '.json'))
        print('%s: %s; %d violation(s), %d known finding(s), %d undecided, %.1fs' % (
            self.pid, ', '.join('%s=%s' % kv for kv in sorted(self.cov.items()) if isinstance(kv[1], int)),
            len(self.viol), len(self.found), len(self.undecided), time.time() - self.t0))
        return 1 if self.viol else 0


def main(argv):
    import importlib
    pid = argv[1]
    sys.setrecursionlimit(20000)
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    except (ValueError, OSError):
        pass
    os.makedirs(prep.WORK, exist_ok=True)
    try:
        m = importlib.import_module('checks.' + pid.lower())
        rc = m.run(Report(pid, m.RULE)).finish()
    except AnalysisBroken as e:
        print('%s: analysis broken: %s' % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        return 3
    return rc


if __name__ == '__main__':
    sys.exit(main(sys.argv))
