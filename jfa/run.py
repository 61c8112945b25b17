"""Check driver: python3 -m jfa.run PXX [--tier quick|thorough]."""
import argparse
import importlib
import json
import os
import sys
import time
import traceback

from . import prog
from .prog import Broken

VERIF = prog.VERIF
sys.setrecursionlimit(20000)


def known_findings():
    out = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            if l.startswith('finding: property='):
                rest = l[len('finding: property='):].rstrip('\n')
                pid, _, key = rest.partition(' ')
                out.setdefault(pid, set()).add(key.strip())
    return out


class Ctx:
    def __init__(self, pid, tier):
        self.pid = pid
        self.tier = tier
        self.rules = {}
        self.viol = []
        self.samples = {}
        self.notes = []
        self.stats = {}
        self.t0 = time.time()

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def ob(self, rule, inst, ok, loc=None, why=None):
        """One obligation: rule applied to an instance (call site, type row, path ...)."""
        r = self.rules.setdefault(rule, [0, 0])
        r[0] += 1
        if ok:
            r[1] += 1
            s = self.samples.setdefault(rule, [])
            if len(s) < 3:
                s.append('%s%s' % (inst, (' @%s:%s' % tuple(loc[:2])) if loc else ''))
        else:
            self.viol.append({'rule': rule, 'instance': str(inst), 'loc': '%s:%s' % tuple(loc[:2]) if loc else '?', 'why': str(why or '')})
        return ok

    def need(self, rule, n):
        got = self.rules.get(rule, [0, 0])[0]
        if got < n:
            raise Broken('rule %s found %d instances, fewer than the %d expected: anchor vanished' % (rule, got, n))

    def note(self, s):
        self.notes.append(s)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    pid = a.pid
    mod = importlib.import_module('jfa.checks.' + pid.lower())
    ctx = Ctx(pid, a.tier)
    try:
        mod.run(ctx)
    except Broken as b:
        print('ANALYSIS-BROKEN property=%s %s' % (pid, b))
        if a.v:
            traceback.print_exc()
        # violations already established stand on their own
        if not ctx.viol:
            return 2
    except Exception as x:
        print('ANALYSIS-BROKEN property=%s %s: %s' % (pid, type(x).__name__, x))
        if a.v:
            traceback.print_exc()
        return 2
    known = known_findings().get(pid, set())
    new = []
    seen = set()
    for v in ctx.viol:
        key = '%s | %s' % (v['rule'], v['instance'])
        if key in known:
            if key not in seen:
                print('KNOWN-FINDING: property=%s %s' % (pid, key))
            seen.add(key)
        else:
            new.append(v)
    ob = sum(r[0] for r in ctx.rules.values())
    dis = sum(r[1] for r in ctx.rules.values())
    cov = {
        'explanation': mod.EXPLAIN,
        'obligations': ob,
        'discharged': dis,
        'rules': {k: {'instances': v[0], 'held': v[1]} for k, v in sorted(ctx.rules.items())},
        'samples': [{'rule': k, 'instance': s} for k, ss in sorted(ctx.samples.items()) for s in ss][:60],
        'analysed': ctx.stats,
    }
    ev = {'property': pid, 'tier': a.tier if a.tier in ('quick', 'thorough') else 'quick',
          'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other', 'coverage': cov,
          'assumptions': list(getattr(mod, 'ASSUME', [])) + ctx.notes, 'wall_s': round(time.time() - ctx.t0, 2),
          'violations': new[:50]}
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, '.%s.%d' % (pid, os.getpid()))
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(d, pid + '.json'))
    for k, v in sorted(ctx.rules.items()):
        print('%s rule %-28s %d/%d' % (pid, k, v[1], v[0]))
    if ob == 0:
        print('ANALYSIS-BROKEN property=%s no obligations' % pid)
        return 2
    if new:
        rp = os.path.join(d, pid + '.violation.txt')
        with open(rp, 'w') as f:
            for v in new:
                f.write('%s: rule %s: %s: %s\n' % (v['loc'], v['rule'], v['instance'], v['why']))
        for v in new[:12]:
            print('  %s: rule %s: %s: %s' % (v['loc'], v['rule'], v['instance'], v['why']))
        if len(new) > 12:
            print('  ... %d more in %s' % (len(new) - 12, rp))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    print('%s held: %d obligations in %.1fs' % (pid, ob, time.time() - ctx.t0))
    return 0


if __name__ == '__main__':
    sys.exit(main())
