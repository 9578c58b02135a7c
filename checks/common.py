"""Reporting: obligations, violations, known findings, evidence."""
import json, os, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(VERIF, 'evidence')
KNOWN = os.path.join(VERIF, 'known-findings.json')


class Broken(Exception):
    """the analysis has lost its anchor or cannot follow the code"""


class Report:
    def __init__(self, pid, tier='quick'):
        self.pid = pid
        self.tier = tier
        self.t0 = time.time()
        self.viol = {}
        self.obl = {}
        self.analysed = {}
        self.undecided = []
        self.notes = []
        self.rules = []
        self.samples = []

    def rule(self, text):
        if text not in self.rules:
            self.rules.append(text)

    def ob(self, kind, n=1):
        self.obl[kind] = self.obl.get(kind, 0) + n

    def need(self, kind, n):
        if self.obl.get(kind, 0) < n:
            raise Broken('only %d instances of "%s" were analysed, %d expected at least' % (self.obl.get(kind, 0), kind, n))

    def saw(self, kind, item):
        self.analysed.setdefault(kind, set()).add(item)

    def violation(self, key, msg, where=None, detail=None):
        """key: short stable identification of the broken construct"""
        v = self.viol.setdefault(key, {'key': key, 'message': msg, 'where': [], 'detail': []})
        if where and where not in v['where']:
            v['where'].append(where)
        if detail and len(v['detail']) < 6 and detail not in v['detail']:
            v['detail'].append(detail)

    def undec(self, msg):
        if msg not in self.undecided:
            self.undecided.append(msg)

    def has_new(self):
        known = json.load(open(KNOWN))['findings'] if os.path.exists(KNOWN) else []
        return any(k not in [x['key'] for x in known if x['property'] == self.pid] for k in self.viol)

    def finish(self):
        os.makedirs(EVID, exist_ok=True)
        known = []
        if os.path.exists(KNOWN):
            known = [k for k in json.load(open(KNOWN))['findings'] if k['property'] == self.pid]
        kf, new = [], []
        for k, v in sorted(self.viol.items()):
            m = [x for x in known if x['key'] == k]
            (kf if m else new).append((v, m[0] if m else None))
        total = sum(self.obl.values())
        cov = {
            'explanation': 'Static analysis of the current sources (LLVM IR of every listed function, generated on this run). '
                           + ' '.join(self.rules),
            'obligations': total,
            'discharged': max(0, total - len(self.viol) - len(self.undecided)),
            'obligations_by_kind': self.obl,
            'analysed': {k: sorted(map(str, v))[:200] for k, v in self.analysed.items()},
            'analysed_counts': {k: len(v) for k, v in self.analysed.items()},
            'undecided': self.undecided,
            'samples': self.samples[:12],
            'violations': [v for v, _ in new],
            'known_findings': [v['key'] for v, _ in kf],
        }
        ev = {'property': self.pid, 'tier': self.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
              'coverage': cov, 'assumptions': self.notes, 'wall_s': round(time.time() - self.t0, 2), 'violations': len(new)}
        with open(os.path.join(EVID, self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for v, k in kf:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, k.get('what', v['message'])))
        for u in self.undecided[:20]:
            print('undecided: %s' % u)
        if new:
            rp = os.path.join(EVID, self.pid + '.violation.txt')
            with open(rp, 'w') as f:
                for v, _ in new:
                    f.write('%s\n  at %s\n  %s\n' % (v['key'], '; '.join(v['where']), v['message']))
                    for d in v['detail']:
                        f.write('    %s\n' % d)
            for v, _ in new[:12]:
                print('%s: %s [%s]' % (', '.join(v['where'][:2]), v['message'], v['key']))
                for d in v['detail'][:3]:
                    print('    ' + d)
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            return 1
        print('%s held: %s' % (self.pid, ', '.join('%s=%d' % x for x in sorted(self.obl.items()))))
        return 0
