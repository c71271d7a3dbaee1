"""Obligation counting, findings, evidence and exit codes."""
import json, os
from ir import AnalysisBroken


class Report:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.cov = {}
        self.rules = []          # texts of the rules applied
        self.obl = {}            # rule name -> [checked, samples]
        self.finds = {}          # key -> (where, msg)
        self.floors = []

    def rule(self, text):
        self.rules.append(text)

    def ok(self, rule, sample=None, n=1):
        o = self.obl.setdefault(rule, [0, []])
        o[0] += n
        if sample is not None and len(o[1]) < 6:
            o[1].append(str(sample)[:300])

    def bad(self, rule, key, where, msg):
        """a violated obligation; key is stable (no line numbers)"""
        self.ok(rule)
        self.finds.setdefault('%s: %s' % (rule, key), (where, msg))

    def floor(self, rule, n):
        """rule must have been applied to at least n instances, otherwise the analysis lost its anchors"""
        self.floors.append((rule, n))

    def check_floors(self):
        if self.finds:
            return
        for r, n in self.floors:
            have = self.obl.get(r, [0])[0]
            if have < n:
                raise AnalysisBroken('rule %r applied to %d instances only, expected at least %d' % (r, have, n))

    def finish(self, here, wall, broken):
        known = {}
        kf = os.path.join(here, 'known_findings.json')
        if os.path.exists(kf):
            for e in json.load(open(kf))['known']:
                if e['property'] == self.pid:
                    known[e['key']] = e['what']
        new = {k: v for k, v in self.finds.items() if k not in known}
        old = {k: v for k, v in self.finds.items() if k in known}
        ev = os.path.join(here, 'evidence')
        os.makedirs(ev, exist_ok=True)
        cov = dict(self.cov)
        cov['explanation'] = ' | '.join(self.rules) or 'static analysis of the LLVM IR of /repo'
        cov['obligations_by_rule'] = {k: v[0] for k, v in self.obl.items()}
        cov['obligations'] = sum(v[0] for v in self.obl.values())
        cov['discharged'] = cov['obligations'] - len(self.finds)
        cov['samples'] = [x for k, v in self.obl.items() for x in ['%s :: %s' % (k, s) for s in v[1][:3]]][:40]
        cov['known_findings'] = sorted(old)
        cov['violations'] = {k: v[0] + ' ' + v[1] for k, v in new.items()}
        if broken:
            cov['broken'] = broken
        json.dump({'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': 'other', 'coverage': cov,
                   'wall_s': round(wall, 2)}, open(os.path.join(ev, self.pid + '.json'), 'w'), indent=1)
        for k in sorted(old):
            print('KNOWN-FINDING: property=%s %s (%s)' % (self.pid, known[k], k))
        if new:
            rp = os.path.join(ev, self.pid + '.replay.txt')
            with open(rp, 'w') as f:
                for k, (w, msg) in sorted(new.items()):
                    f.write('%s\n  at %s\n  %s\n\n' % (k, w, msg))
            for k, (w, msg) in sorted(new.items()):
                print('  [%s] %s: %s' % (k, w, msg))
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            return 1
        if broken:
            print('ANALYSIS-BROKEN property=%s: %s' % (self.pid, broken))
            return 2
        print('OK property=%s obligations=%d rules=%d wall=%.1fs' % (self.pid, cov['obligations'], len(self.obl), wall))
        return 0
