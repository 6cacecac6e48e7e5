"""Obligation ledger, known findings, evidence file and exit status."""
import json
import os
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, 'known_findings.txt')


def known(prop):
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.rstrip('\n')
            if line.startswith('known: property=%s ' % prop):
                rest = line.split(' ', 2)[2]
                key, _, what = rest.partition(' -- ')
                out[key.strip()] = what.strip()
    return out


class Report:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.t0 = time.time()
        self.items = []       # (status, rule, construct, where, detail)
        self.info = {}
        self.assumptions = []
        self.floor = 1

    def add(self, status, rule, construct, where='', detail=''):
        self.items.append((status, rule, construct, where, detail))

    def ok(self, rule, construct, where='', detail=''):
        self.add('ok', rule, construct, where, detail)

    def bad(self, rule, construct, where='', detail=''):
        self.add('bad', rule, construct, where, detail)

    def undecided(self, rule, construct, where='', detail=''):
        self.add('undecided', rule, construct, where, detail)

    def finish(self):
        kn = known(self.prop)
        seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        bad = [i for i in self.items if i[0] == 'bad']
        und = [i for i in self.items if i[0] == 'undecided']
        ok = [i for i in self.items if i[0] == 'ok']
        new, old = [], {}
        for i in bad:
            k = '%s|%s' % (i[1], i[2])
            if k in kn:
                old[k] = i
            else:
                new.append(i)
        rules = {}
        for i in self.items:
            r = rules.setdefault(i[1], {'checked': 0, 'held': 0, 'undecided': 0, 'violated': 0})
            r['checked'] += 1
            r[{'ok': 'held', 'bad': 'violated', 'undecided': 'undecided'}[i[0]]] += 1
        print('%s (%s): %d obligations, %d hold, %d undecided, %d violated (%d known)' % (
            self.prop, self.tier, len(self.items), len(ok), len(und), len(bad), len(old)))
        for r in sorted(rules):
            print('  rule %-28s %s' % (r, rules[r]))
        for k, i in sorted(old.items()):
            print('KNOWN-FINDING: property=%s %s: %s' % (self.prop, k, kn[k]))
        for i in und:
            print('UNDECIDED %s|%s %s %s' % (i[1], i[2], i[3], i[4].split('\n')[0][:300]))
        cov = {'obligations': len(self.items), 'discharged': len(ok), 'undecided': len(und),
               'rules': rules,
               'explanation': 'Each obligation is one construct (function, depth, call site or path) of the current '
                              'source examined under the named rule; none of the package is executed.',
               'samples': [{'status': i[0], 'rule': i[1], 'construct': i[2], 'where': i[3]}
                           for i in (self.items[:3] + self.items[-3:])],
               'undecided_list': ['%s|%s %s' % (i[1], i[2], i[4].split('\n')[0][:200]) for i in und][:60],
               'checker_cmd': 'python3 -m bmpcheck %s' % self.prop,
               'trusted_base': ['CPython ast', 'bmpcheck term normal form and evaluator']}
        cov.update(self.info)
        ev = {'property': self.prop, 'tier': self.tier, 'seed': seed, 'level': 'other', 'coverage': cov,
              'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 3), 'violations': len(new)}
        d = os.path.join(VERIF, 'evidence')
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        if len(ok) + len(bad) < self.floor:
            print('BROKEN: only %d obligations decided, expected at least %d' % (len(ok) + len(bad), self.floor))
            return 2
        if new:
            rp = os.path.join(d, self.prop + '.violation.txt')
            with open(rp, 'w') as f:
                for i in new:
                    f.write('rule %s\nconstruct %s\nat %s\n%s\n\n' % i[1:])
            for i in new:
                print('  %s: rule %s broken by %s\n    %s' % (i[3], i[1], i[2], i[4][:900].replace('\n', '\n    ')))
            print('VIOLATION property=%s replay=%s' % (self.prop, rp))
            return 1
        return 0
