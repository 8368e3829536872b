"""Common reporting for all checks: obligations, violations, known findings, floors, evidence."""
import json, os, sys, time, traceback
from build import VERIF, REPO, BuildError


class Broken(Exception):
    """the check cannot give an answer"""


class Check:
    def __init__(self, pid, level='other', explanation='', assumptions=(), rule=''):
        self.pid = pid
        self.level = level
        self.t0 = time.time()
        self.obl = {}
        self.samples = []
        self.viol = []
        self.notes = []
        self.undecided = []
        self.explanation = explanation
        self.assumptions = list(assumptions)
        self.extra = {}
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.floors = []

    def count(self, what, n=1, sample=None):
        self.obl[what] = self.obl.get(what, 0) + n
        if sample is not None and sum(1 for s in self.samples if s[0] == what) < 3:
            self.samples.append((what, sample))

    def floor(self, what, n):
        """fewer instances than this mean the check lost its anchors"""
        self.floors.append((what, n))

    def violation(self, rule, where, func, msg, path=None):
        v = (rule, where, func, msg)
        if v not in [x[:4] for x in self.viol]:
            self.viol.append(v + (path,))

    def cannot(self, what, why):
        u = '%s: %s' % (what, why)
        if u not in self.undecided:
            self.undecided.append(u)

    def finish(self):
        known = load_known(self.pid)
        hit, new = set(), []
        for v in self.viol:
            k = match_known(known, v)
            if k is None:
                new.append(v)
            else:
                hit.add(k)
        for k in sorted(hit):
            print('KNOWN-FINDING: property=%s %s' % (self.pid, known[k]['what']))
        lost = [(w, n, self.obl.get(w, 0)) for w, n in self.floors if self.obl.get(w, 0) < n]
        cov = {'explanation': self.explanation, 'obligations': self.obl, 'samples': [{'kind': a, 'case': b} for a, b in self.samples]}
        if self.undecided:
            cov['undecided'] = self.undecided
        if self.notes:
            cov['notes'] = self.notes
        cov.update(self.extra)
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        ev = {'property': self.pid, 'tier': self.tier if self.tier in ('quick', 'thorough') else 'quick', 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': self.level,
              'coverage': cov, 'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2), 'violations': len(new)}
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for w, n in sorted(self.obl.items()):
            print('%s: %s %d' % (self.pid, w, n))
        for u in self.undecided:
            print('%s: not decided: %s' % (self.pid, u))
        if new:
            rp = os.path.join(VERIF, 'evidence', self.pid + '.violations.txt')
            with open(rp, 'w') as f:
                for rule, where, func, msg, path in new:
                    line = '%s: [%s] in %s: %s' % (where, rule, func, msg)
                    print(line)
                    f.write(line + '\n')
                    if path:
                        f.write('    path: %s\n' % path)
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            return 1
        if lost:
            for w, n, h in lost:
                print('%s: only %d instances of "%s" found, at least %d expected: the check lost its anchors' % (self.pid, h, w, n))
            return 3
        return 0


def load_known(pid):
    p = os.path.join(VERIF, 'known_findings.jsonl')
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith('#'):
                d = json.loads(l)
                if d.get('property') == pid and d.get('status') == 'open':
                    out.append(d)
    return out


def match_known(known, v):
    rule, where, func, msg = v[:4]
    for i, k in enumerate(known):
        if k['rule'] == rule and k['function'] in func and k.get('contains', '') in msg and k.get('file', '') in where:
            return i
    return None


def path_of(M, tr):
    out = []
    while tr:
        out.append('%s%s' % (M.loc(tr[1]).split('/')[-1], tr[2]))
        tr = tr[0]
    return ' '.join(reversed(out))


def main(table):
    if len(sys.argv) < 2 or sys.argv[1] not in table:
        print('usage: check.py ' + '|'.join(sorted(table)))
        return 2
    try:
        return table[sys.argv[1]]()
    except BuildError as e:
        print('build failed: %s' % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
