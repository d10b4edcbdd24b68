"""Collects what a rule analysed, its obligations and its violations."""
import json
import os
import sys
import time
from .build import VERIF, REPO


class Lost(Exception):
    """the rule's subject is not where the rule can find it"""


class Ctx:
    def __init__(self, pid, tier, crate):
        self.pid = pid
        self.tier = tier
        self.patience = 240 if tier == 'thorough' else 60      # seconds for refuting what is undecided
        self.crate = crate
        self.t0 = time.time()
        self.obl = []          # (rule, construct, status, detail)
        self.viol = []         # (key, message, where)
        self.fns = set()
        self.notes = set()
        self.undecided = []
        self.floors = []
        self.assumptions = []
        self.paths = 0
        self.rules = {}

    def rule(self, name, text):
        self.rules[name] = text

    def ok(self, rule, construct, detail=''):
        self.obl.append((rule, construct, 'ok', detail))

    def bad(self, rule, construct, what, where='', key=None):
        """a violation: construct names the code (function, case), never a line number"""
        k = key or '%s:%s' % (rule, construct)
        self.obl.append((rule, construct, 'violated', what))
        if k not in [v[0] for v in self.viol]:
            self.viol.append((k, what, where))

    def unknown(self, rule, construct, why):
        self.obl.append((rule, construct, 'undecided', why))
        self.undecided.append((rule, construct, why))

    def check(self, rule, construct, cond, what='', where=''):
        """cond: True / False / None"""
        if cond is True:
            self.ok(rule, construct)
        elif cond is False:
            self.bad(rule, construct, what, where)
        else:
            self.unknown(rule, construct, what)

    def floor(self, rule, n, least, what):
        """fewer instances than expected means the analysis lost its subject"""
        self.floors.append(dict(rule=rule, count=n, minimum=least, of=what))
        if n < least and self.undecided:
            self.unknown(rule, 'coverage', 'only %d %s found, expected at least %d' % (n, what, least))
        elif n < least:
            self.bad(rule, 'coverage', 'only %d %s found, expected at least %d' % (n, what, least))

    def assume(self, s):
        if s not in self.assumptions:
            self.assumptions.append(s)

    def seen(self, interp, outs=()):
        self.fns |= interp.fns
        self.notes |= interp.notes
        self.paths += len(outs)


def known():
    """(property, key) pairs listed as known findings"""
    p = os.path.join(VERIF, 'known_findings.txt')
    out = {}
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding: '):
                # finding: property=<id> key=<key> :: <what fails>
                head, _, what = l[len('finding: '):].partition(' :: ')
                pr, _, key = head.partition(' key=')
                out[(pr.replace('property=', ''), key)] = what
    return out


def finish(c, rep):
    kn = known()
    new, old = [], []
    for k, what, where in c.viol:
        if (c.pid, k) in kn:
            old.append((k, kn[(c.pid, k)]))
        else:
            new.append((k, what, where))
    st = {}
    for r, con, s, d in c.obl:
        st.setdefault(r, {'ok': 0, 'violated': 0, 'undecided': 0})[s] += 1
    ev = dict(
        property=c.pid, tier=c.tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level=rep['level'],
        coverage=dict(
            explanation=rep['explanation'],
            source='type-checked MIR of /repo working tree (all features), rebuilt for this run',
            rules=c.rules,
            obligations=st,
            obligation_list=[dict(rule=r, construct=con, status=s, detail=str(d)[:300]) for r, con, s, d in c.obl][:900],
            functions_analysed=sorted(c.fns),
            abstract_paths=c.paths,
            floors=c.floors,
            undecided=[dict(rule=r, construct=con, why=str(w)[:400]) for r, con, w in c.undecided][:200],
            engine_notes=sorted(c.notes)[:100],
            known_findings=[k for k, _ in old],
        ),
        wall_s=round(time.time() - c.t0, 2),
        violations=[dict(key=k, what=w[:2000], where=wh) for k, w, wh in new],
        assumptions=c.assumptions,
    )
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, c.pid + '.json')
    s = json.dumps(ev, indent=1)
    if len(s) > 900000:
        ev['coverage']['obligation_list'] = ev['coverage']['obligation_list'][:100]
        s = json.dumps(ev, indent=1)
    tmp = path + '.tmp'
    with open(tmp, 'w') as f:
        f.write(s)
    os.replace(tmp, path)
    for k, what in old:
        print('KNOWN-FINDING: property=%s %s: %s' % (c.pid, k, what))
    for r, con, w in c.undecided[:20]:
        print('undecided: %s %s: %s' % (r, con, str(w)[:300]))
    for k, what, where in new:
        print('violated: %s: %s %s' % (k, what[:1500], ('at ' + where) if where else ''))
    n = sum(x['ok'] for x in st.values())
    print('%s: %d obligations discharged, %d violated, %d undecided; %d functions, %d abstract paths, %.1fs' % (
        c.pid, n, len(new), len(c.undecided), len(c.fns), c.paths, ev['wall_s']))
    if new:
        for k, what, where in new:
            print('VIOLATION property=%s replay=%s' % (c.pid, path))
            break
        return 1
    return 0
