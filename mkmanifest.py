#!/usr/bin/env python3
"""writes MANIFEST.json from the registry, properties.jsonl and na.json"""
import json
from vp.rules import REGISTRY
props = {}
for l in open('properties.jsonl'):
    p = json.loads(l)
    props[p['id']] = p
na = json.load(open('na.json'))
checks = []
for pid in sorted(REGISTRY):
    mod, fn, rep = REGISTRY[pid]
    checks.append(dict(property=pid, quick_cmd='./check.sh %s quick' % pid, thorough_cmd='./check.sh %s thorough' % pid,
                       technique='static analysis: ' + rep.get('technique', 'path-sensitive dataflow summaries over MIR compared with a rule'),
                       level=rep['level'], level_note=rep.get('note', 'Decided for all inputs from the source; what the analysis could not decide is listed as undecided in the evidence and never raises an alarm. Trusted: the MIR extraction by rustc, the models of the standard library, the abstract interpreter.')))
out = dict(version=1, setup_cmd='./setup.sh', checks=checks,
           not_applicable=[dict(property=p, reason=na.get(p) or 'no rule yet in this version of the framework') for p in sorted(props) if p not in REGISTRY])
json.dump(out, open('MANIFEST.json', 'w'), indent=1)
open('MANIFEST.json', 'a').write('\n')
print(len(checks), 'checks', len(out['not_applicable']), 'not applicable')
