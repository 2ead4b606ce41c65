"""record the weighted means of the reviewed tree (contracts/c22.json)"""
import json, os, sys
sys.setrecursionlimit(20000)
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from hcsa.core import Project
from hcsa.report import contract, ROOT
from hcsa.rules.c22 import survey, common
P = Project()
api = set(contract('api.json'))
out, com = {}, {}
for f in sorted((f for f in P.funcs.values() if f.parent is None), key=lambda f: f.short):
    if f.short not in api:
        continue
    w, o = survey(P, f, api)
    if common(f, w):
        com[f.short] = common(f, w)
    if o['mean']:
        out[f.short] = [len(o['mean']), len(o['mismatch']), len(o['other']), sum(n for _, n in o['mean'])]
json.dump({'means': out, 'common': com}, open(os.path.join(ROOT, 'contracts', 'c22.json'), 'w'), indent=1)
print(out, com)
