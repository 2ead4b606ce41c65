"""mine contracts/c19.json: scale factors of dimensional quantities at their uses (reviewed by hand: see DESIGN.md C19)"""
import sys, json
sys.path.insert(0, '/verif')
sys.setrecursionlimit(20000)
from hcsa.core import Project
from hcsa.report import contract
from hcsa.rules.c19 import survey, sigtext
P = Project()
api = set(contract('api.json'))
out = {}
for f in sorted((f for f in P.funcs.values() if f.parent is None and (f.short in api or f.module.is_script)), key=lambda f: f.short):
    for (sink, sig), cs in sorted(survey(P, f, api).items(), key=str):
        out.setdefault(f.short, {}).setdefault(sigtext(sig), {})[sink] = sorted(cs)
json.dump(out, open('/verif/contracts/c19.json', 'w'), indent=0, sort_keys=True)
print(len(out), sum(len(s) for v in out.values() for s in v.values()))
