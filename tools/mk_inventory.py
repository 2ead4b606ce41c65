"""names of all functions of the analysed tree (contracts/inventory.json): a function not listed is a new helper and is expanded where it is called"""
import sys, os, json, ast
sys.path.insert(0, '/verif')
from hcsa.normal import functions
from hcsa.core import REPO
out = {}
for top in ('hera_cal', 'scripts'):
    for d, ds, fs in os.walk(os.path.join(REPO, top)):
        ds[:] = sorted(x for x in ds if x not in ('tests', 'data', '__pycache__', 'notebooks'))
        for f in sorted(fs):
            if f.endswith('.py'):
                rel = os.path.relpath(os.path.join(d, f), REPO)
                out[rel] = sorted(q for q, *_ in functions(ast.parse(open(os.path.join(d, f)).read())))
json.dump(out, open('/verif/contracts/inventory.json', 'w'), indent=0, sort_keys=True)
print(len(out), sum(map(len, out.values())))
