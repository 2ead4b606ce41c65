"""contracts/optconst.json: constant choices in calls between routines of the package"""
import sys, json
sys.path.insert(0, '/verif'); sys.dont_write_bytecode = True; sys.setrecursionlimit(20000)
from hcsa.core import Project
from hcsa.optconst import mine, NAMES
from hcsa.report import contract
P = Project(); api = set(contract('api.json'))
t = {p: mine(P, api, p) for p in NAMES}
json.dump(t, open('/verif/contracts/optconst.json', 'w'), indent=0, sort_keys=True)
print({p: sum(map(len, v.values())) for p, v in t.items()})
