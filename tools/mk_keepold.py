"""contracts/keepold.json: stores into existing flags and weights that keep / replace what was there"""
import sys, json
sys.path.insert(0, '/verif'); sys.dont_write_bytecode = True; sys.setrecursionlimit(20000)
from hcsa.core import Project
from hcsa.keepold import mine, mine_constants
from hcsa.report import contract
P = Project()
t = mine(P, set(contract('api.json')))
json.dump(t, open('/verif/contracts/keepold.json', 'w'), indent=0, sort_keys=True)
json.dump(mine_constants(P), open('/verif/contracts/keepold_const.json', 'w'), indent=0, sort_keys=True)
if '-v' in sys.argv:
    for f, r in t.items(): print(f, r)
