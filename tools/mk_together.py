"""contracts/c17.json: arrays that are cut, reordered and shifted identically on the reviewed tree"""
import sys, json
sys.path.insert(0, '/verif'); sys.dont_write_bytecode = True; sys.setrecursionlimit(20000)
from hcsa.core import Project
from hcsa.together import mine, mine_texts, mine_arguments
from hcsa.report import contract
P = Project()
api = set(contract('api.json'))
t = mine(P, api)
x = mine_texts(P, api)
json.dump({'terms': t, 'texts': x, 'arguments': mine_arguments(P, api)}, open('/verif/contracts/c17.json', 'w'), indent=0, sort_keys=True)
print(len(t), sum(map(len, t.values())), len(x), sum(map(len, x.values())))
if '-v' in sys.argv:
    for k, v in x.items(): print(k, v)
