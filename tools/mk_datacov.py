"""contracts/c21_data.json: which flags and weights keep each data source out of each average, fit or filter"""
import sys, json
sys.path.insert(0, '/verif'); sys.dont_write_bytecode = True; sys.setrecursionlimit(20000)
from hcsa.core import Project
from hcsa.datacov import mine
from hcsa.report import contract
P = Project()
t = mine(P, set(contract('api.json')))
json.dump(t, open('/verif/contracts/c21_data.json', 'w'), indent=0, sort_keys=True)
print(len(t), 'functions', sum(len(v) for v in t.values()), 'entries')
