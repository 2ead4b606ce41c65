"""contracts/c10_cache.json: inputs of cached values that are deliberately not part of the key"""
import sys, json
sys.path.insert(0, '/verif'); sys.dont_write_bytecode = True; sys.setrecursionlimit(20000)
from hcsa.core import Project
from hcsa.caching import mine
from hcsa.report import contract
t = mine(Project(), set(contract('api.json')))
json.dump(t, open('/verif/contracts/c10_cache.json', 'w'), indent=1, sort_keys=True)
print(t)
