"""contracts/trims.json: iterations over collections with cut ends, per routine"""
import sys, json
sys.path.insert(0, '/verif'); sys.dont_write_bytecode = True; sys.setrecursionlimit(20000)
from hcsa.core import Project
from hcsa.trims import mine
json.dump(mine(Project()), open('/verif/contracts/trims.json', 'w'), indent=0, sort_keys=True)
