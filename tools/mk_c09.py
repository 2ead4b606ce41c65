"""record which functions stamp their products, which inputs' histories they carry over, and which scripts record their command line"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
from hcsa.core import Project
from hcsa.rules.c09 import mine
con = mine(Project())
json.dump(con, open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'contracts', 'c09.json'), 'w'), indent=1)
print(json.dumps(con, indent=1))
