"""record the compositions reader(writer(x)) of the reviewed tree (contracts/c08.json)"""
import json, os, sys
sys.setrecursionlimit(20000)
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from hcsa.core import Project
from hcsa.report import ROOT
from hcsa.roundtrip import text
from hcsa.rules.c08 import survey
F, out, where, slots = survey(Project())
d = {'pairs': {k: {n: text(v) for n, v in o.items()} for k, o in out.items()}, 'slots': {k: sorted(v) for k, v in slots.items()}}
json.dump(d, open(os.path.join(ROOT, 'contracts', 'c08.json'), 'w'), indent=1)
