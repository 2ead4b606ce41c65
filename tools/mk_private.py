"""private routines of the reviewed tree and their parameters (contracts/private.json): analysed on their own as well while the parameters stay"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from hcsa.core import Project
from hcsa.report import contract, ROOT
P = Project()
api = set(contract('api.json'))
out = {f.short: list(f.pos_params) for f in P.funcs.values() if f.parent is None and f.short not in api and not f.module.is_script and not f.name.startswith('__')}
json.dump(dict(sorted(out.items())), open(os.path.join(ROOT, 'contracts', 'private.json'), 'w'), indent=1)
print(len(out))
