"""regenerates contracts/c03.json from the reviewed tree (never run by a check); default differences are listed for review"""
import json, os, sys
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from hcsa.core import Project
from hcsa.rules.c03 import analyse, conv_class, norm
P = Project()
known = set(json.load(open(ROOT + '/contracts/api.json')))
out, exc = {}, {}
for m, s, sinks, opens, defaults, problems in analyse(P, known):
    o = {}
    for d, x in s.options.items():
        kn, v = x.default()
        r = {'conv': conv_class(x), 'nargs': x.nargs, 'choices': x.choices}
        if kn and not x.positional:
            r['default'] = norm(v)
        o[d] = r
    out[m.name] = {'options': o, 'sinks': [[c, k, dict(sorted(ds.items()))] for (c, k), ds in sorted(sinks.items()) if ds]}
    for (x, owner, k), (kn, val, kn2, dv, where) in defaults.items():
        if kn and kn2 and not (val == dv and (type(val) is type(dv) or not isinstance(val, bool) and not isinstance(dv, bool))):
            exc[f'{m.name}|{x}|{owner}|{k}'] = [val, dv]
json.dump({'default_exceptions': exc, 'scripts': out}, open(ROOT + '/contracts/c03.json', 'w'), indent=1)
print(json.dumps(exc, indent=0))
