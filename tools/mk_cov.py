import sys, json
sys.path.insert(0, '/verif'); sys.dont_write_bytecode = True; sys.setrecursionlimit(20000)
from hcsa.core import Project
from hcsa.covrule import mine, size
from hcsa.report import contract
P = Project(); api = set(contract('api.json'))
for kind, out in (('flag', 'c07.json'), ('weight', 'c21.json')):
    t = mine(P, api, kind)
    n = sum(len(x) for r in t.values() for x in r.values())
    for fn, r in t.items():
        for s, d in r.items():
            for k, v in d.items():
                if '-v' in sys.argv: print(kind, fn, '|', s, '|', k, '' if v == ('lit', True) else f'COND{size(v)}')
    json.dump(t, open('/verif/contracts/' + out, 'w'), indent=0, sort_keys=True)
    print(out, len(t), 'functions', n, 'obligations')
from hcsa.flagand import reductions
json.dump({m.relpath: reductions(m.tree) for m in P.modules.values()}, open('/verif/contracts/c07_reductions.json', 'w'), indent=0, sort_keys=True)
