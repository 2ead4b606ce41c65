import sys, json
sys.path.insert(0, '/verif'); sys.dont_write_bytecode = True; sys.setrecursionlimit(20000)
from hcsa.core import Project
from hcsa.orient import mine, dec, say
from hcsa.report import contract
t = mine(Project(), set(contract('api.json')))
json.dump(t, open('/verif/contracts/c05.json', 'w'), indent=0, sort_keys=True)
print(len(t), 'functions', sum(len(r) for r in t.values()), 'sinks')
if '-v' in sys.argv:
    for f, r in t.items():
        for s, d in r.items():
            print(f, '|', s, '|', d if s[0] == '<' else '; '.join(say(k) for k, m in dec(d).items()))
