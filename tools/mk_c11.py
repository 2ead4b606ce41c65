#!/usr/bin/env python3
"""Mine the rejection clauses of the current tree into contracts/c11.json (run after reviewing; not part of any check)."""
import json, os, sys, ast
sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.setrecursionlimit(20000)
from hcsa.core import Project
from hcsa.guards import Guards
from hcsa.rules.c11 import entries, unit_clauses
from hcsa.report import contract
P = Project()
api = contract('api.json')
g = Guards()
out = {}
n = 0


def js(f):
    if isinstance(f, tuple):
        return [js(x) for x in f]
    if f is None or isinstance(f, (str, int, float, bool)):
        return f
    return repr(f)


for name, u in sorted(entries(P, api).items()):
    cl, acc, ctx = unit_clauses(P, u, api, g)
    if cl:
        rows = []
        for c in cl:
            rel, ln = c.where.rsplit(':', 1)
            src = open(f'/repo/{rel}').read().splitlines()[int(ln) - 1].strip()
            # the test line of a raise is more telling than the raise itself
            rows.append({'exc': c.exc, 'src': src[:140], 'core': js(c.core), 'full': js(c.full)})
        out[name] = rows
        n += len(rows)
json.dump(out, open(os.path.join(ROOT, 'contracts', 'c11.json'), 'w'), indent=0)
print(len(out), 'units', n, 'clauses')

from hcsa import vcalls
json.dump(js({k: v for k, v in vcalls.mine(P, set(api), g).items()}) if False else json.loads(json.dumps(vcalls.mine(P, set(api), g), default=repr)), open(os.path.join(ROOT, 'contracts/c11_calls.json'), 'w'), indent=0, sort_keys=True)
