#!/usr/bin/env python3
"""Maintenance tool (not run by any check): snapshot the public API surface into contracts/api.json."""
import json, os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from hcsa.core import Project
p = Project()
api = {}
for f in p.funcs.values():
    if f.parent is None and f.public and not f.module.is_script:
        api[f.short] = f.params + ([f.vararg] if f.vararg else []) + ([f.kwarg] if f.kwarg else [])
json.dump(api, open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'contracts', 'api.json'), 'w'), indent=0, sort_keys=True)
print(len(api))
