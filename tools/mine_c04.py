#!/usr/bin/env python3
"""Discover option-forwarding pairs on the tree given by HCSA_REPO and print/write them; the reviewed result is committed
as contracts/c04.json.  Not used by any check."""
import ast, json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from hcsa.core import Project
from hcsa.flow import FlowEngine
from hcsa.report import contract
from hcsa.rules import c04


TRIVIAL = {'?', '__setattr__', 'split_bl', 'split_pol', 'join_bl', 'join_pol', 'reverse_bl', 'comply_pol', 'comply_bl', 'echo', 'flatten', 'conj_pol',
           '__getitem__', '__setitem__', '__contains__', '__init__@', 'get_pol', 'append', 'extend', 'update', 'get', 'format',
           'print', 'info', 'debug', 'warn', 'warning'}


def main():
    P = Project()
    api = set(contract('api.json'))
    eng = FlowEngine(P, api)
    pairs, stores, rets = {}, {}, {}
    for s in sorted(api):
        f = P.func(s)
        if f is None:
            continue
        out = eng.analyse(f)
        skip = c04.skip_params(f)
        sites = c04.sites_of(out)
        direct = {(e.node, e.param): isinstance(e.expr, (ast.Name, ast.Attribute)) for e in out.events if e.param}
        opts = set(f.defaults)
        for g, calls in sites.items():
            if g.split(':')[-1].split('.')[-1] in TRIVIAL or g == 'datacontainer:DataContainer.__init__':
                continue
            tab = {}
            for node, (args, ctl) in calls.items():
                for q, vals in args.items():
                    for v in vals:
                        for p in v.d:
                            if p in skip or p == '?' or p.startswith('**'):
                                continue
                            if p.startswith('self.') and len(v.d) > 1:
                                continue
                            ext = g.startswith('ext:')
                            ok = p == q or p == 'self.' + q
                            if not ok and v.d == {p} and (not ext or (p in opts and q not in ('key', 'dtype', 'out'))):
                                ok = p in opts or direct.get((node, q))
                            if ok:
                                tab.setdefault((p, q), set()).add(node)
            for (p, q), nodes in sorted(tab.items()):
                kc = sum(1 for nd in nodes if p in calls[nd][1])
                pairs.setdefault(s, []).append([p, g, q, len(nodes), len(calls)] + ([kc] if kc else []))
        for a, vals in out.stores.items():
            for v in vals:
                for p in sorted(v.all):
                    if p in skip or p not in f.params:
                        continue
                    if p in opts or v.d == {p}:
                        e = [p, a]
                        if e not in stores.setdefault(s, []):
                            stores[s].append(e)
        if out.ret is not None:
            r = sorted((out.ret.all & opts) - skip)
            if r:
                rets[s] = r
    stores = {k: v for k, v in stores.items() if v}
    n = sum(len(v) for v in pairs.values())
    print(len(pairs), 'functions', n, 'pairs', sum(len(v) for v in stores.values()), 'stores', file=sys.stderr)
    json.dump({'pairs': pairs, 'stores': stores, 'returns': rets}, open(sys.argv[1], 'w'), indent=0)


main()
