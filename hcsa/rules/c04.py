"""C04: every option a caller gives is honoured: it reaches the operation it controls.

Four rules over the parameter-flow analysis (hcsa.flow):
 * option-dropped: for each (function, option -> operation, argument) pair of the reviewed table contracts/c04.json, the
   option still may-flows into that argument of every call of that operation that the function makes;
 * option-not-stored: constructor options that are kept on the object are still derived from the option;
 * option-no-longer-affects-result: the returned value still depends (data or control) on the option;
 * option-ignored: an option that reaches nothing observable (no call, return, raise, store or branch) is ignored.
"""
from ..core import Project, src_of
from ..flow import FlowEngine
from ..report import Result, contract

QUIET = {'verbose', 'self', 'cls'}


def skip_params(f):
    s = {'self', 'cls', 'verbose'}
    if f.is_method and f.params:
        s.add(f.params[0])
    return s


def sites_of(out):
    """callee -> node -> (param -> [V], control origins)"""
    sites = {}
    for e in out.events:
        calls = sites.setdefault(e.callee, {})
        args, ctl = calls.setdefault(e.node, ({}, set()))
        if e.param is None:
            ctl |= e.val.c
        else:
            args.setdefault(e.param, []).append(e.val)
    return sites


def check(tier):
    res = Result()
    P = Project()
    api = set(contract('api.json'))
    con = contract('c04.json')
    eng = FlowEngine(P, api)
    res.rule('option-dropped / option-not-stored / option-ignored: flow-sensitive, interprocedural may-flow of every '
             'option of every public function to the arguments of the operations it calls, compared with the reviewed table.')
    for s in sorted(api):
        f = P.func(s)
        if f is None:
            res.count('functions of the recorded interface that no longer exist')
            continue
        out = eng.analyse(f)
        res.count('functions analysed')
        res.count('argument bindings followed', sum(1 for e in out.events if e.param is not None))
        sites = sites_of(out)
        for p, g, q, k, n, *kc in con['pairs'].get(s, []):
            if not p.startswith('self.') and p not in f.params:
                continue
            calls = sites.get(g)
            if not calls:
                res.count('pairs whose operation is no longer called (not judged)')
                continue
            res.count('obligations')
            have, miss = [], []
            for node, (args, ctl) in calls.items():
                vals = args.get(q, [])
                if any(p in v.all or '?' in v.d for v in vals):
                    have.append(node)
                else:
                    miss.append((node, p in ctl))
            ok = not miss if k == n else True
            if k == n and miss and have and not kc and all(c for _, c in miss):
                ok = True
            if k == n and miss and have and len(calls) > n:
                ok = len(have) >= k      # additional calls of the operation are not part of the reviewed table
            if k < n:
                ok = len(have) >= k or (len(calls) < n and have)
            if ok:
                res.count('discharged')
                res.sample(f'{s}: {p} -> {g}({q}) at {len(have)} of {len(calls)} calls')
                continue
            for node, _ in miss[:1] or [(next(iter(calls)), 0)]:
                owner = next((e.func for e in out.events if e.node is node), f)
                res.add('option-dropped', f'{s}|{p}|{g}|{q}',
                        f"{f.short}: the option '{p}' no longer reaches argument '{q}' of {g.replace('ext:', '')}() "
                        f"(call: {src_of(node)})", f'{owner.module.relpath}:{node.lineno}')
        for p, a in con['stores'].get(s, []):
            if p not in f.params or a not in out.stores:
                continue
            res.count('obligations')
            if any(p in v.all for v in out.stores[a]):
                res.count('discharged')
            else:
                res.add('option-not-stored', f'{s}|{p}|{a}', f"{f.short}: {a} no longer depends on the option '{p}'", f.where)
        for p in con['returns'].get(s, []):
            if p not in f.params or out.ret is None:
                continue
            res.count('obligations')
            if p in out.ret.all or '?' in out.ret.d:
                res.count('discharged')
            else:
                res.add('option-no-longer-affects-result', f'{s}|{p}',
                        f"{f.short}: nothing returned depends on the option '{p}' any more", f.where)
        okun = con['ignored_ok'].get(s, {})
        for p in f.params:
            if p in skip_params(f) or p in okun or p.startswith('_'):
                continue
            if p not in contract_params(s):
                continue
            res.count('obligations')
            if p in out.used:
                res.count('discharged')
            else:
                res.add('option-ignored', f'{s}|{p}', f"{f.short}: the option '{p}' has no effect on anything the function does", f.where)
    res.assumptions += ['calls through values the analysis cannot resolve are treated as honouring every option passed to them',
                        'the operations an option controls are those of the reviewed table contracts/c04.json']
    res.need('functions analysed', 500)
    res.need('obligations', 2500)
    return res


_API = None


def contract_params(s):
    global _API
    if _API is None:
        _API = contract('api.json')
    return _API.get(s, [])
