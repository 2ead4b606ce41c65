"""C01: arguments are not modified unless the interface says so (interprocedural alias + mutation analysis)."""
import re
from ..core import Project, AnalysisBroken
from ..effects import Engine
from ..report import Result, contract

FLAG = re.compile(r'^(inplace|in_place|calibrate_inplace|copy)$')


def obligations(project):
    """(function, context) pairs judged: the public API, plus each 'not in place' mode"""
    api = contract('api.json')
    out, missing = [], 0
    for short in sorted(api):
        f = project.func(short)
        if f is None:
            missing += 1
            continue
        out.append((f, {}))
        for q in f.params:
            if FLAG.match(q):
                out.append((f, {q: q == 'copy'}))
    return out, missing, len(api)


def check(tier):
    res = Result()
    project = Project()
    eng = Engine(project)
    obs, missing, total = obligations(project)
    if missing > 0.25 * total:
        raise AnalysisBroken(f'{missing} of {total} public functions of the analysed interface are gone')
    eng.solve([(f, {}) for f in project.funcs.values() if f.parent is None] + obs)
    api = contract('api.json')
    allow = contract('c01.json')['may_change']
    used = set()
    for f, ctx in obs:
        s = eng.summary(f, ctx)
        tag = ','.join(f'{k}={v}' for k, v in sorted(ctx.items()))
        params = set(api[f.short])
        first = f.pos_params[0] if (f.is_method and f.pos_params) else None
        res.count('functions x modes')
        bad = {}
        for (root, depth), wit in s.effects.items():
            kind, _, nm = root.partition(':')
            if kind == 'p' and nm in params:
                bad.setdefault(nm, (depth, wit))
        for nm in sorted(params):
            if nm == first and (f.name == '__init__' or f.is_property):
                continue
            res.count('obligations')
            if nm in bad:
                key = f'{f.short}|{"self" if nm == first else nm}|{tag}'
                if key in allow:
                    used.add(key)
                    res.count('changes allowed by the interface contract')
                    continue
                depth, wit = bad[nm]
                mode = f' with {tag}' if tag else ''
                res.add('argument-mutated', key,
                        f'{f.short}{mode} can modify its argument "{nm}": {wit[-1]}', f.where, wit)
            else:
                res.count('discharged')
                if nm not in ('self',) and len(res.samples) < 10 and (res.counts['obligations'] % 97 == 1):
                    res.sample(f'{f.short}({nm}){" [" + tag + "]" if tag else ""}: no path modifies it')
    res.counts['nontrivial obligations'] = res.counts['discharged']
    res.count('functions summarised', len(eng.memo))
    res.count('call sites evaluated', eng.ncalls)
    res.count('call sites resolved to repository code', eng.nresolved)
    res.rule('Every public function/method (and each of its "not in place" modes) is summarised by an interprocedural '
             'alias and mutation analysis; a may-write to an object reachable from a parameter that is not listed as '
             'changeable in contracts/c01.json is a violation, reported with the chain of calls to the writing statement.')
    res.assumptions += [
        'numpy/pyuvdata/stdlib calls behave as modelled (out=, in-place methods, view vs copy); unknown external calls do not modify their arguments',
        'aliasing created through objects stored inside third-party objects is not tracked',
    ]
    if res.counts['obligations'] < 1500:
        raise AnalysisBroken('fewer than 1500 obligations: the public interface was not found')
    return res
