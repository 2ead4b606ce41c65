"""C07: flags are never lost - every flag input that forces an output flag on the reviewed tree still forces it, under at least the same conditions."""
import ast
from ..core import Project, AnalysisBroken
from ..covrule import compare
from .. import keepold
from ..flagand import intersections, reductions
from .. import optconst
from ..report import Result, contract


def check(tier):
    res = Result()
    P = Project()
    table = contract('c07.json')
    res.rule('flag-lost / flag-narrowed / flag-dropped / flag-cleared: by abstract interpretation of the flag algebra (or, and, not, any/all, where, masked stores, nan masks) over the value '
             'graph, each recorded (sink, source) pair still satisfies "source flagged => sink flagged" under a condition implied by the recorded one, and no store into an existing flag '
             'array discards what is set there.')
    n = compare(res, P, set(contract('api.json')), table, 'flag', 'must be flagged')
    res.count('routines with flag sinks', n)
    if n < 0.6 * len(table):
        raise AnalysisBroken('most routines with recorded flag sinks are gone')
    res.rule('flag-intersection: flag arrays are never intersected (a & b, logical_and, &=) except where a reviewed all/min reduction over flags has been rewritten as one.')
    red = contract('c07_reductions.json')
    for m in P.modules.values():
        res.count('modules searched for intersected flags')
        hits = list(intersections(m.tree))
        if hits and reductions(m.tree) - sum(isinstance(h, ast.Call) for h in hits) >= red.get(m.relpath, 0):
            for h in hits:
                res.add('flag-intersection', f'{m.relpath}|{ast.unparse(h)}', f'{ast.unparse(h)} drops samples flagged in only one of the two', f'{m.relpath}:{h.lineno}')
    res.rule('flag-overwritten: a store into flags that were given, read or already filled keeps the old content (what is stored is set wherever the old flag was set), except in the routines recorded as replacing them.')
    keepold.compare(res, P, set(contract('api.json')), contract('keepold.json'), 'flag')
    keepold.compare_constants(res, P, contract('keepold_const.json'), 'flag')
    res.rule('flag-constant: where a constant is stored into (or an array of constants created for) flags, it is not turned around.')
    res.rule('option-choice: in calls between routines of the package the constants given (or left at the default) for options about flags are the reviewed ones.')
    optconst.compare(res, P, set(contract('api.json')), contract('optconst.json')['C07'], 'C07')
    return res
