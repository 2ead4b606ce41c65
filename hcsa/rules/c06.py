"""C06: gains enter with the right antenna, conjugation and power."""
from ..core import Project, AnalysisBroken
from ..gainrule import compare
from .. import optconst
from ..report import Result, contract


def check(tier):
    res = Result()
    P = Project()
    table = contract('c06.json')
    res.rule('gain-algebra: every product, quotient and power that forms an output is expanded into factors (container, antenna of the baseline, conjugated or not) with rational powers and '
             'propositional conditions; they must equal the reviewed signature V_obs = g_i conj(g_j) V_true for that output.')
    n = compare(res, P, set(contract('api.json')), table)
    res.count('routines', n)
    if n < 0.6 * len(table):
        raise AnalysisBroken('most routines with gain algebra are gone')
    res.rule('option-choice: in calls between routines of the package the constants given (or left at the default) for options about the gain convention are the reviewed ones.')
    optconst.compare(res, P, set(contract('api.json')), contract('optconst.json')['C06'], 'C06')
    return res
