"""C05: a baseline asked for in reversed order is the conjugate."""
from ..core import Project, AnalysisBroken
from ..orient import compare
from ..report import Result, contract


def check(tier):
    res = Result()
    P = Project()
    table = contract('c05.json')
    res.rule('orientation / reversed-store / one-order: a parity calculus over baseline keys (reverse_bl, conj_pol, [::-1], swapped pairs) and values (conj, reversed lists): each value looked up under a reversed '
             'key is conjugated/reversed exactly where the reviewed tree does so, stores made under both orders are still made, membership tested in either order is still tested in both.')
    n = compare(res, P, set(contract('api.json')), table)
    res.count('routines', n)
    if n < 0.6 * len(table):
        raise AnalysisBroken('most routines handling reversed baselines are gone')
    return res
