"""C17: companion arrays are cut, reordered and shifted together."""
from ..core import Project
from ..report import Result, contract
from .. import together


def check(tier):
    res = Result()
    P = Project()
    api = set(contract('api.json'))
    c = contract('c17.json')
    together.compare(res, P, api, c['terms'])
    together.compare_texts(res, P, api, c['texts'])
    together.compare_arguments(res, P, api, c['arguments'])
    res.need('common selections', 100)
    res.need('pairs of local arrays', 30)
    res.rule('apart: for every recorded pair of companion arrays (value graph: the arrays a routine is given, reads or keeps; syntax: its local arrays) the selections applied to both - slices, masks, index arrays, '
             'rolls, flips, takes, lists handed over for the same treatment - stay common to both: no selection of one turns into a selection the other does not get. Which selection is used is not judged, only that it is shared.')
    return res
