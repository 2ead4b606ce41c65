"""C21: flagged or zero-weight samples contribute nothing - every flag or weight input that forces an output weight (or average) to zero still does."""
from ..core import Project, AnalysisBroken
from ..covrule import compare
from .. import keepold
from .. import datacov
from .. import optconst
from ..report import Result, contract


def check(tier):
    res = Result()
    P = Project()
    table = contract('c21.json')
    res.rule('weight-lost / weight-narrowed / weight-dropped: by abstract interpretation of the weight algebra (products, ~flags, where, masked stores, nan masks) over the value graph, each '
             'recorded (sink, source) pair still satisfies "source flagged or zero => weight zero" under a condition implied by the recorded one.')
    res.rule('data-unweighted: for every average, fit, filter or routine that is given data, each occurrence of the data is still kept out wherever the recorded flag or weight source is set '
             '(weighted product, masked selection or store, nan in a nan-aware reduction, or companion weight/flag argument).')
    n = compare(res, P, set(contract('api.json')), table, 'weight', 'must be zero')
    res.count('routines with weight sinks', n)
    datacov.compare(res, P, set(contract('api.json')), contract('c21_data.json'))
    if n < 0.6 * len(table):
        raise AnalysisBroken('most routines with recorded weight sinks are gone')
    res.rule('weight-overwritten: a store into weights that were given, read or already filled keeps the old content (what is stored is zero wherever the old weight was zero), except in the routines recorded as replacing them.')
    keepold.compare(res, P, set(contract('api.json')), contract('keepold.json'), 'weight')
    keepold.compare_constants(res, P, contract('keepold_const.json'), 'weight')
    res.rule('weight-constant: where a constant is stored into (or an array of constants created for) weights, it is not turned around.')
    res.rule('option-choice: in calls between routines of the package the constants given (or left at the default) for options about weights and flags are the reviewed ones.')
    optconst.compare(res, P, set(contract('api.json')), contract('optconst.json')['C21'], 'C21')
    return res
