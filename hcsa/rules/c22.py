"""C22: averages are normalized by the weights that were summed."""
from ..core import Project
from ..report import Result, contract
from ..terms import T, walk
from ..wmean import judge, quotients, averages, guards, factors, const_like
from ..tiling import poly


def values(w):
    for e in w.events:
        vs = [getattr(e, 'val', None)] + list(getattr(e, 'args', ()) or ()) + [x for k, x in (getattr(e, 'kws', ()) or ())]
        for v in vs:
            if isinstance(v, T):
                yield e, v


def survey(P, f, api):
    w = walk(P, f, inline=lambda h: h.short not in api and not h.name.startswith('__'), max_depth=2)
    out = {'mean': [], 'mismatch': [], 'other': []}
    seen, seen2 = set(), set()
    for e, v in values(w):
        for n, d, s in quotients(v, seen):
            k, txt = judge(n, d)
            if k:
                out[k].append((e.where, txt))
        for s in averages(v, seen2):
            out['mean'].append((e.where, len([x for x in factors(s.a[1].a[0]) if not const_like(x)]) if s.a[1].a else 1))
    return w, out


def store_base(t):
    """name of the accumulator behind a container term"""
    while True:
        if t.op in ('loopvar', 'after'):
            return t.a[0]
        if t.op in ('upd', 'mut', 'sub', 'item'):
            t = t.a[0]
            continue
        return None


def doubled(res, f, w):
    for e in w.events:
        if e.kind == 'setitem' and e.val is not None:
            p = poly(e.val)
            for m, c in p.items():
                if len(m) == 1 and c >= 2 and m[0].op == 'sub' and m[0].a[1] is e.args[0] and m[0].a[0] is e.target:
                    b = store_base(m[0].a[0])
                    res.add('counted-twice', f'{f.short}|{b}', f'{f.short}: the running sum {b} is added to itself', e.where)


def membership(g):
    """tests whether the accumulator already has the key: True (it has) / False (it has not) / None (another test)"""
    pos = True
    while g.op == 'not':
        g, pos = g.a[0], not pos
    if g.op == 'cmp' and g.a[0] in ('in', 'not in') and store_base(g.a[2]) is not None:
        return pos if g.a[0] == 'in' else not pos
    return None


def grouped(w, name):
    """accumulations into the dictionary called name: (key, other conditions) -> [(event, membership)]"""
    out = {}
    for e in w.events:
        if e.kind == 'setitem' and store_base(e.target) == name:
            pc = [g for g in e.pc if g.op != 'in_loop']
            ms = {membership(g) for g in pc} - {None}
            k = e.args[0], frozenset(g for g in pc if membership(g) is None), sum(g.op == 'in_loop' for g in e.pc)
            out.setdefault(k, []).append((e, ms))
    return out


def stores(w, name):
    """contributions counted: (key, conditions, 'all' | 'first' | 'later')"""
    out = {}
    for (k, pc, deep), es in grouped(w, name).items():
        kinds = [m for e, m in es]
        every = any(not m for m in kinds) or {True} in kinds and {False} in kinds
        # a store when the key is absent, followed by an unconditional one, is the initialization
        out[(k, pc, deep, 'all' if every else 'first' if {False} in kinds else 'later')] = es[0][0].where
    return out


def pairs(f, w, seen):
    """(numerator, normalization) accumulators: quotients of dictionary entries, and the documented pairs utils.chisq returns"""
    out = set()
    for e, v in values(w):
        for n, d, s in quotients(v, seen):
            n, d = guards(n), guards(d)
            if n.op == 'sub' and d.op == 'sub':
                a, b = store_base(n.a[0]), store_base(d.a[0])
                if a and b and a != b:
                    out.add((a, b))
    for i, j in RETURNED.get(f.short, ()):
        for e in w.events:
            if e.kind == 'return' and e.depth == 0 and e.val is not None and e.val.op == 'tuple' and len(e.val.a) > j:
                for x in alts(e.val.a[i]):
                    for y in alts(e.val.a[j]):
                        if store_base(x) and store_base(y):
                            out.add((store_base(x), store_base(y)))
    return out


def alts(t):
    return [y for x in t.a[1:3] for y in alts(x)] if t.op == 'ite' else [t]


RETURNED = {'utils:chisq': [(0, 1), (2, 3)]}


# firstcal: the fraction of flips in favour, counted by design over a subset
EXEMPT = {'redcal:RedundantCalibrator.firstcal'}


def incs(w, name):
    out = {}
    for k, es in grouped(w, name).items():
        for e, _ in es:
            if e.val is not None:
                v = e.val
                for x in (v.a[1:] if v.op == 'bin' and v.a[0] == 'Add' else [v]):
                    for y in alts(x):
                        out.setdefault(k, []).extend(factors(y))
    return out


# firstcal: the fraction of flips in favour, counted by design over a subset
EXEMPT = {'redcal:RedundantCalibrator.firstcal'}


def common(f, w):
    """weights shared by the contributions to the two sums of each pair"""
    n = 0
    for a, b in pairs(f, w, set()):
        A, B = incs(w, a), incs(w, b)
        for k in set(A) & set(B):
            n += len([x for x in A[k] if x in B[k] and not const_like(x)])
    return n


def paired(res, f, w):
    if f.short in EXEMPT:
        return
    for a, b in sorted(pairs(f, w, set())):
        A, B = stores(w, a), stores(w, b)
        if not A or not B:
            continue
        res.count('paired running sums')
        for k in set(A) ^ set(B):
            res.add('unpaired', f'{f.short}|{a}/{b}', f'{f.short}: {a} and {b} do not count the same contributions', (A.get(k) or B.get(k)))


def check(tier):
    res = Result()
    P = Project()
    api = set(contract('api.json'))
    rec = contract('c22.json')
    for f in sorted((f for f in P.funcs.values() if f.parent is None), key=lambda f: f.short):
        if f.short not in rec['means'] and f.short not in api:
            continue
        w, out = survey(P, f, api)
        res.count('functions')
        res.count('quotients of sums', sum(len(v) for v in out.values()))
        res.count('weighted means', len(out['mean']))
        doubled(res, f, w)
        paired(res, f, w)
        n = rec['common'].get(f.short)
        if n and common(f, w) < n:
            res.add('weights-differ', f.short, f'{f.short}: a weight that enters a running sum does not enter its normalization', f.where)
        want = rec['means'].get(f.short)
        if not want:
            continue
        m, mis, oth, left = want
        if len(out['mean']) < m and (len(out['mismatch']) > mis or len(out['other']) > oth):
            new = out['mismatch'] if len(out['mismatch']) > mis else out['other']
            res.add('normalization', f.short, f'{f.short}: ' + '; '.join(sorted({t for _, t in new})), new[-1][0])
        elif len(out['mean']) <= m and sum(n for _, n in out['mean']) > left:
            res.add('normalization', f.short, f'{f.short}: a weight of the sum is missing from the normalization',
                    max(out['mean'], key=lambda x: x[1])[0])
        for wh, _ in out['mean']:
            res.sample(f'{wh} {f.short}', 40)
    res.need('weighted means', 10)
    res.need('paired running sums', 5)
    res.rule('normalization: in every recorded weighted mean sum(w x)/sum(w) (also np.average, dictionaries of sums, in-place division, clipped or masked denominators) the '
             'factors of the denominator are factors of the numerator, along the same axis and over the same elements, and no weight of the numerator is missing below')
    res.rule('unpaired: a running sum and the running normalization it is divided by are updated for the same keys under the same conditions; '
             'weights-differ: the weights shared by the two increments stay shared; counted-twice: no running sum is added to itself')
    return res
