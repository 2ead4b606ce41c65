"""Quotients of sums: is the denominator the sum of the weights of the numerator? (C22)"""
from .terms import NONE, subterms, is_const, kwitems

SUMS = {'sum', 'nansum'}


def fname(t):
    f = t.a[0]
    return str(f.a[0]).split('.')[-1] if f.op in ('global', 'func', 'class') else f.a[1] if f.op == 'attr' else ''


def args_of(t):
    """positional arguments, the object of a method first"""
    f = t.a[0]
    return ([f.a[0]] if f.op == 'attr' and f.a[0].op != 'global' else []) + list(t.a[1].a)


def kw(t, name, default=None):
    return dict(kwitems(t.a[2])).get(name, default) if len(t.a) > 2 else default


CONV = {'astype', 'asarray', 'array', 'float', 'copy', 'real', 'ascontiguousarray', 'squeeze', 'atleast_1d', 'complex', 'deepcopy'}


def conv(t):
    """without conversions"""
    while True:
        if t.op == 'call' and fname(t) in CONV and args_of(t):
            t = args_of(t)[0]
        else:
            return t


def const_like(t):
    t = conv(t)
    return t.op == 'const' or t.op == 'un' and const_like(t.a[1]) or t.op in ('global',) or t.op == 'attr' and t.a[1] in ('inf', 'nan', 'pi')


def guards(t):
    """without protections against division by zero, masks and reshaping; list of the terms it may be"""
    while True:
        t = conv(t)
        if t.op == 'call':
            n, a = fname(t), args_of(t)
            if n == 'clip' and a:
                t = a[0]
                continue
            if n in ('maximum', 'max', 'fmax') and len(a) == 2 and (const_like(a[0]) or const_like(a[1])):
                t = a[0] if const_like(a[1]) else a[1]
                continue
            if n == 'where' and len(a) == 3 and (const_like(a[1]) or const_like(a[2])):
                t = a[1] if const_like(a[2]) else a[2]
                continue
            if n in ('nan_to_num',) and a:
                t = a[0]
                continue
        if t.op == 'sub' and index_only(t.a[1]):
            t = t.a[0]
            continue
        if t.op == 'upd' and const_like(t.a[2]):
            t = t.a[0]
            continue
        if t.op == 'ite' and (const_like(t.a[1]) or const_like(t.a[2])):
            t = t.a[1] if const_like(t.a[2]) else t.a[2]
            continue
        return t


def index_only(k):
    """mask or broadcasting index"""
    if k.op == 'tuple':
        return all(index_only(x) for x in k.a)
    return k is NONE or k.op == 'slice' or k.op in ('cmp', 'not', 'bin', 'un', 'attr') or k.op == 'call' and fname(k) in ('isfinite', 'isnan', 'isclose', 'where', 'nonzero') \
        or is_const(k) and k.a[0] in (Ellipsis, None)


def factors(t):
    t = conv(t)
    if t.op == 'bin' and t.a[0] == 'Mult':
        return factors(t.a[1]) + factors(t.a[2])
    if t.op == 'call' and fname(t) == 'multiply' and len(args_of(t)) == 2:
        return factors(args_of(t)[0]) + factors(args_of(t)[1])
    if t.op == 'sub' and index_only(t.a[1]):
        return factors(t.a[0])
    if t.op == 'iter':
        c = conv(t.a[0])
        if c.op == 'comp' and c.a[0] in ('list', 'gen') and len(c.a[1].a) == 1 and is_const(c.a[3], True):
            return factors(c.a[1].a[0])                 # element of a list built one to one
    return [t]


def spans(its, cond):
    """what a comprehension runs over, lists built one to one replaced by what they were built from"""
    out = set()
    for it in its:
        out |= span(it)
    return frozenset(out), cond


def span(it):
    it = conv(it)
    if it.op == 'call' and fname(it) in ('zip', 'enumerate', 'list', 'tuple', 'sorted', 'iter', 'reversed'):
        return set().union(*[span(x) for x in args_of(it)]) if args_of(it) else {it}
    if it.op == 'comp' and it.a[0] in ('list', 'gen') and is_const(it.a[3], True) and len(it.a[2].a) == 1:
        return span(it.a[2].a[0])
    if it.op == 'call' and fname(it) in ('keys', 'values', 'items') and it.a[0].op == 'attr':
        return span(it.a[0].a[0])
    return {it}


class Sum:
    """a reduction: over[s] of the product of factors along axis"""
    def __init__(self, fs, over, axis, kind):
        self.fs, self.over, self.axis, self.kind = fs, over, axis, kind


def as_sum(t):
    t = guards(t)
    if t.op == 'call' and fname(t) in SUMS and args_of(t):
        a = args_of(t)
        x = a[0]
        ax = kw(t, 'axis', a[1] if len(a) > 1 else NONE)
        x = conv(x)
        if x.op == 'comp' and x.a[0] in ('list', 'gen', 'tuple') and len(x.a[1].a) == 1:
            return Sum(factors(x.a[1].a[0]), spans(x.a[2].a, x.a[3]), ax, fname(t))
        return Sum(factors(x), None, ax, fname(t))
    if t.op == 'after':
        return loop_sum(t)
    return None


def loop_sum(t):
    """a running sum accumulated over one loop, from zero"""
    name, lid = t.a[0], t.a[1]
    if t.a[2].op == 'upd':
        return row_filter(t)
    found, todo, init, seen = [], [(t.a[2], ()), (t.a[3], ())], None, set()
    while todo:
        x, cs = todo.pop()
        if x.op == 'ite':
            todo += [(x.a[1], cs + ((x.a[0], True),)), (x.a[2], cs + ((x.a[0], False),))]
        elif x.op == 'loopvar' and x.a[:2] == (name, lid):
            init = x.a[2]
        elif x.op == 'bin' and x.a[0] == 'Add' and any(y.op == 'loopvar' and y.a[:2] == (name, lid) for y in x.a[1:3]):
            lv, c = (x.a[1], x.a[2]) if x.a[1].op == 'loopvar' and x.a[1].a[:2] == (name, lid) else (x.a[2], x.a[1])
            init = lv.a[2]
            if x not in seen:
                seen.add(x)
                found.append((c, cs))
        elif not x.op == 'unbound':
            return None
    if len(found) != 1 or init is None:
        return None
    z = guards(init)
    if not (const_like(z) or z.op == 'call' and fname(z) in ('zeros', 'zeros_like')):
        return None
    c, cs = found[0]
    if any(y.op == 'loopvar' and y.a[:2] == (name, lid) for y in subterms(c)):
        return None
    return Sum(factors(c), (lid, frozenset(cs)), NONE, 'loop')


def row_filter(t):
    """rows replaced one by one by a linear filter of themselves"""
    x = t.a[2]
    b, k, v = x.a
    v = conv(v)
    if b.op != 'loopvar' or b.a[:2] != t.a[:2] or v.op != 'call' or fname(v) not in ('convolve', 'fftconvolve', 'oaconvolve', 'convolve1d', 'gaussian_filter1d', 'uniform_filter1d'):
        return None
    a = args_of(v)
    if not a or a[0].op != 'sub' or a[0].a[0] is not b or a[0].a[1] is not k:
        return None
    return Sum(factors(b.a[2]), (t.a[1], k, tuple(a[1:]), v.a[2] if len(v.a) > 2 else None), NONE, 'filter')


def judge(num, den):
    """'mean' | 'mismatch' | None (not a quotient of two sums), with a text"""
    D = as_sum(den)
    N = as_sum(num)
    if N is None:
        return None, ''
    if D is None:
        if len([x for x in N.fs if not const_like(x)]) > 1 and not const_like(guards(den)):
            return 'other', 'a weighted sum is divided by something other than the sum of its weights'
        return None, ''
    # constant factors do not matter
    dw = [x for x in D.fs if not const_like(x)]
    rest = list(N.fs)
    missing = []
    for x in dw:
        if x in rest:
            rest.remove(x)
        else:
            missing.append(x)
    if missing:
        return 'mismatch', 'the weights of the sum are not those of the normalization'
    if N.axis is not D.axis:
        return 'mismatch', 'numerator and normalization are summed along different axes'
    if N.over != D.over:
        return 'mismatch', 'numerator and normalization are summed over different elements'
    return 'mean', len([x for x in rest if not const_like(x)])


def quotients(t, seen):
    for s in subterms(t):
        if s in seen:
            continue
        seen.add(s)
        if s.op == 'bin' and s.a[0] == 'Div':
            yield s.a[1], s.a[2], s
        elif s.op == 'call' and fname(s) in ('divide', 'true_divide') and len(args_of(s)) >= 2:
            yield args_of(s)[0], args_of(s)[1], s


def averages(t, seen):
    """np.average(x, weights=w): normalized by construction"""
    for s in subterms(t):
        if s not in seen:
            seen.add(s)
            if s.op == 'call' and fname(s) == 'average' and kw(s, 'weights') is not None:
                yield s
