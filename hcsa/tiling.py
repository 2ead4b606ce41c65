"""Do the slices taken in a loop tile the axis they cut?  Polynomial arithmetic over value terms."""
from .terms import mk, const, subterms

ONE = ()


def add(p, q, k=1):
    r = dict(p)
    for m, c in q.items():
        r[m] = r.get(m, 0) + k * c
        if not r[m]:
            del r[m]
    return r


def mul(p, q):
    r = {}
    for m, c in p.items():
        for n, d in q.items():
            mn = tuple(sorted(m + n, key=lambda t: t.n))
            r[mn] = r.get(mn, 0) + c * d
            if not r[mn]:
                del r[mn]
    return r


def fn(t):
    f = t.a[0]
    return str(f.a[0]).split('.')[-1] if f.op == 'global' else f.a[1] if f.op == 'attr' else ''


def arg(t, i=0):
    return t.a[1].a[i] if t.op == 'call' and len(t.a[1].a) > i else None


def unwrap(t):
    """drop conversions that keep the value of an integer"""
    while t.op == 'call' and fn(t) in ('int', 'int64', 'int32', 'intp', 'float', 'asarray') and arg(t) is not None and len(t.a[1].a) == 1 and rounding(arg(t)) != 'frac':
        t = arg(t)
    return t


def rounding(t):
    """'frac' when the value may be fractional"""
    if t.op == 'bin' and t.a[0] == 'Div':
        return 'frac'
    if t.op == 'bin':
        return 'frac' if 'frac' in (rounding(t.a[1]), rounding(t.a[2])) else 'int'
    return 'int'


def frac(t):
    """(numerator, denominator) of a division"""
    if t.op == 'bin' and t.a[0] in ('Div',):
        return strip_float(t.a[1]), strip_float(t.a[2])
    return None


def strip_float(t):
    while t.op == 'call' and fn(t) in ('float', 'int', 'float64') and len(t.a[1].a) == 1:
        t = arg(t)
    return t


def poly(t):
    t = unwrap(t)
    if t.op == 'const' and isinstance(t.a[0], (int, float)) and not isinstance(t.a[0], bool):
        return {ONE: t.a[0]} if t.a[0] else {}
    if t.op == 'bin' and t.a[0] in ('Add', 'Sub'):
        return add(poly(t.a[1]), poly(t.a[2]), 1 if t.a[0] == 'Add' else -1)
    if t.op == 'bin' and t.a[0] == 'Mult':
        return mul(poly(t.a[1]), poly(t.a[2]))
    if t.op == 'un' and t.a[0] == 'USub' or t.op == 'USub':
        x = t.a[-1]
        if x.op == 'bin' and x.a[0] == 'FloorDiv' and neg(x.a[1]) is not None:
            return {(mk('ceil', canon(neg(x.a[1])), canon(x.a[2])),): 1}          # -(-a // b)
        return {m: -c for m, c in poly(x).items()}
    if t.op == 'bin' and t.a[0] == 'FloorDiv':
        n, d = poly(t.a[1]), poly(t.a[2])
        up = add(add(n, d, -1), {ONE: 1})                                   # (a + b - 1) // b
        if len(d) == 1 and all(m in n for m in d) and not any(m == ONE for m in d):
            return {(mk('ceil', unpoly(up), canon(t.a[2])),): 1}
        return {(mk('floor', canon(t.a[1]), canon(t.a[2])),): 1}
    if t.op == 'call':
        x = arg(t)
        if x is not None and fn(t) in ('ceil', 'floor', 'int', 'round', 'rint', 'around') and frac(x):
            a, b = frac(x)
            return {(mk('ceil' if fn(t) == 'ceil' else 'floor' if fn(t) in ('floor', 'int') else 'round', canon(a), canon(b)),): 1}
        if x is not None and fn(t) in ('ceil', 'floor', 'round', 'rint') and rounding(x) == 'int':
            return poly(x)
        if fn(t) == 'int' and x is not None and x.op == 'call' and len(t.a[1].a) == 1:
            return poly(x)
    return {(canon(t),): 1}


def neg(t):
    return t.a[-1] if t.op in ('un', 'USub') and (t.op == 'USub' or t.a[0] == 'USub') else None


def canon(t):
    return strip_float(unwrap(t))


def unpoly(p):
    return mk('poly', *[x for m, c in sorted(p.items(), key=lambda mc: tuple(t.n for t in mc[0])) for x in (mk('mono', *m), c)]) if not (len(p) == 1 and list(p.values()) == [1] and len(list(p)[0]) == 1) else list(p)[0][0]


def subst(p, atom, q):
    r = {}
    for m, c in p.items():
        k = m.count(atom)
        t = {tuple(x for x in m if x is not atom): c}
        for _ in range(k):
            t = mul(t, q)
        r = add(r, t)
    return r


def hasatom(p, atom):
    return any(atom in m for m in p)


def opaque(p, atom):
    """the atom is used inside another atom (not polynomial in it)"""
    return any(a is not atom and any(s is atom for s in subterms(a)) for m in p for a in m)


def alternatives(t):
    """hi = min(a, b): any of the bounds (the others clip)"""
    t = unwrap(t)
    if t.op == 'call' and fn(t) in ('min', 'minimum', 'amin', 'nanmin'):
        xs = t.a[1].a
        if len(xs) == 1 and xs[0].op in ('list', 'tuple'):
            xs = xs[0].a
        return [y for x in xs for y in alternatives(x)]
    if t.op == 'ite' and t.a[0].op == 'cmp' or t.op == 'ite':
        return [y for x in t.a[1:3] for y in alternatives(x)]
    return [t]


def index_range(t):
    """(start, stop, step) of an index running over range / arange"""
    it = t.a[0]
    while it.op == 'call' and fn(it) in ('tqdm', 'list', 'reversed', 'trange') and fn(it) != 'trange' and arg(it) is not None:
        it = arg(it)
    if it.op == 'call' and fn(it) in ('range', 'arange', 'trange') and it.a[1].a:
        xs = list(it.a[1].a)
        if len(xs) == 1:
            xs = [const(0)] + xs
        if len(xs) == 2:
            xs.append(const(1))
        return xs
    return None


def at_least(p, q):
    """'yes' when p >= q always, 'no' when p < q for some lengths, None unknown (p, q polynomials; all atoms non-negative)"""
    d = add(p, q, -1)
    # ceil(a/b)*b - a >= 0 ; floor(a/b)*b + b - a > 0 ; floor(a/b)*b - a <= 0
    for m in list(d):
        for a in m:
            if a.op in ('ceil', 'floor', 'round') and m in d:
                rest = list(m)
                rest.remove(a)
                num, den = poly_of(a.a[0]), poly_of(a.a[1])
                if {tuple(rest): 1} != den:
                    continue
                c = d[m]
                if c != 1:
                    continue
                e = dict(d)
                del e[m]
                e = add(e, num)                               # replaced by a lower bound (ceil) or an upper bound (floor)
                if a.op == 'ceil':
                    d = e
                elif a.op == 'floor':
                    if all(x >= 0 for x in add(e, den, -1).values()):
                        d = add(e, den, -1)
                    elif not e or all(x <= 0 for x in e.values()):
                        return 'no'
                elif a.op == 'round' and (not e or all(x <= 0 for x in e.values())):
                    return 'no'
    if not d or all(c >= 0 for c in d.values()):
        return 'yes'
    if all(c <= 0 for c in d.values()):
        return 'no'
    return None


def poly_of(t):
    if t.op == 'poly':
        return {t.a[i].a: t.a[i + 1] for i in range(0, len(t.a), 2)}
    return poly(t)
