"""Gain algebra: which gain (and visibility) factors an output carries, with which power and conjugation, under which condition.

factors(t): {(label, side, conjugated): {power: formula}}; side is the antenna of the baseline ('0' or '1') the factor is looked up for.
"""
from fractions import Fraction
from .core import Func, Cls
from .terms import T, mk, walk, tnot
from .guards import Not
from .flagcov import FULL, f_or, f_and, key_cases

ONE, HALF = Fraction(1), Fraction(1, 2)
PASS = {'copy', 'deepcopy', 'array', 'asarray', 'astype', 'reshape', 'squeeze', 'transpose', 'ravel', 'flatten', 'broadcast_to', 'repeat', 'expand_dims', 'swapaxes', 'moveaxis', 'tile',
        'atleast_1d', 'atleast_2d', 'list', 'tuple', 'DataContainer', 'RedDataContainer', 'dict', 'OrderedDict', 'odict', 'get', 'take', 'concatenate', 'vstack', 'hstack', 'stack',
        'nan_to_num', 'pad', 'roll', 'filled', 'sum', 'mean', 'nanmean', 'nansum', 'average', 'median', 'nanmedian', 'complex', 'complex64', 'complex128', 'ascontiguousarray', 'angle',
        'real', 'imag', 'log', 'exp', 'unwrap', 'values', 'items', 'set', 'sorted', 'MaskedArray', 'masked_array', 'cumsum'}

EMPTY = {'zeros_like', 'ones_like', 'empty_like', 'full_like', 'len', 'shape', 'isfinite', 'isnan', 'zeros', 'ones', 'next', 'keys', 'any', 'all', 'isclose', 'range', 'arange'}


def add(a, b, sign=1):
    """factors of a * b**sign"""
    out = dict(a)
    for k, m in b.items():
        m = {sign * e: c for e, c in m.items()}
        if k not in out:
            out[k] = m
            continue
        r = {}
        ca, cb = any_(out[k]), any_(m)
        for e1, c1 in out[k].items():
            for e2, c2 in m.items():
                put(r, e1 + e2, f_and(c1, c2))
            if cb != FULL:
                put(r, e1, f_and(c1, Not(cb)))
        if ca != FULL:
            for e2, c2 in m.items():
                put(r, e2, f_and(c2, Not(ca)))
        r.pop(0, None)
        if r:
            out[k] = r
        else:
            out.pop(k)
    return out


def any_(m):
    r = ('lit', False)
    for c in m.values():
        r = f_or(r, c) if r != ('lit', False) else c
    return r


def put(m, e, c):
    m[e] = f_or(m[e], c) if e in m else c


def union(*ds):
    out = {}
    for d in ds:
        for k, m in d.items():
            q = out.setdefault(k, {})
            for e, c in m.items():
                put(q, e, c)
    return out


def gate(d, f):
    return {k: {e: f_and(f, c) for e, c in m.items()} for k, m in d.items()}


def scale(d, n):
    return {k: {e * n: c for e, c in m.items() if e * n} for k, m in d.items()} if n else {}


def conj(d):
    return {(l, s, not c): m for (l, s, c), m in d.items()}


class Gains:
    def __init__(self, g, cov, keep):
        self.g, self.cov, self.keep = g, cov, keep
        self.memo = {}

    def fname(self, t):
        return self.cov.fname(t)

    # ------------------------------------------------------------ leaves
    def label(self, t, d=0):
        if d > 14:
            return None
        o, a = t.op, t.a
        if o == 'param':
            return a[0]
        if o == 'attr':
            b = self.label(a[0], d + 1)
            if b is None:
                b = self.cov.origin(a[0])
            return ('' if b in ('self', None) else b) + '.' + a[1]
        if o in ('sub', 'item', 'iter', 'enter', 'upd', 'mut'):
            return self.label(a[0], d + 1)
        if o in ('loopvar', 'after'):
            return self.label(a[2], d + 1)
        if o == 'ite':
            x, y = self.label(a[1], d + 1), self.label(a[2], d + 1)
            return x if x == y or y is None else y if x is None else None
        if o == 'call':
            n = self.fname(t)
            if n in PASS and (a[0].op == 'attr' and a[0].a[0].op != 'global'):
                return self.label(a[0].a[0], d + 1)
            if n in PASS and a[1].a:
                return self.label(a[1].a[0], d + 1)
            if n in EMPTY:
                return None
            ls = {self.label(x, d + 1) for x in a[1].a if isinstance(x, T)}
            ls = sorted(x for x in ls if x and self.keep(x))
            return f'{n}({",".join(ls)})' if ls or self.keep(n) else None
        if o == 'comp':
            return self.label(a[1].a[-1], d + 1) if isinstance(a[1], T) and a[1].a and isinstance(a[1].a[-1], T) else None
        return None

    def side(self, t):
        s = ''
        while True:
            if t.op == 'sub':
                s = s or self.cov.side(t.a[1])
                if not s and t.a[1].op in ('param',):
                    s = t.a[1].a[0]
                t = t.a[0]
            elif t.op == 'call' and t.a[0].op == 'attr' and t.a[0].a[1] == 'get' and t.a[1].a:
                s = s or self.cov.side(t.a[1].a[0])
                t = t.a[0].a[0]
            elif t.op in ('item', 'iter', 'enter', 'upd', 'mut', 'attr'):
                t = t.a[0]
            elif t.op in ('loopvar', 'after'):
                t = t.a[2]
            else:
                return s

    def leaf(self, t):
        l = self.label(t)
        if l is None:
            s = self.side(t)
            return {('~', s, False): {ONE: FULL}} if s in ('0', '1', '0x1', '1x0') and t.op == 'sub' else {}
        if not self.keep(l):
            return {}
        return {(l, self.side(t), False): {ONE: FULL}}

    # ------------------------------------------------------------ factors
    def f(self, t):
        if t not in self.memo:
            self.memo[t] = {}
            self.memo[t] = self._f(t)
        return self.memo[t]

    def power(self, t, d=0):
        """[(number, condition)] or None"""
        if d > 6:
            return None
        if t.op == 'const' and isinstance(t.a[0], (int, float)) and not isinstance(t.a[0], bool):
            return [(Fraction(t.a[0]).limit_denominator(64), FULL)]
        if t.op == 'un' and t.a[0] == 'USub':
            r = self.power(t.a[1], d + 1)
            return r and [(-n, c) for n, c in r]
        if t.op == 'bin' and t.a[0] in ('Mult', 'Div', 'Add', 'Sub'):
            x, y = self.power(t.a[1], d + 1), self.power(t.a[2], d + 1)
            if not x or not y:
                return None
            op = {'Mult': lambda p, q: p * q, 'Div': lambda p, q: p / q if q else Fraction(0), 'Add': lambda p, q: p + q, 'Sub': lambda p, q: p - q}[t.a[0]]
            return [(op(n, m), f_and(c, q)) for n, c in x for m, q in y]
        if t.op == 'ite':
            x, y = self.power(t.a[1], d + 1), self.power(t.a[2], d + 1)
            if x is None or y is None:
                return x or y if (t.a[1].op == 'unbound' or t.a[2].op == 'unbound') else None
            c = self.g.f(t.a[0])
            return [(n, f_and(c, q)) for n, q in x] + [(n, f_and(Not(c), q)) for n, q in y]
        if t.op == 'sub' and t.a[0].op == 'dict':
            ks, vs = t.a[0].a[0::2], t.a[0].a[1::2]
            out = []
            for k, v in zip(ks, vs):
                r = self.power(v, d + 1)
                if r is None:
                    return None
                out += [(n, f_and(self.g.f(mk('cmp', '==', t.a[1], k)), c)) for n, c in r]
            return out
        return None

    def _f(self, t):
        o, a = t.op, t.a
        if o == 'const':
            return {}
        if o == 'bin':
            if a[0] in ('Mult', 'MatMult'):
                return add(self.f(a[1]), self.f(a[2]))
            if a[0] in ('Div', 'FloorDiv'):
                return add(self.f(a[1]), self.f(a[2]), -1)
            if a[0] == 'Pow':
                b, p = self.f(a[1]), self.power(a[2])
                if not b:
                    return {}
                if p is None:
                    return {(l + '**?', s, c): m for (l, s, c), m in b.items()}
                return union(*[gate(scale(b, n), c) for n, c in p])
            return union(self.f(a[1]), self.f(a[2]))
        if o == 'un':
            return self.f(a[1])
        if o == 'ite':
            if a[1].op == 'unbound':
                return self.f(a[2])
            if a[2].op == 'unbound':
                return self.f(a[1])
            if a[0].op == 'exc':
                return union(self.f(a[1]), self.f(a[2]))
            c = self.g.f(a[0])
            return union(gate(self.f(a[1]), c), gate(self.f(a[2]), Not(c)))
        if o == 'loopvar':
            return self.f(a[2])
        if o == 'after':
            return union(self.f(a[2]), self.f(a[3]) if a[3].op != 'unbound' else {})
        if o == 'enter':
            return self.f(a[0])
        if o == 'upd':
            return union(self.f(a[0]), self.f(a[2]))
        if o == 'mut':
            return union(self.f(a[0]), *[self.f(x) for x in a[2].a if isinstance(x, T)])
        if o in ('list', 'tuple', 'set'):
            return union(*[self.f(x) for x in a if isinstance(x, T)])
        if o == 'dict':
            return union(*[self.f(x) for x in a[1::2]])
        if o == 'comp':
            return self.f(a[1].a[-1])
        if o in ('sub', 'item', 'iter'):
            base = a[0]
            q = key_cases(t) if o == 'sub' else None
            if q is not None:
                return self.f(q)
            if base.op == 'ite' and o != 'iter':
                return self.f(mk('ite', base.a[0], mk(o, base.a[1], a[1]), mk(o, base.a[2], a[1])))
            x = base
            while x.op in ('loopvar', 'after'):
                x = x.a[2]
            if o == 'sub' and self.label(t) is None and self.cov.side(a[1]) in ('0', '1', '0x1', '1x0'):
                return self.leaf(t)
            if x.op == 'upd' and o == 'sub':
                if x.a[1] is a[1]:
                    return self.f(x.a[2])
                r = self.label(x)
                if r is None or not self.keep(r):
                    return self.f(x)
                return self.leaf(t)
            if x.op in ('list', 'tuple') and o == 'item' and isinstance(a[1], int) and a[1] < len(x.a):
                return self.f(x.a[a[1]])
            if x.op in ('comp', 'dict', 'list', 'tuple', 'mut', 'bin') or x.op == 'call' and self.fname(x) in PASS - {'get', 'values', 'items'}:
                r = self.f(x)
                s = self.side(t)
                if s:
                    return {(l, q or s, c): m for (l, q, c), m in r.items()}
                return r
            return self.leaf(t)
        if o == 'call':
            return self.call(t)
        if o in ('param', 'attr'):
            return self.leaf(t)
        return {}

    def monomial(self, t, d=0):
        while t.op in ('loopvar', 'after', 'sub', 'item', 'un'):
            t = t.a[2] if t.op in ('loopvar', 'after') else t.a[1] if t.op == 'un' else t.a[0]
        if t.op == 'bin':
            return t.a[0] in ('Mult', 'Div', 'Pow') and (d > 8 or self.monomial(t.a[1], d + 1) and self.monomial(t.a[2], d + 1))
        if t.op == 'ite':
            return all(self.monomial(x, d + 1) for x in t.a[1:3]) if d < 8 else True
        if t.op == 'call' and self.fname(t) in PASS | {'conj', 'conjugate', 'divide', 'multiply'}:
            xs = ([t.a[0].a[0]] if t.a[0].op == 'attr' and t.a[0].a[0].op != 'global' else []) + [x for x in t.a[1].a if isinstance(x, T)]
            return self.fname(t) not in ('sum', 'mean', 'nansum', 'nanmean', 'average') and all(self.monomial(x, d + 1) for x in xs[:2]) if d < 8 else True
        return True

    def call(self, t):
        fn, args = t.a[0], t.a[1].a
        nm = self.fname(t)
        meth = fn.op == 'attr' and fn.a[0].op != 'global'
        xs = ([fn.a[0]] if meth else []) + [x for x in args if isinstance(x, T)]
        if nm in ('conj', 'conjugate') and xs:
            return conj(self.f(xs[0]))
        if nm in ('abs', 'absolute') and xs:
            if not self.monomial(xs[0]):
                return self.f(xs[0])            # |a - b|: the relative conjugation of the summands matters
            r = scale(self.f(xs[0]), HALF)
            return add(r, conj(r))
        if nm == 'sqrt' and xs:
            return scale(self.f(xs[0]), HALF)
        if nm == 'square' and xs:
            return scale(self.f(xs[0]), 2)
        if nm in ('divide', 'true_divide') and len(xs) >= 2:
            return add(self.f(xs[0]), self.f(xs[1]), -1)
        if nm in ('multiply', 'outer', 'dot', 'matmul', 'einsum') and len(xs) >= 2:
            r = {}
            for x in xs:
                r = add(r, self.f(x))
            return r
        if nm == 'where' and len(xs) == 3:
            return union(self.f(xs[1]), self.f(xs[2]))
        if nm == 'power' and len(xs) >= 2:
            return self.f(mk('bin', 'Pow', xs[0], xs[1]))
        if nm in EMPTY:
            return {}
        if nm == 'get' and meth:
            return union(self.leaf(t), *[self.f(x) for x in args[1:]])
        if nm in PASS and xs:
            return self.f(xs[0])
        return self.leaf(t)
