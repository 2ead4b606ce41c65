"""Scale factors along the flow of dimensional quantities (C19).

A value is brought to the form  factor x product of atoms^power  (sums and joins give several alternatives); operations that
keep the unit (differences, means, indexing, copies, reshaping) are looked through.  Constants, pi, deg2rad, and physical
constants collect in the factor.  Nothing is evaluated but products of literal constants.
"""
import ast
import math
import re
from .terms import T, is_const

SAME = {'diff', 'ediff1d', 'median', 'mean', 'average', 'nanmedian', 'nanmean', 'abs', 'fabs', 'absolute', 'max', 'min', 'amax', 'amin', 'nanmax', 'nanmin', 'unique', 'asarray', 'array', 'asanyarray',
        'astype', 'copy', 'deepcopy', 'float', 'squeeze', 'ravel', 'flatten', 'atleast_1d', 'atleast_2d', 'reshape', 'unwrap', 'sort', 'sorted', 'real', 'list', 'tuple', 'item', 'concatenate', 'hstack',
        'append', 'vstack', 'tolist', 'ascontiguousarray', 'broadcast_to', 'repeat', 'tile', 'stack', 'expand_dims', 'nan_to_num', 'rint', 'ptp', 'std', 'nanstd', 'sum', 'nansum', 'cumsum', 'linspace',
        'maximum', 'minimum', 'clip', 'transpose', 'fftshift', 'ifftshift', 'conj', 'norm', 'float64', 'roll', 'set', 'insert', 'double', 'interp', 'full', 'full_like'}
FIRST = {'repeat', 'tile', 'reshape', 'broadcast_to', 'unwrap', 'clip', 'diff', 'median', 'mean', 'average', 'sum', 'nansum', 'astype', 'roll', 'std', 'norm', 'percentile', 'expand_dims', 'unique', 'array', 'asarray',
         'max', 'min', 'amax', 'amin', 'nanmax', 'nanmin', 'sort', 'sorted', 'cumsum', 'transpose', 'nanmean', 'nanmedian'}
ALL = {'maximum', 'minimum', 'concatenate', 'hstack', 'append', 'vstack', 'stack'}
SCALED = {'deg2rad': math.pi / 180, 'radians': math.pi / 180, 'rad2deg': 180 / math.pi, 'degrees': 180 / math.pi}
PHYS = {'pi': math.pi, 'c': 2.99792458e8, 'speed_of_light': 2.99792458e8}
DIM = re.compile(r'(?i)(freq|time|lst|dly|delay|jd|dt$|^df$|^dnu|integration|lat$|latitude|lon$|longitude|antpos|bl_?vec|blvec|uvw|frate|fringe|width|standoff|horizon|\balt|angle|bl_len|bllen|cent|halfw|half_w|'
                 r'separation|dlst|hour|deg$|rad$|cosz|phs|phase|enu|antenna_position|ant_pos|tau|min_dly|dlys|max_frate|span|period|offset|nsec|edges)')


def fname(t):
    f = t.a[0]
    return str(f.a[0]).split('.')[-1] if f.op in ('global', 'func', 'class') else f.a[1] if f.op == 'attr' else ''


def args_of(t):
    f = t.a[0]
    return ([f.a[0]] if f.op == 'attr' and f.a[0].op != 'global' else []) + list(t.a[1].a)


UNIT = {('sday', 's'): 86164.0905, ('day', 's'): 86400.0, ('hour', 's'): 3600.0, ('day', 'hour'): 24.0, ('minute', 's'): 60.0, ('deg', 'rad'): math.pi / 180, ('rad', 'deg'): 180 / math.pi,
        ('hourangle', 'rad'): math.pi / 12, ('GHz', 'Hz'): 1e9, ('MHz', 'Hz'): 1e6, ('ns', 's'): 1e-9, ('s', 'ns'): 1e9, ('day', 'min'): 1440.0}


def phys(t, P=None):
    if t.op == 'global':
        n = str(t.a[0])
        last = n.split('.')[-1]
        if last == 'pi' or last in PHYS and ('const' in n or n.startswith('scipy')):
            return PHYS[last]
        if n.startswith('astropy.constants.c.'):
            return PHYS['c']
        if P is not None:
            mod, _, nm = n.rpartition('.')
            m = next((m for m in P.modules.values() if m.name == mod), None)
            if m is not None and nm in m.globals and isinstance(m.globals[nm], ast.expr):
                return literal(m.globals[nm], m, P)
    if t.op == 'attr' and t.a[1] in ('value', 'si'):
        return phys(t.a[0], P)
    if t.op == 'call' and t.a[0].op == 'global' and str(t.a[0].a[0]).startswith('astropy.units.') and fname(t) == 'to' and t.a[1].a and is_const(t.a[1].a[0]):
        return UNIT.get((str(t.a[0].a[0]).split('.')[-2], t.a[1].a[0].a[0]))
    return None


def literal(n, m, P):
    """number a module-level constant stands for"""
    if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
        return abs(n.value)
    if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Mult, ast.Div)):
        a, b = literal(n.left, m, P), literal(n.right, m, P)
        return None if a is None or b is None or not b else a * b if isinstance(n.op, ast.Mult) else a / b
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'to' and isinstance(n.func.value, ast.Attribute) and n.args and isinstance(n.args[0], ast.Constant):
        return UNIT.get((n.func.value.attr, n.args[0].value))
    txt = ast.unparse(n)
    ab = P.absname(m, txt.split('.')[0]) + txt[len(txt.split('.')[0]):] if isinstance(n, (ast.Attribute, ast.Name)) else ''
    if ab.startswith('astropy.constants.c.') or ab in ('scipy.constants.c', 'scipy.constants.speed_of_light'):
        return PHYS['c']
    if ab in ('numpy.pi', 'math.pi'):
        return math.pi
    return None


def number(t, P=None):
    if t.op == 'const' and isinstance(t.a[0], (int, float, complex)) and not isinstance(t.a[0], bool):
        return abs(t.a[0])
    p = phys(t, P)
    if p:
        return p
    if t.op == 'call' and fname(t) in ('float', 'int', 'float64', 'array') and len(args_of(t)) == 1:
        return number(args_of(t)[0], P)
    return None


def mul(A, B, p=1):
    out = set()
    for ca, sa in A:
        for cb, sb in B:
            d = dict(sa)
            for k, v in sb:
                d[k] = d.get(k, 0) + p * v
            try:
                c = ca * cb ** p
            except (ZeroDivisionError, OverflowError):
                continue
            out.add((round6(c), tuple(sorted((k, v) for k, v in d.items() if v))))
    return cap(out)


def round6(c):
    return float(f'{c:.11g}') if c else 0.0


def cap(s):
    return set(sorted(s)[:24])


class Mono:
    def __init__(self, P=None):
        self.memo, self.P = {}, P

    def mono(self, t, d=0):
        r = self.memo.get(t)
        if r is None:
            self.memo[t] = {(1.0, (('?', 1),))}
            r = self._mono(t, d) if d < 60 else {(1.0, (('?', 1),))}
            self.memo[t] = r
        return r

    def _mono(self, t, d):
        n = number(t, self.P)
        if n is not None:
            return {(round6(n), ())} if n else set()
        m = lambda x: self.mono(x, d + 1)
        if t.op == 'bin':
            o, x, y = t.a
            if o == 'Mult':
                return mul(m(x), m(y))
            if o == 'Div':
                return mul(m(x), m(y), -1)
            if o in ('Add', 'Sub'):
                A, B = m(x), m(y)
                r = {z for z in A | B if z[1]}
                return cap(r) or ({(round6(sum(z[0] for z in A) + (1 if o == 'Add' else -1) * sum(z[0] for z in B)), ())} if len(A) <= 1 and len(B) <= 1 else set())
            if o == 'Mod':
                return m(x)
            if o == 'Pow' and y.op == 'const' and isinstance(y.a[0], (int, float)) and abs(y.a[0]) <= 4:
                return {(round6(c ** y.a[0]), tuple((k, v * y.a[0]) for k, v in s)) for c, s in m(x) if c}
            return {(1.0, ((self.desc(t), 1),))}
        if t.op == 'un':
            return m(t.a[1]) if t.a[0] in ('USub', 'UAdd') else {(1.0, (('?', 1),))}
        if t.op == 'ite':
            return cap(m(t.a[1]) | m(t.a[2]))
        if t.op in ('list', 'tuple') and t.a:
            return cap(set().union(*[m(x) for x in t.a if not is_const(x)])) or {(1.0, ())}
        if t.op == 'comp':
            return cap(set().union(*[m(x) for x in t.a[1].a])) if t.a[1].a else {(1.0, (('?', 1),))}
        if t.op in ('iter', 'item', 'upd', 'mut', 'elem', 'star'):
            r = m(t.a[0])
            if t.op == 'upd' and isinstance(t.a[2], T) and not is_const(t.a[2]):
                r = cap(r | m(t.a[2]))
            return r
        if t.op == 'sub':
            if t.a[1].op == 'const' and isinstance(t.a[1].a[0], str):
                return {(1.0, ((t.a[1].a[0], 1),))}
            return m(t.a[0])
        if t.op == 'call':
            n, a = fname(t), args_of(t)
            if n in SCALED and a:
                return {(round6(c * SCALED[n]), s) for c, s in m(a[0])}
            if n in ('multiply', 'outer', 'dot', 'einsum', 'matmul') and len(a) >= 2:
                r = {(1.0, ())}
                for x in a:
                    if not (x.op == 'const' and isinstance(x.a[0], str)):
                        r = mul(r, m(x))
                return r
            if n in ('divide', 'true_divide') and len(a) == 2:
                return mul(m(a[0]), m(a[1]), -1)
            if n in ('add', 'subtract') and len(a) == 2:
                return cap({z for z in m(a[0]) | m(a[1]) if z[1]})
            if n == 'where' and len(a) == 3:
                return cap({z for z in m(a[1]) | m(a[2]) if z[1]})
            if n in ('arange', 'linspace') and a:
                r = cap(set().union(*[{z for z in m(x) if z[1]} for x in a[:2]]))
                return r or {(1.0, ())}
            if n in ('fftfreq', 'rfftfreq') and len(a) > 1:
                return mul({(1.0, ())}, m(a[1]), -1)
            if n == 'sqrt' and a:
                return {(round6(c ** .5), tuple((k, v / 2) for k, v in s)) for c, s in m(a[0])}
            if n == 'square' and a:
                return {(round6(c ** 2), tuple((k, v * 2) for k, v in s)) for c, s in m(a[0])}
            if n in SAME and a:
                xs = a if n in ALL or n in ('set', 'sorted') else a[:1]
                if n in ('full', 'full_like') and len(a) > 1:
                    xs = a[1:2]
                return cap(set().union(*[m(x) for x in xs]))
        if t.op == 'attr' and t.a[1] in ('T', 'real', 'value'):
            return m(t.a[0])
        return {(1.0, ((self.desc(t), 1),))}

    def desc(self, t):
        if t.op == 'param':
            return str(t.a[0])
        if t.op == 'attr':
            return t.a[1]
        if t.op == 'call':
            return fname(t) + '()'
        if t.op == 'global':
            return str(t.a[0]).split('.')[-1]
        return '?'


def transparent(t):
    return fname(t) in SAME or fname(t) in SCALED or fname(t) in ('multiply', 'outer', 'dot', 'matmul', 'divide', 'true_divide', 'add', 'subtract', 'where', 'sqrt', 'square', 'fftfreq', 'rfftfreq', 'arange')


COUNT = re.compile(r'(?i)^(n_?|num_?|len)(times|freqs|lsts|dlys|ints|bins|files|frates)$|^(n|num)_')


def dimensional(sig):
    return any(DIM.search(k.rstrip('()')) and not COUNT.search(k.rstrip('()')) for k, _ in sig)
