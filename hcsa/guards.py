"""Rejection clauses (conditions under which a routine raises) as propositional formulas over canonical, layout-independent atoms."""
import ast
import hashlib
from .core import Func
from .terms import T, mk, walk, const, tnot, TRUE, FALSE

# ------------------------------------------------------------------ canonical text of a term
SAME = {'numpy.all': 'all', 'numpy.any': 'any', 'builtins.all': 'all', 'builtins.any': 'any', 'numpy.absolute': 'numpy.abs', 'abs': 'numpy.abs',
        'collections.abc.Iterable': 'Iterable', 'collections.Iterable': 'Iterable', 'typing.Iterable': 'Iterable'}


class Canon:
    def __init__(self):
        self.memo = {}

    def __call__(self, t):
        if not isinstance(t, T):
            return repr(t)
        r = self.memo.get(t)
        if r is None:
            self.memo[t] = '@'
            r = self.text(t)
            if len(r) > 160:
                r = r[:60] + '#' + hashlib.md5(r.encode()).hexdigest()[:12]
            self.memo[t] = r
        return r

    def text(self, t):
        o, a, c = t.op, t.a, self
        if o == 'const':
            return repr(a[0])
        if o == 'param':
            return str(a[0])
        if o == 'global':
            return SAME.get(a[0], str(a[0]))
        if o == 'attr':
            return f'{c(a[0])}.{a[1]}'
        if o == 'sub':
            return f'{c(a[0])}[{c(a[1])}]'
        if o == 'item':
            return f'{c(a[0])}[{a[1]}]'
        if o == 'loopvar':
            return c(a[2])
        if o == 'after':
            return c(a[2])
        if o == 'upd':
            return '~' + c(a[0]).lstrip('~')
        if o == 'mut':
            return '~' + c(a[0]).lstrip('~')
        if o in ('opaque',):
            return f'?{a[0]}'
        if o in ('func', 'class'):
            return f'{o}:{a[0]}'
        if o == 'exc':
            return 'exc:' + (str(a[2]) if len(a) > 2 else '')
        if o == 'excval':
            return o
        if o == 'call':
            f, args, kws = a[0], a[1].a, list(zip(a[2].a[0::2], a[2].a[1::2]))
            fn = c(f)
            if fn in ('list', 'tuple', 'numpy.array', 'numpy.asarray', 'sorted') and len(args) == 1 and not kws:
                return c(args[0])
            if f.op == 'attr' and f.a[1] == 'keys' and not args:
                return c(f.a[0])
            return f'{fn}({",".join([c(x) for x in args] + [f"{k}={c(v)}" for k, v in sorted(kws, key=lambda q: str(q[0]))])})'
        if o == 'bin':
            x, y = c(a[1]), c(a[2])
            if a[0] in ('Add', 'Mult', 'BitAnd', 'BitOr', 'BitXor') and y < x:
                x, y = y, x
            return f'({x} {a[0]} {y})'
        if o == 'comp':
            return f'comp({c(a[1])};{c(a[2])};{c(a[3])})'
        if o in ('and', 'or'):
            return f' {o} '.join(sorted(c(x) for x in a))
        if o in ('list', 'tuple', 'set'):
            return f'({",".join(c(x) for x in a)})'
        return f'{o}<{",".join(c(x) for x in a)}>'


# ------------------------------------------------------------------ guard formulas over canonical atoms
# formula: ('lit',b) | ('atom',key) | ('not',f) | ('and',...) | ('or',...)
# keys: ('p', text) plain; ('lt', A, B) A<B; ('eq', A, B); constants are ('#', value) in the B slot; B may also be text
def Not(f):
    return ('lit', not f[1]) if f[0] == 'lit' else f[1] if f[0] == 'not' else ('not', f)


def neg_nnf(f):
    return Not(f)


def numconst(t):
    return t.op == 'const' and isinstance(t.a[0], (int, float)) and not isinstance(t.a[0], bool)


def intlike(t):
    """len(x), .ndim, .size, .shape[i]: non-negative integers"""
    if t.op == 'call' and t.a[0].op == 'global' and t.a[0].a[0] == 'len':
        return True
    if t.op == 'attr' and t.a[1] in ('ndim', 'size', 'Nfreqs', 'Ntimes', 'Nbls', 'Npols'):
        return True
    if t.op in ('sub', 'item') and t.a[0].op == 'attr' and t.a[0].a[1] == 'shape':
        return True
    return False


class Guards:
    """turns guard terms into formulas; quant records, per atom, whether it sits under an exists/forall over elements"""
    def __init__(self):
        self.canon = Canon()

    def lt(self, a, b):
        """a < b"""
        c = self.canon
        if numconst(b):
            v = b.a[0]
            if intlike(a):
                import math
                v = math.ceil(v)
                if v <= 0:
                    return ('lit', False)
            return ('atom', ('lt', c(a), ('#', v)))
        if numconst(a):
            v = a.a[0]                      # v < b  ==  not (b <= v) == not(b < v) and not(b == v)
            if intlike(b):
                import math
                v = math.floor(v) + 1       # b >= v
                return ('lit', True) if v <= 0 else Not(('atom', ('lt', c(b), ('#', v))))
            return ('and', Not(('atom', ('lt', c(b), ('#', v)))), Not(('atom', ('eq', c(b), ('#', v)))))
        x, y = c(a), c(b)
        if x < y:
            return ('atom', ('lt', x, y))
        if x == y:
            return ('lit', False)
        return ('and', Not(('atom', ('lt', y, x))), Not(('atom', ('eq', y, x))))

    def eq(self, a, b):
        c = self.canon
        if a.op == 'const' and b.op != 'const':
            a, b = b, a
        if b.op == 'const':
            v = b.a[0]
            if numconst(b) and intlike(a):
                if v != int(v) or v < 0:
                    return ('lit', False)
                lo = ('lit', True) if v == 0 else Not(('atom', ('lt', c(a), ('#', int(v)))))
                return ('and', lo, ('atom', ('lt', c(a), ('#', int(v) + 1))))
            return ('atom', ('eq', c(a), ('#', v)))
        x, y = sorted((c(a), c(b)))
        return ('lit', True) if x == y else ('atom', ('eq', x, y))

    def f(self, t):
        o, a = t.op, t.a
        if o == 'const':
            return ('lit', bool(a[0]))
        if o == 'in_loop':
            return ('lit', True)
        if o == 'not':
            return Not(self.f(a[0]))
        if o in ('and', 'or'):
            return (o,) + tuple(self.f(x) for x in a)
        if o == 'ite':
            c, x, y = (self.f(z) for z in a)
            return ('or', ('and', c, x), ('and', Not(c), y))
        if o == 'un' and a[0] == 'Invert':
            return Not(self.f(a[1]))
        if o == 'bin' and a[0] in ('BitAnd', 'BitOr'):
            return ('and' if a[0] == 'BitAnd' else 'or', self.f(a[1]), self.f(a[2]))
        if o == 'cmp':
            return self.cmp(a[0], a[1], a[2])
        if o == 'call':
            return self.call(t)
        if o == 'loopvar':
            return self.f(a[2]) if a[2].op != 'const' else ('atom', ('p', self.canon(t)))
        return ('atom', ('p', self.canon(t)))

    def cmp(self, op, a, b):
        if op in ('is', '=='):
            if b.op == 'const' and isinstance(b.a[0], bool):
                f = self.f(a)
                return f if b.a[0] else Not(f)
            if b.op in ('tuple', 'list') and a.op == b.op and len(a.a) == len(b.a):
                return ('and',) + tuple(self.eq(x, y) for x, y in zip(a.a, b.a))
            return self.eq(a, b)
        if op == '<':
            return self.lt(a, b)
        if op == '<=':
            return Not(self.lt(b, a))
        if op == 'in':
            if b.op == 'call' and b.a[0].op == 'attr' and b.a[0].a[1] == 'keys' and not b.a[1].a:
                b = b.a[0].a[0]
            if b.op in ('list', 'tuple', 'set') and b.a and all(x.op == 'const' for x in b.a):
                return ('or',) + tuple(self.eq(a, x) for x in b.a)
            return ('atom', ('p', f'{self.canon(a)} in {self.canon(b)}'))
        return ('atom', ('p', f'{self.canon(a)} {op} {self.canon(b)}'))

    def call(self, t):
        fn, args, kws = t.a[0], t.a[1].a, t.a[2].a
        nm = SAME.get(fn.a[0], fn.a[0]) if fn.op == 'global' else None
        if nm == 'bool' and len(args) == 1:
            return self.f(args[0])
        if nm == 'isinstance' and len(args) == 2:
            cl = args[1].a if args[1].op in ('tuple', 'list') else (args[1],)
            return ('or',) + tuple(('atom', ('p', f'isinstance({self.canon(args[0])},{self.canon(x)})')) for x in cl)
        meth = None
        if fn.op == 'attr' and fn.a[1] in ('all', 'any') and not args:
            nm, args, meth = fn.a[1], (fn.a[0],), True
        if nm in ('all', 'any') and len(args) == 1 and (not kws or meth):
            x = args[0]
            if x.op == 'comp' and x.a[0] != 'dict':
                e, c = self.f(x.a[1].a[0]), self.f(x.a[3])
                g = ('or', Not(c), e) if nm == 'all' else ('and', c, e)
                return ('Q', nm, g)
            if x.op in ('list', 'tuple') and x.a and not any(y.op == 'star' for y in x.a):
                return ('and' if nm == 'all' else 'or',) + tuple(self.f(y) for y in x.a)
            return ('Q', nm, self.f(x))
        if nm == 'numpy.allclose':
            return ('Q', 'all', ('atom', ('p', f'numpy.isclose({",".join(self.canon(y) for y in args)})')))
        if nm == 'numpy.array_equal' and len(args) == 2:
            return ('Q', 'all', self.eq(args[0], args[1]))
        if nm in ('numpy.logical_not', 'operator.not_') and len(args) == 1:
            return Not(self.f(args[0]))
        if nm == 'len' and len(args) == 1:
            return Not(('atom', ('lt', self.canon(t), ('#', 1))))
        return ('atom', ('p', self.canon(t)))


def strip_q(f):
    """drop quantifier marks (generic element reading)"""
    if f[0] == 'Q':
        return strip_q(f[2])
    if f[0] in ('lit', 'atom'):
        return f
    return (f[0],) + tuple(strip_q(x) for x in f[1:])


def literals(f, sign=True, q='', acc=None):
    """(atom, sign, quantifier) in negation normal form: 'E' = holds for some element, 'A' = holds for all"""
    acc = set() if acc is None else acc
    k = f[0]
    if k == 'atom':
        acc.add((f[1], sign, q))
    elif k == 'not':
        literals(f[1], not sign, q, acc)
    elif k == 'Q':
        ex = (f[1] == 'any') == sign
        literals(f[2], sign, 'E' if ex else 'A', acc)
    elif k in ('and', 'or'):
        for x in f[1:]:
            literals(x, sign, q, acc)
    return acc


def fatoms(f, acc=None):
    acc = set() if acc is None else acc
    if f[0] == 'atom':
        acc.add(f[1])
    elif f[0] == 'Q':
        fatoms(f[2], acc)
    elif f[0] != 'lit':
        for x in f[1:]:
            fatoms(x, acc)
    return acc


def subject(key):
    """what an atom is about, without the constant it is compared with"""
    if key[0] in ('lt', 'eq'):
        return ('cmp', key[1], key[2] if not isinstance(key[2], tuple) else '#')
    return key


def axioms(keys):
    """order/equality facts between the comparison atoms in use"""
    out = []
    by = {}
    pairs = {}
    for k in keys:
        if k[0] in ('lt', 'eq'):
            if isinstance(k[2], tuple):
                by.setdefault(k[1], []).append((k[0], k[2][1]))
            else:
                pairs.setdefault((k[1], k[2]), set()).add(k[0])
    for (x, y), ks in pairs.items():
        if ks == {'lt', 'eq'}:
            out.append(('not', ('and', ('atom', ('lt', x, y)), ('atom', ('eq', x, y)))))
    for a, cs in by.items():
        cs = sorted(set(cs), key=str)
        for i, (k1, c1) in enumerate(cs):
            for k2, c2 in cs[i + 1:]:
                A, B = ('atom', (k1, a, ('#', c1))), ('atom', (k2, a, ('#', c2)))
                num = all(isinstance(c, (int, float)) and not isinstance(c, bool) for c in (c1, c2))
                if k1 == k2 == 'eq':
                    if c1 != c2 or type(c1) is not type(c2) and not num:
                        out.append(('not', ('and', A, B)))
                elif not num:
                    # equal to None/str/bool: not comparable, so any order test is void
                    continue
                elif k1 == k2 == 'lt':
                    lo, hi = (A, B) if c1 < c2 else (B, A)
                    out.append(('or', ('not', lo), hi))
                else:
                    (E, e), (L, l) = ((A, c1), (B, c2)) if k1 == 'eq' else ((B, c2), (A, c1))
                    out.append(('or', ('not', E), L) if e < l else ('or', ('not', E), ('not', L)))
    return out


# ------------------------------------------------------------------ small DPLL on formulas
def simp(f, asg):
    k = f[0]
    if k == 'lit':
        return f
    if k == 'atom':
        return ('lit', asg[f[1]]) if f[1] in asg else f
    if k == 'not':
        x = simp(f[1], asg)
        return ('lit', not x[1]) if x[0] == 'lit' else x[1] if x[0] == 'not' else ('not', x)
    out = []
    for y in f[1:]:
        x = simp(y, asg)
        if x[0] == 'lit':
            if x[1] == (k == 'or'):
                return x
            continue
        if x not in out:
            out.append(x)
    if not out:
        return ('lit', k == 'and')
    return out[0] if len(out) == 1 else (k,) + tuple(out)


def sat(fs, asg=None, budget=None):
    """model (dict) or None; gives up (None = not shown satisfiable) past the budget"""
    asg = dict(asg or {})
    budget = budget if budget is not None else [20000]
    while True:
        nf = []
        unit = None
        for f in fs:
            f = simp(f, asg)
            st = [f]
            while st:
                g = st.pop()
                if g == ('lit', False):
                    return None
                if g == ('lit', True):
                    continue
                if g[0] == 'and':
                    st.extend(g[1:])
                    continue
                if g[0] == 'not' and g[1][0] == 'or':
                    st.extend(Not(x) for x in g[1][1:])
                    continue
                if g[0] == 'not' and g[1][0] == 'and':
                    g = ('or',) + tuple(Not(x) for x in g[1][1:])
                if unit is None and (g[0] == 'atom' or g[0] == 'not' and g[1][0] == 'atom'):
                    unit = (g[1], True) if g[0] == 'atom' else (g[1][1], False)
                nf.append(g)
        fs = nf
        if not fs:
            return asg
        if unit is None:
            break
        if unit[0] in asg and asg[unit[0]] != unit[1]:
            return None
        asg[unit[0]] = unit[1]
    budget[0] -= 1
    if budget[0] < 0:
        return None
    x = min(fatoms(min(fs, key=lambda g: len(fatoms(g)))), key=str)
    for v in (True, False):
        m = sat(fs, {**asg, x: v}, budget)
        if m is not None:
            return m
    return None


# ------------------------------------------------------------------ clauses of a function
class Clause:
    __slots__ = ('exc', 'full', 'core', 'where', 'text')

    def __init__(self, exc, full, core, where, text):
        self.exc, self.full, self.core, self.where, self.text = exc, full, core, where, text


def exc_name(v):
    while v.op == 'call':
        v = v.a[0]
    return str(v.a[0]).split('.')[-1] if v.op in ('global', 'class') else 'Exception' if v.op != 'const' else 'reraise'


def clauses(events, g, subst=None):
    out, seen = [], set()
    for e in events:
        if e.kind not in ('raise', 'assert'):
            continue
        pcs = [c for c in e.pc if c.op not in ('in_loop',)]
        if e.kind == 'raise' and any(c.op == 'exc' for c in pcs) and (e.val is None or e.val.op == 'const' or True) and pcs and pcs[-1].op == 'exc':
            continue                                    # translation of an exception that is raised anyway
        if subst:
            pcs = [subst(c) for c in pcs]
        if e.kind == 'assert':
            v = subst(e.val) if subst else e.val
            core = Not(g.f(v))
            exc = 'AssertionError'
            ctx = [g.f(c) for c in pcs]
        else:
            exc = exc_name(e.val)
            if not pcs:
                core, ctx = ('lit', True), []
            else:
                core, ctx = g.f(pcs[-1]), [g.f(c) for c in pcs[:-1]]
        full = ('and', *ctx, core)
        key = repr(full)
        if key in seen:
            continue
        seen.add(key)
        out.append(Clause(exc, full, core, e.where, ''))
    return out


def substitute(t, mp, memo=None):
    memo = {} if memo is None else memo
    if t in mp:
        return mp[t]
    if t in memo:
        return memo[t]
    r = t
    if any(isinstance(x, T) for x in t.a):
        na = tuple(substitute(x, mp, memo) if isinstance(x, T) else x for x in t.a)
        if na != t.a:
            r = mk(t.op, *na)
            if r.op == 'attr' and False:
                pass
    memo[t] = r
    return r
