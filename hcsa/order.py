"""Values whose order is that of a hash set (C10)."""
from .core import Func
from .terms import T, walk

SETOPS = {'union', 'intersection', 'difference', 'symmetric_difference'}
CLEAN = {'sorted', 'unique', 'sort', 'argsort', 'len', 'min', 'max', 'sum', 'any', 'all', 'nanmin', 'nanmax', 'mean', 'median', 'isin', 'in1d', 'set', 'frozenset', 'isinstance', 'Counter', 'sum', 'str', 'lexsort',
         'union1d', 'intersect1d', 'setdiff1d', 'dict', 'OrderedDict', 'odict', 'DataContainer', 'bool', 'issubset', 'type', 'bincount', 'ones_like', 'zeros_like', 'range', 'isdisjoint', 'issuperset'}
KEEP = {'list', 'tuple', 'array', 'asarray', 'concatenate', 'append', 'stack', 'vstack', 'hstack', 'enumerate', 'zip', 'map', 'filter', 'reversed', 'iter', 'copy', 'deepcopy', 'chain', 'from_iterable', 'reshape',
        'ravel', 'flatten', 'astype', 'join', 'array_split', 'meshgrid', 'atleast_1d', 'transpose'}


class Order:
    def __init__(self, P, returns=None):
        self.P, self.mu, self.mo, self.mp = P, {}, {}, {}
        self.returns = returns or {}

    def fname(self, t):
        f = t.a[0]
        return str(f.a[0]).split('.')[-1] if f.op in ('global', 'class', 'func') else f.a[1] if f.op == 'attr' else ''

    # ------------------------------------------------------------ hash sets
    def U(self, t, d=0):
        if t in self.mu:
            return self.mu[t]
        self.mu[t] = False
        self.mu[t] = r = d < 40 and self._U(t, d + 1)
        return r

    def _U(self, t, d):
        o, a = t.op, t.a
        if o == 'set':
            return len(a) > 1 or any(x.op == 'star' for x in a if isinstance(x, T))
        if o == 'comp':
            return a[0] == 'set'
        if o == 'bin' and a[0] in ('BitOr', 'BitAnd', 'Sub', 'BitXor'):
            return self.U(a[1], d) or self.U(a[2], d) and a[0] != 'Sub'
        if o == 'ite':
            return any(self.U(x, d) for x in a[1:3])
        if o in ('loopvar', 'after'):
            return any(self.U(x, d) for x in a[2:] if isinstance(x, T))
        if o in ('mut', 'upd'):
            return self.U(a[0], d)
        if o == 'call':
            n = self.fname(t)
            m = a[0].op == 'attr' and a[0].a[0].op != 'global'
            if n in ('set', 'frozenset') and not m:
                return True
            if m and n in SETOPS | {'copy'}:
                return self.U(a[0].a[0], d)
            if n in ('copy', 'deepcopy') and a[1].a:
                return self.U(a[1].a[0], d)
            return n in self.returns and self.returns[n] == 'set'
        return False

    # ------------------------------------------------------------ sequences in set order
    def O(self, t, d=0):
        if t in self.mo:
            return self.mo[t]
        self.mo[t] = None
        self.mo[t] = r = self._O(t, d + 1) if d < 60 else None
        return r

    def _O(self, t, d):
        """None, 'seq' (ordered like a set) or 'pick' (some element of a set)"""
        o, a = t.op, t.a
        S = lambda x: 'seq' if self.U(x, d) or self.O(x, d) == 'seq' else None
        if o == 'call':
            n = self.fname(t)
            m = a[0].op == 'attr' and a[0].a[0].op != 'global'
            if n == 'sorted' and a[1].a:
                return None
            if m and n == 'pop' and self.U(a[0].a[0], d):
                return 'pick'
            if n == 'next' and a[1].a:
                return 'pick' if S(a[1].a[0]) else None
            if n in CLEAN:
                return None
            if n in KEEP:
                xs = ([a[0].a[0]] if m else []) + [x for x in a[1].a if isinstance(x, T)]
                return 'seq' if any(S(x) for x in xs) else None
            return 'seq' if self.returns.get(n) == 'seq' else None
        if o == 'comp' and a[0] in ('list', 'gen'):
            return 'seq' if any(S(x) for x in a[2].a) or a[1].a and isinstance(a[1].a[-1], T) and self.O(a[1].a[-1], d) == 'seq' else None
        if o == 'ite':
            return self.O(a[1], d) or self.O(a[2], d)
        if o in ('loopvar', 'after'):
            for x in a[2:]:
                if isinstance(x, T) and self.O(x, d):
                    return self.O(x, d)
            return None
        if o == 'mut':
            if a[1] in ('sort',):
                return None
            r = self.O(a[0], d)
            if r or self.U(a[0], d):
                return r
            if a[1] in ('append', 'extend', 'insert', 'appendleft'):
                for x in a[2].a:
                    if isinstance(x, T) and (a[1] == 'extend' and S(x) or self.each(x, d)):
                        return 'seq'
            return None
        if o == 'bin' and a[0] in ('Add', 'Mult'):
            return self.O(a[1], d) or self.O(a[2], d)
        if o in ('tuple', 'list'):
            return next((self.O(x, d) for x in a if isinstance(x, T) and self.O(x, d)), None)
        if o == 'star':
            return S(a[0])
        if o in ('sub', 'item'):
            k = a[1]
            i = k if isinstance(k, int) else k.a[0] if isinstance(k, T) and k.op == 'const' and isinstance(k.a[0], int) else None
            r = self.O(a[0], d)
            if r == 'seq' and i is not None:
                return 'pick'
            if r == 'seq' and isinstance(k, T) and k.op == 'slice':
                return 'seq'
            return r if r == 'pick' else None
        return None

    def each(self, x, d, n=0):
        """the value is derived from the element a loop over a set is at"""
        if n > 12:
            return False
        if x.op == 'iter':
            return self.U(x.a[0], d) or self.O(x.a[0], d) == 'seq'
        if x.op == 'call' and self.fname(x) in CLEAN:
            return False
        return any(self.each(y, d, n + 1) for y in x.a if isinstance(y, T)) if x.op in ('item', 'sub', 'tuple', 'call', 'bin', 'attr', 'list') else False
