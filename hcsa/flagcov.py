"""Flag coverage: which input flags force an output flag to be set (or an output weight to be zero), under which condition.

pos(t): {source: formula}  source set  =>  t is True / non-zero flag   (under the formula)
neg(t): {source: formula}  source set  =>  t is False / zero weight
Sources are flag-like leaves (parameters, attributes), tagged with the antenna side of the key they are read with.
"""
import re
from .terms import T, mk, TRUE
from .guards import Guards, Not

TOP = '*'
FLAGGY = re.compile(r'flag|flgs|mask|bad|xants|ex_ants|^stackf', re.I)
WGTY = re.compile(r'wgt|weight|nsample|^stackn', re.I)
NANDATA = re.compile(r'data|model|gain|vis|auto|noise|stack|^d$|^g$|ratio|chisq|std|resid|^arr|decoher')
PASS_CALLS = {'copy', 'deepcopy', 'array', 'asarray', 'astype', 'reshape', 'squeeze', 'transpose', 'ravel', 'flatten', 'broadcast_to', 'repeat', 'expand_dims',
              'ascontiguousarray', 'swapaxes', 'moveaxis', 'tile', 'atleast_1d', 'atleast_2d', 'view', 'bool', 'float', 'int', 'list', 'tuple', 'DataContainer',
              'RedDataContainer', 'dict', 'OrderedDict', 'odict', 'getmaskarray', 'abs', 'get', 'take', 'concatenate', 'vstack', 'hstack', 'stack', 'block', 'sqrt', 'clip',
              'nan_to_num', 'pad', 'roll', 'filled', 'absolute', 'defaultdict', 'cast', 'rollaxis', 'append', 'array_split', 'unravel'}
FULL = ('lit', True)
READS = {'read', 'build_datacontainers', 'build_calcontainers', 'load_vis'}
KNOWN = PASS_CALLS | {'logical_or', 'logical_and', 'logical_not', 'invert', 'where', 'zeros', 'zeros_like', 'ones', 'ones_like', 'full', 'full_like', 'all', 'any', 'min', 'max',
                      'sum', 'mean', 'prod', 'isclose', 'isnan', 'isfinite', 'reduce', 'bitwise_or', 'bitwise_and', 'amin', 'amax', 'nansum', 'MaskedArray', 'masked_array', 'conj', 'conjugate'}


def f_or(a, b):
    return a if a == b else ('lit', True) if FULL in (a, b) else ('or', a, b)


def f_and(a, b):
    if a == ('lit', True):
        return b
    if b == ('lit', True):
        return a
    return a if a == b else ('and', a, b)


def union(*ds):
    out = {}
    for d in ds:
        for k, v in d.items():
            out[k] = f_or(out[k], v) if k in out else v
    return out


def inter(a, b):
    if TOP in a and TOP in b:
        return union({TOP: f_and(a[TOP], b[TOP])}, {k: f_and(v, b.get(k, b[TOP])) for k, v in a.items() if k != TOP},
                     {k: f_and(v, a[TOP]) for k, v in b.items() if k != TOP and k not in a})
    if TOP in a:
        return {k: f_and(v, f_or(a[TOP], a.get(k, a[TOP]))) for k, v in b.items()}
    if TOP in b:
        return inter(b, a)
    return {k: f_and(v, b[k]) for k, v in a.items() if k in b}


def gate(d, f):
    return {k: f_and(f, v) for k, v in d.items()}


def key_cases(t):
    """x[(a, b if c else d)] as a conditional value"""
    k = t.a[1]
    if not isinstance(k, T):
        return None
    if k.op == 'ite' and k.a[1].op in ('tuple', 'item', 'sub', 'call') and k.a[2].op in ('tuple', 'item', 'sub', 'call'):
        return mk('ite', k.a[0], mk('sub', t.a[0], k.a[1]), mk('sub', t.a[0], k.a[2]))
    if k.op == 'tuple':
        for n, x in enumerate(k.a):
            if isinstance(x, T) and x.op == 'ite' and x.a[1].op == x.a[2].op and x.a[1].op in ('item', 'sub'):
                alt = [mk('tuple', *k.a[:n], y, *k.a[n + 1:]) for y in x.a[1:3]]
                return mk('ite', x.a[0], mk('sub', t.a[0], alt[0]), mk('sub', t.a[0], alt[1]))
    return None


def nanonly(c):
    """not-a-number only: infinities are not caught"""
    return {(re.sub('nonfinite:', 'nan:', q)): v for q, v in c.items()}


class Cov:
    def __init__(self, g=None):
        self.g = g or Guards()
        self.mp, self.mn, self.mq = {}, {}, {}

    # ---------------------------------------------------------------- leaves
    def side(self, key):
        """which antenna of a baseline a key belongs to: 0, 1 or ''"""
        if key.op == 'call' and str(key.a[0].a[-1] if key.a[0].op in ('global', 'attr') else '').split('.')[-1] in ('comply_ant', 'make_ant'):
            return self.side(key.a[1].a[0]) if key.a[1].a else ''
        if key.op == 'item' and key.a[0].op == 'call' and self.fname(key.a[0]) == 'split_bl':
            return str(key.a[1])
        if key.op == 'call' and key.a[0].op == 'attr' and key.a[0].a[1] == 'get' and key.a[1].a:        # looked up by antenna: snap[ant_to_snap.get(bl[0])]
            i = self.idx(key.a[1].a[0])
            return str(i) if i is not None else self.side(key.a[1].a[0])
        if key.op == 'sub' and key.a[0].op in ('param', 'attr') and re.search('snap|ant', str(key.a[0].a[-1]), re.I):
            i = self.idx(key.a[1])
            if i is not None:
                return str(i)
        if key.op == 'sub' and key.a[0].op == 'call' and self.fname(key.a[0]) == 'split_bl' and key.a[1].op == 'const':
            return str(key.a[1].a[0])
        if key.op == 'iter' and key.a[0].op == 'call' and self.fname(key.a[0]) == 'split_bl':
            return 'each'
        if key.op == 'iter':
            c = key.a[0]
            while c.op == 'call' and self.fname(c) in ('sorted', 'set', 'list', 'tuple', 'frozenset', 'reversed') and len(c.a[1].a) == 1:
                c = c.a[1].a[0]
            if c.op in ('tuple', 'list', 'set') and len(c.a) == 2:
                s = [self.side(x) for x in c.a]
                return 'each' if sorted(s) == ['0', '1'] else '+'.join(sorted(s)) if all(s) else ''
        if key.op == 'slice' and len(key.a) == 3 and key.a[2].op == 'const' and isinstance(key.a[2].a[0], int) and key.a[2].a[0] > 1:
            st = key.a[0].a[0] if key.a[0].op == 'const' else '?'
            return f'{st or 0}of{key.a[2].a[0]}'
        if key.op == 'tuple' and key.a and key.a[0].op == 'slice':
            return self.side(key.a[0])
        if key.op == 'tuple' and len(key.a) == 2:
            a, p = key.a
            ia, ip = self.idx(a), self.idx(p)
            if ia is not None:
                return str(ia) if ip is None or ip == ia else f'{ia}x{ip}'
        return ''

    def idx(self, t):
        """i for element i of a baseline key or of split_pol(...)"""
        if t.op == 'item' and t.a[1] in (0, 1):
            return t.a[1]
        if t.op == 'sub' and t.a[1].op == 'const' and t.a[1].a[0] in (0, 1):
            return t.a[1].a[0]
        return None

    def fname(self, t):
        f = t.a[0]
        return str(f.a[0]).split('.')[-1] if f.op in ('global', 'class') else f.a[1] if f.op == 'attr' else ''

    def origin(self, t, d=0):
        """<param> for the file or object that is read, '' when not unique"""
        if d > 12:
            return ''
        if t.op == 'param':
            return '' if t.a[0] in ('self', 'cls') else f'<{t.a[0]}>'
        if t.op == 'attr':
            return f'<.{t.a[1]}>' if t.a[0].op == 'param' and t.a[0].a[0] == 'self' else self.origin(t.a[0], d + 1)
        if t.op in ('sub', 'item', 'iter', 'enter', 'upd', 'mut'):
            return self.origin(t.a[0], d + 1)
        if t.op in ('loopvar', 'after'):
            return self.origin(t.a[2], d + 1)
        if t.op == 'ite':
            a, b = self.origin(t.a[1], d + 1), self.origin(t.a[2], d + 1)
            return a if a == b or not b else b if not a else ''
        if t.op == 'call':
            if t.a[0].op == 'attr' and t.a[0].a[0].op != 'global':
                r = self.origin(t.a[0].a[0], d + 1)
                if r:
                    return r
            return self.origin(t.a[1].a[0], d + 1) if t.a[1].a else ''
        return ''

    def label(self, t):
        """source label of a readable flag-like place, or None"""
        side, num = '', ''
        x = t
        for _ in range(40):
            if x.op == 'param':
                return x.a[0] + (('@' + side) if side else '')
            if x.op == 'attr':
                if FLAGGY.search(x.a[1]) or WGTY.search(x.a[1]):
                    b = x.a[0]
                    while b.op in ('sub', 'item', 'iter', 'enter', 'upd', 'mut', 'loopvar', 'after'):
                        b = b.a[0] if b.op not in ('loopvar', 'after') else b.a[2]
                    own = b.a[0] if b.op == 'param' and b.a[0] not in ('self', 'cls') else ''
                    return own + '.' + x.a[1] + (('@' + side) if side else '')
                x = x.a[0]
            elif x.op == 'sub':
                side = side or self.side(x.a[1])
                x = x.a[0]
            elif x.op == 'item':
                if x.a[0].op == 'call' and self.fname(x.a[0]) in READS and x.a[1] in (1, 2):
                    return f'read{self.origin(x.a[0])}.{("", "flags", "nsamples")[x.a[1]]}' + (('@' + side) if side else '')
                if x.a[0].op == 'call' and isinstance(x.a[1], int) and self.fname(x.a[0]) not in KNOWN:
                    num = f'#{x.a[1]}'
                x = x.a[0]
            elif x.op in ('iter', 'enter', 'maybe'):
                x = x.a[-1] if x.op == 'maybe' else x.a[0]
            elif x.op in ('upd', 'mut'):
                x = x.a[0]
            elif x.op == 'loopvar':
                x = x.a[2]
            elif x.op == 'after':
                x = x.a[3]
            elif x.op == 'ite':
                la, lb = self.label(x.a[1]), self.label(x.a[2])
                l = la if la == lb else lb if x.a[1].op in ('unbound', 'const') else la if x.a[2].op in ('unbound', 'const') else None
                return (l + (('@' + side) if side and '@' not in l else '')) if l else None
            elif x.op == 'call':
                nm = self.fname(x)
                ls = []
                for y in list(x.a[1].a) + list(x.a[2].a[1::2]):
                    if isinstance(y, T):
                        l = self.label(y) if y.op not in ('const', 'call', 'bin', 'comp', 'cmp') else None
                        if l and (FLAGGY.search(l) or WGTY.search(l)):
                            ls.append(l.split('@')[0])
                if x.a[0].op == 'attr' and not ls:
                    l = self.label(x.a[0].a[0])
                    if l and nm in ('values', 'items', 'get', 'keys', 'pop', 'copy'):
                        return l
                    if FLAGGY.search(nm):
                        return f'{nm}(){num}' + (('@' + side) if side else '')
                if ls or FLAGGY.search(nm):
                    return f'{nm}({",".join(sorted(set(ls)))}){num}' + (('@' + side) if side else '')
                return None
            else:
                return None
        return None

    def place(self, t):
        """a readable location (not a computed value): parameter, attribute, element of one, result of a call that is not interpreted"""
        while True:
            if t.op in ('sub', 'item', 'attr', 'iter', 'enter', 'upd', 'mut'):
                if t.op == 'attr':
                    p = self.objroot(t.a[0])
                    if p is not None:
                        return True
                t = t.a[0]
            elif t.op in ('loopvar', 'after'):
                t = t.a[2]
            else:
                break
        return t.op in ('param', 'global', 'opaque', 'maybe', 'default') or t.op == 'call' and self.fname(t) not in KNOWN

    def objroot(self, t, d=0):
        """the parameter an object reference stands for on every path, or None"""
        if d > 12:
            return None
        if t.op == 'param':
            return t
        if t.op in ('loopvar', 'after'):
            return self.objroot(t.a[2], d + 1)
        if t.op in ('upd', 'mut'):
            return self.objroot(t.a[0], d + 1)
        if t.op == 'ite':
            x = self.objroot(t.a[1], d + 1)
            return x if x is not None and x is self.objroot(t.a[2], d + 1) else None
        return None

    def leaf(self, t):
        l = self.label(t)
        if l and (FLAGGY.search(l)):
            return {l: FULL}
        return {}

    def wleaf(self, t):
        l = self.label(t)
        if l and (WGTY.search(l)) and not FLAGGY.search(l):
            return {l: FULL}
        return {}

    # ---------------------------------------------------------------- coverage
    def pos(self, t):
        if t not in self.mp:
            self.mp[t] = {}
            self.mp[t] = self._pos(t)
        return self.mp[t]

    def neg(self, t):
        if t not in self.mn:
            self.mn[t] = {}
            self.mn[t] = self._neg(t)
        return self.mn[t]

    def nan(self, t):
        """sources that force t to be not-a-number"""
        if t not in self.mq:
            self.mq[t] = {}
            self.mq[t] = self._nan(t)
        return self.mq[t]

    def _nan(self, t):
        o, a = t.op, t.a
        if o == 'global':
            return {TOP: FULL} if str(a[0]).split('.')[-1].lower() in ('nan',) else {}
        if o == 'const':
            return {TOP: FULL} if isinstance(a[0], float) and a[0] != a[0] else {}
        if o == 'upd':
            v = self.nan(a[2])
            if TOP in v and v[TOP] == FULL:
                return union(self.nan(a[0]), self.mask(a[1], self.nan))
            return union(self.nan(a[0]), v)
        if o == 'bin':
            return union(self.nan(a[1]), self.nan(a[2]))
        if o == 'un':
            return self.nan(a[1])
        if o == 'call':
            nm = self.fname(t)
            xs = ([a[0].a[0]] if a[0].op == 'attr' else []) + list(a[1].a)
            if nm in ('items', 'values'):
                return self.nanleaf(xs[0])
            if nm == 'get' and len(xs) > 1 and a[0].op == 'attr':
                return self.nan(mk('sub', xs[0], xs[1]))
            if nm in ('repeat', 'tile') and xs:
                return self.nan(xs[0])
            if nm == 'where' and len(xs) == 3:
                c, x, y = xs
                return union(inter(self.pos(c), self.nan(x)), inter(self.neg(c), self.nan(y)))
            if nm in ('full', 'full_like') and len(xs) >= 2:
                return self.nan(xs[1])
            if nm in ('nanmean', 'nanmedian', 'nanstd', 'nanmax', 'nanmin') and xs:
                return {('all:' + q if q != TOP and not q.startswith('all:') else q): v for q, v in self.nan(xs[0]).items()}
            if nm in ('mean', 'median', 'std', 'sum', 'max', 'min') and xs:
                return {('any:' + q if q != TOP and not q.startswith('any:') else q): v for q, v in self.nan(xs[0]).items()}
            if nm in PASS_CALLS - {'nan_to_num'} | {'conj', 'conjugate', 'abs', 'exp', 'log', 'angle', 'real', 'imag'} and xs:
                return self.nan(xs[0])
            return {}
        if o in ('param', 'attr'):
            return self.nanleaf(t)
        r = self.common(t, self.nan, None)
        return r if r is not None else self.nanleaf(t)

    def nanleaf(self, t):
        if not self.place(t):
            return {}
        l = self.label(t)
        base = (l or '').split('@')[0].rsplit('.')[-1]
        return {'nonfinite:' + l: FULL} if l and '(' not in l and '<' not in l and NANDATA.search(base) and not FLAGGY.search(base) and not WGTY.search(base) else {}

    def common(self, t, me, zero):
        """structure shared by both polarities; zero = constant that is 'always covered'"""
        o, a = t.op, t.a
        if o == 'const':
            v = a[0]
            return {TOP: FULL} if v is not None and not isinstance(v, (str, bytes)) and bool(v) is not zero else {}
        if o == 'ite':
            c = self.g.f(a[0])
            x, y = me(a[1]), me(a[2])
            if a[1].op == 'unbound':
                return y
            if a[2].op == 'unbound':
                return x
            if a[0].op == 'exc':
                return inter(x, y) if False else union(x, y)
            return union(gate(x, c), gate(y, Not(c)))
        if o == 'loopvar':
            return me(a[2])
        if o == 'after':
            return me(a[2]) if a[3].op == 'unbound' or True else {}
        if o == 'enter':
            return me(a[0])
        if o == 'upd':
            return self.upd(t, me)
        if o == 'mut':
            b = me(a[0])
            if a[1] in ('append', 'extend', 'update', 'add') and a[2].a:
                v = me(a[2].a[0])
                return v if not b or TOP in b or a[0].op in ('list', 'dict', 'set') else union(b, v)
            return b
        if o in ('list', 'tuple', 'set') and a:
            ds = [me(x) for x in a]
            return union(*ds)
        if o == 'dict':
            return union(*[me(x) for x in a[1::2]]) if a else {}
        if o == 'comp':
            return me(a[1].a[-1])
        if o == 'slice':
            return {}
        if o == 'sub' or o == 'item':
            q = key_cases(t) if o == 'sub' else None
            if q is not None:
                return me(q)
            base = a[0]
            if base.op == 'ite':
                return me(mk('ite', base.a[0], mk(o, base.a[1], a[1]), mk(o, base.a[2], a[1])))
            x = base
            while x.op in ('loopvar', 'after'):
                x = x.a[2] if x.op == 'loopvar' else x.a[2]
            if x.op == 'upd' and o == 'sub':
                if x.a[1] is a[1]:
                    return me(x.a[2])
                return union(me(x.a[2]) if x.a[2].op != 'const' else {}, me(mk('sub', x.a[0], a[1]))) if x.a[0].op in ('dict', 'call', 'upd') else me(mk('sub', x.a[0], a[1]))
            if x.op in ('list', 'tuple') and o == 'item' and isinstance(a[1], int) and a[1] < len(x.a):
                return me(x.a[a[1]])
            if self.place(x):
                return None
            sd = self.side(a[1]) if o == 'sub' and isinstance(a[1], T) else ''
            if sd in ('0', '1', 'each') or 'of' in sd:
                return {(q if q == TOP or '@' in q else q + '@' + sd): v for q, v in me(x).items()}
            return me(x)
        return None

    def upd(self, t, me):
        b, k, v = t.a
        bc, vc = me(b), me(v)
        root = b
        while root.op in ('upd', 'loopvar', 'after', 'mut'):
            root = root.a[0] if root.op in ('upd', 'mut') else root.a[2]
        fresh = root.op in ('dict', 'list', 'comp') or root.op == 'call' and self.fname(root) in (
            'zeros', 'zeros_like', 'empty', 'empty_like', 'ones', 'ones_like', 'full', 'full_like', 'DataContainer', 'dict', 'defaultdict', 'OrderedDict', 'odict', 'array')
        if TOP in vc and vc[TOP] == FULL:
            # a masked set: what selects the elements is covered too
            return union({q: w for q, w in bc.items()}, self.mask(k, me))
        if fresh:
            bc = {q: w for q, w in bc.items() if q != TOP}
            if root.op == 'call' and self.fname(root) not in ('DataContainer', 'dict', 'defaultdict', 'OrderedDict', 'odict') and bc and any(
                    x.op in ('cmp', 'and', 'or', 'not', 'un', 'bin', 'param', 'attr', 'call') for x in (k.a if k.op == 'tuple' else (k,))):
                kept = self.neg(k) if k.op != 'tuple' else {}        # a masked store over what was there: only what the mask leaves out, or the new value covers, stays
                bc = {q: w for q, w in bc.items() if q in kept or q in vc}
            return union(bc, vc)
        return union(inter(bc, vc), {q: w for q, w in vc.items()}) if False else union(bc, vc) if k.op not in ('slice',) else inter(bc, vc)

    def mask(self, k, me):
        ks = k.a if k.op == 'tuple' else (k,)
        out = {}
        for x in ks:
            if x.op in ('slice', 'const'):
                continue
            out = union(out, self.pos(x))
            if x.op not in ('param', 'iter', 'item', 'index'):
                c = self.g.canon(x)
                out = union(out, {f'[{c}]': FULL} if len(c) < 60 else {})
        return {q: w for q, w in out.items() if q != TOP}

    def _pos(self, t):
        r = self.common(t, self.pos, False)
        if r is not None:
            return r
        o, a = t.op, t.a
        if o == 'bin':
            if a[0] in ('BitOr', 'Add', 'BitXor'):
                return union(self.pos(a[1]), self.pos(a[2])) if a[0] != 'BitXor' else {}
            if a[0] in ('BitAnd', 'Mult'):
                return inter(self.pos(a[1]), self.pos(a[2]))
            if a[0] == 'Sub' and a[1].op == 'const':
                return self.neg(a[2])
            return {}
        if o in ('un', 'not'):
            x = a[1] if o == 'un' else a[0]
            if o == 'un' and a[0] != 'Invert':
                return self.pos(x)
            return self.neg(x)
        if o == 'or':
            return union(*[self.pos(x) for x in a])
        if o == 'and':
            r = self.pos(a[0])
            for x in a[1:]:
                r = inter(r, self.pos(x))
            return r
        if o == 'cmp':
            op, x, y = a
            if op == '==' and y.op == 'const' and y.a[0] in (0, False) or op == '<=' and y.op == 'const' and y.a[0] == 0:
                return self.neg(x)
            if op == '<' and x.op == 'const' and x.a[0] == 0:
                return self.pos(y)
            return {}
        if o == 'call':
            return self.call(t, True)
        return self.leaf(t)

    def _neg(self, t):
        r = self.common(t, self.neg, True)
        if r is not None:
            return r
        o, a = t.op, t.a
        if o == 'bin':
            if a[0] in ('BitAnd', 'Mult'):
                return union(self.neg(a[1]), self.neg(a[2]))
            if a[0] in ('BitOr', 'Add'):
                return inter(self.neg(a[1]), self.neg(a[2]))
            if a[0] in ('Div', 'FloorDiv', 'Pow', 'MatMult'):
                return self.neg(a[1])
            if a[0] == 'Sub' and a[1].op == 'const':
                return self.pos(a[2])
            return {}
        if o in ('un', 'not'):
            x = a[1] if o == 'un' else a[0]
            if o == 'un' and a[0] != 'Invert':
                return self.neg(x)
            return self.pos(x)
        if o == 'and':
            return union(*[self.neg(x) for x in a])
        if o == 'or':
            r = self.neg(a[0])
            for x in a[1:]:
                r = inter(r, self.neg(x))
            return r
        if o == 'cmp':
            op, x, y = a
            if op == '<' and x.op == 'const' and x.a[0] == 0:       # w > 0
                return self.neg(y)
            if op == '==' and y.op == 'const' and y.a[0] in (0, False):
                return self.pos(x)
            return {}
        if o == 'call':
            return self.call(t, False)
        return self.wleaf(t)

    def call(self, t, p):
        me = self.pos if p else self.neg
        fn, args, kws = t.a[0], t.a[1].a, dict(zip(t.a[2].a[0::2], t.a[2].a[1::2]))
        nm = self.fname(t)
        meth = fn.op == 'attr'
        xs = ([fn.a[0]] if meth else []) + list(args)
        if fn.op == 'global' and fn.a[0].split('.')[-1] == 'reduce' and 'logical_or' in fn.a[0]:
            nm = 'any'
        if meth and nm == 'get' and args and not self.place(fn.a[0]):
            return me(mk('sub', fn.a[0], args[0]))
        if nm in ('logical_or', 'bitwise_or', 'add', 'union', 'maximum', 'mask_or') and len(xs) >= 2:
            r = me(xs[0])
            for x in xs[1:]:
                r = union(r, me(x)) if p else inter(r, me(x))
            return r
        if nm in ('logical_and', 'bitwise_and', 'multiply', 'minimum') and len(xs) >= 2:
            r = me(xs[0])
            for x in xs[1:]:
                r = inter(r, me(x)) if p else union(r, me(x))
            return r
        if nm in ('logical_not', 'invert') and xs:
            return self.neg(xs[0]) if p else self.pos(xs[0])
        if nm == 'where' and len(xs) == 3:
            c, x, y = xs
            return union(inter(self.pos(c), me(x)), inter(self.neg(c), me(y)), inter(me(x), me(y)))
        if nm in ('zeros', 'zeros_like'):
            return {} if p else {TOP: FULL}
        if nm in ('ones', 'ones_like'):
            return {TOP: FULL} if p else {}
        if nm in ('full', 'full_like') and len(xs) >= 2:
            return me(xs[1])
        if nm in ('all', 'min', 'amin', 'nanmin', 'prod') and xs:
            ax = 'axis' in kws or len(xs) > 1
            r = me(xs[0])
            if nm in ('prod',) and not p or not p:
                return {('any:' + q if q != TOP and not q.startswith('any:') else q): v for q, v in r.items()}
            return {('all:' + q if q != TOP and not q.startswith('all:') else q): v for q, v in r.items()}
        if nm in ('any', 'max', 'amax', 'sum', 'nansum', 'nanmax', 'mean', 'count_nonzero', 'cumsum') and xs:
            r = me(xs[0])
            if p:
                return {('any:' + q if q != TOP and not q.startswith('any:') else q): v for q, v in r.items()}
            return {('all:' + q if q != TOP and not q.startswith('all:') else q): v for q, v in r.items()}
        if nm == 'isclose' and len(xs) >= 2 and xs[1].op == 'const' and xs[1].a[0] == 0:
            return self.neg(xs[0]) if p else self.pos(xs[0])
        if nm == 'isnan' and xs:
            return nanonly(self.nan(xs[0])) if p else {}
        if nm == 'isfinite' and xs:
            return {} if p else self.nan(xs[0])
        if nm == 'nan_to_num' and not p and xs:
            return union(nanonly(self.nan(xs[0])), self.neg(xs[0]))
        if nm in PASS_CALLS and xs:
            if nm in ('append',) and len(xs) > 1:
                return union(me(xs[0]), me(xs[1]))
            r = me(xs[0])
            if r:
                return r
            if xs[0].op in ('param', 'attr', 'sub', 'item', 'iter'):
                return self.leaf(xs[0]) if p else self.wleaf(xs[0])
            return r
        if nm in ('MaskedArray', 'masked_array', 'masked_where') and 'mask' in kws and not p:
            return self.pos(kws['mask'])
        return self.leaf(t) if p else self.wleaf(t)
