"""Which flags and weights keep a sample of the data out of each average, fit or filter.

cover(t): {data source: {flag or weight source: formula}}: wherever the flag is set (weight zero) under the formula, no occurrence of the
data source contributes to t.  A data source that is absent does not occur in t.
Every reduction (sum, mean, fit, filter, ... or call of another routine that gets data) is a sink.
"""
import re
from .core import Func, Cls
from .terms import T, walk, subterms
from .guards import Guards, Not
from .flagcov import Cov, nanonly, FULL, TOP, FLAGGY, WGTY, PASS_CALLS, READS, union, inter, gate
from .covrule import clean, stronger, implied, simplify, rewritten, norm, units, OPTION
from .guards import fatoms

DATA = re.compile(r'data|model|gain|vis|auto|noise|ratio|resid|^d$|stack|waterfall|phs|phase|chisq|qual|corr|^arr|array|^sol|vals|samples?$|wf|mdl|std|zscore')
NOTDATA = re.compile(r'freq|time|lst|file|name|path|antpos|shape|bls|keys|reds|pols?$|meta|dtype|index|_bl$|units|type|ants?$|dir|antpairs|history|convention|config|std_cut|^rephase|solver|^share_|^N[a-z]|^n_|^fix_|_conv|conv_|_list$|_avg$|blacklist|^get_|_grid_|^xvals|crit|^phs0|^ref_phs')
ELEM = PASS_CALLS | {'conj', 'conjugate', 'exp', 'log', 'log10', 'angle', 'real', 'imag', 'square', 'power', 'multiply', 'divide', 'true_divide', 'add', 'subtract', 'negative', 'unwrap', 'nan_to_num',
                     'diff', 'ediff1d', 'round', 'sin', 'cos', 'mod', 'where', 'fftshift', 'ifftshift', 'flip', 'flipud', 'fliplr', 'sort', 'items', 'values', 'outer', 'zip', 'enumerate', 'MaskedArray', 'masked_array',
                     'masked_where', 'masked_invalid', 'append', 'HERAData', 'reversed', 'sorted', 'iter', 'next', 'deepcopy', 'setdefault', 'pop', 'compress', 'delete', 'einsum_path', 'broadcast_arrays', 'diag', 'float64', 'complex128', 'resize', 'cumsum'}
REDUCE = {'sum', 'nansum', 'mean', 'nanmean', 'average', 'median', 'nanmedian', 'std', 'var', 'nanstd', 'nanvar', 'dot', 'einsum', 'matmul', 'tensordot', 'convolve', 'fft', 'ifft', 'fft2', 'ifft2', 'lstsq', 'solve'}
NODATA = {'isnan', 'isfinite', 'isinf', 'len', 'shape', 'keys', 'zeros_like', 'ones_like', 'empty_like', 'full_like', 'bls', 'pols', 'antpairs', 'ants', 'size', 'ndim', 'isinstance', 'hasattr', 'get_antpairs', 'get_ants',
          'any', 'all', 'allclose', 'isclose', 'array_equal', 'iscomplexobj', 'isscalar', 'print', 'echo', 'str', 'repr', 'type', 'id', 'format', 'max', 'min', 'nanmax', 'nanmin', 'argmax', 'argmin', 'argsort', 'unique', 'range', 'arange', 'getattr',
          'nonzero', 'count_nonzero', 'issubdtype', 'warn', 'closeto', 'amax', 'amin'}
SKIPATTR = {'shape', 'size', 'ndim', 'dtype', 'freqs', 'times', 'lsts', 'bls', 'antpos', 'pols', 'Nfreqs', 'Ntimes', 'history', 'Nbls', 'times_by_bl', 'lsts_by_bl', 'antpairs', 'data_antpos', 'vis_units', 'reds', 'mask'}
SKIPCALLEE = re.compile(r'^(_?write|_?save|update|_?check|echo|print|get_reds|infer_|_linear|append|history|partial_write|warn|read|load|split_|join_|comply|reverse_|filter_reds|get_pos_reds|__|DataContainer|RedDataContainer|polnum|polstr|plot|setattr|startswith|eval$|at$|replace|set$|init$|slice|select|_trim_status|_adjust_info|fill_dict_nans|form_gains|__|merge_gains$|_expand_|_get_ans0|zeropad)')
ABSENT = {TOP: FULL}


def both(x, y):
    """occurrences in two places"""
    return {d: inter(x.get(d, ABSENT), y.get(d, ABSENT)) for d in set(x) | set(y)}


def more(x, c):
    c = {k: v for k, v in c.items() if k != TOP}
    return {d: union(v, c) for d, v in x.items()} if c else x


class DataCov:
    def __init__(self, g):
        self.c = Cov(g)
        self.g = g
        self.memo = {}

    def dlabel(self, t):
        """name of a data source read at t, or None"""
        x = t
        for _ in range(40):
            if x.op == 'param':
                return self.isdata(x.a[0])
            if x.op == 'attr':
                if x.a[1] in SKIPATTR:
                    return None
                b = x.a[0]
                while b.op in ('sub', 'item', 'iter', 'enter', 'upd', 'mut', 'loopvar', 'after'):
                    b = b.a[0] if b.op not in ('loopvar', 'after') else b.a[2]
                if b.op == 'ite':
                    b = self.c.objroot(b) or b
                own = b.a[0] if b.op == 'param' and b.a[0] not in ('self', 'cls') else ''
                n = self.isdata(x.a[1])
                if n:
                    return own + '.' + n
                x = x.a[0]
            elif x.op in ('sub', 'iter', 'enter'):
                x = x.a[0]
            elif x.op == 'item':
                if x.a[0].op == 'call' and self.c.fname(x.a[0]) in READS:
                    return f'read{self.c.origin(x.a[0])}.data' if x.a[1] == 0 else None
                x = x.a[0]
            else:
                return None
        return None

    def callroot(self, t):
        while t.op in ('sub', 'item', 'iter', 'enter', 'upd', 'mut', 'loopvar', 'after'):
            t = t.a[0] if t.op not in ('loopvar', 'after') else t.a[2]
        return t.op == 'call' and self.c.fname(t) not in READS

    @staticmethod
    def isdata(n):
        return n if DATA.search(n) and not NOTDATA.search(n) and not FLAGGY.search(n) and not WGTY.search(n) and not OPTION.search(n) else None

    def cover(self, t):
        if t not in self.memo:
            self.memo[t] = {}
            self.memo[t] = self._cover(t)
        return self.memo[t]

    def masks(self, t, neg=True):
        ks = t.a if t.op == 'tuple' else (t,)
        out = {}
        for k in ks:
            if k.op not in ('slice', 'const', 'iter') and not (k.op == 'item' and k.a[1] == 0):
                out = union(out, {q: v for q, v in (self.c.neg(k) if neg else self.c.pos(k)).items() if q != TOP})
        return out

    def _cover(self, t):
        o, a = t.op, t.a
        if o in ('const', 'global', 'cmp', 'and', 'or', 'not', 'slice', 'func', 'lambda', 'unbound'):
            return {}
        if o == 'bin':
            x, y = self.cover(a[1]), self.cover(a[2])
            if not x and not y:
                return {}
            if a[0] in ('Mult', 'MatMult', 'BitAnd'):
                x = more(x, self.c.neg(a[2])) if x else x
                y = more(y, self.c.neg(a[1])) if y else y
            elif a[0] in ('Div', 'FloorDiv', 'Pow'):
                y = more(y, self.c.neg(a[1])) if y else y
            return both(x, y)
        if o == 'un':
            return self.cover(a[1])
        if o == 'ite':
            x, y = self.cover(a[1]), self.cover(a[2])
            if a[1].op == 'unbound':
                return y
            if a[2].op == 'unbound':
                return x
            if not x and not y:
                return {}
            if a[0].op == 'exc':
                return both(x, y)
            c = self.g.f(a[0])
            return {d: union(gate(x.get(d, ABSENT), c), gate(y.get(d, ABSENT), Not(c))) for d in set(x) | set(y)}
        if o == 'upd':
            b, k, v = a
            x, y = self.cover(b), self.cover(v)
            if x:
                x = more(x, self.masks(k, False))
            if y:
                y = more(y, self.masks(k))
            return both(x, y)
        if o == 'mut':
            x = self.cover(a[0])
            for y in a[2].a if isinstance(a[2], T) else ():
                if isinstance(y, T):
                    x = both(x, self.cover(y))
            return x
        if o == 'loopvar':
            return self.cover(a[2])
        if o == 'after':
            return both(self.cover(a[2]), self.cover(a[3]))
        if o == 'comp':
            return self.cover(a[1].a[-1])
        if o in ('list', 'tuple', 'set', 'dict'):
            out = {}
            for x in (a[1::2] if o == 'dict' else a):
                if isinstance(x, T):
                    out = both(out, self.cover(x))
            return out
        if o == 'sub':
            d = self.dlabel(t) if self.c.place(t) else None
            if d:
                base = {d: {}}
            elif self.c.place(t) and not self.callroot(t):
                return {}
            else:
                base = self.cover(a[0])
            return more(base, self.masks(a[1])) if base and isinstance(a[1], T) else base
        if o in ('param', 'attr', 'item', 'iter', 'enter', 'maybe'):
            if o == 'attr' and a[1] in SKIPATTR:
                return {}
            if o == 'item' and a[0].op in ('tuple', 'list') and isinstance(a[1], int) and a[1] < len(a[0].a):
                return self.cover(a[0].a[a[1]])
            if o == 'item' and a[0].op == 'call' and self.c.fname(a[0]) not in READS and not (a[0].a[0].op == 'attr' and self.c.fname(a[0]) in ('items', 'values', 'popitem')):
                return self.cover(a[0])
            if self.c.place(t):
                d = self.dlabel(t)
                return {d: {}} if d else {}
            return self.cover(a[0]) if isinstance(a[0], T) else {}
        if o == 'call':
            return self.call(t)
        return {}

    def parts(self, t):
        fn, args, kws = t.a[0], t.a[1].a, t.a[2].a
        xs = [(None, fn.a[0])] if fn.op == 'attr' and fn.a[0].op != 'global' else []
        return xs + [(None, x) for x in args] + [(k, v) for k, v in zip(kws[0::2], kws[1::2]) if isinstance(v, T)]

    def call(self, t):
        nm = self.c.fname(t)
        if nm in NODATA:
            return {}
        ps = self.parts(t)
        if nm in READS:
            return {}
        if nm == 'where' and len(ps) == 3:
            (_, c), (_, x), (_, y) = ps
            cx, cy = self.cover(x), self.cover(y)
            if cx:
                cx = more(cx, self.c.neg(c))
            if cy:
                cy = more(cy, self.c.pos(c))
            return both(cx, cy)
        if nm in ('multiply',) and len(ps) == 2:
            (_, x), (_, y) = ps
            return both(more(self.cover(x), self.c.neg(y)), more(self.cover(y), self.c.neg(x)))
        covs = [self.cover(x) for _, x in ps]
        if not any(covs):
            return {}
        out = {}
        if nm in ELEM:
            for i, c in enumerate(covs):
                out = both(out, c)
            if nm in ('MaskedArray', 'masked_array', 'masked_where'):
                m = dict((k, v) for k, v in ps if k).get('mask')
                m = m if m is not None else ps[0][1] if nm == 'masked_where' else None
                return more(out, self.c.pos(m)) if m is not None else out
            return out
        return self.reduction(nm, ps, covs)

    def reduction(self, nm, ps, covs=None):
        covs = covs or [self.cover(x) for _, x in ps]
        out = {}
        ws = [self.weight(k, x, c) for (k, x), c in zip(ps, covs)]
        for i, c in enumerate(covs):
            if not c:
                continue
            x = ps[i][1]
            c = more(c, self.c.neg(x))
            if nm.startswith('nan'):
                c = more(c, nanonly(self.c.nan(x)))
            for j, w in enumerate(ws):
                if j != i and w:
                    c = more(c, w)
            out = both(out, c)
        return out

    def weight(self, k, x, c):
        """what an argument that carries weights or flags keeps out"""
        if k and (FLAGGY.search(k) or k in ('mask', 'where')):
            return self.c.neg(x) if k == 'where' else union(self.c.pos(x), self.c.neg(x))
        if c and not (k and WGTY.search(k)):
            return {}
        return union(self.c.neg(x), self.c.pos(x))


def strip(c):
    """{source: formula} with stable labels only"""
    out = {}
    for k, v in c.items():
        if k == TOP:
            continue
        k = clean(k)
        if k is None:
            continue
        k = re.sub(r'^(all:|any:)', '', k)
        out[k] = v if k not in out else ('or', out[k], v)
    return out


def running(t):
    """a sum that is being accumulated in a loop (or an element of one)"""
    while t.op in ('sub', 'upd'):
        t = t.a[0]
    return t.op == 'loopvar' or t.op == 'call' and t.a[0].op == 'attr' and t.a[0].a[1] == 'get' and t.a[0].a[0].op == 'loopvar'


def survey(P, f, api, g):
    """(class of operation, data source) -> [(coverage, where)]"""
    w = walk(P, f, inline=lambda h: h.short not in api and not h.name.startswith('__'), max_depth=2)
    D = DataCov(g)
    out, seen = {}, set()

    def put(nm, d, c, where):
        if TOP in c and c[TOP] == FULL:
            return
        c = strip(c)
        rec = out.setdefault((nm, d), [])
        if all(c != x for x, _ in rec):
            rec.append((c, where))

    def node(s, where):
        if s.op == 'call':
            nm = D.c.fname(s)
            if not nm or nm in ELEM or nm in NODATA or nm in READS or SKIPCALLEE.match(nm):
                return
            ps = D.parts(s)
        elif s.op == 'bin' and s.a[0] == 'MatMult':
            nm, ps = 'dot', [(None, s.a[1]), (None, s.a[2])]
        elif s.op == 'bin' and s.a[0] in ('Add', 'Sub') and (running(s.a[1]) or s.a[0] == 'Add' and running(s.a[2])):
            nm, ps = 'sum', [(None, s.a[2] if running(s.a[1]) else s.a[1])]
        else:
            return
        covs = [D.cover(x) for _, x in ps]
        if not any(covs):
            return
        for d, c in D.reduction(nm, ps, covs).items():
            put('reduce' if nm in REDUCE else nm, d, c, where)

    for e in w.events:
        for v in [e.val, e.res] + list(e.args or ()) + [x for _, x in (e.kws or ())]:
            if isinstance(v, T):
                for s in subterms(v):
                    if s not in seen:
                        seen.add(s)
                        node(s, e.where)
    for k in out:
        out[k] = [({s: simplify(x) for s, x in c.items()}, wh) for c, wh in out[k]]
    return out


def geq(new, old, acc=()):
    """coverage new is at least old: None, or the source that is missing"""
    for s, gd in old.items():
        have = [new[k] for k in stronger(s) if k in new]
        if not have:
            return s
        h = have[0] if len(have) == 1 else ('or', *have)
        if h != gd and not implied(gd, h) and not rewritten(fatoms(gd), fatoms(h)):
            return s
    return None


def mine(P, api):
    g = Guards()
    out = {}
    for f in units(P, api):
        rec = {}
        for (nm, d), cs in survey(P, f, api, g).items():
            if any(c for c, _ in cs):
                rec[f'{nm}|{d}'] = sorted(({k: c[k] for k in sorted(c)} for c, _ in cs), key=str)
        if rec:
            out[f.short] = rec
    return out


def compare(res, P, api, table):
    g = Guards()
    fs = {f.short: f for f in units(P, api)}
    for name, rec in sorted(table.items()):
        f = fs.get(name)
        if f is None:
            continue
        now = survey(P, f, api, g)
        for key, olds in rec.items():
            nm, d = key.split('|')
            cur = now.get((nm, d))
            if not cur:
                continue
            olds = [{k: norm(v) for k, v in o.items()} for o in olds]
            res.count('data into averages, fits and filters')
            for c, where in cur:
                bad = [geq(c, o) for o in olds]
                if all(b is not None for b in bad):
                    what = 'an average or fit' if nm == 'reduce' else nm
                    res.add('data-unweighted', f'{name}|{key}|{bad[0]}', f'{name}: {d} enters {what} without the samples marked by {bad[0]} being left out', where)
                    break
            else:
                for o in olds:
                    if o and not any(geq(c, o) is None for c, _ in cur):
                        s = next(geq(c, o) for c, _ in cur)
                        what = 'an average or fit' if nm == 'reduce' else nm
                        res.add('data-unweighted', f'{name}|{key}|{s}', f'{name}: {d} is no longer weighted by {s} on its way into {what}', cur[0][1])
                        break
