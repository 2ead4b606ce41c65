"""Gain-algebra obligations: collection of sinks, mining, comparison (C06)."""
import re
from fractions import Fraction
from .core import Func, Cls
from .terms import walk, T, tnot
from .guards import Guards, Not, fatoms
from .flagcov import Cov, FULL, f_or, f_and
from .covrule import simplify, implied, rewritten, units, norm, base_name
from .gaincov import Gains, union, gate

GAINY = re.compile(r'gain|^self$|^g$|^g0|^g_|^gi$|^gj$|g0_', re.I)
CPLX = re.compile(r'gain|vis|model|data|ratio|^g$|^g0|^g_|phasor|^u$|\bself\b|sol', re.I)
NOT = re.compile(r'wgt|weight|flag|freq|time|nsample|convention|file|shape|_inds?$|path|tol|units|scale|exponent|ants?$|times|pols?$|lsts|info|noise|nchan|chisq|_type|keys|bls|reds|positions|antpos|'
                 r'metadata|hist|verbose|inplace|_name', re.I)

SKIP = re.compile(r'flag|wgt|weight|nsample|reds?_|_red|_map|noise|rho|avg_autos', re.I)
SKIPF = re.compile(r'interp_peak|trim_model|^noise:|^flag_utils:|abs_amp_lincal|OmnicalSolver')


def keep(l):
    l = re.sub('<.*?>', '', l)
    return bool(CPLX.search(l)) and not NOT.search(l)


class GSinks:
    def __init__(self, P, f, api, g):
        self.P, self.f, self.g = P, f, g
        self.cov = Cov(g)
        self.prepare(g)
        self.tab, self.where, self.sides = {}, {}, {}
        w = walk(P, f, inline=lambda h: h.short not in api and not h.name.startswith('__'), max_depth=2)
        self.rej = set()
        for e in w.events:
            if e.kind == 'raise' and e.pc:
                self.rej.add(tnot(e.pc[-1]))
            elif e.kind == 'assert':
                self.rej.add(e.val)
        for e in w.events:
            self.event(e)
        self.tab = {s: {k: {n: simplify(c) for n, c in m.items()} for k, m in d.items()} for s, d in self.tab.items()}

    def prepare(self, g):
        self.G = Gains(g, self.cov, keep)

    def key_side(self, k):
        return self.cov.side(k)

    def guard(self, e):
        f = FULL
        for c in e.pc:
            if c.op in ('in_loop', 'exc') or c in self.rej:
                continue
            f = f_and(f, self.g.f(c))
        return f

    def put(self, sink, e, v):
        d = self.G.f(v)
        if d:
            self.tab[sink] = union(self.tab.get(sink, {}), gate(d, self.guard(e)))
        self.where.setdefault(sink, e.where)

    def event(self, e):
        if e.kind == 'setitem':
            l = self.G.label(e.target)
            if l and not l.startswith('('):
                s = self.key_side(e.args[0]) if e.args else ''
                self.put('store ' + l + ('@' + s if s else ''), e, e.val)
            else:
                nm = base_name(e.node)
                if nm:
                    s = self.key_side(e.args[0]) if e.args else ''
                    self.put('local ' + nm + ('@' + s if s else ''), e, e.val)
        elif e.kind == 'setattr':
            self.put('attribute ' + e.name, e, e.val)
        elif e.kind == 'return' and e.depth == 0:
            vs = e.val.a if e.val.op == 'tuple' else (e.val,)
            for i, v in enumerate(vs):
                self.put(f'returned value {i + 1} of {len(vs)}', e, v)
        elif e.kind == 'call' and str(e.name).endswith('.at') and len(e.args) >= 3:
            nm = base_name(e.node.args[0])
            if nm:
                k = e.args[1]
                self.put(f'local {nm}' + (f'@{k.a[0]}' if k.op == 'param' else ''), e, e.args[2])
        elif e.kind == 'call' and isinstance(e.fn, (Func, Cls)):
            fn = e.fn.find('__init__') if isinstance(e.fn, Cls) else e.fn
            if isinstance(fn, Func):
                ps = list(fn.pos_params)
                if fn.cls is not None and not fn.is_static and ps:
                    ps = ps[1:]
                for k, v in list(zip(ps, e.args)) + [(k, v) for k, v in e.kws if k != '**']:
                    if keep(k) and not fn.name.startswith('_'):
                        self.put(f'argument {k} of {fn.name}', e, v)


def wanted(d):
    """the sink combines gains (or a gain and visibilities) with a definite antenna, conjugation or division"""
    if any(len(m) > 2 for m in d.values()):
        return False
    return any(c or min(m) < 0 or sd in ('0', '1') for (l, sd, c), m in d.items())


def enc(d):
    return [[list(k), [[str(e), c] for e, c in sorted(m.items())]] for k, m in sorted(d.items())]


def dec(x):
    return {tuple(k): {Fraction(e): norm(c) for e, c in m} for k, m in x}


def mine(P, api):
    g = Guards()
    out = {}
    for f in units(P, api):
        if SKIPF.search(f.short):
            continue
        s = GSinks(P, f, api, g)
        rec = {sink: enc(d) for sink, d in sorted(s.tab.items()) if wanted(d) and not SKIP.search(sink)}
        if rec:
            out[f.short] = rec
    return out


def say(k, m=None):
    l, s, c = k
    t = l + {'': '', '0': ' of the first antenna', '1': ' of the second antenna', 'each': ' of either antenna'}.get(s, f' [{s}]')
    return ('conj ' if c else '') + t


def judge(old, new):
    """None or text"""
    lo, ln = {k[0] for k in old}, {k[0] for k in new}
    for k, m in old.items():
        if k not in new:
            same = [q for q in new if q[0] == k[0] and q not in old]
            if same:
                return f'{say(k)} has become {", ".join(say(q) for q in sorted(same))}'
            if k[0] in ln:
                return f'{say(k)} no longer takes part'
            if ln <= lo and ln:
                return f'{say(k)} no longer takes part'
            continue
        n = new[k]
        extra = [e for e in n if e not in m]
        lost = [e for e in m if e not in n]
        if extra and lost or extra and len(n) > len(m):
            return f'{say(k)} enters with power {", ".join(map(str, extra))} instead of {", ".join(map(str, m))}'
        if lost:
            return f'{say(k)} no longer enters with power {", ".join(map(str, lost))}'
        for e, c in m.items():
            if n[e] == c or implied(c, n[e]):
                continue
            oa, na = fatoms(c), fatoms(n[e])
            if rewritten(oa, na):
                continue
            return f'{say(k)} enters with power {e} under other conditions than before'
    for k in new:
        if k not in old and k[0] in lo:
            return f'{say(k)} now takes part as well'
    return None


def compare(res, P, api, table):
    g = Guards()
    fs = {f.short: f for f in units(P, api)}
    seen = 0
    for name, rec in sorted(table.items()):
        f = fs.get(name)
        if f is None:
            continue
        seen += 1
        s = GSinks(P, f, api, g)
        for sink, x in rec.items():
            res.count('obligations')
            if sink not in s.tab:
                res.count('output no longer formed here')
                continue
            old = dec(x)
            v = judge(old, s.tab[sink])
            res.count('factors', len(old))
            if v is None:
                res.count('discharged')
            else:
                res.add('gain-algebra', f'{name}|{sink}', f'{name}: {sink}: {v}', s.where.get(sink, f.where))
    return seen
