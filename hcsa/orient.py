"""Baseline orientation: values looked up under a reversed baseline key, and what is conjugated or reversed to make up for it (C05)."""
import re
from .terms import T, mk, subterms, walk
from .guards import Guards, fatoms, strip_q
from .gaincov import Gains, conj, any_
from .gainrule import GSinks, enc, dec
from .covrule import units, rewritten, implied
from .flagcov import Cov, FULL, f_or, f_and

LABELNOT = re.compile(r'verbose|clobber|_file|hist|tol|freq|lst_|time|kwargs|axis|window', re.I)


def slice_rev(k):
    """[::-1] or [1::-1]"""
    return k.op == 'slice' and len(k.a) == 3 and k.a[2].op == 'const' and k.a[2].a[0] == -1 and k.a[1].op == 'const' and k.a[1].a[0] is None and k.a[0].op == 'const' and k.a[0].a[0] in (None, 1)


def rev(k, cov, d=0):
    """the key is a reversed baseline"""
    if d > 6:
        return False
    if k.op == 'call':
        n = cov.fname(k)
        if n == 'reverse_bl':
            return not (k.a[1].a and rev(k.a[1].a[0], cov, d + 1))
        if n in ('tuple', 'list', 'comply_bl', 'make_bl', 'conj_pol', 'get_polstr_index', 'antpair2ind') and k.a[1].a:
            return n == 'conj_pol' or rev(k.a[1].a[0], cov, d + 1)
        return False
    if k.op == 'sub':
        if k.a[1].op == 'slice':
            return slice_rev(k.a[1]) != rev(k.a[0], cov, d + 1)
        return rev(k.a[1], cov, d + 1) if k.a[0].op != 'param' or k.a[1].op in ('call', 'sub') else False
    if k.op == 'tuple' and len(k.a) >= 2:
        a, b = k.a[0], k.a[1]
        if a.op == b.op == 'item' and a.a[0] is b.a[0] and (a.a[1], b.a[1]) == (1, 0):
            return True
        if a.op == b.op == 'sub' and a.a[0] is b.a[0] and a.a[1].op == b.a[1].op == 'const' and (a.a[1].a[0], b.a[1].a[0]) == (1, 0):
            return True
        return any(rev(x, cov, d + 1) for x in k.a if x.op in ('call', 'sub'))
    if k.op == 'iter':
        b = k.a[0]
        if b.op == 'comp':
            return rev(b.a[1].a[-1], cov, d + 1) if isinstance(b.a[1], T) and b.a[1].a and isinstance(b.a[1].a[-1], T) else False
    if k.op in ('loopvar', 'after'):
        return rev(k.a[2], cov, d + 1)
    return False


def polrev(k, cov):
    """the key selects the polarization of the reversed baseline on its own"""
    for s in subterms(k):
        if s.op == 'call' and cov.fname(s) == 'conj_pol':
            return True
        if s.op in ('sub', 'item') and s.a[0].op == 'call' and cov.fname(s.a[0]) == 'reverse_bl':
            i = s.a[1] if s.op == 'item' else s.a[1].a[0] if s.a[1].op == 'const' else None
            if i in (2, -1):
                return True
    return False


class Orient(Gains):
    def side(self, t):
        r, p = False, False
        while True:
            if t.op == 'sub':
                r ^= rev(t.a[1], self.cov)
                p = p or polrev(t.a[1], self.cov)
                t = t.a[0]
            elif t.op == 'call' and t.a[0].op == 'attr' and t.a[0].a[1] in ('get', 'get_data', 'get_flags', 'get_nsamples', 'antpair2ind') and t.a[1].a:
                r ^= rev(t.a[1].a[0], self.cov)
                t = t.a[0].a[0]
            elif t.op in ('item', 'iter', 'enter', 'upd', 'mut', 'attr'):
                t = t.a[0]
            elif t.op in ('loopvar', 'after'):
                t = t.a[2]
            else:
                return ('rev' if r else '') + ('+pol' if p else '')

    def leaf(self, t):
        l = self.label(t)
        if l is None or not self.keep(l):
            return {}
        return {(l, self.side(t), False): {1: FULL}}

    def call(self, t):
        nm = self.fname(t)
        if nm in ('reverse_bl', 'conj_pol') and t.a[1].a:
            return conj(self.f(t.a[1].a[0]))
        return super().call(t)

    def _f(self, t):
        if t.op == 'sub' and slice_rev(t.a[1]):
            return conj(self.f(t.a[0]))
        return super()._f(t)


def keep(l):
    return not LABELNOT.search(l) and len(l) < 60


def spread(k):
    """the keys a loop variable takes when it runs over a written-out collection"""
    if k.op == 'iter' and k.a[0].op in ('tuple', 'list', 'set'):
        xs = [x for x in k.a[0].a if isinstance(x, T)]
        return xs or [k]
    return [k]


class OSinks(GSinks):
    def __init__(self, P, f, api, g):
        self.members, self.handed = {}, set()
        super().__init__(P, f, api, g)

    def prepare(self, g):
        self.G = Orient(g, self.cov, keep)

    def key_side(self, k):
        return ('rev' if rev(k, self.cov) else '') + ('+pol' if polrev(k, self.cov) else '')

    def event(self, e):
        super().event(e)
        for t in list(e.pc) + [x for x in (getattr(e, 'val', None),) if isinstance(x, T)] + [x for x in (getattr(e, 'args', None) or []) if isinstance(x, T)]:
            for s in subterms(t):
                if s.op == 'cmp' and s.a[0] in ('in', 'not in', 'notin'):
                    self.member(s, e)

        if e.kind == 'call' and not isinstance(e.fn, type(None)):
            for a in e.args:
                l = self.G.label(a)
                if l:
                    self.handed.add(l)

    def handed_on(self, l):
        """the container is passed to a routine of the package that may test it in either order"""
        return l in self.handed

    def member(self, s, e):
        k, c = s.a[1], s.a[2]
        l = self.G.label(c) or self.g.canon(c)[:60]
        for v in spread(k):
            self.members.setdefault(l, {}).setdefault('rev' if rev(v, self.cov) else '', e.where)


NOISE = re.compile(r'\(\)$|^\(|zip\(|argwhere|OrderedDict|^read\(|File\(')


def relevant(sink, d):
    return {k: m for k, m in d.items() if ('rev' in k[1] or k[2] or '@rev' in sink) and not NOISE.search(k[0])}


def mine(P, api):
    g = Guards()
    out = {}
    for f in units(P, api):
        s = OSinks(P, f, api, g)
        rec = {}
        for sink, d in sorted(s.tab.items()):
            if (any('rev' in k[1] for k in d) or '@rev' in sink) and not NOISE.search(sink.split(' ')[-1].split('@')[0]):
                r = relevant(sink, d)
                if r:
                    rec[sink] = enc(r)
        mem = sorted(l for l, m in s.members.items() if len(m) == 2)
        if mem:
            rec['<either order>'] = mem
        if rec:
            out[f.short] = rec
    return out


def say(k):
    l, sd, c = k
    return ('conjugated/reversed ' if c else '') + l + (' looked up under the reversed baseline' if sd else '')


def judge(sink, old, new):
    rel = relevant(sink, new)
    labels = {k[0] for k in new}
    for k, m in old.items():
        if k not in new:
            flip = (k[0], k[1], not k[2])
            turn = (k[0], '' if k[1] else 'rev', k[2])
            if '+' in k[1] and (k[0], 'rev', k[2]) in new and (k[0], 'rev', k[2]) not in old:
                return f'{say(k)}: the polarization is not reversed with the antennas'
            if flip in new and flip not in old:
                return f'{say(k)} has become {say(flip)}'
            if turn in new and turn not in old:
                return f'{say(k)} has become {say(turn)}'
            if k[0] in labels:
                return f'{say(k)} is no longer used'
            continue
        o, n = any_(m), any_(new[k])
        if k[2] and 'iscomplexobj' in str(fatoms(o) - fatoms(n)) and any(re.search(r"'eq'.*\.dtype.*complex|'eq'.*complex.*\.dtype", str(x)) for x in fatoms(n) - fatoms(o)):
            return f'{say(k)}: complex values of another precision are no longer conjugated'
        if o == n or implied(o, n) or rewritten(fatoms(o), fatoms(n)):
            continue
        extra = [x for x in fatoms(n) if x not in set(fatoms(o))]
        if extra and all('iter<' in str(x) and ' in ' in str(x) for x in extra):
            continue                # which elements are taken, not in which orientation
        return f'{say(k)}: no longer under all the conditions under which it used to be'
    for k in rel:
        if k not in old and (k[0], k[1], not k[2]) in old and 'rev' in k[1]:
            return f'{say(k)} is used as well'
    return None


def reversal_ok(P, res):
    """reverse_bl exchanges the antennas and conjugates the polarization"""
    f = P.func('utils:reverse_bl')
    if f is None:
        return
    cov = Cov(Guards())
    for e in walk(P, f, inline=lambda h: h.name.startswith('_') and h.name != '_comply_vispol', max_depth=2).events:
        if e.kind == 'return' and e.depth == 0:
            res.count('returns of reverse_bl')
            for v in alternatives(e.val):
                if v.op == 'tuple' and len(v.a) in (2, 3):
                    bare = mk('tuple', *v.a[:2])
                    if not rev(bare, cov) or len(v.a) == 3 and not polrev(v.a[2], cov):
                        res.add('orientation', 'utils:reverse_bl|returned value', 'utils:reverse_bl does not return the reversed baseline', e.where)


def alternatives(v):
    return alternatives(v.a[1]) + alternatives(v.a[2]) if v.op == 'ite' else [v]


def compare(res, P, api, table):
    g = Guards()
    reversal_ok(P, res)
    fs = {f.short: f for f in units(P, api)}
    seen = 0
    for name, rec in sorted(table.items()):
        f = fs.get(name)
        if f is None:
            continue
        seen += 1
        s = OSinks(P, f, api, g)
        for sink, x in rec.items():
            if sink == '<either order>':
                for l in x:
                    res.count('membership tests in either order')
                    m = s.members.get(l)
                    if m is not None and len(m) == 1 and not s.handed_on(l):
                        only = 'reversed' if 'rev' in m else 'given'
                        res.add('one-order', f'{name}|{l}', f'{name}: membership in {l} is tested only for the {only} order of the baseline', next(iter(m.values())))
                continue
            res.count('values under reversed keys')
            if sink not in s.tab:
                if '@rev' in sink and sink.split('@')[0] in s.where:
                    res.add('reversed-store', f'{name}|{sink}', f'{name}: {sink.split('@')[0]} is no longer stored under the reversed baseline', s.where[sink.split('@')[0]])
                continue
            v = judge(sink, dec(x), s.tab[sink])
            if v:
                res.add('orientation', f'{name}|{sink}', f'{name}: {sink}: {v}', s.where.get(sink, f.where))
    return seen
