"""Stores into flags and weights that already hold values: does what is stored keep what was there?

A store flags[k] = v (or weights[k] = v) into a container that was given, read or already filled keeps the old content when v is set wherever the old flags[k] was set (v is zero wherever the old weight
was zero): |=, a union with the old value, a masked store of True, all-True, *=, a product with the old value, ...
"""
import ast
from .terms import T, mk, walk
from .guards import Guards
from .flagcov import Cov, FULL, TOP, FLAGGY, WGTY
from .covrule import units, base_name, clean

CREATE = {'zeros', 'zeros_like', 'empty', 'empty_like', 'ones', 'ones_like', 'full', 'full_like', 'dict', 'defaultdict', 'OrderedDict', 'odict', 'DataContainer', 'array', 'list', 'set', 'copy', 'deepcopy'}


class Old(Cov):
    def __init__(self, g, old):
        super().__init__(g)
        self.old = old

    def isold(self, t):
        while t.op in ('sub', 'item', 'iter', 'enter'):
            if t is self.old:
                return True
            t = t.a[0]
        return t is self.old

    def pos(self, t):
        return {'OLD': FULL} if self.isold(t) else super().pos(t)

    def neg(self, t):
        return {'OLD': FULL} if self.isold(t) else super().neg(t)


def filled(b):
    """the container may hold values from before this store, other than those of earlier steps of the same filling"""
    r = b
    while r.op in ('upd', 'mut', 'loopvar', 'after', 'enter'):
        r = r.a[0] if r.op in ('upd', 'mut', 'enter') else r.a[2]
    if r.op == 'ite':
        return filled(r.a[1]) or filled(r.a[2])
    if r.op in ('dict', 'list', 'set', 'const', 'unbound', 'lambda'):
        return r.op in ('dict', 'list') and bool(r.a)
    if r.op == 'call':
        n = str(r.a[0].a[-1]).split('.')[-1] if r.a[0].op in ('global', 'attr', 'class') else ''
        if n in ('DataContainer', 'dict', 'copy', 'deepcopy', 'odict', 'OrderedDict', 'array') and (r.a[1].a or r.a[0].op == 'attr'):
            x = r.a[1].a[0] if r.a[1].a else r.a[0].a[0]
            return x.op in ('comp', 'param', 'attr', 'sub', 'item') or filled(x)
        return n not in CREATE
    return True


def survey(P, f, api, g):
    """{(kind, label): [(keeps, where)]}"""
    w = walk(P, f, inline=lambda h: h.short not in api and not h.name.startswith('__'), max_depth=2)
    C = Cov(g)
    out = {}
    for e in w.events:
        if e.kind != 'setitem' or not isinstance(e.val, T):
            continue
        b, k, v = e.target, e.args[0], e.val
        l = C.label(b)
        name = l or base_name(e.node) or ''
        kind = 'flag' if FLAGGY.search(name) else 'weight' if WGTY.search(name) else None
        if kind is None or not filled(b) or l and clean(l) is None:
            continue
        l = clean(l).split('@')[0] if l else 'local'
        o = Old(g, mk('sub', b, k))
        c = o.pos(v) if kind == 'flag' else o.neg(v)
        keeps = 'OLD' in c or TOP in c and c[TOP] == FULL
        out.setdefault((kind, l), []).append((keeps, e.where))
    return out


def mine(P, api):
    g = Guards()
    t = {}
    for f in units(P, api):
        for (kind, l), rs in survey(P, f, api, g).items():
            t.setdefault(f.short, {})[f'{kind}|{l}'] = [sum(r[0] for r in rs), sum(not r[0] for r in rs)]
    return t


def compare(res, P, api, table, want):
    g = Guards()
    fs = {f.short: f for f in units(P, api)}
    for name, f in sorted(fs.items()):
        rec = table.get(name, {})
        for (kind, l), rs in survey(P, f, api, g).items():
            if kind != want:
                continue
            old = rec.get(f'{kind}|{l}')
            if old is None and l == 'local':
                continue
            res.count(f'stores into existing {kind}s', len(rs))
            if old is not None and old[1]:          # this routine also replaces (documented): only a store that kept turning into one that replaces counts
                n = sum(not r[0] for r in rs)
                if not (n > old[1] and len(rs) - n < old[0]):
                    continue
            for keeps, where in rs:
                if not keeps:
                    res.add(f'{kind}-overwritten', f'{name}|{l}', f'{name}: a store into {l if l != "local" else "existing " + kind + "s"} replaces what was there instead of adding to it', where)


# ---- constants stored into, and arrays created for, flags and weights

def bname(x):
    while isinstance(x, ast.Subscript):
        x = x.value
    return x.id if isinstance(x, ast.Name) else x.attr if isinstance(x, ast.Attribute) else ''


def level(v):
    """'on' | 'off' | None for a constant, or an array created with a constant"""
    if isinstance(v, ast.Constant) and v.value in (True, False, 0, 1) and v.value is not None:
        return 'on' if v.value else 'off'
    if isinstance(v, ast.Call):
        n = v.func.attr if isinstance(v.func, ast.Attribute) else v.func.id if isinstance(v.func, ast.Name) else ''
        if n in ('ones', 'ones_like'):
            return 'on'
        if n in ('zeros', 'zeros_like'):
            return 'off'
        if n in ('full', 'full_like') and len(v.args) > 1:
            return level(v.args[1])
        if n in ('astype', 'copy'):
            return level(v.func.value)
    if isinstance(v, ast.UnaryOp) and isinstance(v.op, (ast.Not, ast.Invert)):
        l = level(v.operand)
        return {'on': 'off', 'off': 'on'}.get(l)
    if isinstance(v, (ast.DictComp,)):
        return level(v.value)
    if isinstance(v, (ast.ListComp, ast.GeneratorExp)):
        return level(v.elt)
    return None


def constants(P):
    """module -> {(kind, how, level): [where]}"""
    out = {}
    for m in P.modules.values():
        rec = out.setdefault(m.relpath, {})
        for x in ast.walk(m.tree):
            pairs = []
            if isinstance(x, ast.Assign):
                pairs = [(t, x.value) for t in x.targets]
            elif isinstance(x, ast.AnnAssign) and x.value is not None:
                pairs = [(x.target, x.value)]
            for t, v in pairs:
                n = bname(t)
                kind = 'flag' if FLAGGY.search(n) else 'weight' if WGTY.search(n) else None
                l = level(v)
                if kind and l and (isinstance(t, ast.Subscript) or isinstance(v, (ast.Call, ast.DictComp, ast.UnaryOp))):
                    rec.setdefault((kind, l), []).append(f'{m.relpath}:{x.lineno} {n}')
    return out


def mine_constants(P):
    return {m: {f'{k}|{l}': sorted(w.split(' ')[1] for w in ws) for (k, l), ws in r.items()} for m, r in constants(P).items() if r}


def compare_constants(res, P, table, want):
    good, bad = ('on', 'off') if want == 'flag' else ('off', 'on')
    now = constants(P)
    for m, rec in table.items():
        if m not in now:
            continue
        og, ob = rec.get(f'{want}|{good}', []), rec.get(f'{want}|{bad}', [])
        ng, nb = now[m].get((want, good), []), now[m].get((want, bad), [])
        res.count(f'constants stored into {want}s', len(ng) + len(nb))
        if len(ng) < len(og) and len(nb) > len(ob):
            lost = [n for n in og if n not in [w.split(' ')[1] for w in ng] or og.count(n) > [w.split(' ')[1] for w in ng].count(n)]
            more = [w for w in nb if w.split(' ')[1] in lost]
            if more:
                what = 'set' if want == 'flag' else 'zero'
                res.add(f'{want}-constant', f'{m}|{more[-1].split(" ")[1]}', f'{m}: {more[-1].split(" ")[1]}, which used to be {what} here, is now stored the other way round', more[-1].split(' ')[0])
