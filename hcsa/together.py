"""Companion arrays (data, flags, sample counts, weights, times, LSTs, ...) are cut, reordered and shifted together (C17).

selectors(unit): {array: set of selections applied to it}; a selection is a slice, mask, index array or reordering call.  Arrays recorded as
selected identically on the reviewed tree stay selected identically (whatever the selection is)."""
import ast
import re
from .terms import T, walk, subterms
from .covrule import units
from .flagcov import FLAGGY, WGTY
from .report import contract

COMP = re.compile(r'data|flag|nsamp|wgt|weight|times?$|lsts?$|lsts?_|times_|inpainted|gain|model|freq|qual|vis|auto|chisq|resid|noise|stack|arr|^d$|^w$|^f$|^n$|cnt|count|antpos|pol|_idx|_inds$|list|obj')
NOT = re.compile(r'shape|file|path|name|_by_|config|kwargs|thresh|scale|cutoff|tol$|^n_|^N[a-z]|extrapol|interpol')
REORDER = {'take', 'roll', 'flip', 'flipud', 'fliplr', 'delete', 'compress', 'repeat', 'tile', 'swapaxes', 'moveaxis', 'rollaxis', 'array_split', 'split', 'rot90', 'pad', 'searchsorted_'}
ITER = {'zip', 'enumerate'}


def root(t, n=0):
    """name of the array or container a term is part of"""
    path = ''
    while n < 60:
        n += 1
        if t.op == 'param':
            return t.a[0] + path
        if t.op == 'attr':
            if t.a[1] in ('T', 'real', 'imag', 'values'):
                t = t.a[0]
                continue
            if t.a[0].op == 'param' and t.a[0].a[0] in ('self', 'cls'):
                return '.' + t.a[1] + path
            path = '.' + t.a[1] + path
            t = t.a[0]
        elif t.op in ('sub', 'iter', 'enter', 'upd', 'mut', 'item'):
            if t.op == 'item' and t.a[0].op == 'call':
                f = t.a[0].a[0]
                nm = str(f.a[-1]).split('.')[-1]
                if nm.startswith('read') or nm.startswith('load') or nm in ('build_datacontainers',):
                    return f'{nm}[{t.a[1]}]' + path
                return None
            t = t.a[0]
        elif t.op in ('loopvar', 'after'):
            t = t.a[2]
        elif t.op == 'call' and t.a[0].op == 'attr' and t.a[0].a[1] in ('copy', 'astype', 'values', 'items'):
            t = t.a[0].a[0]
        elif t.op == 'call' and str(t.a[0].a[-1]).split('.')[-1] in ('copy', 'deepcopy', 'asarray', 'array') and t.a[1].a:
            t = t.a[1].a[0]
        elif t.op == 'ite':
            a, b = root(t.a[1], n), root(t.a[2], n)
            return a if a == b or b is None else b if a is None else None
        else:
            return None
    return None


def roots(t):
    """arrays combined element by element"""
    if t.op == 'bin':
        return roots(t.a[1]) + roots(t.a[2])
    if t.op == 'un':
        return roots(t.a[1])
    r = root(t)
    return [r] if r else []


def comp(r):
    n = r.split('.')[-1]
    return bool((COMP.search(n) or FLAGGY.search(n) or WGTY.search(n) or '[' in r) and not NOT.search(n))


def key_like(k):
    """subscript that names an entry (baseline, antenna, string), not a selection along an axis"""
    if k.op == 'tuple':
        return not any(x.op == 'slice' or x.op == 'const' and x.a[0] is Ellipsis or not key_like(x) for x in k.a)
    if k.op == 'const':
        return not isinstance(k.a[0], int) or isinstance(k.a[0], bool)
    if k.op in ('iter', 'param', 'item', 'fstr', 'attr'):
        return True
    if k.op == 'sub':
        return key_like(k.a[0]) or k.a[0].op in ('iter', 'param', 'item')
    if k.op == 'call':
        n = str(k.a[0].a[-1]).split('.')[-1]
        return n not in ('where', 'argsort', 'nonzero', 'arange', 'isin', 'isfinite', 'isnan', 'searchsorted', 'array', 'logical_not', 'logical_and', 'logical_or', 'argmax', 'argmin', 'unique')
    return False


def trivial(k):
    ks = k.a if k.op == 'tuple' else (k,)
    return all(x.op == 'slice' and all(y.op == 'const' and y.a[0] is None for y in x.a) or x.op == 'const' and x.a[0] in (None, Ellipsis) for x in ks)


def selectors(P, f, api):
    w = walk(P, f, inline=lambda h: h.short not in api and not h.name.startswith('__'), max_depth=2)
    out, where, seen = {}, {}, set()

    def put(r, s, wh):
        if r and comp(r):
            if s not in out.setdefault(r, set()):
                out[r].add(s)
                where[(r, s)] = wh

    def node(s, wh):
        if s.op == 'sub' and isinstance(s.a[1], T) and not key_like(s.a[1]) and not trivial(s.a[1]):
            for r in roots(s.a[0]):
                for k in (s.a[1].a if s.a[1].op == 'tuple' else (s.a[1],)):
                    if not trivial(k):
                        put(r, ('sub', k), wh)
        elif s.op == 'call':
            nm = str(s.a[0].a[-1]).split('.')[-1]
            if nm in REORDER:
                m = s.a[0].op == 'attr' and s.a[0].a[0].op != 'global'
                x = s.a[0].a[0] if m else s.a[1].a[0] if s.a[1].a else None
                rest = s.a[1].a if m else s.a[1].a[1:]
                if x is not None:
                    for y in (x.a if x.op == 'list' else (x,)):
                        put(root(y), (nm, tuple(rest), s.a[2]), wh)

    for e in w.events:
        for v in [e.val, e.res] + list(e.args or ()) + [x for _, x in (e.kws or ())]:
            if isinstance(v, T):
                for s in subterms(v):
                    if s not in seen:
                        seen.add(s)
                        node(s, e.where)
        if e.kind == 'call' and e.args and not e.depth:
            # several arrays handed over in a list for the same treatment
            for i, x in enumerate(e.args):
                for lst in lists(x):
                    rs = [root(y) for y in lst]
                    if sum(1 for r in rs if r and comp(r)) >= 2:
                        for r in rs:
                            put(r, ('listed', str(e.name).split('.')[-1], i), e.where)
    return out, where


def lists(x):
    if x.op == 'list':
        return [x.a]
    if x.op == 'bin' and x.a[0] == 'Add':
        a, b = lists(x.a[1]), lists(x.a[2])
        return [tuple(a[0]) + tuple(b[0] if b else ())] if a else b
    return []


def mine(P, api):
    t = {}
    for f in units(P, api):
        out, _ = selectors(P, f, api)
        names = sorted(out)
        for i, a in enumerate(names):
            for b in names[i + 1:]:
                n = len(out[a] & out[b])
                if n:
                    t.setdefault(f.short, []).append([a, b, n, len(out[a] - out[b]), len(out[b] - out[a])])
    return t


def compare(res, P, api, table):
    for f in units(P, api):
        rec = table.get(f.short)
        if not rec:
            continue
        out, where = selectors(P, f, api)
        res.count('routines')
        for a, b, n, na, nb in rec:
            res.count('pairs of companion arrays')
            x, y = out.get(a, set()), out.get(b, set())
            res.count('common selections', len(x & y))
            if len(x & y) < n and (len(x - y) > na or len(y - x) > nb):
                p, q, d = (a, b, x - y) if len(x - y) > na else (b, a, y - x)
                s = max(d, key=lambda s: where[(p, s)])
                res.add('apart', f'{f.short}|{a},{b}', f'{f.short}: {p} is cut, reordered or shifted in a way that {q}, which belongs to it, no longer is', where[(p, s)])


# ---- the same for local arrays, by the text of the selection inside one routine

SEL = re.compile(r'mask|ind|slc|slice|sel|keep|good|order|perm|argsort|chan|^s$|^sl$|^w$|tind|find|idx|band|spw|flagged|^wh$')


def axis_like(k):
    if isinstance(k, ast.Tuple):
        return any(axis_like(x) for x in k.elts)
    if isinstance(k, ast.Slice):
        return not (k.lower is None and k.upper is None and k.step is None)
    if isinstance(k, (ast.Compare, ast.BinOp, ast.UnaryOp, ast.BoolOp)):
        return True
    if isinstance(k, ast.Constant):
        return isinstance(k.value, int) and not isinstance(k.value, bool)
    if isinstance(k, ast.Name):
        return bool(SEL.search(k.id))
    return False


def bases(b):
    while True:
        if isinstance(b, ast.Subscript):
            b = b.value
        elif isinstance(b, ast.Call) and ast.unparse(b.func).split('.')[-1] in ('array', 'asarray', 'copy', 'deepcopy') and b.args:
            b = b.args[0]
        elif isinstance(b, ast.BinOp):
            return bases(b.left) + bases(b.right)
        elif isinstance(b, ast.UnaryOp):
            b = b.operand
        else:
            break
    if isinstance(b, ast.Attribute) and isinstance(b.value, (ast.Name, ast.Attribute)) or isinstance(b, ast.Name):
        n = ast.unparse(b)
        return [n] if comp(n.split('.')[-1]) or n in ('dc', 'self') else []
    if isinstance(b, (ast.Call, ast.ListComp)):
        return ['<built>']
    return []


def texts(fn):
    """{local array: {(selection, stored?)}}"""
    out, where = {}, {}
    for n in ast.walk(fn):
        if not isinstance(n, ast.Subscript) or not axis_like(n.slice):
            continue
        for b in bases(n.value):
            for k in (n.slice.elts if isinstance(n.slice, ast.Tuple) else [n.slice]):
                if axis_like(k):
                    s = ast.unparse(k), isinstance(n.ctx, ast.Store)
                    out.setdefault(b, set()).add(s)
                    where[(b, s)] = n.lineno
    return out, where


def mine_texts(P, api):
    t = {}
    for f in units(P, api):
        out, _ = texts(f.node)
        names = sorted(out)
        for i, a in enumerate(names):
            for b in names[i + 1:]:
                n = len(out[a] & out[b])
                if n and any(not re.fullmatch(r'-?[01]', s) for s, _ in out[a] & out[b]):
                    t.setdefault(f.short, []).append([a, b, n, len(out[a] - out[b]), len(out[b] - out[a])])
    return t


def new_helper(P, f, api, priv):
    """the routine calls a helper that the reviewed tree does not have"""
    known = {k.split(':')[1].split('.')[-1] for k in api} | {k.split(':')[1].split('.')[-1] for k in priv}
    mine = {g.name for g in P.funcs.values() if g.parent is None and g.module is f.module and g.name not in known}
    return any(isinstance(n, ast.Call) and ast.unparse(n.func).split('.')[-1] in mine for n in ast.walk(f.node))


def compare_texts(res, P, api, table):
    priv = contract('private.json')
    for f in units(P, api):
        rec = table.get(f.short)
        if not rec or new_helper(P, f, api, priv):
            continue
        out, where = texts(f.node)
        names = {ast.unparse(n) for n in ast.walk(f.node) if isinstance(n, (ast.Name, ast.Attribute))} | ({'<built>'} if '<built>' in out else set())
        for a, b, n, na, nb in rec:
            if a not in names or b not in names:
                continue
            x, y = out.get(a, set()), out.get(b, set())
            res.count('pairs of local arrays')
            if len(x & y) < n and (len(x - y) > na or len(y - x) > nb):
                p, q, d = (a, b, x - y) if len(x - y) > na else (b, a, y - x)
                s = max(d, key=lambda s: where[(p, s)])
                res.add('apart', f'{f.short}|{a},{b}', f'{f.short}: {p} is cut or filled at {s[0]}, {q}, which belongs to it, is not', f'{f.module.relpath}:{where[(p, s)]}')


# ---- arguments of one call

def arguments(fn):
    """{(callee, argument, argument): [numbers of calls with the same, with different selections, where]}"""
    out = {}
    for n in ast.walk(fn):
        if not isinstance(n, ast.Call):
            continue
        xs = [(str(i), a) for i, a in enumerate(n.args)] + [(k.arg, k.value) for k in n.keywords if k.arg]
        xs = [(k, frozenset(ast.unparse(q) for q in (a.slice.elts if isinstance(a.slice, ast.Tuple) else [a.slice]) if axis_like(q)) if isinstance(a, ast.Subscript) else frozenset(),
               isinstance(a, ast.Subscript)) for k, a in xs]
        c = ast.unparse(n.func).split('.')[-1]
        for j, (k, s, sub) in enumerate(xs):
            for q, r, sub2 in xs[j + 1:]:
                if (s or r) and sub and sub2:
                    rec = out.setdefault(f'{c}|{k}|{q}', [0, 0, 0, ''])
                    i = 0 if s == r else 1 if s <= r or r <= s else 2
                    rec[i] += 1
                    if i:
                        rec[3] = n.lineno
                elif s or r:
                    rec = out.setdefault(f'{c}|{k}|{q}', [0, 0, 0, ''])
                    rec[2] += 1
                    rec[3] = n.lineno
    return out


def mine_arguments(P, api):
    t = {}
    for f in units(P, api):
        a = {k: v[:3] for k, v in arguments(f.node).items() if v[0] or v[1]}
        if a:
            t[f.short] = a
    return t


def compare_arguments(res, P, api, table):
    for f in units(P, api):
        rec = table.get(f.short)
        if not rec:
            continue
        now = arguments(f.node)
        for k, (same, part, diff) in rec.items():
            v = now.get(k)
            if not v:
                continue
            res.count('pairs of arguments')
            if v[0] < same and v[1] + v[2] > part + diff or v[0] + v[1] < same + part and v[2] > diff:
                c, a, b = k.split('|')
                res.add('apart', f'{f.short}|{k}', f'{f.short}: {c} is given {a} and {b} with different selections', f'{f.module.relpath}:{v[3]}')
