"""Iterations over a collection with elements at its ends cut off by constants: for x in xs[1:], xs[:-1], range(1, n), range(n - 1)."""
import ast
from .core import Func

WRAP = {'enumerate', 'sorted', 'list', 'tuple', 'reversed', 'set', 'tqdm', 'iter'}


def num(n):
    try:
        v = ast.literal_eval(n)
    except Exception:
        return None
    return v if isinstance(v, int) and not isinstance(v, bool) else None


def trimmed(it):
    """(text of the collection or None for a range, class of cut) or None"""
    while isinstance(it, ast.Call) and isinstance(it.func, (ast.Name, ast.Attribute)) and ast.unparse(it.func).split('.')[-1] in WRAP and it.args:
        it = it.args[0]
    if isinstance(it, ast.Subscript) and isinstance(it.slice, ast.Slice):
        lo, hi = (num(x) if x is not None else 0 for x in (it.slice.lower, it.slice.upper))
        if it.slice.lower is not None and lo:
            return ast.unparse(it.value), 'first' if lo > 0 else 'all but last'
        if it.slice.upper is not None and hi is not None and hi != 2:       # bl[:2] are the antennas of a baseline
            return ast.unparse(it.value), 'last' if hi < 0 else 'all but first'
    if isinstance(it, ast.Call) and ast.unparse(it.func) in ('range', 'np.arange', 'numpy.arange'):
        a = it.args
        if len(a) >= 2 and (num(a[0]) or 0) > 0 and num(a[1]) is None:
            return None, 'first'
        hi = a[0] if len(a) == 1 else a[1] if len(a) >= 2 else None
        if isinstance(hi, ast.BinOp) and isinstance(hi.op, ast.Sub) and (num(hi.right) or 0) > 0:
            return None, 'last'
    return None


def lens(it):
    """text of X in range(.. len(X) - 1)"""
    for x in ast.walk(it):
        if isinstance(x, ast.BinOp) and isinstance(x.left, ast.Call) and ast.unparse(x.left.func) == 'len' and x.left.args:
            return ast.unparse(x.left.args[0])
    return None


def own(fn):
    st = list(fn.body)
    while st:
        n = st.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            st += list(ast.iter_child_nodes(n))


def iterations(fn):
    """(iterable, node, validates) of every loop and comprehension of a function"""
    for n in own(fn):
        if isinstance(n, ast.For):
            yield n.iter, n, any(isinstance(x, (ast.Raise, ast.Assert)) for s in n.body for x in ast.walk(s))
        elif isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for g in n.generators:
                yield g.iter, n, None


def tests(fn):
    """nodes whose value decides a rejection, and names used there"""
    nodes, names = set(), set()
    for n in own(fn):
        t = n.test if isinstance(n, ast.Assert) else n.test if isinstance(n, ast.If) and any(isinstance(s, ast.Raise) for s in n.body) else None
        if t is not None:
            for x in ast.walk(t):
                nodes.add(x)
                if isinstance(x, ast.Name):
                    names.add(x.id)
    for n in own(fn):
        if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id in names for t in n.targets):
            nodes.update(ast.walk(n.value))
    return nodes


def survey(f):
    """[(cut, validates, where, peeled)]"""
    out = []
    tn = None
    for it, n, val in iterations(f.node):
        t = trimmed(it)
        if t is None:
            continue
        if val is None:
            tn = tests(f.node) if tn is None else tn
            val = n in tn
        x, cut = t
        want = {'first': (0,), 'last': (-1,), 'all but first': (), 'all but last': ()}[cut]
        peeled = False
        for s in ast.walk(f.node):
            if isinstance(s, ast.Subscript):
                if num(s.slice) in want and want and (x is None and lens(it) in (None, ast.unparse(s.value)) or ast.unparse(s.value) == x):
                    peeled = True
                if isinstance(s.slice, ast.Slice) and s.slice not in (getattr(it, 'slice', None),) and x is not None and ast.unparse(s.value) == x and s is not it:
                    peeled = True
                if x is None and isinstance(s.slice, ast.BinOp) and lens(it) in (None, ast.unparse(s.value)):        # x[i], x[i + 1]: neighbours
                    peeled = True
        out.append((cut, bool(val), f'{f.module.relpath}:{it.lineno}', peeled))
    return out


def units(P, api):
    for f in sorted(P.funcs.values(), key=lambda f: f.short):
        if not f.module.is_script or f.parent is None:
            yield f


def mine(P):
    t = {}
    for f in units(P, None):
        for cut, val, w, p in survey(f):
            t[f.short] = t.get(f.short, 0) + 1
    return t


def compare(res, P, table, validating):
    total, base = {}, {}
    for k, n in table.items():
        base[k.split(':')[0]] = base.get(k.split(':')[0], 0) + n
    for f in units(P, None):
        total[f.short.split(':')[0]] = total.get(f.short.split(':')[0], 0) + len(survey(f))
    for f in units(P, None):
        s = survey(f)
        res.count('iterations examined for cut ends', sum(1 for _ in iterations(f.node)))
        if len(s) <= table.get(f.short, 0) or total[f.short.split(':')[0]] <= base.get(f.short.split(':')[0], 0):
            continue
        for cut, val, where, peeled in s:
            if peeled or validating and not val:
                continue
            res.add('check-trimmed' if validating else 'piece-trimmed', f'{f.short}|{cut}', f'{f.short}: an iteration leaves out elements at the end ({cut})', where)
