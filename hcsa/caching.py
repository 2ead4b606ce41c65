"""Values kept in a cache: what they are computed from is part of the key.  Results gathered as they complete are not ordered by completion."""
import ast
import re
from .terms import T, walk, subterms
from .covrule import units

CACHE = re.compile(r'cache|memo', re.I)
DONE = {'as_completed', 'imap_unordered'}


def roots(t):
    out = set()
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'param':
            if x.a[0] not in ('self', 'cls'):
                out.add(x.a[0])
            continue
        if x.op == 'attr' and x.a[0].op == 'param' and x.a[0].a[0] in ('self', 'cls'):
            out.add('.' + x.a[1])
            continue
        todo += [y for y in x.a if isinstance(y, T)]
    return {r for r in out if not CACHE.search(r)}


def name_of(t):
    while t.op in ('upd', 'mut', 'loopvar', 'after', 'ite', 'enter'):
        if t.op == 'ite':
            n = name_of(t.a[1])
            return n if n else name_of(t.a[2])
        t = t.a[0] if t.op in ('upd', 'mut', 'enter') else t.a[2]
    return t.a[0] if t.op == 'param' else t.a[1] if t.op == 'attr' else t.a[0].split('.')[-1] if t.op == 'global' else ''


def stores(P, f, api):
    """[(cache, inputs of the value that are not inputs of the key, where)]"""
    w = walk(P, f, inline=lambda h: h.short not in api and not h.name.startswith('__'), max_depth=2)
    for e in w.events:
        if e.kind != 'setitem' or not isinstance(e.val, T):
            continue
        n = name_of(e.target) or ''
        if not CACHE.search(str(n)) or e.args[0].op == 'const':
            continue
        yield n, roots(e.val) - roots(e.args[0]), e.where


def mine(P, api):
    t = {}
    for f in units(P, api):
        for n, r, _ in stores(P, f, api):
            t.setdefault(f.short, {}).setdefault(n, set()).update(r)
    return {f: {n: sorted(r) for n, r in x.items()} for f, x in t.items()}


def compare(res, P, api, table):
    for f in units(P, api):
        for n, r, where in stores(P, f, api):
            res.count('stores into caches')
            old = table.get(f.short, {}).get(n)
            extra = r - set(old or ())
            if old is None and f.short.split(':')[1].startswith('_'):
                continue
            if extra:
                res.add('cache-key', f'{f.short}|{n}', f'{f.short}: what is kept in {n} depends on {", ".join(sorted(extra))}, the key it is found by does not: a later call gets the result of other input', where)


def completion(res, P):
    for m in P.modules.values():
        par = {c: n for n in ast.walk(m.tree) for c in ast.iter_child_nodes(n)}
        for n in ast.walk(m.tree):
            if not (isinstance(n, ast.Call) and ast.unparse(n.func).split('.')[-1] in DONE):
                continue
            res.count('gatherings in order of completion')
            p, where = par[n], f'{m.relpath}:{n.lineno}'
            bad = None
            if isinstance(p, ast.Call) and ast.unparse(p.func) in ('enumerate', 'zip', 'list', 'tuple', 'map'):
                bad = f'{ast.unparse(p.func)}() numbers the results in the order in which they happened to finish'
            elif isinstance(p, ast.comprehension):
                q = par[p]
                out = par.get(q)
                ok = isinstance(q, (ast.DictComp, ast.SetComp)) or isinstance(out, ast.Call) and ast.unparse(out.func) in ('sorted', 'dict', 'set', 'any', 'all', 'max', 'min')
                bad = None if ok else 'the results are listed in the order in which they happened to finish'
            elif isinstance(p, ast.For) and p.iter is n:
                counters = {ast.unparse(s.target) for s in ast.walk(p) if isinstance(s, ast.AugAssign)}
                for s in ast.walk(p):
                    if isinstance(s, ast.Call) and isinstance(s.func, ast.Attribute) and s.func.attr in ('append', 'extend', 'put'):
                        lst = ast.unparse(s.func.value)
                        fn = p
                        while fn in par and not isinstance(fn, ast.FunctionDef):
                            fn = par[fn]
                        srt = any(isinstance(c, ast.Call) and (ast.unparse(c.func) == 'sorted' and c.args and ast.unparse(c.args[0]) == lst or ast.unparse(c.func) == lst + '.sort') for c in ast.walk(fn))
                        if not srt:
                            bad = f'{lst} collects the results in the order in which they happened to finish'
                    if isinstance(s, ast.Subscript) and ast.unparse(s.slice) in counters:
                        bad = f'{ast.unparse(s)} is found by the order in which results happened to finish'
            if bad:
                res.add('completion-order', f'{m.relpath}|{ast.unparse(n)}', f'{m.relpath}: {bad}', where)
