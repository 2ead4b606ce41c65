"""Constant choices in calls between routines of the package (propagate_flags=True, gain_convention='divide', ...), omitted options counted with their default."""
import ast, re
from .core import Func, Cls
from .terms import T, walk
from .covrule import units

NAMES = {'C07': re.compile(r'flag|propagate|mask'),
         'C21': re.compile(r'flag|mask|nsample|wgt|weight|^noise'),
         'C06': re.compile(r'convention|conjug|^power$|^invert|sqrt|divide')}


def target(P, fn):
    if isinstance(fn, Func):
        return fn
    if isinstance(fn, Cls):
        return fn.methods.get('__init__') if hasattr(fn, 'methods') else None
    return None


def consts(v, d=0):
    """constants a value may be; '?' for anything else"""
    if v.op == 'const':
        return {repr(v.a[0])}
    if v.op == 'un' and v.a[1].op == 'const':
        return {f'{v.a[0]}{v.a[1].a[0]!r}'}
    if v.op == 'ite' and d < 8:
        return consts(v.a[1], d + 1) | consts(v.a[2], d + 1)
    if v.op in ('loopvar', 'after') and d < 8:
        return consts(v.a[2], d + 1) | {'?'}
    if v.op == 'unbound':
        return set()
    return {'?'}


def survey(P, f, api, rx):
    """(callee, parameter) -> {constant: where}"""
    w = walk(P, f, inline=lambda h: h.short not in api and not h.name.startswith('__'), max_depth=2)
    out = {}
    for e in w.events:
        if e.kind != 'call':
            continue
        t = target(P, e.fn)
        if t is None or (t.short not in api and t.name != '__init__'):
            continue
        pos = [p for p in t.pos_params if p not in ('self', 'cls')]
        given = dict(zip(pos, e.args or ()))
        star = any(x.op == 'star' for x in e.args or ())
        for k, v in e.kws or ():
            if k == '**':
                star = True
            else:
                given[k] = v
        defaults = t.defaults if hasattr(t, 'defaults') else {}
        for p in t.params:
            if not rx.search(p):
                continue
            if p in given:
                cs = consts(given[p])
            elif star:
                cs = {'?'}
            else:
                d = defaults.get(p)
                cs = {repr(d.value)} if isinstance(d, ast.Constant) else {'?'}
            for c in cs:
                out.setdefault((t.short, p), {}).setdefault(c, e.where)
    return out


def mine(P, api, prop):
    t = {}
    for f in units(P, api):
        for (c, p), vs in survey(P, f, api, NAMES[prop]).items():
            t.setdefault(f.short, {})[f'{c}|{p}'] = sorted(vs)
    return t


def compare(res, P, api, table, prop):
    for f in units(P, api):
        rec = table.get(f.short)
        if not rec:
            continue
        now = survey(P, f, api, NAMES[prop])
        for key, old in rec.items():
            vs = now.get(tuple(key.split('|')))
            if not vs:
                continue
            res.count('constant option choices')
            if '?' in old and '?' not in vs and len(old) > 1:
                v, where = sorted(vs.items())[0]
                res.add('option-choice', f'{f.short}|{key}|{v}', f'{f.short}: {key.split("|")[0]} is always called with {key.split("|")[1]}={v}; it used to depend on the input', where)
                continue
            for v, where in vs.items():
                if v != '?' and v not in old:
                    res.add('option-choice', f'{f.short}|{key}|{v}', f'{f.short}: {key.split("|")[0]} is called with {key.split("|")[1]}={v}, not {" or ".join(old)}', where)
