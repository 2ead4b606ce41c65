"""Calls of routines that validate their input: made under at least the recorded conditions."""
import ast, re
from .core import Func
from .terms import walk
from .guards import strip_q, fatoms, axioms, sat, Not, subject
from .covrule import units

NAME = re.compile(r'^_*(check|assert|validate|verify|ensure|comply|_?sanity)')


def validator(f):
    rs = [n for n in ast.walk(f.node) if isinstance(n, (ast.Raise, ast.Assert))]
    if not rs:
        return False
    return bool(NAME.match(f.name)) or f.name == 'adjust_lst_bin_edges'


def survey(P, f, api, g):
    w = walk(P, f, inline=lambda h: h.short not in api and not h.name.startswith('__'), max_depth=3)
    out, nr = {}, 0
    for e in w.events:
        if e.kind in ('raise', 'assert'):
            nr += 1
        if e.kind == 'call' and isinstance(e.fn, Func) and e.fn.short in api and validator(e.fn):
            cs = [c for c in e.pc if c.op not in ('in_loop', 'exc')]
            full = ('and', *[g.f(c) for c in cs]) if cs else ('lit', True)
            out.setdefault(e.fn.short, []).append((full, e.where))
    return out, nr


def mine(P, api, g):
    t = {}
    for f in units(P, api):
        s, nr = survey(P, f, api, g)
        if s:
            t[f.short] = {'raises': nr, 'calls': {k: [x for x, _ in v] for k, v in s.items()}}
    return t


def norm(f):
    return tuple(norm(x) for x in f) if isinstance(f, (list, tuple)) else f


def compare(res, P, api, table, g):
    fs = {f.short: f for f in units(P, api)}
    for name, rec in sorted(table.items()):
        f = fs.get(name)
        if f is None:
            continue
        now, nr = survey(P, f, api, g)
        for callee, olds in rec['calls'].items():
            res.count('calls of validating routines', len(olds))
            cur = now.get(callee)
            if not cur:
                if nr <= rec['raises'] and callee in {x.short for x in P.funcs.values()}:
                    res.add('check-skipped', f'{name}|{callee}', f'{name}: the input is no longer validated by {callee}', f.where)
                continue
            N = [strip_q(x) for x, _ in cur]
            for o in olds:
                F = strip_q(norm(o))
                keys = set(fatoms(F))
                for n in N:
                    keys |= fatoms(n)
                if sat([F] + [Not(n) for n in N] + axioms(keys)) is None:
                    continue
                gone = {subject(k) for k in fatoms(F)} - {subject(k) for n in N for k in fatoms(n)}
                if gone:
                    continue                    # the surrounding condition was rewritten: not judged
                res.add('check-skipped', f'{name}|{callee}', f'{name}: {callee} is called under a narrower condition than before', cur[0][1])
                break
