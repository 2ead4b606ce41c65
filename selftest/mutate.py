#!/usr/bin/env python3
"""Mutation self-test of a rule: apply source mutants as overlays (the tree is not touched), report the ones the rule misses.
usage: mutate.py RULE OPERATOR [limit] [substring]"""
import ast, copy, importlib, os, random, sys
from concurrent.futures import ProcessPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(10000)
from hcsa import core
from hcsa.core import Project
from hcsa.report import contract, known_findings


def funcs():
    P = Project()
    for s in sorted(contract('api.json')):
        f = P.func(s)
        if f is not None:
            yield f


def op_dropkw():
    for f in funcs():
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call):
                for i, k in enumerate(n.keywords):
                    if k.arg and {x.id for x in ast.walk(k.value) if isinstance(x, ast.Name)} & set(f.params):
                        yield f, f'drop {k.arg}= at {f.module.relpath}:{n.lineno}', ('dropkw', n.lineno, n.col_offset, i)


def op_default():
    for f in funcs():
        for n in ast.walk(f.node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in f.defaults and n.id != 'verbose' \
                    and isinstance(f.defaults[n.id], ast.Constant):
                yield f, f'{n.id} -> default at {f.module.relpath}:{n.lineno}', ('default', n.lineno, n.col_offset, f.defaults[n.id].value)


def apply(tree, m):
    kind, ln, co, arg = m
    for n in ast.walk(tree):
        if kind == 'dropkw' and isinstance(n, ast.Call) and (n.lineno, n.col_offset) == (ln, co) and len(n.keywords) > arg:
            del n.keywords[arg]
            return tree
        for fld, val in ast.iter_fields(n):
            vals = val if isinstance(val, list) else [val]
            for i, c in enumerate(vals):
                if kind == 'default' and isinstance(c, ast.Name) and (c.lineno, c.col_offset) == (ln, co):
                    new = ast.Constant(arg)
                    ast.copy_location(new, c)
                    if isinstance(val, list):
                        val[i] = new
                    else:
                        setattr(n, fld, new)
                    return tree
    return tree


def run(job):
    rule, rel, src, m, label = job
    tree = apply(ast.parse(src), m)
    core.Project.default_overlay = {rel: ast.unparse(tree)}
    mod = importlib.import_module(f'hcsa.rules.{rule.lower()}')
    try:
        res = mod.check('quick')
        known = known_findings(rule)
        new = [f.key for f in res.findings if f.key not in known]
    except core.AnalysisBroken as e:
        new = ['BROKEN ' + str(e)]
    return label, new


def main():
    rule, op = sys.argv[1:3]
    limit = int(sys.argv[3]) if len(sys.argv) > 3 else 200
    sub = sys.argv[4] if len(sys.argv) > 4 else ''
    jobs = []
    for f, label, m in globals()['op_' + op]():
        if sub in f.short:
            jobs.append((rule, f.module.relpath, f.module.src, m, f'{f.short}: {label}'))
    random.Random(1).shuffle(jobs)
    total = len(jobs)
    jobs = jobs[:limit]
    caught = 0
    with ProcessPoolExecutor(8) as ex:
        for label, new in ex.map(run, jobs):
            if new:
                caught += 1
            else:
                print('MISSED', label)
    print(f'{rule} {op}: caught {caught}/{len(jobs)} (of {total} mutants)')


if __name__ == '__main__':
    main()
