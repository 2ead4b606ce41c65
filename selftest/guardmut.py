#!/usr/bin/env python3
"""Mutants of guards for C11: bug operators (delete, loosen, narrow) must be reported, keep operators (rewrites) must stay quiet.
usage: guardmut.py OP [limit]"""
import ast, importlib, os, random, sys
from concurrent.futures import ProcessPoolExecutor
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
from hcsa import core
from hcsa.core import Project, AnalysisBroken
from hcsa.report import contract, known_findings


def is_guard_if(n):
    return isinstance(n, ast.If) and len(n.body) == 1 and isinstance(n.body[0], ast.Raise)


def sites(op):
    P = Project()
    for s in sorted(contract('c11.json')):
        f = P.func(s)
        if f is None:
            continue
        for n in ast.walk(f.node):
            g = isinstance(n, ast.Assert) or is_guard_if(n)
            if not g:
                continue
            if op in ('tighten', 'andtrue', 'swapor') and not any(isinstance(x, (ast.Compare, ast.BoolOp)) for x in ast.walk(n.test)):
                continue
            if op == 'swapor' and not isinstance(n.test, ast.BoolOp):
                continue
            if op == 'flipcmp' and not any(isinstance(x, ast.Compare) and isinstance(x.ops[0], (ast.Lt, ast.LtE, ast.Gt, ast.GtE)) for x in ast.walk(n.test)):
                continue
            if op == 'anyall' and not any(isinstance(x, ast.Call) and ast.unparse(x.func).split('.')[-1] in ('any', 'all') for x in ast.walk(n.test)):
                continue
            if op == 'a2i' and not isinstance(n, ast.Assert):
                continue
            if op in ('i2a', 'ifelse') and not (is_guard_if(n) and not n.orelse):
                continue
            yield f, n


class Rep(ast.NodeTransformer):
    def __init__(self, op, ln, co):
        self.op, self.key = op, (ln, co)

    def visit(self, n):
        if isinstance(n, (ast.Assert, ast.If)) and (n.lineno, n.col_offset) == self.key:
            return self.rw(n)
        return self.generic_visit(n)

    def rw(self, n):
        op = self.op
        a = isinstance(n, ast.Assert)
        P = lambda s: ast.parse(s).body
        if op == 'del':
            return ast.Pass() if a or not n.orelse else n.orelse
        if op == 'andtrue':       # narrow: only reject when another condition holds as well
            n.test = ast.BoolOp(ast.Or(), [n.test, ast.Name('_lenient_mode', ast.Load())]) if a else ast.BoolOp(ast.And(), [n.test, ast.Name('_strict_mode', ast.Load())])
            return n
        if op == 'swapor':
            want = ast.And if a else ast.Or      # rejection: assert (x and y) -> (x or y) weakens; if (x or y): -> (x and y) weakens
            for x in ast.walk(n.test):
                if isinstance(x, ast.BoolOp) and isinstance(x.op, want):
                    x.op = ast.Or() if a else ast.And()
                    return n
            return n
        if op == 'flipcmp':
            up = {ast.Lt: ast.LtE, ast.Gt: ast.GtE} if a else {ast.LtE: ast.Lt, ast.GtE: ast.Gt}
            for x in ast.walk(n.test):
                if isinstance(x, ast.Compare) and type(x.ops[0]) in up:
                    x.ops[0] = up[type(x.ops[0])]()
                    return n
            return n
        if op == 'anyall':
            for x in ast.walk(n.test):
                if isinstance(x, ast.Call) and ast.unparse(x.func).split('.')[-1] in ('any', 'all'):
                    nm = x.func
                    v = nm.id if isinstance(nm, ast.Name) else nm.attr
                    w = 'any' if v == 'all' else 'all'
                    if isinstance(nm, ast.Name):
                        nm.id = w
                    else:
                        nm.attr = w
                    return n
            return n
        # behaviour-preserving rewrites
        if op == 'a2i':
            return P(f'if not ({ast.unparse(n.test)}):\n    raise AssertionError("bad")')
        if op == 'i2a':
            return P(f'_bad = bool({ast.unparse(n.test)})\nif _bad:\n    {ast.unparse(n.body[0])}')
        if op == 'ifelse':
            return P(f'if not ({ast.unparse(n.test)}):\n    pass\nelse:\n    {ast.unparse(n.body[0])}')
        if op == 'helper':
            names = sorted({x.id for x in ast.walk(n.test) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)})
            bound = {y.id for x in ast.walk(n.test) for y in ([x] if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) else [])}
            names = [x for x in names if x not in bound and x not in self.globals]
            if a:
                body = f'assert {ast.unparse(n.test)}, "bad"'
                call = f'_vp_validate({", ".join(names)})'
                self.extra = f'def _vp_validate({", ".join(names)}):\n    {body}\n'
                return P(call)
            self.extra = f'def _vp_validate({", ".join(names)}):\n    return {ast.unparse(n.test)}\n'
            n.test = ast.parse(f'_vp_validate({", ".join(names)})', mode='eval').body
            return n
        raise SystemExit(op)
    extra = ''
    globals = ()


def run(job):
    op, rel, src, ln, co, label, glb = job
    tr = Rep(op, ln, co)
    tr.globals = glb
    tree = tr.visit(ast.parse(src))
    ast.fix_missing_locations(tree)
    new = ast.unparse(tree) + '\n' + tr.extra
    if new.strip() == ast.unparse(ast.parse(src)).strip():
        return label, None
    Project.default_overlay = {rel: new}
    mod = importlib.import_module('hcsa.rules.c11')
    try:
        res = mod.check('quick')
    except AnalysisBroken as e:
        return label, ['BROKEN ' + str(e)]
    return label, [f.key + ' :: ' + f.message for f in res.findings]


if __name__ == '__main__':
    op = sys.argv[1]
    limit = int(sys.argv[2]) if len(sys.argv) > 2 else 100
    bug = op in ('del', 'andtrue', 'swapor', 'flipcmp', 'anyall')
    jobs = [(op, f.module.relpath, f.module.src, n.lineno, n.col_offset, f'{f.short}:{n.lineno} {ast.unparse(n).splitlines()[0][:100]}',
             tuple(f.module.imports) + tuple(f.module.funcs) + tuple(f.module.classes) + tuple(f.module.globals) + tuple(dir(__builtins__)))
            for f, n in sites(op)]
    random.Random(1).shuffle(jobs)
    tot = len(jobs)
    k = c = 0
    with ProcessPoolExecutor(8) as ex:
        for label, fs in ex.map(run, jobs[:limit]):
            if fs is None:
                continue
            k += 1
            c += bool(fs)
            if bool(fs) != bug:
                print('MISSED' if bug else 'ALARM', label, fs[:1] if fs else '')
    print(f'{op}: reported {c}/{k} of {tot}')
