#!/usr/bin/env python3
"""Mutants of flag/weight algebra for C07 and C21. usage: covmut.py OP [limit] [-v]
bug ops: or2and ior2set allany dropkw dropinv side ; keep ops: or2fn ior2or inv2not kwpos"""
import ast, os, random, re, sys
from concurrent.futures import ProcessPoolExecutor
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
from hcsa import core
from hcsa.core import Project
from hcsa.report import contract, Result
from hcsa.covrule import compare
FL = re.compile(r'flag|wgt|weight|mask|nsample', re.I)


def match(op, n):
    if op in ('or2and', 'or2fn'):
        return isinstance(n, ast.BinOp) and isinstance(n.op, ast.BitOr) and FL.search(ast.unparse(n))
    if op in ('ior2set', 'ior2or'):
        return isinstance(n, ast.AugAssign) and isinstance(n.op, (ast.BitOr, ast.Add, ast.Mult)) and FL.search(ast.unparse(n.target)) and isinstance(n.target, ast.Subscript)
    if op == 'allany':
        return isinstance(n, ast.Call) and ast.unparse(n.func) in ('np.all', 'np.any') and FL.search(ast.unparse(n))
    if op == 'dropkw':
        return isinstance(n, ast.Call) and any(k.arg and FL.search(k.arg) and FL.search(ast.unparse(k.value)) for k in n.keywords)
    if op in ('dropinv', 'inv2not'):
        return isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Invert) and FL.search(ast.unparse(n))
    if op == 'delstore':
        return isinstance(n, (ast.Assign, ast.AugAssign)) and FL.search(ast.unparse(n.targets[0] if isinstance(n, ast.Assign) else n.target)) and isinstance(
            n.targets[0] if isinstance(n, ast.Assign) else n.target, ast.Subscript)
    if op == 'cond':
        return isinstance(n, (ast.Assign, ast.AugAssign)) and FL.search(ast.unparse(n.targets[0] if isinstance(n, ast.Assign) else n.target)) and isinstance(
            n.targets[0] if isinstance(n, ast.Assign) else n.target, ast.Subscript)
    if op == 'tmp':
        return isinstance(n, ast.Assign) and FL.search(ast.unparse(n)) and isinstance(n.targets[0], ast.Subscript)


class Rep(ast.NodeTransformer):
    def __init__(self, op, key):
        self.op, self.key = op, key

    def visit(self, n):
        if hasattr(n, 'lineno') and (type(n).__name__, n.lineno, n.col_offset, n.end_col_offset) == self.key:
            return self.rw(n)
        return self.generic_visit(n)

    def rw(self, n):
        op = self.op
        E = lambda s: ast.parse(s, mode='eval').body
        if op == 'or2and':
            n.op = ast.BitAnd()
            return n
        if op == 'or2fn':
            return E(f'np.logical_or({ast.unparse(n.left)}, {ast.unparse(n.right)})')
        if op == 'ior2set':
            return ast.Assign([n.target], n.value, lineno=n.lineno)
        if op == 'ior2or':
            t = ast.parse(ast.unparse(n.target), mode='eval').body
            return ast.Assign([n.target], ast.BinOp(t, n.op, n.value), lineno=n.lineno)
        if op == 'allany':
            return E(ast.unparse(n).replace('np.all', 'np.XX', 1).replace('np.any', 'np.all', 1).replace('np.XX', 'np.any', 1))
        if op == 'dropkw':
            n.keywords = [k for k in n.keywords if not (k.arg and FL.search(k.arg) and FL.search(ast.unparse(k.value)))]
            return n
        if op == 'dropinv':
            return n.operand
        if op == 'inv2not':
            return E(f'np.logical_not({ast.unparse(n.operand)})')
        if op == 'delstore':
            return ast.Pass()
        if op == 'cond':
            return ast.parse(f'if _fast_mode:\n    {ast.unparse(n)}').body
        if op == 'tmp':
            return ast.parse(f'_tmp_value = {ast.unparse(n.value)}\n{ast.unparse(n.targets[0])} = _tmp_value').body


def sites(op):
    P = Project()
    names = set(contract('c07.json')) | set(contract('c21.json'))
    for s in sorted(names):
        f = P.func(s)
        if f is None:
            continue
        for n in ast.walk(f.node):
            if match(op, n):
                yield f, n


def job(a):
    rel, short, op, key = a
    src = open(os.path.join(core.REPO, rel)).read()
    tree = ast.parse(src)
    tree = ast.fix_missing_locations(Rep(op, key).visit(tree))
    Project.default_overlay = {rel: ast.unparse(tree)}
    P = Project()
    api = set(contract('api.json'))
    hit = []
    for kind, c in (('flag', 'c07.json'), ('weight', 'c21.json')):
        t = contract(c)
        mod = short.split(':')[0]
        t = {k: v for k, v in t.items() if k.split(':')[0] == mod}
        r = Result()
        compare(r, P, api, t, kind, '')
        hit += [f.key for f in r.findings]
    return rel, short, op, key, hit


if __name__ == '__main__':
    op = sys.argv[1]
    lim = int(sys.argv[2]) if len(sys.argv) > 2 else 60
    js = [(f.module.relpath, f.short, op, (type(n).__name__, n.lineno, n.col_offset, n.end_col_offset)) for f, n in sites(op)]
    random.Random(1).shuffle(js)
    js = js[:lim]
    with ProcessPoolExecutor(8) as ex:
        rs = list(ex.map(job, js))
    n = sum(bool(r[4]) for r in rs)
    print(op, f'{n}/{len(rs)} reported')
    for r in rs:
        line = open(os.path.join(core.REPO, r[0])).read().split('\n')[r[3][1] - 1].strip()
        if ('-v' in sys.argv and not r[4]) or ('-k' in sys.argv and r[4]):
            print('  ', r[0], r[3][1], line[:110], r[4][:2])
