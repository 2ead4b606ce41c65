"""refactor.py [OP ...] [-p C01,C02] [-m module.py]: apply a behaviour-preserving rewriting everywhere (all functions, scripts too) in a scratch copy and run the checks; any alarm is a false one.
Operators keep evaluation order and semantics; `--keep DIR` leaves the tree (to run the test suite on it)."""
import ast, sys, os, shutil, subprocess, tempfile, json, copy
from concurrent.futures import ThreadPoolExecutor

SIMPLE = (ast.Name, ast.Constant)
SCOPES = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef, ast.ListComp, ast.DictComp, ast.SetComp, ast.GeneratorExp)


def own(fn):
    """nodes of the function itself, not of nested scopes"""
    st = list(fn.body)
    while st:
        n = st.pop()
        yield n
        if not isinstance(n, SCOPES):
            st += list(ast.iter_child_nodes(n))


def load(n):
    return ast.Name(n, ast.Load())


def store(n):
    return ast.Name(n, ast.Store())


class Blocks(ast.NodeTransformer):
    """rewrites statement lists"""
    n = 0

    def fresh(self, p='tmp'):
        Blocks.n += 1
        return f'_{p}{Blocks.n}'

    def rewrite(self, stmts, fn):
        return stmts

    def visit_FunctionDef(self, fn):
        self.fn = getattr(self, 'fn', None), fn
        self.generic_visit(fn)
        self.fn = self.fn[0]
        return fn

    def generic_visit(self, n):
        super().generic_visit(n)
        if getattr(self, 'fn', None):
            for f in ('body', 'orelse', 'finalbody'):
                b = getattr(n, f, None)
                if isinstance(b, list) and b and isinstance(b[0], ast.stmt) and not isinstance(n, (ast.ClassDef, ast.Module)):
                    setattr(n, f, self.rewrite(b, self.fn[1]))
        return n


class TempRet(Blocks):
    def rewrite(self, b, fn):
        out = []
        for s in b:
            if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, SIMPLE):
                t = self.fresh('result')
                out += [ast.Assign([store(t)], s.value), ast.Return(load(t))]
            else:
                out.append(s)
        return out


class TempArgs(Blocks):
    def rewrite(self, b, fn):
        out = []
        for s in b:
            c = s.value if isinstance(s, (ast.Expr, ast.Assign, ast.Return)) else None
            if isinstance(c, ast.Call) and isinstance(c.func, (ast.Name, ast.Attribute)) and not any(isinstance(x, ast.Call) for x in ast.walk(c.func)) \
                    and not any(isinstance(a, ast.Starred) for a in c.args) and not (isinstance(c.func, ast.Name) and c.func.id in ('super', 'locals', 'vars')):
                for i, a in enumerate(c.args):
                    if not isinstance(a, SIMPLE):
                        t = self.fresh('arg')
                        out.append(ast.Assign([store(t)], a))
                        c.args[i] = load(t)
                for k in c.keywords:
                    if not isinstance(k.value, SIMPLE) and k.arg is not None:
                        t = self.fresh('kw')
                        out.append(ast.Assign([store(t)], k.value))
                        k.value = load(t)
            out.append(s)
        return out


class Invert(Blocks):
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):
            t = n.test.operand if isinstance(n.test, ast.UnaryOp) and isinstance(n.test.op, ast.Not) else ast.UnaryOp(ast.Not(), n.test)
            return ast.If(t, n.orelse, n.body)
        return n


class ElseWrap(Blocks):
    """if c: return/raise/continue; rest  ->  if c: ... else: rest"""
    def rewrite(self, b, fn):
        for i, s in enumerate(b[:-1]):
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue)) and i + 1 < len(b) and not any(isinstance(x, (ast.FunctionDef, ast.Import, ast.ImportFrom)) for x in b[i + 1:]):
                s.orelse = self.rewrite(b[i + 1:], fn)
                return b[:i + 1]
        return b


class Nest(Blocks):
    """if a and b -> if a: if b"""
    def visit_If(self, n):
        self.generic_visit(n)
        if not n.orelse and isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And):
            a, rest = n.test.values[0], n.test.values[1:]
            return ast.If(a, [ast.If(rest[0] if len(rest) == 1 else ast.BoolOp(ast.And(), rest), n.body, [])], [])
        return n


class Enumerate(Blocks):
    def visit_For(self, n):
        self.generic_visit(n)
        if isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name) and n.iter.func.id in ('enumerate', 'range', 'zip'):
            return n
        n.target = ast.Tuple([store(self.fresh('i')), n.target], ast.Store())
        n.iter = ast.Call(load('enumerate'), [n.iter], [])
        return n


class CompLoop(Blocks):
    """x = [e for t in it if c] -> loop with append"""
    def rewrite(self, b, fn):
        out = []
        for s in b:
            v = s.value if isinstance(s, (ast.Assign, ast.Return)) else None
            if isinstance(v, (ast.ListComp, ast.DictComp)) and (isinstance(s, ast.Return) or len(s.targets) == 1 and isinstance(s.targets[0], ast.Name)):
                names = {x.id for g in v.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
                used = {x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and not any(x is y for y in ast.walk(s))}
                if names & used or any(isinstance(x, ast.NamedExpr) for x in ast.walk(v)):
                    out.append(s)
                    continue
                t = self.fresh('acc')
                if isinstance(v, ast.ListComp):
                    inner = [ast.Expr(ast.Call(ast.Attribute(load(t), 'append', ast.Load()), [v.elt], []))]
                    init = ast.List([], ast.Load())
                else:
                    inner = [ast.Assign([ast.Subscript(load(t), v.key, ast.Store())], v.value)]
                    init = ast.Dict([], [])
                for g in reversed(v.generators):
                    for c in reversed(g.ifs):
                        inner = [ast.If(c, inner, [])]
                    inner = [ast.For(g.target, g.iter, inner, [])]
                s.value = load(t)
                out += [ast.Assign([store(t)], init)] + inner + [s]
            else:
                out.append(s)
        return out


class TernaryIf(Blocks):
    def rewrite(self, b, fn):
        out = []
        for s in b:
            v = s.value if isinstance(s, (ast.Assign, ast.Return)) else None
            if isinstance(v, ast.IfExp) and (isinstance(s, ast.Return) or len(s.targets) == 1 and isinstance(s.targets[0], ast.Name)):
                x, y = copy.deepcopy(s), s
                x.value, y.value = v.body, v.orelse
                out.append(ast.If(v.test, [x], [y]))
            else:
                out.append(s)
        return out


class IfTernary(Blocks):
    def visit_If(self, n):
        self.generic_visit(n)
        if len(n.body) == 1 and len(n.orelse) == 1 and all(isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) for x in n.body + n.orelse) and n.body[0].targets[0].id == n.orelse[0].targets[0].id:
            return ast.Assign(n.body[0].targets, ast.IfExp(n.test, n.body[0].value, n.orelse[0].value))
        return n


class KwOrder(ast.NodeTransformer):
    def visit_Call(self, n):
        self.generic_visit(n)
        if n.keywords and all(k.arg for k in n.keywords):
            n.keywords.reverse()
        return n


class DeMorgan(ast.NodeTransformer):
    def visit_UnaryOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Not) and isinstance(n.operand, ast.BoolOp):
            o = ast.Or() if isinstance(n.operand.op, ast.And) else ast.And()
            return ast.BoolOp(o, [ast.UnaryOp(ast.Not(), v) for v in n.operand.values])
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        inv = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}
        if len(n.ops) == 1 and type(n.ops[0]) in inv and isinstance(n.comparators[0], (ast.Constant, ast.Name)) and isinstance(n.left, ast.Name):
            return ast.Compare(n.comparators[0], [inv[type(n.ops[0])]()], [n.left])
        return n


def params(fn):
    a = fn.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + ([a.vararg.arg] if a.vararg else []) + ([a.kwarg.arg] if a.kwarg else [])


class Rename(ast.NodeTransformer):
    """local variables get another name"""
    def visit_FunctionDef(self, fn):
        if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('locals', 'vars', 'eval', 'exec') for x in ast.walk(fn)):
            return fn
        bound = {x.id for x in own(fn) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        bad = set(params(fn)) | {y for x in ast.walk(fn) if isinstance(x, (ast.Global, ast.Nonlocal)) for y in x.names} | {a.arg for x in ast.walk(fn) if x is not fn and isinstance(x, ast.arguments) for a in ast.walk(x) if isinstance(a, ast.arg)}
        bad |= {a.asname or a.name for x in ast.walk(fn) if isinstance(x, (ast.Import, ast.ImportFrom)) for a in x.names} | {x.name for x in ast.walk(fn) if isinstance(x, (ast.FunctionDef, ast.ExceptHandler, ast.ClassDef)) and getattr(x, 'name', None)}
        # names bound again in nested scopes stay
        for x in ast.walk(fn):
            if isinstance(x, SCOPES) and x is not fn:
                bad |= {y.id for y in ast.walk(x) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store)}
        todo = bound - bad
        for x in ast.walk(fn):
            if isinstance(x, ast.Name) and x.id in todo:
                x.id = x.id + '_v'
        return fn


class Impl(ast.NodeTransformer):
    """def f(a): body -> def f(a): return _f_impl(a)"""
    def names(self, body, cls):
        out = []
        for s in body:
            out.append(s)
            if not isinstance(s, ast.FunctionDef) or s.decorator_list or s.name.startswith('__') or any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Nonlocal)) for x in ast.walk(s)) \
                    or any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('super', 'locals') for x in ast.walk(s)) or s.args.posonlyargs:
                continue
            h = copy.deepcopy(s)
            h.name = ('' if s.name.startswith('_') else '_') + s.name + '_impl'
            h.args.defaults, h.args.kw_defaults = [], [None] * len(h.args.kwonlyargs)
            doc = [h.body.pop(0)] if ast.get_docstring(h) else []
            if not h.body:
                continue
            if doc:
                s.body = doc
            else:
                s.body = []
            a = s.args
            pos = [load(x.arg) for x in a.args]
            fnx = load(h.name)
            if cls:
                fnx = ast.Attribute(pos.pop(0), h.name, ast.Load())
            c = ast.Call(fnx, pos + ([ast.Starred(load(a.vararg.arg), ast.Load())] if a.vararg else []), [ast.keyword(x.arg, load(x.arg)) for x in a.kwonlyargs] + ([ast.keyword(None, load(a.kwarg.arg))] if a.kwarg else []))
            s.body.append(ast.Return(c))
            out.append(h)
        return out

    def visit_Module(self, m):
        self.generic_visit(m)
        m.body = self.names(m.body, False)
        return m

    def visit_ClassDef(self, c):
        c.body = self.names(c.body, True)
        return c


class Extract(ast.NodeTransformer):
    """top-level loops / if blocks of a module function become helper functions"""
    kinds = (ast.For, ast.If, ast.With)

    def visit_Module(self, m):
        out = []
        for s in m.body:
            if isinstance(s, ast.FunctionDef):
                out += self.func(s)
            elif isinstance(s, ast.ClassDef):
                for f in s.body:
                    if isinstance(f, ast.FunctionDef):
                        out += self.func(f, s.name)
            out.append(s)
        m.body = [x for x in out if isinstance(x, (ast.Import, ast.ImportFrom)) and getattr(x, 'module', '') == '__future__'] + [x for x in out if not (isinstance(x, ast.ImportFrom) and x.module == '__future__')]
        if m.body and out and isinstance(out[0], ast.Expr):
            m.body = [out[0]] + [x for x in m.body if x is not out[0]]
        return m

    def func(self, fn, cls=''):
        if any(isinstance(x, (ast.Global, ast.Nonlocal, ast.Yield, ast.YieldFrom)) for x in ast.walk(fn)):
            return []
        local = set(params(fn)) | {x.id for x in own(fn) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | {x.name for x in ast.walk(fn) if isinstance(x, (ast.FunctionDef,)) and x is not fn} \
            | {(a.asname or a.name).split('.')[0] for x in ast.walk(fn) if isinstance(x, (ast.Import, ast.ImportFrom)) for a in x.names}
        helpers = []
        bound = set(params(fn))
        for i, s in enumerate(fn.body):
            later = {x.id for t in fn.body[i + 1:] for x in ast.walk(t) if isinstance(x, ast.Name)}
            ok = isinstance(s, self.kinds) and not any(isinstance(x, (ast.Return, ast.Import, ast.ImportFrom, ast.FunctionDef, ast.ClassDef, ast.Delete, ast.Try, ast.NamedExpr)) for x in ast.walk(s)) \
                and not any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('super', 'locals') for x in ast.walk(s)) and not any(isinstance(x, ast.Name) and x.id == '__class__' for x in ast.walk(s))
            if ok:
                w = {x.id for x in own(ast.FunctionDef('x', None, [s], [])) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
                r = {x.id for x in ast.walk(s) if isinstance(x, ast.Name)} & local
                ins = sorted(r & bound)
                outs = sorted(w & later)
                # every output is bound before (or always bound inside); every read name bound before or inside
                if all(o in bound for o in outs) and all(x in bound or x in w for x in r) and len(ast.dump(s)) > 200 \
                        and not any(isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and x.target.id not in bound for x in ast.walk(s)):
                    h = f'_{cls}{fn.name.strip("_")}_part{i}'
                    body = [copy.deepcopy(s)]
                    if outs:
                        body.append(ast.Return(ast.Tuple([load(o) for o in outs], ast.Load()) if len(outs) > 1 else load(outs[0])))
                    helpers.append(ast.FunctionDef(h, ast.arguments([], [ast.arg(x) for x in ins], None, [], [], None, []), body, []))
                    c = ast.Call(load(h), [load(x) for x in ins], [])
                    if not outs:
                        fn.body[i] = ast.Expr(c)
                    else:
                        fn.body[i] = ast.Assign([ast.Tuple([store(o) for o in outs], ast.Store()) if len(outs) > 1 else store(outs[0])], c)
            # names certainly bound after the statement
            if isinstance(s, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
                bound |= {x.id for t in (s.targets if isinstance(s, ast.Assign) else [s.target]) for x in ast.walk(t) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
            elif isinstance(s, ast.FunctionDef):
                bound.add(s.name)
            elif isinstance(s, (ast.Import, ast.ImportFrom)):
                bound |= {(a.asname or a.name).split('.')[0] for a in s.names}
            elif isinstance(s, ast.If) and s.orelse:
                f = lambda b: {x.id for t in b if isinstance(t, ast.Assign) for y in t.targets for x in ast.walk(y) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
                bound |= f(s.body) & f(s.orelse)
            elif isinstance(s, ast.With):
                bound |= {x.id for t in s.body if isinstance(t, ast.Assign) for y in t.targets for x in ast.walk(y) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        return helpers


class Swap(Blocks):
    """adjacent independent simple assignments change places"""
    def rewrite(self, b, fn):
        b, i = list(b), 0
        while i + 1 < len(b):
            x, y = b[i], b[i + 1]
            if all(isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and not any(isinstance(z, (ast.Call, ast.Attribute, ast.Subscript, ast.Yield, ast.NamedExpr)) for z in ast.walk(s.value)) for s in (x, y)):
                wx, wy = x.targets[0].id, y.targets[0].id
                rx, ry = ({z.id for z in ast.walk(s.value) if isinstance(z, ast.Name)} for s in (x, y))
                if wx != wy and wx not in ry and wy not in rx:
                    b[i], b[i + 1] = y, x
                    i += 1
            i += 1
        return b


class Hoist(Blocks):
    """subexpressions of an assignment's right side become variables (operands of the outermost arithmetic operation)"""
    def rewrite(self, b, fn):
        out = []
        for s in b:
            v = s.value if isinstance(s, (ast.Assign, ast.Return)) else None
            if isinstance(v, ast.BinOp):
                for f in ('left', 'right'):
                    x = getattr(v, f)
                    if not isinstance(x, SIMPLE):
                        t = self.fresh('part')
                        out.append(ast.Assign([store(t)], x))
                        setattr(v, f, load(t))
            out.append(s)
        return out


class ItemsLoop(Blocks):
    """for k, v in d.items() -> for k in d: v = d[k]  (d a plain name, not reassigned in the loop)"""
    def visit_For(self, n):
        self.generic_visit(n)
        it = n.iter
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and it.func.attr == 'items' and isinstance(it.func.value, ast.Name) and isinstance(n.target, ast.Tuple) and len(n.target.elts) == 2 and isinstance(n.target.elts[0], ast.Name):
            d = it.func.value
            n.iter = ast.Call(ast.Attribute(d, 'keys', ast.Load()), [], [])
            n.body.insert(0, ast.Assign([n.target.elts[1]], ast.Subscript(d, load(n.target.elts[0].id), ast.Load())))
            n.target = n.target.elts[0]
        return n


class WhileFor(Blocks):
    """for i in range(n) -> while"""
    def rewrite(self, b, fn):
        out = []
        for s in b:
            if isinstance(s, ast.For) and not s.orelse and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id == 'range' and len(s.iter.args) == 1 and isinstance(s.target, ast.Name) \
                    and not any(isinstance(x, (ast.Continue, ast.Break)) for x in ast.walk(s)):
                t, k = self.fresh('stop'), s.target.id
                out += [ast.Assign([store(t)], s.iter.args[0]), ast.Assign([store(k)], ast.Constant(0)),
                        ast.While(ast.Compare(load(k), [ast.Lt()], [load(t)]), s.body + [ast.AugAssign(store(k), ast.Add(), ast.Constant(1))], [])]
            else:
                out.append(s)
        return out


OPS = {c.__name__.lower(): c for c in (TempRet, TempArgs, Invert, ElseWrap, Nest, Enumerate, CompLoop, TernaryIf, IfTernary, KwOrder, DeMorgan, Rename, Impl, Extract, Swap, Hoist, ItemsLoop, WhileFor)}


def rewrite(op, root, only=None):
    n = 0
    for top in ('hera_cal', 'scripts'):
        for d, ds, fs in os.walk(os.path.join(root, top)):
            ds[:] = [x for x in ds if x not in ('tests', 'data', 'notebooks', '__pycache__')]
            for f in fs:
                if not f.endswith('.py') or only and f not in only:
                    continue
                p = os.path.join(d, f)
                src = open(p).read()
                t = ast.parse(src)
                before = ast.dump(t)
                t = OPS[op]().visit(t)
                ast.fix_missing_locations(t)
                if ast.dump(t) != before:
                    n += 1
                    s = ast.unparse(t)
                    compile(s, p, 'exec')
                    open(p, 'w').write(s + '\n')
    return n


RUN = '''
import sys, importlib
sys.dont_write_bytecode = True
sys.path.insert(0, '/verif')
sys.setrecursionlimit(10000)
from hcsa.report import known_findings
p = sys.argv[1]
res = importlib.import_module('hcsa.rules.' + p.lower()).check('quick')
known = known_findings(p)
for f in res.findings:
    if f.key not in known:
        print(f.where, f.key)
'''


def main():
    args = sys.argv[1:]
    props, only, keep, ops = None, None, None, []
    while args:
        a = args.pop(0)
        if a == '-p':
            props = args.pop(0).split(',')
        elif a == '-m':
            only = args.pop(0).split(',')
        elif a == '--keep':
            keep = args.pop(0)
        else:
            ops.append(a)
    man = json.load(open('/verif/MANIFEST.json'))
    props = props or [c['property'] for c in man['checks']]
    bad = 0

    def one(op):
        w = keep or tempfile.mkdtemp(prefix='refac_')
        try:
            shutil.copytree('/repo', w + '/repo', ignore=lambda d, fs: [f for f in fs if f in ('.git', '__pycache__', 'notebooks') or '/data' in d and not f.endswith('.py')])
            k = rewrite(op, w + '/repo', only)
            out = []
            for p in props:
                r = subprocess.run(['python3', '-c', RUN, p], cwd='/verif', capture_output=True, text=True, env=dict(os.environ, HCSA_REPO=w + '/repo'))
                if r.stdout.strip() or r.returncode:
                    out.append((p, r.returncode, r.stdout.splitlines() + r.stderr.splitlines()[-3:]))
            return op, k, out
        finally:
            if not keep:
                shutil.rmtree(w)
    with ThreadPoolExecutor(4) as ex:
        for op, k, out in ex.map(one, ops or list(OPS)):
            print(f'{op}: {k} files rewritten, alarms: {[p for p, _, _ in out]}')
            for p, rc, ls in out:
                bad += 1
                print(f'  {p} rc={rc}')
                for x in ls[:8]:
                    print('     ', x[:260])
    sys.exit(bool(bad))


main()
