"""C12: turning messages on or off never changes results (non-interference of the verbosity switches)."""
import ast
from ..core import Project, Func, AnalysisBroken, src_of
from ..terms import walk, T, leaves
from ..report import Result, contract

VN = {'verbose', 'silence', 'quiet', 'debug', 'progress', 'progressbar'}
PRINT = {'print', 'echo', 'flush', 'info', 'debug', 'warning', 'warn', 'log', 'set_description', 'critical', 'error', 'rule', 'getLogger',
         'setLevel', 'tqdm', 'trange', 'track', 'write', 'basicConfig', 'pprint', 'perf_counter', 'time', 'now', 'simplefilter'}
WRITE_TO = {'sys.stdout', 'sys.stderr'}
PASS_AS = VN | {'disable', 'show_progress', 'leave', 'level'}
MUT = {'append', 'extend', 'update', 'add', 'insert', 'remove', 'pop', 'setdefault', 'clear', 'discard', 'sort', 'reverse', 'popitem', 'fill'}


def is_switch(t):
    return t.op == 'param' and t.a[0] in VN or t.op == 'attr' and t.a[1] in VN and t.a[0].op != 'call'


class Dep:
    """does a term depend on the switch other than by handing it on to something that only takes it as a switch"""
    def __init__(self):
        self.memo = {}

    def __call__(self, t):
        if t in self.memo:
            return self.memo[t]
        self.memo[t] = False
        r = is_switch(t) or self.inner(t)
        self.memo[t] = r
        return r

    def inner(self, t):
        if t.op == 'call':
            fn, args, kws = t.a[0], t.a[1], t.a[2]
            nm = fn.a[0].split('.')[-1] if fn.op == 'global' else fn.a[1] if fn.op == 'attr' else ''
            if nm in PRINT and nm not in ('time', 'now', 'perf_counter'):
                # progress wrappers hand their first argument through
                return bool(args.a) and self(args.a[0]) and not is_switch(args.a[0])
            if isinstance(fn, T) and fn.op == 'attr' and self(fn.a[0]):
                return True
            for x in args.a:
                if not is_switch(x) and self(x):
                    return True
            for k, v in zip(kws.a[0::2], kws.a[1::2]):
                if k in PASS_AS:
                    continue
                if k == '**' and v.op == 'dict':
                    if any(self(y) for kk, y in zip(v.a[0::2], v.a[1::2]) if not (kk.op == 'const' and kk.a[0] in PASS_AS)):
                        return True
                elif self(v):
                    return True
            return False
        if t.op == 'dict':
            return any(self(y) for kk, y in zip(t.a[0::2], t.a[1::2]) if not (kk.op == 'const' and kk.a[0] in PASS_AS))
        if t.op == 'upd' and t.a[1].op == 'const' and t.a[1].a[0] in PASS_AS:
            return self(t.a[0])
        if t.op == 'ite' and self(t.a[0]) and wrapper_only(t):
            return any(self(x) for x in leaves(t))
        return any(self(y) for y in t.a if isinstance(y, T))


def wrapper_only(t):
    """`it if not verbose else tqdm(it)`: both alternatives are the same value up to a progress wrapper"""
    out = set()
    for x in leaves(t):
        while x.op == 'call' and x.a[0].op in ('global', 'attr') and x.a[1].a and \
                str(x.a[0].a[0] if x.a[0].op == 'global' else x.a[0].a[1]).split('.')[-1] in ('tqdm', 'trange', 'track'):
            x = x.a[1].a[0]
        out.add(x)
    return len(out) == 1


def check(tier):
    res = Result()
    P = Project()
    res.rule('verbosity-interferes: no return value, stored attribute/item, exception, or non-printing effect depends on a verbosity switch, through data or '
             'through the path condition; the switch may only reach printing/progress calls and parameters that are themselves verbosity switches.')
    n = 0
    for f in sorted(P.funcs.values(), key=lambda x: x.short):
        if f.parent is not None or not any(
                isinstance(x, ast.Name) and x.id in VN or isinstance(x, ast.Attribute) and x.attr in VN or isinstance(x, ast.arg) and x.arg in VN
                for x in ast.walk(f.node)):
            continue
        if f.module.is_script:
            continue
        n += 1
        res.count('functions using a verbosity switch')
        judge(res, P, f)
    if n < 40:
        raise AnalysisBroken('verbosity switches not found')
    # module-level defaults: the switch is never read from global state, and its name really is a switch
    res.assumptions += ['calls made only to compute what is printed are free of side effects unless they are repository functions or mutators']
    return res


def judge(res, P, f):
    api = contract('api.json')
    w = walk(P, f, inline=lambda g: g.short not in api and not g.name.startswith('__'), max_depth=2)
    dep = Dep()

    def bad(e, what):
        res.add('verbosity-interferes', f'{f.short}|{what}', f'{f.short}: {what} depends on the verbosity switch: {src_of(e.node)}', e.where)
    for e in w.events:
        guarded = any(dep(c) for c in e.pc)
        k = e.kind
        if k == 'call':
            nm = str(e.name).split('.')[-1]
            if nm in PRINT:
                continue
            if guarded:
                res.count('obligations')
                if isinstance(e.fn, Func) and effectful(e.fn) or nm in MUT and e.fn is None and e.base is not None and not local_list(e.base) \
                        or nm.startswith(('write_', 'save', 'to_')) or nm in ('remove', 'makedirs', 'exit'):
                    bad(e, f'call of {nm}')
                elif nm == 'next' or nm in EATERS and any(lazy(a) and isinstance(x, ast.Name) for a, x in zip(e.args, e.node.args)):
                    bad(e, f'an iterator consumed by {nm}')
            for kk, v in e.kws:
                if kk not in PASS_AS and kk != '**' and dep(v) and isinstance(e.fn, Func):
                    bad(e, f'argument {kk} of {nm}')
        elif k in ('setattr', 'setitem', 'return', 'raise', 'yield', 'del'):
            res.count('obligations')
            if k == 'setattr' and e.name in VN:
                continue
            if guarded and k != 'return':
                bad(e, {'setattr': f'attribute {e.name}', 'setitem': 'a stored item', 'raise': 'an exception', 'yield': 'a yielded value',
                        'del': 'a deletion'}[k])
            elif e.val is not None and dep(e.val):
                bad(e, {'setattr': f'attribute {e.name}', 'setitem': 'a stored item', 'return': 'the return value', 'raise': 'an exception',
                        'yield': 'a yielded value', 'del': 'a deletion'}[k])
            elif guarded and e.depth == 0:
                bad(e, 'an early return')
            else:
                res.count('discharged')


EATERS = {'list', 'tuple', 'sorted', 'set', 'sum', 'max', 'min', 'any', 'all', 'dict', 'join', 'frozenset'}


def lazy(t):
    """a one-shot iterator"""
    return t.op == 'comp' and t.a[0] == 'gen' or t.op == 'call' and t.a[0].op == 'global' and t.a[0].a[0] in ('map', 'zip', 'filter', 'iter', 'enumerate', 'reversed')


def effectful(g):
    return not g.name.startswith('__') and any(isinstance(x, (ast.Assign, ast.AugAssign)) and any(
        isinstance(t, (ast.Subscript, ast.Attribute)) for t in (x.targets if isinstance(x, ast.Assign) else [x.target])) for x in ast.walk(g.node))


def local_list(t):
    """a list built only for the message"""
    while t.op in ('mut', 'upd', 'loopvar', 'after'):
        t = t.a[0] if t.op in ('mut', 'upd') else t.a[2]
    return t.op in ('list', 'dict', 'set')
