"""C10: results depend on the arguments only: no state shared between calls, no dependence on hash order, clock or random numbers."""
import ast
from ..core import Project, AnalysisBroken, Func, Cls
from ..effects import Engine
from ..order import Order
from ..terms import T, walk, subterms
from .. import caching
from ..report import Result, contract

NONDET = {'datetime.datetime.now', 'datetime.datetime.utcnow', 'datetime.now', 'time.time', 'time.time_ns', 'time.perf_counter', 'time.monotonic', 'uuid.uuid4', 'uuid.uuid1', 'os.getpid', 'os.urandom', 'os.getcwd',
          'datetime.date.today', 'astropy.time.Time.now', 'builtins.id', 'os.listdir', 'os.scandir', 'glob.glob', 'glob.iglob', 'os.walk', 'socket.gethostname', 'getpass.getuser', 'tempfile.mktemp'}
LISTING = {'os.listdir', 'os.scandir', 'glob.glob', 'glob.iglob'}
MESSAGES = {'echo', 'print', 'info', 'debug', 'warning', 'warn', 'error', 'log', 'critical', 'exception'}


def is_mutable(d):
    return isinstance(d, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)) or \
        isinstance(d, ast.Call) and (ast.unparse(d.func).split('.')[-1] in ('dict', 'list', 'set', 'odict', 'OrderedDict', 'defaultdict', 'array', 'zeros', 'ones', 'DataContainer', 'deque', 'Counter', 'empty', 'arange'))


def nested(d):
    """the elements can be modified too"""
    return any(is_mutable(x) for x in ast.walk(d) if x is not d and isinstance(x, ast.expr)) if d is not None else False


def shared_state(P, res, allow):
    E = Engine(P)
    fs = [f for f in P.funcs.values() if f.parent is None]
    E.solve([(f, {}) for f in fs])
    for f in fs:
        s = E.summary(f, {})
        res.count('functions')
        for p, d in f.defaults.items():
            if d is None or not is_mutable(d):
                continue
            res.count('mutable default values')
            r, deep = 'p:' + p, nested(d)
            kept = any((r, 0) in v for k, v in s.stores.items())
            hit = next((k for k in sorted(s.effects, key=str) if k[0] == r and (k[1] == 0 or deep) and not (kept and len(s.effects[k]) > 1)), None)
            if hit:
                res.add('default-modified', f'{f.short}|{p}', f'{f.short}: the default value of "{p}" is modified and keeps the change for the next call: {s.effects[hit][-1]}', f.where, s.effects[hit])
            elif kept or s.ret is not None and (r, 0) in s.ret.reach():
                key = f'{f.short}|{p}'
                if key not in allow:
                    res.add('default-handed-out', key, f'{f.short}: the default value of "{p}", one object shared by all calls, is stored or returned and can be modified from outside', f.where)
        for k in sorted(s.effects, key=str):
            if k[0].startswith('g:') and not f.module.is_script:
                mod, _, nm = k[0][2:].rpartition('.')
                m = next((m for m in P.modules.values() if m.name == mod), None)
                if m is not None and m.is_script or k[1] and not nested(m.globals.get(nm) if m else None):
                    continue
                if f'{mod}.{nm}' in allow:
                    continue
                if k[1] == 0 and any(memo(g, nm) for g in [f] + [h for h in P.funcs.values() if h.module.name == mod and h is not f]):
                    continue
                res.add('global-modified', f'{f.short}|{mod}.{nm}', f'{f.short} modifies the module-level object {nm}: {s.effects[k][-1]}', f.where, s.effects[k])
    for m in P.modules.values():
        if m.is_script:
            continue
        for fn in ast.walk(m.tree):
            if not isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef)):
                continue
            for n in ast.walk(fn):
                if isinstance(n, ast.Global):
                    res.add('global-rebound', f'{m.name}.{fn.name}|{",".join(n.names)}', f'{m.name}.{fn.name} rebinds module-level {", ".join(n.names)}', f'{m.relpath}:{n.lineno}')
    class_state(P, res)


def memo(f, nm):
    """module-level `nm` is used in f only as a memo table: every store is nm[key] = value with the key made of parameters, the value depending on no other parameter"""
    params = {a.arg for a in ast.walk(f.node.args) if isinstance(a, ast.arg)}
    defs = {}
    stores = []
    for n in ast.walk(f.node):
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.For, ast.NamedExpr)) and (getattr(n, 'value', None) is not None or isinstance(n, ast.For)):
            v = n.iter if isinstance(n, ast.For) else n.value
            for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id == nm:
                    if isinstance(n, ast.AugAssign):
                        return False
                    stores.append((t.slice, v, n))
                else:
                    for x in ast.walk(t):
                        if isinstance(x, ast.Name) and x.id != nm:
                            defs.setdefault(x.id, []).append(v)
    if not stores:
        return False
    for n in ast.walk(f.node):            # no other use than nm[key], key in nm, nm.get(key)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == nm and n.func.attr not in ('get', 'keys'):
            return False

    def exact(k, depth=0):
        """parameters the key determines; None if the key can be the same for different arguments"""
        if isinstance(k, ast.Tuple):
            r = [exact(e, depth) for e in k.elts]
            return None if any(x is None for x in r) else set().union(*r)
        if isinstance(k, ast.Constant):
            return set()
        if isinstance(k, ast.Name):
            if k.id in params and k.id not in defs:
                return {k.id}
            if len(defs.get(k.id, ())) == 1 and depth < 4:
                return exact(defs[k.id][0], depth + 1)
        return None

    def deps(e, seen):
        for x in ast.walk(e):
            if isinstance(x, ast.Name) and x.id not in seen:
                seen.add(x.id)
                for v in defs.get(x.id, ()):
                    deps(v, seen)
        return seen
    for key, val, _ in stores:
        ks = exact(key)
        if ks is None or not (deps(val, set()) & params) <= ks:
            return False
    return True


def class_state(P, res):
    """mutable class attributes are not modified through instances"""
    for c in P.classes.values():
        names = {}
        for n in c.node.body:
            if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None and is_mutable(n.value):
                for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                    if isinstance(t, ast.Name):
                        names[t.id] = n.lineno
        if not names:
            continue
        res.count('mutable class attributes', len(names))
        rebound = set()
        for n in ast.walk(c.node):
            for t in (n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, ast.AnnAssign) else []):
                if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == 'self':
                    rebound.add(t.attr)
        for n in ast.walk(c.node):
            tgt = None
            if isinstance(n, ast.AugAssign):
                tgt = n.target
            elif isinstance(n, (ast.Assign, ast.Delete)):
                tgt = next((t for t in n.targets if isinstance(t, ast.Subscript)), None)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('append', 'extend', 'update', 'add', 'pop', 'remove', 'clear', 'insert', 'setdefault', 'popitem', 'discard', 'sort'):
                tgt = n.func.value
            while isinstance(tgt, ast.Subscript):
                tgt = tgt.value
            if isinstance(tgt, ast.Attribute) and tgt.attr in names and tgt.attr not in rebound and isinstance(tgt.value, ast.Name) and tgt.value.id in ('self', 'cls', c.name):
                res.add('class-state', f'{c.module.name}.{c.name}|{tgt.attr}', f'{c.name}: the class attribute {tgt.attr}, shared by all instances, is modified', f'{c.module.relpath}:{n.lineno}')


def callee(t):
    f = t.a[0]
    return str(f.a[0]) if f.op in ('global', 'func', 'class') else (callee_attr(f) if f.op == 'attr' else '')


def callee_attr(f):
    x, out = f, []
    while x.op == 'attr':
        out.append(x.a[1])
        x = x.a[0]
    return '.'.join([str(x.a[0])] + out[::-1]) if x.op == 'global' else ''


def nondet(t, O):
    """name of a clock, random, process or directory-order source the value is computed from"""
    seen, todo = set(), [t]
    while todo:
        s = todo.pop()
        if s in seen:
            continue
        seen.add(s)
        if s.op == 'call':
            n = callee(s)
            if n in NONDET or n == 'id':
                return n
            if n.startswith(('random.', 'numpy.random.')):
                last = n.split('.')[-1]
                if last not in ('seed', 'Generator', 'SeedSequence', 'get_state', 'set_state') and not (last in ('default_rng', 'RandomState', 'Random') and s.a[1].a and not (s.a[1].a[0].op == 'const' and s.a[1].a[0].a[0] is None)):
                    return n
            if O.fname(s) in ('sorted', 'len', 'set', 'any', 'all'):
                xs = [x for x in s.a[1].a if isinstance(x, T)]
                if any(x.op == 'call' and callee(x) in LISTING for x in xs):
                    continue
        if s.op == 'comp' and s.a[0] in ('set', 'dict') and any(x.op == 'call' and callee(x) in LISTING for x in s.a[2].a):
            continue                        # the order of the listing is gone
        todo += [x for x in s.a if isinstance(x, T)]
    return None


def picked(t, O):
    """somewhere in the value an arbitrary element of a hash set was chosen"""
    if t not in O.mp:
        seen, todo, r = set(), [t], None
        while todo:
            s = todo.pop()
            if s in seen:
                continue
            seen.add(s)
            if s.op in ('sub', 'item', 'call') and O.O(s) == 'pick':
                r = 'pick'
                break
            if s.op == 'call' and O.fname(s) in ('len', 'any', 'all', 'isinstance', 'type', 'sum', 'shape', 'iscomplexobj', 'print', 'echo'):
                continue
            if s.op == 'attr' and s.a[1] in ('shape', 'dtype', 'ndim', 'size'):
                continue
            if s.op in ('ite',):
                todo += s.a[1:3]
                continue
            todo += [x for x in s.a if isinstance(x, T)]
        O.mp[t] = r
    return O.mp[t]


def unordered_returns(P, fs):
    """names of package routines whose value is a set"""
    out = {}
    for f in fs:
        O = Order(P)
        for e in walk(P, f, inline=lambda h: False, max_depth=0).events:
            if e.kind == 'return' and e.depth == 0 and e.val is not None and O.U(e.val):
                out[f.name] = 'set'
    return {k: v for k, v in out.items() if not k.startswith('__')}


def order(P, res, api, allow):
    fs = sorted((f for f in P.funcs.values() if f.parent is None and not f.module.is_script), key=lambda f: f.short)
    rets = unordered_returns(P, fs)
    for f in fs:
        if f.short not in api:
            continue
        res.count('routines followed')
        O = Order(P, rets)
        w = walk(P, f, inline=lambda h: h.short not in api and not h.name.startswith('__'), max_depth=2)
        sorts = {ast.unparse(e.node.func.value).split('.')[-1] for e in w.events if e.kind == 'call' and isinstance(e.node, ast.Call) and isinstance(e.node.func, ast.Attribute) and e.node.func.attr == 'sort'}
        for e in w.events:
            if e.kind == 'call' and isinstance(e.fn, Func) and e.fn.short not in api:
                continue                    # followed into
            for what, v in sinks(e):
                if e.kind == 'setattr' and e.name in sorts:
                    continue
                res.count('values leaving a routine')
                r = O.O(v) or picked(v, O)
                key = f'{f.short}|{what}'
                if key in allow:
                    continue
                if r:
                    txt = {'seq': 'is in the order of a hash set', 'pick': 'is an arbitrary element of a hash set'}[r]
                    res.add('hash-order', key, f'{f.short}: {what} {txt}, which differs between runs', e.where)
                    continue
                n = nondet(v, O)
                if n:
                    res.add('not-reproducible', key, f'{f.short}: {what} is computed from {n}', e.where)


def sinks(e):
    if e.kind == 'return' and e.depth == 0 and e.val is not None:
        vs = e.val.a if e.val.op == 'tuple' else (e.val,)
        for i, v in enumerate(vs):
            yield f'returned value {i + 1}', v
    elif e.kind == 'setattr':
        yield f'attribute {e.name}', e.val
    elif e.kind == 'setitem':
        yield 'stored element', e.val
    elif e.kind == 'call' and isinstance(e.fn, (Func, Cls)) and e.fn.name not in MESSAGES:
        for v in list(e.args) + [v for k, v in e.kws if k != '**']:
            yield f'argument of {e.fn.name}', v


def check(tier):
    res = Result()
    P = Project()
    c = contract('c10.json')
    shared_state(P, res, c['shared'])
    order(P, res, set(contract('api.json')), c['order'])
    caching.compare(res, P, set(contract('api.json')), contract('c10_cache.json'))
    caching.completion(res, P)
    res.rule('cache-key: every input a cached value is computed from is also an input of the key (reviewed exceptions recorded); completion-order: results gathered with as_completed / imap_unordered are never numbered, listed or indexed in that order.')
    res.rule('default-modified / default-handed-out / global-modified / global-rebound / class-state: alias and effect analysis with default values, module globals and class attributes as roots: no function writes to them or '
             'lets a mutable default escape. hash-order / not-reproducible: value-flow analysis from hash sets (without sorting), clocks, unseeded random numbers, process and directory listings to returned values, stores '
             'and arguments of package routines. Reviewed exceptions with reasons: contracts/c10.json.')
    if res.counts['functions'] < 500:
        raise AnalysisBroken('package not found')
    return res
