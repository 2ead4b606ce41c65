"""Gated value numbering: a single forward pass over a function that gives every expression a hash-consed term.

Joins become ite-terms (no path enumeration), loop-carried variables become opaque terms, private helpers, nested functions and
lambdas are inlined, attribute stores go to a small heap keyed by (object term, attribute).  The pass emits events
(calls, stores, returns, raises) together with the structural guard (path condition) under which they happen.
Nothing is executed; terms are only compared structurally.
"""
from __future__ import annotations
import ast
import itertools
from .core import Func, Cls, Module, dotted, walk_scope, bind


class T:
    __slots__ = ('op', 'a', 'n', '__weakref__')
    _tab = {}
    _cnt = itertools.count()

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.n < o.n


def mk(op, *a):
    key = (op,) + tuple(('T', x.n) if isinstance(x, T) else (type(x).__name__, x) for x in a)
    t = T._tab.get(key)
    if t is None:
        t = T()
        t.op, t.a, t.n = op, a, next(T._cnt)
        T._tab[key] = t
    return t


def const(v):
    try:
        hash(v)
    except TypeError:
        v = repr(v)
    return mk('const', v)


NONE, TRUE, FALSE = const(None), const(True), const(False)


def is_const(t, v=...):
    return t.op == 'const' and (v is ... or (t.a[0] is v if v is None or isinstance(v, bool) else t.a[0] == v))


def show(t, d=0):
    if not isinstance(t, T):
        return repr(t)
    if d > 6:
        return '…'
    o, a = t.op, t.a
    s = lambda x: show(x, d + 1)
    if o == 'const':
        return repr(a[0])
    if o in ('param', 'global'):
        return str(a[0])
    if o == 'attr':
        return f'{s(a[0])}.{a[1]}'
    if o == 'sub':
        return f'{s(a[0])}[{s(a[1])}]'
    if o == 'call':
        return f'{s(a[0])}({", ".join([s(x) for x in a[1].a] + [f"{k}={s(v)}" for k, v in kwitems(a[2])])})'
    if o == 'bin':
        return f'({s(a[1])} {a[0]} {s(a[2])})'
    if o == 'un':
        return f'({a[0]} {s(a[1])})'
    if o == 'cmp':
        return f'({s(a[1])} {a[0]} {s(a[2])})'
    if o in ('and', 'or'):
        return '(' + f' {o} '.join(s(x) for x in a) + ')'
    if o == 'not':
        return f'(not {s(a[0])})'
    if o == 'ite':
        return f'({s(a[1])} if {s(a[0])} else {s(a[2])})'
    return f'{o}<{", ".join(s(x) for x in a)}>'


def kwitems(t):
    return list(zip(t.a[0::2], t.a[1::2]))


def tnot(t):
    if t.op == 'not':
        return t.a[0]
    if t.op == 'const' and not isinstance(t.a[0], str):
        return const(not t.a[0])
    return mk('not', t)


def tand(*ts):
    out = []
    for t in ts:
        if t is TRUE:
            continue
        if t is FALSE:
            return FALSE
        for x in (t.a if t.op == 'and' else (t,)):
            if x not in out:
                out.append(x)
    return TRUE if not out else out[0] if len(out) == 1 else mk('and', *out)


def ite(c, a, b):
    if a is b:
        return a
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if c.op == 'not':
        return ite(c.a[0], b, a)
    return mk('ite', c, a, b)


def leaves(t):
    """the alternatives of nested ite terms"""
    out, st, seen = [], [t], set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'ite':
            st += [x.a[2], x.a[1]]
        else:
            out.append(x)
    return out


def subterms(t):
    st, seen = [t], set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        for y in x.a:
            if isinstance(y, T):
                st.append(y)


def mentions(t, pred):
    return any(pred(x) for x in subterms(t))


def dict_get(t, key, depth=0):
    """value stored under constant key in a dict-like term; None = absent, 'unknown' = cannot tell"""
    if depth > 60:
        return 'unknown'
    r = lambda x: dict_get(x, key, depth + 1)
    if t.op == 'dict':
        for k, v in reversed(list(zip(t.a[0::2], t.a[1::2]))):
            if k.op == 'star':
                q = r(v)
                if q is not None:
                    return q
            elif is_const(k, key):
                return v
            elif k.op != 'const':
                return 'unknown'
        return None
    if t.op == 'upd':
        if is_const(t.a[1], key):
            return t.a[2]
        if t.a[1].op != 'const':
            return 'unknown'
        return r(t.a[0])
    if t.op == 'mut':
        if t.a[1] == 'update':
            for x in t.a[2].a:
                q = r(x)
                if q is not None:
                    return q
            for k, v in kwitems(t.a[3]):
                if k == key:
                    return v
            return r(t.a[0])
        if t.a[1] in ('pop', 'setdefault'):
            return 'unknown' if not (t.a[2].a and t.a[2].a[0].op == 'const' and not is_const(t.a[2].a[0], key)) else r(t.a[0])
        return r(t.a[0])
    if t.op in ('loopvar', 'after'):
        return r(t.a[2])
    if t.op == 'ite':
        a, b = r(t.a[1]), r(t.a[2])
        if a is b:
            return a
        if isinstance(a, T) and isinstance(b, T):
            return ite(t.a[0], a, b)
        return 'unknown'
    if t.op == 'call' and t.a[0].op == 'global' and t.a[0].a[0] in ('dict', 'collections.OrderedDict', 'copy.deepcopy', 'copy.copy'):
        for k, v in kwitems(t.a[2]):
            if k == key:
                return v
            if k == '**':
                q = r(v)
                if q is not None:
                    return q
        for x in t.a[1].a:
            q = r(x)
            if q is not None:
                return q
        return None
    if t.op == 'call' and t.a[0].op == 'attr' and t.a[0].a[1] == 'copy':
        return r(t.a[0].a[0])
    if t.op == 'call' and t.a[0].op == 'global' and len(t.a[1].a) == 1:
        if t.a[0].a[0] == 'vars':
            return mk('attr', t.a[1].a[0], key)
        if t.a[0].a[0].endswith('.filter_kwargs'):
            return r(t.a[1].a[0])
    return 'unknown'


class Event:
    __slots__ = ('kind', 'name', 'fn', 'base', 'args', 'kws', 'pc', 'node', 'func', 'target', 'val', 'res', 'depth', 'loops')

    def __init__(self, kind, pc, node, func, **k):
        self.kind, self.pc, self.node, self.func = kind, pc, node, func
        for s in ('name', 'fn', 'base', 'args', 'kws', 'target', 'val', 'res', 'depth', 'loops'):
            setattr(self, s, k.get(s))

    @property
    def where(self):
        return f'{self.func.module.relpath}:{getattr(self.node, "lineno", 0)}'

    def kw(self, key):
        """keyword value, also through ** dictionaries; None absent; 'unknown'"""
        unk = None
        for k, v in self.kws:
            if k == key:
                return v
            if k == '**':
                q = dict_get(v, key)
                if q == 'unknown':
                    unk = 'unknown'
                elif q is not None:
                    return q
        return unk


class State:
    __slots__ = ('env', 'heap', 'pc', 'dead')

    def __init__(self, env, heap, pc):
        self.env, self.heap, self.pc, self.dead = env, heap, pc, False

    def fork(self, cond=None):
        s = State(dict(self.env), dict(self.heap), self.pc if cond is None else self.pc + (cond,))
        return s


MUTATORS = {'append', 'extend', 'update', 'add', 'insert', 'remove', 'pop', 'setdefault', 'clear', 'discard', 'sort', 'reverse',
            'popitem', 'difference_update', 'intersection_update', 'fill'}
APPLY = {'run_with_profiling': 2, 'submit': 1, 'partial': 1}
EXITS = {'sys.exit', 'exit', 'quit', 'os._exit'}


class Walker:
    """one root function (or module body); results in .events and .returns"""

    def __init__(self, project, root, inline=None, max_depth=6, budget=60000, params=None, body=None, consts=None, attr_events=False):
        self.attr_events = attr_events
        self.P, self.root = project, root
        self.inline = inline or (lambda f: False)
        self.max_depth, self.budget = max_depth, budget
        self.events, self.returns = [], []
        self.ids = itertools.count()
        self.stack = []
        self.trunc = False
        self.loops = ()
        self.slices, self.updates = [], {}      # every slice evaluated; value of each loop-carried variable at the end of the body
        env = {}
        if isinstance(root, Func):
            a = root.node.args
            for p in [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]:
                env[p] = mk('param', p)
            if a.vararg:
                env[a.vararg.arg] = mk('param', '*' + a.vararg.arg)
            if a.kwarg:
                env[a.kwarg.arg] = mk('param', '**' + a.kwarg.arg)
            if params:
                env.update(params)
            for k, v in (consts or {}).items():
                env[k] = const(v)
            code = root.node.body if not isinstance(root.node, ast.Lambda) else [ast.Return(root.node.body)]
        else:
            code = root.tree.body
        st = State(env, {}, ())
        self.frames = []
        self.exec_func(root, code, st, closure=None)
        self.final = st

    # ---------------------------------------------------------------- helpers
    def fresh(self, tag):
        return mk('opaque', tag, next(self.ids))

    def module(self):
        f = self.frames[-1]['func']
        return f.module if isinstance(f, Func) else f

    def emit(self, kind, st, node, **k):
        f = self.frames[-1]['func']
        e = Event(kind, st.pc, node, f if isinstance(f, Func) else _ModFunc(f), depth=len(self.frames) - 1, loops=self.loops, **k)
        self.events.append(e)
        return e

    def exec_func(self, func, code, st, closure):
        self.frames.append({'func': func, 'rets': [], 'pc0': len(st.pc), 'closure': closure})
        live = self.block(code, st)
        fr = self.frames.pop()
        if live:
            fr['rets'].append((st.pc[fr['pc0']:], NONE, dict(st.heap)))
        if not self.frames:
            self.returns = fr['rets']
        return fr['rets']

    def block(self, code, st):
        """walk statements; returns False when control cannot fall through"""
        for s in code:
            if not self.stmt(s, st):
                return False
        return True

    def merge(self, st, c, a, la, b, lb):
        """join branch states a (cond c) and b (cond not c) into st; la/lb: falls through"""
        base = st.pc
        if la and lb:
            for k in set(a.env) | set(b.env):
                x, y = a.env.get(k), b.env.get(k)
                if x is None or y is None:
                    st.env[k] = x if y is None else y
                    if x is None or y is None:
                        st.env[k] = ite(c, x if x is not None else mk('unbound', k), y if y is not None else mk('unbound', k))
                else:
                    st.env[k] = ite(c, x, y)
            for k in set(a.heap) | set(b.heap):
                dflt = mk('attr', k[0], k[1])
                st.heap[k] = ite(c, a.heap.get(k, dflt), b.heap.get(k, dflt))
            # facts learned inside both branches after nested early exits: keep as implications
            ea, eb = a.pc[len(base) + 1:], b.pc[len(base) + 1:]
            extra = ()
            if ea:
                extra += (mk('or', tnot(c), tand(*ea)),)
            if eb:
                extra += (mk('or', c, tand(*eb)),)
            st.pc = base + extra
            return True
        if la or lb:
            s = a if la else b
            st.env, st.heap = s.env, s.heap
            st.pc = s.pc
            return True
        return False

    # ---------------------------------------------------------------- statements
    def stmt(self, s, st):
        self.budget -= 1
        if self.budget < 0:
            self.trunc = True
            return False
        k = type(s).__name__
        m = getattr(self, 's_' + k, None)
        if m:
            r = m(s, st)
            return True if r is None else r
        for c in ast.iter_child_nodes(s):
            if isinstance(c, ast.expr):
                self.ev(c, st)
        return True

    def s_Expr(self, s, st):
        self.ev(s.value, st)
        if isinstance(s.value, ast.Call):
            d = dotted(s.value.func)
            if d in EXITS:
                return False

    def s_Assign(self, s, st):
        v = self.ev(s.value, st)
        for t in s.targets:
            self.assign(t, v, st, s)

    def s_AnnAssign(self, s, st):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st), st, s)

    def s_AugAssign(self, s, st):
        old = self.ev(_load(s.target), st)
        v = mk('bin', type(s.op).__name__, old, self.ev(s.value, st))
        self.assign(s.target, v, st, s, aug=True)

    def s_Return(self, s, st):
        v = self.ev(s.value, st) if s.value is not None else NONE
        fr = self.frames[-1]
        fr['rets'].append((st.pc[fr['pc0']:], v, dict(st.heap)))
        self.emit('return', st, s, val=v)
        return False

    def s_Raise(self, s, st):
        v = self.ev(s.exc, st) if s.exc is not None else NONE
        self.emit('raise', st, s, val=v)
        return False

    def s_Continue(self, s, st):
        return False

    s_Break = s_Continue

    def s_Assert(self, s, st):
        c = self.ev(s.test, st)
        self.emit('assert', st, s, val=c)
        st.pc = st.pc + (c,)

    def s_If(self, s, st):
        c = self.ev(s.test, st)
        if c is TRUE:
            return self.block(s.body, st)
        if c is FALSE:
            return self.block(s.orelse, st)
        a, b = st.fork(c), st.fork(tnot(c))
        la = self.block(s.body, a)
        lb = self.block(s.orelse, b)
        return self.merge(st, c, a, la, b, lb)

    def s_For(self, s, st):
        it = self.ev(s.iter, st)
        lid = next(self.ids)
        self.havoc(s.body, st, lid)
        b = st.fork(mk('in_loop', it, lid))
        self.assign(s.target, self.elem(it), b, s, quiet=True)
        old, self.loops = self.loops, self.loops + (it,)
        live = self.block(s.body, b)
        self.loops = old
        self.after_loop(s, st, b, lid)
        if s.orelse:
            return self.block(s.orelse, st)
        return True

    def s_While(self, s, st):
        lid = next(self.ids)
        self.havoc(s.body, st, lid)
        c = self.ev(s.test, st)
        b = st.fork(c)
        old, self.loops = self.loops, self.loops + (c,)
        self.block(s.body, b)
        self.loops = old
        self.after_loop(s, st, b, lid)
        if is_const(c) and c.a[0] and not any(isinstance(x, ast.Break) for x in ast.walk(s)):
            return False
        if s.orelse:
            return self.block(s.orelse, st)
        return True

    def assigned(self, body):
        names = set()
        for b in body:
            for n in itertools.chain([b], walk_scope(b)):
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    names.add(n.id)
                elif isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, ast.Store):
                    x = n.value
                    while isinstance(x, (ast.Subscript, ast.Attribute)):
                        x = x.value
                    if isinstance(x, ast.Name) and isinstance(n, ast.Subscript):
                        names.add(x.id)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
                    x = n.func.value
                    while isinstance(x, ast.Subscript):
                        x = x.value
                    if isinstance(x, ast.Name):
                        names.add(x.id)
        return names

    def havoc(self, body, st, lid):
        for nm in self.assigned(body):
            if nm in st.env:
                st.env[nm] = mk('loopvar', nm, lid, st.env[nm])

    def after_loop(self, s, st, b, lid):
        for nm in self.assigned(s.body) | {n.id for n in ast.walk(getattr(s, 'target', None) or ast.Pass()) if isinstance(n, ast.Name)}:
            v = b.env.get(nm)
            if v is None:
                continue
            self.updates[(nm, lid)] = v
            st.env[nm] = mk('after', nm, lid, v, st.env[nm]) if nm in st.env else mk('after', nm, lid, v, mk('unbound', nm))
        for k, v in b.heap.items():
            if st.heap.get(k) is not v:
                st.heap[k] = mk('after', str(k[1]), lid, v, st.heap.get(k, mk('attr', k[0], k[1])))

    def s_With(self, s, st):
        for it in s.items:
            v = self.ev(it.context_expr, st)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, mk('enter', v), st, s)
        return self.block(s.body, st)

    s_AsyncWith = s_With
    s_AsyncFor = s_For

    def s_Try(self, s, st):
        tid = next(self.ids)
        sub = {x.value.id for y in s.body for x in ast.walk(y) if isinstance(x, ast.Subscript) and isinstance(x.value, ast.Name)}
        fns = {dotted(x.func).split('.')[-1] for y in s.body for x in ast.walk(y) if isinstance(x, ast.Call) and dotted(x.func)}
        lab = '+'.join(sorted(sub or fns))[:60]
        exc = mk('exc', tid, '', lab)
        b = st.fork()
        lb = self.block(s.body, b)
        if lb and s.orelse:
            lb = self.block(s.orelse, b)
        outs = [(b, lb)]
        for i, h in enumerate(s.handlers):
            hs = st.fork(mk('exc', tid, i, lab))
            for nm in self.assigned(s.body):
                hs.env[nm] = mk('ite', exc, st.env.get(nm, mk('unbound', nm)), b.env.get(nm, mk('unbound', nm)))
            if h.name:
                hs.env[h.name] = mk('excval', tid, i)
            outs.append((hs, self.block(h.body, hs)))
        cur, live = outs[0]
        base = st.pc
        for i, (hs, lh) in enumerate(outs[1:]):
            tmp = State(dict(st.env), dict(st.heap), base)
            c = mk('exc', tid, i, lab)
            if live and lh:
                cur.pc = base + (tnot(c),) + cur.pc[len(base):]
                self.merge(tmp, tnot(c), cur, True, hs, True)
            elif live:
                tmp = cur
            elif lh:
                tmp = hs
            cur, live = tmp, live or lh
        st.env, st.heap, st.pc = cur.env, cur.heap, cur.pc if live else base
        if s.finalbody:
            live = self.block(s.finalbody, st) and live
        return live

    s_TryStar = s_Try

    def s_FunctionDef(self, s, st):
        fr = self.frames[-1]
        f = fr['func']
        nf = f.nested.get(s.name) if isinstance(f, Func) else f.funcs.get(s.name)
        if nf is None or nf.node is not s:
            q = (f.qual if isinstance(f, Func) else f.name) + '.<locals>.' + s.name
            nf = Func(q, self.module(), s, None, f if isinstance(f, Func) else None)
        t = mk('func', nf.qual, id(s))
        st.env[s.name] = t
        self.localfuncs[t] = (nf, st.env)
        for d in s.decorator_list:
            self.ev(d, st)

    s_AsyncFunctionDef = s_FunctionDef
    localfuncs = None

    def s_ClassDef(self, s, st):
        st.env[s.name] = mk('class', s.name, id(s))

    def s_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                b = self.ev(t.value, st)
                k = self.ev(t.slice, st)
                self.emit('del', st, s, target=b, val=k)
                self.rebind(t.value, mk('mut', b, 'del', mk('list', k), mk('kw')), st)
            elif isinstance(t, ast.Name):
                st.env.pop(t.id, None)

    def s_Import(self, s, st):
        pass

    s_ImportFrom = s_Global = s_Nonlocal = s_Pass = s_Import

    def s_Match(self, s, st):
        v = self.ev(s.subject, st)
        outs = []
        rest = st.fork()
        for c in s.cases:
            cond = self.pattern(c.pattern, v)
            if c.guard is not None:
                cond = tand(cond, self.ev(c.guard, rest))
            b = rest.fork(cond)
            live = self.block(c.body, b)
            outs.append((cond, b, live))
            if cond is TRUE:
                break
            rest.pc = rest.pc + (tnot(cond),)
        live = not (outs and outs[-1][0] is TRUE)
        cur = rest
        for cond, b, lb in reversed(outs):
            if cond is TRUE:
                cur, live = b, lb
                continue
            tmp = State(dict(st.env), dict(st.heap), st.pc)
            b.pc, cur.pc = st.pc + (cond,) + b.pc[len(st.pc) + 1:], st.pc + (tnot(cond),)
            live = self.merge(tmp, cond, b, lb, cur, live)
            cur = tmp
        st.env, st.heap, st.pc = cur.env, cur.heap, cur.pc
        return live

    def pattern(self, p, v):
        if isinstance(p, ast.MatchValue):
            ok = p.value
            return mk('cmp', '==', v, const(ok.value) if isinstance(ok, ast.Constant) else self.fresh('pat'))
        if isinstance(p, ast.MatchSingleton):
            return mk('cmp', 'is', v, const(p.value))
        if isinstance(p, ast.MatchOr):
            return mk('or', *[self.pattern(x, v) for x in p.patterns])
        if isinstance(p, ast.MatchAs) and p.pattern is None:
            return TRUE
        return self.fresh('pat')

    # ---------------------------------------------------------------- assignment
    def assign(self, t, v, st, node, aug=False, quiet=False):
        if isinstance(t, ast.Name):
            st.env[t.id] = v
            if not quiet:
                self.emit('assign', st, node, target=mk('local', t.id), val=v, name='aug' if aug else None)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = any(isinstance(e, ast.Starred) for e in t.elts)
            for i, e in enumerate(t.elts):
                if isinstance(e, ast.Starred):
                    self.assign(e.value, mk('rest', v, i), st, node, quiet=quiet)
                else:
                    self.assign(e, mk('item', v, i) if star else self.item(v, i), st, node, quiet=quiet)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, st)
            st.heap[(b, t.attr)] = v
            self.emit('setattr', st, node, target=b, name=t.attr, val=v, res='aug' if aug else None)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, st)
            k = self.ev(t.slice, st)
            self.emit('setitem', st, node, target=b, args=[k], val=v, name='aug' if aug else None)
            self.rebind(t.value, mk('upd', b, k, v), st)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, node, quiet=quiet)

    def rebind(self, expr, v, st):
        if isinstance(expr, ast.Name):
            st.env[expr.id] = v
        elif isinstance(expr, ast.Attribute):
            st.heap[(self.ev(expr.value, st), expr.attr)] = v
        elif isinstance(expr, ast.Subscript):
            b, k = self.ev(expr.value, st), self.ev(expr.slice, st)
            self.rebind(expr.value, mk('upd', b, k, v), st)

    def item(self, v, i):
        if v.op in ('tuple', 'list') and i < len(v.a) and not any(x.op == 'star' for x in v.a):
            return v.a[i]
        if v.op == 'ite':
            return ite(v.a[0], self.item(v.a[1], i), self.item(v.a[2], i))
        if v.op == 'zipelem' and i < len(v.a):
            return v.a[i]
        return mk('item', v, i)

    def elem(self, it):
        """term of an element produced by iterating it"""
        if it.op == 'call':
            f, args = it.a[0], it.a[1].a
            if f.op == 'global' and f.a[0] == 'enumerate' and args:
                return mk('zipelem', mk('index', args[0]), self.elem(args[0]))
            if f.op == 'global' and f.a[0] == 'zip':
                return mk('zipelem', *[self.elem(x) for x in args])
            if f.op == 'global' and f.a[0] in ('list', 'sorted', 'tuple', 'reversed', 'iter', 'tqdm.tqdm', 'tqdm') and len(args) >= 1:
                return self.elem(args[0])
            if f.op == 'attr' and not args:
                if f.a[1] == 'items':
                    e = mk('iter', f.a[0])
                    return mk('zipelem', e, mk('sub', f.a[0], e))
                if f.a[1] == 'keys':
                    return mk('iter', f.a[0])
                if f.a[1] == 'values':
                    return mk('sub', f.a[0], mk('iter', f.a[0]))
        if it.op in ('list', 'tuple') and len(it.a) == 1 and it.a[0].op != 'star':
            return it.a[0]
        return mk('iter', it)

    # ---------------------------------------------------------------- expressions
    def ev(self, n, st) -> T:
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m:
            return m(n, st)
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.expr):
                self.ev(c, st)
        return self.fresh(type(n).__name__)

    def e_Constant(self, n, st):
        return const(n.value)

    def e_Name(self, n, st):
        if n.id in st.env:
            return st.env[n.id]
        for fr in reversed(self.frames):
            c = fr.get('closure')
            if c is not None and n.id in c:
                return c[n.id]
            break
        m = self.module()
        ab = self.P.absname(m, n.id)
        if n.id in m.globals and n.id not in m.imports and n.id not in m.funcs and n.id not in m.classes:
            g = m.globals[n.id]
            if isinstance(g, ast.Constant):
                return const(g.value)
        return mk('global', ab)

    def e_Attribute(self, n, st):
        b = self.ev(n.value, st)
        if b.op == 'global':
            return mk('global', b.a[0] + '.' + n.attr)
        v = st.heap.get((b, n.attr))
        if self.attr_events:
            self.emit('getattr', st, n, target=b, name=n.attr, val=v)
        if v is not None:
            return v
        return mk('attr', b, n.attr)

    def e_Subscript(self, n, st):
        b = self.ev(n.value, st)
        ns = len(self.slices)
        k = self.ev(n.slice, st)
        for e in self.slices[ns:]:
            e[5] = b if e[5] is None else e[5]
        if k.op == 'const' and isinstance(k.a[0], int) and not isinstance(k.a[0], bool) and k.a[0] >= 0 and b.op in ('tuple', 'list', 'zipelem'):
            return self.item(b, k.a[0])
        if k.op == 'const' and b.op in ('dict', 'upd', 'mut'):
            v = dict_get(b, k.a[0])
            if isinstance(v, T):
                return v
        x = b
        while x.op == 'upd':
            if x.a[1] is k:
                return x.a[2]
            if not (x.a[1].op == 'const' and k.op == 'const'):
                break
            x = x.a[0]
        return mk('sub', b, k)

    def e_Slice(self, n, st):
        r = mk('slice', *[self.ev(x, st) if x is not None else NONE for x in (n.lower, n.upper, n.step)])
        self.slices.append([r, n, st.pc, self.loops, self.frames[-1]['func'], None])
        return r

    def e_Tuple(self, n, st):
        return mk('tuple', *[self.ev(x, st) for x in n.elts])

    def e_List(self, n, st):
        return mk('list', *[self.ev(x, st) for x in n.elts])

    def e_Set(self, n, st):
        return mk('set', *[self.ev(x, st) for x in n.elts])

    def e_Starred(self, n, st):
        return mk('star', self.ev(n.value, st))

    def e_Dict(self, n, st):
        a = []
        for k, v in zip(n.keys, n.values):
            a += [self.ev(k, st) if k is not None else mk('star'), self.ev(v, st)]
        return mk('dict', *a)

    def e_BinOp(self, n, st):
        return mk('bin', type(n.op).__name__, self.ev(n.left, st), self.ev(n.right, st))

    def e_UnaryOp(self, n, st):
        v = self.ev(n.operand, st)
        if isinstance(n.op, ast.Not):
            return tnot(v)
        if isinstance(n.op, ast.USub) and v.op == 'const' and isinstance(v.a[0], (int, float)):
            return const(-v.a[0])
        return mk('un', type(n.op).__name__, v)

    def e_BoolOp(self, n, st):
        vs = []
        s2 = st
        for i, x in enumerate(n.values):
            v = self.ev(x, s2)
            vs.append(v)
            if i < len(n.values) - 1:
                s2 = State(s2.env, s2.heap, s2.pc + (v if isinstance(n.op, ast.And) else tnot(v),))
        return mk('and' if isinstance(n.op, ast.And) else 'or', *vs)

    CMP = {'Eq': '==', 'NotEq': '!=', 'Lt': '<', 'LtE': '<=', 'Gt': '>', 'GtE': '>=', 'Is': 'is', 'IsNot': 'is not', 'In': 'in', 'NotIn': 'not in'}
    NEG = {'!=': '==', 'is not': 'is', 'not in': 'in'}

    def e_Compare(self, n, st):
        left = self.ev(n.left, st)
        out = []
        for o, r in zip(n.ops, n.comparators):
            right = self.ev(r, st)
            op = self.CMP[type(o).__name__]
            a, b = left, right
            if op in ('>', '>='):
                op, a, b = {'>': '<', '>=': '<='}[op], b, a
            if op in self.NEG:
                t = mk('not', mk('cmp', self.NEG[op], a, b))
                op2 = self.NEG[op]
            else:
                t, op2 = mk('cmp', op, a, b), op
            if op2 in ('is', '==') and a.op == 'const' and b.op == 'const':
                eq = (a.a[0] is b.a[0]) if op2 == 'is' and (a is NONE or b is NONE or isinstance(a.a[0], bool)) else a.a[0] == b.a[0]
                t = const(bool(eq)) if op2 == op else const(not eq)
            elif op2 == 'is' and b is NONE and a.op in ('dict', 'list', 'tuple', 'upd', 'set'):
                t = FALSE if op2 == op else TRUE
            out.append(t)
            left = right
        return out[0] if len(out) == 1 else mk('and', *out)

    def e_IfExp(self, n, st):
        c = self.ev(n.test, st)
        a = self.ev(n.body, State(st.env, st.heap, st.pc + (c,)))
        b = self.ev(n.orelse, State(st.env, st.heap, st.pc + (tnot(c),)))
        return ite(c, a, b)

    def e_NamedExpr(self, n, st):
        v = self.ev(n.value, st)
        self.assign(n.target, v, st, n)
        return v

    def e_Lambda(self, n, st):
        t = mk('func', 'lambda', id(n))
        f = Func('<lambda>', self.module(), n, None, None)
        self.localfuncs[t] = (f, dict(st.env))
        return t

    def e_JoinedStr(self, n, st):
        return mk('fmt', *[self.ev(v, st) for v in n.values])

    def e_FormattedValue(self, n, st):
        return self.ev(n.value, st)

    def e_Await(self, n, st):
        return self.ev(n.value, st)

    def e_Yield(self, n, st):
        v = self.ev(n.value, st) if n.value is not None else NONE
        self.emit('yield', st, n, val=v)
        return self.fresh('yield')

    def e_YieldFrom(self, n, st):
        v = self.ev(n.value, st)
        self.emit('yield', st, n, val=mk('iter', v))
        return self.fresh('yield')

    def comp(self, n, kind, elts, st):
        s2 = State(dict(st.env), st.heap, st.pc)
        its, conds = [], []
        old = self.loops
        for g in n.generators:
            it = self.ev(g.iter, s2)
            its.append(it)
            self.assign(g.target, self.elem(it), s2, n, quiet=True)
            self.loops = self.loops + (it,)
            for c in g.ifs:
                cv = self.ev(c, s2)
                conds.append(cv)
                s2.pc = s2.pc + (cv,)
        vs = [self.ev(e, s2) for e in elts]
        self.loops = old
        return mk('comp', kind, mk('tuple', *vs), mk('tuple', *its), tand(*conds) if conds else TRUE)

    def e_ListComp(self, n, st):
        return self.comp(n, 'list', [n.elt], st)

    def e_SetComp(self, n, st):
        return self.comp(n, 'set', [n.elt], st)

    def e_GeneratorExp(self, n, st):
        return self.comp(n, 'gen', [n.elt], st)

    def e_DictComp(self, n, st):
        return self.comp(n, 'dict', [n.key, n.value], st)

    # ---------------------------------------------------------------- calls
    def resolve(self, n, fn, st):
        """-> (Func|Cls|None, bound self term|None)"""
        f = n.func
        if fn.op == 'func':
            return None, None
        if fn.op == 'global':
            r = self.P.lookup(fn.a[0])
            return (r if isinstance(r, (Func, Cls)) else None), None
        if isinstance(f, ast.Attribute):
            base = fn.a[0] if fn.op == 'attr' else self.ev(f.value, st)
            c = self.cls_of(base)
            if c is not None:
                m = c.find(f.attr)
                return m, base
            if f.attr.startswith('__'):
                return None, base
            ms = self.P.methods_named(f.attr)
            if len(ms) == 1 and f.attr not in MUTATORS and f.attr not in ('copy', 'get', 'items', 'keys', 'values', 'read', 'write', 'select', 'check'):
                return ms[0], base
            return None, base
        return None, None

    def cls_of(self, t):
        if t.op == 'param' and t.a[0] in ('self', 'cls'):
            for fr in reversed(self.frames):
                if isinstance(fr['func'], Func) and fr['func'].cls is not None:
                    return fr['func'].cls
        if t.op == 'call' and t.a[0].op == 'global':
            r = self.P.lookup(t.a[0].a[0])
            if isinstance(r, Cls):
                return r
        if t.op in ('upd', 'mut'):
            return self.cls_of(t.a[0])
        if t.op == 'loopvar':
            return self.cls_of(t.a[2])
        return None

    def e_Call(self, n, st):
        self.budget -= 1
        fn = self.ev(n.func, st)
        if isinstance(n.func, ast.Attribute) and fn.op not in ('attr', 'global', 'func'):
            # attribute read through the heap: keep a method name
            fn = mk('attr', self.ev(n.func.value, st), n.func.attr) if fn.op not in ('func',) else fn
        args = [self.ev(a, st) for a in n.args]
        kws = []
        for k in n.keywords:
            kws.append((k.arg if k.arg is not None else '**', self.ev(k.value, st)))
        callee, bself = self.resolve(n, fn, st)
        name = fn.a[0] if fn.op == 'global' else fn.a[1] if fn.op == 'attr' else dotted(n.func) or '?'
        res = mk('call', fn, mk('list', *args), mk('kw', *[x for kv in kws for x in kv]))
        e = self.emit('call', st, n, name=name, fn=callee, base=bself, args=args, kws=kws, res=res)
        if name == 'slice' and args and not kws:
            b3 = ([NONE] + args if len(args) == 1 else args) + [NONE] * 3
            self.slices.append([mk('slice', *b3[:3]), n, st.pc, self.loops, self.frames[-1]['func'], None])
        # a function handed over to be called (profiling wrapper, thread pool, partial)
        skip = APPLY.get(str(name).split('.')[-1])
        if skip is not None and len(args) >= skip and args[0].op in ('global', 'func', 'attr'):
            tgt = None
            if args[0].op == 'global':
                tgt = self.P.lookup(args[0].a[0])
            elif args[0].op == 'func' and args[0] in self.localfuncs:
                tgt = self.localfuncs[args[0]][0]
            tb = None
            if args[0].op == 'attr':
                tb = args[0].a[0]
                c = self.cls_of(tb)
                tgt = c.find(args[0].a[1]) if c is not None else None
            nm2 = args[0].a[0] if args[0].op == 'global' else args[0].a[1] if args[0].op == 'attr' else '?'
            self.emit('call', st, n, name=nm2, fn=tgt if isinstance(tgt, (Func, Cls)) else None, base=tb, args=args[skip:], kws=kws, res=res)
            fake = ast.copy_location(ast.Call(func=n.args[0], args=n.args[skip:], keywords=n.keywords), n)
            if skip and isinstance(tgt, Func) and self.budget > 0 and str(name).split('.')[-1] != 'partial':
                if args[0].op == 'func' or (len(self.frames) <= self.max_depth and self.inline(tgt)):
                    self.inline_call(tgt, fake, args[skip:], kws, tb, st, self.localfuncs.get(args[0], (0, None))[1], res)
        # numpy out= writes into its target
        for k, v in kws:
            if k == 'out':
                for kk in n.keywords:
                    if kk.arg == 'out':
                        self.rebind(kk.value, res, st)
        if fn.op == 'func' and fn in self.localfuncs and self.budget > 0:
            f, clos = self.localfuncs[fn]
            return self.inline_call(f, n, args, kws, None, st, clos, res)
        if isinstance(callee, Func) and self.budget > 0 and len(self.frames) <= self.max_depth and self.inline(callee):
            return self.inline_call(callee, n, args, kws, bself, st, None, res)
        if fn.op == 'attr' and fn.a[1] in MUTATORS and callee is None and isinstance(n.func, ast.Attribute):
            b = fn.a[0]
            self.rebind(n.func.value, mk('mut', b, fn.a[1], mk('list', *args), mk('kw', *[x for kv in kws for x in kv])), st)
        return res

    def inline_call(self, f, n, args, kws, bself, st, closure, res):
        if any(fr['func'] is f for fr in self.frames) or len(self.frames) > self.max_depth + 2:
            return res
        if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in walk_scope(f.node)):
            return res
        env = {}
        pos = list(f.pos_params)
        if f.cls is not None and not f.is_static and f.parent is None and pos:
            if bself is not None:
                env[pos[0]] = bself
                pos = pos[1:]
            elif f.is_classmethod:
                env[pos[0]] = mk('global', f.cls.qual.replace(':', '.'))
                pos = pos[1:]
        star = False
        for a in args:
            if a.op == 'star':
                star = True
                continue
            if star:
                continue
            if pos:
                env[pos.pop(0)] = a
        extra = []
        names = set(f.params)
        for k, v in kws:
            if k in names:
                env[k] = v
            elif k == '**':
                for p in names - set(env):
                    q = dict_get(v, p)
                    if isinstance(q, T):
                        env[p] = q
                    elif q == 'unknown':
                        env[p] = mk('maybe', p, v)
                extra += [mk('star'), v]
            else:
                extra += [const(k), v]
        if f.kwarg:
            env[f.kwarg] = mk('dict', *extra)
        if f.vararg:
            env[f.vararg] = self.fresh('varargs')
        for p, d in f.defaults.items():
            if p not in env:
                env[p] = const(d.value) if isinstance(d, ast.Constant) else mk('default', f.qual, p)
        for p in names:
            if p not in env:
                env[p] = self.fresh('missing_' + p)
        s2 = State(env, st.heap, st.pc)
        code = f.node.body if not isinstance(f.node, ast.Lambda) else [ast.Return(f.node.body, lineno=n.lineno)]
        rets = self.exec_func(f, code, s2, closure)
        if not rets:
            return res
        # heap effects
        if len(rets) == 1:
            st.heap = rets[0][2]
            st.pc = st.pc + tuple(rets[0][0])
            # python reference semantics: in-place updates of a passed variable come back to the caller
            self.flow_back(f, n, s2, st)
            return rets[0][1]
        v, heap = rets[-1][1], rets[-1][2]
        for pc, t, h in reversed(rets[:-1]):
            c = tand(*pc) if pc else TRUE
            v = ite(c, t, v)
            nh = dict(heap)
            for k in set(h) | set(heap):
                d = mk('attr', k[0], k[1])
                nh[k] = ite(c, h.get(k, d), heap.get(k, d))
            heap = nh
        st.heap = heap
        self.flow_back(f, n, s2, st)
        return v

    def flow_back(self, f, n, s2, st):
        pos = list(f.pos_params)
        if f.cls is not None and not f.is_static and f.parent is None and isinstance(n.func, ast.Attribute):
            pos = pos[1:]
        pairs = [(p, a) for p, a in zip(pos, n.args) if not isinstance(a, ast.Starred)]
        pairs += [(k.arg, k.value) for k in n.keywords if k.arg]
        for p, a in pairs:
            if not isinstance(a, ast.Name) or a.id not in st.env or p not in s2.env:
                continue
            new, old = s2.env[p], st.env[a.id]
            x = new
            while x is not old and x.op in ('upd', 'mut', 'after', 'loopvar'):
                x = x.a[0] if x.op in ('upd', 'mut') else x.a[2] if x.op == 'loopvar' else x.a[3]
            if x is old and new is not old:
                st.env[a.id] = new


class _ModFunc:
    """adapter so that module-body events can be reported like function events"""
    def __init__(self, m):
        self.module, self.short, self.qual, self.name = m, m.name, m.name, m.name
        self.where = f'{m.relpath}:1'


def _load(t):
    import copy
    t2 = copy.copy(t)
    t2.ctx = ast.Load()
    return t2


def walk(project, root, **k):
    w = Walker.__new__(Walker)
    w.localfuncs = {}
    w.__init__(project, root, **k)
    return w


# -------------------------------------------------------------------- guards as propositional formulas
def formula(t, atom):
    """boolean skeleton of a guard: ('lit', bool) | ('atom', x) | ('not', f) | ('and', ..) | ('or', ..); atom(t) may rename/identify"""
    a = atom(t)
    if a is not None:
        return a
    if t.op == 'const':
        return ('lit', bool(t.a[0]))
    if t.op == 'not':
        return ('not', formula(t.a[0], atom))
    if t.op in ('and', 'or'):
        return (t.op,) + tuple(formula(x, atom) for x in t.a)
    if t.op == 'ite':
        c, x, y = (formula(z, atom) for z in t.a)
        return ('or', ('and', c, x), ('and', ('not', c), y))
    if t.op == 'cmp' and t.a[0] in ('is', '==') and t.a[2].op == 'const' and isinstance(t.a[2].a[0], bool):
        f = formula(t.a[1], atom)
        return f if t.a[2].a[0] else ('not', f)
    if t.op == 'call' and t.a[0].op == 'global' and t.a[0].a[0] == 'bool' and len(t.a[1].a) == 1:
        return formula(t.a[1].a[0], atom)
    if t.op == 'call' and t.a[0].op == 'global' and t.a[0].a[0] in ('any', 'all') and len(t.a[1].a) == 1 \
            and t.a[1].a[0].op in ('list', 'tuple') and t.a[1].a[0].a:
        return ('or' if t.a[0].a[0] == 'any' else 'and',) + tuple(formula(x, atom) for x in t.a[1].a[0].a)
    if t.op == 'bin' and t.a[0] in ('BitAnd', 'BitOr'):
        return ('and' if t.a[0] == 'BitAnd' else 'or', formula(t.a[1], atom), formula(t.a[2], atom))
    if t.op == 'un' and t.a[0] == 'Invert':
        return ('not', formula(t.a[1], atom))
    return ('atom', t)


def simp(f, asg):
    k = f[0]
    if k == 'lit':
        return f
    if k == 'atom':
        return ('lit', asg[f[1]]) if f[1] in asg else f
    if k == 'not':
        x = simp(f[1], asg)
        return ('lit', not x[1]) if x[0] == 'lit' else x[1] if x[0] == 'not' else ('not', x)
    out = []
    for y in f[1:]:
        x = simp(y, asg)
        if x[0] == 'lit':
            if x[1] == (k == 'or'):
                return x
            continue
        if x not in out:
            out.append(x)
    if not out:
        return ('lit', k == 'and')
    return out[0] if len(out) == 1 else (k,) + tuple(out)


def atoms(f, acc=None):
    acc = set() if acc is None else acc
    if f[0] == 'atom':
        acc.add(f[1])
    elif f[0] != 'lit':
        for x in f[1:]:
            atoms(x, acc)
    return acc


def satisfiable(fs, asg, budget=None):
    """is the conjunction of formulas consistent with the assignment (finite truth table over guard atoms)"""
    budget = budget or [4000]
    fs = [simp(f, asg) for f in fs]
    if any(f == ('lit', False) for f in fs):
        return False
    fs = [f for f in fs if f != ('lit', True)]
    if not fs:
        return True
    # unit propagation
    for f in fs:
        if f[0] == 'atom':
            return satisfiable(fs, {**asg, f[1]: True}, budget)
        if f[0] == 'not' and f[1][0] == 'atom':
            return satisfiable(fs, {**asg, f[1][1]: False}, budget)
    # only ambiguous conjuncts are left
    budget[0] -= 1
    if budget[0] < 0:
        return True
    x = sorted(atoms(fs[0]), key=lambda q: (q.n if isinstance(q, T) else -1, str(q) if not isinstance(q, T) else ''))[0]
    return satisfiable(fs, {**asg, x: True}, budget) or satisfiable(fs, {**asg, x: False}, budget)
