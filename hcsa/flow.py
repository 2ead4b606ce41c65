"""Parameter-flow analysis: which parameters (and self attributes) of a function reach which argument of which callee.

Flow-sensitive, interprocedural through private or new helpers (they are analysed in the caller's context), with
data origins and control origins kept apart.  All flows are may-flows.
"""
from __future__ import annotations
import ast
import re
from .core import Project, Func, Cls, Module, dotted, const_of, bind, src_of, walk_scope

E0 = frozenset()


class V:
    """abstract value: data origins, control origins, known dict entries, class, callables"""
    __slots__ = ('d', 'c', 'kv', 'cls', 'fn', 'exact', 'parts')

    def __init__(self, d=E0, c=E0, kv=None, cls=None, fn=None, parts=None):
        self.d, self.c, self.kv, self.cls, self.fn, self.parts = frozenset(d), frozenset(c), kv, cls, fn, parts

    def with_(self, d=E0, c=E0):
        return V(self.d | d, self.c | c, self.kv, self.cls, self.fn, self.parts)

    @property
    def all(self):
        return self.d | self.c


def vjoin(a, b):
    if a is None:
        return b
    if b is None or a is b:
        return a
    kv = None
    if a.kv is not None and b.kv is not None:
        kv = {k: vjoin(a.kv.get(k), b.kv.get(k)) for k in set(a.kv) | set(b.kv)}
    parts = None
    if a.parts and b.parts and len(a.parts) == len(b.parts):
        parts = [vjoin(x, y) for x, y in zip(a.parts, b.parts)]
    return V(a.d | b.d, a.c | b.c, kv, a.cls or b.cls, a.fn or b.fn, parts)


NONE = V()
EXT_TRACK = re.compile(r'^(write\w*|read\w*|select|savez\w*|dump|File|open|init_HERACal)$')


class Event:
    """one argument binding at one call site"""
    __slots__ = ('callee', 'param', 'val', 'node', 'func', 'const', 'expr')

    def __init__(self, callee, param, val, node, func, const=None, expr=None):
        self.callee, self.param, self.val, self.node, self.func, self.const = callee, param, val, node, func, const
        self.expr = expr


class FlowEngine:
    def __init__(self, project: Project, api):
        self.P = project
        self.api = api              # set of short names that are analysis boundaries

    def is_boundary(self, f: Func):
        return f.short in self.api and f.parent is None

    def analyse(self, f: Func):
        fr = FlowFrame(self, f, {p: V({p}) for p in f.params}, [], [f])
        if f.vararg:
            fr.env[f.vararg] = V({f.vararg})
        if f.kwarg:
            fr.env[f.kwarg] = V({'**' + f.kwarg}, kv={})
        if f.is_method and f.params:
            fr.env[f.params[0]] = V({f.params[0]}, cls=f.cls)
        fr.out.ret = fr.run()
        fr.out.contents = {q: fr.env.get(q) for q in f.params}
        return fr.out


class Out:
    def __init__(self):
        self.events = []            # Event
        self.stores = {}            # 'self.attr' -> list of V
        self.used = set()           # origins reaching any sink
        self.ret = None
        self.contents = {}
        self.callees = set()


def leaves(b):
    return bool(b) and isinstance(b[-1], (ast.Return, ast.Continue, ast.Break))


class FlowFrame:
    def __init__(self, eng, func, env, ctrl, stack, out=None, selfname=None):
        self.E, self.P, self.f, self.m = eng, eng.P, func, func.module
        self.env, self.ctrl, self.stack = env, list(ctrl), stack
        self.out = out or Out()
        self.ret = None
        self.dctl = []

    @property
    def cflow(self):
        s = E0
        for c in self.ctrl:
            s |= c
        return s

    def sink(self, v: V):
        self.out.used |= v.all

    def run(self):
        self.block(self.f.node.body if isinstance(self.f.node.body, list) else [ast.Return(self.f.node.body)], self.env)
        return self.ret

    # ---- statements --------------------------------------------------------------
    before_raise = False

    def block(self, body, env):
        n = 0
        try:
            for st in body:
                self.before_raise = type(st) is ast.If and leaves(st.body) and isinstance(body[-1], ast.Raise)
                if self.stmt(st, env):
                    return True
                if type(st) is ast.If and (leaves(st.body) or leaves(st.orelse)) and not isinstance(body[-1], ast.Raise):
                    # what follows `if c: return` runs only under not c
                    self.ctrl.append(self.ev(st.test, dict(env)).all)
                    n += 1
        finally:
            del self.ctrl[len(self.ctrl) - n:]
        return False

    def merge(self, env, a, b):
        for k in set(a) | set(b):
            env[k] = vjoin(a.get(k), b.get(k))

    def stmt(self, st, env):
        t = type(st)
        if t is ast.Expr:
            v = self.ev(st.value, env)
            if isinstance(st.value, (ast.Yield, ast.YieldFrom)):
                self.sink(v)
        elif t in (ast.Assign, ast.AnnAssign):
            if st.value is None:
                return False
            v = self.ev(st.value, env).with_(c=self.cflow)
            for tg in (st.targets if t is ast.Assign else [st.target]):
                self.assign(tg, v, env)
        elif t is ast.AugAssign:
            v = self.ev(st.value, env).with_(c=self.cflow)
            cur = self.ev(_load(st.target), env)
            self.assign(st.target, vjoin(cur, v), env, aug=True)
        elif t is ast.Return:
            if st.value is not None:
                v = self.ev(st.value, env).with_(c=self.cflow)
                self.ret = vjoin(self.ret, v)
                self.sink(v)
            else:
                self.out.used |= self.cflow
            return True
        elif t is ast.Raise:
            if st.exc is not None:
                self.sink(self.ev(st.exc, env))
            self.out.used |= self.cflow
            return True
        elif t is ast.Assert:
            self.sink(self.ev(st.test, env))
        elif t is ast.If:
            tv = self.ev(st.test, env)
            self.narrow_test(st.test, tv)
            # `if bad: raise` accepts or refuses the call; it does not choose between results
            guard = self.before_raise or any(b and isinstance(b[-1], ast.Raise) for b in (st.body, st.orelse))
            self.ctrl.append(E0 if guard else tv.all)
            self.dctl.append(tv.d if len(tv.d) == 1 else E0)
            a, b = dict(env), dict(env)
            ra = self.block(st.body, a)
            rb = self.block(st.orelse, b)
            self.ctrl.pop()
            self.dctl.pop()
            if ra and rb:
                env.update(a)
                return True
            env.clear()
            if ra:
                env.update(b)
            elif rb:
                env.update(a)
            else:
                self.merge(env, a, b)
        elif t in (ast.For, ast.AsyncFor):
            it = self.ev(st.iter, env)
            self.sink(it)
            self.ctrl.append(it.all)
            for _ in range(2):
                e = dict(env)
                self.bind_loop(st.target, st.iter, it, e)
                self.block(st.body, e)
                self.merge(env, dict(env), e)
            self.ctrl.pop()
            self.block(st.orelse, env)
        elif t is ast.While:
            for _ in range(2):
                tv = self.ev(st.test, env)
                self.sink(tv)
                self.ctrl.append(tv.all)
                e = dict(env)
                self.block(st.body, e)
                self.ctrl.pop()
                self.merge(env, dict(env), e)
            self.block(st.orelse, env)
        elif t in (ast.With, ast.AsyncWith):
            for it in st.items:
                v = self.ev(it.context_expr, env)
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, v, env)
            return self.block(st.body, env)
        elif t is ast.Try or t.__name__ == 'TryStar':
            a = dict(env)
            r = self.block(st.body, a)
            r = self.block(st.orelse, a) or r
            hs = []
            for h in st.handlers:
                e = dict(env)
                self.merge(e, dict(env), a)
                if not self.block(h.body, e):
                    hs.append(e)
            acc = None if r else a
            for e in hs:
                if acc is None:
                    acc = e
                else:
                    n = {}
                    self.merge(n, acc, e)
                    acc = n
            dead = acc is None
            env.clear()
            env.update(acc if acc is not None else a)
            self.block(st.finalbody, env)
            return dead
        elif t in (ast.FunctionDef, ast.AsyncFunctionDef):
            sub = self.f.nested.get(st.name) or next((x for s in self.stack for x in s.nested.values() if x.node is st), None)
            env[st.name] = V(fn=('closure', sub, env) if sub is not None else None)
            for d in list(st.args.defaults) + [x for x in st.args.kw_defaults if x is not None] + list(st.decorator_list):
                self.ev(d, env)
        elif t is ast.Delete:
            for tg in st.targets:
                if isinstance(tg, (ast.Subscript, ast.Attribute)):
                    self.sink(self.ev(_load(tg), env))
        elif t is ast.Match:
            sv = self.ev(st.subject, env)
            self.ctrl.append(sv.all)
            self.sink(sv)
            outs = []
            for c in st.cases:
                e = dict(env)
                if not self.block(c.body, e):
                    outs.append(e)
            self.ctrl.pop()
            for e in outs:
                self.merge(env, dict(env), e)
        elif t in (ast.Break, ast.Continue):
            self.out.used |= self.cflow
            return False
        return False

    def narrow_test(self, test, tv):
        self.sink(tv)

    def bind_loop(self, tg, itexpr, it, env):
        if isinstance(itexpr, ast.Call) and dotted(itexpr.func) in ('zip', 'enumerate') and isinstance(tg, ast.Tuple):
            args = [self.ev(a, env) for a in itexpr.args]
            if dotted(itexpr.func) == 'enumerate':
                args = [V()] + args[:1]
            if len(args) == len(tg.elts):
                for e, a in zip(tg.elts, args):
                    self.assign(e, V(a.d, a.c), env)
                return
        self.assign(tg, V(it.d, it.c), env)

    def assign(self, tg, v, env, aug=False):
        if isinstance(tg, ast.Name):
            env[tg.id] = v
            for k in [k for k in env if k.startswith(tg.id + '.')]:
                del env[k]
        elif isinstance(tg, (ast.Tuple, ast.List)):
            if v.parts and len(v.parts) == len(tg.elts):
                for e, p in zip(tg.elts, v.parts):
                    self.assign(e, p.with_(c=self.cflow), env)
            else:
                for e in tg.elts:
                    self.assign(e.value if isinstance(e, ast.Starred) else e, V(v.d, v.c), env)
        elif isinstance(tg, ast.Attribute):
            b = self.ev(tg.value, env)
            d = dotted(tg)
            self.sink(v)
            if d:
                env[d] = v
                self.note_store(d, v, env)
            self.taint_base(tg.value, v, env)
        elif isinstance(tg, ast.Subscript):
            s = self.ev(tg.slice, env)
            b = self.ev(tg.value, env)
            self.sink(v)
            self.sink(s)
            ok, k = const_of(tg.slice)
            if isinstance(tg.value, ast.Name) and ok and isinstance(k, str):
                cur = env.get(tg.value.id)
                if cur is not None and cur.kv is not None:
                    kv = dict(cur.kv)
                    kv[k] = v
                    env[tg.value.id] = V(cur.d, cur.c, kv, cur.cls, cur.fn).with_(v.d, v.c)
                    return
            self.taint_base(tg.value, V(v.d | s.d, v.c | s.c), env)

    def note_store(self, d, v, env):
        parts = d.split('.')
        if len(parts) == 2 and self.stack[0].params and parts[0] == self.stack[0].params[0] and self.f is self.stack[0]:
            self.out.stores.setdefault('self.' + parts[1], []).append(v)

    def taint_base(self, n, v, env):
        while isinstance(n, (ast.Attribute, ast.Subscript, ast.Call)):
            if isinstance(n, ast.Attribute) and dotted(n) in env:
                env[dotted(n)] = env[dotted(n)].with_(v.d, v.c)
                return
            n = n.value if not isinstance(n, ast.Call) else n.func
        if isinstance(n, ast.Name) and n.id in env and not (self.f.is_method and self.f.params and n.id == self.f.params[0]):
            env[n.id] = env[n.id].with_(v.d, v.c)

    # ---- expressions -------------------------------------------------------------
    def ev(self, n, env) -> V:
        t = type(n)
        if t is ast.Name:
            if n.id in env:
                return env[n.id]
            for s in self.stack:
                if n.id in s.nested:
                    return V(fn=('closure', s.nested[n.id], env))
            r = self.P.resolve(self.m, n.id)
            if isinstance(r, (Func, Cls)):
                return V(fn=('ref', r))
            return NONE
        if t is ast.Constant:
            return NONE
        if t is ast.Attribute:
            d = dotted(n)
            if d:
                if d in env:
                    return env[d]
                head = d.split('.')[0]
                if head not in env:
                    r = self.P.resolve(self.m, d)
                    if isinstance(r, (Func, Cls)):
                        return V(fn=('ref', r))
                    return NONE
            b = self.ev(n.value, env)
            if isinstance(n.value, ast.Name) and self.f.is_method and self.f.params and n.value.id == self.f.params[0]:
                if b.cls is not None:
                    mth = b.cls.find(n.attr)
                    if mth is not None and not mth.is_property:
                        return V(fn=('bound', mth, b))
                return V({'self.' + n.attr} if len(self.stack) == 1 or 'self' in b.d else b.d)
            if b.cls is not None:
                mth = b.cls.find(n.attr)
                if mth is not None and not mth.is_property:
                    return V(b.d, b.c, fn=('bound', mth, b))
            return V(b.d, b.c)
        if t is ast.Subscript:
            b = self.ev(n.value, env)
            s = self.ev(n.slice, env)
            ok, k = const_of(n.slice)
            if ok and b.kv is not None and k in b.kv:
                return b.kv[k]
            if ok and isinstance(k, int) and b.parts and -len(b.parts) <= k < len(b.parts):
                return b.parts[k]
            return V(b.d | s.d, b.c | s.c)
        if t is ast.Call:
            return self.call(n, env)
        if t is ast.IfExp:
            tv = self.ev(n.test, env)
            self.sink(tv)
            v = vjoin(self.ev(n.body, env), self.ev(n.orelse, env))
            return v.with_(c=tv.all)
        if t is ast.BoolOp:
            v = None
            for x in n.values:
                v = vjoin(v, self.ev(x, env))
            return V(v.d, v.c, None, v.cls)
        if t is ast.Dict:
            kv, d, c = {}, set(), set()
            for k, x in zip(n.keys, n.values):
                xv = self.ev(x, env)
                d |= xv.d
                c |= xv.c
                if k is None:
                    if xv.kv is not None and kv is not None:
                        kv.update(xv.kv)
                    else:
                        kv = None
                    continue
                kvv = self.ev(k, env)
                d |= kvv.d
                ok, kc = const_of(k)
                if ok and kv is not None:
                    kv[kc] = xv
                else:
                    kv = None
            return V(d, c, kv)
        if t in (ast.Tuple, ast.List):
            ps = [self.ev(e, env) for e in n.elts]
            d = frozenset().union(*[p.d for p in ps]) if ps else E0
            c = frozenset().union(*[p.c for p in ps]) if ps else E0
            star = any(isinstance(e, ast.Starred) for e in n.elts)
            return V(d, c, parts=None if star or not ps else ps)
        if t in (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp):
            e = dict(env)
            c = set()
            for g in n.generators:
                it = self.ev(g.iter, e)
                self.bind_loop(g.target, g.iter, it, e)
                c |= it.c
                for i in g.ifs:
                    iv = self.ev(i, e)
                    c |= iv.all
            if t is ast.DictComp:
                v = vjoin(self.ev(n.key, e), self.ev(n.value, e))
            else:
                v = self.ev(n.elt, e)
            return V(v.d, v.c | c)
        if t is ast.Lambda:
            e = dict(env)
            for a in n.args.args:
                e[a.arg] = NONE
            v = self.ev(n.body, e)
            return V(v.d, v.c)
        if t is ast.NamedExpr:
            v = self.ev(n.value, env)
            self.assign(n.target, v, env)
            return v
        if t is ast.Await or t is ast.YieldFrom or t is ast.Yield:
            return self.ev(n.value, env) if n.value is not None else NONE
        if t is ast.Starred:
            return self.ev(n.value, env)
        d, c = set(), set()
        for ch in ast.iter_child_nodes(n):
            if isinstance(ch, (ast.expr, ast.Slice)):
                v = self.ev(ch, env)
                d |= v.d
                c |= v.c
        return V(d, c)

    # ---- calls --------------------------------------------------------------------
    def call(self, n, env):
        fn = n.func
        d = dotted(fn)
        args = [(a, self.ev(a.value if isinstance(a, ast.Starred) else a, env)) for a in n.args]
        kws = [(k.arg, k.value, self.ev(k.value, env)) for k in n.keywords]
        allv = V()
        for _, v in args:
            allv = allv.with_(v.d, v.c)
        for _, _, v in kws:
            allv = allv.with_(v.d, v.c)
        # ---- dict(...) -----------------------------------------------------------
        if d in ('dict', 'odict', 'OrderedDict') and d not in env:
            kv = {}
            for a, v in args:
                kv = dict(v.kv) if (v.kv is not None and kv is not None) else None
            for k, _, v in kws:
                if k is None:
                    if v.kv is not None and kv is not None:
                        kv.update(v.kv)
                    else:
                        kv = None
                elif kv is not None:
                    kv[k] = v
            return V(allv.d, allv.c, kv)
        if d is not None and d.split('.')[-1] == 'partial' and args and args[0][1].fn:
            return V(allv.d, allv.c, fn=('partial', args[0][1].fn, args[1:], kws, n))
        if d == 'super':
            b = (self.f.cls.bases[0] if self.f.cls and self.f.cls.bases else None)
            sv = env.get(self.f.params[0]) if self.f.params else NONE
            return V(sv.d if sv else E0, cls=b)
        if d in ('copy.deepcopy', 'copy.copy', 'deepcopy') and args:
            return args[0][1]
        fv = self.ev(fn, env)
        base = self.ev(fn.value, env) if isinstance(fn, ast.Attribute) else NONE
        if d == 'locals':
            for v in list(env.values()):
                self.sink(v)
            return V(frozenset().union(*[v.d for v in env.values()]) if env else E0)
        self.sink(V(fv.d, fv.c))
        # dict mutators
        if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and fn.value.id in env and not fv.fn:
            cur = env[fn.value.id]
            if fn.attr in ('update', 'setdefault') and cur.kv is not None:
                kv = dict(cur.kv)
                for a, v in args:
                    if v.kv is not None:
                        kv.update(v.kv)
                for k, _, v in kws:
                    if k:
                        kv[k] = v
                if fn.attr == 'setdefault' and args and const_of(n.args[0])[0] and len(args) > 1:
                    kv[const_of(n.args[0])[1]] = args[1][1]
                env[fn.value.id] = V(cur.d | allv.d, cur.c | allv.c, kv, cur.cls)
                self.sink(allv)
                return NONE
            if fn.attr == 'pop' and cur.kv is not None and n.args and const_of(n.args[0])[0]:
                k = const_of(n.args[0])[1]
                return cur.kv.get(k, V(cur.d, cur.c)) if cur.kv else V(cur.d | allv.d, cur.c)
            if fn.attr in ('append', 'extend', 'add', 'insert'):
                env[fn.value.id] = V(cur.d | allv.d, cur.c | allv.c | self.cflow, None, cur.cls)
        if fv.fn:
            return self.call_fn(fv.fn, n, args, kws, env, allv, base)
        # by-name method resolution for objects of unknown class
        ext_mod = d is not None and d.split('.')[0] not in env and d.split('.')[0] in self.m.imports
        if isinstance(fn, ast.Attribute) and base.cls is None and not ext_mod:
            cands = [m for m in self.P.methods_named(fn.attr) if not m.is_property]
            if len(cands) == 1 and not _common(fn.attr):
                return self.call_fn(('bound', cands[0], base), n, args, kws, env, allv, base)
        self.sink(allv)
        self.sink(base)
        name = fn.attr if isinstance(fn, ast.Attribute) else (d or '?')
        if name != '?':
            for k, x, v in kws:
                if k is None:
                    for kk, vv in (v.kv or {}).items():
                        self.event('ext:' + name, kk, vv, n)
                else:
                    self.event('ext:' + name, k, v, n, x)
            self.event('ext:' + name, None, V(), n)
        if isinstance(fn, ast.Attribute):
            self.taint_base(fn.value, V(E0, E0), env)
            return V(base.d | allv.d, base.c | allv.c)
        return V(allv.d, allv.c)

    def event(self, callee, param, v, n, expr=None):
        const = const_of(expr)[0] if expr is not None else False
        if param is None:
            v = V(E0, frozenset().union(*self.dctl))
        self.out.events.append(Event(callee, param, v, n, self.f, const, expr))

    def call_fn(self, ref, n, args, kws, env, allv, base):
        kind = ref[0]
        if kind == 'partial':
            return self.call_fn(ref[1], n, list(ref[2]) + args, list(ref[3]) + kws, env, allv, base)
        bound = None
        cls = None
        if kind == 'ref':
            tgt = ref[1]
            if isinstance(tgt, Cls):
                cls = tgt
                tgt = cls.find('__init__')
                if tgt is None:
                    self.sink(allv)
                    self.event('cls:' + cls.name, None, V(), n)
                    for k, x, v in kws:
                        if k:
                            self.event('cls:' + cls.name, k, v, n, x)
                    return V(allv.d, allv.c, cls=cls)
                bound = V(cls=cls)
            elif tgt.cls is not None and not tgt.is_static and tgt.is_classmethod:
                bound = V(cls=tgt.cls)
        elif kind == 'bound':
            tgt, bound = ref[1], (ref[2] if not ref[1].is_static else None)
        else:
            tgt = ref[1]
        # bind
        pos = list(tgt.pos_params)
        binding, unknown, ss = {}, False, []
        if bound is not None and pos:
            binding[pos[0]] = bound
            pos = pos[1:]
        i = 0
        star = None
        for a, v in args:
            if isinstance(a, ast.Starred):
                if v.parts:
                    for pv in v.parts:
                        if i < len(pos):
                            binding[pos[i]] = pv
                            i += 1
                else:
                    star = vjoin(star, v)
            elif i < len(pos):
                binding[pos[i]] = v
                i += 1
        exprs = {}
        for a, (ae, v) in zip(pos, [x for x in args if not isinstance(x[0], ast.Starred)]):
            exprs[a] = ae
        rest = {}
        for k, x, v in kws:
            if k is None:
                if v.kv is not None:
                    for kk, vv in v.kv.items():
                        if kk in tgt.params:
                            binding.setdefault(kk, vv)
                        else:
                            rest[kk] = vv
                    ownkw = [o for o in v.d if o.startswith('**')]
                    if not v.kv and not ownkw:
                        pass
                else:
                    ss.append(v)
            elif k in tgt.params:
                binding[k] = v
                exprs[k] = x
            else:
                rest[k] = v
        self.out.callees.add(tgt.short)
        boundary = self.E.is_boundary(tgt) or tgt in self.stack or len(self.stack) > 6
        if boundary:
            self.sink(allv)
            if bound is not None:
                self.sink(bound)
            self.event(tgt.short, None, V(), n)
            for q in tgt.params:
                if bound is not None and tgt.pos_params and q == tgt.pos_params[0]:
                    continue
                if q in binding:
                    self.event(tgt.short, q, binding[q].with_(c=E0), n, exprs.get(q))
                elif ss or star is not None:
                    v = V()
                    for s in ss + ([star] if star is not None else []):
                        v = vjoin(v, s)
                    self.event(tgt.short, q, V(v.d | {'?'}, v.c), n)
            for k, v in rest.items():
                self.event(tgt.short, k, v, n)
            r = V(allv.d | (bound.d if bound is not None else E0), allv.c)
            if cls is not None:
                r.cls = cls
            elif tgt.is_classmethod and bound is not None:
                r.cls = bound.cls
            return r
        # inline helper (its own arguments are recorded too)
        self.event(tgt.short, None, V(), n)
        for q in tgt.params:
            if q in binding and not (bound is not None and tgt.pos_params and q == tgt.pos_params[0]):
                self.event(tgt.short, q, binding[q], n, exprs.get(q))
            elif (ss or star is not None) and q not in binding:
                self.event(tgt.short, q, V({'?'}), n)
        if kind == 'closure':
            cenv = dict(ref[2])
        else:
            cenv = {}
        dflt = tgt.defaults
        for q in tgt.params:
            if q in binding:
                cenv[q] = binding[q]
            elif ss or star is not None:
                v = V({'?'})
                for s in ss + ([star] if star is not None else []):
                    v = vjoin(v, s)
                cenv[q] = V(v.d, v.c)
            else:
                cenv[q] = NONE
            for k in [k for k in cenv if k.startswith(q + '.')]:
                del cenv[k]
        if tgt.kwarg:
            d = frozenset().union(*[v.d for v in rest.values()]) if rest else E0
            unk = bool(ss)
            cenv[tgt.kwarg] = V(d | ({'?'} if unk else E0), E0, dict(rest) if not unk else None)
        if tgt.vararg:
            cenv[tgt.vararg] = star or NONE
        sub = FlowFrame(self.E, tgt, cenv, self.ctrl, [tgt] + self.stack, self.out)
        # keep the analysed function last in .stack for stores
        sub.stack = self.stack + [tgt]
        sub.dctl = list(self.dctl)
        r = sub.run()
        for q, v in binding.items():     # helper may have stored into a mutable argument: keep it simple
            pass
        r = r or NONE
        if cls is not None:
            return V(allv.d, allv.c, cls=cls)
        return r


def _common(name):
    return name in ('read', 'write', 'get', 'keys', 'values', 'items', 'update', 'pop', 'append', 'extend', 'insert', 'sort', 'index',
                    'copy', 'clear', 'select', 'run', 'shape', 'conj', 'filter', 'sum', 'mean')


def _load(t):
    import copy
    t = copy.copy(t)
    if hasattr(t, 'ctx'):
        t.ctx = ast.Load()
    return t
