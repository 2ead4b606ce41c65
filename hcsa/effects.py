"""Interprocedural alias + mutation-effect analysis (flow sensitive, context sensitive on constant flags).

Abstract value  Val(own, elem, ...):  own  = roots whose storage *is* (or is viewed by) this object
                                      elem = roots whose storage is reachable inside this object
A root is (name, depth): ('p:data', 0) is the argument object itself, ('p:data', 1) anything inside it;
'g:mod.NAME' are module-level objects.  An effect is a write that may reach a root.
"""
from __future__ import annotations
import ast
from .core import Project, Func, Cls, Module, dotted, bind, const_of, src_of, AnalysisBroken

NOCONST = object()
E0 = frozenset()
MAXDEPTH = 3


class Val:
    __slots__ = ('own', 'elem', 'tags', 'const', 'fns', 'parts', 'kv', 'cls')

    def __init__(self, own=E0, elem=E0, tags=E0, const=NOCONST, fns=(), parts=None, kv=None, cls=E0):
        self.own, self.elem, self.tags, self.const = frozenset(own), frozenset(elem), frozenset(tags), const
        self.fns, self.parts, self.kv, self.cls = tuple(fns), parts, kv, frozenset(cls)

    def key(self):
        return (self.own, self.elem, self.tags, self.cls, tuple(p.key() for p in self.parts) if self.parts else None,
                tuple(sorted((k, v.key()) for k, v in self.kv.items())) if self.kv else None)

    def item(self):
        return Val(self.elem, self.elem)

    def reach(self):
        return self.own | self.elem

    def but(self, **k):
        d = dict(own=self.own, elem=self.elem, tags=self.tags, const=self.const, fns=self.fns, parts=self.parts, kv=self.kv, cls=self.cls)
        d.update(k)
        return Val(**d)


FRESH = Val()
ND = Val(tags={'nd'})
SC = Val(tags={'scalar'})


def join(a, b):
    if a is b:
        return a
    if a is None:
        return b
    if b is None:
        return a
    const = a.const if (a.const is not NOCONST and b.const is not NOCONST and type(a.const) is type(b.const) and a.const == b.const) else NOCONST
    # a None constant carries no storage: keep the other side's tags
    an = a.const is None and not a.own and not a.elem
    bn = b.const is None and not b.own and not b.elem
    tags = b.tags if an else a.tags if bn else a.tags & b.tags
    cls = a.cls | b.cls
    parts = None
    if a.parts and b.parts and len(a.parts) == len(b.parts):
        parts = tuple(join(x, y) for x, y in zip(a.parts, b.parts))
    elif a.parts and bn:
        parts = a.parts
    elif b.parts and an:
        parts = b.parts
    kv = None
    if a.kv is not None and b.kv is not None:
        kv = {k: join(a.kv.get(k), b.kv.get(k)) for k in set(a.kv) | set(b.kv)}
    fns = a.fns + tuple(f for f in b.fns if f not in a.fns)
    return Val(a.own | b.own, a.elem | b.elem, tags, const, fns[:6], parts, kv, cls)


class FnRef:
    __slots__ = ('func', 'self_val', 'pargs', 'pkw', 'env', 'lam')

    def __init__(self, func=None, self_val=None, pargs=(), pkw=None, env=None, lam=None):
        self.func, self.self_val, self.pargs, self.pkw, self.env, self.lam = func, self_val, pargs, pkw or {}, env, lam

    def __eq__(self, o):
        return isinstance(o, FnRef) and self.func is o.func and self.lam is o.lam

    def __hash__(self):
        return hash((id(self.func), id(self.lam)))


class Summary:
    def merged(self, o):
        for k, w in o.effects.items():
            self.effects.setdefault(k, w)
        for k, r in o.stores.items():
            self.stores[k] = self.stores.get(k, E0) | r
        self.ret = join(self.ret, o.ret) if self.ret is not None and o.ret is not None else (self.ret or o.ret)
        return self

    def __init__(self):
        self.effects = {}    # (root,depth) -> witness list[str]
        self.ret = None      # Val
        self.stores = {}     # (root,depth) -> frozenset of roots stored inside it
        self.cstores = {}    # root -> class names etc (unused)

    def key(self):
        return (frozenset(self.effects), self.ret.key() if self.ret else None,
                frozenset((k, v) for k, v in self.stores.items()))


# external knowledge ---------------------------------------------------------------------------
MUT_METHODS = {'append', 'extend', 'insert', 'remove', 'pop', 'clear', 'sort', 'reverse', 'update', 'setdefault',
               'popitem', 'add', 'discard', 'fill', 'put', 'resize', 'itemset', 'partition', 'difference_update',
               'intersection_update', 'symmetric_difference_update', 'appendleft', 'popleft', '__setitem__',
               'set_data', 'set_flags', 'set_nsamples', 'conjugate_bls', 'reorder_blts', 'to_baseline', 'to_antenna',
               'to_flag', 'to_metric', 'set_uvws_from_antenna_positions', 'set_feeds_from_x_orientation',
               'downsample_in_time', 'upsample_in_time', 'phase', 'setflags', 'move_to_end', '__setattr__',
               'reorder_freqs', 'reorder_pols', 'set_lsts_from_time_array', 'convert_to_flex_pol',
               'sort_times', 'collapse_pol'}
# mutate the receiver unless inplace=False is passed (pyuvdata conventions)
MUT_INPLACE_DEFAULT = {'select', 'compress_by_redundancy', 'inflate_by_redundancy', 'sum_vis', 'diff_vis', '__add__x'}
EXT_READ = {'read', 'read_uvh5', 'read_calfits', 'read_uvfits', 'read_miriad', 'read_metadata'}
# methods returning storage shared with the receiver
VIEW_METHODS = {'reshape', 'ravel', 'transpose', 'squeeze', 'swapaxes', 'view', 'get', 'values', 'items', 'real', 'imag',
                'diagonal', 'T', 'get_data', 'get_flags', 'get_nsamples', 'setdefault', 'pop', 'popitem', '__getitem__', '__getattribute__',
                'filled_view', 'newbyteorder'}
SCALAR_ATTRS = {'shape', 'size', 'ndim', 'dtype', 'Ntimes', 'Nfreqs', 'Npols', 'Nbls', 'Nblts', 'history', 'itemsize',
                'unit', 'name', 'Nspws', 'Nants_data', 'Njones', 'gain_scale', 'cal_style', 'gain_convention', 'label'}
VIEW_FUNCS = {'numpy.ma.asarray', 'numpy.ma.asanyarray', 'numpy.ma.getdata', 'numpy.ma.getmask', 'numpy.ma.reshape', 'numpy.ma.ravel', 'numpy.ma.squeeze',
              'numpy.ma.transpose', 'numpy.ma.swapaxes', 'numpy.ma.expand_dims', 'numpy.require', 'numpy.asfortranarray',
              'numpy.asarray_chkfinite', 'numpy.vsplit', 'numpy.hsplit', 'numpy.dsplit', 'numpy.asarray', 'numpy.asanyarray', 'numpy.ascontiguousarray', 'numpy.ravel', 'numpy.reshape', 'numpy.squeeze',
              'numpy.transpose', 'numpy.swapaxes', 'numpy.moveaxis', 'numpy.rollaxis', 'numpy.expand_dims', 'numpy.atleast_1d',
              'numpy.atleast_2d', 'numpy.atleast_3d', 'numpy.broadcast_to', 'numpy.real', 'numpy.imag', 'numpy.flipud',
              'numpy.fliplr', 'numpy.flip', 'numpy.diagonal', 'numpy.broadcast_arrays', 'numpy.split', 'numpy.array_split',
              'numpy.rot90', 'numpy.lib.stride_tricks.as_strided', 'numpy.lib.stride_tricks.sliding_window_view'}
MASKVIEW_FUNCS = {'numpy.ma.masked_array', 'numpy.ma.MaskedArray', 'numpy.ma.array', 'numpy.ma.masked_where', 'numpy.ma.masked_invalid'}
# shallow copies: new outer object, shared contents
SHALLOW_FUNCS = {'list', 'tuple', 'dict', 'set', 'frozenset', 'sorted', 'reversed', 'iter', 'zip', 'enumerate', 'map', 'filter',
                 'collections.OrderedDict', 'copy.copy', 'itertools.chain', 'itertools.product', 'itertools.zip_longest',
                 'collections.defaultdict', 'collections.deque', 'next', 'max', 'min', 'odict', 'itertools.combinations', 'vars'}
MUT_FUNCS = {'numpy.copyto': [0], 'numpy.put': [0], 'numpy.fill_diagonal': [0], 'numpy.place': [0], 'numpy.putmask': [0],
             'random.shuffle': [0], 'numpy.random.shuffle': [0], 'numpy.add.at': [0], 'numpy.subtract.at': [0],
             'numpy.multiply.at': [0], 'numpy.put_along_axis': [0], 'setattr': [0], 'delattr': [0],
             'heapq.heappush': [0], 'heapq.heapify': [0], 'bisect.insort': [0]}
SCALAR_FUNCS = {'int', 'float', 'str', 'bool', 'len', 'complex', 'repr', 'isinstance', 'hasattr', 'callable', 'id', 'hash', 'type',
                'round', 'abs', 'sum', 'any', 'all', 'ord', 'chr', 'print', 'open'}


def _scalar_type_text(t):
    t = t.strip().lower()
    import re
    if re.search(r'array|list|dict|container|sequence|iterable|ndarray|object|uvdata|hera|np\.|tuple of (nd|ar)|callable|set\b', t):
        return False
    return bool(re.match(r'^(optional\s+)?(float|int|integer|bool|boolean|str|string|scalar|complex|number|positive int|path)\b', t))


def doc_types(func: Func):
    """param -> 'scalar' | 'dict' | 'list' | 'nd' guess from annotation, default and docstring."""
    import re
    out = {}
    args = func.node.args
    for a in args.posonlyargs + args.args + args.kwonlyargs:
        if a.annotation is not None:
            t = src_of(a.annotation, 200)
            tl = t.replace(' ', '')
            base = [x for x in tl.split('|') if x != 'None']
            if base and all(x in ('int', 'float', 'str', 'bool', 'complex', 'Path') or x.startswith(('Literal', 'tuple[float', 'tuple[int', 'tuple[str')) for x in base):
                out[a.arg] = 'scalar'
            elif base and all('ndarray' in x or 'Array' in x for x in base):
                out[a.arg] = 'ndp'
            elif base and all(x.startswith(('dict', 'Dict')) for x in base):
                out[a.arg] = 'dict'
    for p, d in func.defaults.items():
        ok, v = const_of(d)
        if ok and v is not None and p not in out:
            out[p] = 'scalar'
        elif isinstance(d, ast.Dict):
            out.setdefault(p, 'dict')
        elif isinstance(d, ast.BinOp) and not any(isinstance(n, (ast.List, ast.Tuple)) for n in ast.walk(d)):
            out.setdefault(p, 'scalar')
    doc = func.doc()
    if func.name == '__init__' and func.cls is not None:
        doc += '\n' + (ast.get_docstring(func.cls.node) or '')
    for line in doc.splitlines():
        m = re.match(r'^\s*(?:[-*]\s*)?([A-Za-z_]\w*)\s*(?:\(([^)]*)\))?\s*:\s*(.*)$', line)
        if not m:
            m2 = re.match(r'^\s*([A-Za-z_]\w*)\s*--?\s*(.*)$', line)
            if not m2:
                continue
            nm, txt = m2.group(1), m2.group(2)
        else:
            nm, txt = m.group(1), (m.group(2) or m.group(3))
        if nm in func.params and nm not in out:
            if _scalar_type_text(txt):
                out[nm] = 'scalar'
            elif re.match(r'^(a\s+)?(dict|dictionary|DataContainer)', txt.strip()):
                out[nm] = 'dict'
            elif re.match(r'^(\w+-?D(imensional)?\s+)?(nd|numpy |np\.nd)?array', txt.strip(), re.I):
                out[nm] = 'ndp'
    return out


class Engine:
    def __init__(self, project: Project, flag_ctx=True):
        self.P = project
        self.memo = {}          # (func, ctxkey) -> Summary
        self.requested = []
        self._doct = {}
        self._flagp = {}
        self._splits = {}
        self.changed = False
        self.inprog = set()
        self.ncalls = 0
        self.nresolved = 0

    # -- flags worth context sensitivity: params tested for truth / None / equality with constants
    def flag_params(self, f: Func):
        if f in self._flagp:
            return self._flagp[f]
        ps = set(f.params)
        out = set()
        for n in ast.walk(f.node):
            tests = []
            if isinstance(n, (ast.If, ast.IfExp, ast.While)):
                tests = [n.test]
            for t in tests:
                for c in ast.walk(t):
                    if isinstance(c, ast.Name) and c.id in ps:
                        out.add(c.id)
            if isinstance(n, ast.Call):      # forwarded flags
                for k in n.keywords:
                    if isinstance(k.value, ast.Name) and k.value.id in ps and k.arg in ('inplace', 'copy', 'in_place', 'overwrite'):
                        out.add(k.value.id)
                    if isinstance(k.value, ast.UnaryOp) and isinstance(k.value.operand, ast.Name) and k.value.operand.id in ps:
                        out.add(k.value.operand.id)
        # only flags: boolean default or conventional name
        res = set()
        for p in out:
            d = f.defaults.get(p)
            ok, v = const_of(d) if d is not None else (False, None)
            if (ok and isinstance(v, bool)) or p in ('inplace', 'copy', 'in_place'):
                res.add(p)
        self._flagp[f] = res
        return res

    def splits(self, f: Func):
        """path sensitivity on local boolean names assigned once at the top level and tested at least twice"""
        if f not in self._splits:
            count, tests, top = {}, {}, set()
            for st in f.node.body:
                if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name) \
                        and not isinstance(st.value, (ast.Constant, ast.List, ast.Dict, ast.Tuple)):
                    top.add(st.targets[0].id)
            for n in ast.walk(f.node):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    count[n.id] = count.get(n.id, 0) + 1
                if isinstance(n, (ast.If, ast.IfExp)):
                    t = n.test
                    while isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
                        t = t.operand
                    for x in (t.values if isinstance(t, ast.BoolOp) else [t]):
                        if isinstance(x, ast.Name):
                            tests[x.id] = tests.get(x.id, 0) + 1
            names = sorted(n for n in top if count.get(n) == 1 and tests.get(n, 0) >= 2 and n not in f.params)[:2]
            out = [{}]
            for n in names:
                out = [dict(a, **{n: v}) for a in out for v in (True, False)]
            self._splits[f] = out
        return self._splits[f]

    def doct(self, f):
        if f not in self._doct:
            self._doct[f] = doc_types(f)
        return self._doct[f]

    def summary(self, f: Func, ctx=None):
        ctx = {k: v for k, v in (ctx or {}).items() if k in self.flag_params(f) and isinstance(v, bool)}
        key = (f, tuple(sorted(ctx.items())))
        if key not in self.memo:
            self.memo[key] = Summary()
            self.requested.append(key)
            self._compute(key)
        return self.memo[key]

    def _compute(self, key):
        f, ctxk = key
        if key in self.inprog or len(self.inprog) > 60:
            return
        self.inprog.add(key)
        try:
            s = None
            for assume in self.splits(f):
                fr = Frame(self, f, dict(ctxk))
                fr.assume = assume
                s1 = fr.run()
                s = s1 if s is None else s.merged(s1)
        finally:
            self.inprog.discard(key)
        old = self.memo[key]
        if s.key() != old.key():
            self.changed = True
        # keep first witnesses
        for k, w in old.effects.items():
            s.effects.setdefault(k, w)
        self.memo[key] = s

    def solve(self, roots, maxrounds=8):
        """roots: list of (func, ctx)"""
        for f, ctx in roots:
            self.summary(f, ctx)
        for i in range(maxrounds):
            self.changed = False
            for key in list(self.requested):
                self._compute(key)
            if not self.changed:
                break
        self.rounds = i + 1


class Frame:
    """abstract execution of one function"""
    def __init__(self, eng: Engine, func: Func, ctx):
        self.E, self.P, self.f, self.m = eng, eng.P, func, func.module
        self.S = Summary()
        self.ctx = ctx
        self.stack = [func]
        self.scalar_params = set()
        self.assume = {}

    # ---------------------------------------------------------------- entry
    def run(self):
        f = self.f
        env = {}
        dt = self.E.doct(f)
        for i, p in enumerate(f.params):
            r = 'p:' + p
            tags = {dt[p]} if p in dt else set()
            if p in self.ctx:
                env[p] = Val(const=self.ctx[p], tags={'scalar'})
                continue
            v = Val({(r, 0)}, {(r, 1)}, tags)
            if i == 0 and f.is_method:
                v = v.but(cls={f.cls}) if not f.is_classmethod else Val(fns=(FnRef(func=f.cls),), own={(r, 0)}, elem={(r, 1)}, tags={'clsobj'})
            else:
                ann = next((a.annotation for a in f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs if a.arg == p), None)
                if ann is not None:
                    cs = set()
                    for nm in ast.walk(ann):
                        d = dotted(nm) if isinstance(nm, (ast.Name, ast.Attribute)) else None
                        if isinstance(nm, ast.Constant) and isinstance(nm.value, str):
                            d = nm.value
                        c = self.P.resolve(self.m, d) if d else None
                        if isinstance(c, Cls):
                            cs.add(c)
                    if cs:
                        v = v.but(cls=cs)
            if 'scalar' in tags:
                v = Val(tags={'scalar'})
            env[p] = v
        if f.vararg:
            r = 'p:' + f.vararg
            env[f.vararg] = Val({(r, 0)}, {(r, 1)}, {'tuple'})
        if f.kwarg:
            r = 'p:' + f.kwarg
            env[f.kwarg] = Val(E0, {(r, 1)}, {'dict'}, kv=None)   # the dict itself is fresh per call
        self.exec_block(f.node.body, env)
        if self.S.ret is None:
            self.S.ret = Val(const=None)
        return self.S

    # ---------------------------------------------------------------- effects
    def mutate(self, roots, node, what=''):
        for r in roots:
            if r not in self.S.effects:
                self.S.effects[r] = [f'{self.m.relpath}:{node.lineno} {self.f.short.split(":")[1]}: {what or src_of(node, 70)}']

    def mutate_via(self, roots, node, callee, wit):
        for r in roots:
            if r not in self.S.effects:
                self.S.effects[r] = ([f'{self.m.relpath}:{node.lineno} {self.f.short.split(":")[1]}: {src_of(node, 70)}'] + list(wit))[:8]

    def store_into(self, roots, val):
        reach = frozenset(val.reach())
        if not reach:
            return
        for r in roots:
            self.S.stores[r] = self.S.stores.get(r, E0) | reach

    # ---------------------------------------------------------------- statements
    def exec_block(self, body, env):
        """returns True when control cannot fall through"""
        for st in body:
            if self.exec(st, env):
                return True
        return False

    @staticmethod
    def merge(env, a, b):
        for k in set(a) | set(b):
            if '[' in k and not (k in a and k in b):
                env.pop(k, None)
                a.pop(k, None)
                b.pop(k, None)
                continue
            env[k] = join(a.get(k), b.get(k))
        for k in list(env):
            if k not in a and k not in b:
                del env[k]

    def exec(self, st, env):
        t = type(st)
        if t is ast.Expr:
            self.ev(st.value, env)
        elif t is ast.Assign:
            v = self.ev(st.value, env)
            for tgt in st.targets:
                self.assign(tgt, v, env, st)
        elif t is ast.AnnAssign:
            if st.value is not None:
                self.assign(st.target, self.ev(st.value, env), env, st)
        elif t is ast.AugAssign:
            self.aug(st, env)
        elif t is ast.Return:
            v = self.ev(st.value, env) if st.value is not None else Val(const=None)
            self.S.ret = join(self.S.ret, v)
            return True
        elif t is ast.Raise:
            if st.exc is not None:
                self.ev(st.exc, env)
            return True
        elif t in (ast.Continue, ast.Break):
            # approximate: state joins at loop level
            if self.loopenvs:
                self.merge_into(self.loopenvs[-1], env)
            return True
        elif t is ast.If:
            c = self.truth(st.test, env)
            self.ev(st.test, env)
            if c is True:
                return self.exec_block(st.body, env)
            if c is False:
                return self.exec_block(st.orelse, env)
            e1, e2 = dict(env), dict(env)
            self.narrow(st.test, e1, True)
            self.narrow(st.test, e2, False)
            d1 = self.exec_block(st.body, e1)
            d2 = self.exec_block(st.orelse, e2)
            if d1 and d2:
                return True
            if d1:
                env.clear(); env.update(e2)
            elif d2:
                env.clear(); env.update(e1)
            else:
                self.merge(env, e1, e2)
        elif t in (ast.For, ast.AsyncFor):
            it = self.ev(st.iter, env)
            self.loop(st, env, lambda e: self.bind_iter(st.target, st.iter, it, e, st))
        elif t is ast.While:
            self.ev(st.test, env)
            self.loop(st, env, lambda e: None)
        elif t in (ast.With, ast.AsyncWith):
            for item in st.items:
                v = self.ev(item.context_expr, env)
                if item.optional_vars is not None:
                    self.assign(item.optional_vars, v, env, st)
            return self.exec_block(st.body, env)
        elif t is ast.Try:
            e0 = dict(env)
            d = self.exec_block(st.body, env)
            after = None if d else dict(env)
            hb = dict(env)
            self.merge(hb, dict(env), e0)
            for h in st.handlers:
                eh = dict(hb)
                if h.name:
                    eh[h.name] = FRESH
                if not self.exec_block(h.body, eh):
                    if after is None:
                        after = eh
                    else:
                        m_ = {}
                        self.merge(m_, after, eh)
                        after = m_
            if after is not None and not d:
                env.clear(); env.update(after)
                if self.exec_block(st.orelse, env):
                    after = None
            elif after is not None:
                env.clear(); env.update(after)
            dd = self.exec_block(st.finalbody, env)
            return after is None or dd
        elif t in (ast.FunctionDef, ast.AsyncFunctionDef):
            q = self.stack[-1].nested.get(st.name) if self.stack[-1].nested else None
            env[st.name] = Val(fns=(FnRef(func=q, env=env) if q else FnRef(lam=st, env=env),))
        elif t is ast.ClassDef:
            env[st.name] = FRESH
        elif t is ast.Delete:
            for tg in st.targets:
                if isinstance(tg, ast.Subscript):
                    v = self.ev(tg.value, env)
                    self.mutate(v.own, st)
                elif isinstance(tg, ast.Attribute):
                    v = self.ev(tg.value, env)
                    self.mutate(v.own, st)
                elif isinstance(tg, ast.Name):
                    env.pop(tg.id, None)
        elif t is ast.Global:
            for nm in st.names:
                r = f'g:{self.m.name}.{nm}'
                env[nm] = Val({(r, 0)}, {(r, 1)})
                self.globals_declared.add(nm)
        elif t is ast.Assert:
            self.ev(st.test, env)
        elif t is ast.Match:
            v = self.ev(st.subject, env)
            outs = []
            for case in st.cases:
                e1 = dict(env)
                for n in ast.walk(case.pattern):
                    if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
                        e1[n.name] = Val(v.reach(), v.elem)
                if not self.exec_block(case.body, e1):
                    outs.append(e1)
            outs.append(dict(env))
            acc = outs[0]
            for o in outs[1:]:
                m_ = {}
                self.merge(m_, acc, o)
                acc = m_
            env.clear(); env.update(acc)
        return False

    loopenvs = ()
    globals_declared = set()

    def merge_into(self, acc, env):
        for k, v in env.items():
            if '[' in k:
                acc.pop(k, None)
                continue
            acc[k] = join(acc.get(k), v) if k in acc else v

    def loop(self, st, env, binder):
        for k in [k for k in env if '[' in k]:
            del env[k]
        acc = dict(env)
        self.loopenvs = list(self.loopenvs) + [dict(env)]
        for _ in range(3):
            e = dict(acc)
            binder(e)
            self.exec_block(st.body, e)
            new = dict(acc)
            self.merge_into(new, e)
            self.merge_into(new, self.loopenvs[-1])
            if all(k in acc and acc[k].key() == new[k].key() for k in new):
                acc = new
                break
            acc = new
        self.loopenvs = self.loopenvs[:-1]
        self.exec_block(st.orelse, acc)
        env.clear()
        env.update(acc)

    def bind_iter(self, target, iterexpr, itval, env, st):
        """position-wise binding for zip/enumerate/items"""
        if isinstance(target, (ast.Tuple, ast.List)) and isinstance(iterexpr, ast.Call):
            d = dotted(iterexpr.func)
            if d == 'zip' and len(iterexpr.args) == len(target.elts):
                for t, a in zip(target.elts, iterexpr.args):
                    self.assign(t, self.ev(a, env).item(), env, st)
                return
            if d == 'enumerate' and len(target.elts) == 2 and iterexpr.args:
                self.assign(target.elts[0], SC, env, st)
                self.bind_iter(target.elts[1], iterexpr.args[0], self.ev(iterexpr.args[0], env), env, st)
                return
            if isinstance(iterexpr.func, ast.Attribute) and iterexpr.func.attr == 'items' and len(target.elts) == 2:
                base = self.ev(iterexpr.func.value, env)
                self.assign(target.elts[0], Val(tags={'scalar'}), env, st)
                iv = base.item()
                if base.kv:
                    pass
                self.assign(target.elts[1], iv, env, st)
                return
        if isinstance(iterexpr, ast.Call) and isinstance(iterexpr.func, ast.Attribute) and iterexpr.func.attr == 'keys':
            self.assign(target, Val(tags={'scalar'}), env, st)
            return
        if isinstance(iterexpr, ast.Call) and dotted(iterexpr.func) == 'range':
            self.assign(target, SC, env, st)
            return
        if itval.parts and not isinstance(target, (ast.Tuple, ast.List)):
            v = None
            for p in itval.parts:
                v = join(v, p)
            self.assign(target, v or FRESH, env, st)
            return
        if itval.parts:
            v = None
            for p in itval.parts:
                v = join(v, p)
            self.assign(target, v or FRESH, env, st)
            return
        if 'dict' in itval.tags:       # iterating a mapping yields keys
            self.assign(target, Val(tags={'scalar'}), env, st)
            return
        self.assign(target, itval.item(), env, st)

    def assign(self, tgt, v, env, st):
        if isinstance(tgt, ast.Name):
            if tgt.id in self.globals_declared:
                self.mutate({(f'g:{self.m.name}.{tgt.id}', 0)}, st)
                return
            if tgt.id in self.assume:
                v = Val(const=self.assume[tgt.id], tags={'scalar'})
            env[tgt.id] = v
            self.drop_fields(tgt.id, env)
        elif isinstance(tgt, (ast.Tuple, ast.List)):
            star = any(isinstance(e, ast.Starred) for e in tgt.elts)
            if v.parts and len(v.parts) == len(tgt.elts) and not star:
                for e, p in zip(tgt.elts, v.parts):
                    self.assign(e, p, env, st)
            else:
                for e in tgt.elts:
                    if isinstance(e, ast.Starred):
                        self.assign(e.value, Val(E0, v.elem, {'list'}), env, st)
                    else:
                        self.assign(e, Val(v.elem, v.elem, v.tags & {'scalar', 'nd'}), env, st)
        elif isinstance(tgt, ast.Subscript):
            base = self.ev(tgt.value, env)
            self.ev(tgt.slice, env)
            roots = base.own | (base.elem if 'maskview' in base.tags else E0)
            self.mutate(roots, st)
            if isinstance(tgt.value, ast.Name):
                for k in [k for k in env if k.startswith(tgt.value.id + '[')]:
                    del env[k]
            sl = tgt.slice
            arraystore = (isinstance(sl, ast.Tuple) and any(isinstance(e, ast.Slice) for e in sl.elts)) or \
                isinstance(sl, ast.Compare) or (isinstance(sl, ast.UnaryOp) and isinstance(sl.op, ast.Invert))
            if not arraystore and not ({'nd', 'ndp', 'maskview'} & base.tags) and 'scalar' not in v.tags:
                self.store_into(base.own, v)
                self.absorb(tgt.value, v, env)
                sk = self.sub_key(tgt)
                if sk and not base.own:
                    env[sk] = v
                if isinstance(tgt.value, ast.Name):
                    ok, c = const_of(tgt.slice)
                    bv = env.get(tgt.value.id)
                    if ok and isinstance(c, str) and bv is not None and bv.kv is not None:
                        kv = dict(bv.kv)
                        kv[c] = v
                        env[tgt.value.id] = bv.but(kv=kv)
        elif isinstance(tgt, ast.Attribute):
            base = self.ev(tgt.value, env)
            self.mutate(base.own, st)
            if 'scalar' not in v.tags and tgt.attr not in SCALAR_ATTRS:
                self.store_into(base.own, v)
                self.absorb(tgt.value, v, env)
            if isinstance(tgt.value, ast.Name) and not self.has_setter(base, tgt.attr):
                env[f'{tgt.value.id}.{tgt.attr}'] = v
        elif isinstance(tgt, ast.Starred):
            self.assign(tgt.value, v, env, st)

    @staticmethod
    def drop_fields(name, env):
        pre = (name + '.', name + '[')
        for k in [k for k in env if k.startswith(pre) or (k[-1] == ']' and name in k.split('[', 1)[1][:-1].split(','))]:
            del env[k]

    @staticmethod
    def sub_key(n):
        """x[k] / x[i,j] with plain names or constants -> access path text"""
        if not isinstance(n.value, ast.Name):
            return None
        el = n.slice.elts if isinstance(n.slice, ast.Tuple) else [n.slice]
        out = []
        for e in el:
            if isinstance(e, ast.Name):
                out.append(e.id)
            elif isinstance(e, ast.Constant) and isinstance(e.value, (int, str)):
                out.append(repr(e.value))
            else:
                return None
        return f'{n.value.id}[{",".join(out)}]'

    def drop_mutated_fields(self, env, roots):
        """a callee may have rebound attributes of these objects"""
        for k in [k for k in env if '.' in k]:
            b = env.get(k.split('.')[0])
            if b is None or (b.own & roots):
                env.pop(k, None)

    def has_setter(self, base, attr):
        for c in base.cls:
            for k in c.mro():
                m = k.methods.get(attr)
                if m is not None:
                    return True
        return False

    def absorb(self, baseexpr, v, env):
        """contents of the root variable now may alias v"""
        n = baseexpr
        while isinstance(n, (ast.Attribute, ast.Subscript, ast.Call)):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and f'{n.value.id}.{n.attr}' in env:
                k = f'{n.value.id}.{n.attr}'
                env[k] = env[k].but(elem=env[k].elem | v.reach())
            n = n.value if not isinstance(n, ast.Call) else n.func
        if isinstance(n, ast.Name) and n.id in env:
            b = env[n.id]
            reach = v.reach()
            if not reach <= b.elem:
                parts = b.parts
                env[n.id] = b.but(elem=b.elem | reach, parts=parts)

    def aug(self, st, env):
        v = self.ev(st.value, env)
        tgt = st.target
        stringy = isinstance(st.value, (ast.JoinedStr,)) or (isinstance(st.value, ast.Constant) and isinstance(st.value.value, (str,))) or \
            (isinstance(st.value, ast.Call) and (dotted(st.value.func) or '').endswith('history_string'))
        if isinstance(tgt, ast.Name):
            cur = env.get(tgt.id)
            if cur is None:
                cur = self.name_val(tgt.id, env)
            if cur is None or ({'scalar', 'tuple', 'clsobj'} & cur.tags) or cur.const is not NOCONST or stringy:
                env[tgt.id] = Val(v.own & E0, E0, cur.tags if cur else E0)
                if tgt.id in self.globals_declared:
                    self.mutate({(f'g:{self.m.name}.{tgt.id}', 0)}, st)
                return
            self.mutate(cur.own | (cur.elem if 'maskview' in cur.tags else E0), st)
            if isinstance(st.op, ast.Add) and not ({'nd', 'ndp'} & cur.tags) and ('list' in cur.tags):
                env[tgt.id] = cur.but(elem=cur.elem | v.elem, parts=None, const=NOCONST)
            else:
                env[tgt.id] = cur.but(const=NOCONST)
        elif isinstance(tgt, ast.Subscript):
            base = self.ev(tgt.value, env)
            self.ev(tgt.slice, env)
            self.mutate(base.own, st)
            sk = self.sub_key(tgt)
            if sk and sk in env:
                self.mutate(env[sk].own, st)
            elif not stringy and not ({'nd'} & base.tags) and not isinstance(tgt.slice, ast.Compare):
                self.mutate(base.elem, st)
        elif isinstance(tgt, ast.Attribute):
            base = self.ev(tgt.value, env)
            self.mutate(base.own, st)
            fk = f'{tgt.value.id}.{tgt.attr}' if isinstance(tgt.value, ast.Name) else None
            if fk in env and not self.has_setter(base, tgt.attr):
                if 'scalar' not in env[fk].tags:
                    self.mutate(env[fk].own, st)
            elif not stringy and tgt.attr not in SCALAR_ATTRS:
                self.mutate(base.elem, st)

    # ---------------------------------------------------------------- tests
    def truth(self, t, env):
        if isinstance(t, ast.Name):
            v = env.get(t.id)
            if v is not None and v.const is not NOCONST and not v.own:
                return bool(v.const)
            return None
        if isinstance(t, ast.Constant):
            return bool(t.value)
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            r = self.truth(t.operand, env)
            return None if r is None else not r
        if isinstance(t, ast.BoolOp):
            rs = [self.truth(x, env) for x in t.values]
            if isinstance(t.op, ast.And):
                return False if False in rs else (True if all(r is True for r in rs) else None)
            return True if True in rs else (False if all(r is False for r in rs) else None)
        if isinstance(t, ast.Compare) and len(t.ops) == 1:
            l, r = t.left, t.comparators[0]
            lv = self.peek(l, env)
            rv = self.peek(r, env)
            if lv is NOCONST or rv is NOCONST:
                return None
            try:
                if isinstance(t.ops[0], ast.Is):
                    return lv is rv if (lv is None or rv is None or isinstance(lv, bool)) else None
                if isinstance(t.ops[0], ast.IsNot):
                    return lv is not rv if (lv is None or rv is None or isinstance(lv, bool)) else None
                if isinstance(t.ops[0], ast.Eq):
                    return lv == rv
                if isinstance(t.ops[0], ast.NotEq):
                    return lv != rv
            except Exception:
                return None
        return None

    def peek(self, n, env):
        ok, c = const_of(n)
        if ok:
            return c
        if isinstance(n, ast.Name) and n.id in env:
            v = env[n.id]
            if v.const is not NOCONST and not v.own:
                return v.const
        return NOCONST

    def narrow(self, test, env, pol):
        """x is None  => x carries no storage in that branch"""
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.narrow(test.operand, env, not pol)
        if isinstance(test, ast.BoolOp):
            if (isinstance(test.op, ast.And) and pol) or (isinstance(test.op, ast.Or) and not pol):
                for v in test.values:
                    self.narrow(v, env, pol)
            return
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.left, ast.Name):
            isnone = isinstance(test.comparators[0], ast.Constant) and test.comparators[0].value is None
            if isnone and test.left.id in env:
                op = test.ops[0]
                if (isinstance(op, ast.Is) and pol) or (isinstance(op, ast.IsNot) and not pol):
                    env[test.left.id] = Val(const=None)
        if isinstance(test, ast.Call) and dotted(test.func) == 'isinstance' and len(test.args) == 2 and isinstance(test.args[0], ast.Name) and pol:
            ts = {d for d in (dotted(x) for x in (test.args[1].elts if isinstance(test.args[1], ast.Tuple) else [test.args[1]])) if d}
            if ts and ts <= {'str', 'int', 'float', 'bool', 'complex', 'np.str_', 'np.integer', 'np.floating', 'tuple', 'numbers.Number', 'slice'} and test.args[0].id in env:
                env[test.args[0].id] = Val(tags={'scalar'} if 'tuple' not in ts else {'tuple'}, elem=env[test.args[0].id].elem if 'tuple' in ts else E0)
            elif len(ts) == 1 and test.args[0].id in env:
                c = self.P.resolve(self.m, next(iter(ts)))
                if isinstance(c, Cls):
                    env[test.args[0].id] = env[test.args[0].id].but(cls={c})

    # ---------------------------------------------------------------- expressions
    def name_val(self, nm, env):
        if nm in env:
            return env[nm]
        r = self.P.resolve(self.m, nm)
        if isinstance(r, (Func, Cls)):
            return Val(fns=(FnRef(func=r),))
        if nm in self.m.globals and nm not in self.m.imports:
            g = self.m.globals[nm]
            ok, _ = const_of(g) if g is not None else (True, None)
            if ok:
                return Val(tags={'scalar'})
            root = f'g:{self.m.name}.{nm}'
            return Val({(root, 0)}, {(root, 1)}, {'global'})
        return None

    def ev(self, n, env) -> Val:
        if n is None:
            return FRESH
        t = type(n)
        if t is ast.Name:
            return self.name_val(n.id, env) or FRESH
        if t is ast.Constant:
            return Val(const=n.value, tags={'scalar'} if n.value is not None else E0)
        if t is ast.Attribute:
            d = dotted(n)
            if d and d.split('.')[0] not in env:
                r = self.P.resolve(self.m, d)
                if isinstance(r, (Func, Cls)):
                    return Val(fns=(FnRef(func=r),))
                ab = self.P.absname(self.m, d)
                head, _, last = ab.rpartition('.')
                if head in self.P.modules and last in self.P.modules[head].globals:
                    g = self.P.modules[head].globals[last]
                    if g is not None and const_of(g)[0]:
                        return Val(tags={'scalar'})
                    root = f'g:{ab}'
                    return Val({(root, 0)}, {(root, 1)}, {'global'})
                if d.split('.')[0] in self.m.imports:
                    return FRESH
            if isinstance(n.value, ast.Name) and f'{n.value.id}.{n.attr}' in env:
                return env[f'{n.value.id}.{n.attr}']
            b = self.ev(n.value, env)
            if n.attr in SCALAR_ATTRS:
                return Val(tags={'scalar'})
            # property on project class / bound method reference
            meths = self.lookup_methods(b, n.attr)
            if meths:
                m0 = meths[0]
                if m0.is_property:
                    out = None
                    for m_ in meths[:4]:
                        if m_.is_property:
                            out = join(out, self.call_func(m_, n, [b], {}, env, selfval=b))
                    return out or FRESH
                return Val(b.elem, b.elem, fns=tuple(FnRef(func=m_, self_val=b) for m_ in meths[:6]))
            return Val(b.elem if b.elem else E0, b.elem)
        if t is ast.Subscript:
            sk = self.sub_key(n)
            if sk and sk in env:
                return env[sk]
            b = self.ev(n.value, env)
            self.ev(n.slice, env)
            ok, c = const_of(n.slice)
            if ok and b.kv is not None and c in b.kv:
                return b.kv[c]
            if ok and isinstance(c, int) and b.parts and -len(b.parts) <= c < len(b.parts):
                return b.parts[c]
            if b.parts:
                v = None
                for p in b.parts:
                    v = join(v, p)
                return join(v, b.item())
            if 'maskview' in b.tags:
                return Val(b.reach(), b.reach(), {'maskview'})
            if 'tuple' in b.tags or 'scalar' in b.tags:
                return Val(b.elem, b.elem, b.tags & {'scalar'})
            out = b.item()
            if isinstance(n.slice, ast.Slice):
                out = out.but(tags=set(out.tags) | {'sliced'})
            # fancy/boolean indexing copies: index built by comparison, ~mask, np.where, list literal
            if self.sure_fancy(n.slice, env) or (self.is_fancy(n.slice, env) and isinstance(n.slice, ast.Tuple)
                                                 and any(isinstance(e, ast.Slice) for e in n.slice.elts)):
                return ND
            if self.is_fancy(n.slice, env):
                # for arrays a copy; for containers (dict) indexes are keys -> keep alias unless receiver known ndarray
                if {'nd', 'ndp', 'maskview'} & b.tags:
                    return ND
            return out
        if t is ast.Call:
            return self.call(n, env)
        if t in (ast.BinOp,):
            l, r = self.ev(n.left, env), self.ev(n.right, env)
            if isinstance(n.op, ast.Add) and ('list' in l.tags or 'tuple' in l.tags or 'list' in r.tags or 'tuple' in r.tags):
                return Val(E0, l.elem | r.elem, (l.tags | r.tags) & {'list', 'tuple'})
            if isinstance(n.op, ast.Add) and (l.own or r.own) and not ({'nd', 'ndp'} & (l.tags | r.tags)) and isinstance(n.left, ast.List):
                return Val(E0, l.elem | r.elem, {'list'})
            if 'scalar' in l.tags and 'scalar' in r.tags:
                return SC
            return Val(tags={'nd'})
        if t is ast.UnaryOp:
            v = self.ev(n.operand, env)
            if isinstance(n.op, ast.Not):
                c = self.truth(n.operand, env)
                return Val(const=(not c) if c is not None else NOCONST, tags={'scalar'})
            return Val(tags={'nd'})
        if t is ast.BoolOp:
            v = None
            for x in n.values:
                v = join(v, self.ev(x, env))
            return v
        if t is ast.Compare:
            self.ev(n.left, env)
            for c in n.comparators:
                self.ev(c, env)
            return Val(tags={'nd'})
        if t is ast.IfExp:
            c = self.truth(n.test, env)
            self.ev(n.test, env)
            e1, e2 = dict(env), dict(env)
            self.narrow(n.test, e1, True)
            self.narrow(n.test, e2, False)
            if c is True:
                return self.ev(n.body, e1)
            if c is False:
                return self.ev(n.orelse, e2)
            return join(self.ev(n.body, e1), self.ev(n.orelse, e2))
        if t in (ast.Tuple, ast.List):
            parts = []
            elem = E0
            star = False
            for e in n.elts:
                if isinstance(e, ast.Starred):
                    star = True
                    elem = elem | self.ev(e.value, env).elem
                    continue
                v = self.ev(e, env)
                parts.append(v)
                elem = elem | v.reach()
            return Val(E0, elem, {'tuple' if t is ast.Tuple else 'list'}, parts=tuple(parts) if (parts and not star) else None)
        if t is ast.Set:
            elem = E0
            for e in n.elts:
                elem = elem | self.ev(e, env).reach()
            return Val(E0, elem)
        if t is ast.Dict:
            elem = E0
            kv = {}
            for k, v in zip(n.keys, n.values):
                vv = self.ev(v, env)
                if k is None:
                    elem = elem | vv.elem
                    if kv is not None and vv.kv:
                        kv.update(vv.kv)
                    continue
                self.ev(k, env)
                elem = elem | vv.reach()
                ok, c = const_of(k)
                if ok and isinstance(c, str):
                    kv[c] = vv
            return Val(E0, elem, {'dict'}, kv=kv)
        if t in (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp):
            e = dict(env)
            for g in n.generators:
                it = self.ev(g.iter, e)
                self.bind_iter(g.target, g.iter, it, e, n)
                for i in g.ifs:
                    self.ev(i, e)
                    self.narrow(i, e, True)
            if t is ast.DictComp:
                self.ev(n.key, e)
                v = self.ev(n.value, e)
                return Val(E0, v.reach(), {'dict'})
            v = self.ev(n.elt, e)
            return Val(E0, v.reach(), {'list'} if t is ast.ListComp else E0)
        if t is ast.Lambda:
            return Val(fns=(FnRef(lam=n, env=env),))
        if t is ast.NamedExpr:
            v = self.ev(n.value, env)
            self.assign(n.target, v, env, n)
            return v
        if t is ast.Starred:
            return self.ev(n.value, env)
        if t is ast.JoinedStr:
            for x in n.values:
                if isinstance(x, ast.FormattedValue):
                    self.ev(x.value, env)
            return Val(tags={'scalar'})
        if t is ast.Slice:
            for x in (n.lower, n.upper, n.step):
                if x is not None:
                    self.ev(x, env)
            return SC
        if t is ast.Await or t is ast.YieldFrom:
            return self.ev(n.value, env)
        if t is ast.Yield:
            v = self.ev(n.value, env) if n.value is not None else FRESH
            self.S.ret = join(self.S.ret, Val(E0, v.reach()))
            return FRESH
        return FRESH

    def sure_fancy(self, s, env):
        """index that cannot be a mapping key: boolean masks and index arrays"""
        if isinstance(s, ast.Tuple):
            return any(self.sure_fancy(e, env) for e in s.elts)
        if isinstance(s, ast.UnaryOp) and isinstance(s.op, ast.Invert):
            return True
        return isinstance(s, ast.Name) and s.id in env and 'nd' in env[s.id].tags

    def is_fancy(self, s, env):
        if isinstance(s, ast.Compare):
            return True
        if isinstance(s, ast.UnaryOp) and isinstance(s.op, ast.Invert):
            return True
        if isinstance(s, ast.BinOp) and isinstance(s.op, (ast.BitAnd, ast.BitOr)):
            return True
        if isinstance(s, ast.List):
            return True
        if isinstance(s, ast.Tuple):
            return any(self.is_fancy(e, env) for e in s.elts)
        if isinstance(s, ast.Call):
            d = dotted(s.func) or ''
            return d.split('.')[-1] in ('where', 'isfinite', 'isnan', 'logical_not', 'array', 'argsort', 'nonzero', 'arange')
        if isinstance(s, ast.Name) and s.id in env:
            return bool({'nd', 'list'} & env[s.id].tags)
        return False

    # ---------------------------------------------------------------- calls
    def lookup_methods(self, b: Val, attr):
        out = []
        if b.cls:
            for c in b.cls:
                m = c.find(attr)
                if m is not None:
                    out.append(m)
            # the dynamic type may be a subclass
            for c in b.cls:
                for sc in c.subclasses(self.P):
                    if attr in sc.methods and sc.methods[attr] not in out:
                        out.append(sc.methods[attr])
            return out
        if {'nd', 'list', 'dict', 'tuple', 'scalar', 'maskview', 'super'} & b.tags or attr.startswith('__'):
            return []
        cands = self.P.methods_named(attr)
        if not cands:
            return []
        if attr in MUT_METHODS or attr in VIEW_METHODS or attr in COMMON_METHODS:
            return []
        return list(cands)

    def call(self, n: ast.Call, env):
        self.E.ncalls += 1
        for a in list(n.args) + [k.value for k in n.keywords] + ([n.func.value] if isinstance(n.func, ast.Attribute) else []):
            if isinstance(a, ast.Name):
                for k in [k for k in env if k.startswith(a.id + '[')]:
                    del env[k]
        fn = n.func
        d = dotted(fn)
        # ---- method style -------------------------------------------------------
        if isinstance(fn, ast.Attribute):
            head = d.split('.')[0] if d else None
            is_modpath = d is not None and head not in env and (head in self.m.imports or self.P.resolve(self.m, d) is not None)
            if not is_modpath:
                return self.method_call(n, fn, env)
        args = None
        # ---- project function ---------------------------------------------------
        fv = self.ev(fn, env) if not isinstance(fn, ast.Attribute) else (self.ev(fn, env) if d else FRESH)
        if d == 'super':
            if self.f.cls is not None:
                sv = env.get(self.f.params[0]) if self.f.params else FRESH
                bases = set(self.f.cls.bases)
                return (sv or FRESH).but(cls=bases, tags={'super'})
            return FRESH
        if fv.fns:
            self.E.nresolved += 1
            return self.call_refs(fv.fns, n, env)
        ab = self.P.absname(self.m, d) if d else None
        return self.ext_call(n, ab, env)

    def call_refs(self, refs, n, env):
        out = None
        for ref in refs:
            out = join(out, self.call_ref(ref, n, env))
        return out or FRESH

    def arg_vals(self, n, env):
        pos, star = [], None
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, env)
                if v.parts and star is None:
                    pos.extend(v.parts)
                else:
                    star = join(star, v.item())
            else:
                pos.append(self.ev(a, env))
        kw, ss = {}, None
        for k in n.keywords:
            v = self.ev(k.value, env)
            if k.arg is None:
                if v.kv:
                    for kk, vv in v.kv.items():
                        kw.setdefault(kk, vv)
                ss = join(ss, v.item()) if v.elem else ss
            else:
                kw[k.arg] = v
        return pos, star, kw, ss

    def call_ref(self, ref: FnRef, n, env):
        if ref.lam is not None:
            pos, star, kw, ss = self.arg_vals(n, env)
            return self.inline_lambda(ref, pos, kw)
        f = ref.func
        pos, star, kw, ss = self.arg_vals(n, env)
        pos = list(ref.pargs) + pos
        kw2 = dict(ref.pkw)
        kw2.update(kw)
        if isinstance(f, Cls):
            return self.construct(f, n, pos, star, kw2, ss, env)
        if f.parent is not None:
            return self.inline_nested(f, ref, pos, star, kw2, ss, n)
        return self.apply(f, n, pos, star, kw2, ss, env, selfval=ref.self_val)

    def inline_lambda(self, ref, pos, kw):
        if len(self.stack) > 8 or not isinstance(ref.lam, ast.Lambda):
            return FRESH
        e = dict(ref.env or {})
        for p, v in zip(ref.lam.args.args, pos):
            e[p.arg] = v
        for k, v in kw.items():
            e[k] = v
        self.stack.append(self.stack[-1])
        try:
            return self.ev(ref.lam.body, e)
        finally:
            self.stack.pop()

    def inline_nested(self, f: Func, ref, pos, star, kw, ss, n):
        if f in self.stack or len(self.stack) > 8:
            return FRESH
        e = dict(ref.env or {})
        params = f.params
        for p in params:
            e[p] = FRESH
            dflt = f.defaults.get(p)
            if dflt is not None:
                e[p] = self.ev(dflt, dict(ref.env or {}))
        for p, v in zip(f.pos_params, pos):
            e[p] = v
        for p in f.pos_params[len(pos):]:
            if star is not None:
                e[p] = join(e.get(p), star)
        for k, v in kw.items():
            if k in params:
                e[k] = v
        if f.vararg:
            el = E0
            for v in pos[len(f.pos_params):]:
                el = el | v.reach()
            e[f.vararg] = Val(E0, el, {'tuple'})
        if f.kwarg:
            e[f.kwarg] = Val(E0, ss.reach() if ss else E0, {'dict'})
        self.stack.append(f)
        saved, self.S.ret = self.S.ret, None
        saved_loops, self.loopenvs = self.loopenvs, ()
        try:
            self.exec_block(f.node.body, e)
            out = self.S.ret
        finally:
            self.S.ret = saved
            self.stack.pop()
            self.loopenvs = saved_loops
        # contents added to captured variables become visible in the defining scope
        if ref.env is not None:
            loc = set(params)
            for k, v in e.items():
                if k not in loc and k in ref.env and ref.env[k].own == v.own and v.elem - ref.env[k].elem:
                    ref.env[k] = ref.env[k].but(elem=ref.env[k].elem | v.elem)
        return out or FRESH

    def construct(self, c: Cls, n, pos, star, kw, ss, env):
        init = c.find('__init__')
        out = Val(E0, E0, cls={c})
        if init is None:
            el = E0
            for v in list(pos) + list(kw.values()) + ([star] if star else []) + ([ss] if ss else []):
                el = el | v.reach()
            return out.but(elem=el)
        newobj = Val({('new', 0)}, {('new', 1)}, cls={c})
        summ, bindv = self.bind_vals(init, [newobj] + list(pos), star, kw, ss, n)
        self.apply_effects(init, summ, bindv, n)
        el = E0
        for r, st in summ.stores.items():
            if r[0] == 'p:' + init.params[0]:
                el = el | self.subst(st, bindv)
        el = frozenset(r for r in el if r[0] != 'new')
        return out.but(elem=el)

    def bind_vals(self, f, pos, star, kw, ss, n):
        ctx = {}
        bindv = {}
        pp = f.pos_params
        for p, v in zip(pp, pos):
            bindv[p] = v
        for k, v in kw.items():
            if k in f.params:
                bindv[k] = v
        for p in f.params:
            if p not in bindv:
                extra = None
                if star is not None and p in pp:
                    extra = join(extra, star)
                if ss is not None:
                    extra = join(extra, ss)
                if extra is not None:
                    bindv[p] = extra
                dfl = f.defaults.get(p)
                if dfl is not None and extra is None:
                    ok, c = const_of(dfl)
                    if ok:
                        bindv[p] = Val(const=c)
        if f.vararg:
            el = E0
            for v in pos[len(pp):]:
                el = el | v.reach()
            if star is not None:
                el = el | star.reach()
            bindv[f.vararg] = Val(E0, el)
        if f.kwarg:
            el = E0
            for k, v in kw.items():
                if k not in f.params:
                    el = el | v.reach()
            if ss is not None:
                el = el | ss.reach()
            bindv[f.kwarg] = Val(E0, el)
        for p in self.E.flag_params(f):
            v = bindv.get(p)
            if v is not None and isinstance(v.const, bool) and not v.own:
                ctx[p] = v.const
        return self.E.summary(f, ctx), bindv

    def subst(self, roots, bindv):
        out = set()
        for r in roots:
            nm, dep = r
            if nm.startswith('p:'):
                v = bindv.get(nm[2:])
                if v is not None:
                    out |= (v.own if dep == 0 else v.elem)
            else:
                out.add(r)
        return frozenset(out)

    def subst_val(self, v: Val, bindv):
        if v is None:
            return FRESH
        return Val(self.subst(v.own, bindv), self.subst(v.elem, bindv), v.tags, v.const if not v.own else NOCONST,
                   v.fns, tuple(self.subst_val(p, bindv) for p in v.parts) if v.parts else None,
                   {k: self.subst_val(x, bindv) for k, x in v.kv.items()} if v.kv else None, v.cls)

    def apply_effects(self, f, summ, bindv, n):
        for r, wit in summ.effects.items():
            tgt = self.subst({r}, bindv) if r[0].startswith('p:') else frozenset({r})
            tgt = frozenset(x for x in tgt if x[0] != 'new')
            self.mutate_via(tgt, n, f, wit)

    def apply(self, f: Func, n, pos, star, kw, ss, env, selfval=None):
        if selfval is not None and (f.is_method or f.is_classmethod):
            pos = [selfval] + list(pos)
        elif f.is_classmethod and selfval is None:
            pos = [Val(fns=(FnRef(func=f.cls),))] + list(pos)
        summ, bindv = self.bind_vals(f, pos, star, kw, ss, n)
        self.apply_effects(f, summ, bindv, n)
        touched = self.subst({r for r in summ.effects if r[0].startswith('p:') and r[1] == 0}, bindv)
        if touched:
            self.drop_mutated_fields(env, touched)
        if selfval is not None and not selfval.own and isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name):
            self.drop_fields(n.func.value.id, env)
        # contents stored into arguments
        for r, st in summ.stores.items():
            if r[0].startswith('p:'):
                tgt = self.subst({r}, bindv)
                add = self.subst(st, bindv)
                if add:
                    self.store_into(tgt, Val(add))
                    # update the caller's variable
                    p = r[0][2:]
                    ex = None
                    if p in f.params:
                        idx = f.pos_params.index(p) if p in f.pos_params else None
                        off = 1 if (selfval is not None and (f.is_method or f.is_classmethod)) else 0
                        if idx is not None and off and idx == 0 and isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                            ex = n.func.value
                        elif idx is not None and isinstance(n, ast.Call) and 0 <= idx - off < len(n.args):
                            ex = n.args[idx - off]
                        elif isinstance(n, ast.Call):
                            ex = next((k.value for k in n.keywords if k.arg == p), None)
                    if ex is not None and not isinstance(ex, ast.Starred):
                        self.absorb(ex, Val(add), env)
        return self.subst_val(summ.ret, bindv)

    def call_func(self, f, n, pos, kw, env, selfval=None):
        return self.apply(f, n, pos[1:] if selfval is not None else pos, None, kw, None, env, selfval=selfval)

    def method_call(self, n, fn, env):
        b = self.ev(fn.value, env)
        attr = fn.attr
        # callable stored in a variable attribute etc.
        meths = self.lookup_methods(b, attr)
        kwd = {k.arg: k.value for k in n.keywords if k.arg}
        if meths:
            self.E.nresolved += 1
            out = None
            pos, star, kw, ss = self.arg_vals(n, env)
            seen = set()
            for m_ in meths[:8]:
                if m_ in seen or m_.is_property:
                    continue
                seen.add(m_)
                if m_.is_static:
                    out = join(out, self.apply(m_, n, pos, star, kw, ss, env))
                else:
                    out = join(out, self.apply(m_, n, pos, star, kw, ss, env, selfval=b))
            if out is not None:
                return out
        pos, star, kw, ss = self.arg_vals(n, env)
        allv = list(pos) + list(kw.values()) + ([star] if star else []) + ([ss] if ss else [])
        if 'out' in kw:
            self.mutate(kw['out'].own, n)
        if attr in ('submit', 'map', 'apply_async') and pos and pos[0].fns:     # executor-style
            out = None
            for ref in pos[0].fns:
                if isinstance(ref.func, Func) and ref.func.parent is None:
                    rest = [v if attr != 'map' else v.item() for v in pos[1:]]
                    st = star.item() if (star is not None and attr == 'map') else star
                    out = join(out, self.apply(ref.func, n, rest, st, kw, ss, env, selfval=ref.self_val))
                elif isinstance(ref.func, Func):
                    out = join(out, self.inline_nested(ref.func, ref, list(pos[1:]), star, kw, ss, n))
            v = out or FRESH
            return Val(E0, v.reach())
        if attr == 'result' and not n.args:
            return b.item()
        if attr in MUT_METHODS:
            if attr == 'pop' and 'kwargs' in b.tags:
                pass
            if not ('scalar' in b.tags):
                inpl = kwd.get('inplace')
                listcopy = 'sliced' in b.tags and attr in ('append', 'extend', 'insert', 'pop', 'remove', 'reverse', 'clear')
                if not listcopy and not (inpl is not None and const_of(inpl) == (True, False)):
                    self.mutate(b.own, n)
                if attr in ('append', 'add', 'extend', 'update', 'insert', 'setdefault', 'appendleft'):
                    el = E0
                    for v in allv:
                        el = el | (v.elem if attr in ('extend', 'update') else v.reach())
                    if el:
                        self.store_into(b.own, Val(el))
                        self.absorb(fn.value, Val(el), env)
            if attr in ('pop', 'setdefault', 'popitem'):
                return b.item()
            return FRESH
        if attr in MUT_INPLACE_DEFAULT:
            inpl = kwd.get('inplace')
            cv = self.peek(inpl, env) if inpl is not None else True
            if cv is not False:
                self.mutate(b.own, n)
                return Val(const=None)
            return FRESH
        if attr in EXT_READ and (b.cls or b.own):
            self.mutate(b.own, n)
            return FRESH
        if attr == 'copy':
            if 'dict' in b.tags or 'list' in b.tags:
                return Val(E0, b.elem, b.tags, kv=b.kv)
            return Val(E0, E0, b.tags & {'nd', 'ndp', 'maskview'} , cls=b.cls)
        if attr == 'astype':
            cp = kwd.get('copy')
            if cp is not None and const_of(cp) == (True, False):
                return b
            return ND
        if attr in ('keys',):
            return Val(tags={'list'})
        if attr in VIEW_METHODS:
            return Val(b.elem if b.elem else b.own, b.elem)
        if attr in ('format', 'join', 'split', 'replace', 'startswith', 'endswith', 'strip', 'lower', 'upper', 'tolist', 'item'):
            return Val(tags={'scalar'}) if attr not in ('split',) else Val(tags={'list'})
        # unknown external method: assume pure and fresh
        return FRESH

    def ext_call(self, n, ab, env):
        pos, star, kw, ss = self.arg_vals(n, env)
        allv = list(pos) + list(kw.values()) + ([star] if star else [])
        if 'out' in kw:
            o = kw['out']
            self.mutate(o.own, n)
            return o
        if ab is None:
            # call of a computed expression, e.g. (np.f if c else g)(...)
            return FRESH
        base = ab.split('.')[-1]
        if ab in MUT_FUNCS:
            for i in MUT_FUNCS[ab]:
                if i < len(pos):
                    self.mutate(pos[i].own, n)
            if ab == 'setattr' and len(pos) > 2 and 'scalar' not in pos[2].tags:
                self.store_into(pos[0].own, pos[2])
                self.absorb(n.args[0], pos[2], env)
            return FRESH
        if ab in ('numpy.nan_to_num', 'jax.numpy.nan_to_num') and 'copy' in kw and kw['copy'].const is False:
            self.mutate(pos[0].own, n)
            return pos[0]
        if ab in VIEW_FUNCS and pos:
            v = pos[0]
            if ab in ('numpy.split', 'numpy.array_split', 'numpy.broadcast_arrays'):
                return Val(E0, v.reach())
            if {'list', 'tuple'} & v.tags:       # conversion of a python sequence copies
                return ND
            return Val(v.own, v.elem, v.tags & {'nd', 'ndp', 'maskview', 'scalar'})
        if ab in MASKVIEW_FUNCS and pos:
            cp = kw.get('copy')
            if cp is not None and cp.const is True:
                return ND
            src = kw.get('data') or (pos[1] if ab.endswith('masked_where') and len(pos) > 1 else pos[0])
            return Val(E0, src.reach(), {'maskview'})
        if ab in ('numpy.array',):
            cp = kw.get('copy')
            if cp is not None and cp.const is False and pos:
                return pos[0]
            return ND
        if ab in ('copy.deepcopy', 'deepcopy'):
            v = pos[0] if pos else FRESH
            return Val(E0, E0, v.tags, cls=v.cls, kv={k: Val(tags=x.tags) for k, x in v.kv.items()} if v.kv else None)
        if base == 'partial' and ab in ('functools.partial', 'partial') and pos:
            refs = []
            for r in pos[0].fns:
                kk = dict(r.pkw); kk.update(kw)
                refs.append(FnRef(func=r.func, self_val=r.self_val, pargs=tuple(r.pargs) + tuple(pos[1:]), pkw=kk, env=r.env, lam=r.lam))
            return Val(fns=tuple(refs))
        if ab == 'getattr' and pos:
            ok, c = const_of(n.args[1]) if len(n.args) > 1 else (False, None)
            if ok and isinstance(c, str):
                return self.ev(ast.copy_location(ast.Attribute(value=n.args[0], attr=c, ctx=ast.Load()), n), env)
            return pos[0].item()
        if ab in SHALLOW_FUNCS or ab.split('.')[-1] in ('OrderedDict', 'odict'):
            el = E0
            for v in allv:
                el = el | v.elem
            if ab in ('map', 'filter') and pos and pos[0].fns:
                out = None
                for ref in pos[0].fns:
                    if ref.lam is not None:
                        out = join(out, self.inline_lambda(ref, [v.item() for v in pos[1:]], {}))
                    elif isinstance(ref.func, Func) and ref.func.parent is None:
                        out = join(out, self.apply(ref.func, n, [v.item() for v in pos[1:]], None, {}, None, env, selfval=ref.self_val))
                if ab == 'map' and out is not None:
                    return Val(E0, out.reach())
            if ab in ('next', 'max', 'min'):
                return Val(el, el)
            if ab == 'dict' or base in ('OrderedDict', 'odict', 'defaultdict'):
                kvd = {k: v for k, v in kw.items()}
                if pos and pos[0].kv:
                    kvd = {**pos[0].kv, **kvd}
                for v in kw.values():
                    el = el | v.reach()
                # dict([(k, v), ...]): contents two levels down are still in elem
                return Val(E0, el, {'dict'}, kv=kvd or None)
            tag = {'list': 'list', 'sorted': 'list', 'tuple': 'tuple', 'zip': 'list', 'copy.copy': 'x'}.get(ab)
            tags = {tag} if tag and tag != 'x' else (pos[0].tags if pos and ab == 'copy.copy' else E0)
            return Val(E0, el, tags, cls=pos[0].cls if (pos and ab == 'copy.copy') else E0)
        if ab in SCALAR_FUNCS:
            return Val(tags={'scalar'}) if ab not in ('sum',) else ND
        if ab.startswith(('numpy.', 'jax.numpy.', 'scipy.')):
            return ND
        return FRESH


COMMON_METHODS = {'copy', 'keys', 'get', 'items', 'values', 'mean', 'sum', 'all', 'any', 'conj', 'astype', 'flatten', 'tolist',
                  'min', 'max', 'std', 'var', 'dot', 'format', 'join', 'split', 'replace', 'strip', 'close', 'open', 'index', 'count',
                  'select', 'median', 'round', 'clip', 'repeat', 'prod', 'nonzero', 'argmax', 'argmin', 'cumsum', 'argsort', 'take', 'encode', 'decode',
                  'filter', 'lower', 'upper', 'startswith', 'endswith', 'union', 'intersection', 'difference', 'issubset'}
