"""Symbolic composition reader(writer(x)) for products stored in HDF5 files (C08).

The writer is interpreted as a table  path in the file -> value term;  the reader's outputs are terms over paths.  The table is
substituted into the outputs and the result brought to a normal form in which packaging (arrays of lists, strings to bytes, sorted
key lists zipped back into dictionaries, padding and its removal) cancels out, so a faithful pair gives the writer's own argument.
"""
from .terms import T, NONE, TRUE, mk, subterms, is_const, kwitems, dict_get

CONV_F = {'array', 'asarray', 'list', 'tuple', 'bytes_', 'str', 'int', 'float', 'Path', 'bool', 'vstack', 'stack', 'ascontiguousarray', 'deepcopy', 'copy', 'dict', 'iter',
          'int32', 'int64', 'float64', 'OrderedDict', 'odict', 'asanyarray'}
CONV_M = {'astype', 'tobytes', 'decode', 'encode', 'asstr', 'copy', 'tolist', 'items', 'as_posix', '__str__'}
OPAQUE = {'loopvar', 'after', 'unbound', 'lambda', 'fresh', 'opaque'}


def fname(t):
    f = t.a[0]
    return str(f.a[0]).split('.')[-1] if f.op in ('global', 'func', 'class') else f.a[1] if f.op == 'attr' else ''


LOSSY = {'float32', 'float16', 'complex64', 'half', 'single', 'csingle', 'int8', 'uint8', 'int16', 'uint16', 'f4', '<f4', 'f2', 'c8', '<c8', 'i1', 'i2', 'u1', 'u2', 'f'}
INTS = {'int', 'int32', 'int64', 'uint32', 'uint64', 'i4', 'i8', '<i8', 'bool', 'bool_'}


def dtype_name(d):
    if d is None:
        return None
    if is_const(d):
        return str(d.a[0])
    if d.op == 'global':
        return str(d.a[0]).split('.')[-1]
    return d.a[1] if d.op == 'attr' else None


def cast(x, d):
    """a conversion that loses precision is not packaging"""
    n = dtype_name(d)
    if n in LOSSY:
        return mk('lossy', x, n)
    if n in INTS and x.op in ('param', 'attr'):
        return mk('as', x, 'bool' if 'bool' in n else 'int')
    return x


def is_file(t):
    return t.op == 'call' and t.a[0].op == 'global' and str(t.a[0].a[0]).endswith('h5py.File')


def full(k):
    if k.op == 'tuple':
        return all(full(x) for x in k.a)
    return k.op == 'slice' and all(x is NONE for x in k.a) or is_const(k) and k.a[0] is Ellipsis


class Paths:
    def __init__(self, root=None):
        self.root, self.memo = root, {}                  # name of the parameter that is an open group, if any
        self.stored = {}                                 # value just written -> its path

    def path(self, t):
        if t not in self.memo:
            self.memo[t] = None
            self.memo[t] = self._path(t)
        return self.memo[t]

    def _path(self, t):
        if is_file(t):
            return ''
        if t.op == 'enter':
            return self.path(t.a[0])
        if t.op == 'param' and self.root and t.a[0] == self.root:
            return ''
        if t.op in ('upd', 'mut'):
            return self.path(t.a[0])
        if t.op == 'loopvar':
            return self.path(t.a[2])
        if t.op == 'after':
            return self.path(t.a[3])
        if t.op == 'attr' and t.a[1] == 'attrs':
            p = self.path(t.a[0])
            p = self.stored.get(t.a[0]) if p is None else p
            return None if p is None else p + '@'
        if t.op == 'call' and t.a[0].op == 'attr' and t.a[0].a[1] in ('create_group', 'require_group', 'create_dataset', 'get') and t.a[1].a:
            p, k = self.path(t.a[0].a[0]), t.a[1].a[0]
            return None if p is None or not is_const(k) else join(p, k.a[0])
        if t.op == 'sub' and is_const(t.a[1]) and isinstance(t.a[1].a[0], str):
            p = self.path(t.a[0])
            return None if p is None else join(p, t.a[1].a[0])
        if t.op == 'attr' and t.a[1] in ('parent', 'file'):
            return None
        return None


def join(p, k):
    return p + k if p.endswith('@') else p + '/' + str(k)


def literal_list(t):
    """elements if t iterates over a literal list, tuple or dictionary"""
    while t.op == 'call' and fname(t) in ('list', 'tuple', 'iter') and len(t.a[1].a) == 1:
        t = t.a[1].a[0]
    if t.op in ('list', 'tuple') and not any(x.op == 'star' for x in t.a):
        return list(t.a)
    return None


def subst(t, m, memo=None):
    memo = {} if memo is None else memo
    if t in m:
        return m[t]
    if t in memo:
        return memo[t]
    a = tuple(subst(x, m, memo) if isinstance(x, T) else x for x in t.a)
    r = t if all(x is y for x, y in zip(a, t.a)) else simp(mk(t.op, *a))
    memo[t] = r
    return r


def simp(t):
    if t.op == 'item' and t.a[0].op in ('tuple', 'list', 'zipelem') and isinstance(t.a[1], int) and t.a[1] < len(t.a[0].a):
        return t.a[0].a[t.a[1]]
    if t.op == 'sub' and is_const(t.a[1]) and isinstance(t.a[1].a[0], int) and t.a[0].op in ('tuple', 'list', 'zipelem') and 0 <= t.a[1].a[0] < len(t.a[0].a):
        return t.a[0].a[t.a[1].a[0]]
    if t.op == 'fmt' and all(is_const(x) if isinstance(x, T) else True for x in t.a):
        return mk('const', ''.join(str(x.a[0]) if isinstance(x, T) else str(x) for x in t.a))
    return t


def unroll(ts):
    """expand loops over literal lists: list of substituted tuples of terms"""
    its = {}
    for t in ts:
        for s in subterms(t):
            if s.op == 'iter' and literal_list(s.a[0]):
                its.setdefault(len(literal_list(s.a[0])), []).append(s)
    if not its:
        return [tuple(ts)]
    n, group = sorted(its.items())[0]
    out = []
    for j in range(n):
        m = {s: literal_list(s.a[0])[j] for s in group}
        out += unroll([subst(t, m) for t in ts])
    return out


class Writer:
    """table of what a writing function puts where"""
    def __init__(self, w, root=None):
        self.P = Paths(root)
        self.entries = []                                # (group path, key term, value term, conditions)
        for e in w.events:
            if e.kind == 'setitem' and e.val is not None:
                conds = [g for g in e.pc if g.op != 'in_loop']
                for tgt, k, v, *cs in unroll([e.target, e.args[0], e.val] + conds):
                    p = self.P.path(tgt)
                    if p is None:
                        continue
                    self.entries.append((p, k, v, cs, e.where))
                    if is_const(k) and not p.endswith('@'):
                        self.P.stored[v] = join(p, k.a[0])
                        self.P.memo = {}
            elif e.kind == 'call' and str(e.name).split('.')[-1] in ('create_dataset', 'require_dataset'):
                g = e.res.a[0].a[0] if isinstance(e.res, T) and e.res.op == 'call' and e.res.a[0].op == 'attr' else None
                g = g if g is not None else getattr(e, 'target', None)
                if g is None or self.P.path(g) is None:
                    continue
                key = e.args[0] if e.args else e.kw('name')
                v = e.kw('data') if e.kw('data') is not None else e.args[3] if len(e.args) > 3 else None
                if key is not None and v is not None:
                    d = e.kw('dtype')
                    if dtype_name(d) in LOSSY | INTS:
                        v = mk('call', mk('global', 'numpy.asarray'), mk('list', v), mk('kw', 'dtype', d))
                    self.add(self.P.path(g), key, v, e)
        self.its = loop_iters(w)
        # conditions about the file being there already are the business of C02
        self.entries = [(p, k, v, [c for c in cs if not any(x.op == 'call' and fname(x) in ('exists', 'isfile') for x in subterms(c))], wh) for p, k, v, cs, wh in self.entries]

    def add(self, p, key, val, e):
        conds = [g for g in e.pc if g.op != 'in_loop']
        for k, v, *cs in unroll([key, val] + conds):
            self.entries.append((p, k, v, cs, e.where))

    def lookup(self, path):
        hits = [x for x in self.entries if is_const(x[1]) and join(x[0], x[1].a[0]) == path]
        if not hits:
            # keys that run over a dictionary, restricted to named ones by a condition
            for p, k, v, cs, wh in self.entries:
                name = path[len(p):].lstrip('/') if path.startswith(p) else None
                if not is_const(k) and name and join(p, name) == path:
                    for c in cs:
                        if c.op == 'cmp' and c.a[0] in ('in', '==') and k in (c.a[1], c.a[2]):
                            o = c.a[2] if c.a[1] is k else c.a[1]
                            if any(is_const(x, name) for x in ([o] if is_const(o) else o.a) if isinstance(x, T)):
                                n = mk('const', name)
                                hits.append((p, n, subst(v, {k: n}), [x for x in cs if x is not c], wh))
        return hits

    def in_group(self, p):
        return [x for x in self.entries if x[0] == p]


def loop_iters(w):
    out = {}
    for e in w.events:
        for g in e.pc:
            if g.op == 'in_loop':
                out[g.a[1]] = g.a[0]
    for l in getattr(w, 'loop_table', {}).items():
        out[l[0]] = l[1]
    return out


class Norm:
    """normal form; with a writer table, paths are replaced by what was written there"""
    def __init__(self, its, writer=None, root=None):
        self.its, self.W, self.memo = its, writer, {}
        self.P = Paths(root) if writer is not None else None
        self.NW = Norm(writer.its) if writer is not None else None

    def __call__(self, t):
        r = self.memo.get(t)
        if r is None:
            self.memo[t] = t
            r = self.memo[t] = self.norm(t)
        return r

    def norm(self, t):
        if self.P is not None:
            p = self.P.path(t)
            if p is not None:
                return self.leaf(p)
        op = t.op
        if op == 'call':
            return self.call(t)
        if op == 'sub' and t.a[0].op == 'comp' and t.a[0].a[0] == 'dict' and len(t.a[0].a[2].a) == 1 and is_const(t.a[0].a[3], True) and is_const(t.a[1]):
            it, (k, v) = t.a[0].a[2].a[0], t.a[0].a[1].a
            if literal_list(it) and k.op == 'iter' and literal_list(k.a[0]) and t.a[1] in literal_list(it):
                return self(subst(v, {k: t.a[1]}))
        if op == 'sub':
            b = self(t.a[0])
            if full(t.a[1]) or t.a[1].op == 'tuple' and not t.a[1].a:
                return b
            k = self(t.a[1])
            if is_const(k, 0) and t.a[0].op == 'call' and fname(t.a[0]) in ('nonzero', 'where') and len(t.a[0].a[1].a) <= 1:
                x = t.a[0].a[1].a[0] if t.a[0].a[1].a else t.a[0].a[0].a[0]
                return self(mk('call', mk('global', 'numpy.flatnonzero'), mk('list', x), mk('kw')))
            if self.P is not None and b.op == 'group':
                return self.groupitem(b, k)
            return self.getitem(b, k)
        if op == 'iter':
            return self.elem(self(t.a[0]))
        if op == 'index':
            return mk('index', self.base(self(t.a[0])))
        if op == 'item' and t.a[0].op == 'comp' and t.a[0].a[0] in ('list', 'gen') and len(t.a[0].a[2].a) == 1 and is_const(t.a[0].a[3], True):
            lits = literal_list(t.a[0].a[2].a[0])
            if lits and isinstance(t.a[1], int) and t.a[1] < len(lits):
                return self(subst(t.a[0].a[1].a[0], {mk('iter', t.a[0].a[2].a[0]): lits[t.a[1]]}))
        if op == 'comp':
            return self.comp(t)
        if op == 'after':
            return self.after(t)
        if op == 'bin' and t.a[0] == 'Add':
            x, y = self(t.a[1]), self(t.a[2])
            if y.op == 'bin' and y.a[0] == 'Mult':
                for c in y.a[1:]:
                    if isinstance(c, T) and c.op == 'list' and len(c.a) == 1 and is_const(c.a[0]):
                        return mk('pad', x, c.a[0].a[0])
            return mk('bin', 'Add', x, y)
        if op == 'mut' and t.a[1] == 'append' and False:
            return t
        a = [self(x) if isinstance(x, T) else x for x in t.a]
        r = simp(mk(op, *a))
        if r.op in ('tuple', 'list') and len(r.a) >= 2 and all(isinstance(x, T) and x.op == 'item' and x.a[0] is r.a[0].a[0] and x.a[1] == i for i, x in enumerate(r.a)):
            return r.a[0].a[0]                             # (x[0], x[1], ...)
        return r

    def call(self, t):
        n = fname(t)
        f, args = t.a[0], t.a[1].a
        if f.op == 'attr' and f.a[0].op != 'global':
            if n in CONV_M:
                x = self(f.a[0])
                return cast(x, args[0] if args else dict(kwitems(t.a[2])).get('dtype')) if n == 'astype' else x
            if n in ('keys',) and not args:
                return self(f.a[0])
            if n == 'values' and not args:
                b = self(f.a[0])
                return mk('map', b, self.getitem(b, self.elem(b)))
            if n == 'get' and len(args) in (1, 2):
                return self.getitem(self(f.a[0]), self(args[0]))
        elif n in CONV_F and len(args) >= 1:
            x = self(args[0])
            if n in ('dict', 'OrderedDict', 'odict') and x.op == 'zip' and len(x.a) == 2:
                return dictzip(x.a[0], x.a[1])
            if n in ('array', 'asarray', 'asanyarray', 'ascontiguousarray'):
                return cast(x, args[1] if len(args) > 1 else dict(kwitems(t.a[2])).get('dtype'))
            return x
        elif n in LOSSY and len(args) == 1:
            return mk('lossy', self(args[0]), n)
        elif n == 'zip':
            return mk('zip', *[self(x) for x in args])
        elif n == 'sorted' and args:
            x = self(args[0])
            if kwitems(t.a[2]):
                return mk('sortedby', x, *[self(v) for k, v in kwitems(t.a[2])])
            return x if x.op == 'sorted' else mk('sorted', x)
        elif n in ('bytes',) and args:
            return self(args[0])
        elif n == 'flatnonzero' and len(args) == 1:
            m = self(args[0])
            if m.op == 'upd' and is_const(m.a[2], True) and m.a[0].op == 'call' and fname(m.a[0]) == 'zeros':
                return m.a[1]                              # mask of a list of indices and back
        return mk('call', self(f) if f.op == 'attr' else f, mk('list', *[self(x) for x in args]), mk('kw', *[self(x) if isinstance(x, T) else x for x in t.a[2].a]))

    def leaf(self, p):
        hits = self.W.lookup(p)
        if hits:
            vs = []
            for h in hits:
                v = self.NW(h[2])
                if v not in vs:
                    vs.append(v)
            return vs[0] if len(vs) == 1 else mk('either', *sorted(vs, key=text))
        if p.endswith('@') and self.W.in_group(p):
            es = {(self.NW(k), self.NW(v), mk('tuple', *[self.NW(x) for x in cs])) for q, k, v, cs, _ in self.W.in_group(p)}
            if len(es) == 1:
                k, v, cs = next(iter(es))
                if k.op == 'el' and v is mk('sub', k.a[0], k):
                    return k.a[0] if not cs.a else excluding(k, cs)
            if len(es) == 2:
                # a value that cannot be stored is replaced by a marker
                (k1, v1, c1), (k2, v2, c2) = sorted(es, key=lambda x: not is_const(x[1]))
                item = mk('sub', k1.a[0], k1) if k1.op == 'el' else None
                if k1 is k2 and item is not None and is_const(v1) and v2 is item and len(c1.a) == len(c2.a) == 1 and is_none(c1.a[0], item) and is_none(neg(c2.a[0]), item):
                    return mk('marked', k1.a[0], v1)
            es = sorted(es, key=lambda x: text(x[0]) + text(x[1]))
            return mk('attrs', *[mk('entry', *x) for x in es])
        if p == '' or p.endswith('@') or any(x[0] == p or x[0].startswith(p + '/') or x[0].startswith(p + '@') for x in self.W.entries):
            return mk('group', p)
        return mk('missing', p)

    def groupitem(self, g, k):
        if k.op == 'fmt' and k.a and k.a[-1].op == 'el' and k.a[-1].a[0].op == 'call' and fname(k.a[-1].a[0]) == 'range':
            for (q, k0, val, cs, _) in self.W.in_group(g.a[0]):
                key = self.NW(k0)
                m = {x: y for c in cs if c.op == 'cmp' and c.a[0] == '==' for x, y in ((c.a[1], c.a[2]), (c.a[2], c.a[1])) if is_const(y)}
                if m:
                    key, val = self.NW(subst(k0, m)), subst(val, m)
                if key.op == 'fmt' and key.a[:-1] == k.a[:-1] and key.a[-1].op == 'index':
                    return mk('numbered', key.a[-1].a[0], self.NW(val), k.a[-1].a[0])
        return mk('groupitem', g, k)

    @staticmethod
    def base(x):
        while x.op == 'map':
            x = x.a[0]
        return x

    def elem(self, x):
        if x.op == 'sorted':
            return self.elem(x.a[0])
        if x.op == 'map':
            return x.a[1]
        if x.op == 'pad':
            return mk('padel', x)
        if x.op == 'zip':
            return mk('zipelem', *[self.elem(y) for y in x.a])
        return mk('el', x)

    def getitem(self, b, k):
        if b.op == 'map' and k.op == 'index':
            return b.a[1] if self.base(b) is k.a[0] else mk('sub', b, k)
        if k.op == 'index' and k.a[0] is b:
            return self.elem(b)
        return simp(mk('sub', b, k))

    def comp(self, t):
        kind, elts, its, cond = t.a
        if len(its.a) != 1:
            return mk('comp', kind, mk('tuple', *[self(x) for x in elts.a]), mk('tuple', *[self(x) for x in its.a]), self(cond))
        it = self(its.a[0])
        es = [self(x) for x in elts.a]
        c = self(cond)
        return self.build(kind, es, it, c)

    def build(self, kind, es, it, c):
        if kind in ('list', 'gen', 'tuple', 'set'):
            return self.listmap(it, es[0], c)
        k, v = es
        if it.op == 'group':
            return self.groupitems(it, k, v, c)
        if not is_const(c, True):
            return mk('dictwhere', it, k, v, c)
        if it.op == 'call' and fname(it) == 'enumerate':
            it = it.a[1].a[0]
        if it.op == 'zip':
            for i, x in enumerate(it.a):
                if k is self.elem(x):
                    for y in it.a[:i] + it.a[i + 1:]:
                        if v is self.elem(y) and not (y.op == 'map' and False):
                            return dictzip(x, y)
                    return dictzip(x, mk('map', x, v))
        if k is self.elem(it):
            return dictzip(it, self.listmap(it, v, TRUE))
        return mk('dictmap', it, k, v)

    def listmap(self, it, body, c):
        if it.op == 'call' and fname(it) == 'enumerate':
            it = it.a[1].a[0]
        if it.op == 'pad':
            # padding removed again: the elements that are not the padding value
            e = mk('padel', it)
            if body is e and (c is e and not it.a[1] or differs(c, e, it.a[1])):
                return it.a[0]
            return mk('padmap', it, body, c)
        if not is_const(c, True):
            return mk('filter', it, body, c)
        if body.op == 'numbered' and body.a[2] is it:
            b = it.a[1].a[-1] if len(it.a[1].a) == 1 else it
            if b.op == 'call' and fname(b) == 'len':
                return self.listmap(body.a[0], body.a[1], c)
        if it.op == 'zip':
            for x in it.a:
                if body is self.elem(x):
                    return x
            return mk('map', it, body)
        if it.op == 'map':
            it = it.a[0]
            return self.listmap(it, body, c)
        if body is self.elem(it):
            return it
        # elements picked by position
        for s in subterms(body):
            if s.op == 'sub' and s.a[1].op == 'index' and body is s and s.a[1].a[0] is self.base(it):
                return s.a[0]
        return mk('map', it, body)

    def groupitems(self, g, k, v, c):
        p = g.a[0]
        out = set()
        for c1 in conj(c):
            x = c1.a[0] if c1.op == 'not' else c1
            if x.op == 'cmp' and (c1.op == 'not') == (x.a[0] in ('==', 'in')):
                y = x.a[2] if x.a[1] is mk('el', g) else x.a[1]
                out |= {z.a[0] for z in subterms(y) if z.op == 'const' and isinstance(z.a[0], str)}
        left = []
        for (q, key, val, cs, _) in self.W.in_group(p):
            if is_const(key) and key.a[0] in out:
                continue
            left.append((self.NW(key), self.NW(val)))
        left = sorted(set(left), key=lambda x: text(x[0]) + text(x[1]))
        if k is mk('el', g) and v is mk('groupitem', g, mk('el', g)):
            if len(left) == 1 and left[0][0].op == 'el' and left[0][1] is mk('sub', left[0][0].a[0], left[0][0]):
                return left[0][0].a[0]
        return mk('groupitems', *[x for kv in left for x in kv], k, v)

    def after(self, t):
        name, lid, v, init = t.a
        it = self.its.get(lid)
        lv = None
        for s in subterms(v):
            if s.op == 'loopvar' and s.a[0] == name and s.a[1] == lid:
                lv = s
        while init.op == 'loopvar' and init.a[0] == name and init.a[1] == lid:
            init = init.a[2]
        if it is None or lv is None:
            return mk('opaque', name)
        lits = literal_list(it)
        if lits is not None:
            cur = init
            for x in lits:
                cur = mergeupd(subst(v, {mk('iter', it): x, lv: cur}))
            return self(cur)
        its = self(it)
        if v.op == 'upd' and v.a[0] is lv:
            k = v.a[1]
            if is_const(k) and v.a[2].op == 'mut' and v.a[2].a[1] == 'append' and v.a[2].a[0] is mk('sub', lv, k):
                old = dict_get(init, k.a[0])
                if isinstance(old, T) and old.op == 'list' and not old.a:
                    return simp(mk('upd', self(dropkey(init, k)), k, self.listmap(its, self(v.a[2].a[2].a[0]), TRUE)))
            b = self(init)
            k, val = self(v.a[1]), self(v.a[2])
            if b.op == 'dict' and not b.a or empty(b):
                return self.build('dict', [k, val], its, TRUE)
            return mk('filled', b, its, k, val)
        if v.op == 'mut' and v.a[0] is lv and v.a[1] == 'append':
            b = self(init)
            val = self(v.a[2].a[0])
            if b.op == 'list' and not b.a:
                return self.listmap(its, val, TRUE)
            return mk('extended', b, its, val)
        if v.op in ('upd', 'ite'):
            sub = {lv: mk('current')}
            b, body = self(init), self(subst(v, sub))
            if b.op == 'marked' and its is b:
                el, cur = mk('el', b), mk('current')
                item = mk('sub', cur, el)
                if body.op == 'ite' and body.a[1] is mk('upd', cur, el, NONE) and body.a[2] is cur and is_marker(body.a[0], item, b.a[1]):
                    return b.a[0]
                if body.op == 'upd' and body.a[0] is cur and body.a[1] is el and unmark(b, body.a[2], item):
                    return b.a[0]
            return mk('each', b, its, body)
        return mk('opaque', name)


def neg(c):
    return c.a[0] if c.op == 'not' else mk('not', c)


def is_none(c, x):
    return c.op == 'cmp' and c.a[0] in ('is', '==') and (c.a[1] is x and c.a[2] is NONE or c.a[2] is x and c.a[1] is NONE)


def is_marker(c, x, m):
    return c.op == 'cmp' and c.a[0] == '==' and (c.a[1] is x and c.a[2] is m or c.a[2] is x and c.a[1] is m)


def unmark(M, body, cur):
    """body undoes the marker of M for the element cur"""
    if body.op != 'ite':
        return False
    c, a, b = body.a
    if c.op == 'not' or c.op == 'cmp' and c.a[0] == '!=':
        c, a, b = (c.a[0] if c.op == 'not' else mk('cmp', '==', c.a[1], c.a[2])), b, a
    return is_marker(c, cur, M.a[1]) and a is NONE and b is cur


def excluding(k, cs):
    """a dictionary written except for some named keys"""
    out = set()
    for c in cs.a:
        x = neg(c)
        if x.op == 'cmp' and x.a[0] == '==' and x.a[1] is k and is_const(x.a[2]):
            out.add(x.a[2].a[0])
        elif x.op == 'cmp' and x.a[0] == '==' and x.a[2] is k and is_const(x.a[1]):
            out.add(x.a[1].a[0])
        elif x.op == 'cmp' and x.a[0] == 'in' and x.a[1] is k and x.a[2].op in ('tuple', 'list', 'set') and all(is_const(y) for y in x.a[2].a):
            out |= {y.a[0] for y in x.a[2].a}
        else:
            return mk('where', k.a[0], cs)
    return mk('except', k.a[0], tuple(sorted(map(str, out))))


def empty(b):
    return b.op == 'call' and fname(b) in ('OrderedDict', 'odict', 'dict') and not b.a[1].a


def dropkey(t, k):
    return t.a[0] if t.op == 'upd' and t.a[1] is k else t


def mergeupd(t):
    """a conditional store is a store of a conditional value"""
    if t.op == 'ite':
        c, a, b = t.a[0], mergeupd(t.a[1]), mergeupd(t.a[2])
        if a.op == 'upd' and b.op == 'upd' and a.a[0] is b.a[0] and a.a[1] is b.a[1]:
            return mk('upd', a.a[0], a.a[1], mk('ite', c, a.a[2], b.a[2]))
        if a.op == 'upd' and a.a[0] is b:
            return mk('upd', b, a.a[1], mk('ite', c, a.a[2], mk('sub', b, a.a[1])))
    return t


def chain_base(t):
    while t.op == 'upd':
        t = t.a[0]
    return t


def differs(c, e, v):
    x = c.a[0] if c.op == 'not' else c
    return x.op == 'cmp' and (x.a[0] == '!=') != (c.op == 'not') or c.op == 'not' and x.op == 'cmp' and x.a[0] == '==' and (is_const(x.a[2], v) or is_const(x.a[1], v))


def conj(c):
    return [y for x in c.a for y in conj(x)] if c.op == 'and' else [c]


def dictzip(ks, vs):
    """{k: v for k, v in zip(ks, vs)}"""
    if ks.op == 'marked' and vs.op == 'map' and vs.a[0] is ks and unmark(ks, vs.a[1], mk('sub', ks, mk('el', ks))):
        return ks.a[0]
    if vs.op == 'map':
        S, body = vs.a
        src = S.a[0] if S.op == 'sorted' else S
        if body.op == 'sub' and body.a[1] is mk('el', src) and S is ks:
            D = body.a[0]
            return D if D is src else mk('pick', D, src)
    if vs is ks:
        return mk('dictzip', ks, vs)
    return mk('dictzip', ks, vs)


def text(t, memo=None):
    """full rendering"""
    if not isinstance(t, T):
        return repr(t)
    o, a = t.op, t.a
    s = text
    if o == 'const':
        return repr(a[0])
    if o in ('param', 'global', 'func', 'class'):
        return str(a[0])
    if o == 'attr':
        return f'{s(a[0])}.{a[1]}'
    if o == 'sub':
        return f'{s(a[0])}[{s(a[1])}]'
    if o == 'call':
        return f'{s(a[0])}({", ".join([s(x) for x in a[1].a] + [f"{k}={s(v)}" for k, v in kwitems(a[2])])})'
    return f'{o}<{", ".join(s(x) for x in a)}>'


def outputs(P, w, N, cls=None):
    """{name: normal form} of what a reading function returns"""
    out = {}
    for e in w.events:
        if e.kind == 'return' and e.depth == 0 and e.val is not None:
            spread(P, e.val, '', N, out, cls)
    return out


def spread(P, t, name, N, out, cls):
    if t.op == 'tuple':
        for i, x in enumerate(t.a):
            spread(P, x, f'{name}.{i}', N, out, cls)
        return
    if t.op == 'call' and (t.a[0].op == 'param' and t.a[0].a[0] == 'cls' or t.a[0].op == 'class') and cls is not None:
        names = cls
        for i, x in enumerate(t.a[1].a):
            spread(P, x, f'{name}.{names[i] if i < len(names) else i}', N, out, None)
        for k, x in kwitems(t.a[2]):
            spread(P, x, f'{name}.{k}' if k is not None and str(k) not in ('**', 'None') else name, N, out, None)
        return
    if t.op in ('upd', 'dict', 'after') and not (t.op == 'after'):
        flat = flatten(t)
        if flat is not None:
            for k, v in flat.items():
                spread(P, v, f'{name}.{k}', N, out, None)
            return
    n = N(t)
    if n is not t and n.op == 'upd':
        flat = flatten(n)
        if flat is not None:
            for k, v in flat.items():
                out[f'{name}.{k}'] = v
            return
    out[name] = n


def flatten(t):
    out = {}
    while t.op == 'upd':
        if not is_const(t.a[1]):
            return None
        out.setdefault(t.a[1].a[0], t.a[2])
        t = t.a[0]
    if t.op == 'dict' and not t.a or empty(t):
        return out
    if out:
        out['*'] = t
        return out
    return None


# ------------------------------------------------------------------ dictionaries kept in arrays, one slot per key
def slot_stores(w, N):
    """stores array[index of the key] = dictionary[key]: (array, index, value) in canonical text"""
    out = set()
    for e in w.events:
        if e.kind != 'setitem' or e.val is None:
            continue
        for arr, idx, val in unroll([e.target, e.args[0], e.val]):
            if idx.op != 'tuple':
                continue
            v, tr = untranspose(N(val))
            if v.op != 'sub' or v.a[0].op not in ('param', 'attr'):
                continue
            m = keymap(v.a[1])
            if m is None:
                continue
            n = name_of(arr)
            out.add((n if n.startswith('self.') else '*', index_text(N(idx), m), text(deself(v.a[0])), tr))
    return out


def slot_reads(w, N):
    """dictionary[key] = array[index of the key]"""
    out, ret = set(), returned(w)
    for e in w.events:
        if e.kind != 'setitem' or e.val is None:
            continue
        for d, key, val in unroll([e.target, e.args[0], e.val]):
            m = keymap(N(key))
            v, tr = untranspose(N(val))
            if m is None or v.op != 'sub' or v.a[1].op != 'tuple':
                continue
            out.add((name_of(v.a[0]), index_text(v.a[1], m), ret.get(name_of(d), name_of(d)), tr))
    return out


def deself(t):
    m = {x: x.a[2] for x in subterms(t) if x.op == 'loopvar' and x.a[0] == 'self'}
    return subst(t, m) if m else t


def name_of(t):
    name = None
    while t.op in ('upd', 'mut', 'loopvar', 'after'):
        if t.op in ('loopvar', 'after'):
            name, t = t.a[0], t.a[2] if t.op == 'loopvar' else t.a[3]
        else:
            t = t.a[0]
    for x in ([t] if t.op != 'ite' else t.a[1:]):
        if x.op in ('attr', 'param'):
            return text(deself(x))
    return str(name)


def returned(w):
    """local name -> position in the returned tuple"""
    out = {}
    for e in w.events:
        if e.kind == 'return' and e.depth == 0 and e.val is not None and e.val.op == 'tuple':
            for i, x in enumerate(e.val.a):
                for y in ([x] if x.op != 'ite' else x.a[1:]):
                    out.setdefault(name_of(y), f'.{i}')
    return out


def untranspose(t):
    tr = 0
    while True:
        if t.op == 'attr' and t.a[1] == 'T':
            tr, t = tr ^ 1, t.a[0]
        elif t.op == 'call' and fname(t) in ('transpose', 'swapaxes') and (t.a[0].op == 'attr' and t.a[0].a[0].op != 'global' or t.a[1].a):
            tr, t = tr ^ 1, t.a[0].a[0] if t.a[0].op == 'attr' and t.a[0].a[0].op != 'global' else t.a[1].a[0]
        elif t.op == 'sub' and t.a[1].op == 'tuple' and all(x is NONE or full(x) for x in t.a[1].a):
            t = t.a[0]
        elif t.op == 'sub' and (t.a[1] is NONE or full(t.a[1])):
            t = t.a[0]
        else:
            return t, tr


def keymap(k):
    """parts of a key that comes from a loop"""
    if k.op in ('el', 'iter'):
        return {mk('item', k, 0): 'k0', mk('item', k, 1): 'k1', k: 'k'}
    if k.op != 'tuple' and any(s.op in ('el', 'iter') for s in subterms(k)):
        return {**{mk('index', y.a[0]): 'k' for y in subterms(k) if y.op == 'el'}, k: 'k'}
    if k.op == 'tuple' and len(k.a) == 2 and all(any(s.op in ('el', 'iter') for s in subterms(x)) for x in k.a):
        m = {k.a[0]: 'k0', k.a[1]: 'k1'}
        for i, x in enumerate(k.a):
            for y in subterms(x):
                if y.op == 'el':
                    m.setdefault(mk('index', y.a[0]), f'k{i}')
                    m.setdefault(mk('index', mk('sorted', y.a[0])), f'k{i}')
        return m
    return None


def index_text(idx, m):
    out = []
    for x in (idx.a if idx.op == 'tuple' else [idx]):
        y = subst(x, {a: mk('key', b) for a, b in m.items()})
        ks = sorted({s.a[0] for s in subterms(y) if s.op == 'key'})
        if ks:
            tabs = sorted({z.a[1] for z in subterms(y) if z.op == 'attr' and z.a[1].endswith('indices')})
            out.append('/'.join(ks + tabs))
        else:
            names = {s.a[0] if s.op == 'param' else s.a[1] for s in subterms(x) if s.op in ('param', 'attr')}
            f, t = bool(names & {'fSlice', 'Nfreqs'}), bool(names & {'tSlice', 'Ntimes'})
            out.append('F' if f and not t else 'T' if t and not f else ':' if full(x) else text(y))
    return out and '[' + ', '.join(out) + ']'
