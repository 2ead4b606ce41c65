"""Provenance of written products: which history texts are in the product's history, how often, on which path."""
from __future__ import annotations
import ast
from collections import Counter

from .core import Func, Cls
from .terms import Walker, T, mk, const, subterms, formula, satisfiable, tnot, dict_get

SINKS = {'write_calfits', 'write_calh5', 'write_uvh5', 'write_uvfits', 'write_miriad', 'write_ms', 'initialize_uvh5_file'}
READS = {'read', 'read_uvh5', 'read_calfits', 'read_uvfits', 'read_miriad', 'read_calh5'}
SAME = {'to_HERAData', 'to_HERACal'}          # the object itself, with another class (read from file when a path is given)
HPARAMS = ('add_to_history', 'history')
TEXT = {'str', 'bytes_', 'bytes', 'join', 'format', 'repr', 'encode', 'decode', 'strip', 'rstrip', 'lstrip'}


class HistWalker(Walker):
    """also: objects get an identity per construction, sinks remember the history of the object written"""

    def setup(self):
        self.births, self.products, self.hsets, self.returned = {}, [], [], []

    def obj(self, t):
        while True:
            if t.op in ('upd', 'mut', 'enter'):
                t = t.a[0]
            elif t.op == 'loopvar':
                t = t.a[2]
            elif t.op == 'after' and self.obj(t.a[2]) is self.obj(t.a[3]):
                t = t.a[3]
            else:
                return t

    def history_of(self, x, st):
        x = self.obj(x)
        v = st.heap.get((x, 'history'))
        if v is not None:
            return v
        if x.op == 'ite':
            return mk('ite', x.a[0], self.history_of(x.a[1], st), self.history_of(x.a[2], st))
        c = x.a[1] if x.op == 'new' else x
        if c.op == 'call':
            kw = c.a[2].a
            for i in range(0, len(kw) - 1, 2):
                if kw[i] == 'history':
                    return kw[i + 1]
            src = None
            nm = callname(c)
            if nm in ('deepcopy', 'copy') and c.a[1].a:
                src = c.a[1].a[0]
            elif nm in ('copy', 'select') and c.a[0].op == 'attr':
                src = c.a[0].a[0]
            if src is not None:
                return self.history_of(src, st)
        return mk('attr', x, 'history')

    def cls_of(self, t):
        if t.op == 'new':
            t = t.a[1]
        return super().cls_of(t)

    def s_For(self, s, st):
        it = None
        if isinstance(s.iter, (ast.List, ast.Tuple, ast.Name)) and not any(isinstance(x, (ast.Break, ast.Continue)) for b in s.body for x in ast.walk(b)):
            it = self.ev(s.iter, st)
        if it is not None and it.op in ('list', 'tuple') and len(it.a) <= 8 and not any(e.op == 'star' for e in it.a):
            for v in it.a:
                self.assign(s.target, v, st, s, quiet=True)
                if not self.block(s.body, st):
                    return False
            return self.block(s.orelse, st) if s.orelse else True
        return super().s_For(s, st)

    def put(self, x, v, st, cond=()):
        x = self.obj(x)
        if x.op == 'ite':
            c = x.a[0]
            a, b = self.history_of(x.a[1], st), self.history_of(x.a[2], st)
            self.put(x.a[1], mk('ite', c, v, a), st)
            self.put(x.a[2], mk('ite', c, b, v), st)
        st.heap[(x, 'history')] = v

    def emit(self, kind, st, node, **k):
        e = super().emit(kind, st, node, **k)
        if kind == 'setattr' and k['name'] == 'history':
            self.hsets.append((e, self.obj(k['target'])))
            self.put(k['target'], k['val'], st)
        if kind == 'return' and len(self.frames) == 1:
            self.returned.append((e, self.history_of(k['val'], st), self.obj(k['val'])))
        if kind == 'call':
            last = str(k['name']).split('.')[-1]
            b = k.get('base')
            if last in SINKS and b is not None:
                self.products.append(('write', e, self.history_of(b, st), self.obj(b)))
            elif last == 'setattr' and len(k['args']) == 3 and k['args'][1].op == 'iter':
                q = dict_get(k['args'][1].a[0], 'history')
                if isinstance(q, T):
                    self.put(k['args'][0], mk('sure', q), st)
            elif last == 'write' and b is not None and self.uvobj(b):
                self.products.append(('write', e, self.history_of(b, st), self.obj(b)))
        if kind == 'setitem' and k['args'][0].op == 'const' and k['args'][0].a[0] == 'history' and h5like(k['target']):
            self.products.append(('h5', e, k['val'], None))
        return e

    def uvobj(self, b):
        b = self.obj(b)
        c = b.a[1] if b.op == 'new' else b
        if c.op == 'call':
            nm = callname(c) or ''
            return nm.startswith(('HERACal', 'HERAData', 'UVCal', 'UVData', 'UVFlag')) or (c.a[0].op == 'global' and '.UV' in c.a[0].a[0])
        return False

    def e_Attribute(self, n, st):
        if n.attr == 'history':
            b = self.ev(n.value, st)
            if b.op != 'global':
                return self.history_of(b, st)
        return super().e_Attribute(n, st)

    def e_Call(self, n, st):
        if getattr(n.func, 'id', getattr(n.func, 'attr', '')) in SAME and n.args:
            return self.ev(n.args[0], st)
        r = super().e_Call(n, st)
        nm = callname(r) if r.op == 'call' else None
        if nm in READS and isinstance(n.func, ast.Attribute):
            x = self.obj(self.ev(n.func.value, st))
            if (x, 'history') in st.heap:
                st.heap[(x, 'history')] = mk('attr', x, 'history')
        if r.op == 'call' and nm and (nm[:1].isupper() or nm in ('deepcopy', 'copy', 'select', 'new', 'from_file') or nm.startswith(('new_', 'init_', 'create_', 'make_', 'from_', '_init_'))):
            i = next(self.ids)
            v = mk('new', i, r)
            self.births[i] = self.loops
            h = self.history_of(r, st)
            st.heap[(v, 'history')] = h if not (h.op == 'attr' and h.a[0] is r) else mk('attr', v, 'history')
            return v
        return r


def h5like(t):
    if t.op == 'attr' and t.a[1] == 'attrs':
        return True
    for x in subterms(t):
        if x.op == 'global' and 'h5py' in x.a[0]:
            return True
        if x.op == 'attr' and x.a[1] in ('create_group', 'create_dataset'):
            return True
    return False


def callname(c):
    f = c.a[0]
    return f.a[0].split('.')[-1] if f.op == 'global' else f.a[1] if f.op == 'attr' else None


def sources(t):
    """parameters an object was made from"""
    if t.op == 'new':
        return sources(t.a[1])
    if t.op in ('upd', 'mut', 'enter'):
        return sources(t.a[0])
    if t.op in ('ite', 'after', 'loopvar'):
        return tuple(sorted({p for x in (t.a[1:] if t.op == 'ite' else t.a[2:]) for p in sources(x)}))
    return tuple(sorted({x.a[0] for x in subterms(t) if x.op == 'param' and not str(x.a[0]).startswith('*')}))


def root_params(t):
    """a ** dictionary that is the caller's own **kwargs, possibly with entries added"""
    while t.op in ('upd', 'mut', 'loopvar', 'after'):
        t = t.a[2] if t.op == 'loopvar' else t.a[3] if t.op == 'after' else t.a[0]
    if t.op == 'dict' and len(t.a) == 2 and t.a[0].op == 'star':
        return root_params(t.a[1])
    if t.op == 'ite':
        return root_params(t.a[1]) and root_params(t.a[2])
    return t.op == 'param' and str(t.a[0]).startswith('**')


def grows(w, v):
    """loop-carried texts in v that get one more stamp, given text or file history per iteration"""
    for lv in {x for x in subterms(v) if x.op == 'loopvar'}:
        up = w.updates.get((lv.a[0], lv.a[1]))
        if up is None or lv not in set(subterms(up)):
            continue
        pick = lambda c: sum(n for a, n in c.items() if a[0] in ('stamp', 'hist') or a[1] in HPARAMS)
        lo = max((pick(c) for g, c in texts(lv)), default=0)
        if any(pick(c) > lo for g, c in texts(up)):
            return lv.a[0]
    return None


def texts(t, depth=0, cap=64):
    """-> list of (guards, Counter of atoms); atoms: ('stamp',), ('param', p), ('hist', object)"""
    if depth > 60:
        return [((), Counter())]
    r = lambda x: texts(x, depth + 1, cap)

    def cat(parts):
        out = [((), Counter())]
        for p in parts:
            nxt = []
            for g, c in out:
                for g2, c2 in r(p):
                    nxt.append((g + g2, c + c2))
            out = nxt[:cap]
        return out
    if t.op == 'const':
        return [((), Counter())]
    if t.op == 'bin' and t.a[0] == 'Add':
        return cat(t.a[1:])
    if t.op == 'fmt':
        return cat(t.a)
    if t.op in ('list', 'tuple'):
        return cat(t.a)
    if t.op == 'ite':
        return ([((t.a[0],) + g, c) for g, c in r(t.a[1])] + [((tnot(t.a[0]),) + g, c) for g, c in r(t.a[2])])[:cap]
    if t.op == 'or' and len(t.a) == 2:          # x or ''
        return r(t.a[0])
    if t.op == 'param':
        return [((), Counter({('param', t.a[0]): 1}))]
    if t.op == 'attr' and t.a[1] == 'history':
        return [((), Counter({('hist', t.a[0]): 1}))]
    if t.op == 'sub' and t.a[1].op == 'const' and t.a[1].a[0] == 'history':
        return [((), Counter({('hist', t.a[0]): 1}))]
    if t.op == 'loopvar':
        return r(t.a[2])
    if t.op == 'sure':
        return r(t.a[0])
    if t.op == 'after' and t.a[2].op == 'sure':       # every attribute given by keyword is set, whatever the loop's order
        return r(t.a[2])
    if t.op == 'after':
        return (r(t.a[2]) + r(t.a[3]))[:cap]
    if t.op == 'maybe' and root_params(t.a[1]):
        return [((), Counter())]             # **kwargs of a function cannot contain one of its own named parameters
    if t.op == 'maybe':
        return [((), Counter({('param', '**' + t.a[0]): 1}))]
    if t.op == 'call':
        nm = callname(t)
        args = [a for a in t.a[1].a]
        kws = t.a[2].a
        vals = [kws[i + 1] for i in range(0, len(kws) - 1, 2)]
        if nm == 'history_string':
            return [(g, c + Counter({('stamp',): 1})) for g, c in cat(args + vals)]
        if nm in TEXT:
            return cat(([t.a[0].a[0]] if t.a[0].op == 'attr' else []) + args + vals)
    # anything else: whatever it mentions may be in there once
    c = Counter()
    for x in subterms(t):
        if x.op == 'call' and callname(x) == 'history_string':
            c[('stamp',)] = 1
        elif x.op == 'param' and x.a[0] in HPARAMS:
            c[('param', x.a[0])] = 1
        elif x.op == 'attr' and x.a[1] == 'history':
            c[('hist', x.a[0])] = 1
    return [((), c)]


def outlives(w, x, loops):
    """loops (innermost suffix) the object x survives: it is the same object in every iteration"""
    x = w.obj(x)
    if x.op == 'after':
        return max((outlives(w, y, loops) for y in x.a[2:] if y.op != 'unbound'), key=len, default=())
    if x.op == 'ite':
        return max((outlives(w, y, loops) for y in x.a[1:]), key=len)
    if x.op == 'new':
        return loops[len(w.births.get(x.a[0], ())):]
    its = {y.a[0] for y in subterms(x) if y.op in ('iter', 'index')}
    for i in range(len(loops), 0, -1):
        if loops[i - 1] in its or any(y is z for y in its for z in subterms(loops[i - 1])):
            return loops[i:]
    return loops


def possible(pc, guards, asg=()):
    fs = [formula(g, lambda t: None) for g in tuple(pc) + tuple(guards) + tuple(asg)]
    return satisfiable(fs, {})


def hwalk(P, f, **k):
    w = HistWalker.__new__(HistWalker)
    w.localfuncs = {}
    w.setup()
    w.__init__(P, f, **k)
    return w
