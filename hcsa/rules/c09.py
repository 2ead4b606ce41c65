"""C09: every product's history says where it came from and what was run."""
import ast
from collections import Counter
from ..core import Project, Func
from ..report import Result, contract
from ..terms import T, Event, mk, const, show, subterms, tnot, NONE
from ..hist import hwalk, grows, root_params, texts, possible, sources, outlives, SINKS, HPARAMS


def hparam(f):
    return next((p for p in HPARAMS if p in f.params), None)


def calls(f):
    return {(n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id)
            for n in ast.walk(f.node) if isinstance(n, ast.Call) and isinstance(n.func, (ast.Attribute, ast.Name))}


def direct(f):
    for n in ast.walk(f.node):
        if isinstance(n, ast.Attribute) and n.attr == 'history' and isinstance(n.ctx, ast.Store):
            return True
        if isinstance(n, ast.Attribute) and n.attr in SINKS:
            return True
        if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.slice, ast.Constant) and n.slice.value == 'history':
            return True
        if isinstance(n, ast.keyword) and n.arg == 'history':
            return True
    return False


class Survey:
    def __init__(self, P):
        self.P = P
        fs = [f for f in P.funcs.values() if f.parent is None]
        self.rel = {f.qual for f in fs if direct(f)}
        names = {}
        for f in fs:
            names.setdefault(f.name, []).append(f.qual)
        cs = {f.qual: calls(f) for f in fs}
        while True:
            new = {f.qual for f in fs if f.qual not in self.rel and not f.name.startswith('__')
                   and any(q in self.rel for c in cs[f.qual] for q in names.get(c, ()) if c not in ('read', 'update', 'write', 'select'))}
            if not new:
                break
            self.rel |= new
        self.funcs = {f.qual: f for f in fs if f.qual in self.rel}
        self.memo = {}

    def carrier(self, f):
        """functions that take the text to record as a parameter: judged on their own, used through their summary"""
        if not isinstance(f, Func) or f.qual not in self.rel:
            return False
        k = ('carrier', f.qual)
        if k not in self.memo:
            self.memo[k] = self._carrier(f)
        return self.memo[k]

    def _carrier(self, f):
        return hparam(f) is not None and (self.returns(f) or self.has_products(f))

    def returns(self, f):
        """functions that build an object with the given history and return it"""
        return not self.has_products(f) and any(isinstance(n, ast.Return) and n.value is not None for n in ast.walk(f.node)) \
            and not any(isinstance(n, ast.Attribute) and n.attr == 'history' and isinstance(n.ctx, ast.Store) for n in ast.walk(f.node))

    def has_products(self, f, seen=()):
        k = ('prod', f.qual)
        if k in self.memo:
            return self.memo[k]
        if f.qual in seen:
            return False
        r = self._has_products(f, seen)
        if r or not seen:
            self.memo[k] = r
        return r

    def _has_products(self, f, seen):
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and n.attr in SINKS:
                return True
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.slice, ast.Constant) and n.slice.value == 'history':
                return True
        return any(g.name in calls(f) and g is not f and self.has_products(g, seen + (f.qual,)) for g in self.funcs.values() if g.name not in ('read', 'update', 'write', 'select'))

    def walk(self, f):
        if f.qual not in self.memo:
            inl = lambda g: g.qual in self.rel and not self.carrier(g) and not g.name.startswith('__') and g.name not in ('read', 'history_string', 'select')
            self.memo[f.qual] = None
            self.memo[f.qual] = hwalk(self.P, f, inline=inl, max_depth=4)
        return self.memo[f.qual]

    def products(self, f):
        """[(kind, where, pc, alternatives of texts, object, loops)] written by f or handed to a carrier by f"""
        w = self.walk(f)
        out = []
        if w is None:
            return out
        for kind, e, v, x in w.products:
            out.append((kind, e, texts(v), x))
        if hparam(f) is not None and not out:
            if self.returns(f):
                for e, v, x in w.returned:
                    if v.op == 'attr' and v.a[0] is x:
                        continue
                    out.append(('return', e, texts(v), x))
            elif not self.has_products(f) and f.name != '__init__':
                for (x, a), v in w.final.heap.items():
                    if a == 'history' and x.op == 'param':
                        e = next((h for h, y in w.hsets if y is x), None)
                        if e is not None:
                            out.append(('update', Event('update', (), e.node, e.func, name=f.name, loops=()), texts(v), x))
        for e in w.events:
            if e.kind == 'call' and self.carrier(e.fn) and e.fn is not f:
                p = hparam(e.fn)
                v = argument(e, e.fn, p, f)
                st = self.stamps(e.fn)
                al = texts(v)
                if st:
                    al = [(g, c + Counter({('stamp',): st})) for g, c in al]
                out.append(('call', e, al, None))
        return out

    def stamps(self, f):
        """stamps the carrier itself adds to the text it is given (the same on every product, else None)"""
        k = ('st', f.qual)
        if k not in self.memo:
            self.memo[k] = 0
            n = {c[('stamp',)] for kind, e, al, x in self.products(f) for g, c in al if possible(e.pc, g)}
            self.memo[k] = max(n) if n else 0
        return self.memo[k]


def argument(e, f, p, root):
    v = e.kw(p)
    if v == 'unknown' and p in root.params and all(root_params(x) for k, x in e.kws if k == '**'):
        v = None            # **kwargs of a function cannot contain one of its own named parameters
    if v == 'unknown':
        return mk('maybe', p, const(0))
    if v is not None:
        return v
    pos = list(f.pos_params)
    if f.cls is not None and not f.is_static and pos:
        pos = pos[1:]
    if p in pos and pos.index(p) < len(e.args):
        return e.args[pos.index(p)]
    d = f.defaults.get(p)
    return const(d.value) if isinstance(d, ast.Constant) else NONE


def label(a):
    if a[0] == 'hist':
        s = sources(a[1])
        return 'history of ' + (','.join(s) or 'object')
    return ' '.join(a)


def not_none(p):
    return tnot(mk('cmp', 'is', mk('param', p), NONE))


def alternatives(e, al):
    return [(g, c) for g, c in al if possible(e.pc, g)]


def facts(S, f):
    """what every product of f records: (stamped, {parameter whose history is in there when it is given})"""
    H, stamped, contrib, n = hparam(f), True, None, 0
    for kind, e, al, x in S.products(f):
        n += 1
        for g, c in alternatives(e, al):
            stamped = stamped and c[('stamp',)] == 1
        here = set()
        for p in f.params:
            if all(has(c, p) for g, c in alternatives(e, al) if possible(e.pc, g, [not_none(p)])) and any(has(c, p) for g, c in alternatives(e, al)):
                here.add(p)
        contrib = here if contrib is None else contrib & here
    return n, stamped, contrib or set()


def has(c, p):
    return any(a[0] == 'hist' and p in sources(a[1]) for a in c)


def judge(res, S, f, con):
    H = hparam(f)
    w = S.walk(f)
    short = f.short
    ps = S.products(f)
    if not ps:
        return
    res.count('functions that write or pass on a product')
    want = con['contributes'].get(short, [])
    for kind, e, al, x in ps:
        res.count('products')
        what = str(e.name or 'history').split('.')[-1]
        for g, c in alternatives(e, al):
            res.count('obligations')
            if H is not None and c[('param', H)] == 0 and not c.get(('param', '**' + H)):
                res.add('text-lost', f'{short}|{what}', f'{short}: the product of {what} is written without the text given as {H}', e.where)
            if H is not None and c[('param', H)] > 1:
                res.add('text-doubled', f'{short}|{what}', f'{short}: the text given as {H} is recorded {c[("param", H)]} times in the product of {what}', e.where)
            if c[('stamp',)] > 1:
                res.add('stamp-doubled', f'{short}|{what}', f'{short}: the history stamp is added {c[("stamp",)]} times to the product of {what}', e.where)
            if short in con['stamped'] and c[('stamp',)] == 0:
                res.add('stamp-lost', f'{short}|{what}', f'{short}: the product of {what} is written without the history stamp (code version, caller)', e.where)
            if kind in ('write', 'update') and not any(a[0] == 'hist' for a in c) and not own_text(x):
                res.add('history-replaced', f'{short}|{what}', f'{short}: the history the written object came with is replaced, not extended', e.where)
            for p in want:
                if p in f.params and not has(c, p) and possible(e.pc, g, [not_none(p)]):
                    if kind == 'call' and e.fn is not None and e.fn.cls is not None and e.base is not None and p in sources(w.obj(e.base)):
                        continue        # a method of the object read from p writes that object's own history
                    res.add('source-lost', f'{short}|{p}', f'{short}: the history of {p} is missing from the product of {what}', e.where)
    for k, e, v in [(k, e, v) for k, e, v, x in w.products] + [('call', e, argument(e, e.fn, hparam(e.fn), f)) for e in w.events
                                                              if e.kind == 'call' and S.carrier(e.fn) and e.fn is not f]:
        nm = grows(w, v)
        if nm:
            res.add('accumulates', f'{short}|{nm}', f'{short}: the text {nm} recorded in the products grows with every iteration', e.where)
    for e, x in w.hsets:
        res.count('history updates')
        own = [c for g, c in texts(e.val) if any(a[0] == 'hist' for a in c)]
        if own and (x.op == 'param' or (x.op == 'attr' and x.a[0].op == 'param')) and any(k in ('write', 'h5') for k, pe, a, px in ps) and lasting(w, x):
            res.add('writing-changes', f'{short}|{show(x)}', f'{short}: writing extends the history of {show(x)} itself, so that the next product has the text again', e.where)
        surv = outlives(w, x, e.loops)
        if own and surv and any(pe.loops[:len(e.loops)] == e.loops for k, pe, a, px in ps if k == 'write' and px is x):
            res.add('accumulates', f'{short}|history', f'{short}: the history of an object that outlives the loop is extended in every iteration', e.where)


def lasting(w, x):
    """the caller's object still has the longer history when the function is done"""
    for pc, v, heap in w.returns:
        h = heap.get((x, 'history'))
        if h is not None and not (h.op == 'attr' and h.a[0] is x):
            return True
    return False


def own_text(x):
    """the object was constructed here with its history as an argument"""
    if x is None:
        return True
    if x.op == 'ite':
        return own_text(x.a[1]) and own_text(x.a[2])
    c = x.a[1] if x.op == 'new' else x
    return c.op == 'call' and 'history' in c.a[2].a[::2]


def scripts(P, S):
    """calls in command-line scripts that hand sys.argv to the function they run"""
    out = {}
    for m in P.modules.values():
        if not m.relpath.startswith('scripts/'):
            continue
        w = hwalk(P, m, inline=lambda g: g.module is m and not S.carrier(g), max_depth=2)
        evs = list(w.events)
        for f in P.funcs.values():
            if f.module is m and f.parent is None:
                evs += hwalk(P, f).events
        for e in evs:
            if e.kind != 'call' or not isinstance(e.fn, Func) or hparam(e.fn) is None or not S.carrier(e.fn) or e.fn.module is m:
                continue
            v = argument(e, e.fn, hparam(e.fn), e.fn) if any(k == hparam(e.fn) for k, _ in e.kws) else None
            if v is None:
                for k, x in e.kws:
                    if k == '**':
                        v = x
                v = v if v is not None else argument(e, e.fn, hparam(e.fn), e.fn)
            argv = any(x.op == 'global' and x.a[0] == 'sys.argv' for x in subterms(v))
            out.setdefault((m.relpath, e.fn.short), []).append((argv, e))
    return out


def check(tier):
    res = Result()
    P = Project()
    con = contract('c09.json')
    S = Survey(P)
    res.rule('Each write of a product (calfits, uvh5, uvfits, miriad, HDF5 header) is evaluated to the history of the object at that point, as a set of texts per '
             'path; functions that take the text to record are judged once and used through their summary. A product must contain the given text exactly once, the '
             'stamp of the code version at most once (exactly once for the recorded run functions), the history of the object it was read from and of the recorded '
             'contributing files; a history must not grow from one iteration to the next; scripts hand over their command line.')
    for q, f in sorted(S.funcs.items()):
        judge(res, S, f, con)
    sc = scripts(P, S)
    for (rel, short), es in sorted(sc.items()):
        for argv, e in es:
            res.count('script calls')
            if [rel, short] in con['argv'] and not argv:
                res.add('command-line-lost', f'{rel}|{short}', f'{rel}: calls {short} without recording the command line', e.where)
    res.need('products', 25)
    res.need('script calls', 5)
    res.assumptions.append('UVData/UVCal keep and write their history attribute; update()/select() of pyuvdata and hera_cal objects do not remove text from it; a read() '
                           'replaces it by the file\'s')
    return res


def mine(P):
    S = Survey(P)
    con = {'stamped': [], 'contributes': {}, 'argv': []}
    for q, f in sorted(S.funcs.items()):
        n, st, cb = facts(S, f)
        cb -= {'self', 'a_priori_flags_yaml', 'chunk_size', 'filenames'}      # not files whose history goes into the product
        if not n:
            continue
        if st:
            con['stamped'].append(f.short)
        if cb:
            con['contributes'][f.short] = sorted(cb)
    con['argv'] = [list(k) for k, es in sorted(scripts(P, S).items()) if all(a for a, e in es)]
    return con


def dump(P):
    S = Survey(P)
    for q, f in sorted(S.funcs.items()):
        ps = S.products(f)
        if not ps:
            continue
        print(f.short, 'H=', hparam(f), 'carrier' if S.carrier(f) else '')
        for kind, e, al, x in ps:
            al = [(g, c) for g, c in al if possible(e.pc, g)]
            print('   ', kind, e.where, e.name, [dict((label(k), n) for k, n in c.items()) for g, c in al][:4], len(al), 'x', show(x)[:50] if x is not None else '')
