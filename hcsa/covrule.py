"""Flag-coverage obligations: collection of sinks, mining, comparison (used by C07 and C21)."""
import re
from .core import Func, Cls
from .terms import walk, T, mk, subterms, tnot
from .guards import Guards, Not, fatoms, axioms, sat, strip_q
from .flagcov import Cov, FULL, TOP, FLAGGY, WGTY, f_or, f_and, KNOWN
from .report import contract

OPTION = re.compile(r'thresh|frac|skip|propagate|nchan|overwrite|downsample|upsample|wgt_by_|filetype|file|_are_|max_|min_|buffer|blacklist_wgt|edgeflag|keep_|read_flags|read_ns'
                    r'|equalize|return_|ignore|flag_edge|_size|method|robust|trim|unflag|mode$|mode_|freqs|func|output_flagged|times|indices|uflags|priors|plot|path|yaml|inflate|redundant_weights|vis_units')
CALLOK = re.compile(r'^(load_flags|synthesize_ant_flags|build_gains_by_cadences|build_data_wgts|get_flags|flag_\w+|flagged_or_inpainted|read_a_priori\w*|threshold_flags|'
                    r'solar_flag|factorize_flags|build_data_model_ratio|red_average|lst_average|get_masked_data)\b')


def clean(label):
    """normal form of a source label, or None when it is not a flag/weight array with a stable name"""
    pre = ''
    while label.startswith(('all:', 'any:')):
        pre = pre or label[:4]
        label = label[4:]
    side = ''
    m = re.search(r'@(\w+)$', label)
    if m:
        side, label = '@' + m.group(1), label[:m.start()]
    if label.startswith('['):
        return None
    if '(' in label:
        name = label.split('(')[0]
        if not CALLOK.match(name):
            return None
        m = re.search(r'#\d+$', label)
        label = name + '()' + (m.group(0) if m else '')
    elif OPTION.search(re.sub('<.*?>', '', label)):
        return None
    return pre + label + side


def stronger(req):
    """labels whose coverage implies coverage of req"""
    pre, rest = (req[:4], req[4:]) if req[:4] in ('all:', 'any:') else ('', req)
    base, _, side = rest.partition('@')
    pres = {'all:': ('all:', '', 'any:'), '': ('', 'any:'), 'any:': ('any:',)}[pre]
    sides = [side] if side else ['']
    if side in ('0', '1', 'each'):
        sides += ['each', '']
    if side == '':
        sides += ['0', '1', 'each']
    bases = [base] + ([re.sub('<.*?>', '', base)] if base.startswith('read<') else [])
    if base.startswith('nan:'):
        bases += ['nonfinite:' + base[4:]]
    return [p + b + ('@' + s if s else '') for p in pres for b in bases for s in sides]


def dnf(f, cap=48):
    """set of conjunctions (frozensets of (atom, sign)) equivalent to f, or None when it grows too large"""
    f = strip_q(f)

    def lit_not(l):
        return (l[0], not l[1])

    def reduce_(ts):
        ts = {t for t in ts if not any(lit_not(l) in t for l in t)}
        change = True
        while change:
            change = False
            ts = {t for t in ts if not any(u < t for u in ts)}
            for a in sorted(ts, key=len):
                for b in list(ts):
                    if a is b or b not in ts or a not in ts:
                        continue
                    for l in a:
                        if lit_not(l) in b and (a - {l}) <= (b - {lit_not(l)}):
                            ts.discard(b)
                            ts.add(b - {lit_not(l)})
                            change = True
                            break
        return ts

    def go(f, sign):
        k = f[0]
        if k == 'lit':
            return {frozenset()} if f[1] == sign else set()
        if k == 'atom':
            return {frozenset([(f[1], sign)])}
        if k == 'not':
            return go(f[1], not sign)
        if (k == 'or') == sign:
            out = set()
            for x in f[1:]:
                r = go(x, sign)
                if r is None:
                    return None
                out |= r
            out = reduce_(out)
            return out if len(out) <= cap else None
        out = {frozenset()}
        for x in f[1:]:
            r = go(x, sign)
            if r is None:
                return None
            out = {a | b for a in out for b in r}
            if len(out) > cap * 40:
                return None
            out = reduce_(out)
            if len(out) > cap:
                return None
        return out
    return go(f, True)


def simplify(f):
    d = dnf(f)
    if d is None:
        return f
    if frozenset() in d:
        return FULL
    if not d:
        return ('lit', False)
    terms = []
    for t in d:
        ls = [('atom', a) if s else ('not', ('atom', a)) for a, s in sorted(t, key=str)]
        terms.append(ls[0] if len(ls) == 1 else ('and', *ls))
    terms.sort(key=str)
    return terms[0] if len(terms) == 1 else ('or', *terms)


class Sinks:
    def __init__(self, P, f, api, g):
        self.P, self.f, self.g = P, f, g
        self.c = Cov(g)
        self.pos, self.neg, self.clear = {}, {}, {}
        self.vals = {}                       # sink -> values (for the "rewritten" test)
        self.where = {}
        self.calls = {}                      # callee -> has opaque ** / star argument
        self.each = {}                       # argument sink -> [(event, value)]
        self.passed = {}                     # callee -> [(event, argument names passed, opaque)]
        w = walk(P, f, inline=lambda h: h.short not in api and not h.name.startswith('__'), max_depth=2)
        self.stored = set()
        self.rej = set()
        self.accept = []
        self.reach = {}
        for e in w.events:
            if e.kind == 'raise' and e.pc:
                self.rej.add(tnot(e.pc[-1]))
                cs = [self.g.f(c) for c in e.pc if c.op not in ('in_loop', 'exc')]
                if cs and not any(c.op == 'exc' for c in e.pc):
                    self.accept.append(Not(('and', *cs)))
            elif e.kind == 'assert':
                self.rej.add(e.val)
        for e in w.events:
            self.event(e)
        for d in (self.pos, self.neg):
            for sink in d:
                d[sink] = {k: simplify(v) for k, v in d[sink].items()}
        self.clear = {k: simplify(v) for k, v in self.clear.items()}

    def guard(self, e):
        f = FULL
        for c in e.pc:
            if c.op == 'in_loop' or c in self.rej:
                continue
            f = f_and(f, self.g.f(c))
        return f

    def put(self, sink, e, v):
        pc = self.guard(e)
        self.vals.setdefault(sink, []).append(v)
        self.reach[sink] = f_or(self.reach[sink], pc) if sink in self.reach else pc
        self.where.setdefault(sink, e.where)
        for d, m in ((self.pos, self.c.pos), (self.neg, self.c.neg)):
            for k, gd in m(v).items():
                if k == TOP:
                    if d is self.pos and sink.startswith('store ') and FLAGGY.search(sink):
                        k = '<set>'
                    else:
                        continue
                else:
                    k = clean(k)
                if k is None:
                    continue
                q = d.setdefault(sink, {})
                x = f_and(pc, gd)
                q[k] = f_or(q[k], x) if k in q else x

    def event(self, e):
        if e.kind == 'setitem':
            l = self.c.label(e.target)
            if l and (FLAGGY.search(l) or WGTY.search(l)):
                l = clean(l.split('@')[0])
                if l and '(' not in l:
                    self.put('store ' + l, e, e.val)
                    self.stored.add(l)
                    self.clears(l, e)
            nm = base_name(e.node)
            if nm and (FLAGGY.search(nm) or WGTY.search(nm)) and not OPTION.search(nm) and nm not in self.f.params and (l is None or '(' in l):
                self.put('local ' + nm, e, e.val)
        elif e.kind == 'setattr' and (FLAGGY.search(e.name) or WGTY.search(e.name)):
            self.put('attribute ' + e.name, e, e.val)
        elif e.kind == 'return' and e.depth == 0:
            vs = e.val.a if e.val.op == 'tuple' else (e.val,)
            for i, v in enumerate(vs):
                self.put(f'returned value {i + 1} of {len(vs)}', e, v)
        elif e.kind == 'call':
            nm = str(e.name).split('.')[-1]
            args = list(e.kws)
            opq = any(k == '**' for k, _ in e.kws) or any(a.op == 'star' for a in e.args)
            if not isinstance(e.fn, (Func, Cls)) and any(self.c.pos(a) or self.c.neg(a) for a in e.args):
                opq = True                   # might be passed by position
            self.calls[nm] = self.calls.get(nm, False) or opq
            fn = e.fn
            if isinstance(fn, Cls):
                fn = fn.find('__init__')
            if isinstance(fn, Func):
                ps = list(fn.pos_params)
                if fn.cls is not None and not fn.is_static and ps:
                    ps = ps[1:]
                args += list(zip(ps, e.args))
                for k, v in e.kws:
                    if k == '**':
                        for p in fn.params:
                            q = e.kw(p)
                            if isinstance(q, T):
                                args.append((p, q))
            self.passed.setdefault(nm, []).append((e, {k for k, _ in args}, opq))
            for k, v in args:
                if k != '**' and not nm.startswith('_') and (FLAGGY.search(k) or WGTY.search(k)) and not OPTION.search(k):
                    self.put(f'argument {k} of {nm}', e, v)
                    self.each.setdefault(f'argument {k} of {nm}', []).append((e, v))

    def uniform(self, sink, kind):
        """sources that are covered at every single call with this argument ('' : the argument is never left out)"""
        if sink not in self.each:
            return set()
        out = None
        for e, v in self.each[sink]:
            c = self.covered(e, v, kind)
            out = c if out is None else out & c
        _, k, _, nm = sink.split(' ')
        if all(k in ps or q for _, ps, q in self.passed[nm]):
            out = out | {''}
        return out

    def covered(self, e, v, kind):
        pc = self.guard(e)
        out = set()
        for k, gd in (self.c.pos(v) if kind == 'flag' else self.c.neg(v)).items():
            k = clean(k) if k != TOP else None
            if k and implied(pc, gd, self.accept):
                out.add(k)
        return out

    def clears(self, l, e):
        """a store that does not keep what is already flagged in the same place"""
        if not FLAGGY.search(l):
            return
        keep = self.c.pos(e.val)
        x = ('lit', False)
        for k, gd in keep.items():
            if k == TOP or (clean(k) or '').split('@')[0].replace('any:', '') == l:
                x = f_or(x, gd)
        bad = f_and(self.guard(e), Not(x))
        if x == FULL or self.opaque(e.val):
            return
        self.clear[l] = f_or(self.clear[l], bad) if l in self.clear else bad

    def opaque(self, t, depth=0):
        """value computed by something the analysis does not interpret"""
        if t.op == 'call' and self.c.fname(t) not in KNOWN:
            return True
        if t.op in ('const', 'param'):
            return False
        if t.op in ('opaque', 'func', 'maybe', 'missing'):
            return True
        if depth > 30:
            return True
        return any(isinstance(x, T) and self.opaque(x, depth + 1) for x in t.a)

    def opaque_store(self, sink):
        return any(self.opaque(v) for v in self.vals.get(sink, ()))

    def leaves(self, sink):
        out = set()
        for v in self.vals.get(sink, ()):
            for s in subterms(v):
                if s.op in ('param', 'attr', 'sub', 'item', 'call', 'iter'):
                    l = self.c.label(s)
                    if l:
                        l = clean(l)
                        if l:
                            out.add(l.split('@')[0])
        return out

    def between(self, sink, base):
        """an operation that is not interpreted lies between the source and the sink"""
        memo = {}

        def has(t):
            if t not in memo:
                memo[t] = False
                l = self.c.label(t) if t.op in ('param', 'attr', 'sub', 'item', 'call', 'iter') else None
                memo[t] = bool(l and (clean(l) or '').split('@')[0] == base) or any(has(x) for x in t.a if isinstance(x, T))
            return memo[t]

        def go(t, d):
            if not has(t) or d > 60:
                return False
            if t.op in ('param', 'attr', 'sub', 'item', 'call', 'iter') and (clean(self.c.label(t) or '') or '').split('@')[0] == base:
                return False
            if t.op in ('opaque', 'func', 'maybe'):
                return True
            if t.op == 'call' and self.c.fname(t) not in KNOWN | {'convolve', 'fftconvolve', 'convolve1d'}:
                l = self.c.label(t)
                if not (l and (clean(l) or '').split('@')[0] == base):
                    return True
            return any(go(x, d + 1) for x in flow(t))
        return any(go(v, 0) for v in self.vals.get(sink, ()))


def flow(t):
    """operands whose value can become (part of) the value of t"""
    a = t.a
    if t.op == 'ite':
        return a[1:3]
    if t.op in ('sub', 'item', 'attr', 'iter', 'enter'):
        return a[:1]
    if t.op == 'comp':
        return (a[1].a[-1],) if isinstance(a[1], T) and a[1].a else ()
    if t.op == 'call' and a[0].op in ('global', 'attr') and str(a[0].a[-1]).split('.')[-1] in ('zeros_like', 'ones_like', 'empty_like', 'full_like', 'zeros', 'ones', 'len', 'shape'):
        return ()
    if t.op == 'loopvar':
        return a[2:3]
    if t.op == 'after':
        return a[2:4]
    return [x for x in a if isinstance(x, T)]


def base_name(node):
    import ast
    t = node
    if isinstance(t, ast.Assign):
        t = t.targets[0]
    elif isinstance(t, (ast.AugAssign, ast.AnnAssign)):
        t = t.target
    while isinstance(t, (ast.Subscript, ast.Attribute, ast.Starred)):
        if isinstance(t, ast.Attribute):
            return None
        t = t.value
    return t.id if isinstance(t, ast.Name) else None


def implied(old, new, given=()):
    """old => new"""
    if new == FULL:
        return True
    F, N = strip_q(old), strip_q(new)
    keys = fatoms(F) | fatoms(N)
    given = [strip_q(x) for x in given]
    given = [x for x in given if fatoms(x) & keys]
    return sat([F, Not(N)] + given + axioms(keys)) is None


def rewritten(oa, na):
    """the conditions speak about different things, so that they cannot be compared (an element of a pair exchanged for the other one is still compared)"""
    a, b = oa - na, na - oa
    if not (a and b):
        return False
    if len(a) == len(b) == 1:
        x, y = str(next(iter(a))), str(next(iter(b)))
        if x != y and '#' not in x.replace("('#'", '') and re.sub(r'\[[01]\]', '[]', x) == re.sub(r'\[[01]\]', '[]', y):
            return False
    return True


def units(P, api):
    """public routines, and private ones as long as their parameters are those of the reviewed tree"""
    priv = contract('private.json')
    for f in sorted(P.funcs.values(), key=lambda f: f.short):
        if f.parent is None and not f.module.is_script and (f.short in api or priv.get(f.short) == list(f.pos_params)):
            yield f


def mine(P, api, kind):
    """kind: 'flag' (positive coverage, clears) or 'weight' (negative coverage)"""
    g = Guards()
    out = {}
    for f in units(P, api):
        s = Sinks(P, f, api, g)
        rec = {}
        tab = s.pos if kind == 'flag' else s.neg
        for sink, d in tab.items():
            if d and (wanted(sink, kind) or 'flags_are_wgts' in f.pos_params and wanted(sink, 'flag')):
                rec[sink] = {k: d[k] for k in sorted(d)}
        uni = {sink: sorted(s.uniform(sink, kind) & (set(rec[sink]) | {''})) for sink in rec if len(s.each.get(sink, ())) > 1}
        uni = {k: v for k, v in uni.items() if v}
        if uni:
            rec['<every>'] = uni
        if kind == 'flag' and s.clear:
            rec['<clears>'] = {k: v for k, v in sorted(s.clear.items())}
        if rec:
            out[f.short] = rec
    return out


def wanted(sink, kind):
    name = sink.split(' ')[1] if sink.startswith(('argument', 'store', 'attribute', 'local')) else None
    if name is None:
        return True
    return bool(FLAGGY.search(name)) if kind == 'flag' else bool(WGTY.search(name))


def norm(f):
    return tuple(norm(x) for x in f) if isinstance(f, (list, tuple)) else f


def size(f):
    return sum(size(x) for x in f) + 1 if isinstance(f, tuple) else 1


def compare(res, P, api, table, kind, verb):
    g = Guards()
    seen = 0
    fs = {f.short: f for f in units(P, api)}
    for name, rec in sorted(table.items()):
        f = fs.get(name)
        if f is None:
            continue
        seen += 1
        s = Sinks(P, f, api, g)
        tab = s.pos if kind == 'flag' else s.neg
        for sink, srcs in rec.items():
            if sink in ('<clears>', '<every>'):
                continue
            for src, gd in srcs.items():
                res.count('obligations')
                v = judge(s, tab, sink, src, norm(gd))
                if v is None:
                    res.count('discharged')
                else:
                    res.add(f'{kind}-{v[0]}', f'{name}|{sink}|{src}', f'{name}: {sink} {verb} wherever {show_src(src)} is flagged: {v[1]}' if kind == 'flag'
                            else f'{name}: {sink} {verb} wherever {show_src(src)} is flagged/zero: {v[1]}', s.where.get(sink, f.where))
        for sink, srcs in rec.get('<every>', {}).items():
            res.count('obligations')
            v = judge_every(s, sink, srcs, kind)
            if v is None:
                res.count('discharged')
            else:
                res.add(f'{kind}-dropped', f'{name}|every {sink}|{v[0]}', f'{name}: {sink} {v[1]}', v[2])
        if kind == 'flag':
            old = {k: norm(v) for k, v in rec.get('<clears>', {}).items()}
            for l, cond in s.clear.items():
                o = old.get(l, ('lit', False))
                if not implied(cond, o) and not (o != ('lit', False) and fatoms(cond) - fatoms(o)):
                    res.add('flag-cleared', f'{name}|clear {l}', f'{name}: a store into {show_src(l)} discards flags that were already set there', s.where.get('store ' + l, f.where))
    return seen


def show_src(s):
    if s == '<set>':
        return 'unconditionally bad data'
    s = s.replace('@0', ' (first antenna)').replace('@1', ' (second antenna)').replace('@each', ' (either antenna)')
    return s.replace('all:', 'every input sample of ').replace('any:', 'any sample of ')


def judge_every(s, sink, srcs, kind):
    _, k, _, nm = sink.split(' ')
    if '' in srcs and sink in s.each:
        for e, ps, q in s.passed[nm]:
            if k not in ps and not q:
                return '', 'is left out of one of the calls', e.where
    for e, v in s.each.get(sink, ()):
        if s.opaque(v):
            continue
        c = s.covered(e, v, kind)
        for src in srcs:
            if src and not any(x in c for x in stronger(src)) and not s.between(sink, re.sub(r'^(all:|any:)', '', src).split('@')[0]):
                return src, f'does not carry {show_src(src)} in one of the calls', e.where
    return None


def judge(s, tab, sink, src, gd):
    if sink not in s.vals:
        if sink.startswith('argument'):
            _, k, _, callee = sink.split(' ')
            if callee in s.calls and not s.calls[callee]:
                return 'dropped', f'{callee} is called without it'
            return None
        if sink.startswith('store'):
            return None if stored_elsewhere(s, sink.split(' ')[1]) else ('dropped', 'nothing is stored there any more')
        if sink.startswith('attribute'):
            return None
        return None
    cov = tab.get(sink, {})
    have = [cov[k] for k in stronger(src) if k in cov]
    if src == '<set>' and not have:
        return None if s.opaque_store(sink) else ('lost', 'samples that used to be flagged here no longer are')
    base = src.split('@')[0]
    for p in ('all:', 'any:'):
        base = base[4:] if base.startswith(p) else base
    if not have:
        lv = {x[4:] if x[:4] in ('all:', 'any:') else x for x in s.leaves(sink)}
        if base not in lv:
            return 'lost', 'it no longer depends on them at all'
        if s.between(sink, base):
            return None
        return 'lost', 'the dependence no longer guarantees it'
    new = have[0]
    for h in have[1:]:
        new = f_or(new, h)
    if new == gd or implied(gd, new, s.accept):
        return None
    if sink.startswith('returned') and implied(f_and(gd, s.reach[sink]), new, s.accept):
        return None
    oa, na = fatoms(gd), fatoms(new)
    if rewritten(oa, na):
        return None                         # the condition was rewritten: not judged
    if s.between(sink, base):
        return None
    return 'narrowed', 'no longer under all the conditions under which it used to'


def stored_elsewhere(s, l):
    """the container is handed to something that is not interpreted"""
    return False
