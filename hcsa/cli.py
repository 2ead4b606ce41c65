"""Command-line model: the options a script's parser accepts and where each of them goes (from value-numbered terms)."""
import ast
from .core import Func, Cls
from .terms import walk, T, mk, is_const, subterms, kwitems, const, dict_get

SKIP_PREFIX = ('profile', 'log_')


def is_infra(dest):
    return dest == 'profile' or dest.startswith(('profile_', 'log_'))


class Option:
    def __init__(self, e):
        self.e = e
        flags = [a.a[0] for a in e.args if a.op == 'const' and isinstance(a.a[0], str)]
        kw = {k: v for k, v in e.kws}
        self.flags = flags
        d = kw.get('dest')
        if d is not None and d.op == 'const':
            self.dest = d.a[0]
        else:
            long = [f for f in flags if f.startswith('--')]
            base = long[0] if long else flags[0] if flags else '?'
            self.dest = base.lstrip('-').replace('-', '_') if base.startswith('-') else base
        self.positional = bool(flags) and not flags[0].startswith('-')
        act = kw.get('action')
        self.action = act.a[0] if act is not None and act.op == 'const' else 'store'
        self.type = None
        t = kw.get('type')
        if t is not None:
            self.type = t.a[0] if t.op == 'global' else '<' + (t.a[0] if t.op == 'func' and isinstance(t.a[0], str) else t.op) + '>'
            self.type = str(self.type).split(':')[-1].split('.')[-1]
        self.nargs = kw['nargs'].a[0] if 'nargs' in kw and kw['nargs'].op == 'const' else None
        self.choices = None
        c = kw.get('choices')
        if c is not None and c.op in ('list', 'tuple', 'set') and all(x.op == 'const' for x in c.a):
            self.choices = sorted(str(x.a[0]) for x in c.a)
        self.default_term = kw.get('default')
        if self.default_term is None:
            self.default_term = const({'store_true': False, 'store_false': True}.get(self.action))
        self.required = 'required' in kw and is_const(kw['required'], True)

    def default(self):
        """(known, python value)"""
        return lit(self.default_term)

    def conv(self):
        """canonical value conversion"""
        if self.action in ('store_true', 'store_false'):
            return self.action
        return self.type or 'str'


def lit(t):
    if t.op == 'const':
        return True, t.a[0]
    if t.op in ('list', 'tuple'):
        vs = [lit(x) for x in t.a]
        return all(k for k, _ in vs), [v for _, v in vs]
    if t.op == 'dict':
        return (not t.a), {}
    if t.op == 'global' and t.a[0] in ('numpy.inf', 'math.inf'):
        return True, float('inf')
    if t.op == 'global' and t.a[0] in ('numpy.pi', 'math.pi'):
        return True, 3.141592653589793
    if t.op == 'call' and t.a[0].op == 'global' and t.a[0].a[0] == 'float' and t.a[1].a and is_const(t.a[1].a[0]):
        try:
            return True, float(t.a[1].a[0].a[0])
        except (TypeError, ValueError):
            return False, None
    if t.op == 'un' and t.a[0] == 'USub':
        k, v = lit(t.a[1])
        return (True, -v) if k and isinstance(v, (int, float)) else (False, None)
    if t.op == 'bin':
        (ka, a), (kb, b) = lit(t.a[1]), lit(t.a[2])
        if ka and kb and isinstance(a, (int, float)) and isinstance(b, (int, float)):
            try:
                return True, {'Add': a + b, 'Sub': a - b, 'Mult': a * b, 'Div': a / b if b else None, 'Pow': a ** b}[t.a[0]]
            except (KeyError, OverflowError):
                return False, None
    return False, None


def parser_funcs(P):
    direct = {f for f in P.funcs.values() if any(
        isinstance(x, ast.Attribute) and x.attr in ('add_argument', 'parse_args', 'add_argument_group') for x in ast.walk(f.node))}
    names = {f.name for f in direct}
    for _ in range(2):
        for f in P.funcs.values():
            if f not in direct and any(isinstance(x, ast.Call) and (
                    isinstance(x.func, ast.Name) and x.func.id in names or isinstance(x.func, ast.Attribute) and x.func.attr in names)
                    for x in ast.walk(f.node)) and f.name.endswith(('parser', 'args')):
                direct.add(f)
                names.add(f.name)
    return direct


class Script:
    def __init__(self, P, m, pf=None, known=None):
        """known: short names of the library's own routines (anything else is a helper and is looked into)"""
        self.P, self.m = P, m
        pf = pf if pf is not None else parser_funcs(P)

        def api_like(f):
            return f in pf or f.module is m or (known is not None and f.short not in known)
        self.w = walk(P, m, inline=api_like, attr_events=True, max_depth=5)
        self.options = {}
        self.ns = set()
        for e in self.w.events:
            if e.kind == 'call' and e.name.split('.')[-1] == 'add_argument' and e.args:
                o = Option(e)
                self.options[o.dest] = o
            if e.kind == 'call' and e.name == 'parse_args' and e.base is not None or \
                    e.kind == 'call' and e.name.split('.')[-1] == 'parse_args' and not isinstance(e.fn, Func):
                self.ns.add(e.res)
        self.vars_used = False
        self.reads = {}       # dest -> first event
        for e in self.w.events:
            if e.kind == 'getattr' and e.target in self.ns:
                self.reads.setdefault(e.name, e)
            if e.kind == 'call' and e.name == 'getattr' and len(e.args) >= 2 and e.args[0] in self.ns and e.args[1].op == 'const':
                self.reads.setdefault(e.args[1].a[0], e)
            if e.kind == 'call' and e.name == 'vars' and e.args and e.args[0] in self.ns:
                self.vars_used = True
        self._memo = {}

    # ---- which options a term depends on
    def dests(self, t):
        if t in self._memo:
            return self._memo[t]
        self._memo[t] = frozenset()
        out = set()
        key = base = None
        if t.op == 'attr' and t.a[0] in self.ns:
            out.add(t.a[1])
        elif t.op == 'sub' and t.a[1].op == 'const':
            base, key = t.a[0], t.a[1].a[0]
        elif t.op == 'call' and t.a[0].op == 'attr' and t.a[0].a[1] in ('pop', 'get') and t.a[1].a and t.a[1].a[0].op == 'const':
            base, key = t.a[0].a[0], t.a[1].a[0].a[0]
        if base is not None and isinstance(key, str) and self.is_vars(base):
            r = dict_get(base, key)
            if isinstance(r, T) and r is not t:
                out |= self.dests(r)
            else:
                q = self.expand(base)
                if q is not None and key in q:
                    out |= self.dests(q[key])
                elif key in self.options:
                    out.add(key)
        elif not (t.op == 'attr' and t.a[0] in self.ns):
            if t.op == 'call' and t.a[0].op == 'global' and t.a[0].a[0] == 'getattr' and len(t.a[1].a) >= 2 and t.a[1].a[0] in self.ns \
                    and t.a[1].a[1].op == 'const':
                out.add(t.a[1].a[1].a[0])
            for y in t.a:
                if isinstance(y, T):
                    out |= self.dests(y)
        r = frozenset(d for d in out if isinstance(d, str))
        self._memo[t] = r
        return r

    def is_vars(self, t):
        return any(x.op == 'call' and x.a[0].op == 'global' and x.a[0].a[0] == 'vars' and x.a[1].a and x.a[1].a[0] in self.ns
                   for x in subterms(t))

    def expand(self, t, depth=0):
        """key -> value term of a dict-like term built from the parsed options; None if it cannot be enumerated"""
        if depth > 40:
            return None
        if t.op == 'dict':
            out = {}
            for k, v in zip(t.a[0::2], t.a[1::2]):
                if k.op == 'star':
                    q = self.expand(v, depth + 1)
                    if q is None:
                        return None
                    out.update(q)
                elif k.op == 'const':
                    out[k.a[0]] = v
                else:
                    return None
            return out
        if t.op == 'upd':
            q = self.expand(t.a[0], depth + 1)
            if q is None or t.a[1].op != 'const':
                return None
            return {**q, t.a[1].a[0]: t.a[2]}
        if t.op == 'mut':
            q = self.expand(t.a[0], depth + 1)
            if q is None:
                return None
            if t.a[1] in ('pop', 'del') and t.a[2].a and t.a[2].a[0].op == 'const':
                q = dict(q)
                q.pop(t.a[2].a[0].a[0], None)
                return q
            if t.a[1] == 'update':
                q = dict(q)
                for x in t.a[2].a:
                    r = self.expand(x, depth + 1)
                    if r is None:
                        return None
                    q.update(r)
                q.update({k: v for k, v in kwitems(t.a[3])})
                return q
            return None
        if t.op == 'ite':
            a, b = self.expand(t.a[1], depth + 1), self.expand(t.a[2], depth + 1)
            if a is None or b is None:
                return None
            return {k: (a[k] if k in a and (k not in b or a[k] is b[k]) else b[k] if k not in a else mk('ite', t.a[0], a[k], b[k]))
                    for k in {**a, **b}}
        if t.op in ('loopvar', 'after'):
            return self.expand(t.a[2], depth + 1)
        if t.op == 'call' and t.a[0].op == 'global':
            nm = t.a[0].a[0]
            if nm == 'vars' and t.a[1].a and t.a[1].a[0] in self.ns:
                return {d: mk('attr', t.a[1].a[0], d) for d in self.options}
            if nm.endswith('.filter_kwargs') and len(t.a[1].a) == 1:
                q = self.expand(t.a[1].a[0], depth + 1)
                return None if q is None else {k: v for k, v in q.items() if not is_infra(k)}
            if nm == 'dict' and len(t.a[1].a) <= 1:
                q = self.expand(t.a[1].a[0], depth + 1) if t.a[1].a else {}
                return None if q is None else {**q, **{k: v for k, v in kwitems(t.a[2]) if k != '**'}}
        if t.op == 'call' and t.a[0].op == 'attr' and t.a[0].a[1] == 'copy':
            return self.expand(t.a[0].a[0], depth + 1)
        return None

    def polarity(self, t, dest):
        if t.op == 'attr' and t.a[0] in self.ns and t.a[1] == dest:
            return '+'
        if t.op == 'not' and t.a[0].op == 'attr' and t.a[0].a[0] in self.ns and t.a[0].a[1] == dest:
            return '-'
        if t.op == 'ite' and t.a[0].op == 'attr' and t.a[0].a[0] in self.ns and t.a[0].a[1] == dest:
            if is_const(t.a[1], True) and is_const(t.a[2], False):
                return '+'
            if is_const(t.a[1], False) and is_const(t.a[2], True):
                return '-'
        if t.op == 'call' and t.a[0].op == 'global' and t.a[0].a[0] == 'bool' and len(t.a[1].a) == 1:
            return self.polarity(t.a[1].a[0], dest)
        return 'x'

    def calls(self):
        """repository/external calls with their keyword map: (event, {param: term}, enumerable)"""
        for e in self.w.events:
            if e.kind != 'call':
                continue
            kws, full = {}, True
            for k, v in e.kws:
                if k == '**':
                    q = self.expand(v)
                    if q is None:
                        full = False
                    else:
                        kws.update(q)
                else:
                    kws[k] = v
            if isinstance(e.fn, Func):
                pos = list(e.fn.pos_params)
                if e.fn.is_method and e.base is not None:
                    pos = pos[1:]
            elif isinstance(e.fn, Cls):
                init = e.fn.find('__init__')
                pos = list(init.pos_params)[1:] if init else []
            else:
                pos = []
            for i, a in enumerate(e.args):
                if a.op == 'star':
                    break
                kws.setdefault(pos[i] if i < len(pos) else f'#{i}', a)
            yield e, kws, full
