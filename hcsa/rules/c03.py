"""C03: the command-line tools do what their options say.

Each script is value-numbered down to the library call it makes; every parsed option is followed from the parser that defines it to the
parameter(s) it ends up in, and compared with the library signatures and with the reviewed option table (contracts/c03.json).
"""
import ast
import builtins
from ..core import Project, Func, Cls, AnalysisBroken, src_of
from ..terms import walk, T, mk, subterms
from ..cli import Script, parser_funcs, is_infra, lit
from ..report import Result, contract

WRAPPERS = {'_cli_tools:run_with_profiling', '_cli_tools:parse_args', '_cli_tools:filter_kwargs', '_cli_tools:setup_logger'}
IGNORED_EXT = set(dir(builtins)) | {'join', 'split', 'lower', 'upper', 'strip', 'format', 'items', 'keys', 'values', 'get', 'pop', 'copy', 'append',
                                    'update', 'warn', 'replace', 'extend', 'startswith', 'endswith', 'getLogger', 'basename', 'exists'}


class Accept:
    """which keywords a routine accepts, following **kwargs forwarding"""
    def __init__(self, P):
        self.P, self.memo, self.walks = P, {}, {}

    def target(self, fn):
        return fn.find('__init__') if isinstance(fn, Cls) else fn

    def lookup(self, f, key, depth=0):
        """(accepted, Func naming the parameter | None)"""
        if f is None or depth > 6:
            return True, None
        if key in f.params:
            return True, f
        if not f.kwarg:
            return False, None
        k = (f, key)
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = (False, None)
        if f not in self.walks:
            self.walks[f] = walk(self.P, f, max_depth=0)
        me = mk('param', '**' + f.kwarg)
        ok, owner = False, None
        for e in self.walks[f].events:
            if e.kind == 'call' and e.base is me or e.kind == 'call' and any(a is me for a in e.args):
                if e.args and e.args[0].op == 'const' and e.args[0].a[0] == key:
                    ok = True
                elif e.base is not me and e.name not in ('dict', 'len', 'list', 'set'):
                    ok = True                       # handed on as a whole
            if e.kind == 'call' and e.kws:
                for kk, v in e.kws:
                    if kk == '**' and me in subterms(v):
                        if e.fn is None:
                            ok = True
                        else:
                            r, o = self.lookup(self.target(e.fn), key, depth + 1)
                            ok, owner = ok or r, owner or o
                    elif kk != '**' and me in subterms(v) and v is not me and any(
                            x.op == 'sub' and x.a[1].op == 'const' and x.a[1].a[0] == key for x in subterms(v)):
                        ok = True
                    elif v is me:
                        ok = True
        if not ok and any(isinstance(n, ast.Constant) and n.value == key for n in ast.walk(f.node)):
            ok = True                               # picked out of kwargs by name
        self.memo[k] = (ok, owner)
        return ok, owner


def missing_routine(P, name):
    """hera_cal.<module>.<name> where the module exists and nothing in it defines or imports the name"""
    mod, _, last = str(name).rpartition('.')
    m = P.modules.get(mod)
    if m is None or not mod.startswith('hera_cal'):
        return False
    return not (last in m.funcs or last in m.classes or last in m.imports or last in m.globals or f'{mod}.{last}' in P.modules)


def lit_node(n):
    try:
        return True, ast.literal_eval(n)
    except (ValueError, SyntaxError):
        if isinstance(n, ast.Attribute) and n.attr == 'inf':
            return True, float('inf')
        if isinstance(n, ast.BinOp):
            a, b = lit_node(n.left), lit_node(n.right)
            if a[0] and b[0]:
                try:
                    return True, eval(compile(ast.Expression(ast.BinOp(ast.Constant(a[1]), n.op, ast.Constant(b[1]))), '', 'eval'), {}) \
                        if all(isinstance(x, (int, float)) for x in (a[1], b[1])) else None
                except Exception:
                    return False, None
        return False, None


def norm(v):
    return list(v) if isinstance(v, tuple) else v


def analyse(P, known):
    """facts per script (used by the check and by tools/mk_c03.py)"""
    pf = parser_funcs(P)
    acc = Accept(P)
    out = []
    for m in sorted(P.modules.values(), key=lambda x: x.name):
        if not m.is_script:
            continue
        s = Script(P, m, pf, known)
        if not s.options and not s.ns:
            continue
        sinks, problems = {}, []          # (callee, param) -> {dest: pol}; problems: (rule, construct, msg, where)
        opens, defaults = set(), {}       # callees called with a keyword map that cannot be enumerated
        for e, kws, full in s.calls():
            f = acc.target(e.fn) if e.fn is not None else None
            if isinstance(f, Func) and (f.short in WRAPPERS or f in pf or f.module is m or f.short not in known):
                continue
            local = isinstance(e.fn, (Func, Cls))
            if not local:
                nm = str(e.name).split('.')[-1]
                if nm in IGNORED_EXT or nm in ('add_argument', 'parse_args', 'add_argument_group', 'run_with_profiling', 'print_help'):
                    continue
                used = {k: v for k, v in kws.items() if s.dests(v)}
                if missing_routine(P, e.name):
                    problems.append(('no-such-routine', f'{m.name}|{e.name}', f'{m.name} calls {e.name}, which does not exist', e.where))
                for k, v in used.items():
                    d = sinks.setdefault((nm, k), {})
                    for x in s.dests(v):
                        d[x] = s.polarity(v, x) if d.get(x) in (None, s.polarity(v, x)) else 'x'
                if not full:
                    opens.add(nm)
                continue
            if isinstance(e.fn, Cls) and f is None:
                continue
            touched = any(s.dests(v) for v in kws.values())
            if not touched:
                continue
            if not full:
                opens.add(f.short)
            for k, v in kws.items():
                if k.startswith('#'):
                    if not f.vararg:
                        problems.append(('not-accepted', f'{m.name}|{f.short}|{k}', f'{m.name} passes too many positional arguments to {f.short}', e.where))
                    continue
                ok, owner = acc.lookup(f, k)
                if not ok:
                    problems.append(('not-accepted', f'{m.name}|{f.short}|{k}',
                                     f'{m.name} passes {k!r} to {f.short}, which does not accept it', e.where))
                ds = s.dests(v)
                d = sinks.setdefault((f.short, k), {})
                for x in ds:
                    p = s.polarity(v, x)
                    d[x] = p if d.get(x) in (None, p) else 'x'
                    o = s.options.get(x)
                    if p == '+' and o is not None and owner is not None and k in owner.defaults and not o.required and not o.positional:
                        kn, val = o.default()
                        kn2, dv = lit_node(owner.defaults[k])
                        defaults[(x, owner.short, k)] = (kn, norm(val), kn2, norm(dv), e.where)
                    if p == '-' and o is not None and owner is not None and k in owner.defaults:
                        kn, val = o.default()
                        kn2, dv = lit_node(owner.defaults[k])
                        if isinstance(val, bool):
                            defaults[(x, owner.short, k)] = (kn, not val, kn2, dv, e.where)
            if full and not any(a.op == 'star' for a in e.args):
                for p in f.params:
                    if p not in f.defaults and p not in kws and p not in ('self', 'cls') and p not in (f.vararg, f.kwarg):
                        problems.append(('required-missing', f'{m.name}|{f.short}|{p}',
                                         f'{m.name} does not give {f.short} its required argument {p!r}', e.where))
        # undefined / unused options
        setters = {e.name for e in s.w.events if e.kind == 'setattr' and e.target in s.ns}
        for d, e in s.reads.items():
            if d not in s.options and not d.startswith('_') and d not in setters:
                problems.append(('undefined-option', f'{m.name}|{d}', f'{m.name} reads the option {d!r}, which its parser does not define', e.where))
        consumed = set(s.reads)
        if s.vars_used:
            for (c, k), ds in sinks.items():
                consumed |= set(ds)
            if opens:
                consumed |= set(s.options)
        for e in s.w.events:
            for t in (e.args or []) + [v for _, v in (e.kws or [])] + list(e.pc):
                consumed |= s.dests(t) if s.vars_used else set()
        for d, o in s.options.items():
            if d not in consumed and not is_infra(d):
                problems.append(('ignored-option', f'{m.name}|{d}', f'{m.name} accepts --{d} but never uses it', o.e.where))
        out.append((m, s, sinks, opens, defaults, problems))
    return out


def names_problem(P, m):
    """names used in a script that nothing defines"""
    defined = set(dir(builtins)) | {'__file__', '__name__', '__doc__'}
    star = False
    for n in ast.walk(m.tree):
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                star |= a.name == '*'
                defined.add((a.asname or a.name).split('.')[0])
        elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            defined.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            defined.add(n.name)
        elif isinstance(n, ast.arg):
            defined.add(n.arg)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            defined.add(n.name)
    if star:
        return []
    return [n for n in ast.walk(m.tree) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id not in defined]


def conv_class(o):
    c = o.conv()
    return c if c in ('str', 'int', 'float', 'store_true', 'store_false', 'bool') else 'custom'


def check(tier):
    res = Result()
    P = Project()
    con = contract('c03.json')
    known = set(contract('api.json'))
    res.rule('undefined-option / ignored-option: the options a script reads are exactly options its parser defines, and each defined option is consumed. '
             'not-accepted / required-missing / no-such-routine: the library call a script makes matches the signature (through **kwargs forwarding). '
             'option-misrouted: every option still reaches the parameter it stands for, in the same sense. '
             'default-disagrees: leaving an option out means the library default (or the reviewed command-line default). '
             'conversion: an option is still converted the way its parameter needs. undefined-name: a script uses no undefined name.')
    facts = analyse(P, known)
    if len(facts) < 18:
        raise AnalysisBroken('command-line scripts not found')
    byname = {f[0].name: f for f in facts}
    for m, s, sinks, opens, defaults, problems in facts:
        res.count('scripts')
        res.count('options', len(s.options))
        res.count('call sites receiving options', len({c for c, _ in sinks}))
        res.count('obligations', len(s.options) + len(s.reads) + len(sinks))
        for r, c, msg, where in problems:
            res.add(r, c, msg, where)
        for n in names_problem(P, m):
            res.add('undefined-name', f'{m.name}|{n.id}', f'{m.name} uses the undefined name {n.id!r}', f'{m.relpath}:{n.lineno}')
        rec = con['scripts'].get(m.name)
        # ---- conversions that cannot be right, recorded or not
        for d, o in s.options.items():
            kn, v = o.default()
            if kn and isinstance(v, (int, float)) and not isinstance(v, bool) and o.conv() == 'str' and o.nargs is None and o.action == 'store':
                res.add('conversion', f'{m.name}|{d}', f'{m.name}: --{d} has a numeric default but its value is kept as text', o.e.where)
        for (x, owner, k), (kn, val, kn2, dv, where) in defaults.items():
            res.count('obligations')
            if not (kn and kn2) or val == dv and (type(val) is type(dv) or not isinstance(val, bool) and not isinstance(dv, bool)):
                continue
            exc = con['default_exceptions'].get(f'{m.name}|{x}|{owner}|{k}')
            if exc is not None and exc == [val, dv]:
                res.count('reviewed differences between command-line and library default')
                continue
            res.add('default-disagrees', f'{m.name}|{x}|{owner}|{k}',
                    f'{m.name}: --{x} defaults to {val!r} but {owner}({k}) defaults to {dv!r}', where)
        if rec is None:
            continue
        for d, r in rec['options'].items():
            o = s.options.get(d)
            if o is None:
                continue                       # the option was removed: reads of it are reported above
            if conv_class(o) != r['conv']:
                res.add('conversion', f'{m.name}|{d}|{conv_class(o)}', f'{m.name}: the value of --{d} is now converted with '
                        f'{o.conv()} instead of {r["conv"]}', o.e.where)
            if o.nargs != r['nargs']:
                res.add('conversion', f'{m.name}|{d}|nargs={o.nargs}', f'{m.name}: --{d} now takes nargs={o.nargs!r} instead of {r["nargs"]!r}', o.e.where)
            if r['choices'] and o.choices and set(r['choices']) - set(o.choices):
                res.add('conversion', f'{m.name}|{d}|choices', f'{m.name}: --{d} no longer accepts {sorted(set(r["choices"]) - set(o.choices))}', o.e.where)
            kn, v = o.default()
            if kn and r.get('default', '?') != '?' and norm(v) != r['default'] and not o.positional:
                # no library default to compare with: the reviewed default is the reference
                if not any(x == d for (x, _, _) in defaults):
                    res.add('default-disagrees', f'{m.name}|{d}', f'{m.name}: --{d} now defaults to {v!r} instead of {r["default"]!r}', o.e.where)
        for callee, param, dests in rec['sinks']:
            now = sinks.get((callee, param))
            res.count('obligations')
            if now is None and (callee in opens or callee not in {c for c, _ in sinks} and callee not in known):
                continue
            if now is None and callee in known and callee not in {c for c, _ in sinks} and P.func(callee) is None:
                continue
            for d, pol in dests.items():
                if now is None or d not in now:
                    if callee in opens:
                        continue
                    res.add('option-misrouted', f'{m.name}|{d}|{callee}|{param}',
                            f'{m.name}: --{d} no longer reaches {callee}({param}=...)', s.options[d].e.where if d in s.options else m.relpath)
                elif pol in '+-' and now[d] in '+-' and now[d] != pol:
                    res.add('option-misrouted', f'{m.name}|{d}|{callee}|{param}|inverted',
                            f'{m.name}: --{d} reaches {callee}({param}=...) with its meaning inverted', m.relpath)
                elif pol in '+-' and set(now) - set(dests):
                    res.add('option-misrouted', f'{m.name}|{d}|{callee}|{param}|mixed',
                            f'{m.name}: {callee}({param}=...) now also depends on --{sorted(set(now) - set(dests))[0]}', m.relpath)
                else:
                    res.count('discharged')
    missing = [n for n in con['scripts'] if n not in byname]
    if len(missing) > 4:
        raise AnalysisBroken(f'scripts vanished: {missing}')
    res.assumptions += ['argparse semantics; a callee that cannot be resolved accepts every keyword',
                        'the option table in contracts/c03.json was reviewed against the help texts']
    res.need('options', 300)
    return res
