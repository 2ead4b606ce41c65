"""C11: unusable input is rejected - every rejection (raise/assert) of the reviewed tree is still made under at least the same conditions."""
import ast
import re
from ..core import Project, Func, AnalysisBroken
from ..terms import walk, T, mk, const, Walker
from ..guards import Guards, Clause, clauses, substitute, strip_q, fatoms, subject, axioms, sat, Not, literals
from .. import trims, vcalls
from ..report import Result, contract


def entries(P, api):
    """name -> walkable unit: public functions, and per attrs class its field validators"""
    out = {}
    for f in P.funcs.values():
        if f.parent is None and f.short in api and not f.module.is_script:
            out[f.short] = f
    for c in P.classes.values():
        if any(any(d.split('.')[-1] == 'validator' for d in m.decorators) for m in c.methods.values()) or 'validator' in ast.dump(c.node):
            out[c.qual.replace('hera_cal.', '', 1) + '.<fields>'] = c
    return out


def unit_clauses(P, u, api, g, deep=False):
    """-> (clauses, {subject: constants it is compared with on accepting paths})"""
    inline = (lambda h: not h.name.startswith('__')) if deep else (lambda h: h.short not in api and not h.name.startswith('__'))
    if isinstance(u, Func):
        w = walk(P, u, inline=inline, max_depth=3 if deep else 3)
        return clauses(w.events, g), accepted(w.events, g), [set(fatoms(g.f(c))) for e in w.events for c in e.pc if c.op != 'in_loop']
    out, acc, ctx = [], {}, []
    for m in u.methods.values():
        fields = [d.split('.')[0] for d in m.decorators if d.split('.')[-1] == 'validator']
        if not fields or len(m.pos_params) < 3:
            continue
        w = walk(P, m, inline=inline, max_depth=3)
        for fl in fields:
            mp = {mk('param', m.pos_params[2]): mk('attr', mk('param', m.pos_params[0]), fl)}
            out += clauses(w.events, g, subst=lambda t: substitute(t, mp))
        ctx += [set(fatoms(g.f(c))) for e in w.events for c in e.pc if c.op != 'in_loop']
        for k, v in accepted(w.events, g).items():
            acc.setdefault(k, set()).update(v)
    for s in u.node.body:
        if isinstance(s, ast.AnnAssign) and isinstance(s.value, ast.Call) and isinstance(s.target, ast.Name):
            for k in s.value.keywords:
                if k.arg == 'validator':
                    me = mk('attr', mk('param', 'self'), s.target.id)
                    for v in (k.value.elts if isinstance(k.value, (ast.Tuple, ast.List)) else [k.value]):
                        out.append(field_clause(u, me, v, g))
    return out, acc, ctx


def field_clause(u, me, v, g):
    nm = ast.unparse(v.func).split('.')[-1] if isinstance(v, ast.Call) else ''
    where = f'{u.module.relpath}:{v.lineno}'
    if nm in ('gt', 'ge', 'lt', 'le') and v.args and isinstance(v.args[0], ast.Constant):
        c = const(v.args[0].value)
        ok = {'gt': lambda: g.lt(c, me), 'lt': lambda: g.lt(me, c), 'ge': lambda: Not(g.lt(me, c)), 'le': lambda: Not(g.lt(c, me))}[nm]()
    else:
        ok = ('atom', ('p', f'{g.canon(me)} satisfies {ast.unparse(v)}'))
    return Clause('ValueError', ('and', Not(ok)), Not(ok), where, '')


def accepted(events, g):
    """constants a value is compared with in conditions that guard real work (supported modes)"""
    out = {}
    for e in events:
        if e.kind in ('raise', 'assert'):
            continue
        for c in e.pc:
            if c.op == 'in_loop':
                continue
            for k, s, q in literals(g.f(c)):
                if s and k[0] == 'eq' and isinstance(k[2], tuple):
                    out.setdefault(k[1], set()).add(k[2][1])
    return out


def norm(f):
    """json form -> tuple form"""
    return tuple(norm(x) for x in f) if isinstance(f, (list, tuple)) else f


def judge(old, new, acc, ctx):
    """-> None or (kind, explanation) for one old clause given the new clauses of the unit"""
    F = strip_q(old.full)
    N = [strip_q(c.full) for c in new]
    keys = set(fatoms(F))
    for n in N:
        keys |= fatoms(n)
    extra = []
    oldk = {(k[1], repr(k[2])) for k in fatoms(F) if len(k) > 2}
    for k in keys:
        # a newly supported mode is not unusable input any more
        if k[0] == 'eq' and isinstance(k[2], tuple) and (k[1], repr(k[2])) not in oldk and k[2][1] in acc.get(k[1], ()):
            extra.append(Not(('atom', k)))
    m = sat([F] + extra + [Not(n) for n in N] + axioms(keys))
    core = {subject(k) for k in fatoms(old.core)}
    if m is None:
        # element quantifiers: "some element is bad" must not become "all elements are bad"
        lit = {(k, s): set() for k, s, q in literals(old.core)}
        for k, s, q in literals(old.core):
            lit[(k, s)].add(q)
        for (k, s), qs in lit.items():
            if qs != {'E'} and qs != {''}:
                continue
            nq = {q for c in new for kk, ss, q in literals(c.core) if kk == k and ss == s}
            if qs == {'E'} and nq and nq == {'A'}:
                return 'weakened', 'the input is now rejected only if all elements are bad, not if any is'
        return None
    newsub = set()
    for n in new:
        newsub |= {subject(k) for k in fatoms(n.full)}
    allsub = newsub | {subject(k) for s in ctx for k in s}
    oldforms = judge.old_forms
    unmatched = [c for c in new if repr(strip_q(c.full)) not in oldforms and repr(strip_q(c.core)) not in judge.old_cores]
    unmatched = [c for c in unmatched if sat([strip_q(c.full)]) is not None]
    near = [c for c in new if core and core <= {subject(k) for k in fatoms(c.full)}]
    if not near:
        if core:
            names = words(core)
            cand = [c for c in unmatched if words({subject(k) for k in fatoms(c.core)}) & names or c.core == ('lit', True)]
        else:
            cand = unmatched
        if cand:
            v = projected(old, cand)
            if v:
                return 'weakened', v
            return None                                     # the test was rewritten: not judged
        return 'removed', 'no condition on the same quantity raises any more'
    missing = {subject(k) for k in fatoms(F)} - allsub
    if missing and any(repr(strip_q(c.full)) not in oldforms for c in near):
        return None                                         # the surrounding condition was rewritten: not judged
    w = ', '.join(f'{"" if v else "not "}{" ".join(map(str, k[1:]))[:70]}' for k, v in sorted(m.items(), key=str)[:6])
    return 'weakened', f'input that used to be rejected is now accepted, e.g. when [{w}]'


def projected(old, cand):
    """an equality of two values that became a comparison of some of their components only"""
    F = strip_q(old.core)
    while F[0] in ('and', 'or') and len(F) == 2:
        F = F[1]
    if F[0] != 'not' or F[1][0] != 'atom' or F[1][1][0] != 'eq':
        return None
    _, a, b = F[1][1]
    if not isinstance(a, str):
        return None
    for c in cand:
        idx, one = set(), set()
        ks = fatoms(c.core)
        if not ks:
            return None
        for k in ks:
            x = [re.fullmatch(r'(.*)\[(-?\d+)\]', y) for y in k[1:] if isinstance(y, str)]
            x = [y for y in x if y and y.group(1) in (a, b)]
            if not x:
                return None
            if k[0] == 'eq':
                idx.add(x[0].group(2))
            elif k[0] == 'lt':
                one.add((x[0].group(2), k[1] == x[0].group(0)))
            else:
                return None
        half = {i for i, d in one if (i, not d) not in one}
        if half:
            return f'only values on one side of the required component [{sorted(half)[0]}] of {a} are rejected'
        if len(idx | {i for i, _ in one}) == 1 and not re.fullmatch(r'\([^,]*,\)', str(b)):
            return f'only component [{sorted(idx | {i for i, _ in one})[0]}] of {a} is compared'
    return None


def covered(old, new):
    F = strip_q(old.full)
    N = [strip_q(c.full) for c in new]
    keys = set(fatoms(F))
    for n in N:
        keys |= fatoms(n)
    return sat([F] + [Not(n) for n in N] + axioms(keys)) is None


def words(subs):
    import re
    out = set()
    for s in subs:
        out |= set(re.findall(r'[A-Za-z_]\w*', ' '.join(str(x) for x in s[1:])))
    return out - {'len', 'isinstance', 'cmp', 'numpy', 'ndarray', 'None', 'self', 'not', 'in', 'iter', 'str', 'list', 'tuple', 'dict', 'int', 'float', 'hera_cal'}


def check(tier):
    res = Result()
    P = Project()
    api = contract('api.json')
    table = contract('c11.json')
    g = Guards()
    res.rule('rejection-removed / rejection-weakened: for each recorded rejection (exception raised under a condition on the inputs), the recorded condition implies the '
             'disjunction of the conditions under which the routine raises now (propositional + order/equality reasoning over canonical atoms).')
    ents = entries(P, api)
    n = 0
    for name, olds in sorted(table.items()):
        u = ents.get(name)
        if u is None:
            continue
        n += 1
        new, acc, ctx = unit_clauses(P, u, api, g)
        old = [Clause(o['exc'], norm(o['full']), norm(o['core']), '', o['src']) for o in olds]
        judge.old_forms = {repr(strip_q(o.full)) for o in old}
        judge.old_cores = {repr(strip_q(o.core)) for o in old}
        forms = {repr(c.full) for c in new}
        deep = None
        for o in old:
            res.count('obligations')
            if repr(o.full) in forms:
                res.count('discharged')
                continue
            r = judge(o, new, acc, ctx)
            if r is not None and isinstance(u, Func):
                if deep is None:
                    deep = unit_clauses(P, u, api, g, deep=True)
                if 'all elements' not in r[1] and covered(o, new + deep[0]):
                    r = None
            if r is None:
                res.count('discharged')
                continue
            res.add(f'rejection-{r[0]}', f'{name}|{o.src if hasattr(o, "src") else o.text}', f'{name}: {o.exc} for `{o.text}`: {r[1]}',
                    u.where if isinstance(u, Func) else f'{u.module.relpath}:{u.node.lineno}')
    res.count('routines with rejections', n)
    if n < len(table) * 0.6:
        raise AnalysisBroken('most routines with recorded rejections are gone')
    res.rule('check-skipped: calls of the validating routines of the package are made under at least the recorded conditions.')
    vcalls.compare(res, P, set(api), contract('c11_calls.json'), g)
    res.rule('check-trimmed: no loop or comprehension that decides a rejection newly leaves out elements at an end of its collection by a constant (xs[1:], xs[:-1], range(1, n), ...) unless they are handled separately.')
    trims.compare(res, P, contract('trims.json'), True)
    return res
