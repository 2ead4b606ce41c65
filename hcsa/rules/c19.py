"""C19: quantities keep their units."""
import ast
import re
from ..core import Project
from ..report import Result, contract
from ..terms import T, walk, kwitems, subterms
from ..units import Mono, fname, transparent, dimensional, mul


def named(sink):
    """the parameter or attribute is named after a dimensional quantity"""
    n = sink[1:] if sink[0] == '.' else sink.split('(')[-1].rstrip(')') if '(' in sink else ''
    return bool(n) and dimensional([(n, 1)])


def survey(P, f, api):
    """(use of the value, quantities in the product) -> {scale factor: where}"""
    w = walk(P, f, inline=lambda h: h.short not in api and not h.name.startswith('__'), max_depth=2)
    M = Mono(P)
    out, seen = {}, set()
    byname = {}
    for g in P.funcs.values():
        if g.parent is None:
            byname.setdefault(g.name if g.name != '__init__' else g.cls.name if g.cls else g.name, []).append(g)

    def put(sink, v, where):
        for c, sig in M.mono(v):
            if sig and (dimensional(sig) or named(sink)):
                out.setdefault((sink, sig), {}).setdefault(c, where)
    for e in w.events:
        if e.kind == 'return' and e.depth == 0 and e.val is not None:
            for i, x in enumerate(e.val.a if e.val.op == 'tuple' else [e.val]):
                put(f'return {i}', x, e.where)
        if e.kind == 'setattr' and e.val is not None:
            put(f'.{e.name}', e.val, e.where)
        for v in [e.val, e.res] + list(e.args or ()) + [x for _, x in (e.kws or ())] + list(e.pc):
            if not isinstance(v, T):
                continue
            for s in subterms(v):
                if s in seen:
                    continue
                seen.add(s)
                if s.op == 'call' and not transparent(s):
                    n = fname(s)
                    gs = byname.get(n, ())
                    ps = [a for a in gs[0].params if a not in ('self', 'cls')] if len(gs) == 1 else []
                    for i, x in enumerate(s.a[1].a):
                        put(f'{n}({ps[i] if i < len(ps) else i})', x, e.where)
                    for k, x in kwitems(s.a[2]):
                        put(f'{n}({k})', x, e.where)
                elif s.op == 'cmp':
                    for c, sig in mul(M.mono(s.a[1]), M.mono(s.a[2]), -1):
                        if sig and dimensional(sig):
                            if sig[0][1] < 0:           # one order for x < y and y > x
                                c, sig = 1 / c, tuple((k, -v) for k, v in sig)
                            out.setdefault(('comparison', sig), {}).setdefault(c, e.where)
    return out


SIDEREAL = 1.00273790935


def close(a, b, sink=''):
    """same unit: phases agree exactly; elsewhere small factors (halves of a difference, midpoints, margins) are not conversions"""
    if not a or not b:
        return a == b
    r = max(abs(a / b), abs(b / a))
    return r < 1.0001 if sink.startswith('exp(') else r < 2.6 and abs(r - SIDEREAL) > 5e-5


def sigtext(sig):
    return ' '.join(k if p == 1 else f'{k}^{p:g}' for k, p in sig)


SUFFIX = [(re.compile(r'(_degrees|_deg|_degs)$'), 'degrees'), (re.compile(r'(_rad|_rads|_radians)$|^telescope_location_lat_lon_alt$|^(latitude|longitude)_rad'), 'radians'), (re.compile(r'(_ns|_nsec|_nanoseconds)$'), 'nanoseconds'),
          (re.compile(r'(_sec|_secs|_seconds)$'), 'seconds'), (re.compile(r'(_mhz|_MHz)$'), 'MHz'), (re.compile(r'(_hz|_Hz)$'), 'Hz'), (re.compile(r'(_mHz)$'), 'mHz'), (re.compile(r'(_days|_jd|_jds)$'), 'days'),
          (re.compile(r'(_hours|_hrs|_hr)$'), 'hours'), (re.compile(r'(_minutes|_mins)$'), 'minutes')]


def unit_of(n):
    return next((u for rx, u in SUFFIX if rx.search(n)), None)


def handed_over(tree):
    """(name, value) pairs: assignments, keyword arguments, dictionary entries"""
    for n in ast.walk(tree):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Subscript):
                    if isinstance(t.slice, ast.Constant) and isinstance(t.slice.value, str):
                        yield t.slice.value, n.value
                elif isinstance(t, (ast.Name, ast.Attribute)):
                    yield (t.id if isinstance(t, ast.Name) else t.attr), n.value
        elif isinstance(n, ast.keyword) and n.arg:
            yield n.arg, n.value
        elif isinstance(n, ast.Dict):
            for k, v in zip(n.keys, n.values):
                if isinstance(k, ast.Constant) and isinstance(k.value, str):
                    yield k.value, v


def named_units(res, P):
    for m in P.modules.values():
        for n, v in handed_over(m.tree):
            a = unit_of(n)
            if a is None:
                continue
            res.count('names with a unit')
            while isinstance(v, ast.Subscript) and not (isinstance(v.slice, ast.Constant) and isinstance(v.slice.value, str)):
                v = v.value
            x = v.id if isinstance(v, ast.Name) else v.attr if isinstance(v, ast.Attribute) else v.slice.value if isinstance(v, ast.Subscript) else ''
            b = unit_of(x)
            if b and b != a:
                res.add('named-unit', f'{m.relpath}|{n}={x}', f'{m.relpath}: {n} ({a}) is given {x} ({b}) without conversion', f'{m.relpath}:{v.lineno}')


def check(tier):
    res = Result()
    P = Project()
    api = set(contract('api.json'))
    rec = contract('c19.json')
    for f in sorted((f for f in P.funcs.values() if f.parent is None), key=lambda f: f.short):
        want = rec.get(f.short)
        if not want:
            continue
        now = survey(P, f, api)
        res.count('functions')
        have = {}
        for (sink, sig), cs in now.items():
            have.setdefault(sigtext(sig), {}).setdefault(sink, {}).update(cs)
        for sig, sinks in want.items():
            if sig not in have:
                continue
            everywhere = {c for cs in have[sig].values() for c in cs}
            for sink, old in sinks.items():
                cs = have[sig].get(sink)
                if not cs:
                    continue
                res.count('scale factors')
                if any(not close(c, 1) for c in old):
                    res.count('unit conversions')
                new = [c for c in cs if not any(close(c, o, sink) for o in old)]
                lost = [o for o in old if not close(o, 1, sink) and not any(close(c, o, sink) for c in everywhere)]
                if new or lost:
                    c = new[0] if new else next(iter(cs))
                    res.add('scale', f'{f.short}|{sink}|{sig}', f'{f.short}: {sig} reaches {sink} multiplied by {c:g}, the unit used there needs {" or ".join(f"{o:g}" for o in old)}', cs[c])
                elif any(not close(c, 1) for c in cs):
                    res.sample(f'{next(iter(cs.values()))} {f.short}: {sig} x {", ".join(f"{c:g}" for c in sorted(cs))} -> {sink}', 60)
    named_units(res, P)
    res.rule('named-unit: a name that carries a unit (degrees, radians, ns, s, MHz, Hz, days, hours, minutes) is never given a name that carries another one without conversion.')
    res.need('unit conversions', 60)
    res.rule('scale: every recorded product of dimensional quantities (frequencies, times, LSTs, delays, fringe rates, positions, angles) that reaches a use (argument of a call, comparison, '
             'returned value, stored attribute) carries the recorded conversion factor (powers of ten, 86400, 2 pi, pi/180, 12/pi, speed of light, sidereal day), however the product is written; phases (arguments of exp) carry it exactly')
    return res
