"""C26: work done in pieces covers everything exactly once."""
import ast
from ..core import Project, Func
from .. import trims
from ..report import Result, contract
from ..terms import T, NONE, mk, walk, subterms, show, formula, satisfiable, tnot, atoms
from ..tiling import (poly, add, mul, subst, opaque, hasatom, index_range, at_least, fn, arg, unwrap, ONE)

# a running offset must advance by what was just filled in
OFFSETS = {'io:read_hera_calfits', 'io:read_hera_hdf5', 'vis_clean:restore_flagged_edges', 'lst_stack.wrappers:lst_bin_files_single_outfile'}
WRITERS = {'partial_write', 'write_filtered_data', 'write_uvh5_part', 'write_uvh5', 'write_data', 'write_vis', 'update_vis'}
GENERATORS = ('iterate_over_bls', 'iterate_over_freqs', 'iterate_over_times')


def sp(p):
    return ' + '.join(f"{c if c != 1 or m == ONE else ''}{'*' if m and c != 1 else ''}{'*'.join(show(a)[:40] for a in m)}" for m, c in p.items()) or '0'


def conds(*ts):
    """conditions of the ite-terms the bounds are made of, outermost first"""
    out = []

    def go(t, d):
        if t.op == 'ite':
            if t.a[0] not in out:
                out.append(t.a[0])
            go(t.a[1], d + 1)
            go(t.a[2], d + 1)
        elif d < 8 and t.op in ('bin', 'un'):
            for x in t.a:
                if isinstance(x, T):
                    go(x, d + 1)
        elif d < 8 and t.op == 'call' and fn(t) in ('int', 'ceil', 'floor', 'range', 'min', 'float'):
            for x in t.a[1].a:
                go(x, d + 1)
    for t in ts:
        go(t, 0)
    return out


def under(t, asg, memo):
    """term with the decided conditions resolved"""
    if t in memo:
        return memo[t]
    if t.op == 'ite' and t.a[0] in asg:
        r = under(t.a[1] if asg[t.a[0]] else t.a[2], asg, memo)
    elif t.op in ('bin', 'un', 'ite', 'call', 'list', 'tuple', 'iter'):
        xs = [under(x, asg, memo) if isinstance(x, T) else x for x in t.a]
        r = mk(t.op, *xs) if any(x is not y for x, y in zip(xs, t.a)) else t
    else:
        r = t
    memo[t] = r
    return r


def cases(*ts, limit=4):
    cs = conds(*ts)[:limit]
    for n in range(2 ** len(cs)):
        asg = {c: bool(n >> k & 1) for k, c in enumerate(cs)}
        memo = {}
        yield asg, [under(t, asg, memo) for t in ts]


def min_args(t):
    t = unwrap(t)
    if t.op == 'call' and fn(t) in ('min', 'minimum', 'amin', 'nanmin'):
        xs = t.a[1].a
        if len(xs) == 1 and xs[0].op in ('list', 'tuple'):
            xs = xs[0].a
        return [y for x in xs for y in min_args(x)]
    return [t]


def assumed(asg, p, q):
    """p >= q is what one of the branch conditions says"""
    for c, v in asg.items():
        neg = not v
        while c.op == 'not':
            c, neg = c.a[0], not neg
        if c.op == 'cmp' and c.a[0] in ('<', '<='):
            a, b = poly(c.a[1]), poly(c.a[2])
            memo = {}
            a, b = poly(under(c.a[1], asg, memo)), poly(under(c.a[2], asg, memo))
            if neg and a == p and b == q or not neg and b == p and a == q:
                return True
    return False


def lengths(base):
    if base is None:
        return []
    return [{(mk('call', mk('global', 'len'), mk('list', base), mk('kw')),): 1}]


def max_cases(p):
    """p with max(a, b) replaced by each of its arguments that is a quotient"""
    for m in p:
        for t in m:
            if t.op == 'call' and fn(t) in ('max', 'maximum') and len(t.a[1].a) == 2:
                for x in t.a[1].a:
                    q = poly(x)
                    if any(y.op in ('floor', 'round', 'ceil') for k in q for y in k):
                        yield subst(p, t, q)


def loop_slice(res, f, sl, node, base, i, where):
    """one slice whose bounds move with the loop index i"""
    a0, b0, c0 = index_range(i)
    lo0, hi0, st0 = sl.a
    f'{f.short}|{where.split(":")[0]}'
    name = f.short
    judged = False
    for asg, (lo, hi, st, a, b, c) in cases(lo0, hi0, st0, a0, b0, c0):
        ii = mk('iter', under(i.a[0], asg, {})) if i.op == 'iter' else i
        pl = poly(lo) if lo is not NONE else {}
        if hasatom(pl, i):
            ii = i
        if opaque(pl, ii) or not hasatom(pl, ii):
            return judged
        stride = poly(st) if st is not NONE else {ONE: 1}
        pa, pb, pc = poly(a), poly(b), poly(c)
        if stride != {ONE: 1}:
            if pl != {(ii,): 1} or pc != {ONE: 1}:
                continue
            judged = True
            if stride != pb:
                res.add('stride', name, f'{name}: pieces taken with stride {sp(stride)} but {sp(pb)} of them', where)
            elif pa:
                res.add('start', name, f'{name}: the first piece (offset {sp(pa)}) leaves out what precedes it', where)
            continue
        chunky = pc != {ONE: 1} or any(t.op in ('ceil', 'floor', 'round') for m in pb for t in m) or any(ii in m and len(m) > 1 for m in pl)
        if not chunky or hi is NONE:
            continue
        judged = True
        nxt = subst(pl, ii, add({(ii,): 1}, pc))
        his = [poly(h) for h in min_args(hi)]
        if nxt not in his:
            if any(opaque(h, ii) for h in his):
                continue
            res.add('gap', name, f'{name}: the piece for index i ends at {sp(his[0])}, the next one starts at {sp(nxt)}', where)
            continue
        start = subst(pl, ii, pa)
        if start and all(m == ONE for m in start):
            res.add('start', name, f'{name}: the first piece starts at {sp(start)}', where)
        end = subst(pl, ii, pb)
        targets = lengths(base) + [poly(t.a[0]) for m in end for t in m if t.op in ('floor', 'round')]
        clips = [h for h in his if h != nxt and not hasatom(h, ii)]
        for L in targets + clips:
            if assumed(asg, end, L):
                continue
            if at_least(end, L) == 'no':
                res.add('remainder', name, f'{name}: the last piece ends at {sp(end)}, short of {sp(L)}', where)
                break
        for L in lengths(base):
            for h in clips:
                if at_least(h, L) == 'no':
                    res.add('remainder', name, f'{name}: the pieces are cut off at {sp(h)}, short of {sp(L)}', where)
        for e2 in max_cases(end):
            for L in lengths(base) + [poly(t.a[0]) for m in e2 for t in m if t.op in ('floor', 'round')]:
                if at_least(e2, L) == 'no':
                    res.add('remainder', name, f'{name}: the last piece ends at {sp(e2)}, short of {sp(L)}', where)
    return judged


def clip(res, f, his, end, base, where):
    for h in his:
        for L in lengths(base):
            if h != end and at_least(h, L) == 'no':
                res.add('remainder', f.short, f'{f.short}: the pieces are cut off at {sp(h)}, short of {sp(L)}', where)


def quotients_in(t):
    """roundings of a quotient t may be, through max()"""
    if t.op in ('ceil', 'floor', 'round'):
        yield t
    elif t.op == 'call' and fn(t) in ('max', 'maximum', 'amax'):
        xs = t.a[1].a
        if len(xs) == 1 and xs[0].op in ('list', 'tuple'):
            xs = xs[0].a
        for x in xs:
            for m in poly(x):
                if len(m) == 1:
                    yield from quotients_in(m[0])


def indexed_slice(res, f, sl, base, where):
    """a piece selected by an index that is not a loop variable: bounds i*n and (i+1)*n"""
    lo, hi, st = sl.a
    if lo is NONE or hi is NONE or st is not NONE:
        return False
    pl = poly(lo)
    big = [m for m in pl if len(m) == 2]
    if len(pl) != 1 or not big or list(pl.values()) != [1]:
        return False
    his = [poly(h) for h in min_args(hi)]
    if not any(len(m) == 2 for h in his for m in h):
        return False
    for x in big[0]:
        y = [t for t in big[0] if t is not x]
        if not y or x.op in ('ceil', 'floor'):
            continue
        if add(pl, {(y[0],): 1}) in his:
            clip(res, f, his, add(pl, {(y[0],): 1}), base, where)
            # pieces 0 .. n-1 of size y: n is what y was divided by
            for q in quotients_in(y[0]):
                L = lengths(base)[0] if base is not None else None
                if poly(q.a[0]) == L and q.op != 'ceil':
                    res.add('remainder', f.short, f'{f.short}: pieces of {show(y[0])[:80]} elements leave out the remainder', where)
            return True
    # floor(L/n) + 1 elements per piece: a sum times the index
    res.add('gap', f.short, f'{f.short}: the piece from {sp(pl)} to {sp(his[0])} does not end where the next one starts', where)
    return True


def indexed_sum(res, f, sl, base, where):
    """bounds i*(L//n + 1)"""
    lo, hi, st = sl.a
    if lo is NONE or hi is NONE or st is not NONE:
        return False
    lo = unwrap(lo)
    if not (lo.op == 'bin' and lo.a[0] == 'Mult'):
        return False
    pl, his = poly(lo), [poly(h) for h in min_args(hi)]
    if len(pl) < 2:
        return False
    for x in (lo.a[1], lo.a[2]):
        y = lo.a[2] if x is lo.a[1] else lo.a[1]
        if len(poly(x)) != 1 or not any(len(m) == 1 for m in poly(x)):
            continue
        if add(pl, poly(y)) in his:
            clip(res, f, his, add(pl, poly(y)), base, where)
            L = lengths(base)[0] if base is not None else None
            for m in poly(y):
                for t in m:
                    if t.op in ('floor', 'round', 'ceil') and L and poly(t.a[0]) == L and at_least(mul(poly(y), poly(t.a[1])), L) == 'no':
                        res.add('remainder', f.short, f'{f.short}: the pieces leave out the remainder', where)
            return True
        if any(t.op in ('floor', 'round', 'ceil') for m in poly(y) for t in m):
            res.add('gap', f.short, f'{f.short}: the piece from {sp(pl)} to {sp(his[0])} does not end where the next one starts', where)
            return True
    return False


def last(t):
    """value a variable has when the loop that sets it is over"""
    while t.op == 'after':
        t = t.a[2]
    return t


def offset_slice(res, f, w, lo, hi, pc, where):
    """out[t:t + n] with t advanced by n"""
    pl = poly(lo) if lo is not NONE else {}
    if len(pl) != 1:
        return False
    (m, c), = pl.items()
    if c != 1 or len(m) != 1 or m[0].op != 'loopvar' or hi is NONE:
        return False
    v = m[0]
    up = w.updates.get((v.a[0], v.a[1]))
    if up is None:
        return False
    ph = [poly(h) for h in min_args(hi)]
    if not any(hasatom(h, v) for h in ph):
        return False
    init = poly(v.a[2])
    if init and all(k == ONE for k in init):
        res.add('start', f.short, f'{f.short}: the running offset starts at {sp(init)}', where)
    flat = lambda p: {tuple(sorted((last(t) for t in m), key=lambda t: t.n)): c for m, c in p.items()}
    for asg, (u,) in cases(up):
        if u is v or poly(u) == pl:
            # not advanced in this case: fine only if nothing was taken either
            fs = [formula(g, lambda t: None) for g in pc if g.op != 'in_loop'] + [formula(k if b else tnot(k), lambda t: None) for k, b in asg.items()]
            if satisfiable(fs, {}):
                res.add('offset', f.short, f'{f.short}: the running offset {v.a[0]} is not always advanced past the piece just handled', where)
            continue
        if flat(poly(u)) not in [flat(h) for h in ph]:
            res.add('offset', f.short, f'{f.short}: the piece ends at {sp(ph[0])} but the offset advances to {sp(poly(u))}', where)
    return True


def entry(t):
    """(table entry, constant) of entry + constant"""
    t = unwrap(t)
    c = 0
    while t.op == 'bin' and t.a[0] in ('Add', 'Sub'):
        x, y = t.a[1], t.a[2]
        if y.op == 'const' and isinstance(y.a[0], int):
            c += y.a[0] if t.a[0] == 'Add' else -y.a[0]
            t = unwrap(x)
        elif t.a[0] == 'Add' and x.op == 'const' and isinstance(x.a[0], int):
            c += x.a[0]
            t = unwrap(y)
        else:
            break
    return t, c


def table_slice(res, f, sl, where):
    """x[edges[i]:edges[i + 1]]"""
    (lo, l0), (hi, h0) = entry(sl.a[0]), entry(sl.a[1])
    if not (lo is not None and hi is not None and lo.op == 'sub' and hi.op == 'sub' and lo.a[0] is hi.a[0]):
        return False
    d = add(poly(hi.a[1]), poly(lo.a[1]), -1)
    its = [t for m in poly(lo.a[1]) for t in m if t.op == 'iter' and index_range(t)]
    if not its or hasatom(d, its[0]):
        return False
    if l0 != h0:
        res.add('gap', f.short, f'{f.short}: {abs(h0 - l0)} elements {"lie between" if h0 < l0 else "are shared by"} consecutive pieces', where)
        return True
    if d != {ONE: 1}:
        res.add('gap', f.short, f'{f.short}: pieces between edge i and edge i + {sp(d)}', where)
        return True
    i = its[0]
    a, b, c = index_range(i)
    start = subst(poly(lo.a[1]), i, poly(a))
    if start and all(m == ONE for m in start):
        res.add('start', f.short, f'{f.short}: the first piece starts at edge {sp(start)}', where)
    E = lo.a[0]
    while E.op == 'call' and fn(E) == 'int':
        E = arg(E)
    if E.op == 'call' and fn(E) == 'searchsorted':
        dict(zip(E.a[2].a[::2], E.a[2].a[1::2])).get('side')
        g = arg(E, 1)
        if g is not None and g.op == 'call' and fn(g) == 'arange':
            n = poly(g.a[1].a[-1] if len(g.a[1].a) < 3 else g.a[1].a[1])
            last = add(subst(poly(lo.a[1]), i, poly(b)), {ONE: 1})
            if at_least(n, last) == 'no' or at_least(last, n) == 'no':
                res.add('remainder', f.short, f'{f.short}: {sp(n)} edges but pieces up to edge {sp(last)}', where)
    return True


def greedy(res, P, f):
    """utils.chunk_baselines_by_redundant_groups: each group ends up in exactly one chunk"""
    w = walk(P, f, inline=lambda h: h.name.startswith('_'), max_depth=2)
    taken = []
    for e in w.events:
        if e.kind == 'call' and str(e.name).split('.')[-1] in ('append', 'extend', 'insert'):
            its = {x for v in e.args for x in subterms(v) if x.op == 'iter' and any(y.op == 'param' for y in subterms(x.a[0]))}
            its = {x for x in its if x.a[0].op == 'param' or x.a[0].op == 'call'}
            if its:
                taken.append(e)
    res.count('groups placed', len(taken))
    if not taken:
        return
    pcs = [[formula(g, lambda t: None) for g in e.pc if g.op != 'in_loop'] for e in taken]
    # every path places the group
    if satisfiable([('not', ('and',) + tuple(p)) if p else ('lit', False) for p in pcs], {}):
        res.add('group-lost', f.short, f'{f.short}: there is a path on which a redundant group is not put into any chunk', taken[0].where)
    for a in range(len(pcs)):
        for b in range(a):
            if satisfiable(pcs[a] + pcs[b], {}):
                res.add('group-twice', f.short, f'{f.short}: a redundant group can be put into two chunks', taken[a].where)


def early_exit(res, P, f, loops):
    """chunk loops run to the end"""
    def scan(body):
        for s in body:
            if isinstance(s, (ast.Break, ast.Return)):
                yield s
            elif isinstance(s, (ast.For, ast.While, ast.AsyncFor)):
                yield from (x for x in scan(s.body) if isinstance(x, ast.Return))
            elif not isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
                for fld in ('body', 'orelse', 'finalbody'):
                    yield from scan(getattr(s, fld, []) or [])
                for h in getattr(s, 'handlers', []):
                    yield from scan(h.body)
    for n in loops:
        for s in scan(n.body):
            res.add('early-exit', f.short, f'{f.short}: the loop over pieces is left early ({type(s).__name__.lower()})', f'{f.module.relpath}:{s.lineno}')


def is_chunk_range(it):
    i = mk('iter', it)
    r = index_range(i)
    if r is None:
        return False
    return poly(r[2]) != {ONE: 1} or any(t.op in ('ceil', 'floor', 'round') for asg, (b,) in cases(r[1]) for m in poly(b) for t in m)


def chunk_iter(it):
    return it.op == 'call' and it.a[0].op == 'attr' and it.a[0].a[1] in GENERATORS or is_chunk_range(it)


def writer_guards(f, w):
    """for each writing call in a loop over pieces: how many of its conditions vary from piece to piece"""
    out = {}
    raising = {a for e in w.events if e.kind == 'raise' for g in e.pc if g.op != 'in_loop' for a in atoms(formula(g, lambda t: None))}
    for e in w.events:
        name = str(e.name).split('.')[-1] if e.kind == 'call' else ''
        if e.kind == 'yield' or e.kind == 'call' and name in WRITERS:
            ls = [l for l in e.loops if chunk_iter(l)]
            if not ls:
                continue
            k = 'yield' if e.kind == 'yield' else name
            at = max((n for n, g in enumerate(e.pc) if g.op == 'in_loop' and chunk_iter(g.a[0])), default=-1)
            if at < 0:
                continue
            # what does not hold for every piece: mentions something defined in the loop
            n = sum(1 for g in e.pc[at + 1:] if g.op != 'in_loop' and not atoms(formula(g, lambda t: None)) <= raising and any(t.op in ('iter', 'loopvar', 'index', 'zipelem') for t in subterms(g)))
            out.setdefault(k, []).append((n, e.where))
    return out


def check(tier):
    res = Result()
    P = Project()
    api = set(contract('api.json'))
    for f in sorted((f for f in P.funcs.values() if f.parent is None), key=lambda f: f.short):
        w = walk(P, f, inline=lambda h: h.short not in api, max_depth=2)
        res.count('functions')
        judged = []
        entries = list(w.slices)
        for e in w.events:
            if e.kind == 'call' and str(e.name).split('.')[-1] == 'arange' and len(e.args) == 2:
                entries.append([mk('slice', e.args[0], e.args[1], NONE), e.node, e.pc, e.loops, e.func, None])
        for sl, node, pc, lps, fr, base in entries:
            where = f'{(fr if isinstance(fr, Func) else f).module.relpath}:{node.lineno}'
            its = {x for b in sl.a[:2] for x in subterms(b) if x.op == 'iter' and index_range(x)}
            ok = False
            for i in its:
                ok |= loop_slice(res, f, sl, node, base, i, where)
            if not its:
                ok |= indexed_slice(res, f, sl, base, where) or indexed_sum(res, f, sl, base, where)
            else:
                ok |= table_slice(res, f, sl, where)
            if f.short in OFFSETS:
                ok |= offset_slice(res, f, w, sl.a[0], sl.a[1], pc, where)
            if ok:
                judged.append(node)
                res.count('piecewise slices')
                res.sample(f'{where} {f.short}', 60)
        loops = [n for n in ast.walk(f.node) if isinstance(n, ast.For) and any(isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr in GENERATORS for c in ast.walk(n.iter))]
        loops += [n for n in ast.walk(f.node) if isinstance(n, ast.For) and any(n.lineno <= x.lineno <= n.end_lineno and isinstance(n.iter, ast.Call) and {y.id for y in ast.walk(n.target) if isinstance(y, ast.Name)} &
                  {y.id for y in ast.walk(x) if isinstance(y, ast.Name)} for x in judged)]
        res.count('loops over pieces', len(loops))
        early_exit(res, P, f, loops)
        for k, ws in writer_guards(f, w).items():
            for n, where in ws:
                res.count('writes of pieces')
                if n:
                    res.add('piece-skipped', f'{f.short}|{k}', f'{f.short}: {k} is skipped for some pieces', where)
        if f.short == 'utils:chunk_baselines_by_redundant_groups':
            greedy(res, P, f)
    res.need('piecewise slices', 25)
    res.need('loops over pieces', 5)
    res.rule('gap/start/remainder/stride: for every slice whose bounds depend on a loop or piece index, upper(i) = lower(i+1), lower(0) = start and the last upper bound reaches the end '
             '(polynomial identities over the value-numbered bounds, ceil/floor/round and remainders by case); offset: fills of a larger array advance by what was filled')
    res.rule('early-exit: loops over pieces are not left by break/return; piece-skipped: writes and yields inside are not conditional on the piece; '
             'group-lost / group-twice: the greedy grouping places every group exactly once')
    res.rule('piece-trimmed: no iteration newly leaves out elements at an end of its collection by a constant (xs[1:], xs[:-1], range(1, n), ...) unless they are handled separately.')
    trims.compare(res, P, contract('trims.json'), False)
    return res
