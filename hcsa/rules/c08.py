"""C08: what is saved is what is read back."""
from ..core import Project, AnalysisBroken
from ..report import Result, contract
from ..terms import walk, subterms
from ..roundtrip import Writer, Norm, loop_iters, outputs, text, slot_stores, slot_reads, OPAQUE

# (writer, reader, parameter that is an open group, class whose constructor the reader calls)
PAIRS = [
    ('io:save_redcal_meta', 'io:read_redcal_meta', None, None),
    ('io:SNAPDecoherence.write', 'io:SNAPDecoherence._read_single', None, 'io:SNAPDecoherence.__init__'),
    ('lst_stack.calibration:write_single_baseline_lstcal_solutions', 'lst_stack.calibration:load_single_baseline_lstcal_solutions', None, None),
    ('lst_stack.config:LSTBinConfigurator._write', 'lst_stack.config:LSTBinConfigurator._read', 'group', ''),
    ('lst_stack.config:LSTConfig.write', 'lst_stack.config:LSTConfig.from_file', None, ''),
]
STORES = ['io:HERACal.update', 'io:write_cal']
READS = ['io:HERACal.build_calcontainers']


def inline(h):
    return h.name != 'history_string'


def need(F, name):
    if name not in F:
        raise AnalysisBroken(f'{name} is gone')
    return F[name]


def survey(P):
    F = {f.short: f for f in P.funcs.values()}
    out, where = {}, {}
    for wn, rn, root, cls in PAIRS:
        W = Writer(walk(P, need(F, wn), inline=inline, max_depth=3), group_param(F[wn], root))
        wr = walk(P, need(F, rn), inline=inline, max_depth=3)
        N = Norm(loop_iters(wr), W, group_param(F[rn], root))
        names = None if cls is None else F[cls].pos_params[1:] if cls else []
        key = f'{wn}|{rn}'
        out[key] = outputs(P, wr, N, names)
        where[key] = (F[wn].where, F[rn].where, len(W.entries))
    slots = {}
    for fn in STORES:
        w = walk(P, need(F, fn), inline=inline, max_depth=2)
        slots[fn] = slot_stores(w, Norm(loop_iters(w)))
    for fn in READS:
        w = walk(P, need(F, fn), inline=inline, max_depth=2)
        slots[fn] = slot_reads(w, Norm(loop_iters(w)))
    return F, out, where, slots


def group_param(f, root):
    if root is None:
        return None
    ps = [p for p in f.pos_params if p not in ('self', 'cls')]
    return ps[0] if ps else root


def understood(t):
    return not any(s.op in OPAQUE for s in subterms(t))


def check(tier):
    res = Result()
    P = Project()
    rec = contract('c08.json')
    F, out, where, slots = survey(P)
    for key, want in rec['pairs'].items():
        wn, rn = key.split('|')
        got = out[key]
        res.count('datasets and attributes written', where[key][2])
        res.count('pairs of writer and reader')
        for k, txt in want.items():
            res.count('obligations')
            if k not in got:
                if any(not understood(v) for v in got.values()):
                    res.count('not understood')
                    continue
                res.add('not-read-back', f'{rn}|{k}', f'{rn} no longer returns {k.strip(".")}, which {wn} saves', where[key][1])
                continue
            v = got[k]
            now = text(v)
            if now == txt:
                res.count('discharged')
                res.sample(f'{rn}({wn}(x)) {k.strip(".") or "result"} = {now}'[:200], 80)
            elif any(s.op == 'missing' for s in subterms(v)):
                p = [s.a[0] for s in subterms(v) if s.op == 'missing'][0]
                res.add('never-written', f'{rn}|{k}', f'{rn} reads {p!r}, which {wn} does not write', where[key][1])
            elif not understood(v):
                res.count('not understood')
            else:
                res.add('changed-on-the-way', f'{rn}|{k}', f'{k.strip(".")} saved by {wn} and read by {rn} is {now[:200]} instead of {txt[:120]}', where[key][1])
    for fn, want in rec['slots'].items():
        got = slots[fn]
        for x in map(tuple, want):
            res.count('obligations')
            if x in got:
                res.count('discharged')
                continue
            same = [y for y in got if (y[2] == x[2] or y[0] == x[0]) and y not in map(tuple, want)]
            if same:
                y = sorted(same)[0]
                res.add('slot', f'{fn}|{x[2]}', f'{fn}: {x[2]} is kept at {y[0]}{y[1]}{" transposed" if y[3] else ""} instead of {x[0]}{x[1]}{" transposed" if x[3] else ""}', F[fn].where)
            else:
                res.count('not understood')
    res.need('pairs of writer and reader', 5)
    res.need('discharged', 30)
    res.rule('never-written / not-read-back / changed-on-the-way: the table path -> value of the writer is substituted into the outputs of the reader; after cancelling packaging (array of a list '
             'over sorted keys zipped back with the saved keys, bytes/str, masks of indices, padding, markers for None) each output must be the argument or attribute that was saved')
    res.rule('slot: calibration dictionaries and the arrays they are kept in use the same index (antenna, frequency, time, polarization) and transposition on both sides')
    return res
