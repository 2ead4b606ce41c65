"""C02: an existing file is only replaced when the caller asked for it.

For every routine that offers an overwrite switch, each file-creating or file-removing operation it can reach (helpers inlined)
must be safe when the switch is off and the target exists: either the switch itself (or something implying it) is what the
writer receives, or every path to the write is guarded by `not exists(that same path) or switch`.
"""
import ast
from ..core import Project, Func, AnalysisBroken, src_of, dotted
from ..terms import walk, mk, formula, satisfiable, is_const, T, NONE, subterms, show
from ..report import Result, contract

OPT = ('clobber', 'overwrite')
KW_WRITERS = {'write_uvh5': 'clobber', 'write_miriad': 'clobber', 'write_calfits': 'clobber', 'initialize_uvh5_file': 'clobber',
              'write_ms': 'clobber', 'write_beamfits': 'clobber'}
PLAIN_METHODS = {'write_uvfits', 'write_text', 'write_bytes', 'tofile', 'to_csv', 'unlink'}
PLAIN = {'numpy.savez', 'numpy.save', 'numpy.savez_compressed', 'numpy.savetxt', 'os.remove', 'os.unlink', 'os.rename', 'os.replace',
         'shutil.move', 'shutil.rmtree', 'shutil.copy', 'shutil.copyfile', 'shutil.copy2', 'os.truncate'}
DEST_SECOND = {'os.rename', 'os.replace', 'shutil.move', 'shutil.copy', 'shutil.copyfile', 'shutil.copy2'}
OPENERS = {'open', 'h5py.File', 'io.open', 'gzip.open', 'zipfile.ZipFile', 'pathlib.Path.open'}
EXISTS = {'os.path.exists', 'os.path.isfile', 'os.path.isdir', 'os.path.lexists'}
EXISTS_M = {'exists', 'is_file', 'is_dir'}
STRIP_F = {'str', 'pathlib.Path', 'os.fspath', 'os.path.abspath', 'os.path.realpath', 'os.path.normpath', 'Path'}
STRIP_M = {'absolute', 'resolve', 'as_posix', 'expanduser', '__str__'}


def norm(t):
    while True:
        if t.op == 'call' and t.a[0].op == 'global' and t.a[0].a[0] in STRIP_F and len(t.a[1].a) == 1:
            t = t.a[1].a[0]
        elif t.op == 'call' and t.a[0].op == 'attr' and t.a[0].a[1] in STRIP_M and not t.a[1].a:
            t = t.a[0].a[0]
        elif t.op == 'fmt' and len(t.a) == 1:
            t = t.a[0]
        else:
            return t


def exists_path(t):
    """path tested by an existence test, or None"""
    if t.op == 'call':
        f, args = t.a[0], t.a[1].a
        if f.op == 'global' and f.a[0] in EXISTS and len(args) == 1:
            return norm(args[0])
        if f.op == 'attr' and f.a[1] in EXISTS_M and not args:
            return norm(f.a[0])
    return None


def write_of(e, writer_funcs):
    """(label, path term|None, switch term|None|'unknown'|False) if the call event can replace/remove a file"""
    nm = e.name.split('.')[-1] if e.name else ''
    arg0 = e.args[0] if e.args else (e.kw('filename') or e.kw('fname'))
    arg0 = arg0 if isinstance(arg0, T) else None
    if isinstance(e.fn, Func) and e.fn.short in writer_funcs:
        opt, path_param = writer_funcs[e.fn.short]
        sw = e.kw(opt)
        if sw is None:
            pos = list(e.fn.pos_params)
            if e.fn.is_method and e.base is not None:
                pos = pos[1:]
            if opt in pos and pos.index(opt) < len(e.args):
                sw = e.args[pos.index(opt)]
        if sw is None:
            d = e.fn.defaults.get(opt)
            sw = mk('const', d.value) if isinstance(d, ast.Constant) else 'unknown'
        return e.fn.short, arg0, sw
    if nm in KW_WRITERS:
        sw = e.kw(KW_WRITERS[nm])
        return nm, arg0, (sw if sw is not None else False)
    if nm in PLAIN_METHODS:
        path = arg0 if nm != 'unlink' else (e.base or arg0)
        return nm, path, None
    if e.name in PLAIN:
        path = (e.args[1] if len(e.args) > 1 else None) if e.name in DEST_SECOND else arg0
        return e.name, path, None
    if e.name in OPENERS:
        mode = e.args[1] if len(e.args) > 1 else e.kw('mode')
        if isinstance(mode, T) and mode.op == 'const' and isinstance(mode.a[0], str):
            if 'w' in mode.a[0] and mode.a[0] not in ('w-',):
                return f'{e.name}(mode={mode.a[0]!r})', arg0, None
            return None
        if isinstance(mode, T):
            return f'{e.name}(mode=?)', arg0, None
        return None
    if nm == 'open' and e.base is not None and e.args and e.args[0].op == 'const' and 'w' in str(e.args[0].a[0]):
        return 'open(w)', e.base, None
    # generic writers taking an overwrite switch (UVFlag.write, HERACal.write, ...)
    for o in OPT:
        if o in [k for k, _ in e.kws] and nm.startswith('write'):
            return nm, arg0, e.kw(o)
    return None


def unsafe(e, path, sw, is_opt):
    """can the write happen, with the switch off, while the file exists?"""
    p = norm(path) if path is not None else None

    def atom(t):
        if is_opt(t):
            return ('atom', 'O')
        x = exists_path(t)
        if x is not None:
            return ('atom', 'E') if p is not None and x is p else ('atom', t)
        return None
    fs = [formula(c, atom) for c in e.pc]
    if isinstance(sw, T):
        fs.append(formula(sw, atom))
    return satisfiable(fs, {'O': False, 'E': True})


def check(tier):
    res = Result()
    P = Project()
    con = contract('c02.json')
    exempt = {tuple(x[:2]) for x in con['exempt']}
    roots = [f for f in P.funcs.values() if f.parent is None and any(o in f.params for o in OPT)]
    if len(roots) < 25:
        raise AnalysisBroken('routines offering an overwrite switch not found')
    # which of them write files (fixpoint over calls between them)
    writer_funcs = {}
    names = {f.short: next(o for o in OPT if o in f.params) for f in roots}

    def inl(f):
        return f.short not in names and not f.name.startswith('__')
    walks = {f: walk(P, f, inline=inl, max_depth=3) for f in roots}
    res.count('routines offering an overwrite switch', len(roots))
    changed = True
    while changed:
        changed = False
        for f, w in walks.items():
            if f.short in writer_funcs:
                continue
            for e in w.events:
                if e.kind == 'call' and ((isinstance(e.fn, Func) and e.fn.short in writer_funcs) or write_of(e, {})):
                    writer_funcs[f.short] = (names[f.short], None)
                    changed = True
                    break
    res.rule('overwrite-unprotected: every file-creating/removing call reachable in a routine with an overwrite switch must be impossible '
             'while the switch is off and its target exists (guards evaluated as propositional formulas over value-numbered terms).')

    def judge(root_name, w, is_opt, script=False):
        n = 0
        for e in w.events:
            if e.kind != 'call':
                continue
            wr = write_of(e, writer_funcs)
            if wr is None:
                continue
            label, path, sw = wr
            n += 1
            res.count('obligations')
            if (root_name, label) in exempt:
                res.count('exempt by documented interface')
                continue
            if sw is False or is_const(sw, False) if isinstance(sw, T) else sw is False:
                res.count('discharged')       # writer refuses by default
                continue
            if sw == 'unknown':
                sw = None
                if script or any(mentions_opt(v, is_opt) for k, v in e.kws if k == '**'):
                    res.count('switch passed along inside the parsed options')
                    res.count('discharged')
                    continue
            if unsafe(e, path, sw, is_opt):
                res.add('overwrite-unprotected', f'{root_name}|{label}',
                        f'{root_name} can replace an existing file although overwriting was not requested: '
                        f'{src_of(e.node)}', e.where)
            else:
                res.count('discharged')
                res.sample(f'{root_name}: {label} at {e.where}')
        return n

    for f, w in sorted(walks.items(), key=lambda x: x[0].short):
        opts = {mk('param', o) for o in OPT if o in f.params}
        if judge(f.short, w, lambda t: t in opts):
            res.count('routines that write files')
    # routines without a switch of their own (they take the writer's keywords) never force overwriting
    for f in P.funcs.values():
        if f.short in names or f.parent is not None or not any(
                isinstance(x, ast.Attribute) and x.attr in KW_WRITERS for x in ast.walk(f.node)):
            continue
        for e in walk(P, f, inline=inl, max_depth=2).events:
            if e.kind == 'call' and e.name.split('.')[-1] in KW_WRITERS:
                res.count('obligations')
                sw = e.kw(KW_WRITERS[e.name.split('.')[-1]])
                if isinstance(sw, T) and not is_const(sw, False) and unsafe(
                        e, e.args[0] if e.args else None, sw, lambda t: t.op in ('sub', 'call') and mentions_opt_key(t)):
                    res.add('overwrite-unprotected', f'{f.short}|{e.name}', f'{f.short} forces overwriting: {src_of(e.node)}', e.where)
                else:
                    res.count('discharged')
    for m in P.modules.values():
        if m.is_script:
            w = walk(P, m)
            if judge(m.name, w, lambda t: t.op == 'attr' and t.a[1] in OPT, script=True):
                res.count('scripts that write files')

    # the switch is off unless the caller turns it on
    res.rule('overwrite-on-by-default: the overwrite switch of a routine or command defaults to off (documented exceptions listed).')
    on = set(con['default_on'])
    for f in roots:
        d = f.defaults.get(names[f.short])
        if f.short not in writer_funcs or d is None:
            continue
        res.count('obligations')
        if isinstance(d, ast.Constant) and d.value and f.short not in on:
            res.add('overwrite-on-by-default', f.short, f'{f.short}: {names[f.short]} now defaults to {d.value}', f.where)
        else:
            res.count('discharged')
    for m in P.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'add_argument' and n.args \
                    and any(isinstance(a, ast.Constant) and a.value in ('--clobber', '--overwrite') for a in n.args):
                res.count('obligations')
                kw = {k.arg: k.value for k in n.keywords}
                act = kw.get('action')
                dv = kw.get('default')
                bad = isinstance(dv, ast.Constant) and bool(dv.value) or \
                    (isinstance(act, ast.Constant) and act.value == 'store_false')
                if bad:
                    res.add('overwrite-on-by-default', f'{m.name}|{src_of(n.args[0])}', f'{m.name}: {src_of(n)} turns overwriting on by default',
                            f'{m.relpath}:{n.lineno}')
                else:
                    res.count('discharged')
    res.assumptions += ['pyuvdata writers refuse to replace an existing file unless clobber is true (write_uvfits always replaces)',
                        'two path expressions denote the same file when they are the same value-numbered term up to str/Path/abspath wrappers']
    res.need('routines that write files', 20)
    return res


def mentions_opt(v, is_opt):
    return any(is_opt(x) for x in subterms(v))


def mentions_opt_key(t):
    """kwargs['clobber'] / kwargs.get('clobber', False) / kwargs.pop(...)"""
    if t.op == 'sub':
        return is_const(t.a[1]) and t.a[1].a[0] in OPT
    args = t.a[1].a
    return t.a[0].op == 'attr' and t.a[0].a[1] in ('get', 'pop') and args and is_const(args[0]) and args[0].a[0] in OPT \
        and (len(args) < 2 or args[1].op == 'const' and not args[1].a[0])
