#!/usr/bin/env python3
"""Run the hand-written edit cases of a rule (selftest/cases_<id>.txt) as in-memory overlays; nothing in /repo is touched.
File format, repeated:   @@ bug|keep NAME FILE \n OLD \n ==== \n NEW   (OLD must occur exactly once; 'keep' = behaviour unchanged)"""
import importlib, os, re, sys
from concurrent.futures import ProcessPoolExecutor
sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.setrecursionlimit(20000)
from hcsa.core import Project, AnalysisBroken, REPO
from hcsa.report import known_findings


def load(prop):
    out = []
    txt = open(os.path.join(ROOT, 'selftest', f'cases_{prop.lower()}.txt')).read()
    for blk in re.split(r'^@@ ', txt, flags=re.M)[1:]:
        head, body = blk.split('\n', 1)
        kind, name, rel = head.split()
        edits = []
        for part in body.rstrip('\n').split('\n&&&&\n'):
            old, new = part.split('\n====\n') if '\n====\n' in part else (part[:-5] if part.endswith('\n====') else part, '')
            edits.append((old, new))
        out.append((kind, name, rel, edits))
    return out


def run(job):
    prop, kind, name, rel, edits = job
    src = open(os.path.join(REPO, rel)).read()
    for old, new in edits:
        if src.count(old) != 1:
            return kind, name, f'BAD CASE: pattern occurs {src.count(old)} times: {old[:60]!r}', []
        src = src.replace(old, new)
    Project.default_overlay = {rel: src}
    mod = importlib.import_module(f'hcsa.rules.{prop.lower()}')
    try:
        res = mod.check('quick')
    except AnalysisBroken as e:
        return kind, name, f'BROKEN {e}', []
    except SyntaxError as e:
        return kind, name, f'SYNTAX {e}', []
    known = known_findings(prop)
    new = [f for f in res.findings if f.key not in known]
    return kind, name, '', [f'{f.where} {f.key}' for f in new]


if __name__ == '__main__':
    props = sys.argv[1:]
    bad = 0
    for prop in props:
        with ProcessPoolExecutor(8) as ex:
            rs = list(ex.map(run, [(prop,) + c for c in load(prop)]))
        n = {'bug': [0, 0], 'keep': [0, 0]}
        for kind, name, err, fs in rs:
            ok = not err and bool(fs) == (kind == 'bug')
            n[kind][0] += ok
            n[kind][1] += 1
            bad += not ok
            if not ok or '-v' in os.environ.get('CASES', ''):
                print(f'{prop} {"ok  " if ok else "FAIL"} {kind} {name} {err} {fs[:4]}')
        print(f'{prop}: bugs caught {n["bug"][0]}/{n["bug"][1]}, behaviour-preserving edits quiet {n["keep"][0]}/{n["keep"][1]}')
    sys.exit(1 if bad else 0)
