#!/usr/bin/env python3
"""Which checks report which seeded change: each patch is applied to a scratch copy of /repo's sources (nothing in /repo is touched).
usage: seeds.py [ID ...]   (SEED_ALL=1: every check against every seed, otherwise only the check of the seed's property)"""
import importlib, json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ProcessPoolExecutor
sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.setrecursionlimit(20000)


def run(job):
    sid, props = job
    from hcsa import core
    from hcsa.report import known_findings
    tmp = tempfile.mkdtemp(prefix='hcsa_seed_')
    out = []
    try:
        for d in ('hera_cal', 'scripts'):
            shutil.copytree(f'/repo/{d}', f'{tmp}/{d}', ignore=lambda p, names: [n for n in names if os.path.isfile(os.path.join(p, n)) and not n.endswith('.py')])
        r = subprocess.run(['git', 'apply', '--directory', '', f'{ROOT}/seeded/{sid}/patch.diff'], cwd=tmp, capture_output=True, text=True)
        if r.returncode:
            return sid, [('APPLY', r.stderr)]
        core.REPO = tmp
        for p in props:
            try:
                res = importlib.import_module(f'hcsa.rules.{p.lower()}').check('quick')
                known = known_findings(p)
                out.append((p, [f'{f.where} {f.key}' for f in res.findings if f.key not in known]))
            except Exception as e:
                out.append((p, f'BROKEN {e!r}'))
    finally:
        shutil.rmtree(tmp)
    return sid, out


if __name__ == '__main__':
    claimed = [c['property_id'] if 'property_id' in c else c.get('property') for c in json.load(open(f'{ROOT}/MANIFEST.json'))['checks']]
    ids = sys.argv[1:] or sorted(os.listdir(f'{ROOT}/seeded'))
    jobs = []
    for s in ids:
        own = json.load(open(f'{ROOT}/seeded/{s}/meta.json'))['property']
        jobs.append((s, claimed if os.environ.get('SEED_ALL') else [own]))
    with ProcessPoolExecutor(8) as ex:
        for sid, out in ex.map(run, jobs):
            for p, fs in out:
                if fs or not os.environ.get('SEED_ALL'):
                    print(f'{sid}: {p} {"MISSED" if not fs else ""} {fs if isinstance(fs, str) else fs[:3]}')
