"""mix.py FILE.. [-a]: header '@@ PROP NAME FILE' (bug) or '@@ keep NAME FILE'; -a: all properties for bugs"""
import sys, re, os, importlib
sys.dont_write_bytecode=True
sys.path.insert(0,'/verif'); sys.setrecursionlimit(20000)
from concurrent.futures import ProcessPoolExecutor
from hcsa.core import Project, AnalysisBroken, REPO
from hcsa.report import known_findings
import json
ALL=[c['property'] for c in json.load(open('/verif/MANIFEST.json'))['checks']]
def load(f):
    for blk in re.split(r'^@@ ', open(f).read(), flags=re.M)[1:]:
        head, body = blk.split('\n',1); kind,name,rel=head.split()[:3]
        edits=[]
        for part in body.rstrip('\n').split('\n&&&&\n'):
            r=rel
            m=re.match(r'FILE (\S+)\n',part)
            if m: r=m.group(1); part=part[m.end():]
            old,new = part.split('\n====\n') if '\n====\n' in part else (part[:-5] if part.endswith('\n====') else part,'')
            edits.append((r,old,new))
        yield kind,name,edits
def run(j):
    kind,name,edits,props=j
    ov={}
    for r,old,new in edits:
        s=ov.get(r) or open(os.path.join(REPO,r)).read()
        if s.count(old)!=1: return kind,name,f'BADCASE {s.count(old)} {old[:70]!r}',{}
        ov[r]=s.replace(old,new)
    try:
        for r in ov: compile(ov[r],r,'exec')
    except SyntaxError as e: return kind,name,'SYNTAX '+str(e),{}
    Project.default_overlay=ov
    out={}
    for p in props:
        try:
            res=importlib.import_module('hcsa.rules.'+p.lower()).check('quick')
        except AnalysisBroken as e: out[p]=['BROKEN '+str(e)]; continue
        except Exception as e: out[p]=['CRASH '+repr(e)]; continue
        k=known_findings(p)
        n=[f'{f.where} {f.key}' for f in res.findings if f.key not in k]
        if n: out[p]=n
    return kind,name,'',out
if __name__=='__main__':
    a='-a' in sys.argv; v='-v' in sys.argv; sel=[x[1:] for x in sys.argv if x.startswith('=')]
    jobs=[]
    for f in sys.argv[1:]:
        if f[0] in '-=': continue
        for kind,name,edits in load(f):
            if sel and name not in sel: continue
            props = ALL if kind=='keep' or a else [p for p in kind.split(',') if p in ALL] or ALL
            jobs.append((kind,name,edits,props))
    ok=0; n=0
    with ProcessPoolExecutor(int(os.environ.get('NP','8'))) as ex:
        for kind,name,err,out in ex.map(run,jobs):
            n+=1
            good = not err and (not out if kind=='keep' else bool(out))
            ok+=good
            if not good or v: print('ok  ' if good else 'FAIL',kind,name,err,{k:x[:3] for k,x in out.items()})
    print(f'{ok}/{n}')
