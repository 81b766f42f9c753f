import sys,os,subprocess,shutil
sys.path.insert(0,'/tmp/refac')
from bank import R
props=os.environ.get("P","").split() or [f[:3].upper() for f in sorted(os.listdir('/verif/checks')) if f[0]=='p' and f.endswith('.py')]
names=sys.argv[1:] or list(R)
from concurrent.futures import ThreadPoolExecutor
def one(n):
    d='/tmp/refac/w_'+n
    subprocess.run(['rm','-rf',d]); os.makedirs(d)
    subprocess.run("git -C /repo archive HEAD | tar x -C "+d,shell=True,check=True)
    out=[]
    for e in R[n]:
        f='tg.c'; o,nw=e[-2],e[-1]
        if len(e)==3: f=e[0]
        p=os.path.join(d,f); s=open(p).read()
        if s.count(o)<1: return n,["EDIT DOES NOT MATCH: "+o[:60]]
        s=s.replace(o,nw,1); open(p,'w').write(s)
    r=subprocess.run(['gcc','-fsyntax-only','-Wall','-Wno-unused','tg.c'],cwd=d,capture_output=True,text=True)
    if r.returncode: out.append("COMPILE "+r.stderr[:300])
    for p in props:
        r=subprocess.run(['python3','/verif/check.py',p],env=dict(os.environ,TGSA_REPO=d),capture_output=True,text=True)
        if r.returncode: out.append("%s rc=%d %s"%(p,r.returncode,"\n     ".join(l[:200] for l in (r.stdout+r.stderr[-300:]).splitlines() if not l.startswith("      "))[:700]))
    subprocess.run(['rm','-rf',d])
    return n,out
with ThreadPoolExecutor(3) as ex:
    for n,o in ex.map(one,names): print(n,"OK" if not o else "\n   "+"\n   ".join(o),flush=True)
