import sys,os,subprocess
sys.path.insert(0,'/tmp/refac')
from bank import R
n=sys.argv[1]; d='/tmp/refac/x_'+n
subprocess.run(['rm','-rf',d]); os.makedirs(d)
subprocess.run("git -C /repo archive HEAD | tar x -C "+d,shell=True,check=True)
for e in R[n]:
    f='tg.c'; o,nw=e[-2],e[-1]
    if len(e)==3: f=e[0]
    p=os.path.join(d,f); s=open(p).read(); s=s.replace(o,nw,1); open(p,'w').write(s)
print(d)
