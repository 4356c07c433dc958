#!/usr/bin/env python3
"""refac.py FILE [-x] [ids...]: applies all records of FILE (`@@ name path` / -old / +new) together to /tmp/mrepo and runs every check; all must be quiet.
-x: one record at a time."""
import subprocess,sys,re,os
from concurrent.futures import ThreadPoolExecutor
REPO="/tmp/mrepo"; os.environ["P2P_REPO"]=REPO
def reset(): subprocess.run("git -C %s fetch -q && git -C %s reset -q --hard origin/main"%(REPO,REPO),shell=True)
args=[a for a in sys.argv[2:] if a!="-x"]; single="-x" in sys.argv
only=[a for a in args if re.match(r"C\d\d$",a)]; names=[a for a in args if a not in only]
recs=[];cur=None
for l in open(sys.argv[1]):
    l=l.rstrip("\n")
    if l.startswith("@@ "):
        _,n,path=l.split(" ",2); cur=[n,path,[],[]]; recs.append(cur)
    elif l.startswith("-"): cur[2].append(l[1:])
    elif l.startswith("+"): cur[3].append(l[1:])
if names: recs=[r for r in recs if r[0] in names]
def apply(rs):
    for n,path,old,new in rs:
        p=REPO+"/"+path; src=open(p).read(); o="\n".join(old)
        if src.count(o)!=1: print("  NOT APPLIED",n,src.count(o),"times",old[0][:60]); continue
        open(p,"w").write(src.replace(o,"\n".join(new),1))
def one(c):
    x=subprocess.run(["python3","/verif/lib/core.py",c],capture_output=True,text=True); return c,x
def run(label):
    x=subprocess.run("cd %s && RUSTUP_TOOLCHAIN=stable CARGO_TARGET_DIR=/tmp/mrepo-target cargo check --offline -q -p tentacle --features ws,molc,unstable 2>&1 | grep -A8 '^error' | head -40"%REPO,shell=True,capture_output=True,text=True)
    if x.stdout.strip(): print(label,"DOES NOT COMPILE\n",x.stdout); return
    cs=only or ["C%02d"%i for i in range(1,31)]
    first=one(cs[0]); res=[first]
    with ThreadPoolExecutor(5) as ex: res+=list(ex.map(one,cs[1:]))
    bad=[(c,x) for c,x in res if x.returncode!=0]
    print(label,"all quiet" if not bad else "%d not quiet"%len(bad),flush=True)
    for c,x in bad:
        print("  ",c,x.returncode,"; ".join(re.findall(r"^  (\[.*)$",x.stdout,re.M))[:700],x.stderr[-300:] if x.returncode!=1 else "",flush=True)
if single:
    for r in recs: reset(); apply([r]); run(r[0])
else: reset(); apply(recs); run("batch of %d"%len(recs))
reset()
