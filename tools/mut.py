#!/usr/bin/env python3
"""mut.py FILE: each record `@@ PROPS path\\n-old\\n+new` (multi-line with leading - / +) is applied to /repo, the checks are run, and the file restored."""
import subprocess,sys,re,time,os
REPO=os.environ.get("P2P_REPO","/tmp/mrepo" if os.path.isdir("/tmp/mrepo") else "/repo"); os.environ["P2P_REPO"]=REPO
if REPO!="/repo": subprocess.run("git -C %s fetch -q && git -C %s reset -q --hard origin/main"%(REPO,REPO),shell=True)
recs=[];cur=None
for l in open(sys.argv[1]):
    l=l.rstrip("\n")
    if l.startswith("@@ "):
        _,props,path=l.split(" ",2); cur=[props.split(","),path,[],[]]; recs.append(cur)
    elif l.startswith("-"): cur[2].append(l[1:])
    elif l.startswith("+"): cur[3].append(l[1:])
sel=sys.argv[2:]
for i,(props,path,old,new) in enumerate(recs):
    if sel and str(i) not in sel: continue
    p=REPO+"/"+path; src=open(p).read(); o="\n".join(old); n="\n".join(new)
    if src.count(o)<1: print(i,props,"NOT FOUND",old[0]); continue
    open(p,"w").write(src.replace(o,n,1))
    try:
        for q in props:
            t=time.time(); x=subprocess.run(["python3","/verif/lib/core.py",q.strip("!")],capture_output=True,text=True)
            keys=re.findall(r"^  (\[.*)$",x.stdout,re.M)
            quiet=q.endswith("!")
            v={0:"quiet",1:"ALARM" if keys else "NO RULE"}.get(x.returncode,"BROKEN %s"%(x.stderr[-300:]))
            good=(x.returncode==0)==quiet and (quiet or bool(keys)) and x.returncode in(0,1)
            print("%s %d %s %s: %s | %s %s"%("ok  " if good else "MISS",i,q,path.split("/")[-1],(new[0] if new else "(removed) "+old[0]).strip()[:70],v,"; ".join(keys)[:160]),flush=True)
    finally: open(p,"w").write(src)
