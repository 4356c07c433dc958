#!/usr/bin/env python3
"""automut.py TREE SEED COUNT [path-substring]: random one-line mutations of TREE's sources (a scratch clone), all checks run on each; prints those no check reports."""
import subprocess,sys,re,os,random
from concurrent.futures import ThreadPoolExecutor
REPO,seed,count=sys.argv[1],int(sys.argv[2]),int(sys.argv[3]); sub=sys.argv[4] if len(sys.argv)>4 else ""
os.environ["P2P_REPO"]=REPO; os.environ["P2P_KEEP"]="14"
FILES=[l for l in subprocess.run("git ls-files '*/src/*.rs'",shell=True,cwd=REPO,capture_output=True,text=True).stdout.split() if not re.search(r"_mol\.rs|_generated|upnp|browser|wasm|/tests?/|protocols/|simple|benches|examples",l) and sub in l]
SWAP=[(" < "," <= "),(" > "," >= "),(" <= "," < "),(" >= "," > "),(" == "," != "),(" != "," == "),(" && "," || "),(" || "," && "),("true","false"),("false","true"),(" + 1"," + 2"),(" - 1",""),("is_some()","is_none()"),("is_empty()","is_empty() == false"),("Priority::High","Priority::Normal"),("push_back","push_front"),("push_high(","push("),("continue;","break;"),("break;","continue;"),("return;","{}"),("remove(","get("),("insert(","get(")]
def cands(f):
    out=[]; ls=open(REPO+"/"+f).read().split("\n"); mac=0
    for i,l in enumerate(ls):
        if l.startswith("#[cfg(test") or l.startswith("#[cfg(all(test"): break
        s=l.strip()
        if re.match(r"(debug|trace|warn|error|info)!\(",s) and not s.endswith(");"): mac=1
        if mac:
            if s.endswith(");") or s==")": mac=0
            continue
        if not s or s.startswith(("//","use ","#","pub use","fn ","pub fn","impl","struct","pub struct","mod ","pub mod")) or re.match(r"(debug|trace|warn|error|info)!\(",s): continue
        if re.match(r"(self\.|\*|[a-z_]+(\.[a-z_]+)*(\(| [-+&|]?= )).*;$",s) and not s.startswith(("let ","return","assert")) and s.count("(")==s.count(")"): out.append((i,l,re.sub(r"\S.*","{}",l)))
        m=re.match(r"(\s*(?:\} else )?if )(?!let )(.*) \{$",l)
        if m: out.append((i,l,"%s!(%s) {"%(m.group(1),m.group(2))))
        for a,b in SWAP:
            if a in l: out.append((i,l,l.replace(a,b,1)))
    return out
allc=[(f,)+c for f in FILES for c in cands(f)]
random.seed(seed); random.shuffle(allc)
def one(c):
    x=subprocess.run(["python3","/verif/lib/core.py",c],capture_output=True,text=True); return c,x
def reset(): subprocess.run("git checkout -q -- .",shell=True,cwd=REPO)
print(len(allc),"candidates",flush=True); done=0
for f,i,old,new in allc:
    if done>=count: break
    reset(); p=REPO+"/"+f; ls=open(p).read().split("\n"); ls[i]=new; open(p,"w").write("\n".join(ls))
    x=subprocess.run("RUSTUP_TOOLCHAIN=stable CARGO_TARGET_DIR=%s-target cargo check --offline -q -p tentacle --features ws,molc,unstable"%REPO,shell=True,cwd=REPO,capture_output=True,text=True)
    if x.returncode: continue
    done+=1; cs=["C%02d"%k for k in range(1,31) if k not in(16,30)]
    res=[one(cs[0])]
    with ThreadPoolExecutor(4) as ex: res+=list(ex.map(one,cs[1:]))
    hit=[c for c,x in res if x.returncode]
    if not hit: hit=[c for c in("C16","C30") if one(c)[1].returncode]
    print("%s %s:%d | %s => %s | %s"%("caught" if hit else "QUIET ",f,i+1,old.strip(),new.strip(),",".join(hit)),flush=True)
reset()
