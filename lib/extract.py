"""Rebuilds the facts (MIR export) of /repo's working tree.  One directory per feature configuration, keyed by
the content of every source file, so a run never uses facts of another tree."""
import fcntl, hashlib, os, shutil, subprocess, sys, time
VERIF=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO=os.environ.get("P2P_REPO","/repo")
BUILD=os.path.join(VERIF,"build")
DRIVER=os.path.join(VERIF,"driver","target","release","p2p-facts")
LIBS=["-p","tentacle","-p","tentacle-secio","-p","tokio-yamux","-p","tentacle-multiaddr"]
CONFIGS={
 # the two feature sets of the project's own tests, the non-tokio runtime, and secio's test build (which is where
 # the alternative cipher/key-exchange back ends are compiled on this platform)
 "molc":  (["check","--offline","--lib"]+LIBS+["--features","molc,ws,unstable"],["tentacle","tentacle_secio","tokio_yamux","tentacle_multiaddr"]),
 "flatc": (["check","--offline","--lib","-p","tentacle","-p","tentacle-secio","--features","flatc,unstable"],["tentacle","tentacle_secio"]),
 "async": (["check","--offline","--lib","-p","tentacle","--no-default-features","--features","molc,async-runtime,generic-timer,unstable"],["tentacle"]),
 "alt":   (["check","--offline","--lib","--profile","test","-p","tentacle-secio","--features","molc"],["tentacle_secio.test"]),
}
def source_files():
    out=[]
    for d,ds,fs in os.walk(REPO):
        ds[:]=[x for x in ds if x not in("target",".git")]
        for f in fs:
            if f.endswith((".rs",".toml",".lock")) or f in("rust-toolchain",): out.append(os.path.join(d,f))
    return sorted(out)
def tree_hash():
    h=hashlib.sha256()
    for f in source_files():
        h.update(os.path.relpath(f,REPO).encode()+b"\0")
        with open(f,"rb") as fh: h.update(hashlib.sha256(fh.read()).digest())
    for f in (DRIVER,os.path.abspath(__file__)):
        with open(f,"rb") as fh: h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:20]
def env():
    e=dict(os.environ)
    for k in("RUSTFLAGS","RUST_LOG","CARGO_BUILD_TARGET","RUSTC","CARGO_ENCODED_RUSTFLAGS"): e.pop(k,None)
    home=os.environ.get("HOME") or "/root"
    if not os.path.isdir(os.path.join(home,".cargo")): home="/root"
    e["HOME"]=home
    e["PATH"]=os.path.join(home,".cargo/bin")+":"+e.get("PATH","/usr/local/bin:/usr/bin:/bin")
    e["RUSTUP_TOOLCHAIN"]="nightly"; e["CARGO_NET_OFFLINE"]="true"; e["RUSTC_WRAPPER"]=""; e["CARGO_INCREMENTAL"]="0"; e["CARGO_TERM_COLOR"]="never"
    sysroot=subprocess.run(["rustc","--print","sysroot"],env=e,capture_output=True,text=True,check=True).stdout.strip()
    e["LD_LIBRARY_PATH"]=os.path.join(sysroot,"lib")
    e["RUSTFLAGS"]="-Zallow-features="   # dependencies that probe for nightly features must find none
    return e
def build_driver():
    e=env(); e.pop("LD_LIBRARY_PATH",None); e.pop("RUSTFLAGS",None)
    r=subprocess.run(["cargo","build","--release","--offline"],cwd=os.path.join(VERIF,"driver"),env=e,capture_output=True,text=True)
    if r.returncode: raise SystemExit("building the exporter failed:\n"+r.stdout+r.stderr)
def facts(config,force=False):
    """directory with the exported facts of one configuration"""
    os.makedirs(BUILD,exist_ok=True)
    if not os.path.exists(DRIVER): build_driver()
    lockf=open(os.path.join(BUILD,".lock"),"w"); fcntl.flock(lockf,fcntl.LOCK_EX)
    try:
        for src,dst in(("/opt/vp/locks/root.lock",os.path.join(REPO,"Cargo.lock")),):
            if not os.path.exists(dst): shutil.copy(src if os.path.exists(src) else os.path.join(VERIF,"locks","root.lock"),dst)
        h=tree_hash(); base=os.path.join(BUILD,"facts",h); out=os.path.join(base,config)
        args,want=CONFIGS[config]
        if os.path.exists(os.path.join(out,".complete")) and not force: return out
        # drop facts of other trees
        fd=os.path.join(BUILD,"facts")
        if os.path.isdir(fd):
            old=sorted((os.path.join(fd,x) for x in os.listdir(fd) if x!=h),key=os.path.getmtime)
            keep=int(os.environ.get("P2P_KEEP","2"))  # a development run may work on several trees at once
            for x in old[:-keep] if len(old)>keep else []: shutil.rmtree(x,ignore_errors=True)
        shutil.rmtree(out,ignore_errors=True); os.makedirs(out)
        e=env(); e["RUSTC_WORKSPACE_WRAPPER"]=DRIVER; e["P2P_FACTS_OUT"]=out
        tgt=os.path.join(BUILD,"target"); e["CARGO_TARGET_DIR"]=tgt
        # cargo's freshness cache would skip the exporter: forget the workspace crates
        for fp in(os.path.join(tgt,"debug",".fingerprint"),os.path.join(tgt,"debug","build")):
            if os.path.isdir(fp):
                for x in os.listdir(fp):
                    if x.startswith(("tentacle","tokio-yamux","p2p-")): shutil.rmtree(os.path.join(fp,x),ignore_errors=True)
        t=time.time()
        r=subprocess.run(["cargo"]+args,cwd=os.path.join(REPO,"tentacle"),env=e,capture_output=True,text=True)
        if r.returncode:
            sys.stderr.write(r.stdout[-3000:]+r.stderr[-6000:])
            raise BuildFailed(config)
        for w in want:
            if not os.path.exists(os.path.join(out,w+".json")): raise BuildFailed("%s: no facts for %s"%(config,w))
        open(os.path.join(out,".complete"),"w").write("%.1f"%(time.time()-t))
        return out
    finally:
        lockf.close()
class BuildFailed(Exception): pass
if __name__=="__main__":
    build_driver()
    for c in (sys.argv[1:] or CONFIGS):
        t=time.time(); d=facts(c,force=True); print(c,d,"%.1fs"%(time.time()-t),sorted(os.listdir(d)))
