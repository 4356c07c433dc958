"""For every poll function (all Future/Stream/Sink/AsyncRead/AsyncWrite implementations of the workspace, private
helpers inlined): no path returns not-ready unless on that path an inner poll with the caller's context was not ready,
the caller's waker was stored or registered, or a wake-up was requested; and no path returns not-ready after an inner
source yielded an item unless that source was polled again or a wake-up was requested."""
from core import *
CONFIGS=["molc","async"]
ASSUMES=["An inner poll function of a dependency that returns Pending has registered the waker of the context it was given (the documented contract of Future/Stream/Sink/AsyncRead/AsyncWrite)",
 "Poll functions supplied by the application through the handler traits keep the same contract"]
TRAITS=("Future","Stream","Sink","AsyncRead","AsyncWrite")
def poll_roots(ck):
    out=[]
    for b in ck.p.bodies.values():
        if b.kind!="method" or not b.trait: continue
        t=b.trait.split("<")[0].split("::")[-1]
        if t in TRAITS and b.name.startswith("poll"): out.append(b)
    # other functions with a Context that return Poll and are visible outside their module
    for b in ck.p.bodies.values():
        if b.kind in("method","fn") and not b.trait and "task::Poll<" in b.locals[0][2][:24] and b.vis=="pub" and any("Context" in l[2] for l in b.locals[1:b.argc+1]): out.append(b)
    return sorted(out,key=lambda b:b.qual)
def is_poll_trait(c):
    d=c["d"]
    return last(d).startswith("poll") and any(("::"+t+"::") in d for t in TRAITS)
def inner_polls(r):
    """call nodes that poll something else with the caller's context"""
    out={}
    for n in r.nodes("call"):
        if n.data[1][0]!="fn" or n.extra is not None: continue
        nm=last(n.data[1][1]["d"])
        if not nm.startswith("poll") : continue
        a=r.args(n)
        if any(strip_cast(x)==("p",2) or has(x,lambda y:y==("p",2)) for x in a[1:]): out[n.id]=(nm,a[0] if a else None)
    return out
def reaching(p,name):
    """functions that (transitively) call something of that name"""
    calls={}; out=set()
    for b in p.bodies.values():
        for bl in b.blocks:
            t=bl["t"]
            if t[0]=="call" and t[1][0]=="fn":
                calls.setdefault(t[1][1]["k"],set()).add(b.key)
                if last(t[1][1]["d"])==name and t[1][1]["kr"] not in WORKSPACE: out.add(b.key)
                if last(t[1][1]["d"])==name and "Receiver" in t[1][1]["q"]: out.add(b.key)
    todo=list(out)
    while todo:
        k=todo.pop()
        for c in calls.get(k,()):
            if c not in out: out.add(c); todo.append(c)
    return out
SMALL=12
BIG=re.compile(r'<tentacle::(service::Service|session::Session)( |<)')
def wakerclosure(ck,e):
    for x in subs(e):
        if x[0]=="closure":
            b=ck.p.bodies.get(x[1])
            if b is not None and any(bl["t"][0]=="call" and bl["t"][1][0]=="fn" and last(bl["t"][1][1]["d"])=="waker" for bl in b.blocks): return True
    return False
SOURCES=("poll_next","poll_next_unpin","poll_accept","poll_read","poll_incoming")
def issrc(e,key):
    e=strip_cast(e)
    while e[0]=="pollok": e=strip_cast(e[1])
    return e[0]=="call" and last(e[1]) in SOURCES and repr(e[2][0])==key
def one(ck,b):
    opaque=lambda c: c["kr"] in WORKSPACE and is_poll_trait(c) and c["k"]!=b.key
    closers=reaching(ck.p,'close')
    # a function without a Context (or a waker) can neither poll nor register
    only=lambda x: x.kind in('closure','coroutine') or x.key in closers or len(x.blocks)<SMALL or any('Context' in l[2] or 'Waker' in l[2] for l in x.locals[1:x.argc+1])
    r=Root(ck,b,opaque=opaque,only=only if BIG.match(b.qual) else None)
    ip=inner_polls(r)
    cx=lambda e: has(e,lambda y:y==("p",2))
    wakes=set()
    regs=set()
    for n in r.nodes("call"):
        if n.extra is not None or n.data[1][0]!="fn": continue
        nm=last(n.data[1][1]["d"])
        if nm in("wake","wake_by_ref") and any(cx(x) for x in r.args(n)): wakes.add(n.id)
        elif nm=="register" and any(has(x,CALL("waker")) and cx(x) for x in r.args(n)): regs.add(n.id)
    for n in r.nodes("assign"):
        if n.data[0][1] and any(p[0]=="f" for p in n.data[0][1]):
            v=r.value(n)
            if (has(v,CALL("waker")) or wakerclosure(ck,v)) and cx(v): regs.add(n.id)
    ck.stats["sites"]+=len(ip)
    shut={n.id for n in r.calls("store") if K(True)(r.args(n)[1]) and fld("Service.shutdown")(r.args(n)[0])}
    name=b.qual
    # --- which edges say "inner poll not ready"
    ipcalls={}
    def inner_expr(e):
        e=strip_cast(e)
        while True:
            if e[0]=="call" and last(e[1]) in("map","map_err","map_ok","is_pending","branch") and e[2]: e=strip_cast(e[2][0]); continue
            if e[0]=="pollok": e=strip_cast(e[1]); continue
            break
        return e[0]=="call" and last(e[1]).startswith("poll") and any(cx(x) for x in e[2][1:])
    def pend(f):
        if f[0] in("is","isq") and "Pending" in f[2] and len(f[2])==1: return any(inner_expr(x) for x in alts(f[1]))
        return False
    pe=r.edge(pend)
    empt=drains(r)
    pends=r.exits(lambda v: v is not None and v[0]=="v" and v[1]=="Pending")
    unk=r.exits(lambda v: v is None or v[0]!="v" or not v[1])
    ck.stats["sites"]+=len(pends)
    def node(q,nid):
        if nid in wakes or nid in regs: return None
        return upd(empt,q,nid)
    def edge(q,nid,i):
        if pe(nid,i): return None
        return upd_edge(r,empt,q,nid,i)
    p=r.query(frozenset(),node,edge,lambda q,s: s in pends,memo=True)
    ck.ob("pending-registers",name,p is None,r._where(p),"returns not-ready on a path where nothing was asked to wake the task",r.trail(p))
    # a result passed through must come from an inner poll (or a value that is itself such a result)
    if unk:
        def node2(q,nid):
            if nid in wakes or nid in regs or nid in ip: return None
            return upd(empt,q,nid)
        p=r.query(frozenset(),node2,edge,lambda q,s: s in unk,memo=True)
        ck.ob("passes-through",name,p is None,r._where(p),"returns a result that is not known to come from an inner poll",r.trail(p))
    # --- sources that yielded must be polled again
    groups={}
    for nid,(nm,recv) in ip.items():
        if nm in SOURCES: groups.setdefault(repr(recv),[]).append(nid)
    for key,nids in groups.items():
        recv=ip[nids[0]][1]
        isrc=lambda e: issrc(e,key)
        def yields(f):
            if f[0]=="is" and f[2]==frozenset(["Ready"]): return any(isrc(x) for x in alts(f[1]))
            return False
        def ended(f):
            # the item edge says the source ended or failed
            if f[0] in("is",) and f[2]<=frozenset(["None","Err"]): return has(f[1],lambda y: y[0]=="d" and y[2]=="Ready" and isrc(y[1]))
            return False
        # a source that was closed, or whose owner announced its shutdown, has nothing more to say
        over={n.id for n in r.calls("close") if repr(r.args(n)[0])==key}|shut
        starts=r.after_edges(r.edges_where(yields))
        if not starts: continue
        en=r.edge(ended); ns=set(nids)
        def node3(q,nid):
            if nid in wakes or nid in regs or nid in ns or nid in over: return None
            return upd(empt,q,nid)
        def edge3(q,nid,i):
            if en(nid,i): return None
            return upd_edge(r,empt,q,nid,i)
        p=r.query(frozenset(),node3,edge3,lambda q,s: s in pends,starts,memo=True)
        ck.ob("drained-source","%s of %s"%(label(recv),name),p is None,r._where(p,0),"returns not-ready after %s yielded an item, without polling it again or asking to be woken"%label(recv),r.trail(p))
def label(e):
    s=show(e)
    return s if len(s)<70 else s[:70]
def drains(r):
    """collections that some call empties, and the calls that fill them again"""
    out={}
    for n in r.nodes("call"):
        if n.data[1][0]!="fn" or n.extra is not None: continue
        nm=last(n.data[1][1]["d"]); a=n.data[2]
        if not a: continue
        if nm in("split_off","take","clear","replace","push","push_back","insert","extend","append"):
            e=r.args(n)
            x=strip_cast(e[0])
            if x[0]!="f": continue
            if nm=="split_off" and not(len(e)>1 and K(0)(e[1])): continue
            if nm=="replace": continue
            out[n.id]=("drain" if nm in("split_off","take","clear") else "fill",x)
    keys={repr(x) for k,x in out.values() if k=="drain"}
    return {n:(k,repr(x)) for n,(k,x) in out.items() if repr(x) in keys}
def upd(empt,q,nid):
    v=empt.get(nid)
    if v is None: return q
    return q|{v[1]} if v[0]=="drain" else q-{v[1]}
def upd_edge(r,empt,q,nid,i):
    if q:
        f=r.u.edge_fact(nid,i)
        if f is not None and f[0]=="cmp" and f[1]=="Ne" and K(0)(f[3]) and f[2][0]=="len" and repr(strip_cast(f[2][1])) in q: return None
    return q
def run(ck):
    roots=poll_roots(ck)
    if ck.cfg=="async": roots=[b for b in roots if b.crate=="tentacle"]    # the other crates are the same in both
    ck.floor("poll-functions","poll functions",len(roots),{"molc":60,"async":30}[ck.cfg])
    for b in roots: one(ck,b)
RULES=[("pending-registers",["molc","async"],run)]
