"""Every write of a stream's two window counters is enumerated and must be one of: consume exactly the announced
length of a received data frame on a path that compared it with the window; re-grant of max - unread - window,
sent to the remote as that very amount; consume exactly the bytes handed to the session, at most the window and
the caller's buffer; add the remote's grant with an overflow check. Excess leads to a protocol error on every path."""
from ymx import *
CONFIGS=["molc"]
ASSUMES=["Arithmetic of u32 in release builds wraps; the rules exclude the underflows by the comparisons they demand",
 "Bytes::len/split_to and futures' channels behave as documented"]
FLEN=fld("Header.length")
RW=fld("StreamHandle.recv_window"); SW=fld("StreamHandle.send_window"); MAX=fld("StreamHandle.max_recv_window")
BUF=fld("StreamHandle.read_buf")
DELTA=SUM([MAX],[LEN(BUF),RW])

def writers(ck):
    roots=[ck.root(q) for q in STREAM_ROOTS]
    an=set().union(*[r.g.analysed for r in roots])
    for f in("recv_window","send_window","max_recv_window","read_buf"):
        for b,what in ck.writers("StreamHandle."+f):
            ck.ob("window-writers","%s written in %s"%(f,b.name),b.key in an or what=="agg",b.span,
                  "%s is written by a function outside the analysed stream operations"%f)
    n=0
    for r in roots:
        for w in r.writes("StreamHandle.recv_window"):
            v=r.value(w); n+=1
            ok=SUM([RW],[FLEN])(v) or SUM([RW],[])(v) or SUM([RW,MAX],[LEN(BUF),RW])(v)
            ck.ob("recv-window-value","%s"%w.body.name,ok,r.loc(w),"recv_window becomes %s: neither the window minus the frame's length nor the window plus the re-grant"%show(v))
        for w in r.writes("StreamHandle.send_window"):
            v=r.value(w); n+=1
            add=all(AND(CALL("checked_add",SW,FLEN))(unwrap_some(x)) for x in alts(v))
            sub=SUM([SW],[OR(MINSEND)])(v)
            ck.ob("send-window-value","%s"%w.body.name,add or sub,r.loc(w),"send_window becomes %s: neither the checked sum with the remote's grant nor the window minus the bytes just sent"%show(v))
        ck.ob("window-constant","max_recv_window in %s"%r.body.name,not r.writes("StreamHandle.max_recv_window"),r.body.span,"the configured window changes after creation")
    ck.floor("window-writers","window updates",n,4)
def unwrap_some(e):
    # payload of Some produced by checked_add()? 
    e=strip_cast(e)
    if e[0]=="f" and e[1][0]=="d" and e[1][2]=="Some": return e[1][1]
    return e
BUFARG=LEN(P(3))
def MINSEND(e):
    e=strip_cast(e)
    if e[0]=="min": return any(SW(x) for x in e[1:]) and any(BUFARG(x) for x in e[1:])
    return False

def accept(ck):
    r=ck.root(READ)
    cons=[w for w in r.writes("StreamHandle.recv_window") if SUM([RW],[FLEN])(r.value(w))]
    ck.floor("recv-guard","places consuming the receive window",len(cons),1,r.body.span)
    r.guarded("recv-guard","consume",cons,LE(FLEN,RW),"a data frame is accepted without comparing its length with the granted window")
    # data reaches the read buffer only under the same comparison, and is always accounted
    st=r.writes("StreamHandle.read_buf")
    ck.floor("recv-guard","places storing received data",len(st),1)
    r.guarded("recv-guard","store",st,LE(FLEN,RW),"received data is stored without comparing its length with the granted window")
    polls=[n for n in r.calls("poll_next") if fld("StreamHandle.frame_receiver")(r.args(n)[0])]
    p=r.path(st,r.exits()|set(r.states_of(polls)),avoid=cons)
    p2=r.path(None,st,avoid=cons)
    ck.ob("recv-consume","data accounted",p is None or p2 is None,r._where(p,0),"received data can be kept without consuming the window",r.trail(p))
    # excess is fatal
    exc=r.edge(CMP("<",RW,FLEN))
    ex=[(n.id,i) for n in r.nodes("switch") for i in range(len(n.succ)) if exc(n.id,i)]
    ck.floor("excess-fatal","comparisons rejecting excess data",len(ex),1)
    dst=set()
    for nid,i in ex:
        for s in r.u.by_node.get(nid,[]):
            dst|={d for d,j in r.u.succ[s] if j==i}
    goaway=[n for n in r.calls("unbounded_send") if AGG("StreamEvent","GoAway")(r.args(n)[1])]
    badexit=r.exits(lambda v: not(v and v[0]=="v" and v[1]=="Ready" and dict(v[2]).get("0",(0,0))[1]=="Err"))
    p=r.u.find_path(list(dst),lambda s: s in badexit)
    ck.ob("excess-fatal","error result",p is None,r._where(p,0),"a remote exceeding its window does not end the read with an error",r.trail(p))
    ex2=r.exits()
    gids={n.id for n in goaway}
    p=r.u.find_path(list(dst),lambda s: s in ex2,lambda nid: nid in gids)
    ck.ob("excess-fatal","session told",p is None,r._where(p,0),"a remote exceeding its window is not cut off (no go-away to the session)",r.trail(p))

def regrant(ck):
    r=ck.root(READ)
    gr=[w for w in r.writes("StreamHandle.recv_window") if not SUM([RW],[FLEN])(r.value(w))]
    ck.floor("regrant","places re-granting window",len(gr),1)
    wu=[(n,h) for n,h in sends(r,"WindowUpdate")]
    for n,h in wu:
        ok=K(0)(h["length"]) or DELTA(h["length"])
        ck.ob("regrant-amount","in %s"%n.body.name,ok,r.loc(n),"a window update announces %s, not max - unread - window"%show(h["length"]))
    gn=[n for n,h in wu if not K(0)(h["length"])]
    ck.floor("regrant","window updates with a grant",len(gn),1)
    for w in gr:
        ck.ob("regrant-amount","stored",SUM([RW,MAX],[LEN(BUF),RW])(r.value(w)) ,r.loc(w),"the window grows by %s, not by max - unread - window"%show(r.value(w)))
    r.follow("regrant-sent","grant is announced",gr,gn,"the window grows without the remote being told")
    r.precede("regrant-sent","announced grant is recorded",gr,gn,"the remote is granted window that is not recorded")
    split=r.calls("split_to","advance","split_off","take")
    split=[n for n in split if BUF(r.args(n)[0])]
    ck.floor("regrant","places taking bytes from the read buffer",len(split),1)
    r.precede("regrant-after-read","order",split,gr,"window is re-granted before the bytes left the read buffer")
    # after a read while the receive side is open the re-grant is considered
    dec=[n for n in r.nodes("switch") if any(f[0]=="cmp" and (DELTA(f[2]) or DELTA(f[3])) for f in r.u.facts.of(n.id))]
    ck.floor("regrant","decisions on sending a window update",len(dec),1)
    closed=r.edge(IS(fld("StreamHandle.state"),"RemoteClosing","Closed","Reset","LocalClosing"))
    p=r.path(split,r.exits(),avoid=dec,avoid_edge=closed)
    ck.ob("regrant-after-read","read leads to re-grant",p is None,r._where(p,0),"bytes can be read from an open stream without the window ever being re-granted",r.trail(p))
    # the update is omitted only while less than half the window is to be granted and no flag is pending
    half=lambda e: BIN("Div",MAX,K(2))(e) or BIN("Shr",MAX,K(1))(e)
    for n in dec:
        for f in r.u.facts.of(n.id):
            if f[0]=="cmp": ck.ob("regrant-threshold","in %s"%n.body.name,any(half(x) for x in f[2:4]) or any(K(0)(x) for x in f[2:4]),r.loc(n),"re-granting is withheld by an unexpected threshold: %s"%show(f))

def send(ck):
    r=ck.root(WRITE)
    data=sends(r,"Data")
    ck.floor("send-bound","data frames sent",len(data),1)
    for n,h in data:
        ln=h["length"]; body=h["body"]
        b=payload_some(body)
        idx=slice_of(b)
        ok=idx is not None and idx[0]==("p",3) and MINSEND(idx[1])
        ck.ob("send-bound","frame body",ok,r.loc(n),"a data frame carries %s, not the first min(window, buffer) bytes of the caller's buffer"%show(body))
        ck.ob("send-bound","frame length field",LEN(lambda e: e==b)(ln) or MINSEND(ln),r.loc(n),"the length field is %s, not the length of the body"%show(ln))
    nodes=[n for n,_ in data]
    w=r.writes("StreamHandle.send_window")
    ck.floor("send-account","window consumption",len(w),1)
    okx=r.exits(lambda v: v and v[0]=="v" and v[1]=="Ready" and dict(v[2]).get("0",(0,0))[1]=="Ok")
    ck.floor("send-account","successful exits",len(okx),1)
    p=r.path(nodes,okx,avoid=w)
    ck.ob("send-account","sent bytes are charged",p is None,r._where(p,0),"bytes are sent without being charged to the window",r.trail(p))
    p=r.path(w,set(r.states_of(w)))
    ck.ob("send-account","charged once",p is None,r._where(p,0),"the window is charged twice for one write",r.trail(p))
    p=r.path(None,okx,avoid=nodes)
    ck.ob("send-account","success means sent",p is None,r._where(p,0),"a write succeeds without sending anything",r.trail(p))
    rets=[n for n in r.nodes("assign") if n.data[1][0]=="agg" and n.data[1][3]=="Ok" and n.ctx==0]
    for n in rets:
        v=dict(r.value(n)[3]).get("0")
        ck.ob("send-account","reported count",v is not None and MINSEND(v),r.loc(n),"a write reports %s bytes, not the number sent"%show(v))
def payload_some(e):
    e=strip_cast(e)
    if e[0]=="agg" and e[2]=="Some": return dict(e[3])["0"]
    return e
def slice_of(e):
    """(base, end) of base[..end] / base[0..end], through copies"""
    e=strip_cast(e)
    if e[0]=="call" and last(e[1]) in("to_vec","copy_from_slice","from","to_owned","into") and e[2]: return slice_of(e[2][0])
    if e[0]=="call" and last(e[1])=="index" and len(e[2])==2:
        rg=e[2][1]
        if rg[0]=="agg":
            d=dict(rg[3])
            if "start" in d and not K(0)(d["start"]): return None
            if "end" in d: return (e[2][0],d["end"])
    return None

def credit(ck):
    r=ck.root(READ)
    w=r.writes("StreamHandle.send_window")
    ck.floor("credit","places adding send window",len(w),1)
    r.guarded("credit-checked","overflow",w,IS(CALL("checked_add",SW,FLEN),"Some"),"a grant is added without an overflow check")
    wake=r.calls("core::task::wake::Waker::wake","core::task::wake::Waker::wake_by_ref")
    none=r.edge(ANYF(IS(lambda e: has(e,fld("StreamHandle.writeable_wake")),"None")))
    p=r.path(w,r.exits(),avoid=wake,avoid_edge=none)
    ck.ob("credit-wakes","writer woken",p is None,r._where(p,0),"credit arrives and the waiting writer is not woken",r.trail(p))
    # the error of an overflowing grant is fatal
    ov=r.edge(IS(CALL("checked_add",SW,FLEN),"None"))
    good=r.exits(lambda v: not(v and v[1]=="Ready" and dict(v[2]).get("0",(0,0))[1]=="Err"))
    src=set()
    for n in r.nodes("switch"):
        for i in range(len(n.succ)):
            if ov(n.id,i):
                for s in r.u.by_node.get(n.id,[]): src|={d for d,j in r.u.succ[s] if j==i}
    p=r.u.find_path(list(src),lambda s: s in good) if src else None
    ck.ob("credit-checked","overflow is an error",bool(src) and p is None,r._where(p,0),"an overflowing grant is not an error",r.trail(p))
    wr=ck.root(WRITE)
    pend=wr.exits(lambda v: v and v[1]=="Pending")
    ck.floor("credit-wakes","waiting exits of write",len(pend),1)
    reg=wr.writes("StreamHandle.writeable_wake")
    reg=[n for n in reg if has(wr.value(n),CALL("waker"))]
    p=wr.path(None,pend,avoid_edge=wr.edge(CMP("==",SW,K(0))))
    ck.ob("credit-waits","only without credit",p is None,wr._where(p),"a writer with credit is made to wait",wr.trail(p))
    p=wr.path(None,pend,avoid=reg)
    ck.ob("credit-waits","waker stored",p is None,wr._where(p),"a writer waits for credit without leaving its waker",wr.trail(p))

def initial(ck):
    r=ck.root("tokio_yamux::session::Session::open_stream")
    r2=ck.root(POLL)
    n=0
    W=fld("Config.max_stream_window_size")
    for x in(r,r2):
        for a in x.aggs("StreamHandle"):
            v=dict(x.agg_value(a)[3]); n+=1
            for f in("recv_window","max_recv_window","send_window"):
                ck.ob("initial-window",f,W(v[f]),x.loc(a),"a new stream's %s is %s, not the configured stream window"%(f,show(v[f])))
    ck.floor("initial-window","streams created",n,2)
    t,v,s=ck.p.consts.get("tokio_yamux::config::INITIAL_STREAM_WINDOW",(None,None,""))
    ck.ob("initial-window","protocol default",v is not None and int(v)==262144,s,"the default window both sides assume is %s, not 256 KiB"%v)
    d=ck.root("<tokio_yamux::config::Config as core::default::Default>::default")
    for a in d.aggs("Config"):
        v=dict(d.agg_value(a)[3])["max_stream_window_size"]
        ck.ob("initial-window","configured default",K(262144)(v) or CONST("INITIAL_STREAM_WINDOW")(v),d.loc(a),"default window is %s"%show(v))

RULES=[("window-writers",["molc"],writers),("recv-guard",["molc"],accept),("regrant",["molc"],regrant),("send-bound",["molc"],send),("credit",["molc"],credit),("initial-window",["molc"],initial)]
