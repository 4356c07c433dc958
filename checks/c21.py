"""Static rules on the count of queued bytes: the counter is written by one addition and one subtraction function of their
argument only; queueing a message adds the length of the very data queued; every item taken from a write queue is either
counted off by its own length or put back, never both or neither; a message the session cannot hand on, and everything that is
drained when a protocol closes, is counted off by its own length; and where a queue is full and the count is above the
configured limit the session (that one only) is reported and closed."""
from que import *
CONFIGS=["molc"]
CT="tentacle::context::SessionContext::"
ASSUMES=["Bytes::len of the same buffer does not change between queueing and writing",
 "A send that races with the closing of its protocol between counting and queueing may stay counted (it is a queue of another task); the count is only used while the session is open"]
CNT=name("pending_data_size")
ADD=lambda r: [n for n in r.calls("fetch_add") if CNT(r.args(n)[0])]
SUBS=lambda r: [n for n in r.calls("fetch_sub") if CNT(r.args(n)[0])]
def counter(ck):
    k=0
    for b in sorted(ck.p.bodies.values(),key=lambda b:b.qual):
        if not live(b) or b.crate!="tentacle": continue
        if not any(p[0]=="f" and p[1]=="pending_data_size" for bl in b.blocks if not bl["c"] for st in bl["s"] if st[0]=="=" and st[2][0] in("ref","use","cp") for p in (st[2][2][1] if st[2][0]=="ref" else [])): continue
        r=Root(ck,b,opaque=lambda c: True,depth=0)
        for n in r.nodes("call"):
            if n.data[1][0]!="fn" or not r.args(n) or not CNT(r.args(n)[0]): continue
            d=last(r.g.decl(n)); k+=1
            if d in("deref","clone","fmt","as_ref","field","borrow"): continue
            ok=d in("load",) or (d=="fetch_add" and within(ck,b,{CT+"incr_pending_data_size"})) or (d=="fetch_sub" and within(ck,b,{CT+"decr_pending_data_size"}))
            ck.ob("counter","%s in %s"%(d,b.qual),ok,r.loc(n),"the count of queued bytes is changed with %s"%d)
    ck.floor("counter","uses of the counter",k,3)
    for f,fn,sel in(("incr_pending_data_size","fetch_add",ADD),("decr_pending_data_size","fetch_sub",SUBS)):
        r=ck.root(CT+f); ns=sel(r)
        ck.floor("counter","change in "+f,len(ns),1,r.body.span)
        for n in ns: ck.ob("counter",f+": by its argument",P(2)(r.args(n)[1]),r.loc(n),"the count is changed by %s"%show(r.args(n)[1])[:60])
        exactly(ck,r,"counter",f,[r.u.start],ns,r.exits(),"the count is not changed","the count is changed twice")
    for c in callers(ck,CT+"incr_pending_data_size"):
        if live(c): ck.ob("counter","raised by "+c.qual,within(ck,c,{CTL+"push_message"}),c.span,"the count is raised outside of the queueing of a message")
    so=ck.root(S+"session_open",opaque=OPQ+("push","extract_peer_id","generate_next_session"))
    v=[n for n in so.nodes("assign") if n.data[1][0]=="agg" and so.value(n)[0]=="agg" and last(so.value(n)[1])=="SessionContext"]
    ck.floor("counter","session contexts made",len(v),1,so.body.span)
    for n in v: ck.ob("counter","starts at nothing",has(dict(so.value(n)[3])["pending_data_size"],lambda e: CALL("new")(e) and strip_cast(e)[2] and strip_cast(e)[2][0]==("c",0)),so.loc(n),"a session starts with count %s"%show(dict(so.value(n)[3])["pending_data_size"])[:60])
def queued(ck):
    r=ck.root(CTL+"push_message",opaque=("SessionController::push",))
    ns=ADD(r); ps=r.calls("SessionController::push")
    ck.floor("queued","counting of a message",len(ns),1,r.body.span)
    for n in ns: ck.ob("queued","by its length",LEN(P(4))(r.args(n)[1]),r.loc(n),"queueing a message raises the count by %s"%show(r.args(n)[1])[:60])
    exactly(ck,r,"queued","message counted",[r.u.start],ns,r.exits(),"a message is queued without being counted","a message is counted twice")
    ck.ob("queued","not lowered",not SUBS(r),r.body.span,"queueing lowers the count")
    for n in ps:
        v=strip_cast(r.args(n)[2]); ck.ob("queued","the counted data is queued",v[0]=="agg" and P(4)(dict(v[3]).get("data",("?",))),r.loc(n),"what is queued is %s"%show(v)[:100])
    m=ck.root(S+"handle_message",opaque=("push_message","SessionController::try_send","fmt"))
    ck.ob("queued","only through push_message",not[n for n in m.calls("SessionController::push","push_high","push_normal")],m.body.span,"a message is queued without being counted")
    mk=[b for b in makers(ck,"SessionEvent","ProtocolMessage")]
    for b in mk: ck.ob("queued","made by "+b.qual,within(ck,b,{CTL+"push_message",SES+"handle_stream_event"}),b.span,"a message for a session is made, and could be queued, without being counted")
def written(ck):
    for t in(SUB,WP):
        nm=t.split("::")[-2]
        r=ck.root(t+"send_data",opaque=("poll_ready","poll_flush","start_send"))
        for q in("high_write_buf","write_buf"):
            pop=POPF(name(q)); item=pay(pop,"Some")
            take=r.edge(IS(pop,"Some")); pops={n.id for n in r.calls("pop_front") if name(q)(r.args(n)[0])}
            sub={n.id for n in SUBS(r) if LEN(item)(r.args(n)[1])}; back={n.id for n in r.calls("push_front") if item(r.args(n)[1])}
            ck.floor("written","%s: counting off %s"%(nm,q),len(sub),1,r.body.span)
            for n in SUBS(r): ck.ob("written","%s: by the length of the item"%nm,any(LEN(pay(POPF(name(x)),"Some"))(r.args(n)[1]) for x in("high_write_buf","write_buf")),r.loc(n),"writing lowers the count by %s"%show(r.args(n)[1])[:80])
            def step(k,x,pops=pops,sub=sub,back=back):
                if x in pops: return "lost" if k==1 else 0
                if x in sub or x in back: return 2 if k==1 else "twice" if k==2 else k
                return k
            ends=r.exits()
            p=r.query(0,step,lambda k,i,ts: 1 if take(i,ts) else k,lambda k,s: k=="lost" or (k==1 and s in ends))
            ck.ob("written","%s %s: counted off or kept"%(nm,q),p is None,r._where(p) if p else r.body.span,"an item taken from %s is neither counted off nor put back"%q,r.trail(p))
            p=r.query(0,step,lambda k,i,ts: 1 if take(i,ts) else k,lambda k,s: k=="twice")
            ck.ob("written","%s %s: once"%(nm,q),p is None,r._where(p) if p else r.body.span,"an item taken from %s is counted off twice, or counted off and put back"%q,r.trail(p))
def refused(ck):
    part=lambda f: lambda e: strip_cast(e)[0]=="f" and strip_cast(e)[2]==f and has(e,P(3))
    r=ck.root(SES+"handle_session_event",assume=under(P(3),"ProtocolMessage"),opaque=OPQ[:-1]+("close_session","close_all_proto","handle_substream","PriorityBuffer::try_send"))
    off=SUBS(r); on=r.calls("PriorityBuffer::push_high","PriorityBuffer::push_normal")
    ck.floor("refused","counting off",len(off),1,r.body.span)
    for n in off: ck.ob("refused","by the length of the message",LEN(part("data"))(r.args(n)[1]) and has(r.args(n)[0],name("context")),r.loc(n),"a message that cannot be passed on lowers the count by %s"%show(r.args(n)[1])[:60])
    none=r.edge(IS(lambda e: name("substreams")(e) or CALL(("get","get_mut"),name("substreams"))(e),"None"))
    exactly(ck,r,"refused","message",[r.u.start],off+on,r.exits(),"a message for a protocol that is not open is dropped and stays counted","a message is passed on and counted off",avoid_edge=none)
    # a protocol that is in the table of protocols has its stream in the table of streams
    for b in sorted(ck.p.bodies.values(),key=lambda b:b.qual):
        if not live(b) or b.crate!="tentacle" or not b.qual.startswith(SES): continue
        x=Root(ck,b,opaque=lambda c: True,depth=0)
        tab=lambda f,ops: [n for n in x.nodes("call") if n.data[1][0]=="fn" and last(x.g.decl(n)) in ops and x.args(n) and strip_cast(x.args(n)[0])[0]=="f" and strip_cast(x.args(n)[0])[2]==f]
        ins=tab("proto_streams",("insert","entry")); sins=tab("substreams",("insert",))
        for n in ins:
            ok=any(strip_cast(x.args(m)[1])==strip_cast(x.args(n)[2]) for m in sins)
            p=x.path(None,[n],avoid=sins) and x.path([n],x.exits(),avoid=sins)
            ck.ob("refused","tables agree: insertion in "+last(b.qual),ok and p is None,x.loc(n),"a protocol is entered without its stream",x.trail(p) if p else "")
        rm=tab("substreams",("remove",)); prm=tab("proto_streams",("remove",))
        for n in rm:
            st=x.after_edges(x.edges_where(IS(CALL("remove",name("substreams")),"Some"))) or x.after_nodes([n])
            p=x.path_from(st,x.exits(),avoid=prm)
            ck.ob("refused","tables agree: removal in "+last(b.qual),p is None,x.loc(n),"a stream is removed and its protocol stays entered",x.trail(p) if p else "")
def drained(ck,r,rule,inst,src,start,msg=True):
    """every item that comes out of src from the start on is counted off once by its length"""
    nx=[n for n in r.calls("next","pop_front","poll_next") if src(r.g.callval(n,0)) or src(strip_cast(r.g.callval(n,0)))]
    ids={n.id for n in nx}
    ck.floor(rule,inst+": takings",len(nx),1,r.body.span)
    def is_item(e): return has(e,lambda x: src(x))
    sub={n.id for n in SUBS(r) if strip_cast(r.args(n)[1])[0] in("len","call","l") and is_item(r.args(n)[1]) and LEN(is_item)(r.args(n)[1])}
    ck.floor(rule,inst+": counted off",len(sub),1,r.body.span)
    take=r.edge(lambda f: f[0]=="is" and f[2]==frozenset(["Some"]) and is_item(f[1]) and not(msg and has(f[1],lambda x: x[0]=="f" and x[2] in("data",))))
    other=r.edge(lambda f: f[0]=="is" and is_item(f[1]) and "Message" not in f[2] and f[2]&frozenset(["Close","Open","Error","SelectError","TimeoutCheck"])) if msg else (lambda i,ts: False)
    def step(k,x):
        if x in ids: return "lost" if k==1 else 0
        if x in sub: return 2 if k==1 else "twice" if k==2 else k
        return k
    def edge(k,i,ts): return 1 if take(i,ts) else 0 if other(i,ts) else k
    ends=r.exits()
    p=r.query(0,step,edge,lambda k,s: k in("lost","twice") or (k==1 and s in ends),starts=start)
    ck.ob(rule,inst+": each counted off once",p is None,r._where(p) if p else r.body.span,"an item that will not be sent any more is not counted off exactly once",r.trail(p))
    return nx
def closed(ck):
    for t in(SUB,WP):
        nm=t.split("::")[-2]
        r=ck.root(t+"close_proto_stream",opaque=OPQ+("poll_next","is_terminated","poll_shutdown","output","take","Buffer::clear","spawn"))
        cl=[n for n in r.calls("close") if name("event_receiver")(r.args(n)[0])]
        ck.floor("closed",nm+": receiver closed",len(cl),1,r.body.span)
        rc=[n for n in r.calls("poll_next") if name("event_receiver")(r.args(n)[0])]
        p=r.path(None,rc,avoid=cl)
        ck.ob("closed",nm+": closed before it is emptied",p is None and bool(rc),r._where(p) if p else r.body.span,"the queue of a closing stream is emptied while more can still be queued",r.trail(p) if p else "")
        for q in("high_write_buf","write_buf"):
            dr=[n for n in r.calls("drain","pop_front") if name(q)(r.args(n)[0])]
            p=r.path(None,r.exits(),avoid=dr)
            ck.ob("closed","%s: %s emptied"%(nm,q),p is None,r._where(p) if p else r.body.span,"a stream closes without taking what is left out of %s"%q,r.trail(p))
            src=lambda e,q=q: (CALL("next")(e) and has(e,CALL("drain",name(q)))) or POPF(name(q))(e)
            drained(ck,r,"closed","%s %s"%(nm,q),src,[r.u.start],msg=False)
        src=lambda e: CALL("poll_next",name("event_receiver"))(e)
        drained(ck,r,"closed",nm+" unread orders",src,[r.u.start])
        end=r.edge(ANYF(TRUE(CALL("is_terminated",name("event_receiver"))),IS(CALL("poll_next",name("event_receiver")),"Pending"),IS(pay(CALL("poll_next",name("event_receiver")),"Ready"),"None")))
        p=r.path(None,r.exits(),avoid_edge=end)
        ck.ob("closed",nm+": emptied to the end",p is None,r._where(p) if p else r.body.span,"a stream closes while its queue was not found empty",r.trail(p))
        # the stream ends only through that
        pn=ck.root("<tentacle::substream::%s as futures_core::stream::Stream>::poll_next"%nm,opaque=OPQ+("close_proto_stream","flush","recv_frame","recv_event","error_close"))
        ends=pn.exits(lambda v: v is not None and v[0]=="v" and v[1]=="Ready" and Unfolded.sub(v,"0") is not None and Unfolded.sub(v,"0")[0]=="v" and Unfolded.sub(v,"0")[1]=="None")
        ck.floor("closed",nm+": ends",len(ends),1,pn.body.span)
        p=pn.path(None,ends,avoid=pn.calls("close_proto_stream"))
        ck.ob("closed",nm+": ends through closing",p is None,pn._where(p) if p else pn.body.span,"a stream ends without counting off what it holds",pn.trail(p))
    r=ck.root(SES+"handle_stream_event",assume=under(P(3),"Close"),opaque=OPQ+("event_output","open_protocol","output"))
    rm=CALL("remove",name("substreams"))
    gone=r.after_edges(r.edges_where(IS(rm,"Some"))); ck.floor("closed","closed streams",len(gone),1,r.body.span)
    for q in("high_buffer","normal_buffer"):
        dr=[n for n in r.calls("drain","pop_front") if name(q)(r.args(n)[0]) and has(r.args(n)[0],rm)]
        p=r.path_from(gone,r.exits(),avoid=dr)
        ck.ob("closed","session: %s emptied"%q,p is None,r._where(p,0) if p else r.body.span,"what waits for a closed stream is dropped without being taken out of %s"%q,r.trail(p))
        src=lambda e,q=q: (CALL("next")(e) and has(e,CALL("drain",lambda x: name(q)(x) and has(x,rm)))) or POPF(lambda x: name(q)(x) and has(x,rm))(e)
        drained(ck,r,"closed","session %s"%q,src,gone)
    # clearing without counting only where the whole session ends
    k=0
    for b in sorted(ck.p.bodies.values(),key=lambda b:b.qual):
        if not live(b) or b.crate!="tentacle" or b.qual.startswith(BUF): continue
        if not any(match_name(bl["t"][1][1]["q"],"PriorityBuffer::clear") for bl in b.blocks if not bl["c"] and bl["t"][0]=="call" and bl["t"][1][0]=="fn"): continue
        x=Root(ck,b,opaque=OPQ+("SessionController::push","SessionController::try_send","PriorityBuffer::clear"))
        for n in x.calls("PriorityBuffer::clear"):
            if n.body is not b: continue
            k+=1
            end=[m for m in x.nodes("assign") if m.data[0][1] and m.data[0][1][-1][0]=="f" and m.data[0][1][-1][1]=="state" and strip_cast(x.value(m))[0]=="agg" and strip_cast(x.value(m))[2]!="Normal"]
            end+=[m for m in x.calls("SessionController::push") if AGG("SessionEvent","SessionClose")(x.args(m)[2])]
            end+=[m for m in x.calls("push_high","push_normal") if AGG("SessionEvent","SessionClose")(x.args(m)[1])]
            ok=x.path(None,[n],avoid=end) is None or x.path([n],x.exits(),avoid=end) is None
            ck.ob("closed","cleared in "+b.qual,ok,x.loc(n),"messages are thrown away without being counted off although the session goes on")
    ck.floor("closed","places that clear queues",k,2)
def stuck(ck):
    over=CMP("<",HAS(name("send_buffer_size")),HAS(CNT))
    r=ck.root(S+"distribute_to_session",opaque=("fmt","SessionController::try_send","handle_error"))
    ctl=lambda e: CALL("next",HAS(name("sessions")))(core_of(e))
    full=r.after_edges(r.edges_where(IS(CALL("try_send",ctl),"Pending")))
    ck.floor("stuck","full queues of a session",len(full),1,r.body.span)
    nxt=set(r.states_of(r.calls("next")))|r.exits()
    p=r.path_from(full,nxt,avoid_edge=r.edge(ANYF(over,CMP("<=",HAS(CNT),HAS(name("send_buffer_size"))))))
    ck.ob("stuck","session: the limit is looked at",p is None,r._where(p,0) if p else r.body.span,"a session's queue is full and its waiting bytes are not compared with the limit",r.trail(p))
    ov=r.after_edges(r.edges_where(over)); ck.floor("stuck","sessions over the limit",len(ov),1,r.body.span)
    rep=[n for n in r.calls("handle_error") if has(r.args(n)[2],AGG("ServiceError","SessionBlocked"))]
    cls=[n for n in r.calls("push_back") if AGG("SessionEvent","SessionClose")(r.args(n)[1])]
    for what,ns,msg in(("reported",rep,"a session over its limit is not reported"),("closed",cls,"a session over its limit is not closed")):
        ck.floor("stuck","session: "+what,len(ns),1,r.body.span)
        p=r.path_from(ov,nxt,avoid=ns)
        ck.ob("stuck","session: "+what,p is None,r._where(p,0) if p else r.body.span,msg,r.trail(p))
        p=r.path(None,ns,avoid_edge=r.edge(over))
        ck.ob("stuck","session: %s only then"%what,p is None,r._where(p) if p else r.body.span,"a session is %s although it is not over the limit"%what,r.trail(p))
        p=r.path(None,ns,avoid_edge=r.edge(IS(CALL("try_send",ctl),"Pending")))
        ck.ob("stuck","session: %s only if full"%what,p is None,r._where(p) if p else r.body.span,"a session is %s although its queue takes more"%what,r.trail(p))
        ids={n.id for n in ns}; nx={n.id for n in r.calls("next")}
        p=r.query(0,lambda k,x: 0 if x in nx else min(2,k+(x in ids)),None,lambda k,s: k==2)
        ck.ob("stuck","session: %s once"%what,p is None,r._where(p) if p else r.body.span,"a session is %s twice"%what,r.trail(p))
    for n in rep: ck.ob("stuck","session: that one is reported",has(r.args(n)[2],lambda e: name("inner")(e) and ctl(e)),r.loc(n),"the session reported is %s"%show(r.args(n)[2])[:100])
    for n in cls:
        a=r.args(n); ck.ob("stuck","session: that one is closed",ctl(a[0]) and name("high_buffer")(a[0]) and ctl(dict(strip_cast(a[1])[3])["id"]),r.loc(n),"the order to close goes to %s"%show(a[0])[:80])
    clr=[n for n in r.calls("clear") if has(r.args(n)[0],name("buffer")) ]
    for n in clr: ck.ob("stuck","session: that queue is emptied",ctl(r.args(n)[0]),r.loc(n),"the queue of %s is emptied"%show(r.args(n)[0])[:80])
    ts={n.id for n in clr}; nx={n.id for n in r.calls("next")}; cs={n.id for n in cls}
    p=r.query(0,lambda k,x: 0 if x in nx else 1 if x in cs else 2 if k==1 and x in ts else k,None,lambda k,s: k==2)
    ck.ob("stuck","session: the order to close is not thrown away",p is None,r._where(p) if p else r.body.span,"the order to close a stuck session is thrown away with its queue",r.trail(p))
    # the session's own queues
    r=ck.root(SES+"distribute_to_substream",opaque=("fmt","PriorityBuffer::try_send"))
    buf=CALL("next",HAS(name("substreams")))
    full=r.after_edges(r.edges_where(IS(CALL("try_send",lambda e: buf(core_of(e))),"Pending"))); ck.floor("stuck","full queues of a stream",len(full),1,r.body.span)
    ab=[m for m in r.nodes("assign") if m.data[0][1] and m.data[0][1][-1][0]=="f" and m.data[0][1][-1][1]=="state" and AGG("SessionState","Abnormal")(r.value(m))]
    nxt=set(r.states_of(r.calls("next")))|r.exits()
    p=r.path_from(full,nxt,avoid_edge=r.edge(ANYF(over,CMP("<=",HAS(CNT),HAS(name("send_buffer_size"))))))
    ck.ob("stuck","stream: the limit is looked at",p is None,r._where(p,0) if p else r.body.span,"a stream's queue is full and the waiting bytes are not compared with the limit",r.trail(p))
    ov=r.after_edges(r.edges_where(over)); ck.floor("stuck","streams over the limit",len(ov),1,r.body.span)
    p=r.path_from(ov,nxt,avoid=ab)
    ck.ob("stuck","stream: the session ends",p is None,r._where(p,0) if p else r.body.span,"a session over its limit goes on",r.trail(p))
    p=r.path(None,ab,avoid_edge=r.edge(over))
    ck.ob("stuck","stream: only then",p is None,r._where(p) if p else r.body.span,"a session is ended although it is not over the limit",r.trail(p))
    for q in(S+"distribute_to_session",SES+"distribute_to_substream"):
        r=ck.root(q,opaque=("fmt","SessionController::try_send","PriorityBuffer::try_send","handle_error"))
        es=r.edges_where(ANYF(over,CMP("<=",HAS(CNT),HAS(name("send_buffer_size")))))
        ck.floor("stuck","comparisons in "+last(q),len(es),1,r.body.span)
        for nid,i in es:
            f=r.u.edge_fact(nid,i); lim,cnt=[x for x in f[2:4] if has(x,name("send_buffer_size"))][0],[x for x in f[2:4] if has(x,CNT)][0]
            ck.ob("stuck","%s: exact comparison"%last(q),name("send_buffer_size")(lim) and CALL("load",CNT)(strip_cast(cnt)),r.loc(r.g.nodes[nid]),"what is compared is %s and %s"%(show(cnt)[:60],show(lim)[:60]))
RULES=[("counter",["molc"],counter),("queued",["molc"],queued),("written",["molc"],written),("refused",["molc"],refused),("closed",["molc"],closed),("stuck",["molc"],stuck)]
