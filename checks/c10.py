"""The stream's operations are unfolded once per starting state with the state field tracked through every write and test, which gives the whole transition
relation of the code; it must be part of the protocol's, and each transition and each frame must lie behind the flag, result or call that justifies it."""
from ymx import *
from unfold import V
from sec import core_of,names_of,okexit,feeds
CONFIGS=["molc"]
ASSUMES=["one task at a time uses a stream handle (its operations take &mut self)","the session holds the other end of the event channel (C11)"]
TECHNIQUE="typestate: the state field is tracked through the unfolded MIR of every stream operation from each of the eight states and compared with the protocol's transition relation"
OPEN=["Init","SynSent","SynReceived","Established"]
RCV=lambda e: CALL("poll_next",fld("StreamHandle.frame_receiver"))(core_of(e))
def flagbit(bit): return CMP("==",BIN("BitAnd",lambda x: RCV(x) and "flags" in names_of(x),K(bit)),K(bit))
ALLOWED=set([("Init","SynSent"),("SynSent","SynReceived"),("SynReceived","Established"),("Reset","Closed"),("LocalClosing","Closed"),("RemoteClosing","Closed"),("Closed","Closed")]+[(s,"Reset") for s in STATES]+[(s,"RemoteClosing") for s in STATES if s not in("Closed","Reset")]+[(s,"LocalClosing") for s in STATES])
def rt(ck,op,s0): return ck.root(op,opaque=("fmt",),track=["state"],init={"state":V(s0)})
def evs(r,pred): return [n for n in r.calls("unbounded_send") if len(r.args(n))>1 and any(pred(x) for x in alts(r.args(n)[1]))]
def frames(r,pred): return [n for n,h in sends(r) if pred(h)]
def withbit(bit):
    def f(h):
        fl=strip_cast(h["flags"]); v=dict(fl[3]).get("0") if fl[0]=="agg" else None
        return v is not None and (BIN("BitOr",anyx,K(bit))(v) or K(bit)(v))
    return f
def closed(r): return evs(r,AGG("StreamEvent","Closed",_0=fld("StreamHandle.id")))
def changes(r):
    """(state before, node, before, after) of every write to the state field that is reached"""
    for n in r.writes("StreamHandle.state"):
        for s in r.u.by_node.get(n.id,[]):
            a=r.mem(s,"state")
            for d,_ in r.u.succ[s]:
                b=r.mem(d,"state")
                yield s,n,a and a[1],b and b[1],d
def bare(e):
    e=core_of(e)
    while e[0]=="call" and last(e[1])=="map_err": e=core_of(e[2][0])
    return e
def sent(e):
    """the result of telling the session, possibly joined with not having to"""
    xs=[bare(x) for x in alts(core_of(e))]
    return any(CALL("unbounded_send")(x) for x in xs) and all(CALL("unbounded_send")(x) or VAR("Ok")(x) for x in xs)
gonee=lambda r: r.edge(IS(sent,"Err","Break"))
OPS=[("read",READ),("write",WRITE),("flush",FLUSH),("shutdown",SHUT),("drop",DROP)]
def transitions(ck):
    seen=set(); bodies=set()
    for nm,op in OPS:
        for s0 in STATES:
            r=rt(ck,op,s0)
            for n in r.nodes(): bodies.add(n.body.qual)
            fl={}
            for s,n,a,b,d in changes(r):
                seen.add((a,b)); fl.setdefault((a,b,n.id),(s,n,[])); fl[(a,b,n.id)][2].append((s,d))
            for (a,b,_),(s,n,sd) in sorted(fl.items(),key=lambda kv:(str(kv[0]))):
                ck.ob("transition","%s from %s: %s to %s"%(nm,s0,a,b),(a,b) in ALLOWED,r.loc(n),"a stream in state %s becomes %s"%(a,b),r.trail(r.path(None,{s})))
                tgt={x for x,_ in sd}
                def behind(fact,what):
                    p=r.path(None,tgt,avoid_edge=r.edge(fact)); ck.ob("cause","%s from %s: %s to %s"%(nm,s0,a,b),p is None,r._where(p,0) if p else r.loc(n),"a stream becomes %s without %s"%(b,what),r.trail(p))
                ended=ANYF(TRUE(CALL("is_terminated",fld("StreamHandle.frame_receiver"))),IS(RCV,"None"))
                if b=="Reset": behind(flagbit(8),"a reset from the remote")
                elif b=="RemoteClosing": behind(ANYF(flagbit(4),ended),"the remote's finish or the session's end")
                elif b=="SynReceived": behind(flagbit(2),"an acknowledgement")
                elif b=="Closed" and nm=="read" and a=="LocalClosing": behind(flagbit(4),"the remote's finish")
                elif b=="Closed" and nm=="read" and a=="Reset": behind(flagbit(8),"a reset from the remote")
                elif b=="Closed" and nm=="read" and a=="Closed": behind(ANYF(flagbit(4),flagbit(8)),"the remote's finish")
                elif b=="Closed" and nm!="shutdown": ck.ob("cause","%s from %s: %s to %s"%(nm,s0,a,b),False,r.loc(n),"a stream is closed by %s"%nm)
                elif b=="LocalClosing" and nm=="read":
                    ga=evs(r,VAR("GoAway"))
                    p=r.path_from([y for _,y in sd],r.exits(),avoid=ga); q=r.path(None,tgt,avoid=ga) if p else None
                    ck.ob("cause","%s from %s: %s to %s"%(nm,s0,a,b),p is None or q is None,r.loc(n),"a read closes the local side without a protocol error",r.trail(p))
                elif b=="LocalClosing" and nm!="shutdown": ck.ob("cause","%s from %s: %s to %s"%(nm,s0,a,b),False,r.loc(n),"%s closes the local side"%nm)
                elif b in("SynSent","Established"):
                    # announced by a frame with the flag
                    bit={"SynSent":1,"Established":2}[b]
                    w=[m for m,h in sends(r)]
                    p=r.path_from([y for _,y in sd],r.exits(),avoid=w)
                    ck.ob("announce","%s: %s"%(nm,b),p is None,r._where(p,0) if p else r.loc(n),"the frame that carries SYN or ACK is not sent",r.trail(p))
    for want in[("Init","SynSent"),("SynSent","SynReceived"),("SynReceived","Established"),("Established","RemoteClosing"),("Established","LocalClosing"),("LocalClosing","Closed"),("RemoteClosing","Closed"),("Established","Reset"),("Reset","Closed")]:
        ck.ob("transition","%s to %s happens"%want,want in seen,"yamux/src/stream.rs","no operation takes a stream from %s to %s"%want)
    for b,what in ck.writers("StreamHandle.state"):
        ck.ob("transition","%s in %s"%(what,b.name),what=="agg" or b.qual in bodies,b.span,"the state is changed outside the stream's operations")
def announced(ck):
    # SYN exactly from Init, ACK exactly from SynReceived
    for s0 in OPEN:
        r=rt(ck,WRITE,s0)
        vals=set()
        for n in r.aggs("Flags",None):
            if not r.u.by_node.get(n.id): continue
            v=dict(strip_cast(r.agg_value(n))[3]).get("0")
            for x in alts(v): vals.add(strip_cast(x)[1] if strip_cast(x)[0]=="c" else show(x))
        want={"Init":{1},"SynReceived":{2}}.get(s0,{0})
        ck.ob("announce","flags of data sent in %s"%s0,vals==want,r.body.span,"data sent in state %s carries flags %s"%(s0,sorted(map(str,vals))))
    r=ck.root("tokio_yamux::session::Session::create_stream",opaque=("fmt","send_window_update"))
    hs=r.aggs("StreamHandle",None); ck.floor("announce","streams created",len(hs),1,r.body.span)
    for v,ed in(("Init",IS(P(2),"None")),("SynReceived",IS(P(2),"Some"))):
        oth="SynReceived" if v=="Init" else "Init"
        mk=[n for n in r.aggs("StreamState",oth) if feeds(r,n)]
        p=r.path_from(r.after_edges(r.edges_where(ed)),set(r.states_of(mk))); ck.ob("announce","new stream starts in %s"%v,p is None and bool(r.edges_where(ed)),r._where(p,0) if p else r.body.span,"a stream opened by the %s side starts as if opened by the other"%("local" if v=="Init" else "remote"),r.trail(p))
    for n in hs:
        vs=alts(dict(strip_cast(r.agg_value(n))[3])["state"]); ck.ob("announce","starting states",all(VAR("Init")(x) or VAR("SynReceived")(x) for x in vs),r.loc(n),"a new stream starts as %s"%[show(x) for x in vs])
def sending(ck):
    for s0 in STATES:
        r=rt(ck,WRITE,s0); any_=r.calls("unbounded_send"); data=[n for n,h in sends(r,"Data")]
        if s0 in OPEN:
            ck.ob("write","possible in %s"%s0,r.path(None,data) is not None,r.body.span,"data cannot be sent in state %s"%s0)
        else:
            p=r.path(None,any_); ck.ob("write","refused in %s"%s0,p is None,r._where(p,0),"something is sent in state %s"%s0,r.trail(p))
            good=r.exits(lambda v: not(v and v[0]=="v" and v[1]=="Ready" and has_err(v)))
            p=r.path(None,good) if good else None; ck.ob("write","error in %s"%s0,p is None,r._where(p,0),"a write in state %s does not fail"%s0,r.trail(p))
        for nm,op in(("read",READ),("flush",FLUSH),("shutdown",SHUT),("drop",DROP)):
            q=rt(ck,op,s0); d=[n for n,h in sends(q,"Data") if q.u.by_node.get(n.id)]
            ck.ob("write","%s in %s sends no data"%(nm,s0),not d,q.loc(d[0]) if d else q.body.span,"%s sends data"%nm)
def has_err(v):
    if not isinstance(v,tuple) or not v: return False
    return v[:2]==("v","Err") or any(has_err(x) for x in v)
def kinds(r,k): return [n for n in r.calls("from","into","new") if any(VAR(k)(a) for a in r.args(n)[:1])]
def reading(ck):
    for s0 in STATES:
        r=rt(ck,READ,s0)
        for k,ok in(("UnexpectedEof",{"RemoteClosing"}),("ConnectionReset",{"Reset"})):
            ns=kinds(r,k); bad=[s for s in r.states_of(ns) if (r.mem(s,"state") or (0,0))[1] not in ok]
            p=r.path(None,set(bad)) if bad else None; ck.ob("read-end","%s from %s"%(k,s0),not bad,r._where(p,0) if bad else r.body.span,"%s is reported in state %s"%(k,bad and r.mem(bad[0],"state")),r.trail(p))
        bp=kinds(r,"BrokenPipe"); bad=[s for s in r.states_of(bp) if (r.mem(s,"state") or (0,0))[1]!="Closed"]
        p=r.path(None,set(bad),avoid_edge=gonee(r)) if bad else None; ck.ob("read-end","BrokenPipe from %s"%s0,p is None,r._where(p,0),"a broken pipe is reported although stream and session are open",r.trail(p))
        if s0 in("RemoteClosing","Reset","Closed"):
            full=r.edge(CMP("!=",LEN(fld("StreamHandle.read_buf")),K(0)))
            fine=r.exits(lambda v: not(v and v[0]=="v" and has_err(v)))
            p=r.path(None,fine,avoid_edge=full) if fine else None
            ck.ob("read-end","end reported in %s"%s0,p is None,r._where(p,0),"a read of a finished stream does not end",r.trail(p))
        ck.ob("read-end","ends exist from %s"%s0,s0 not in("RemoteClosing","Reset") or bool(r.states_of(kinds(r,{"RemoteClosing":"UnexpectedEof","Reset":"ConnectionReset"}.get(s0,"")))),r.body.span,"the end of the stream is not reported as such")
        # protocol errors make the session go away
        er=[n for v in("UnexpectedFlag","RecvWindowExceeded","InvalidMsgType") for n in r.aggs("Error",v)]
        if s0=="Established": ck.floor("errors","protocol errors",len(er),3,r.body.span)
        # an error made before it is known whether it is needed arises where it becomes the outcome
        holds=lambda n,m: m.ctx==n.ctx and m.data[1][5] and m.data[1][5][0][0] in("cp","mv") and m.data[1][5][0][1]==n.data[0]
        fail=r.aggs("Result","Err"); lazy=[n for n in er if any(holds(n,m) for m in fail)]; er+=[m for m in fail if any(holds(n,m) for n in er)]
        ga=evs(r,VAR("GoAway"))
        st=r.states_of([n for n in er if n not in lazy])+r.after_edges(r.edges_where(IS(lambda e: core_of(e)[0]=="call" and last(core_of(e)[1])=="checked_add",("None"))))
        p=r.path_from(st,r.exits(),avoid=ga) if st else None
        ck.ob("errors","go away from %s"%s0,p is None,r._where(p,0),"a protocol error of the remote is not answered by a go-away",r.trail(p))
        if ga:
            p=r.path(None,ga,avoid=er); ck.ob("errors","only protocol errors from %s"%s0,p is None,r._where(p,0),"the session is ended without a protocol error",r.trail(p))
def unexpected(ck):
    # a finish in a state that already had one is an error
    r=rt(ck,READ,"Established")
    pf=r.after_edges(r.edges_where(flagbit(4))); ck.floor("errors","finish flags seen",len(pf),1,r.body.span)
    w=[n for n in r.writes("StreamHandle.state")]+r.aggs("Error","UnexpectedFlag")
    p=r.path_from(pf,r.exits(),avoid=w); ck.ob("errors","finish acted upon",p is None,r._where(p,0),"a finish flag changes nothing",r.trail(p))
    pr=r.after_edges(r.edges_where(flagbit(8))); p=r.path_from(pr,r.exits(),avoid=r.writes("StreamHandle.state")); ck.ob("errors","reset acted upon",p is None and bool(pr),r._where(p,0),"a reset flag changes nothing",r.trail(p))
    # the flags of every frame are looked at, before its body is used
    got=r.after_edges(r.edges_where(IS(lambda e: RCV(e) and names_of(e)==[],"Some")))
    p=r.path_from(got,r.exits(),avoid_edge=r.edge(ANYF(flagbit(8),CMP("!=",BIN("BitAnd",lambda x: RCV(x) and "flags" in names_of(x),K(8)),K(8)))),avoid=r.aggs("Error","InvalidMsgType")+r.aggs("Error","UnexpectedFlag")+evs(r,VAR("GoAway")))
    ck.ob("errors","flags of every frame",p is None and bool(got),r._where(p,0),"the flags of a received frame are ignored",r.trail(p))
def closing(ck):
    FIN=withbit(4); RST=withbit(8)
    for s0 in STATES:
        r=rt(ck,SHUT,s0); fin=frames(r,FIN); cl=closed(r)
        if s0 in OPEN+["RemoteClosing"]:
            p=r.path(None,r.exits(),avoid=fin); ck.ob("close","finish sent from %s"%s0,p is None,r._where(p,0),"closing a stream in state %s does not tell the remote"%s0,r.trail(p))
            p=r.path([n for n in fin if r.u.by_node.get(n.id)],fin) if any(r.u.by_node.get(n.id) for n in fin) else None; ck.ob("close","one finish from %s"%s0,p is None,r._where(p,0),"two finish frames are sent",r.trail(p))
        else:
            p=r.path(None,fin); ck.ob("close","no second finish from %s"%s0,p is None,r._where(p,0),"a finish is sent again in state %s"%s0,r.trail(p))
        if s0 in OPEN:
            ck.ob("close","half closed from %s"%s0,r.path(None,{s for s in r.exits() if (r.mem(s,"state") or(0,0))[1]!="LocalClosing"},avoid_edge=gonee(r)) is None,r.body.span,"after closing an open stream its state is not LocalClosing")
            p=r.path(None,cl); ck.ob("close","not forgotten from %s"%s0,p is None,r._where(p,0),"the session forgets a stream whose remote side is still open",r.trail(p))
        else:
            ck.ob("close","closed from %s"%s0,r.path(None,{s for s in r.exits() if (r.mem(s,"state") or(0,0))[1]!="Closed"},avoid_edge=gonee(r)) is None,r.body.span,"after closing, the state is not Closed")
            p=r.path(None,r.exits(),avoid=cl,avoid_edge=gonee(r)); ck.ob("close","session told from %s"%s0,p is None,r._where(p,0),"the session is not told that the stream is closed",r.trail(p))
        # reading
        q=rt(ck,READ,s0); cl=closed(q)
        ends=[d for s,n,a,b,d in changes(q) if b in("Reset","Closed")]
        if ends:
            p=q.path_from(ends,q.exits(),avoid=cl,avoid_edge=gonee(q)); ck.ob("close","remote close told from %s"%s0,p is None,q._where(p,0),"the session is not told that the remote closed the stream",q.trail(p))
        p=None
        for n in cl:
            if q.u.by_node.get(n.id): p=p or q.path(None,[n],avoid=[x for x in q.writes("StreamHandle.state")])
        ck.ob("close","only when closed from %s"%s0,p is None,q._where(p,0),"the session forgets a stream that is still open",q.trail(p))
        bad=[s for s in q.states_of(frames(q,FIN)) if (q.mem(s,"state") or(0,0))[1] not in("RemoteClosing","Reset")]
        ck.ob("close","read finishes only after the remote, from %s"%s0,not bad,q.body.span,"a read sends a finish in state %s"%(bad and q.mem(bad[0],"state"),))
        # drop
        d=rt(ck,DROP,s0); cl=closed(d); rst=frames(d,RST); dead=d.edge(TRUE(CALL("is_closed",fld("StreamHandle.unbound_event_sender"))))
        if s0=="Closed":
            p=d.path(None,d.calls("unbounded_send")); ck.ob("drop","nothing when closed",p is None,d._where(p,0),"dropping a closed stream tells the session again",d.trail(p)); continue
        p=d.path(None,d.exits(),avoid=cl,avoid_edge=dead); ck.ob("drop","session told from %s"%s0,p is None,d._where(p,0),"dropping a stream does not tell the session",d.trail(p))
        if s0!="LocalClosing":
            p=d.path(None,cl,avoid=rst); ck.ob("drop","remote told from %s"%s0,p is None,d._where(p,0),"dropping an open stream does not reset it at the remote",d.trail(p))
            p=d.path(None,d.exits(),avoid=rst,avoid_edge=dead); ck.ob("drop","reset sent from %s"%s0,p is None,d._where(p,0),"dropping an open stream does not reset it at the remote",d.trail(p))
    for nm,op in OPS:
        r=ck.root(op,opaque=("fmt",))
        for n,h in sends(r): ck.ob("close","own id in %s frames"%nm,fld("StreamHandle.id")(h["stream_id"]),r.loc(n),"a frame is sent for stream %s"%show(h["stream_id"])[:50])
        for n in evs(r,VAR("Closed")): ck.ob("close","own id in %s events"%nm,n in closed(r),r.loc(n),"the session is told to forget another stream")
def forgetting(ck):
    r=ck.root("tokio_yamux::session::Session::recv_events",opaque=("send_all","fmt","send_go_away_with_code","send_frame"))
    ev=lambda x: CALL("poll_next",fld("Session.event_receiver"))(core_of(x))
    T=fld("Session.streams")
    rm=[n for n in r.calls("remove",arg=lambda a: bool(a) and T(a[0]))]
    for n in rm: ck.ob("forget","the stream named",ev(r.args(n)[1]) ,r.loc(n),"stream %s is forgotten"%show(r.args(n)[1])[:50])
    p=r.path(None,rm,avoid_edge=r.edge(IS(ev,"Closed"))); ck.ob("forget","only closed ones",p is None,r._where(p,0),"an open stream is forgotten",r.trail(p))
    c=r.after_edges(r.edges_where(IS(ev,"Closed"))); ck.floor("forget","closed events",len(c),1,r.body.span)
    p=r.path_from(c,r.exits(),avoid=rm); ck.ob("forget","always",p is None,r._where(p,0),"a closed stream stays in the table",r.trail(p))
    g=r.after_edges(r.edges_where(IS(ev,"GoAway"))); ck.floor("forget","go-away events",len(g),1,r.body.span)
    ga=[n for n in r.calls("send_go_away_with_code") if VAR("ProtocolError")(r.args(n)[2])]
    p=r.path_from(g,r.exits(),avoid=ga); ck.ob("forget","protocol errors end the session",p is None,r._where(p,0),"a stream's protocol error is not passed on",r.trail(p))
    for b,what in ck.writers("Session.streams"):
        if what=="agg": continue
        q=ck.root(b,depth=1,opaque=())
        for n in q.calls("remove","clear","retain","drain","remove_entry","take","replace",arg=lambda a: bool(a) and T(a[0])):
            if b.name in("handle_event","recv_events"): continue
            nm=last(q.g.qual(n))
            dead=q.edge(IS(lambda e: has(e,CALL(("poll_ready","try_send","start_send"))),"Err"))
            p=q.path(None,[n],avoid_edge=dead)
            ck.ob("forget","%s in %s"%(nm,b.name),p is None and nm=="remove",q.loc(n),"streams are removed from the table while open",q.trail(p))
RULES=[("transitions",["molc"],transitions),("announced",["molc"],announced),("sending",["molc"],sending),("reading",["molc"],reading),("unexpected",["molc"],unexpected),("closing",["molc"],closing),("forgetting",["molc"],forgetting)]
