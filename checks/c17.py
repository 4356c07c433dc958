"""Static rules on the bounds of waits: in every task that waits for a remote (connecting, upgrading, handshaking, negotiating) each
suspension is for a future under the limit, for something inside such a future, or for a queue of this node; the limit is the
configured one, unchanged, all the way from the builder; expiry has the outcome of a timeout; the functions that wait for a remote
are called from those tasks only; a session checks once, after the limit, whether a protocol is open and ends if not."""
from que import *
from svc import Origins
from c23 import nopath, part
import c22, c25
CONFIGS=["molc","async"]
ASSUMES=["tokio::time::timeout and delay_for (futures_timer::Delay in the other configuration) expire after the given time","Names are resolved by the system resolver within its own limits: the statement is about the remote",
 "Queues of this node are drained while the service runs (C16, C18, C21)"]
T="tentacle::transports::"
RT="tentacle::runtime::"
SES="tentacle::session::Session::"
# what waits for a remote, and the functions that may call it
REMOTE=(("connect_std",{T+"os::tcp_dial"}),("client_async_with_config",{T+"ws::connect"}),("client_async",{T+"ws::connect"}),("accept_async",{"<%sws::WebsocketListener as futures_core::stream::Stream>::poll_next"%T}),("accept_async_with_config",{"<%sws::WebsocketListener as futures_core::stream::Stream>::poll_next"%T}),("accept_hdr_async",set()),
 ("Config::handshake",{HSK}),("procedure::handshake",{"tentacle_secio::handshake::Config::handshake"}),("client_select",{SES+"open_proto_stream"}),("server_select",{SES+"handle_substream"}),("Control::open_stream",{SES+"open_proto_stream"}),
 ("tcp_dial",{T+"tcp::connect",T+"ws::connect"}),("TcpStream::connect_std",{RT+"tokio_runtime::connect_std"}),("TcpStream::connect",{RT+"tokio_runtime::connect_std"}),("connect_timeout",set()))
OPQ17=("fmt","Config::new","Config::handshake","client_async_with_config","client_async","accept_async","accept_async_with_config","connect_std","client_select","server_select","open_stream","socketaddr_to_multiaddr","multiaddr_to_socketaddr","Multiaddr::push","WsStream::new","DNSResolver","tcp_dial","poll_accept","poll_pending")
def lib(b): return "generic_timer" not in b.qual
def tmo(e):
    x=strip_cast(e); return x[0]=="call" and last(x[1])=="timeout"
def inside(r,n):
    """the node belongs to a future handed to timeout"""
    c=n.ctx
    while c:
        p,cn,_=r.g.ctxs[c]
        if cn is not None and r.g.nodes[cn].kind=="call" and last(r.g.decl(r.g.nodes[cn]))=="timeout": return True
        c=p
    return False
def local(r,e):
    """the future is a transfer to or from a queue of this node"""
    x=strip_cast(e)
    if x[0]=="agg" and last(x[1]) in("Send","Next"): x=strip_cast(list(dict(x[3]).values())[0])
    if x[0]=="call" and last(x[1]) in("send","next","recv"):
        q=strip_cast(x[2][0]); nm=(names_of(q) or [""])[-1]
        return nm.endswith("sender") or nm.endswith("receiver") or core_of(q)[0]=="call" and last(core_of(q)[1])=="channel" or has(q,CALL(("clone_sender","channel")))
    return False
def bounded(ck,rule,inst,r,dur,also=lambda e: False,least=1):
    """every suspension of the root is under the limit"""
    ts=[n for n in r.calls("timeout")]; ck.floor(rule,inst+": limits",len(ts),least,r.body.span)
    for n in ts: ck.ob(rule,inst+": how long",dur(r.args(n)[0]),r.loc(n),"the limit of a wait is %s, not the configured one"%show(r.args(n)[0])[:60])
    for n in ts: ck.ob(rule,inst+": whose limit",last(r.g.decl(n))=="timeout" and any(s in r.g.decl(n) for s in("tokio::time","generic_timer","runtime")),r.loc(n),"the limit is set by %s"%r.g.decl(n))
    po=[n for n in r.calls("poll","poll_next","poll_ready","poll_unpin","poll_next_unpin","poll_flush","poll_read") if n.extra is None]; ck.floor(rule,inst+": waits",len(po),1,r.body.span)
    for n in po:
        a=r.args(n)[0]
        ok=all(tmo(x) or local(r,x) or also(x) for x in alts(strip_cast(a)))
        if not ok and inside(r,n): ok=True
        ck.ob(rule,inst+": each wait",ok,r.loc(n),"%s is waited for without the limit"%show(a)[:80],r.trail(r.path(None,[n])))
    return ts
def expired(r): return IS(lambda e: pay(lambda x: CALL(("poll","poll_unpin"),tmo)(x),"Ready")(e),"Err")
TIMEDOUT=lambda e: has(e,lambda x: x[0]=="agg" and x[2]=="TimedOut" or x==("k","TimedOut") or "TimedOut" in str(x[-1]) if x[0] in("agg","c","k") else False)
def stages(ck):
    # encrypted handshake
    r=ck.root(HSK,opaque=OPQ17,only=lib)
    own=lambda e: names_of(e)==["timeout"] and strip_cast(e)[0]=="f" and "HandshakeContext" in str(strip_cast(e)[3])
    bounded(ck,"stages","handshake",r,own)
    ck.floor("stages","handshake: what is limited",len([n for n in r.calls("timeout") if has(r.args(n)[1],CALL("Config::handshake")) or not CALL("x")(r.args(n)[1])]),1,r.body.span)
    ex=r.after_edges(r.edges_where(expired(r))); ck.floor("stages","handshake: expiry",len(ex),1,r.body.span)
    he=[n for n in r.aggs("SessionEvent","HandshakeError") if has(r.agg_value(n),AGG("HandshakeErrorKind","Timeout"))]; ck.floor("stages","handshake: timeout",len(he),1,r.body.span)
    nopath(ck,"stages","handshake: expiry is a timeout",r,r.path_from(ex,r.calls("send"),avoid=he),"a handshake that took too long is not reported as a timeout",0)
    nopath(ck,"stages","handshake: expiry is reported",r,r.path_from(ex,r.exits(),avoid=r.calls("send")),"a handshake that took too long is not reported",0)
    nopath(ck,"stages","handshake: a timeout only on expiry",r,r.path(None,he,avoid_edge=r.edge(expired(r))),"a handshake in time is reported as a timeout")
    # connecting
    r=ck.root(T+"os::tcp_dial",opaque=OPQ17,only=lib)
    bounded(ck,"stages","connect",r,P(3)); ex=r.after_edges(r.edges_where(expired(r))); ck.floor("stages","connect: expiry",len(ex),1,r.body.span)
    bad=r.exits(lambda v: v is None or v[1]!="Err")
    nopath(ck,"stages","connect: expiry fails",r,r.path_from(ex,[s for s in bad if s in set(r.exits(okexit))]),"a connection that was not made in time is taken for made",0)
    tv=[n for n in r.aggs("TransportErrorKind","Io") if TIMEDOUT(r.agg_value(n))]; ck.floor("stages","connect: timeout",len(tv),1,r.body.span)
    nopath(ck,"stages","connect: expiry is a timeout",r,r.path_from(ex,r.exits(),avoid=tv),"a connection not made in time is not reported as a timeout",0)
    for t in("tcp","ws") if ck.cfg!="async" else("tcp",):
        r=ck.root("%s%s::connect"%(T,t),opaque=OPQ17,only=lib)
        named=lambda e: P(1)(e) or CALL("tcp_dial")(e)
        bounded(ck,"stages",t+" connect",r,P(2),also=named,least=1 if t=="ws" else 0)
        td=r.calls("tcp_dial"); ck.floor("stages",t+" connect: dials",len(td),1,r.body.span)
        for n in td: ck.ob("stages",t+" connect: with the limit",P(2)(r.args(n)[2]),r.loc(n),"the limit of connecting is %s"%show(r.args(n)[2])[:60])
        if t=="ws":
            ex=r.after_edges(r.edges_where(expired(r))); ck.floor("stages","upgrade: expiry",len(ex),1,r.body.span)
            tv=[n for n in r.aggs("TransportErrorKind","Io") if TIMEDOUT(r.agg_value(n))]; ck.floor("stages","upgrade: timeout",len(tv),1,r.body.span)
            nopath(ck,"stages","upgrade: expiry is a timeout",r,r.path_from(ex,r.exits(),avoid=tv),"an upgrade not finished in time is not reported as a timeout",0)
    if ck.cfg!="async":
        r=ck.root("<%sws::WebsocketListener as futures_core::stream::Stream>::poll_next"%T,opaque=OPQ17,only=lib)
        bounded(ck,"stages","accepting an upgrade",r,lambda e: names_of(e)==["timeout"],also=lambda e: name("inner")(e) or name("pending_stream")(e) or P(1)(core_of(e)))
        ex=r.after_edges(r.edges_where(expired(r))); ck.floor("stages","accepting: expiry",len(ex),1,r.body.span)
        sp=r.calls("spawn"); ac=r.calls("accept_async","accept_async_with_config"); ck.floor("stages","accepting: apart",len(sp),1,r.body.span)
        for n in ac: ck.ob("stages","accepting: in its own task",any(r.g.ctxs[c][1] is not None and r.g.nodes[r.g.ctxs[c][1]] in sp for c in chain(r,n.ctx)),r.loc(n),"an upgrade is accepted in the listener itself, which waits for it")
    # negotiation
    for fn,ops in(("open_proto_stream",("client_select","open_stream")),("handle_substream",("server_select",))):
        r=ck.root(SES+fn,opaque=OPQ17,only=lib)
        bounded(ck,"stages",fn,r,lambda e: names_of(e)==["timeout"] and strip_cast(e)[0]=="f" and str(strip_cast(e)[3]).endswith("Session"))
        for o in ops: ck.floor("stages",fn+": "+o,len(r.calls(o)),1,r.body.span)
        ex=r.after_edges(r.edges_where(expired(r))); ck.floor("stages",fn+": expiry",len(ex),1,r.body.span)
        se=r.aggs("ProtocolEvent","SelectError"); ck.floor("stages",fn+": failure",len(se),1,r.body.span)
        snd=[n for n in r.calls("send") if name("proto_event_sender")(r.args(n)[0])]; ck.floor("stages",fn+": reports",len(snd),1,r.body.span)
        nopath(ck,"stages",fn+": expiry is a failure",r,r.path_from(ex,snd,avoid=se),"a negotiation that took too long is not reported as failed",0)
        nopath(ck,"stages",fn+": expiry is reported",r,r.path_from(ex,r.exits(),avoid=snd),"a negotiation that took too long is not reported",0)
def chain(r,c):
    while c:
        yield c
        c=r.g.ctxs[c][0]
def origins(ck,through):
    return Origins(ck,{k:v for k,v in through.items() if k!="ServiceConfig"},opaque=CHAN+("key_pair","Config::new","DNSResolver::new","YamuxSession::new","Session::new","timeout","spawn","session_handles_open","handle_event","handle_error","connect","bind"))
def fixed(ck):
    """the limit of every stage is the configured one"""
    through={"ServiceConfig":"timeout","helper::HandshakeContext":"timeout","Listener":"timeout","MultiTransport":"timeout","TcpTransport":"timeout","WsTransport":"timeout","WebsocketListener":"timeout","tentacle::session::Session":"timeout","SessionMeta":"timeout"}
    through={k:v for k,v in through.items() if not(ck.cfg=="async" and k in("WsTransport","WebsocketListener"))}
    for adt in sorted(through)+["tcp_dial"]:
        if adt=="ServiceConfig": continue
        o=origins(ck,through)
        if adt=="tcp_dial": o.param(ck.p.one(T+"os::tcp_dial"),3,"")
        else: o.field(adt,"timeout")
        ls=o.leaves; ck.floor("fixed",adt+": origins",len(ls),1)
        for b,x,where in ls:
            ok=x[0]=="f" and x[2]=="timeout" and match_name(x[3],"ServiceConfig") or CALL("default")(x) and b is not None and "Default" in b.qual
            ck.ob("fixed",adt+": from the configuration",ok,where or "","the limit held by %s is %s"%(adt,show(x)[:60]))
    ws=[(b,h) for b,h in ck.writers("ServiceConfig.timeout") if live(b)]
    for b,h in ws:
        if h=="agg": continue
        ck.ob("fixed","configured by "+b.qual,within(ck,b,{"tentacle::builder::ServiceBuilder::timeout"}),b.span,"the configured limit is changed by %s"%b.qual)
    r=ck.root("tentacle::builder::ServiceBuilder::timeout"); w=[n for n in r.nodes("assign") if n.data[0][1] and n.data[0][1][-1][0]=="f" and n.data[0][1][-1][1]=="timeout"]; ck.floor("fixed","setting",len(w),1,r.body.span)
    for n in w: ck.ob("fixed","set as given",P(2)(r.value(n)),r.loc(n),"the limit set is %s"%show(r.value(n))[:60])
def homes(ck):
    """what waits for a remote is called where it is limited"""
    for f,hs_ in REMOTE:
        for b in callers(ck,f):
            if b.crate not in("tentacle","tentacle_secio") : continue
            if f=="TcpStream::connect" and "runtime" in b.qual or f=="Config::handshake" and not b.crate=="tentacle": continue
            ck.ob("homes","%s in %s"%(f,b.qual),within(ck,b,hs_),b.span,"%s waits for a remote outside of the tasks that have a limit"%f)
    for f in("connect_std","Config::handshake","client_select","server_select")+(("accept_async","client_async_with_config") if ck.cfg!="async" else ()): ck.floor("homes",f,len(callers(ck,f)),1)
def idle(ck):
    r=ck.root(SES+"new",opaque=("fmt","YamuxSession::new","Session::control","control","InnerSocket::new","for_each","Buffer::new"))
    dl=r.calls("delay_for","Delay::new"); ck.floor("idle","wait",len(dl),1,r.body.span)
    for n in dl: ck.ob("idle","how long",names_of(r.args(n)[0])==["timeout"] and has(r.args(n)[0],lambda e: e[0]=="p"),r.loc(n),"the check for an open protocol comes after %s"%show(r.args(n)[0])[:60])
    snd=[n for n in r.calls("send","try_send","start_send") if AGG("ProtocolEvent","TimeoutCheck")(r.args(n)[1])]; ck.floor("idle","check",len(snd),1,r.body.span)
    late=r.edge(IS(CALL("poll",CALL(("delay_for","new"))),"Ready"))
    nopath(ck,"idle","not before",r,r.path(None,snd,avoid_edge=late),"the check for an open protocol comes before the limit has passed")
    for n in snd: ck.ob("idle","to itself",chan_of(r,r.args(n)[0]),r.loc(n),"the check is sent to %s"%show(r.args(n)[0])[:60])
    ex=r.exits()
    started=[n for n in r.calls("spawn") if any(r.g.ctxs[c][1]==n.id for d in dl for c in chain(r,d.ctx))]; ck.floor("idle","started: by",len(started),1,r.body.span)
    nopath(ck,"idle","always started",r,r.path(None,ex,avoid=started),"a session starts without the check for an open protocol")
    done=r.after_edges(r.edges_where(IS(CALL("poll",CALL(("delay_for","new"))),"Ready"))); ck.floor("idle","limit passed",len(done),1,r.body.span)
    task=[n for n in r.calls("send","push") if name("future_task_sender")(r.args(n)[0]) or has(r.args(n)[0],name("future_task_sender")) or P(5)(r.args(n)[0]) or P(6)(r.args(n)[0])]
    nopath(ck,"idle","check is made",r,r.path_from(done,r.exits(),avoid=snd+task),"the check for an open protocol is left out",0)
    for n in r.aggs("Session"):
        if n.body is not r.body: continue
        d=dict(r.agg_value(n)[3]); ck.ob("idle","the queue read",chan_of(r,d["proto_event_receiver"]) and not strip_cast(d["proto_event_receiver"])==strip_cast(d["proto_event_sender"]),r.loc(n),"a session reads its events from %s"%show(d["proto_event_receiver"])[:60])
    for b in makers(ck,"ProtocolEvent","TimeoutCheck"): ck.ob("idle","made in "+b.qual,within(ck,b,{SES+"new"}),b.span,"the check for an open protocol is asked for elsewhere")
    h=ck.root(SES+"handle_stream_event",assume=under(P(3),"TimeoutCheck"),opaque=("fmt","event_output","open_protocol","output"))
    em=ANYF(TRUE(CALL("is_empty",lambda e: name("substreams")(e) or name("proto_streams")(e))),CMP("==",LEN(name("substreams")),K(0)),CMP("<=",LEN(name("substreams")),K(0)),CMP("<",LEN(name("substreams")),K(1)))
    ne=ANYF(FALSE(CALL("is_empty",lambda e: name("substreams")(e) or name("proto_streams")(e))),CMP("!=",LEN(name("substreams")),K(0)),CMP("<",K(0),LEN(name("substreams"))),CMP("<=",K(1),LEN(name("substreams"))))
    no=h.after_edges(h.edges_where(em)); ck.floor("idle","no protocol open",len(no),1,h.body.span)
    st=[n for n in h.nodes("assign") if n.data[0][1] and n.data[0][1][-1][0]=="f" and n.data[0][1][-1][1]=="state"]; cl=[n for n in st if VAR("LocalClose")(h.value(n)) or VAR("Abnormal")(h.value(n))]; ck.floor("idle","end",len(cl),1,h.body.span)
    ev=[n for n in h.calls("event_output") if AGG("SessionEvent","SessionTimeout")(h.args(n)[2])]; ck.floor("idle","timeout",len(ev),1,h.body.span)
    nopath(ck,"idle","ends",h,h.path_from(no,h.exits(),avoid=cl),"a session without a protocol after the limit is not ended",0)
    nopath(ck,"idle","end is told",h,h.path_from(no,h.exits(),avoid=ev),"a session without a protocol ends without the timeout being reported",0)
    nopath(ck,"idle","only then",h,h.path(None,st+ev,avoid_edge=h.edge(em)),"a session with an open protocol is ended by the limit")
    nopath(ck,"idle","decided on every way",h,h.path(None,h.exits(),avoid_edge=h.edge(ANYF(em,ne))),"the check for an open protocol decides nothing")
    for n in ev: ck.ob("idle","which",name("id")(dict(strip_cast(h.args(n)[2])[3])["id"]) and has(h.args(n)[2],name("context")),h.loc(n),"the timeout reported is of %s"%show(h.args(n)[2])[:60])
    for n in cl:
        nopath(ck,"idle","end is final",h,h.path_from(h.after_nodes([n]),[m for m in st if m not in cl]),"the end of a session is taken back",0)
    # told on
    t=ck.root(S+"handle_session_event",assume=under(P(3),"SessionTimeout"),opaque=OPQ+("session_close","session_open","protocol_open","protocol_message","protocol_close","Service::handshake","try_update_listens","spawn_listener","handle_service_task","handle_error"))
    ev=[n for n in t.calls("handle_error") if AGG("ServiceError","SessionTimeout")(t.args(n)[2])]
    exactly(ck,t,"idle","timeout reaches the user",[t.u.start],ev,t.exits(),"the timeout of a session is not told to the user","the timeout of a session is told twice",avoid_edge=t.edge(IS(CALL("get",name("sessions")),"None")))
def chan_of(r,e):
    x=core_of(e); return x[0]=="call" and last(x[1])=="channel" or has(e,CALL("channel"))
def timer(ck):
    """the library's own limit (the configuration without tokio)"""
    G=RT+"generic_timer::"
    r=ck.root(G+"timeout"); ag=r.aggs("Timeout"); ck.floor("timer","limit made",len(ag),1,r.body.span)
    for n in ag:
        d=dict(r.agg_value(n)[3]); ck.ob("timer","limit",P(2)(d["task"]) and CALL("Delay::new",P(1))(d["delay"]),r.loc(n),"a limited wait is made as %s"%show(r.agg_value(n))[:100])
    r=ck.root(G+"delay_for"); 
    for e in retvals(r): ck.ob("timer","wait",CALL("Delay::new",P(1))(e),r.body.span,"a wait lasts %s"%show(e)[:60])
    r=ck.root("<%sTimeout as core::future::future::Future>::poll"%G)
    po=r.calls("poll"); tk=[n for n in po if not late_(r,n)]; dl=[n for n in po if late_(r,n)]
    ck.floor("timer","what is limited is polled",len(tk),1,r.body.span); ck.floor("timer","the limit is polled",len(dl),1,r.body.span)
    pd=IS(lambda e: any(strip_cast(e)==r.g.callval(n,0) for n in dl),"Pending"); dr=IS(lambda e: any(strip_cast(e)==r.g.callval(n,0) for n in dl),"Ready"); tr_=IS(lambda e: any(strip_cast(e)==r.g.callval(n,0) for n in tk),"Ready")
    er=r.aggs("Elapsed"); ck.floor("timer","expiry",len(er),1,r.body.span)
    nopath(ck,"timer","waits only within the limit",r,r.path(None,r.exits(lambda v: v is not None and v[1]=="Pending"),avoid_edge=r.edge(pd)),"a limited wait goes on without asking whether the limit has passed")
    ex=r.after_edges(r.edges_where(dr)); ck.floor("timer","limit passed",len(ex),1,r.body.span)
    nopath(ck,"timer","expiry ends the wait",r,r.path_from(ex,r.exits(),avoid=er),"a limited wait goes on after the limit",0)
    nopath(ck,"timer","expiry only after the limit",r,r.path(None,er,avoid_edge=r.edge(dr)),"a wait expires before the limit has passed")
    ok=r.after_edges(r.edges_where(tr_)); nopath(ck,"timer","a result in time is given",r,r.path_from(ok,er),"a result that came in time is dropped",0)
def late_(r,n):
    a=r.args(n)[0]; return has(a,name("delay")) or any(x[0]=="closure" and ["delay"] in field_of(r,x) for x in subs(a))
def field_of(r,x):
    """the field a closure picks from its argument"""
    bs=[b for b in r.ck.p.bodies.values() if b.key==x[1] or b.qual==x[1]]
    return [names_of(e)[-1:] for b in bs for e in retvals(Root(r.ck,b))]
RULES=[("stages",["molc","async"],stages),("fixed",["molc","async"],fixed),("homes",["molc","async"],homes),("idle",["molc"],idle),("timer",["async"],timer),("ends",["molc"],c22.ends),("outcome",["molc"],c25.outcome)]
