"""Static rules on protocol handlers: an opened protocol is announced to its handlers before its stream starts and every stream that
ends announces its end behind everything it still had to deliver; the service-wide handler is called only for sessions in its own
table, entered when told connected and removed when told disconnected; every announcement reaches its handler once; protocol
events of a session enter and leave with its table of streams."""
from que import *
from unfold import V
CONFIGS=["molc"]
ASSUMES=["Channels keep the order of what one sender puts in","A protocol is not opened again on a session while the handler is still behind with its previous closing (two senders of one channel)"]
PHS="tentacle::protocol_handle_stream::"
SP,XP=PHS+"ServiceProtocolStream::",PHS+"SessionProtocolStream::"
def nopath(ck,rule,inst,r,p,msg,c=None): ck.ob(rule,inst,p is None,r._where(p,*([c] if c is not None else [])) if p else r.body.span,msg,r.trail(p) if p else "")
def evs(r,names,adt,var): return [n for n in r.calls(*names) if len(r.args(n))>1 and AGG(adt,var)(r.args(n)[1])]
def part(e,f,pn):
    e=strip_cast(e)
    return e[0]=="f" and e[2]==f and has(e,P(pn))
def begin(ck):
    r=ck.root(SUB+"proto_open",opaque=("fmt","Buffer::push"))
    for fldn,adt,var in(("service_proto_sender","ServiceProtocolEvent","Connected"),("session_proto_sender","SessionProtocolEvent","Opened")):
        ev=[n for n in evs(r,("Buffer::push",),adt,var) if has(r.args(n)[0],name(fldn))]; ck.floor("begin","announcement to "+fldn,len(ev),1,r.body.span)
        some=r.after_edges(r.edges_where(IS(name(fldn),"Some"))); ck.floor("begin",fldn+" present",len(some),1,r.body.span)
        exactly(ck,r,"begin",fldn,some,ev,r.exits(),"a protocol is opened and its handler is not told","a protocol is announced twice")
        nopath(ck,"begin",fldn+" is looked at",r,r.path(None,r.exits(),avoid_edge=r.edge(lambda f: f[0]=="is" and name(fldn)(f[1]))),"a protocol is opened without looking for its handler")
        for n in ev:
            a=dict(strip_cast(r.args(n)[1])[3]); ck.ob("begin",fldn+": version",P(2)(a["version"]),r.loc(n),"the version announced is %s"%show(a["version"])[:60])
            if "session" in a: ck.ob("begin",fldn+": session",name("context")(a["session"]),r.loc(n),"the session announced is %s"%show(a["session"])[:60])
    o=ck.root(SES+"open_protocol",opaque=("fmt","proto_open","event_output","SubstreamBuilder::build","SubstreamWritePartBuilder::build","ProtocolSpawn::spawn"))
    bu=o.calls("SubstreamBuilder::build"); po=o.calls("proto_open"); ck.floor("begin","streams made",len(bu),1,o.body.span)
    sp=[n for n in o.calls("spawn","for_each") if has(o.args(n)[0],CALL("SubstreamBuilder::build"))]; ck.floor("begin","streams started",len(sp),1,o.body.span)
    nopath(ck,"begin","told before it runs",o,o.path(bu,sp,avoid=po),"a stream is started before its handlers are told")
    exactly(ck,o,"begin","told",o.after_nodes(bu),po,o.exits(),"a stream is made and its handlers are not told","handlers are told twice about a stream")
    nopath(ck,"begin","it runs",o,o.path(bu,o.exits(),avoid=o.calls("spawn")),"a stream is announced and not started")
    for n in po: ck.ob("begin","negotiated version",P(4)(o.args(n)[1]),o.loc(n),"the version announced is %s"%show(o.args(n)[1])[:60])
    for n in bu:
        bs=o.args(n)[0]
        for f in("service_proto_sender","session_proto_sender"):
            tab=f+"s"
            ok=any(x[0]=="call" and last(x[1])==f and has(x[2][1],lambda e: CALL("get",name(tab))(e) and name("id")(e[2][1])) for x in subs(bs)) or any(x[0]=="agg" and last(x[1])=="SubstreamBuilder" and has(dict(x[3])[f],lambda e: CALL("get",name(tab))(e) and name("id")(e[2][1])) for x in subs(bs))
            ck.ob("begin","its %s"%f,ok,o.loc(n),"a stream is made without its handler's queue")
    # the service's own events
    ev=[n for n in o.calls("event_output") if AGG("SessionEvent","ProtocolOpen")(o.args(n)[2])]; ck.floor("begin","event of an opening",len(ev),1,o.body.span)
    ins=[n for n in o.calls("insert") if name("proto_streams")(o.args(n)[0])]; ck.floor("begin","entering of a stream",len(ins),1,o.body.span)
    want=o.edge(FALSE(CALL("contains",name("event"))))
    exactly(ck,o,"begin","event",o.after_nodes(ins),ev,o.exits(),"an opened protocol is not reported","an opened protocol is reported twice",avoid_edge=want)
    nopath(ck,"begin","event only if entered",o,o.path(None,ev,avoid=ins),"a protocol is reported open without being entered")
    for n in ev:
        a=dict(strip_cast(o.args(n)[2])[3]); ck.ob("begin","event: what",name("id")(a["proto_id"]) and P(4)(a["version"]) and has(a["id"],name("context")),o.loc(n),"what is reported is %s"%show(o.args(n)[2])[:80])
def ending(ck):
    r=ck.root(SUB+"close_proto_stream",opaque=("fmt","discard_pending","output","Buffer::take","poll_shutdown","send_all"))
    for f,adt,var in(("service_proto_sender","ServiceProtocolEvent","Disconnected"),("session_proto_sender","SessionProtocolEvent","Closed")):
        tk=[n for n in r.calls("Buffer::take") if has(r.args(n)[0],name(f))]; ck.floor("ending","queue of "+f,len(tk),1,r.body.span)
        of=lambda e,f=f: has(e,CALL("Buffer::take",HAS(name(f))))
        ev=[n for n in evs(r,("push_back","push"),adt,var)]; ck.floor("ending","announcement to "+f,len(ev),1,r.body.span)
        some=r.after_edges(r.edges_where(IS(name(f),"Some"))); ck.floor("ending",f+" present",len(some),1,r.body.span)
        exactly(ck,r,"ending",f,some,ev,r.exits(),"a stream ends and its handler is not told","the end of a stream is announced twice")
        nopath(ck,"ending",f+" is looked at",r,r.path(None,r.exits(),avoid_edge=r.edge(lambda q: q[0]=="is" and name(f)(q[1]))),"a stream ends without looking for its handler")
        for n in ev: ck.ob("ending",f+": behind the rest",of(r.args(n)[0]) or has(r.args(n)[0],name(f)),r.loc(n),"the end is announced through %s"%show(r.args(n)[0])[:60])
        sp=[n for n in r.calls("send_all") if of(r.args(n)[0])]; ck.floor("ending",f+": sent",len(sp),1,r.body.span)
        nopath(ck,"ending",f+": sent",r,r.path(ev,r.exits(),avoid=r.calls("spawn")),"the announcement of the end is not sent")
        for n in sp: ck.ob("ending",f+": all of it",has(r.args(n)[1],CALL("Buffer::take",HAS(name(f)))) and not has(r.args(n)[1],CALL(("filter","filter_map","skip","rev","take_while","skip_while","step_by"))),r.loc(n),"what is sent is %s"%show(r.args(n)[1])[:80])
        for n in ev:
            a=dict(strip_cast(r.args(n)[1])[3])
            if "id" in a: ck.ob("ending",f+": session",name("id")(a["id"]) and has(a["id"],name("context")),r.loc(n),"the session announced is %s"%show(a["id"])[:60])
        if f=="session_proto_sender":
            dis=evs(r,("push_back","push"),adt,"Disconnected")
            nopath(ck,"ending",f+": closed first",r,r.path(dis,ev),"the end of the session is told before the end of the stream")
    pn=ck.root("<%s as futures_core::stream::Stream>::poll_next"%SUB[:-2],opaque=("fmt","close_proto_stream","flush","recv_frame","recv_event","error_close"))
    cl=pn.calls("close_proto_stream"); ck.floor("ending","ends of a stream",len(cl),1,pn.body.span)
    none=pn.exits(lambda v: v is None or not(v[0]=="v" and v[1]=="Ready" and Unfolded.sub(v,"0") is not None and Unfolded.sub(v,"0")[0]=="v" and Unfolded.sub(v,"0")[1]=="Some" or v[0]=="v" and v[1]=="Pending"))
    live_=pn.exits(lambda v: v is not None and v[0]=="v" and (v[1]=="Pending" or Unfolded.sub(v,"0") is not None and Unfolded.sub(v,"0")[1]=="Some"))
    exactly(ck,pn,"ending","stream ends",[pn.u.start],cl,none,"a stream ends without telling its handlers",None)
    p=pn.query(0,lambda k,x: min(2,k+(x in {n.id for n in cl})),None,lambda k,s: k==2); nopath(ck,"ending","told once",pn,p,"the end of a stream is announced twice")
    nopath(ck,"ending","told only at the end",pn,pn.path(cl,live_),"a stream whose end was announced goes on")
    hd=pn.after_edges(pn.edges_where(ANYF(TRUE(name("dead")),TRUE(CALL("load",name("closed")))))); ck.floor("ending","reasons to end",len(hd),1,pn.body.span)
    nopath(ck,"ending","dead or closed streams end",pn,pn.path_from(hd,live_|set(pn.states_of(pn.calls("flush","recv_frame","recv_event"))),avoid=cl),"a stream that is marked dead or whose session has ended goes on",0)
    for fact in("dead","closed"):
        f=FALSE(name("dead")) if fact=="dead" else FALSE(CALL("load",name("closed")))
        nopath(ck,"ending","%s is looked at first"%fact,pn,pn.path(None,pn.calls("flush","recv_frame","recv_event"),avoid_edge=pn.edge(f)),"a stream works on without looking whether it is %s"%fact)
    # a stream marked dead during a poll is polled again
    full=Root(ck,ck.p.one("<%s as futures_core::stream::Stream>::poll_next"%SUB[:-2]),opaque=("fmt","close_proto_stream","poll_next","Buffer::try_send","poll_shutdown","send_inner","poll_flush","Buffer::push","discard_pending"),track=["dead"],init={"dead":("k",False)})
    pend=full.exits(lambda v: v is None or (v[0]=="v" and v[1]=="Pending"))
    bad=[s for s in pend if full.mem(s,"dead")!=("k",False)]
    ck.floor("ending","waiting exits",len(pend),1,full.body.span)
    nopath(ck,"ending","a dead stream does not wait",full,full.path(None,bad) if bad else None,"a stream is marked dead and then waits, so its end may never be announced")
    # everything that ends a stream marks it
    h=ck.root(SUB+"handle_proto_event",assume=under(P(3),"Close"),opaque=("fmt","output_event","send_data","push_back"))
    dead=lambda r: [n for n in r.nodes("assign") if n.data[0][1] and n.data[0][1][-1][0]=="f" and n.data[0][1][-1][1]=="dead" and strip_cast(r.value(n))==("c",True)]
    nopath(ck,"ending","order to close",h,h.path(None,h.exits(),avoid=dead(h)),"an order to close does not end the stream")
    for fn,what,pr in(("recv_event","loss of the session",IS(pay(CALL("poll_next",name("event_receiver")),"Ready"),"None")),("recv_frame","end of the stream",IS(pay(CALL("poll_next",name("substream")),"Ready"),"None")),("recv_frame","failure of the stream",IS(pay(CALL("poll_next",name("substream")),"Ready","Some"),"Err"))):
        x=ck.root(SUB+fn,opaque=("fmt","poll_next","handle_proto_event","poll_shutdown","output_event","output","distribute_to_user_level"))
        s=x.after_edges(x.edges_where(pr)); ck.floor("ending",what,len(s),1,x.body.span)
        nopath(ck,"ending","%s marks it"%what,x,x.path_from(s,x.exits(),avoid=dead(x)),"%s does not end the stream"%what,0)
    for b in sorted(ck.p.bodies.values(),key=lambda b:b.qual):
        if not live(b) or b.crate!="tentacle" or not any(st[0]=="=" and st[1][1] and st[1][1][-1][0]=="f" and st[1][1][-1][1]=="dead" for bl in b.blocks if not bl["c"] for st in bl["s"]): continue
        x=Root(ck,b,opaque=lambda c: True,depth=0)
        for n in x.nodes("assign"):
            if n.data[0][1] and n.data[0][1][-1][0]=="f" and n.data[0][1][-1][1]=="dead": ck.ob("ending","dead stays dead in "+b.qual,strip_cast(x.value(n))!=("c",False),x.loc(n),"a dead stream is revived")
def wide(ck):
    r=ck.root(SP+"handle_event",opaque=("fmt","set_notify","update_listens"))
    tab=name("sessions"); own=lambda n,ops: last(r.g.decl(n)) in ops and tab(r.args(n)[0])
    ins=[n for n in r.calls("insert") if own(n,("insert",))]; rem=[n for n in r.calls("remove") if own(n,("remove",))]
    con,dis,rec=r.calls("ServiceProtocol::connected"),r.calls("ServiceProtocol::disconnected"),r.calls("ServiceProtocol::received")
    for what,ns,k in(("entering",ins,1),("removing",rem,2),("connected",con,1),("disconnected",dis,2),("received",rec,1)): ck.floor("wide",what,len(ns),k,r.body.span)
    down=r.edge(TRUE(CALL("load",name("shutdown"))))
    sess=lambda n: dict(x[3])["session"] if (x:=strip_cast(r.args(n)[1]))[0]=="agg" else x
    for v in("Connected","Received","Disconnected"):
        s=r.after_edges(r.edges_where(lambda f,v=v: f[0]=="is" and P(2)(f[1]) and f[2]==frozenset([v]))); ck.floor("wide","event "+v,len(s),1,r.body.span)
    at=lambda v: r.after_edges(r.edges_where(lambda f: f[0]=="is" and P(2)(f[1]) and f[2]==frozenset([v]))) 
    # connected: told and entered, in whichever order, nothing in between
    exactly(ck,r,"wide","connected told",at("Connected"),con,r.exits(),"an opened protocol is not told to its handler","an opened protocol is told twice")
    exactly(ck,r,"wide","connected entered",at("Connected"),ins,r.exits(),"a session told to the handler is not remembered","a session is remembered twice")
    for ns,what in((con,"told"),(ins,"entered")):
        nopath(ck,"wide","connected %s only then"%what,r,r.path(None,ns,avoid_edge=r.edge(IS(P(2),"Connected"))),"a session that was not announced is %s as connected"%what)
    for n in con: ck.ob("wide","connected: which",part(sess(n),"session",2) and part(r.args(n)[2],"version",2),r.loc(n),"the handler is told %s"%show(r.args(n)[1])[:80])
    for n in ins: ck.ob("wide","entered: which",part(r.args(n)[2],"session",2) and name("id")(r.args(n)[1]) and has(r.args(n)[1],lambda e: part(e,"session",2)),r.loc(n),"what is entered is %s"%show(r.args(n)[2])[:80])
    # disconnected: with the entry that was removed, once per removal
    nopath(ck,"wide","disconnected only if entered",r,r.path(None,dis,avoid_edge=r.edge(IS(CALL("remove",tab),"Some"))),"the handler is told of an end it was not told the beginning of")
    for n in dis: ck.ob("wide","disconnected: which",pay(CALL("remove",tab),"Some")(sess(n)),r.loc(n),"the handler is told the end of %s"%show(sess(n))[:80])
    some=r.edges_where(IS(CALL("remove",tab),"Some"))
    p=r.path_from(r.after_edges(some),set(r.states_of(rem))|r.exits(),avoid=dis); nopath(ck,"wide","removed and told",r,p,"a session is forgotten without telling the handler that it ended",0)
    e1=r.edge(IS(CALL("remove",tab),"Some")); di={n.id for n in dis}
    p=r.query(0,lambda k,x: 3 if x in di and k==0 else (0 if x in di else k),lambda k,n,i: 1 if e1(n,i) else k,lambda k,s: k==3); nopath(ck,"wide","told once per removal",r,p,"the handler is told an end twice")
    exactly(ck,r,"wide","disconnected looked up",at("Disconnected"),[n for n in rem if part(r.args(n)[1],"id",2)],r.exits(),"the end of a protocol is not looked up","the end of a protocol is handled twice")
    def listed(e):
        """one of the sessions of the table, directly or out of a list that holds nothing else"""
        x=core_of(e)
        if not CALL("next")(x): return False
        if has(x,tab): return True
        pu=[m for m in r.calls("push","push_back","insert","extend") if strip_cast(r.args(m)[0])==strip_cast(x[2][0])]
        return bool(pu) and all(has(r.args(m)[1],tab) for m in pu)
    for n in rem: ck.ob("wide","removed: which",part(r.args(n)[1],"id",2) or listed(r.args(n)[1]),r.loc(n),"what is removed is %s"%show(r.args(n)[1])[:80])
    # received: only for an entered session that has not ended
    get=CALL("get",tab,lambda e: part(e,"id",2))
    nopath(ck,"wide","received only if entered",r,r.path(None,rec,avoid_edge=r.edge(IS(get,"Some"))),"the handler is given a message of a session it was not told about")
    nopath(ck,"wide","received only if not ended",r,r.path(None,rec,avoid_edge=r.edge(FALSE(CALL("load",lambda e: name("closed")(e) and has(e,get))))),"the handler is given a message of a session that has ended")
    ok=at("Received")
    exactly(ck,r,"wide","received",ok,rec,r.exits(),"a message is not given to the handler","a message is given twice",avoid_edge=r.edge(ANYF(IS(get,"None"),TRUE(CALL("load",name("closed"))),TRUE(CALL("load",name("shutdown"))))))
    for n in rec: ck.ob("wide","received: which",pay(get,"Some")(sess(n)) and part(r.args(n)[2],"data",2),r.loc(n),"the handler is given %s"%show(r.args(n)[2])[:60])
    nopath(ck,"wide","nothing else is dropped",r,r.path(None,r.exits(),avoid_edge=r.edge(lambda f: TRUE(CALL("load",name("shutdown")))(f) or (f[0]=="is" and P(2)(f[1]) and len(f[2])==1))),"an event is dropped although the service runs")
    for b in sorted(ck.p.bodies.values(),key=lambda b:b.qual):
        if not live(b) or b.crate!="tentacle": continue
        if any(bl["t"][0]=="call" and bl["t"][1][0]=="fn" and not bl["c"] and any(bl["t"][1][1]["q"].endswith("traits::ServiceProtocol::"+m) for m in("connected","disconnected","received")) for bl in b.blocks) and b.trait is None:
            ck.ob("wide","handler called by "+b.qual,within(ck,b,{SP+"handle_event"}),b.span,"a service-wide handler is called past its table of sessions")
        if any(bl["t"][0]=="call" and bl["t"][1][0]=="fn" and not bl["c"] and any(bl["t"][1][1]["q"].endswith("traits::SessionProtocol::"+m) for m in("connected","disconnected","received")) for bl in b.blocks) and b.trait is None:
            ck.ob("wide","handler called by "+b.qual,within(ck,b,{XP+"handle_event"}),b.span,"a session's handler is called past its events")
def alone(ck):
    r=ck.root(XP+"handle_event",opaque=("fmt","set_notify","update_listens","close"))
    skip=r.edge(ANYF(TRUE(CALL("load",name("shutdown"))),TRUE(CALL("load",name("closed")))))
    other=lambda v: r.edge(lambda f: TRUE(CALL("load",name("shutdown")))(f) or TRUE(CALL("load",name("closed")))(f) or (f[0]=="is" and any(P(2)(y) for y in alts(strip_cast(f[1]))) and v not in f[2]))
    for v,m,args in(("Opened","connected",("version",)),("Received","received",("data",)),("Closed","disconnected",())):
        ns=r.calls("SessionProtocol::"+m); ck.floor("alone",m,len(ns),1,r.body.span)
        isv=lambda f,v=v: f[0]=="is" and f[2]==frozenset([v]) and any(P(2)(y) for y in alts(strip_cast(f[1])))
        nopath(ck,"alone",m+" only then",r,r.path(None,ns,avoid_edge=r.edge(isv)),"the handler is called without the event")
        s=r.after_edges(r.edges_where(isv)); ck.floor("alone","event "+v,len(s),1,r.body.span)
        exactly(ck,r,"alone",m,s,ns,r.exits(),"%s is not told to the handler"%v,"%s is told twice"%v,avoid_edge=r.edge(TRUE(CALL("load",name("closed")))))
        nopath(ck,"alone",v+" is not dropped",r,r.path(None,r.exits(),avoid=ns,avoid_edge=other(v)),"%s is dropped although the session and the service run"%v)
        for n in ns:
            a=strip_cast(r.args(n)[1]); ok=a[0]=="agg" and name("context")(dict(a[3])["session"])
            for i,f in enumerate(args): ok=ok and (lambda e: strip_cast(e)[0]=="f" and strip_cast(e)[2]==f and has(e,P(2)))(r.args(n)[2+i])
            ck.ob("alone",m+": what",ok,r.loc(n),"the handler is given %s"%", ".join(show(x)[:60] for x in r.args(n)[1:]))
    isd=lambda f: f[0]=="is" and f[2]==frozenset(["Disconnected"]) and any(P(2)(y) or AGG("SessionProtocolEvent","Disconnected")(y) for y in alts(strip_cast(f[1])))
    s=r.after_edges(r.edges_where(isd)); ck.floor("alone","end of the session",len(s),1,r.body.span)
    nopath(ck,"alone","end of the session",r,r.path_from(s,r.exits(),avoid=r.calls("close")),"the handler of an ended session goes on",0)
    for q,rx in((SP,"ServiceProtocolStream"),(XP,"SessionProtocolStream")):
        x=ck.root("<%s as futures_core::stream::Stream>::poll_next"%q[:-2],opaque=("fmt","handle_event","handle_poll","poll_next","close"))
        got=lambda e: pay(CALL("poll_next",name("receiver")),"Ready","Some")(e)
        s=x.after_edges(x.edges_where(IS(pay(CALL("poll_next",name("receiver")),"Ready"),"Some"))); ck.floor("alone",rx+": events",len(s),1,x.body.span)
        he=[n for n in x.calls("handle_event") if got(x.args(n)[1])]; ck.floor("alone",rx+": handled",len(he),1,x.body.span)
        exactly(ck,x,"alone",rx+": every event",s,he,x.exits(),"an event is taken from the queue and not handled","an event is handled twice")
        pr=x.calls("poll_next"); pr=[n for n in pr if name("receiver")(x.args(n)[0])]
        nopath(ck,"alone",rx+": the queue is read",x,x.path(None,x.exits(),avoid=pr,avoid_edge=x.edge(TRUE(CALL("load",name("shutdown"))))),"a handler's queue is not read")
        end=x.exits(lambda v: v is None or (v[0]=="v" and v[1]=="Ready" and not(Unfolded.sub(v,"0") is not None and Unfolded.sub(v,"0")[0]=="v" and Unfolded.sub(v,"0")[1]=="Some")))
        nopath(ck,"alone",rx+": ends only with the queue",x,x.path(None,end,avoid_edge=x.edge(ANYF(TRUE(CALL("load",name("shutdown"))),IS(pay(CALL("poll_next",name("receiver")),"Ready"),"None")))),"a handler ends although its queue is open and the service runs")
        nx=x.calls("poll_next","handle_poll"); none=x.after_edges(x.edges_where(IS(pay(CALL("poll_next",name("receiver")),"Ready"),"None")))
        nopath(ck,"alone",rx+": ends with the queue",x,x.path_from(none,x.exits()-end),"a handler whose queue has ended goes on",0)
    # the end of a session is noted, and only then
    k=0
    for b in sorted(ck.p.bodies.values(),key=lambda b:b.qual):
        if not live(b) or b.crate!="tentacle": continue
        if not any(bl["t"][0]=="call" and bl["t"][1][0]=="fn" and last(bl["t"][1][1]["q"])=="store" for bl in b.blocks if not bl["c"]): continue
        x=Root(ck,b,opaque=lambda c: True,depth=0)
        for n in x.calls("store"):
            if not name("closed")(x.args(n)[0]): continue
            k+=1; ck.ob("alone","end noted by "+b.qual,strip_cast(x.args(n)[1])==("c",True) and within(ck,b,{SES+"close_session",SES+"close_all_proto"}),x.loc(n),"the end of a session is noted as %s"%show(x.args(n)[1]))
    ck.floor("alone","places that note the end",k,2)
    for fn in("close_session",):
        c=ck.root(SES+fn,opaque=("fmt","clean"))
        st=[n for n in c.calls("store") if name("closed")(c.args(n)[0])]
        nopath(ck,"alone","closing notes the end",c,c.path(None,c.exits(),avoid=st,avoid_edge=c.edge(ANYF(IS(name("state"),"Closed"),TRUE(CALL("is_closed"))))),"a session ends and its handlers are not stopped")
def events(ck):
    """protocol events of the service handle follow the session's table of streams"""
    r=ck.root(SES+"handle_stream_event",assume=under(P(3),"Close"),opaque=("fmt","event_output","open_protocol","decr_pending_data_size"))
    gone=r.after_edges(r.edges_where(IS(CALL("remove",name("substreams")),"Some"))); ck.floor("events","end of a stream",len(gone),1,r.body.span)
    rm=[n for n in r.calls("remove") if name("proto_streams")(r.args(n)[0])]; ev=[n for n in r.calls("event_output") if AGG("SessionEvent","ProtocolClose")(r.args(n)[2])]
    ck.floor("events","stream forgotten",len(rm),1,r.body.span); ck.floor("events","end reported",len(ev),1,r.body.span)
    exactly(ck,r,"events","stream forgotten",gone,rm,r.exits(),"an ended stream stays in the table","an ended stream is removed twice")
    exactly(ck,r,"events","end reported",gone,ev,r.exits(),"the end of a protocol is not reported","the end of a protocol is reported twice",avoid_edge=r.edge(FALSE(CALL("contains",name("event")))))
    nopath(ck,"events","reported only if it was open",r,r.path(None,ev,avoid_edge=r.edge(IS(CALL("remove",name("substreams")),"Some"))),"the end of a protocol that is not open is reported")
    for n in ev:
        a=dict(strip_cast(r.args(n)[2])[3]); ck.ob("events","end reported: what",part(a["proto_id"],"proto_id",3) and has(a["id"],name("context")),r.loc(n),"what is reported is %s"%show(r.args(n)[2])[:80])
    for n in rm: ck.ob("events","stream forgotten: which",part(r.args(n)[1],"proto_id",3),r.loc(n),"what is removed is %s"%show(r.args(n)[1])[:60])
    for n in r.calls("remove"):
        if name("substreams")(r.args(n)[0]): ck.ob("events","stream ended: which",part(r.args(n)[1],"id",3),r.loc(n),"what is removed is %s"%show(r.args(n)[1])[:60])
    c=ck.root(SES+"close_session",opaque=("fmt","clean","Buffer::push"))
    ev=[n for n in c.calls("Buffer::push") if AGG("SessionEvent","ProtocolClose")(c.args(n)[1])]; ck.floor("events","ends reported with the session",len(ev),1,c.body.span)
    it=lambda e: has(e,name("proto_streams")) and not has(e,CALL(("filter","skip","take_while","step_by","skip_while")))
    some=c.after_edges(c.edges_where(IS(CALL("next",it),"Some"))); ck.floor("events","streams of an ended session",len(some),1,c.body.span)
    nxt=set(c.states_of(c.calls("next")))|c.exits()
    p=c.path_from(some,nxt,avoid=ev,avoid_edge=c.edge(FALSE(CALL("contains",name("event"))))); nopath(ck,"events","every open protocol ends with its session",c,p,"a protocol that is open when its session ends is not reported closed",0)
    done=c.edge(IS(CALL("next",it),"None"))
    nopath(ck,"events","all of them",c,c.path(None,c.exits(),avoid_edge=c.edge(ANYF(IS(CALL("next",it),"None"),IS(name("state"),"Closed"),TRUE(CALL("is_closed"))))),"a session ends without going through its open protocols")
    tk=[n for n in c.calls("Buffer::take") if name("service_sender")(c.args(n)[0])]; nopath(ck,"events","reported before the session",c,c.path(tk,ev),"the end of a protocol is reported after that of its session")
    for n in ev:
        a=dict(strip_cast(c.args(n)[1])[3]); ck.ob("events","ends with the session: what",has(a["proto_id"],CALL("next",it)) and has(a["id"],name("context")),c.loc(n),"what is reported is %s"%show(c.args(n)[1])[:80])
    for b in sorted(ck.p.bodies.values(),key=lambda b:b.qual):
        if not live(b) or b.crate!="tentacle": continue
        x=None
        for bl in b.blocks:
            if not bl["c"] and bl["t"][0]=="call" and bl["t"][1][0]=="fn" and last(bl["t"][1][1]["q"]) in("remove","clear","retain","drain","take","split_off"): x=x or Root(ck,b,opaque=lambda c: True,depth=0,closures=False)
        if x is None: continue
        for n in x.calls("remove","clear","retain","drain","mem::take"):
            a=strip_cast(x.args(n)[0]) if x.args(n) else ("?",)
            if a[0]=="f" and a[2]=="proto_streams": ck.ob("events","%s in %s"%(last(x.g.decl(n)),b.qual),within(ck,b,{SES+"handle_stream_event",SES+"close_session"}),x.loc(n),"a stream is removed from the table without its end being reported")
    o=OPQ+("session_close","session_open","protocol_open","protocol_message","protocol_close","Service::handshake","try_update_listens","spawn_listener","handle_service_task")
    for v,fn,ix in(("ProtocolOpen","protocol_open",{2:"id",3:"proto_id",4:"version"}),("ProtocolMessage","protocol_message",{1:"id",2:"proto_id",3:"data"}),("ProtocolClose","protocol_close",{2:"id",3:"proto_id"})):
        h=ck.root(S+"handle_session_event",assume=under(P(3),v),opaque=o)
        ns=h.calls(fn); ck.floor("events","service: "+v,len(ns),1,h.body.span)
        exactly(ck,h,"events","service: "+v,[h.u.start],ns,h.exits(),"%s is dropped"%v,"%s is handled twice"%v)
        for n in ns: ck.ob("events","service: %s: what"%v,all(part(h.args(n)[i],f,3) for i,f in ix.items()) and (fn=="protocol_message" or AGG("Source","Internal")(h.args(n)[-1])),h.loc(n),"%s is handled as %s"%(v,", ".join(show(x)[:40] for x in h.args(n))))
    for fn,var,srcp,idp,pp in(("protocol_open","Connected",6,3,4),("protocol_message","Received",None,2,3),("protocol_close","Disconnected",5,3,4)):
        h=ck.root(S+fn,opaque=("fmt","handle_proto","SessionController::push","SessionController::try_send"))
        ev=[n for n in h.calls("handle_proto") if AGG("ProtocolEvent",var)(h.args(n)[2])]; ck.floor("events","handle: "+var,len(ev),1,h.body.span)
        av=[FALSE(CALL("contains",name("event"))),IS(CALL("get",name("sessions")),"None")]
        if srcp: av+=[lambda f: IS(P(srcp),"External")(f) or (f[0]=="cmp" and f[1]=="Eq" and has(f,P(srcp)))]
        exactly(ck,h,"events","handle: "+var,[h.u.start],ev,h.exits(),"%s is not told to the service handle"%var,"%s is told twice"%var,avoid_edge=h.edge(ANYF(*av)))
        for n in ev:
            a=dict(strip_cast(h.args(n)[2])[3]); ck.ob("events","handle: %s: what"%var,P(pp)(a["proto_id"]) and has(a["session_context"],CALL("get",name("sessions"),P(idp))),h.loc(n),"the service handle is told %s"%show(h.args(n)[2])[:100])
RULES=[("begin",["molc"],begin),("ending",["molc"],ending),("wide",["molc"],wide),("alone",["molc"],alone),("events",["molc"],events)]
