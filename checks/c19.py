"""Static rules on the message path: every queue between the caller and the stream (service to session, session to protocol
stream, stream to socket, stream to handlers) is appended to at its end once per message, drained from its front, urgent
before normal, with an item that is refused put back at the front and none dropped or sent twice; every hop passes on the
same data with the same priority to the queue of the same session and protocol; queued items are thrown away only where a
receiver is gone, a limit was exceeded or the session, protocol or service is ending."""
from que import *
CONFIGS=["molc"]
ASSUMES=["The channels between the parts keep order per priority and lose nothing (decided by C18 for the priority channel; futures::mpsc and VecDeque have their documented behaviour)",
 "Framed/FramedWrite write frames in the order of start_send"]
F=lambda o,f: lambda e: strip_cast(e)[0]=="f" and strip_cast(e)[2]==f
def buffers(ck):
    full=None
    r=ck.root(BUF+"PriorityBuffer::try_send",opaque=("try_send","try_quick_send","poll_ready"))
    gone=lambda f: ANYF(FALSE(CALL("is_full")),IS(HAS(CALL(("try_send","try_quick_send"))),"Disconnected"),IS(pay(CALL("poll_ready"),"Ready"),"Err"))(f)
    drains(ck,"buffers",r,"PriorityBuffer",[("high_buffer",name("high_buffer")),("normal_buffer",name("normal_buffer"))],[("try_quick_send",),("try_send",)],lost=gone)
    b=ck.root(BUF+"Buffer::try_send",opaque=("poll_ready",),sited=())
    drains(ck,"buffers",b,"Buffer",[("buffer",fld("Buffer.buffer"))],[("Sender::try_send","try_send")],lost=gone)
    for x,qs in((r,("high_buffer","normal_buffer")),(b,("buffer",))):
        nm=x.body.qual.split("::")[-2]
        ok=x.exits(lambda v: v is None or v[0]!="v" or v[1]=="Ok")
        ck.floor("buffers","complete ends of %s"%nm,len(ok),1,x.body.span)
        for q in qs:
            p=x.path(None,ok,avoid_edge=x.edge(ANYF(IS(POPF(name(q)),"None"),TRUE(CALL("is_empty",name(q))),CMP("==",LEN(name(q)),K(0)))))
            ck.ob("buffers","%s: done only when %s is empty"%(nm,q),p is None,x._where(p) if p else x.body.span,"sending is reported complete while %s was not found empty"%q,x.trail(p))
        # the sink is asked for room first, and disconnection is what is reported as such
        sn=x.calls("try_send","try_quick_send"); rd=x.calls("poll_ready")
        p=x.path(None,sn,avoid=rd) or x.path(sn,sn,avoid=rd)
        ck.ob("buffers","%s: room asked for first"%nm,p is None,x._where(p) if p else x.body.span,"an item is sent without asking for room, so no wake-up is arranged when there is none",x.trail(p))
        dis=x.exits(lambda v: v is not None and v[0]=="v" and v[1]=="Disconnect")
        p=x.path(None,dis,avoid_edge=x.edge(gone))
        ck.ob("buffers","%s: disconnected only if so"%nm,p is None,x._where(p) if p else x.body.span,"the receiver is reported gone while it is only full",x.trail(p))
        drop=[n for n in x.nodes("call") if n.data[1][0]=="fn" and last(x.g.qual(n)) in OPS_DROP and x.args(n) and isq(x.args(n)[0])]
        p=x.path(None,drop,avoid_edge=x.edge(gone)) if drop else None
        ck.ob("buffers","%s: cleared only if the receiver is gone"%nm,p is None,x._where(p) if p else x.body.span,"queued items are thrown away although the receiver is not gone",x.trail(p))
def appended(ck,r,inst,queue,val,rule="append",starts=None,avoid_edge=None):
    ns=[n for n in r.calls("push_back") if queue(r.args(n)[0])]
    ck.floor(rule,"insertions in %s"%inst,len(ns),1,r.body.span)
    for n in ns: ck.ob(rule,inst+": the item itself",val(r.args(n)[1]),r.loc(n),"what is queued is %s"%show(r.args(n)[1])[:120])
    exactly(ck,r,rule,inst,starts or [r.u.start],ns,r.exits(),"an item is not queued","an item is queued twice",avoid_edge)
    return ns
def append(ck):
    for q,f in(("PriorityBuffer::push_high","high_buffer"),("PriorityBuffer::push_normal","normal_buffer"),("Buffer::push","buffer")):
        r=ck.root(BUF+q); appended(ck,r,q,name(f),P(2))
    for t,pri,val,qs in((CTL+"push",2,3,("high_buffer","normal_buffer")),(SUB+"push_back",2,3,("high_write_buf","write_buf")),(WP+"push_back",2,3,("high_write_buf","write_buf"))):
        for v,f in zip(("High","Normal"),qs):
            r=ck.root(t,assume=under(P(pri),v)); nm=t.split("tentacle::")[1]+" "+v
            appended(ck,r,nm,name(f),P(val))
            for n in r.calls("push_back"):
                if isq(r.args(n)[0]): ck.ob("append",nm+": its queue",name(f)(r.args(n)[0]),r.loc(n),"an item of %s priority is put into %s"%(v,show(r.args(n)[0])))
            ck.ob("append",nm+": only appended",not [n for n in r.calls("push_front","insert")],r.body.span,"an item jumps the queue")
    for t in("SubstreamWritePart","Substream"):
        for v,f in zip(("High","Normal"),("high_write_buf","write_buf")):
            r=ck.root("tentacle::substream::%s::push_front"%t,assume=under(P(2),v))
            ns=[n for n in r.calls("push_front","push_back")]
            for n in ns: ck.ob("append","%s::push_front %s: its queue"%(t,v),name(f)(r.args(n)[0]) and P(3)(r.args(n)[1]) and last(r.g.qual(n))=="push_front",r.loc(n),"an item of %s priority that could not be written is not put back at the front of %s"%(v,f))
            exactly(ck,r,"append","%s::push_front %s"%(t,v),[r.u.start],ns,r.exits(),"an item is not put back","an item is put back twice")
    # the message that is queued for a session
    r=ck.root(CTL+"push_message",opaque=("SessionController::push",))
    ps=r.calls("SessionController::push"); ck.floor("append","queueing of a message",len(ps),1,r.body.span)
    for n in ps:
        a=r.args(n); v=strip_cast(a[2]); d=dict(v[3]) if v[0]=="agg" else {}
        ck.ob("append","message: priority",P(3)(a[1]),r.loc(n),"a message is queued with priority %s"%show(a[1]))
        ck.ob("append","message: content",v[0]=="agg" and v[2]=="ProtocolMessage" and P(2)(d.get("proto_id",("?",))) and P(4)(d.get("data",("?",))) and name("id")(d.get("id",("?",))),r.loc(n),"what is queued for the session is %s"%show(v)[:160])
    exactly(ck,r,"append","message",[r.u.start],ps,r.exits(),"a message is not queued","a message is queued twice")
def stream(ck):
    for t in(SUB,WP):
        nm=t.split("::")[-2]
        r=ck.root(t+"send_data",opaque=("poll_ready","poll_flush","start_send"))
        drains(ck,"stream",r,nm+" writing",[("high_write_buf",name("high_write_buf")),("write_buf",name("write_buf"))],[("start_send",),("start_send",)],lost=lambda f: IS(CALL("start_send"),"Err")(f))
        ok=r.exits(okexit)
        for q in("high_write_buf","write_buf"):
            empty=IS(POPF(name(q)),"None"); full=IS(CALL("poll_ready"),"Pending")
            p=r.path(None,ok,avoid_edge=r.edge(ANYF(empty,full)))
            ck.ob("stream","%s: writes until done or full (%s)"%(nm,q),p is None,r._where(p) if p else r.body.span,"writing stops early although the stream takes more",r.trail(p))
        fl=r.calls("poll_flush")
        p=r.path(None,ok,avoid=fl)
        ck.ob("stream",nm+": flushed",p is None,r._where(p) if p else r.body.span,"data is left in the codec without being flushed",r.trail(p))
        sn=r.calls("start_send")
        p=r.path(None,sn,avoid_edge=r.edge(IS(pay(CALL("poll_ready"),"Ready"),"Ok")))
        ck.ob("stream",nm+": only when ready",p is None,r._where(p) if p else r.body.span,"a frame is written although the stream is not ready",r.trail(p))
        # an incoming order to write
        for v,f in(("High","high_write_buf"),("Normal","write_buf")):
            both=lambda fa,v=v: under(P(3),"Message")(fa) or under(P(4),v)(fa)
            h=ck.root(t+"handle_proto_event",assume=both,opaque=("send_data","output","Buffer::try_send"))
            ns=appended(ck,h,"%s message %s"%(nm,v),name(f),pay(P(3),"Message") if False else (lambda e: strip_cast(e)[0]=="f" and strip_cast(e)[2]=="data" and has(e,P(3))),rule="stream")
            sd=h.calls("send_data")
            p=h.path(ns,h.exits(),avoid=sd)
            ck.ob("stream","%s %s: written right away"%(nm,v),p is None,h._where(p,0) if p else h.body.span,"a message is queued and nothing starts writing it",h.trail(p))
            p=h.path(None,sd,avoid=ns)
            ck.ob("stream","%s %s: queued first"%(nm,v),p is None,h._where(p) if p else h.body.span,"writing happens before the message is in its place",h.trail(p))
        e=ck.root(t+"recv_event",opaque=("handle_proto_event","poll_next","poll_shutdown"))
        src=lambda x: CALL("poll_next",name("event_receiver"))(core_of(x))
        hs=e.calls("handle_proto_event"); ck.floor("stream","handlings of session events in "+nm,len(hs),1,e.body.span)
        for n in hs:
            a=e.args(n)
            ck.ob("stream",nm+": event and its priority",src(a[2]) and src(a[3]) and names_of(a[2])[-1:]==["1"] and names_of(a[3])[-1:]==["0"],e.loc(n),"an event is handled as %s with priority %s"%(show(a[2])[:60],show(a[3])[:60]))
        some=e.after_edges(e.edges_where(IS(pay(CALL("poll_next",name("event_receiver")),"Ready"),"Some")))
        exactly(ck,e,"stream",nm+" event",some,hs,e.exits(),"an event from the session is taken and not handled","an event from the session is handled twice")
def again(ck):
    """what is held back is looked at again"""
    r=ck.root(BUF+"PriorityBuffer::is_empty")
    for q in("high_buffer","normal_buffer"):
        none=r.edge(CMP("==",LEN(name(q)),K(0))); bad=[]
        for n in r.nodes():
            if n.ctx!=0: continue
            v=r.value(n) if n.kind=="assign" and n.data[0]==[0,[]] else r.g.callval(n,0) if n.kind=="call" and n.data[3]==[0,[]] else None
            if v is None: continue
            for x in alts(v):
                x=strip_cast(x)
                if x==("c",False) or CALL("is_empty",name(q))(x) or (x[0]=="bin" and x[1]=="Eq" and has(x,LEN(name(q)))): continue
                p=r.path(None,[n],avoid_edge=none)
                if p is not None: bad.append(p)
        ck.ob("again","PriorityBuffer::is_empty considers %s"%q,not bad,r.body.span,"the buffer is taken for empty while %s holds items"%q,r.trail(bad[0]) if bad else "")
    for t in("Substream","SubstreamWritePart"):
        b=[b for b in ck.p.bodies.values() if b.qual=="tentacle::substream::%s::flush"%t]
        r=Root(ck,b[0] if b else ck.p.one("<tentacle::substream::%s as futures_core::stream::Stream>::poll_next"%t),opaque=("send_data","poll_complete","poll_flush","recv_event","recv_frame","Buffer::try_send","close_proto_stream","error_close"))
        sd=r.calls("send_data"); ck.floor("again","retries of writing in "+t,len(sd),1,r.body.span)
        for q in("high_write_buf","write_buf"):
            ends=r.exits(okexit) if b else r.states_of(r.calls("recv_event"))
            p=r.path(None,ends,avoid=sd,avoid_edge=r.edge(CMP("==",LEN(name(q)),K(0))))
            ck.ob("again","%s: %s"%(t,q),p is None,r._where(p) if p else r.body.span,"what is left in %s is not written when the stream is polled again"%q,r.trail(p))
def CMPE(x,q): return x[0]=="bin" and x[1]=="Eq" and has(x,LEN(name(q)))
def handover(ck):
    """what was read or buffered during negotiation stays with the stream"""
    r=ck.root(SES+"open_protocol",opaque=OPQ+("event_output","for_each","spawn"))
    mk=r.calls("FramedParts::new"); use=r.calls("from_parts","from_parts2")
    rd=r.calls("FramedRead::new","PatchedReadPart::new")
    ck.floor("handover","streams built from negotiated ones",len(mk)+len(rd),2,r.body.span)
    for f in("read_buf","write_buf"):
        ws=[x for x in r.nodes("assign") if x.data[0][1] and x.data[0][1][-1][0]=="f" and x.data[0][1][-1][1]==f and "FramedParts" in str(x.data[0][1][-1][2])]
        ck.floor("handover","carrying over of %s"%f,len(ws),1,r.body.span)
        p=r.path(mk,use,avoid=ws)
        ck.ob("handover","%s is carried over"%f,p is None,r._where(p) if p else r.body.span,"the stream of a protocol starts without the %s of the negotiated stream, which may hold what the peer sent right after agreeing"%f,r.trail(p))
        for x in ws:
            e=r.value(x); ck.ob("handover","%s is that of the negotiated stream"%f,name(f)(e) and has(e,CALL("into_parts")),r.loc(x),"%s is set to %s"%(f,show(e)[:80]))
    for n in r.calls("FramedRead::new"):
        ck.ob("handover","read half keeps what was read",has(r.args(n)[0],name("read_buf")),r.loc(n),"the read half of a protocol stream is built from %s, without what was read during negotiation"%show(r.args(n)[0])[:80])
    for q in [b.qual for b in ck.p.bodies.values() if live(b) and last(b.qual)=="poll_read" and "PatchedReadPart" in b.qual]:
        r=ck.root(q,opaque=("poll_read",))
        io=[n for n in r.calls("poll_read")]; ck.floor("handover","reads of the io behind",len(io),1,r.body.span)
        p=r.path(None,io,avoid_edge=r.edge(CMP("==",LEN(name("buffer")),K(0))))
        ck.ob("handover","read half gives what was read first",p is None,r._where(p) if p else r.body.span,"new data is read before what was read during negotiation is given out",r.trail(p))
        cut=r.calls("split_to","advance"); cp=r.calls("copy_from_slice","extend_from_slice","put","put_slice")
        p=r.path(None,r.exits(),avoid=io+cut) or r.path(cut,r.exits(),avoid=cp) if not any(CALL("split_to")(core_of(r.args(n)[1])) for n in cp) else r.path(None,r.exits(),avoid=io+cut)
        ck.ob("handover","read half gives it out once",p is None,r._where(p) if p else r.body.span,"what was read during negotiation is given out without being removed, or removed without being given out",r.trail(p))
def route(ck):
    # the service hands a request's message to the sessions it names
    t=ck.root(S+"handle_service_task",assume=under(P(3),"ProtocolMessage"),opaque=OPQ+("handle_message","session_close","protocol_close","dial_inner","listen_inner","listen","dial"))
    hm=t.calls("handle_message"); ck.floor("route","handling of a send request",len(hm),1,t.body.span)
    part=lambda f: lambda e: strip_cast(e)[0]=="f" and strip_cast(e)[2]==f and has(e,P(3))
    for n in hm:
        a=t.args(n)
        ck.ob("route","request to message",part("target")(a[2]) and part("proto_id")(a[3]) and P(4)(a[4]) and part("data")(a[5]),t.loc(n),"a send request is handled with (%s)"%", ".join(show(x)[:40] for x in a[2:]))
    exactly(ck,t,"route","request",[t.u.start],hm,t.exits(),"a send request is ignored","a send request is handled twice")
    u=ck.root(S+"user_task_poll",opaque=("handle_service_task","poll_next","is_terminated"))
    src=lambda x: CALL("poll_next",name("service_task_receiver"))(core_of(x))
    hs=u.calls("handle_service_task"); ck.floor("route","handling of requests",len(hs),1,u.body.span)
    for n in hs:
        a=u.args(n)
        ck.ob("route","request and its priority",src(a[2]) and src(a[3]) and names_of(a[2])[-1:]==["1"] and names_of(a[3])[-1:]==["0"],u.loc(n),"a request is handled as %s with priority %s"%(show(a[2])[:60],show(a[3])[:60]))
    exactly(ck,u,"route","taken request",u.after_edges(u.edges_where(IS(pay(CALL("poll_next",name("service_task_receiver")),"Ready"),"Some"))),hs,u.exits(),"a request is taken and not handled","a request is handled twice")
    for var in("Single","Multi","All"):
        r=ck.root(S+"handle_message",assume=under(P(3),var),opaque=("push_message","SessionController::try_send","fmt"))
        ps=r.calls("push_message"); ck.floor("route","queueings for %s"%var,len(ps),1,r.body.span)
        for n in ps:
            a=r.args(n)
            ck.ob("route","%s: protocol and priority"%var,P(4)(a[1]) and P(5)(a[2]),r.loc(n),"a message is queued for protocol %s with priority %s"%(show(a[1])[:40],show(a[2])[:40]))
            ck.ob("route","%s: data"%var,has(a[3],P(6)),r.loc(n),"what is queued is %s"%show(a[3])[:80])
        if var!="All":
            gm=[n for n in r.calls("HashMap::get_mut","HashMap::get") if name("sessions")(r.args(n)[0])]
            ck.floor("route","session lookups for %s"%var,len(gm),1,r.body.span)
            for n in gm:
                k=r.args(n)[1]
                ok=(strip_cast(k)[0]=="f" and has(k,P(3))) if var=="Single" else (pay(CALL(("next","pop","pop_front")),"Some")(k) or strip_cast(k)[0]=="elem") and has(k,P(3))
                ck.ob("route","%s: the session named"%var,ok,r.loc(n),"a message is queued for session %s"%show(k)[:80])
            hit=r.after_edges(r.edges_where(IS(lambda e: name("sessions")(e) or CALL(("get","get_mut"),name("sessions"))(e),"Some")))
            nxt=set(r.states_of([n for n in r.calls("next")]))|r.exits()
            ids={n.id for n in ps}; nx={n.id for n in r.calls("next")}
            p=r.path_from(hit,nxt,avoid=ps)
            ck.ob("route","%s: queued"%var,p is None,r._where(p,0) if p else r.body.span,"a message for an open session is not queued",r.trail(p))
        else:
            it=r.edges_where(lambda f: f[0]=="is" and "Some" in f[2] and len(f[2])==1 and CALL("next")(f[1]) and has(f[1],name("sessions")))
            ck.floor("route","broadcast loop",len(it),1,r.body.span)
            nx={n.id for n in r.calls("next")}; ids={n.id for n in ps}
            nxt=set(r.states_of([n for n in r.calls("next")]))|r.exits()
            p=r.path_from(r.after_edges(it),nxt,avoid=ps)
            ck.ob("route","All: queued",p is None,r._where(p,0) if p else r.body.span,"a broadcast message is not queued for a session",r.trail(p))
            whole=[n for n in r.calls("next") if any(CALL(("filter","skip","take","skip_while","take_while","step_by"))(x) for x in subs(r.args(n)[0]))]
            ck.ob("route","All: every session",not whole,r.loc(whole[0]) if whole else r.body.span,"a broadcast leaves sessions out")
        # queued once per session: between two queueings the next session is looked up
        nx={n.id for n in r.calls("next")}; ids={n.id for n in ps}
        p=r.query(0,lambda k,x: 0 if x in nx else min(2,k+(x in ids)),None,lambda k,s: k==2)
        ck.ob("route","%s: once"%var,p is None,r._where(p) if p else r.body.span,"a message is queued twice for one session",r.trail(p))
        ts=r.calls("SessionController::try_send")
        p=r.path(ps,r.exits(),avoid=ts)
        ck.ob("route","%s: sent on"%var,p is None,r._where(p,0) if p else r.body.span,"a message is queued for a session and nothing passes it on",r.trail(p))
    # the session hands it to the stream of the protocol
    for v,f in(("High","high_buffer"),("Normal","normal_buffer")):
        both=lambda fa,v=v: under(P(3),"ProtocolMessage")(fa) or under(P(4),v)(fa)
        r=ck.root(SES+"handle_session_event",assume=both,opaque=OPQ[:-1]+("close_session","close_all_proto","handle_substream","push_high_","PriorityBuffer::try_send"))
        pb=[n for n in r.calls("PriorityBuffer::push_high","PriorityBuffer::push_normal")]
        want="push_high" if v=="High" else "push_normal"
        ck.floor("route","queueings for a stream (%s)"%v,len(pb),1,r.body.span)
        for n in pb:
            a=r.args(n); e=strip_cast(a[1]); d=dict(e[3]) if e[0]=="agg" else {}
            ck.ob("route","stream %s: its queue"%v,last(r.g.qual(n))==want,r.loc(n),"a message of priority %s is queued with %s"%(v,last(r.g.qual(n))))
            ck.ob("route","stream %s: the message"%v,e[0]=="agg" and e[2]=="Message" and part("data")(d.get("data",("?",))) and part("proto_id")(d.get("proto_id",("?",))),r.loc(n),"what is queued for the stream is %s"%show(e)[:160])
        lk=[n for n in r.calls("HashMap::get","HashMap::get_mut") if name("proto_streams")(r.args(n)[0])]
        for n in lk: ck.ob("route","stream %s: protocol looked up"%v,part("proto_id")(r.args(n)[1]),r.loc(n),"the stream is looked up by %s"%show(r.args(n)[1])[:60])
        gm=[n for n in r.calls("HashMap::get","HashMap::get_mut") if name("substreams")(r.args(n)[0])]
        ck.floor("route","stream lookups (%s)"%v,len(gm),1,r.body.span); ck.floor("route","protocol lookups (%s)"%v,len(lk),1,r.body.span)
        for n in gm: ck.ob("route","stream %s: of that protocol"%v,pay(CALL(("get","get_mut"),name("proto_streams")),"Some")(r.args(n)[1]),r.loc(n),"the message is queued for stream %s"%show(r.args(n)[1])[:80])
        hit=r.after_edges(r.edges_where(IS(lambda e: name("substreams")(e) or CALL(("get","get_mut"),name("substreams"))(e),"Some")))
        exactly(ck,r,"route","stream %s"%v,hit,pb,r.exits(),"a message for an open protocol is not queued","a message is queued twice")
        ts=r.calls("PriorityBuffer::try_send")
        p=r.path(pb,r.exits(),avoid=ts)
        ck.ob("route","stream %s: sent on"%v,p is None,r._where(p,0) if p else r.body.span,"a message is queued for a stream and nothing passes it on",r.trail(p))
    q=ck.root(SES+"recv_service",opaque=("handle_session_event","poll_next","clean"))
    src=lambda x: CALL("poll_next",name("service_receiver"))(core_of(x))
    hs=q.calls("handle_session_event"); ck.floor("route","session orders",len(hs),1,q.body.span)
    for n in hs:
        a=q.args(n)
        ck.ob("route","session: order and its priority",src(a[2]) and src(a[3]) and names_of(a[2])[-1:]==["1"] and names_of(a[3])[-1:]==["0"],q.loc(n),"an order of the service is handled as %s with priority %s"%(show(a[2])[:60],show(a[3])[:60]))
    some=q.after_edges(q.edges_where(IS(pay(CALL("poll_next",name("service_receiver")),"Ready"),"Some")))
    notn=q.edge(ANYF(ISNT(name("state"),"Normal"),FALSE(CALL("is_normal"))))
    exactly(ck,q,"route","session order",some,hs,q.exits(),"an order of the service is taken by an open session and not handled","an order is handled twice",avoid_edge=notn)
    # where the queue of a session or stream is held back it is tried again on every poll
    for fn,fname,own in((S+"distribute_to_session","sessions","service"),(SES+"distribute_to_substream","substreams","session")):
        r=ck.root(fn,opaque=("try_send","fmt","handle_error"))
        ts=[n for n in r.calls("try_send") if has(r.args(n)[0],name(fname))]
        ck.floor("route","retries of the "+own,len(ts),1,r.body.span)
    for fn,sub in(("<tentacle::service::Service as futures_core::stream::Stream>::poll_next","distribute_to_session"),("<tentacle::session::Session as futures_core::stream::Stream>::poll_next","distribute_to_substream")):
        b=ck.p.one(fn)
        r=Root(ck,b,opaque=OPQ+("session_poll","user_task_poll","recv_service","recv_substreams","init_proto_handles","try_update_listens","distribute_to_session","distribute_to_user_level","distribute_to_substream","close_session","close_all_proto","wait_handle_poll","send_pending_task","output"))
        ds=r.calls(sub); ck.floor("route","retries in "+b.qual.split(" ")[0][1:],len(ds),1,b.span)
        rc=r.calls("user_task_poll","recv_service")
        p=r.path(None,rc,avoid=ds)
        ck.ob("route",b.qual.split(" ")[0][1:]+": older first",p is None,r._where(p) if p else b.span,"new messages are taken before what is queued was tried again",r.trail(p))
def receive(ck):
    r=ck.root(SUB+"recv_frame",opaque=("Buffer::try_send","poll_next","error_close","fmt"))
    fr=CALL("poll_next",name("substream"))
    good=r.after_edges(r.edges_where(IS(pay(fr,"Ready","Some"),"Ok")))
    ck.floor("receive","decoded frames",len(good),1,r.body.span)
    data=lambda e: all(CALL(("call","call_mut","call_once"))(core_of(x)) or fr(core_of(x)) for x in alts(e)) and has(e,fr)
    for f,adt,var,ab in(("service_proto_sender","ServiceProtocolEvent","Received",IS(name("service_proto_sender"),"None")),("session_proto_sender","SessionProtocolEvent","Received",IS(name("session_proto_sender"),"None")),("event_sender","ProtocolEvent","Message",FALSE(name("event")))):
        ps=[n for n in r.calls("push_back") if has(r.args(n)[0],name(f)) and AGG(adt,var)(r.args(n)[1])]
        ck.floor("receive","deliveries to %s"%f,len(ps),1,r.body.span)
        for n in ps:
            d=dict(strip_cast(r.args(n)[1])[3])
            ck.ob("receive","%s: the data"%f,data(d["data"]),r.loc(n),"what is delivered is %s"%show(d["data"])[:100])
            if "id" in d: ck.ob("receive","%s: from"%f,name("id")(d["id"]) and (has(d["id"],name("context")) or adt=="ProtocolEvent"),r.loc(n),"the message is delivered as from %s"%show(d["id"]))
            if "proto_id" in d: ck.ob("receive","%s: protocol"%f,name("proto_id")(d["proto_id"]),r.loc(n),"the message is delivered as of protocol %s"%show(d["proto_id"]))
        bad=r.calls("error_close")
        exactly(ck,r,"receive","%s"%f,good,ps+bad,r.exits(),"a received message is not delivered","a received message is delivered twice",avoid_edge=r.edge(ab))
    # what the stream reports goes on to the service
    m=ck.root(SES+"handle_stream_event",assume=under(P(3),"Message"),opaque=OPQ+("output","open_protocol"))
    part=lambda f: lambda e: strip_cast(e)[0]=="f" and strip_cast(e)[2]==f and has(e,P(3))
    ps=[n for n in m.calls("push_back","Buffer::push") if len(m.args(n))>1 and AGG("SessionEvent","ProtocolMessage")(m.args(n)[1])]
    ck.floor("receive","session to service",len(ps),1,m.body.span)
    for n in ps:
        d=dict(strip_cast(m.args(n)[1])[3])
        ck.ob("receive","session to service: content",part("data")(d["data"]) and part("proto_id")(d["proto_id"]) and has(d["id"],name("context")),m.loc(n),"a received message is passed on as %s"%show(m.args(n)[1])[:120])
    keep=m.edge(FALSE(name("keep_buffer")))
    exactly(ck,m,"receive","session to service",[m.u.start],ps,m.exits(),"a received message is not passed on","a received message is passed on twice",avoid_edge=keep)
    p=m.path(None,m.exits(),avoid=ps,avoid_edge=m.edge(IS(name("state"),"RemoteClose","LocalClose","Abnormal","Closed")))
    ck.ob("receive","session to service: dropped only when ending",p is None,m._where(p) if p else m.body.span,"a message received on an open session is not passed on",m.trail(p))
    ps=ck.root(S+"handle_session_event",assume=under(P(3),"ProtocolMessage"),opaque=OPQ+("session_open","session_close","protocol_open","protocol_close","Service::handshake","try_update_listens","spawn_listener","handle_listen_addr","listen_inner","handle_service_task"))
    hp=ps.calls("handle_proto"); ck.floor("receive","deliveries to the service handle",len(hp),1,ps.body.span)
    for n in hp:
        v=strip_cast(ps.args(n)[2]); d=dict(v[3]) if v[0]=="agg" else {}
        ck.ob("receive","service handle: content",v[0]=="agg" and v[2]=="Received" and part("data")(d["data"]) and part("proto_id")(d["proto_id"]),ps.loc(n),"a received message is delivered as %s"%show(v)[:120])
        g=[x for x in ps.calls("HashMap::get") if name("sessions")(ps.args(x)[0])]
        ck.ob("receive","service handle: session",bool(g) and all(part("id")(ps.args(x)[1]) for x in g),ps.loc(n),"the session of a message is looked up by something else than its id")
    exactly(ck,ps,"receive","service handle",[ps.u.start],hp,ps.exits(),"a received message is not delivered","a received message is delivered twice",
        avoid_edge=ps.edge(ANYF(FALSE(CALL("contains",HAS(name("event")))),IS(CALL("get",name("sessions")),"None"))))
    # handler streams
    for ty,cb in(("ServiceProtocolStream","received"),("SessionProtocolStream","received")):
        h=ck.root("tentacle::protocol_handle_stream::%s::handle_event"%ty,assume=under(P(2),"Received"),opaque=("disconnected","connected","notify","init"))
        rc=[n for n in h.calls("received") if len(h.args(n))>2]; ck.floor("receive","%s deliveries"%ty,len(rc),1,h.body.span)
        dt=lambda e: strip_cast(e)[0]=="f" and strip_cast(e)[2]=="data" and has(e,P(2)) or any(strip_cast(x)[0]=="f" and strip_cast(x)[2]=="data" for x in alts(e))
        for n in rc: ck.ob("receive","%s: the data"%ty,dt(h.args(n)[2]),h.loc(n),"the handler is given %s"%show(h.args(n)[2])[:80])
        other=lambda f: f[0]=="is" and "Received" not in f[2] and any(P(2)(x) for x in alts(f[1]))
        ex=ANYF(TRUE(HAS(CALL("load"))),IS(CALL("get",name("sessions")),"None"),other)
        exactly(ck,h,"receive",ty,[h.u.start],rc,h.exits(),"a received message is not given to the handler","a received message is given to the handler twice",avoid_edge=h.edge(ex))
        pn=ck.root("<tentacle::protocol_handle_stream::%s as futures_core::stream::Stream>::poll_next"%ty,opaque=("handle_event","poll_next","handle_poll"))
        he=[n for n in pn.calls("handle_event") if CALL("poll_next",name("receiver"))(core_of(pn.args(n)[1]))]
        ck.floor("receive","%s events"%ty,len(he),1,pn.body.span)
        some=pn.after_edges(pn.edges_where(IS(pay(CALL("poll_next",name("receiver")),"Ready"),"Some")))
        exactly(ck,pn,"receive",ty+" event",some,he,pn.exits(),"an event for the handler is taken and not handled","an event for the handler is handled twice")
    # the read half handed to the user
    r=ck.root("<%s as futures_core::stream::Stream>::poll_next"%RP,opaque=("poll_next","poll_next_unpin"))
    fr=CALL(("poll_next_unpin","poll_next"),name("substream"))
    ok=r.after_edges(r.edges_where(IS(pay(fr,"Ready","Some"),"Ok")))
    ck.floor("receive","frames of the read half",len(ok),1,r.body.span)
    bad=r.exits(lambda v: not(v is not None and v[0]=="v" and v[1]=="Ready" and Unfolded.sub(v,"0") is not None and Unfolded.sub(v,"0")[0]=="v" and Unfolded.sub(v,"0")[1]=="Some"))
    p=r.path_from(ok,bad)
    ck.ob("receive","read half: returned",p is None,r._where(p,0) if p else r.body.span,"a received message is not returned to the reader",r.trail(p))
def discard(ck):
    """queued items are thrown away only when something is over"""
    n=0
    endev=("SessionClose","ProtocolClose","Close","Shutdown","ChangeState","ProtocolHandleError")
    def ending(f):
        if f[0]=="is" and f[2]<=frozenset(endev): return True
        if f[0]=="is" and f[2]==frozenset(["Disconnect"]): return True
        if IS(name("state"),"LocalClose","RemoteClose","Abnormal","Closed")(f) or FALSE(CALL(("is_normal",)))(f): return True
        if f[0]=="true" and (name("dead")(f[1]) or has(f[1],name("closed","shutdown"))): return True
        if CMP("<",HAS(name("send_buffer_size")),HAS(OR(CALL("pending_data_size"),name("pending_data_size"))))(f): return True
        if IS(lambda e: has(e,CALL("poll_next",name("service_receiver","event_receiver","proto_event_receiver"))),"None")(f): return True
        if IS(CALL(("send_data","flush","poll_flush","start_send","poll_ready","call")),"Err")(f) or IS(lambda e: any(CALL(("poll_flush","start_send","poll_ready"))(core_of(x)) or CALL("map")(x) for x in alts(e)),"Err")(f): return True
        return False
    for b in sorted(ck.p.bodies.values(),key=lambda b:b.qual):
        if not live(b) or b.crate!="tentacle" or b.qual.startswith(BUF): continue
        names=("Buffer::clear","PriorityBuffer::clear","PriorityBuffer::drain","Buffer::take")
        raw=[bl["t"] for bl in b.blocks if not bl["c"] and bl["t"][0]=="call" and bl["t"][1][0]=="fn"]
        hits=[t for t in raw if any(match_name(t[1][1]["q"],x) for x in names)]
        q=[t for t in raw if last(t[1][1]["d"]) in OPS_DROP|{"remove","swap_remove"} and t[1][1]["kr"] not in WORKSPACE]
        if not hits and not q: continue
        r=Root(ck,b,opaque=lambda c: True,depth=0)
        def pick(x,b=b):
            out=[]
            for m in x.nodes("call"):
                if m.body is not b or m.data[1][0]!="fn": continue
                if any(match_name(x.g.qual(m),k) for k in names): out.append(m); continue
                nm=last(x.g.decl(m))
                if nm=="into_iter" and not any(last(m.data[1][1]["ga"][0].split("<")[0])==c for c in("HashMap","VecDeque","Vec","BTreeMap","HashSet")): continue
                if x.args(m) and nm in OPS_DROP|{"remove","swap_remove"}:
                    a=strip_cast(x.args(m)[0])
                    if isq(a) or (a[0]=="f" and a[2] in("substreams","service_proto_handles","session_proto_handles") and a[3].split("<")[0].split("::")[-1] in("Session","Service")) or (a[0]=="f" and a[2]=="sessions" and a[3].split("<")[0].split("::")[-1]=="Service"): out.append(m)
            return out
        ns=pick(r)
        if not ns: continue
        for m in ns:
            if name("future_task_sender")(r.args(m)[0]): continue
            n+=1
            sel=lambda x,m=m,b=b: [k for k in pick(x) if k.span==m.span and last(x.g.decl(k))==last(r.g.decl(m))]
            res=up(ck,b,sel,ending,opaque=OPQ+("poll_next",))
            inst="%s of %s in %s"%(last(r.g.decl(m)),show(strip_cast(r.args(m)[0]))[:40],b.qual.split("tentacle::")[-1])
            ck.ob("discard",inst,res is None,r.loc(m),"queued messages are thrown away although nothing is ending",res[0].trail(res[1]) if res else "")
    ck.floor("discard","places that throw queued items away",n,8)
def hands(ck):
    """nobody reorders the queues"""
    k=0
    for b in sorted(ck.p.bodies.values(),key=lambda b:b.qual):
        if not live(b) or b.crate!="tentacle": continue
        if not any(st[0]=="=" and st[2][0]=="ref" and any(p[0]=="f" and p[1] in OWN for p in st[2][2][1]) for bl in b.blocks if not bl["c"] for st in bl["s"]): continue
        r=Root(ck,b,opaque=lambda c: True,depth=0)
        for m in r.nodes("call"):
            if m.data[1][0]!="fn" or not r.args(m) or not isq(r.args(m)[0]): continue
            nm=last(r.g.decl(m)); k+=1
            ck.ob("hands","%s %s"%(b.qual.split("tentacle::")[-1],nm),nm in OPS_OK|OPS_DROP or r.g.qual(m).startswith("tentacle"),r.loc(m),"a message queue is changed with %s, which does not keep its order"%nm)
    ck.floor("hands","operations on message queues",k,20)
RULES=[("buffers",["molc"],buffers),("append",["molc"],append),("stream",["molc"],stream),("again",["molc"],again),("handover",["molc"],handover),("route",["molc"],route),("receive",["molc"],receive),("discard",["molc"],discard),("hands",["molc"],hands)]
