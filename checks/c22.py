"""Static rules on session announcements: a session enters the service's table exactly where it is announced as opened, once,
under an id that was just found absent from the table; it leaves the table exactly where it is announced as closed, once, and
everything else that names a session is looked up in the table; a session reports its own end once, as the last thing it
reports, on every way it can end, and reports nothing when polled after it; a shutdown ends every session in the table."""
from que import *
from unfold import V
CONFIGS=["molc"]
ASSUMES=["The channel from a session to the service keeps order (futures::mpsc)"]
TAB=name("sessions")
HANDLERS=("handle_event","handle_error","handle_proto")
def tabops(x,f,ops): return [n for n in x.nodes("call") if n.data[1][0]=="fn" and last(x.g.decl(n)) in ops and x.args(n) and strip_cast(x.args(n)[0])[0]=="f" and strip_cast(x.args(n)[0])[2]==f and strip_cast(x.args(n)[0])[3].split("<")[0].split("::")[-1]=="Service"]
def opened(ck):
    r=ck.root(S+"session_open",opaque=OPQ+("generate_next_session","poll_shutdown"))
    ins=tabops(r,"sessions",("insert",)); ck.floor("opened","entering of a session",len(ins),1,r.body.span)
    ev=[n for n in r.calls("handle_event") if AGG("ServiceEvent","SessionOpen")(r.args(n)[2])]; ck.floor("opened","announcement",len(ev),1,r.body.span)
    gen=r.calls("generate_next_session"); ck.floor("opened","choice of an id",len(gen),1,r.body.span)
    exactly(ck,r,"opened","announced",r.after_nodes(ins),ev,r.exits(),"a session is entered and not announced as opened","a session is announced as opened twice")
    p=r.path(None,ev,avoid=ins); ck.ob("opened","entered first",p is None,r._where(p) if p else r.body.span,"a session that is not in the table is announced as opened",r.trail(p))
    p=r.path(ins,ins); ck.ob("opened","entered once",p is None,r._where(p) if p else r.body.span,"a session is entered twice",r.trail(p))
    p=r.path(None,ins,avoid=gen); ck.ob("opened","new id",p is None,r._where(p) if p else r.body.span,"a session is entered under an id that was not chosen for it",r.trail(p))
    sp=r.calls("spawn"); p=r.path(ins,r.exits(),avoid=sp); ck.ob("opened","set going",p is None,r._where(p) if p else r.body.span,"a session is announced and never runs",r.trail(p))
    p=r.path(None,r.calls("Session::new"),avoid=ins); ck.ob("opened","made only for an entered session",p is None,r._where(p) if p else r.body.span,"a session is started without being in the table",r.trail(p))
    oth=[n for n in r.calls(*HANDLERS) if n not in ev]
    p=r.path(ins,oth); ck.ob("opened","nothing before it",p is None,r._where(p) if p else r.body.span,"something else is announced before the opening",r.trail(p))
    idv=lambda e: name("next_session")(e)
    for n in ins:
        k,v=r.args(n)[1:3]
        ctx=[dict(x[3]) for x in subs(v) if x[0]=="agg" and last(x[1])=="SessionContext"]
        ck.ob("opened","entered under its id",bool(ctx) and idv(ctx[0]["id"]) and (idv(k) or (name("id")(k))),r.loc(n),"a session is entered under %s"%show(k)[:60])
        for m in ev:
            c=dict(strip_cast(r.args(m)[2])[3])["session_context"]
            ck.ob("opened","announced is the one entered",any(strip_cast(x)==strip_cast(c) for x in subs(v)),r.loc(m),"the session announced is %s"%show(c)[:80])
    g=ck.root(S+"generate_next_session")
    ws=[n for n in g.nodes("assign") if n.data[0][1] and n.data[0][1][-1][0]=="f" and n.data[0][1][-1][1]=="next_session"]+[n for n in g.calls("*_assign") if False]
    free=g.edge(FALSE(CALL("contains_key",TAB,name("next_session"))))
    free2=g.edge(ANYF(FALSE(CALL("contains_key",TAB)),IS(CALL("get",TAB),"None")))
    p=g.path(None,g.exits(),avoid_edge=free2); ck.ob("opened","id is free",p is None,g._where(p) if p else g.body.span,"an id is chosen without being found absent from the table",g.trail(p))
    p=g.query(0,lambda k,x: 0 if x in {n.id for n in ws} else k,lambda k,n,i: 1 if free2(n,i) else k,lambda k,s: k==0 and s in g.exits())
    ck.ob("opened","id is not changed afterwards",p is None,g._where(p) if p else g.body.span,"the id that is used is not the one that was found absent",g.trail(p))
    for n in g.calls("contains_key","get"):
        if TAB(g.args(n)[0]): ck.ob("opened","the id itself is looked up",has(g.args(n)[1],name("next_session")),g.loc(n),"%s is looked up"%show(g.args(n)[1])[:60])
    for b in sorted(ck.p.bodies.values(),key=lambda b:b.qual):
        if not live(b) or b.crate!="tentacle": continue
        for bl in b.blocks:
            if bl["c"]: continue
            for st in bl["s"]:
                if st[0]=="=" and st[1][1] and st[1][1][-1][0]=="f" and st[1][1][-1][1]=="next_session": ck.ob("opened","id set in "+b.qual,within(ck,b,{S+"generate_next_session"}),b.span,"the next id is changed outside of its choice")
    for what,home in(("SessionOpen",S+"session_open"),("SessionClose",S+"session_close")):
        mk=makers(ck,"ServiceEvent",what); ck.floor("opened","makers of "+what,len(mk),1)
        for b in mk: ck.ob("opened","%s made by %s"%(what,b.qual),within(ck,b,{home}),b.span,"%s is announced outside of the function that changes the table"%what)
    for b in sorted(ck.p.bodies.values(),key=lambda b:b.qual):
        if not live(b) or b.crate!="tentacle" or "service" not in b.qual: continue
        x=Root(ck,b,opaque=lambda c: True,depth=0,closures=False)
        for n in tabops(x,"sessions",("insert","entry","extend","remove","clear","drain","retain","remove_entry")):
            d=last(x.g.decl(n)); home=S+("session_open" if d in("insert","entry","extend") else "session_close")
            ck.ob("opened","table: %s in %s"%(d,b.qual),within(ck,b,{home}) and d in("insert","remove"),x.loc(n),"the table of sessions is changed with %s outside of opening and closing"%d)
def closing(ck):
    r=ck.root(S+"session_close",opaque=OPQ+("SessionController::push","SessionController::try_send"))
    rm=tabops(r,"sessions",("remove",)); ck.floor("closing","removal",len(rm),1,r.body.span)
    for n in rm: ck.ob("closing","removed by its id",P(3)(r.args(n)[1]),r.loc(n),"what is removed is %s"%show(r.args(n)[1])[:60])
    ev=[n for n in r.calls("handle_event") if AGG("ServiceEvent","SessionClose")(r.args(n)[2])]; ck.floor("closing","announcement",len(ev),1,r.body.span)
    hit=r.after_edges(r.edges_where(IS(CALL("remove",TAB),"Some"))); ck.floor("closing","removals that found the session",len(hit),1,r.body.span)
    exactly(ck,r,"closing","announced",hit,ev,r.exits(),"a session is removed and not announced as closed","a session is announced as closed twice")
    p=r.path(None,ev,avoid_edge=r.edge(IS(CALL("remove",TAB),"Some"))); ck.ob("closing","only if it was open",p is None,r._where(p) if p else r.body.span,"a session that is not in the table is announced as closed",r.trail(p))
    for n in ev: ck.ob("closing","the removed one",pay(CALL("remove",TAB),"Some")(strip_cast(dict(strip_cast(r.args(n)[2])[3])["session_context"])[1]) if strip_cast(dict(strip_cast(r.args(n)[2])[3])["session_context"])[0]=="f" else False,r.loc(n),"the session announced is %s"%show(r.args(n)[2])[:80])
    fo=tabops(r,"session_proto_handles",("retain","remove","clear")); ck.floor("closing","forgetting its handlers",len(fo),1,r.body.span)
    p=r.path(None,rm,avoid=fo) and r.path(rm,r.exits(),avoid=fo); ck.ob("closing","its handlers are forgotten",p is None,r._where(p) if p else r.body.span,"what belongs to a closed session is kept",r.trail(p) if p else "")
    for n in fo:
        if last(r.g.decl(n))!="retain": continue
        cl=[b for b in ck.p.bodies.values() if b.kind=="closure" and b.parent==r.body.key and b.argc==3]
        ok=False
        for b in cl:
            x=Root(ck,b); vs=retvals(x)
            of=lambda e: has(e,P(2)) and names_of(e)[:1]==["0"]
            ne=lambda e: e[0]=="bin" and e[1]=="Ne" and ((of(e[2]) and not has(e[3],P(2))) or (of(e[3]) and not has(e[2],P(2))))
            nec=lambda e: e[0]=="call" and last(e[1])=="ne" and any(of(y) for y in e[2]) and any(not has(y,P(2)) for y in e[2])
            if len(vs)==1 and(ne(vs[0]) or nec(vs[0])): ok=True
        ck.ob("closing","exactly its handlers",ok,r.loc(n),"the handlers that are kept are not those of the other sessions")
    # an order from outside only asks the session
    ext=r.after_edges(r.edges_where(lambda f: IS(P(4),"External")(f) or (f[0]=="cmp" and f[1]=="Eq" and has(f,P(4)))))
    ps=[n for n in r.calls("SessionController::push") if AGG("SessionEvent","SessionClose")(r.args(n)[2])]; ck.floor("closing","order to the session",len(ps),1,r.body.span)
    for n in ps: ck.ob("closing","order to that session",has(r.args(n)[0],TAB) and KHIGH(r.args(n)[1]),r.loc(n),"the order to close goes to %s"%show(r.args(n)[0])[:60])
    p=r.path(ps,rm); ck.ob("closing","an order does not remove",p is None,r._where(p) if p else r.body.span,"a session that is only asked to close is removed at once",r.trail(p))
    p=r.path(ps,r.exits(),avoid=r.calls("SessionController::try_send","try_send")); ck.ob("closing","order is sent",p is None,r._where(p) if p else r.body.span,"the order to close is not sent",r.trail(p))
    # both ways exist
    h=ck.root(S+"handle_session_event",assume=under(P(3),"SessionClose"),opaque=OPQ+("session_close","session_open","protocol_open","protocol_close","Service::handshake","try_update_listens","spawn_listener","handle_service_task"))
    sc=h.calls("session_close"); ck.floor("closing","end of a session",len(sc),1,h.body.span)
    part=lambda f: lambda e: strip_cast(e)[0]=="f" and strip_cast(e)[2]==f and has(e,P(3))
    for n in sc: ck.ob("closing","end of that session",part("id")(h.args(n)[2]) and AGG("Source","Internal")(h.args(n)[3]),h.loc(n),"the end of a session closes %s"%show(h.args(n)[2])[:60])
    exactly(ck,h,"closing","end of a session",[h.u.start],sc,h.exits(),"the end of a session is ignored","the end of a session is handled twice")
    t=ck.root(S+"handle_service_task",assume=under(P(3),"Disconnect"),opaque=OPQ+("handle_message","session_close","protocol_close","protocol_open","dial_inner","listen_inner"))
    sc=t.calls("session_close"); ck.floor("closing","request to close",len(sc),1,t.body.span)
    for n in sc: ck.ob("closing","request for that session",part("session_id")(t.args(n)[2]) and AGG("Source","External")(t.args(n)[3]),t.loc(n),"a request to close closes %s"%show(t.args(n)[2])[:60])
    exactly(ck,t,"closing","request to close",[t.u.start],sc,t.exits(),"a request to close a session is ignored","a request is handled twice")
    t=ck.root(S+"handle_service_task",assume=under(P(3),"Shutdown"),opaque=OPQ+("handle_message","session_close","protocol_close","protocol_open","dial_inner","listen_inner"))
    for v,src in((True,"Internal"),(False,"External")):
        quick=lambda f,v=v: (TRUE if v else FALSE)(lambda e: has(e,P(3)))(f)
        st=t.after_edges(t.edges_where(quick)); ck.floor("closing","shutdown quick=%s"%v,len(st),1,t.body.span)
        key0=lambda e: has(e,TAB) and not has(e,CALL(("filter","skip","take","step_by","skip_while","take_while","filter_map")))
        fl=filled(t,key0); keys=lambda e: key0(e) or fl(e)
        fe=[n for n in t.calls("for_each") if keys(t.args(n)[0])]
        done=t.edge(IS(CALL("next",keys),"None"))
        p=t.path_from(st,t.exits(),avoid=fe,avoid_edge=done)
        ck.ob("closing","shutdown quick=%s: every session"%v,p is None,t._where(p,0) if p else t.body.span,"a shutdown does not go through all sessions",t.trail(p))
        reach=[n for n in t.calls("session_close") if t.path_from(st,[n]) is not None]
        if not reach:
            # closures handed to for_each
            for b in ck.p.bodies.values():
                if b.kind=="closure" and b.parent==t.body.key:
                    x=Root(ck,b,opaque=("session_close",)); 
                    reach+=[(x,n) for n in x.calls("session_close")]
        else: reach=[(t,n) for n in reach]
        ok=[1 for x,n in reach if AGG("Source",src)(x.args(n)[3])]
        ck.ob("closing","shutdown quick=%s: closed"%v,bool(ok),t.body.span,"a shutdown does not close the sessions")
def KHIGH(e): return AGG("Priority","High")(e)
def about(ck):
    """whatever else is announced about a session is about one in the table"""
    k=0
    for b in sorted(ck.p.bodies.values(),key=lambda b:b.qual):
        if not live(b) or b.crate!="tentacle" or not any(st[0]=="=" and st[2][0]=="agg" and st[2][1]=="adt" and "session_context" in st[2][4] for bl in b.blocks if not bl["c"] for st in bl["s"]): continue
        x=Root(ck,b,opaque=lambda c: True,depth=0)
        for n in x.nodes("assign"):
            if n.data[1][0]!="agg" or n.data[1][1]!="adt" or "session_context" not in n.data[1][4]: continue
            v=x.value(n)
            if v[0]!="agg" or last(v[1]) not in("ServiceEvent","ServiceError","ProtocolEvent") or v[2]=="SessionOpen": continue
            c=dict(v[3]).get("session_context"); k+=1
            ok=has(c,TAB)
            if not ok and strip_cast(core_of(c))[0]=="p":
                i=strip_cast(core_of(c))[1]; cs=[y for y in callers(ck,b.qual)]
                ok=bool(cs)
                for y in cs:
                    z=Root(ck,y,opaque=lambda c: True,depth=0)
                    for m in z.calls(b.qual): ok=ok and has(z.args(m)[i-1],TAB)
            ck.ob("about","%s in %s"%(v[2],b.qual.split("tentacle::")[-1]),ok,x.loc(n),"%s is announced with a session that is not looked up in the table: %s"%(v[2],show(c)[:80]))
    ck.floor("about","announcements about a session",k,7)
def ends(ck):
    """the session's own report"""
    r=ck.root(SES+"close_session",opaque=("clean","fmt"))
    cl=[n for n in r.calls("push_back") if len(r.args(n))>1 and AGG("SessionEvent","SessionClose")(r.args(n)[1])]; ck.floor("ends","report of the end",len(cl),1,r.body.span)
    for n in cl: ck.ob("ends","of this session",has(dict(strip_cast(r.args(n)[1])[3])["id"],name("context")),r.loc(n),"the end reported is that of %s"%show(r.args(n)[1])[:60])
    isc=r.edge(ANYF(IS(name("state"),"Closed"),TRUE(CALL("is_closed"))))
    exactly(ck,r,"ends","report",[r.u.start],cl,r.exits(),"a session ends without reporting it","the end of a session is reported twice",avoid_edge=isc)
    later=[n for n in r.calls("push_back","push","push_front","insert") if n not in cl and len(r.args(n))>1 and has(r.args(n)[0],name("service_sender"))]
    p=r.path(cl,later); ck.ob("ends","last report",p is None,r._where(p) if p else r.body.span,"something is reported after the end of the session",r.trail(p))
    st=[n for n in r.nodes("assign") if n.data[0][1] and n.data[0][1][-1][0]=="f" and n.data[0][1][-1][1]=="state" and AGG("SessionState","Closed")(r.value(n))]
    p=r.path(None,cl,avoid=st) and r.path(cl,r.exits(),avoid=st); ck.ob("ends","remembered",p is None,r._where(p) if p else r.body.span,"the end of a session is reported without being remembered",r.trail(p) if p else "")
    p=r.path(None,cl,avoid_edge=r.edge(ANYF(ISNT(name("state"),"Closed"),FALSE(CALL("is_closed"))))); ck.ob("ends","only once",p is None,r._where(p) if p else r.body.span,"the end of a session is reported although it was before",r.trail(p))
    sent=r.calls("send_all","spawn"); p=r.path(cl,r.exits(),avoid=sent); ck.ob("ends","sent",p is None,r._where(p) if p else r.body.span,"the report is not sent",r.trail(p))
    q=[n for n in r.calls("mem::take","Buffer::take") if has(r.args(n)[0],name("service_sender"))]
    p=r.path(None,cl,avoid=q) and r.path(cl,r.exits(),avoid=q); ck.ob("ends","behind everything reported before",p is None,r._where(p) if p else r.body.span,"the report overtakes what is still queued",r.trail(p) if p else "")
    up=[b for b in makers(ck,"SessionEvent","SessionClose") if b.qual.startswith("tentacle::session") or "session::Session" in b.qual]
    for b in up: ck.ob("ends","made by "+b.qual,within(ck,b,{SES+"close_session"}),b.span,"the end of a session is reported outside of close_session")
    # on every way
    pn="<tentacle::session::Session as futures_core::stream::Stream>::poll_next"
    t=ck.root(pn,opaque=("fmt","flush","recv_substreams","recv_service","close_session","close_all_proto","wait_handle_poll"))
    cs=t.calls("close_session"); ck.floor("ends","ends of a session",len(cs),1,t.body.span)
    for vs,ok in((("LocalClose","Abnormal"),cs),(("RemoteClose",),cs+t.calls("close_all_proto"))):
        for v in vs:
            s=t.after_edges(t.edges_where(lambda f,v=v: f[0]=="is" and name("state")(f[1]) and f[2]<=frozenset(["LocalClose","Abnormal","RemoteClose"]) and v in f[2]))
            ck.floor("ends","state %s"%v,len(s),1,t.body.span)
            p=t.path_from(s,t.exits(),avoid=ok); ck.ob("ends","state %s ends the session"%v,p is None,t._where(p,0) if p else t.body.span,"a session in state %s is not closed"%v,t.trail(p))
    empty=t.after_edges(t.edges_where(CMP("==",LEN(name("proto_streams")),K(0))))
    if empty:
        p=t.path_from(empty,t.exits(),avoid=cs); ck.ob("ends","nothing open any more",p is None,t._where(p,0) if p else t.body.span,"a session whose peer left and that has no stream left is not closed",t.trail(p))
    a=ck.root(SES+"close_all_proto",opaque=("close_session","fmt","PriorityBuffer::try_send","PriorityBuffer::push_high"))
    stc=[n for n in a.calls("store") if name("closed")(a.args(n)[0]) and strip_cast(a.args(n)[1])==("c",True)]
    p=a.path(None,a.exits(),avoid=stc+a.calls("close_session")); ck.ob("ends","closing goes on",p is None,a._where(p) if p else a.body.span,"a session whose peer left neither closes nor notes that it is closing",a.trail(p))
    s=a.after_edges(a.edges_where(TRUE(CALL("load",name("closed"))))); ck.floor("ends","second round of closing",len(s),1,a.body.span)
    p=a.path_from(s,a.exits(),avoid=a.calls("close_session")); ck.ob("ends","second round closes",p is None,a._where(p,0) if p else a.body.span,"a session that was told to close its streams is not closed at the next round",a.trail(p))
    fin=t.exits(lambda v: v is None or v[0]!="v" or (v[1]=="Ready" and not(Unfolded.sub(v,"0") is not None and Unfolded.sub(v,"0")[0]=="v" and Unfolded.sub(v,"0")[1]=="Some")))
    closed=t.edge(ANYF(IS(name("state"),"Closed"),TRUE(CALL("is_closed"))))
    p=t.path(None,fin,avoid=cs,avoid_edge=closed); ck.ob("ends","ends only after the report",p is None,t._where(p) if p else t.body.span,"a session can end without reporting it",t.trail(p))
    # nothing is reported when polled after the end, or later in the poll that reported it
    full=Root(ck,ck.p.one(pn),opaque=("fmt","Buffer::try_send","PriorityBuffer::try_send","poll_next","wait_handle_poll","open_proto_stream","for_each","select_procedure","close"),track=["state"],init={"state":V("Closed")})
    ups=[n for n in full.calls("push_back") if has(full.args(n)[0],name("service_sender"))]
    p=full.path(None,ups) if ups else None; ck.ob("ends","silent after the end",p is None,full._where(p) if p else full.body.span,"a session that has reported its end reports something else when it is polled again",full.trail(p))
    any_=Root(ck,ck.p.one(pn),opaque=("fmt","Buffer::try_send","PriorityBuffer::try_send","poll_next","wait_handle_poll","open_proto_stream","for_each","select_procedure","close"),track=["state"],init={"state":V("Normal")})
    cl=[n for n in any_.calls("push_back") if len(any_.args(n))>1 and AGG("SessionEvent","SessionClose")(any_.args(n)[1])]; ck.floor("ends","ends within a poll",len(cl),1,any_.body.span)
    ups=[n for n in any_.calls("push_back") if n not in cl and has(any_.args(n)[0],name("service_sender"))]; ck.floor("ends","reports within a poll",len(ups),3,any_.body.span)
    p=any_.path(cl,ups); ck.ob("ends","silent in the rest of the poll",p is None,any_._where(p) if p else any_.body.span,"a session reports something after its end",any_.trail(p))
    # what ends it reaches it
    for fn,rx in(("recv_service","service_receiver"),("recv_substreams","proto_event_receiver")):
        x=ck.root(SES+fn,opaque=("handle_session_event","handle_stream_event","poll_next","clean"))
        s=x.after_edges(x.edges_where(IS(pay(CALL("poll_next",name(rx)),"Ready"),"None"))); ck.floor("ends","end of "+rx,len(s),1,x.body.span)
        ws=[n for n in x.nodes("assign") if n.data[0][1] and n.data[0][1][-1][0]=="f" and n.data[0][1][-1][1]=="state" and strip_cast(x.value(n))[0]=="agg" and strip_cast(x.value(n))[2] in("LocalClose","Abnormal")]
        p=x.path_from(s,x.exits(),avoid=ws); ck.ob("ends","end of %s ends the session"%rx,p is None,x._where(p,0) if p else x.body.span,"a session that has lost %s goes on"%rx,x.trail(p))
    c=ck.root(SES+"handle_session_event",assume=under(P(3),"ChangeState"),opaque=OPQ+("close_session","close_all_proto","handle_substream","event_output"))
    ws=[n for n in c.nodes("assign") if n.data[0][1] and n.data[0][1][-1][0]=="f" and n.data[0][1][-1][1]=="state"]
    p=c.path(None,c.exits(),avoid=ws,avoid_edge=c.edge(ANYF(ISNT(name("state"),"Normal"),lambda f: f[0]=="cmp" and f[1]=="Ne" and has(f,name("state"))))); ck.ob("ends","loss of the connection",p is None,c._where(p) if p else c.body.span,"the loss of the connection does not end an open session",c.trail(p))
    for n in ws: ck.ob("ends","loss of the connection: state",name("state")(c.value(n)) and has(c.value(n),P(3)),c.loc(n),"the loss of the connection puts the session in state %s"%show(c.value(n))[:40])
    i=ck.root("<tentacle::session::InnerSocket as futures_core::stream::Stream>::poll_next",opaque=("poll_next","quick_send","send"))
    for what,pr in(("end",IS(pay(CALL("poll_next",name("socket")),"Ready"),"None")),("failure",IS(pay(CALL("poll_next",name("socket")),"Ready","Some"),"Err"))):
        s=i.after_edges(i.edges_where(pr)); ck.floor("ends","%s of the multiplexer"%what,len(s),1,i.body.span)
        p=i.path_from(s,i.exits(),avoid=i.calls("spawn","quick_send","try_quick_send","send")); ck.ob("ends","%s of the multiplexer is told"%what,p is None,i._where(p,0) if p else i.body.span,"the %s of the connection is not told to the session"%what,i.trail(p))
    for b in makers(ck,"SessionEvent","ChangeState"):
        x=Root(ck,b,opaque=lambda c: True,depth=0)
        for n in x.nodes("assign"):
            v=x.value(n) if n.data[1][0]=="agg" else None
            if v and v[0]=="agg" and v[2]=="ChangeState": ck.ob("ends","told as an end",all(AGG("SessionState","RemoteClose")(y) or AGG("SessionState","Abnormal")(y) or AGG("SessionState","LocalClose")(y) for y in alts(dict(v[3])["state"])),x.loc(n),"the state told is %s"%show(dict(v[3])["state"])[:60])
    c=ck.root(SES+"handle_session_event",assume=under(P(3),"SessionClose"),opaque=OPQ+("close_session","close_all_proto","handle_substream","event_output"))
    ws=[n for n in c.nodes("assign") if n.data[0][1] and n.data[0][1][-1][0]=="f" and n.data[0][1][-1][1]=="state" and strip_cast(c.value(n))[0]=="agg" and strip_cast(c.value(n))[2] in("LocalClose","Abnormal")]
    p=c.path(None,c.exits(),avoid=ws+c.calls("close_session")); ck.ob("ends","order to close",p is None,c._where(p) if p else c.body.span,"an order to close does not end the session",c.trail(p))
RULES=[("opened",["molc"],opened),("closing",["molc"],closing),("about",["molc"],about),("ends",["molc"],ends)]
