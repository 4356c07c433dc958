"""Static rules on shutdown: the service ends only past the four emptiness tests and always when they all hold; a shutdown request
marks the service, stops listeners and waiting tasks and closes every session on every way through it; nothing is opened or
started once it is marked; every running handler and the task manager can be stopped, is stopped and is waited for before the
end; a background task never waits in a loop, so it ends once what it waits for is gone."""
from que import *
from c22 import tabops
from c23 import nopath, part
from c25 import HST, SE
CONFIGS=["molc"]
ASSUMES=["The runtime drops or finishes a task whose join handle was waited for (tokio)","A waiting end of a channel whose other ends are gone is woken with an error (futures::mpsc, oneshot)"]
PN="<tentacle::service::Service as futures_core::stream::Stream>::poll_next"
FT="tentacle::service::future_task::FutureTaskManager"
WH=name("wait_handle")
EMPTY=lambda f: ANYF(CMP("==",LEN(name(f)),K(0)),TRUE(CALL("is_empty",name(f))))
def end(ck):
    o=OPQ+("session_poll","user_task_poll","try_update_listens","wait_handle_poll","init_proto_handles","distribute_to_session","distribute_to_user_level","flush_buffer","spawn","for_each","send_pending_task","Buffer::is_empty","Buffer::len","State::is_shutdown","is_shutdown")
    r=ck.root(PN,opaque=o)
    w=r.calls("wait_handle_poll"); ck.floor("end","waiting for the handlers",len(w),1,r.body.span)
    conds={"no listener":EMPTY("listens"),"state allows it":TRUE(CALL("is_shutdown",name("state"))),"no session":EMPTY("sessions"),"no waiting task":EMPTY("future_task_sender")}
    dirty=r.calls("session_poll","user_task_poll","send_pending_task","flush_buffer","try_update_listens","init_proto_handles"); di={n.id for n in dirty}; wi={n.id for n in w}
    for what,f in conds.items():
        e=r.edge(f); ck.floor("end","tests: "+what,len(r.edges_where(f)),1,r.body.span)
        p=r.query(0,lambda k,x: 0 if x in di else k,lambda k,n,i: 1 if e(n,i) else k,lambda k,s: k==0 and r.u.states[s][0] in wi)
        nopath(ck,"end","ends only with "+what,r,p,"the service ends although: not (%s)"%what)
    fs=list(conds.values()); neg=[ANYF(CMP("!=",LEN(name(x)),K(0)),FALSE(CALL("is_empty",name(x))),CMP("<",K(0),LEN(name(x)))) for x in("listens","sessions","future_task_sender")]+[FALSE(CALL("is_shutdown",name("state")))]
    ng=[r.edge(f) for f in neg]
    # idle and still not ended: an exit after the last work without any of the four found untrue
    up_=r.calls("send_pending_task") or dirty
    p=r.path([n for n in dirty if last(r.g.decl(n))=="send_pending_task"] or dirty,r.exits(),avoid=w+dirty,avoid_edge=lambda n,i: any(g(n,i) for g in ng))
    nopath(ck,"end","an idle service ends",r,p,"the service goes on although nothing is left")
    none=r.exits(lambda v: v is not None and v[0]=="v" and v[1]=="Ready" and "None" in str(v)); nopath(ck,"end","no other end",r,r.path(None,none,avoid=w),"the service ends without waiting for its handlers")
    p=r.path(w,r.exits(lambda v: v is not None and v[0]=="v")); nopath(ck,"end","waiting is the answer",r,p,"the service goes on while it waits for its handlers to end")
    st=[n for n in r.calls("store") if name("shutdown")(r.args(n)[0])]; ck.floor("end","marking",len(st),1,r.body.span)
    nopath(ck,"end","handlers are told",r,r.path(None,w,avoid=st),"the service waits for handlers that were not told to stop")
    for n in st: ck.ob("end","told to stop",strip_cast(r.args(n)[1])==("c",True),r.loc(n),"the mark is set to %s"%show(r.args(n)[1]))
    nopath(ck,"end","marked only at the end",r,r.path(st,r.exits(),avoid=w),"handlers are told to stop while the service runs")
    k=0
    for b in sorted(ck.p.bodies.values(),key=lambda b:b.qual):
        if not live(b) or b.crate!="tentacle": continue
        if not any(bl["t"][0]=="call" and not bl["c"] and bl["t"][1][0]=="fn" and last(bl["t"][1][1]["q"]) in("store","swap","compare_exchange","fetch_or","compare_and_swap") for bl in b.blocks): continue
        x=Root(ck,b,opaque=lambda c: True,depth=0,closures=False)
        for n in x.calls("store","swap","compare_exchange","fetch_or","compare_and_swap"):
            if name("shutdown")(x.args(n)[0]): k+=1; ck.ob("end","mark set in "+b.qual,within(ck,b,{PN}),x.loc(n),"handlers are told to stop outside of the end of the service")
    ck.floor("end","markings",k,1)
    q=ck.root(SE+"is_shutdown"); zero=ANYF(CMP("==",pay(P(1),"Running"),K(0)),TRUE(CALL("eq",pay(P(1),"Running"),K(0))),CMP("<=",pay(P(1),"Running"),K(0)))
    T=q.exits(lambda v: v==("k",True)); F=q.exits(lambda v: v==("k",False)); U=q.exits(lambda v: v not in(("k",True),("k",False)))
    isz=lambda e: strip_cast(e)[0]=="bin" and strip_cast(e)[1]=="Eq" and pay(P(1),"Running")(strip_cast(e)[2]) and K(0)(strip_cast(e)[3]) or CALL("eq",pay(P(1),"Running"),K(0))(e)
    vs=[e for e in retvals(q) if strip_cast(e) not in(("c",True),("c",False))]
    nopath(ck,"end","counted state decides",q,q.path(None,U,avoid_edge=q.edge(IS(P(1),"Running"))),"whether the service may end is not decided by its state")
    ck.ob("end","is_shutdown decides",(not U or bool(vs)) and all(isz(e) for e in vs),q.body.span,"whether the service may end is not decided by its state")
    nopath(ck,"end","may end only when idle or told",q,q.path(None,T,avoid_edge=q.edge(ANYF(zero,IS(P(1),"PreShutdown")))),"a service with outstanding requests, or one told to stay, may end")
    nopath(ck,"end","told: may end",q,q.path_from(q.after_edges(q.edges_where(IS(P(1),"PreShutdown"))),F),"a service that was told to end may not")
    nopath(ck,"end","idle: may end",q,q.path_from(q.after_edges(q.edges_where(zero)),F),"an idle service may not end")
    q=ck.root(SE+"is_pre_shutdown"); T=q.exits(lambda v: v==("k",True)); F=q.exits(lambda v: v==("k",False))
    nopath(ck,"end","marked means told",q,q.path(None,T,avoid_edge=q.edge(IS(P(1),"PreShutdown"))),"a running service counts as told to end")
    nopath(ck,"end","told means marked",q,q.path_from(q.after_edges(q.edges_where(IS(P(1),"PreShutdown"))),F),"a service told to end counts as running")
    q=ck.root(SE+"new"); nopath(ck,"end","told to stay",q,q.path_from(q.after_edges(q.edges_where(TRUE(P(1)))),q.exits(),avoid=q.aggs("State","Forever")),"a service told to stay does not")
    nopath(ck,"end","not told to stay",q,q.path(None,q.aggs("State","Forever"),avoid_edge=q.edge(TRUE(P(1)))),"a service not told to stay does")
    q=ck.root(SE+"pre_shutdown"); ck.ob("end","told",all(AGG("State","PreShutdown")(q.value(n)) for n in q.nodes("assign") if n.data[0][0]==1) and any(n.data[0][0]==1 for n in q.nodes("assign")),q.body.span,"being told to end is not noted")
    for b in sorted(makers(ck,"State","PreShutdown")+makers(ck,"State","Forever"),key=lambda b:b.qual):
        if b.crate!="tentacle" or "Clone>" in b.qual or "::State" not in b.qual and "service" not in b.qual: continue
        ck.ob("end","state made by "+b.qual,within(ck,b,{SE+"pre_shutdown",SE+"new"}),b.span,"the state of the service is changed elsewhere")
    for b in callers(ck,"State::pre_shutdown"): ck.ob("end","told in "+b.qual,within(ck,b,{S+"handle_service_task"}),b.span,"the service is marked as told to end without a shutdown request")
    for b in makers(ck,"ServiceTask","Shutdown"):
        ck.ob("end","shutdown asked for by "+b.qual,b.qual.startswith("tentacle::service::control::") or within(ck,b,{S+"handle_session_event",S+"distribute_to_user_level"}),b.span,"a shutdown is asked for by neither a handle nor a failed handler")
def told(ck):
    h=ck.root(S+"handle_service_task",assume=under(P(3),"Shutdown"),opaque=tuple(x for x in HST if x!="for_each")+("State::pre_shutdown","Buffer::clear"))
    ps=h.calls("State::pre_shutdown"); cl=[n for n in h.calls("Buffer::clear") if name("future_task_sender")(h.args(n)[0])]; sc=h.calls("session_close"); dr=tabops(h,"listens",("drain",))
    for what,ns in(("marked",ps),("waiting tasks are dropped",cl),("listeners are taken",dr)):
        ck.floor("told",what,len(ns),1,h.body.span); exactly(ck,h,"told",what,[h.u.start],ns,h.exits(),"a shutdown request: not %s"%what,None)
    nopath(ck,"told","marked before sessions are closed",h,h.path(None,sc,avoid=ps),"sessions are closed before the service is marked")
    ck.floor("told","sessions are closed",len(sc),1,h.body.span)
    src=lambda e: has(e,lambda x: name("sessions")(x)) and not has(e,CALL(("filter","skip","Iterator::take","take_while","step_by","skip_while","filter_map","find")))
    fl=filled(h,src); it=lambda e: src(e) or fl(e)
    for n in sc:
        a=h.args(n)[2]; ck.ob("told","every session is closed",has(a,lambda x: (x[0]=="call" and last(x[1])=="next" and it(x[2][0])) or (x[0]=="elem" and it(x[2]))) ,h.loc(n),"the sessions closed are %s"%show(a)[:100])
    fe=[n for n in h.calls("for_each") if it(h.args(n)[0])]; nx=h.edge(IS(CALL("next",it),"None"))
    p=h.path(None,h.exits(),avoid=fe,avoid_edge=nx); nopath(ck,"told","on every way",h,p,"a shutdown request leaves sessions open")
    quick=h.edge(ANYF(TRUE(lambda e: part(e,"0",3)),TRUE(lambda e: has(e,P(3))))); slow=h.edge(FALSE(lambda e: has(e,P(3))))
    rc=[n for n in h.calls("close") if name("service_task_receiver","session_event_receiver")(h.args(n)[0])]; ck.floor("told","request queues are closed",len(rc),2,h.body.span)
    nopath(ck,"told","queues stay open for an orderly shutdown",h,h.path(None,rc,avoid_edge=quick),"an orderly shutdown drops what sessions report")
    for f in("service_task_receiver","session_event_receiver"): nopath(ck,"told","a quick shutdown closes "+f,h,h.path(None,h.exits(),avoid=[n for n in rc if name(f)(h.args(n)[0])],avoid_edge=slow),"a quick shutdown goes on accepting")
    for n in sc:
        src=h.args(n)[3]
        if AGG("Source","Internal")(src): nopath(ck,"told","sessions are dropped only by a quick shutdown",h,h.path(None,[n],avoid_edge=quick),"an orderly shutdown drops sessions without closing them")
        else: ck.ob("told","sessions are closed orderly",AGG("Source","External")(src),h.loc(n),"sessions are closed as %s"%show(src)[:40])
    o=OPQ+("session_close","session_open","protocol_open","protocol_message","protocol_close","Service::handshake","try_update_listens","spawn_listener","handle_service_task","State::increase","State::decrease","reached_max_connection_limit","State::is_pre_shutdown")
    live_=lambda x: x.edge(FALSE(CALL("is_pre_shutdown",name("state"))))
    for v,fn in(("HandshakeSuccess",("session_open",)),("ListenStart",("spawn_listener",))):
        x=ck.root(S+"handle_session_event",assume=under(P(3),v),opaque=o); ns=x.calls(*fn)+tabops(x,"listens",("insert",)); ck.floor("told",v,len(ns),1,x.body.span)
        nopath(ck,"told","nothing new after it: "+v,x,x.path(None,ns,avoid_edge=live_(x)),"something is opened although the service was told to end")
    for fn,homes in(("session_open",{S+"handle_session_event"}),("spawn_listener",{S+"handle_session_event",S+"listen"})):
        cs=[b for b in callers(ck,S+fn) if b.crate=="tentacle"]; ck.floor("told","callers of "+fn,len(cs),1)
        for b in cs: ck.ob("told","%s in %s"%(fn,b.qual),within(ck,b,homes),b.span,"%s is reached without the test for a shutdown"%fn)
    x=ck.root(S+"handle_session_event",assume=under(P(3),"ProtocolHandleError"),opaque=o)
    c=ck.root(BUF+"Buffer::clear"); ks=[n for n in c.calls("clear") if has(c.args(n)[0],P(1))]; nopath(ck,"told","dropping waiting tasks",c,c.path(None,c.exits(),avoid=ks+[n for n in c.writes("Buffer.buffer")]),"waiting tasks are not dropped")
def waits(ck,fn,who):
    r=ck.root(fn,sited=("next",))
    src=lambda e: has(e,CALL(("split_off","drain","take","replace"),WH)) and not has(e,CALL(("filter","skip","take_while","step_by","skip_while","filter_map","find")))
    nx=[n for n in r.calls("next") if src(r.args(n)[0])]; ck.floor("stopped",who+"going through the handlers",len(nx),1,r.body.span)
    for n in r.calls("split_off"): ck.ob("stopped",who+"all handlers",K(0)(r.args(n)[1]),r.loc(n),"handlers before %s are left out"%show(r.args(n)[1]))
    it=lambda e: CALL("next",src)(e); some=r.after_edges(r.edges_where(IS(it,"Some")))
    snd=[n for n in r.calls("send") if has(r.args(n)[0],it)]; pl=[n for n in r.calls("poll_unpin","poll") if has(r.args(n)[0],it)]; ps=[n for n in r.calls("push") if WH(r.args(n)[0])]
    fresh=lambda e: CALL(("Vec::new","new","with_capacity","default"))(strip_cast(e))
    put=[n for n in r.nodes("assign") if n.data[0][1] and n.data[0][1][-1][0]=="f" and n.data[0][1][-1][1]=="wait_handle" and fresh(r.value(n))]
    loc=[n for n in r.calls("push") if fresh(r.args(n)[0]) and any(strip_cast(r.value(m))==strip_cast(r.args(n)[0]) for m in put)]
    if loc and r.path(loc,r.exits(),avoid=put) is None: ps=ps+loc
    ends=set(r.states_of(nx))|r.exits()
    ck.floor("stopped",who+"signals",len(snd),1,r.body.span); ck.floor("stopped",who+"waiting",len(pl),1,r.body.span); ck.floor("stopped",who+"keeping",len(ps),1,r.body.span)
    nosig=r.edge(ANYF(lambda f: f[0] in("is","isq") and IS(lambda e: has(e,it) and not it(e) and names_of(e)[:1]==["0"],"None")(f)))
    nopath(ck,"stopped",who+"every handler is signalled",r,r.path_from(some,ends,avoid=snd,avoid_edge=nosig),"a handler is not told to stop",0)
    nopath(ck,"stopped",who+"every handler is waited for",r,r.path_from(some,ends,avoid=pl),"a handler is not waited for",0)
    pend=r.after_edges(r.edges_where(IS(lambda e: CALL(("poll_unpin","poll"))(e) and has(e,it),"Pending"))); ck.floor("stopped",who+"running handlers",len(pend),1,r.body.span)
    nopath(ck,"stopped",who+"a running handler is kept",r,r.path_from(pend,ends,avoid=ps),"a handler that is still running is forgotten",0)
    for n in ps: ck.ob("stopped",who+"what is kept",has(r.args(n)[1],it),r.loc(n),"what is kept is %s"%show(r.args(n)[1])[:60])
    none=r.exits(lambda v: not(v is not None and v[0]=="v" and v[1]=="Pending")); e=r.edge(EMPTY("wait_handle"))
    nopath(ck,"stopped",who+"ends when none is left",r,r.path(None,none,avoid_edge=e),"the service ends while a handler runs")
    pd=r.exits(lambda v: v is not None and v[0]=="v" and v[1]=="Pending"); nopath(ck,"stopped",who+"waits only while one is left",r,r.path_from(r.after_edges(r.edges_where(EMPTY("wait_handle"))),pd),"the service never ends")
    nopath(ck,"stopped",who+"tested after the last look",r,r.query(0,lambda k,x: 0 if x in {n.id for n in nx} else k,lambda k,n,i: 1 if e(n,i) else k,lambda k,s: k==0 and s in none),"the service ends while a handler runs")
def stopped(ck):
    """handlers and the task manager can be stopped, are stopped and are waited for"""
    waits(ck,S+"wait_handle_poll","service: "); waits(ck,SES+"wait_handle_poll","session: ")
    # every handler and the manager is spawned with a stop signal that is kept with its handle
    for fn,q,keep in((PN,"the task manager",WH),(S+"init_proto_handles","a service handler",WH),(S+"session_handles_open","a session handler",None)):
        x=ck.root(fn,opaque=OPQ+("session_poll","user_task_poll","try_update_listens","wait_handle_poll","distribute_to_session","distribute_to_user_level","flush_buffer","for_each","send_pending_task","clone_self","handle_event","session_handles_open","oneshot::channel","ServiceProtocolStream::new","SessionProtocolStream::new","mpsc::channel")+(("init_proto_handles",) if fn==PN else ()),sited=("channel","spawn"),closures=False)
        sp=x.calls("spawn"); ck.floor("stopped",q+" is set going",len(sp),1,x.body.span)
        pu=[n for n in x.calls("push") if has(x.args(n)[1],CALL("spawn"))]
        nopath(ck,"stopped",q+" is kept",x,x.path(sp,set(x.states_of(sp))|x.exits(),avoid=pu) if pu else (x.path(None,sp) or [0]) ,q+" runs and is not waited for")
        for n in pu:
            v=x.args(n)[1]; ok=(keep is None or keep(x.args(n)[0])) and has(v,AGG("Option","Some")) and has(v,CALL("channel"))
            ck.ob("stopped",q+": signal is kept",ok,x.loc(n),"what is kept of %s is %s"%(q,show(v)[:80]))
            ch=[y for y in subs(v) if y[0]=="call" and last(y[1])=="channel"]
            tasks=[m for m in x.nodes("assign") if m.data[1][0]=="agg" and m.data[1][1]=="coroutine"]
            ck.floor("stopped",q+": task",len(tasks),1,x.body.span)
            for m in tasks:
                ops=[x.g.val(z,m.ctx,m.id) for z in m.data[1][-1]]; ck.ob("stopped",q+": listens to the kept signal",any(any(y in ch for y in subs(z)) for z in ops),x.loc(m),q+" does not listen to the signal that is kept")
                b=ck.p.bodies[m.data[1][2]]; y=ck.root(b,opaque=("fmt","for_each")); sl=y.calls("select"); ck.floor("stopped",q+": stoppable",len(sl),1,b.span)
                nopath(ck,"stopped",q+": runs against its signal",y,y.path(None,y.exits(),avoid=sl),q+" does not listen to its stop signal")
                nopath(ck,"stopped",q+": nothing after it",y,y.path(sl,[z for z in y.calls("into_future") if not has(y.args(z)[0],CALL("select"))]),q+" goes on after its stop signal")
    x=ck.root(S+"session_handles_open",opaque=OPQ+("clone_self","SessionProtocolStream::new"),closures=False)
    rv=retvals(x)
    so=ck.root(S+"session_open",opaque=OPQ+("generate_next_session","poll_shutdown")); sn=so.calls("Session::new")
    ck.ob("stopped","session handlers are waited for by their session",bool(sn) and all(any(has(a,CALL("session_handles_open")) for a in so.args(n)) for n in sn),so.body.span,"the handlers of a session are not waited for")
def manager(ck):
    r=ck.root("<%s as futures_core::stream::Stream>::poll_next"%FT,opaque=("fmt","add_task"))
    sd=TRUE(CALL("load",name("shutdown"))); ck.floor("manager","looks at the mark",len(r.edges_where(sd)),1,r.body.span)
    goes=r.exits(lambda v: not(v is not None and v[0]=="v" and v[1]=="Ready" and "None" in str(v))); notsd=r.edge(FALSE(CALL("load",name("shutdown"))))
    nopath(ck,"manager","told to stop: stops",r,r.path_from(r.after_edges(r.edges_where(sd)),goes),"the task manager goes on after the end of the service")
    polls={n.id for n in r.calls("poll_next")}
    p=r.query(0,lambda k,x: 0 if x in polls else k,lambda k,n,i: 1 if notsd(n,i) else k,lambda k,s: k==0 and s in goes); nopath(ck,"manager","mark is looked at before waiting",r,p,"the task manager waits without looking whether the service has ended")
    tr=CALL("poll_next",name("task_receiver")); got=r.after_edges(r.edges_where(IS(lambda e: tr(core_of(e)) or tr(e),"Some")))
    ad=r.calls("add_task"); ck.floor("manager","takes tasks",len(got),1,r.body.span)
    exactly(ck,r,"manager","runs what it takes",got,ad,r.exits(),"a task is taken and not run","a task is run twice")
    for n in ad: ck.ob("manager","runs the task",has(r.args(n)[1],tr),r.loc(n),"what is run is %s"%show(r.args(n)[1])[:60])
    ir=CALL("poll_next",name("id_receiver"))
    forget=[n for n in r.calls("remove","remove_entry") if name("signals")(r.args(n)[0])]; ck.floor("manager","ended tasks",len(forget),1,r.body.span)
    for n in forget: ck.ob("manager","forgets what has ended",has(r.args(n)[1],ir),r.loc(n),"the task forgotten is %s"%show(r.args(n)[1])[:60])
    done=r.after_edges(r.edges_where(IS(lambda e: ir(core_of(e)) or ir(e),"Some"))); nopath(ck,"manager","an ended task is forgotten",r,r.path_from(done,r.exits(),avoid=forget),"an ended task is kept for ever",0)
    a=ck.root(FT+"::add_task",opaque=("fmt","oneshot::channel"),closures=False,sited=("channel",))
    ins=[n for n in a.calls("insert","VacantEntry::insert")]; sp=a.calls("spawn"); ck.floor("manager","signal is kept",len(ins),1,a.body.span); ck.floor("manager","task is run",len(sp),1,a.body.span)
    exactly(ck,a,"manager","task is run",[a.u.start],sp,a.exits(),"a task is not run","a task is run twice"); exactly(ck,a,"manager","signal is kept",[a.u.start],ins,a.exits(),"a task runs that cannot be stopped","a signal is kept twice")
    for n in ins:
        v=a.args(n)[-1]; ck.ob("manager","its own signal",has(v,CALL("channel")) and names_of(v)[:1]==["0"],a.loc(n),"what is kept is %s"%show(v)[:60])
    tasks=[m for m in a.nodes("assign") if m.data[1][0]=="agg" and m.data[1][1]=="coroutine"]; ck.floor("manager","task",len(tasks),1,a.body.span)
    for m in tasks:
        ops=[a.g.val(z,m.ctx,m.id) for z in m.data[1][-1]]; ck.ob("manager","listens to its signal",any(has(z,CALL("channel")) and names_of(z)[:1]==["1"] for z in ops) and any(strip_cast(z)==("p",2) for z in ops),a.loc(m),"a task does not listen to the signal that is kept")
        ck.ob("manager","ends under its own id",any(has(z,name("next_id")) for z in ops),a.loc(m),"a task ends under another id")
        b=ck.p.bodies[m.data[1][2]]; y=ck.root(b,opaque=("fmt","send")); sl=y.calls("select"); ck.floor("manager","stoppable",len(sl),1,b.span)
        nopath(ck,"manager","runs against its signal",y,y.path(None,y.exits(),avoid=sl),"a task cannot be stopped")
        nopath(ck,"manager","reports its end",y,y.path(None,y.exits(),avoid=y.calls("send")),"the end of a task is not noted")
    free=a.edge(ANYF(IS(CALL("entry",name("signals")),"Vacant"),FALSE(CALL("contains_key",name("signals")))))
    nopath(ck,"manager","id is free",a,a.path(None,ins,avoid_edge=free),"the signal of a running task is overwritten: it cannot be stopped")
    d=ck.root("<%s as core::ops::drop::Drop>::drop"%FT,opaque=("fmt",)); snd=d.calls("Sender::send","send"); dr=[n for n in d.calls("drain","into_iter","iter_mut") if has(d.args(n)[0],name("signals"))]
    ck.floor("manager","stops its tasks",len(snd),1,d.body.span); nopath(ck,"manager","goes through all its tasks",d,d.path(None,d.exits(),avoid=dr),"the task manager ends and leaves its tasks running")
    bad=[n for n in d.calls("filter","skip","Iterator::take","take_while","step_by","skip_while","filter_map","find")]; ck.ob("manager","leaves none out",not bad,d.body.span,"the task manager leaves tasks running")
    for n in snd: ck.ob("manager","stops a task of its own",has(d.args(n)[0],name("signals")),d.loc(n),"what is signalled is %s"%show(d.args(n)[0])[:60])
    for b in [x for x in ck.p.bodies.values() if x.kind=="closure" and x.parent==d.body.key]:
        x=ck.root(b,opaque=("fmt",)); nopath(ck,"manager","stops each",x,x.path(None,x.exits(),avoid=x.calls("Sender::send","send")),"a task is left running")
    # background tasks do not wait in loops
    k=0
    for b in sorted(ck.p.bodies.values(),key=lambda b:b.qual):
        if b.kind!="coroutine" or not live(b) or b.crate!="tentacle": continue
        x=Root(ck,b,opaque=lambda c: True,depth=0,closures=False)
        for n in x.calls("into_future"):
            k+=1; ck.ob("manager","no waiting in a loop in "+b.qual,x.path([n],[n]) is None,x.loc(n),"a background task waits in a loop and may never end")
    ck.floor("manager","waits of background tasks",k,10)
    homes={PN,S+"handshake",S+"init_proto_handles",S+"session_handles_open",S+"session_open",S+"spawn_listener",FT+"::add_task","tentacle::service::helper::Listener::close","tentacle::service::helper::Listener::handshake",
     "tentacle::session::Session::clean","tentacle::session::Session::close_session","tentacle::session::Session::new","tentacle::session::Session::open_protocol","tentacle::session::Session::select_procedure",
     "tentacle::substream::Substream::close_proto_stream","tentacle::substream::SubstreamWritePart::close_proto_stream"}
    for b in callers(ck,"spawn"):
        if b.crate!="tentacle" or b.kind=="trait": continue
        # a task made of a plain async block is judged by the loop rule; a stream run to its end must be one of those whose end is shown
        x=Root(ck,b,opaque=lambda c: True,depth=0,closures=False)
        for n in x.calls("spawn"):
            a=x.args(n)
            if not a or not has(a[0],CALL("for_each")): continue
            ck.ob("manager","stream run in "+b.qual,within(ck,b,{S+"session_open",SES+"open_protocol",SES+"new"}),x.loc(n),"a stream is run in the background without a shown end")
def sessions(ck):
    """an ended session closes its connection and its queues, and its connection's stream ends"""
    c=ck.root(SES+"close_session",opaque=("fmt","Buffer::push","Buffer::take","send_all"),closures=False)
    al=ANYF(IS(name("state"),"Closed"),TRUE(CALL("is_closed"))); sp=c.calls("spawn")
    for f in("service_receiver","proto_event_receiver"):
        ns=[n for n in c.calls("close") if name(f)(c.args(n)[0])]; ck.floor("sessions",f+" is closed",len(ns),1,c.body.span); nopath(ck,"sessions",f+" is closed with the session",c,c.path(None,c.exits(),avoid=ns,avoid_edge=c.edge(al)),"an ended session goes on accepting")
    sb=tabops(c,"substreams",("clear","drain")) or [n for n in c.calls("clear","drain","mem::take") if name("substreams")(c.args(n)[0])]
    nopath(ck,"sessions","streams end with the session",c,c.path(None,c.exits(),avoid=sb,avoid_edge=c.edge(al)) if sb else [0],"an ended session keeps its streams")
    cl=[]
    for b in ck.p.bodies.values():
        if b.kind=="coroutine" and live(b) and b.parent in ck.p.bodies and within(ck,ck.p.bodies[b.parent],{SES+"close_session",SES+"clean"}):
            y=ck.root(b,opaque=("fmt","Control::close","close","send_all")); ks=[n for n in y.calls("close")]
            if ks: cl.append(b); nopath(ck,"sessions","connection is closed",y,y.path(None,y.exits(),avoid=ks),"the connection of an ended session is left open")
    ck.floor("sessions","closing of the connection",len(cl),1,c.body.span)
    mk=[n for n in c.nodes("assign") if n.data[1][0]=="agg" and n.data[1][1]=="coroutine" and any(b.key==n.data[1][2] for b in cl)]
    nopath(ck,"sessions","connection is closed with the session",c,c.path(None,c.exits(),avoid=mk,avoid_edge=c.edge(al)) if mk else [0],"the connection of an ended session is left open")
    r=ck.root("<tentacle::session::InnerSocket as futures_core::stream::Stream>::poll_next",opaque=("fmt","poll_next","spawn"),closures=False)
    inner=lambda e: CALL("poll_next")(core_of(e)) or CALL("poll_next")(e)
    stop=r.after_edges(r.edges_where(ANYF(IS(inner,"None"),IS(inner,"Err")))); ck.floor("sessions","connection ends",len(stop),1,r.body.span)
    goes=r.exits(lambda v: not(v is not None and v[0]=="v" and v[1]=="Ready" and "None" in str(v)))
    nopath(ck,"sessions","the task of a connection ends with it",r,r.path_from(stop,goes),"the task of an ended connection goes on")
    nopath(ck,"sessions","the session is told",r,r.path_from(stop,r.exits(),avoid=r.calls("spawn")),"a session is not told that its connection has ended",0)
    n=ck.root(SES+"new",opaque=("fmt","YamuxSession","for_each","spawn","delay_for"),closures=False,depth=0)
    d=ck.root("<tentacle::session::Session as futures_core::stream::Stream>::poll_next",opaque=OPQ+("wait_handle_poll","recv_substreams","recv_service","recv_proto_stream","close_session","flush","close_all_proto","handle_session_event","handle_stream_event","distribute_to_substream","output","event_output"))
    none=d.exits(lambda v: v is not None and v[0]=="v" and v[1]=="Ready" and "None" in str(v)); nopath(ck,"sessions","ends only after its handlers",d,d.path(None,none,avoid=d.calls("wait_handle_poll")),"a session ends without waiting for its handlers")
    wh=d.calls("wait_handle_poll"); ck.floor("sessions","handlers are waited for",len(wh),1,d.body.span)
def handlers(ck):
    """protocol handlers stop when told or when nothing can reach them any more"""
    PH="tentacle::protocol_handle_stream::"
    for ty in("ServiceProtocolStream","SessionProtocolStream"):
        r=ck.root("<%s%s as futures_core::stream::Stream>::poll_next"%(PH,ty),opaque=("fmt",ty+"::handle_event",ty+"::handle_poll",ty+"::close","handle_event","handle_poll"))
        goes=r.exits(lambda v: not(v is not None and v[0]=="v" and v[1]=="Ready" and "None" in str(v))); rc=CALL("poll_next",lambda e: has(e,name("receiver")))
        gone=r.after_edges(r.edges_where(IS(lambda e: rc(core_of(e)) or rc(e),"None"))); ck.floor("handlers",ty+": queue ends",len(gone),1,r.body.span)
        nopath(ck,"handlers",ty+": ends with its queue",r,r.path_from(gone,goes),"a handler that nothing can reach any more goes on")
        nopath(ck,"handlers",ty+": looks at its queue",r,r.path(None,goes,avoid=[n for n in r.calls("poll_next") if name("receiver")(r.args(n)[0])]),"a handler waits without looking at its queue")
        if ty=="ServiceProtocolStream":
            sd=TRUE(CALL("load",name("shutdown"))); nopath(ck,"handlers",ty+": told to stop",r,r.path_from(r.after_edges(r.edges_where(sd)),goes),"a handler that was told to stop goes on")
            notsd=r.edge(FALSE(CALL("load",name("shutdown")))); ids={n.id for n in r.calls("poll_next","handle_event","handle_poll")}
            p=r.query(0,lambda k,x: 0 if x in ids else k,lambda k,n,i: 1 if notsd(n,i) else k,lambda k,s: k==0 and s in goes); nopath(ck,"handlers",ty+": mark is looked at before waiting",r,p,"a handler waits without looking whether the service has ended")
RULES=[("end",["molc"],end),("told",["molc"],told),("stopped",["molc"],stopped),("manager",["molc"],manager),("sessions",["molc"],sessions),("handlers",["molc"],handlers)]
