"""Static rules on failing handlers and timers: every callback of a handler runs marked as running, with the session it is for, and
nothing else does; a handler dropped while marked, in a service that runs, reports itself to the service, which tells the user and
shuts down; a requested timer is started with its interval, notifies its token, is started again after each notification, and not
otherwise."""
from c23 import *
from c27 import notified
CONFIGS=["molc"]
ASSUMES=["Dropping the task that runs a handler drops the handler (unwinding panics)","Channels deliver what is sent while both ends exist"]
KINDS=(("ServiceProtocolStream","ServiceProtocol",V("Idle"),("init","connected","disconnected","received","notify"),"ServiceProtocolEvent"),("SessionProtocolStream","SessionProtocol",("k",False),("connected","disconnected","received","notify"),"SessionProtocolEvent"))
STREAM="<%s as futures_core::stream::Stream>::poll_next"
def session_of(e):
    x=strip_cast(e); return dict(x[3]).get("session",x) if x[0]=="agg" else x
def of_session(i,s):
    """the id expression is the id of the session expression"""
    i,s=strip_cast(i),strip_cast(s)
    if i[0]=="f" and i[2]=="id" and strip_cast(i[1])==s: return True
    return any(x[0]=="call" and last(x[1]) in("remove","get","get_mut") and name("sessions")(x[2][0]) and strip_cast(x[2][1])==i for x in subs(s))
def marked(ck):
    for st,tr,idle,ms,ev in KINDS:
        wide_=tr=="ServiceProtocol"
        for f,mm in(("handle_event",ms),("handle_poll",("poll",))):
            r=Root(ck,ck.p.one(PHS+st+"::"+f),opaque=("fmt","set_notify","update_listens"),track=["current_task"],init={"current_task":idle})
            if wide_:
                runs=[n for n in r.nodes("assign") if n.data[0][1] and (n.data[0][1][-1][0]=="*" or n.data[0][1][-1][-1]=="current_task") and AGG("CurrentTask","Run")(r.value(n))]
                ck.floor("marked","%s::%s: markings"%(st,f),len(runs),1,r.body.span)
            for m in mm:
                ns=r.calls(tr+"::"+m); ck.floor("marked","%s::%s"%(st,m),len(ns),1,r.body.span)
                who=wide_ and m in("connected","disconnected","received")
                def good(v):
                    if not wide_: return v==("k",True)
                    if v is None or v[:2]!=("v","Run"): return False
                    x=Unfolded.sub(v,"0"); return x is not None and x[:2]==("v","Some" if who else "None")
                for n in ns:
                    ss=set(r.states_of([n])); bad=[s for s in ss if not good(r.mem(s,"current_task"))]
                    p=r.path(None,bad) if bad else None
                    ck.ob("marked","%s::%s is called marked"%(st,m),not bad,r.loc(n),"%s of a handler is called while the handler is marked as %s, so its failure is %s"%(m,"something else" if not bad else show_mem(r.mem(bad[0],"current_task")),"not reported" if wide_ and bad and (r.mem(bad[0],"current_task") or ("",""))[1]=="Idle" or not wide_ else "reported for the wrong session"),r.trail(p) if p else "")
                    if who:
                        for w in runs:
                            others=[x for x in runs if x is not w]; p=r.path([w],[n],avoid=others)
                            if p is None: continue
                            v=strip_cast(dict(strip_cast(r.value(w))[3])["0"]); i=dict(v[3]).get("0") if v[0]=="agg" else None
                            s=session_of(r.args(n)[1])
                            ck.ob("marked","%s::%s: which session"%(st,m),i is None or of_session(i,s),r.loc(w),"a handler called for %s is marked as running for %s"%(show(s)[:50],show(i)[:50] if i else "?"),r.trail(p))
            left=[s for s in r.exits() if r.mem(s,"current_task")!=idle]
            nopath(ck,"marked","%s::%s ends unmarked"%(st,f),r,r.path(None,left) if left else None,"a handler stays marked as running after its callback has returned, so its normal end is reported as a failure")
        # every callback is called from there
        allow={PHS+st+"::handle_event",PHS+st+"::handle_poll"}
        for b in sorted(ck.p.bodies.values(),key=lambda b:b.qual):
            if not live(b) or b.crate!="tentacle" or b.trait is not None and "ProtocolStream" not in b.qual: continue
            if any(bl["t"][0]=="call" and bl["t"][1][0]=="fn" and not bl["c"] and "traits::%s::"%tr in bl["t"][1][1]["q"] for bl in b.blocks):
                ck.ob("marked","callback called by "+b.qual,within(ck,b,allow),b.span,"a callback of a handler is called where its failure is not noticed")
            if any(s[0]=="=" and s[1][1] and s[1][1][-1][0]=="f" and s[1][1][-1][1]=="current_task" for bl in b.blocks for s in bl["s"]) and st in b.qual:
                ck.ob("marked","marked by "+b.qual,within(ck,b,allow|{STREAM%(PHS+st)}),b.span,"the mark of a running handler is changed elsewhere")
        n=ck.root(PHS+st+"::new",opaque=("ProtocolContext::new",)); ag=n.aggs(st); ck.floor("marked",st+" made",len(ag),1,n.body.span)
        for a in ag:
            d=dict(strip_cast(n.agg_value(a))[3]); v=strip_cast(d["current_task"]); ok=(v[0]=="agg" and v[2]=="Idle") if wide_ else v==("c",False)
            ck.ob("marked",st+" starts unmarked",ok,n.loc(a),"a handler starts marked as %s"%show(v)); ck.ob("marked",st+" is polled",strip_cast(d["need_poll"])==("c",True),n.loc(a),"poll of a handler is never called")
            hc=strip_cast(d["handle_context"]); k=5 if wide_ else 6
            ck.ob("marked",st+": its parts",P(1)(d["handle"]) and hc[0]=="call" and last(hc[1])=="new" and P(2)(hc[2][0]) and names_of(hc[2][1])[:1]==["0"] and P(k-1)(core_of(hc[2][1])) and P(k)(d["panic_report"]) and P(k-2)(d["receiver"]) and P(k+1)(core_of(d["shutdown"])) and (wide_ or P(3)(d["context"])),n.loc(a),"a handler is put together as %s"%show(n.agg_value(a))[:160])
            ch=[strip_cast(x) for x in(d["notify_sender"],d["notify_receiver"])]
            ck.ob("marked",st+": its timers' channel",[names_of(x)[:1] for x in ch]==[["0"],["1"]] and core_of(ch[0])==core_of(ch[1]) and CALL("channel")(core_of(ch[0])),n.loc(a),"timers do not notify the handler that set them")
            ck.ob("marked",st+": its queue of tasks",names_of(d["future_task_sender"])[:1]==["1"] and P(k+1)(core_of(d["future_task_sender"])),n.loc(a),"timers are given to %s"%show(d["future_task_sender"])[:50])
def show_mem(v):
    if v is None: return "unknown"
    return str(v[1])
def core_of(e):
    e=strip_cast(e)
    while e[0] in("f","v"): e=strip_cast(e[1])
    return e
def told(ck):
    """a handler dropped while marked reports itself"""
    for st,tr,idle,ms,ev in KINDS:
        r=ck.root("<%s as core::ops::drop::Drop>::drop"%(PHS+st),opaque=("fmt",)); wide_=tr=="ServiceProtocol"
        sn=[n for n in r.calls("SinkExt::send","Sender::try_send","Sender::start_send","UnboundedSender::unbounded_send") if name("panic_report")(r.args(n)[0])]; ck.floor("told",st+": reports",len(sn),1,r.body.span)
        run=r.edges_where(IS(name("current_task"),"Run")) if wide_ else r.edges_where(TRUE(name("current_task"))); ck.floor("told",st+": running",len(run),1,r.body.span)
        isrun=r.edge(IS(name("current_task"),"Run") if wide_ else TRUE(name("current_task"))); up=r.edge(FALSE(CALL("load",name("shutdown"))))
        nopath(ck,"told",st+": only if running",r,r.path(None,sn,avoid_edge=isrun),"a handler that was not running user code is reported as failed")
        nopath(ck,"told",st+": only if the service runs",r,r.path(None,sn,avoid_edge=up),"a handler is reported as failed because the service shut down")
        skip=r.edge(ANYF(TRUE(CALL("load",name("shutdown"))),(IS(name("current_task"),"Idle") if wide_ else FALSE(name("current_task"))),IS(CALL("poll"),"Pending")))
        sp=r.calls("spawn"); ck.floor("told",st+": report is sent",len(sp),1,r.body.span)
        exactly(ck,r,"told",st,[r.u.start],sp,r.exits(),"a handler that fails while running user code is not reported","a failing handler is reported twice",avoid_edge=skip)
        for n in sp:
            nopath(ck,"told",st+": what is started sends it",r,None if r.path([n],sn) is not None else r.path(None,[n]),"what is started for a failing handler does not report it")
        for n in sn:
            for x in alts(strip_cast(r.args(n)[1])):
                x=strip_cast(x); d=dict(x[3]) if x[0]=="agg" and x[2]=="ProtocolHandleError" else {}
                e=strip_cast(d["error"]) if d else ("?",); i=strip_cast(dict(e[3])["0"]) if e[0]=="agg" and e[2]=="AbnormallyClosed" else None
                okp=bool(d) and name("proto_id")(d["proto_id"]) and has(d["proto_id"],name("handle_context"))
                cur=lambda y: pay(name("current_task"),"Run")(y)
                if wide_: oki=i is not None and (cur(i) or (i[0]=="agg" and (i[2]=="None" or pay(cur,"Some")(dict(i[3])["0"]))))
                else: oki=i is not None and i[0]=="agg" and i[2]=="Some" and name("id")(dict(i[3])["0"]) and has(i,name("context"))
                ck.ob("told",st+": what",okp and oki,r.loc(n),"a failing handler is reported as %s"%show(x)[:120])
        if wide_:
            # a known session is not left out
            ag=[n for n in r.nodes("assign") if n.data[1][0]=="agg" and n.data[1][2].endswith("ProtocolHandleErrorKind") and n.data[1][3]=="AbnormallyClosed"]
            ck.floor("told",st+": forms of the report",len(ag),1,r.body.span)
            for n in ag:
                i=strip_cast(dict(strip_cast(r.value(n))[3])["0"])
                if i[0]=="agg" and i[2]=="None": nopath(ck,"told",st+": no session only if none",r,r.path(None,[n],avoid_edge=r.edge(IS(lambda y: cur(y),"None"))),"the session for which a handler failed is left out")
def reported(ck):
    h=ck.root(S+"handle_session_event",assume=under(P(3),"ProtocolHandleError"),opaque=("fmt","session_open","session_close","protocol_open","protocol_message","protocol_close","Service::handshake","try_update_listens","spawn_listener","handle_service_task"))
    he=h.calls("handle_error"); dn=[n for n in h.calls("handle_service_task") if AGG("ServiceTask","Shutdown")(h.args(n)[2])]
    ck.floor("reported","report of a failure",len(he),1,h.body.span); ck.floor("reported","shutdown",len(dn),1,h.body.span)
    exactly(ck,h,"reported","failure",[h.u.start],he,h.exits(),"the failure of a handler is not reported to the user","the failure of a handler is reported twice")
    exactly(ck,h,"reported","shutdown",[h.u.start],dn,h.exits(),"the service goes on after the failure of a handler","the service is shut down twice")
    for n in he:
        x=strip_cast(h.args(n)[2]); d=dict(x[3]) if x[0]=="agg" and x[2]=="ProtocolHandleError" else {}
        ck.ob("reported","failure: what",bool(d) and part(d["error"],"error",3) and part(d["proto_id"],"proto_id",3),h.loc(n),"the failure is reported as %s"%show(x)[:100])
    for n in dn: ck.ob("reported","shutdown: how",strip_cast(dict(strip_cast(h.args(n)[2])[3])["0"])==("c",False),h.loc(n),"the service does not end its sessions regularly after the failure of a handler")
    # handlers found gone when told something
    r=ck.root(S+"distribute_to_user_level",opaque=("fmt","handle_service_task","Buffer::try_send"),sited=("Buffer::try_send",))
    ts=r.calls("Buffer::try_send"); ck.floor("reported","deliveries",len(ts),2,r.body.span)
    he=r.calls("handle_error"); dn=r.calls("handle_service_task")
    gone=[]
    for n in ts:
        v=r.g.callval(n,0); q=r.args(n)[0]; own=has(q,name("session_proto_handles")); what="handler of a session" if own else "service-wide handler"
        if not ck.ob("reported","delivery: to whom",own or has(q,name("service_proto_handles")),r.loc(n),"something is delivered to %s"%show(q)[:60]): continue
        is_=lambda k: IS(lambda e: strip_cast(e)==v,k)
        ended=r.edge(ANYF(TRUE(CALL("load",lambda e: name("closed")(e) and has(e,name("sessions")))),IS(CALL("get",name("sessions")),"None"))) if own else (lambda n_,i: False)
        mine=[]
        for c in he:
            x=strip_cast(r.args(c)[2]); d=dict(x[3]) if x[0]=="agg" else {}
            e=strip_cast(d["error"]) if "error" in d else ("?",)
            if not has(d.get("proto_id",("?",)),lambda y: y==core_key(q)): continue
            i=strip_cast(dict(e[3])["0"]) if e[0]=="agg" else ("?",)
            okk=i[0]=="agg" and (i[2]=="None" if not own else i[2]=="Some" and keypart(dict(i[3])["0"],q,"0"))
            ck.ob("reported","%s: which"%what,okk and keypart(d["proto_id"],q,"1" if own else None),r.loc(c),"a %s is reported as %s"%(what,show(x)[:120]))
            if e[2]=="AbnormallyClosed":
                mine.append(c)
                nopath(ck,"reported",what+": only if gone",r,r.path(None,[c],avoid_edge=r.edge(is_("Disconnect"))),"a %s that is there is reported as failed"%what)
                if own: nopath(ck,"reported",what+": not after the end of its session",r,r.path(None,[c],avoid_edge=r.edge(FALSE(CALL("load",lambda e: name("closed")(e) and has(e,name("sessions")))))),"the handler of a session that has ended is reported as failed")
            else: nopath(ck,"reported",what+": blocked only if so",r,r.path(None,[c],avoid_edge=r.edge(is_("Pending"))),"a %s is reported as blocked"%what)
        ck.floor("reported",what+" found gone",len(mine),1,r.body.span)
        st=r.after_edges(r.edges_where(is_("Disconnect"))); ck.floor("reported",what+" gone",len(st),1,r.body.span)
        ends=set(r.exits())|set(r.states_of(r.calls("next"))) 
        exactly(ck,r,"reported",what+" gone",st,mine,ends,"a %s that is gone is not reported"%what,None,avoid_edge=ended)
        nopath(ck,"reported",what+" gone: shutdown",r,r.path_from(r.after_nodes(mine),r.exits(),avoid=dn),"the service goes on although a %s is gone"%what,0)
        gone+=mine
    nopath(ck,"reported","shutdown only then",r,r.path(None,dn,avoid=gone),"the service is shut down although no handler failed")
    for n in dn: ck.ob("reported","shutdown after a handler is gone",AGG("ServiceTask","Shutdown")(r.args(n)[2]),r.loc(n),"what is done is %s"%show(r.args(n)[2])[:60])
    # who may say that a handler failed
    for b in sorted(ck.p.bodies.values(),key=lambda b:b.qual):
        if not live(b) or b.crate!="tentacle": continue
        for bl in b.blocks:
            for s in bl["s"]:
                if s[0]=="=" and s[2][0]=="agg" and s[2][1]=="adt" and (s[2][2].endswith("ProtocolHandleErrorKind") or s[2][3]=="ProtocolHandleError") and b.trait is None or (s[0]=="=" and s[2][0]=="agg" and s[2][1]=="adt" and s[2][2].endswith("ProtocolHandleErrorKind") and s[2][3]=="AbnormallyClosed" and b.trait is not None):
                    ck.ob("reported","made by "+b.qual,within(ck,b,{S+"distribute_to_user_level",S+"handle_session_event"}|{"<%s as core::ops::drop::Drop>::drop"%(PHS+k[0]) for k in KINDS}),b.span,"the failure of a handler is reported where no handler failed")
    # handlers report to their service
    for q,st,k in((S+"init_proto_handles","ServiceProtocolStream",4),(S+"session_handles_open","SessionProtocolStream",5)):
        r=ck.root(q,opaque=("fmt","ProtocolStream::new",st+"::new","handle_event","for_each","select")); ns=r.calls(st+"::new"); ck.floor("reported",st+" made",len(ns),1,r.body.span)
        for n in ns:
            a=r.args(n); ck.ob("reported",st+" reports to the service",name("session_event_sender")(a[k]),r.loc(n),"a handler reports its failure to %s"%show(a[k])[:50])
            t=strip_cast(a[k+1]); ck.ob("reported",st+": sees the service's end",t[0]=="agg" and name("shutdown")(dict(t[3])["0"]) and has(dict(t[3])["1"],name("future_task_sender")),r.loc(n),"a handler is given %s"%show(t)[:60])
            pid_=strip_cast(a[k-1]); pid_=strip_cast(dict(pid_[3])["0"]) if pid_[0]=="agg" else pid_
            hd=a[0]; key=[x for x in subs(hd) if x[0]=="call" and last(x[1])=="next"]
            ck.ob("reported",st+": its protocol",names_of(pid_)[:1]==["0"] and has(pid_,name("protocol_configs")),r.loc(n),"a handler is told that its protocol is %s"%show(pid_)[:60])
            if st[:7]=="Session": ck.ob("reported",st+": its session",name("inner")(a[2]) and has(a[2],CALL(("get","get_mut"),name("sessions"),P(2))),r.loc(n),"a handler is told that its session is %s"%show(a[2])[:60])
def core_key(q):
    """the item of the iteration the queue belongs to"""
    for x in subs(q):
        if x[0]=="call" and last(x[1])=="next": return x
    return None
def keypart(e,q,sub):
    """e is the key (or part of it) of the table entry whose queue is q"""
    k=core_key(q)
    want=["0"] if sub is None else ["0",sub]
    return k is not None and has(e,lambda y: y==k) and names_of(e)==want
def timers(ck):
    for st,tr,idle,ms,ev in KINDS:
        wide_=tr=="ServiceProtocol"; Q=PHS+st+"::"; tab=name("notify")
        one=lambda v: ck.root(Q+"handle_event",assume=under(P(2),v),opaque=("fmt","set_notify","update_listens","close","block_in_place"))
        # a notification: told once, started again
        r=ck.root(Q+"handle_event",opaque=("fmt","set_notify","update_listens","close")); isv=lambda v: (lambda f: f[0]=="is" and f[2]==frozenset([v]) and any(P(2)(y) for y in alts(strip_cast(f[1]))))
        stop=r.edge(ANYF(TRUE(CALL("load",name("shutdown"))),TRUE(CALL("load",name("closed")))))
        nt=r.calls(tr+"::notify"); sn=r.calls(st+"::set_notify"); ck.floor("timers",st+": notify",len(nt),1,r.body.span); ck.floor("timers",st+": starts",len(sn),2,r.body.span)
        tok=lambda e: part(e,"token",2) or any(part(y,"token",2) for y in alts(strip_cast(e)))
        for v,ns,a,b in(("Notify",nt,"a timer that fired is not told to the handler","a timer is told twice"),("Notify",sn,"a timer is not started again after it fired","a timer is started twice")):
            s=r.after_edges(r.edges_where(isv(v))); ck.floor("timers",st+": event "+v,len(s),1,r.body.span)
            exactly(ck,r,"timers","%s: %s %s"%(st,v,"told" if ns is nt else "again"),s,ns,r.exits(),a,b,avoid_edge=None if wide_ else stop)
            p=r.path(None,r.exits(),avoid=ns,avoid_edge=r.edge(lambda f: (f[0]=="is" and any(P(2)(y) for y in alts(strip_cast(f[1]))) and v not in f[2]) or TRUE(CALL("load",name("shutdown")))(f) or (not wide_ and TRUE(CALL("load",name("closed")))(f))))
            nopath(ck,"timers","%s: %s is not dropped"%(st,v),r,p,a)
        for n in nt: ck.ob("timers",st+": token told",tok(r.args(n)[2]),r.loc(n),"the handler is told token %s"%show(r.args(n)[2])[:50])
        nopath(ck,"timers",st+": told only if it fired",r,r.path(None,nt,avoid_edge=r.edge(isv("Notify"))),"the handler is notified without a timer")
        for n in sn: ck.ob("timers",st+": token started",tok(r.args(n)[1]),r.loc(n),"the timer started is that of token %s"%show(r.args(n)[1])[:50])
        nopath(ck,"timers",st+": started only on request",r,r.path(None,sn,avoid_edge=r.edge(ANYF(isv("Notify"),isv("SetNotify")))),"a timer is started without a request")
        # a request: entered with its interval and a number of its own, started once
        ins=[n for n in r.calls("insert","or_insert","or_insert_with","entry") if has(r.args(n)[0],tab)]; ck.floor("timers",st+": entering",len(ins),1,r.body.span)
        have=lambda e: CALL("contains_key",tab,tok)(e) or CALL("get",tab,tok)(e)
        known=ANYF(TRUE(have),IS(have,"Some"))
        s=r.after_edges(r.edges_where(isv("SetNotify"))); ck.floor("timers",st+": event SetNotify",len(s),1,r.body.span)
        both=r.edge(lambda f: known(f) or (not wide_ and (TRUE(CALL("load",name("closed")))(f))))
        exactly(ck,r,"timers",st+": SetNotify starts",s,sn,r.exits(),"a requested timer is not started","a requested timer is started twice",avoid_edge=both)
        exactly(ck,r,"timers",st+": SetNotify enters",s,ins,r.exits(),"a requested timer is not remembered","a requested timer is remembered twice",avoid_edge=both)
        nopath(ck,"timers",st+": SetNotify is not dropped",r,r.path(None,r.exits(),avoid=sn,avoid_edge=r.edge(lambda f: (f[0]=="is" and any(P(2)(y) for y in alts(strip_cast(f[1]))) and "SetNotify" not in f[2]) or TRUE(CALL("load",name("shutdown")))(f) or known(f) or (not wide_ and TRUE(CALL("load",name("closed")))(f)))),"a requested timer is not started")
        nopath(ck,"timers",st+": one timer per token",r,r.path_from(s,sn,avoid_edge=r.edge(ANYF(FALSE(have),IS(have,"None")))),"a token for which a timer runs gets another one",0)
        nopath(ck,"timers",st+": entered only on request",r,r.path(None,ins,avoid_edge=r.edge(isv("SetNotify"))),"a timer is remembered without a request")
        nopath(ck,"timers",st+": entered before it starts",r,r.path_from(s,sn,avoid=ins),"a timer is started before its interval is known",0)
        nxt=[n for n in r.nodes("assign") if n.data[0][1] and n.data[0][1][-1][0]=="f" and n.data[0][1][-1][1]=="next_timer"]; ck.floor("timers",st+": numbers",len(nxt),1,r.body.span)
        for n in nxt:
            v=strip_cast(r.value(n)); ok=any(x[0]=="call" and last(x[1]) in("wrapping_add",) and name("next_timer")(x[2][0]) and strip_cast(x[2][1])==("c",1) for x in subs(v)) or any(x[0]=="bin" and x[1].startswith("Add") and ("c",1) in x for x in subs(v))
            ck.ob("timers",st+": own number",ok,r.loc(n),"the number of a timer is %s"%show(v)[:60])
        nopath(ck,"timers",st+": own number first",r,r.path_from(s,ins,avoid=nxt),"a timer gets the number of another one",0)
        for n in ins:
            a=r.args(n); x=strip_cast(a[2]) if len(a)>2 else ("?",); d=dict(x[3]) if x[0]=="agg" else {}
            ck.ob("timers",st+": what is entered",tok(a[1]) and bool(d) and (part(d["0"],"interval",2) or any(part(y,"interval",2) for y in alts(strip_cast(d["0"])))) and name("next_timer")(d["1"]),r.loc(n),"what is remembered of a timer is %s"%show(x)[:80])
        # a removal
        rm=[n for n in r.calls("remove") if tab(r.args(n)[0])]; ck.floor("timers",st+": removing",len(rm),1,r.body.span)
        s=r.after_edges(r.edges_where(isv("RemoveNotify"))); ck.floor("timers",st+": event RemoveNotify",len(s),1,r.body.span)
        exactly(ck,r,"timers",st+": RemoveNotify",s,rm,r.exits(),"a removed timer goes on","a timer is removed twice",avoid_edge=None if wide_ else r.edge(TRUE(CALL("load",name("closed")))))
        nopath(ck,"timers",st+": RemoveNotify is not dropped",r,r.path(None,r.exits(),avoid=rm,avoid_edge=r.edge(lambda f: (f[0]=="is" and any(P(2)(y) for y in alts(strip_cast(f[1]))) and "RemoveNotify" not in f[2]) or TRUE(CALL("load",name("shutdown")))(f) or (not wide_ and TRUE(CALL("load",name("closed")))(f)))),"a removed timer goes on")
        for n in rm: ck.ob("timers",st+": removed which",tok(r.args(n)[1]),r.loc(n),"the timer removed is that of %s"%show(r.args(n)[1])[:50])
        nopath(ck,"timers",st+": removed only on request",r,r.path(None,rm,avoid_edge=r.edge(isv("RemoveNotify"))),"a timer is removed without a request")
        for b in sorted(ck.p.bodies.values(),key=lambda b:b.qual):
            if live(b) and st in b.qual:
                for op in("insert","remove","clear","retain","drain"):
                    for bl in b.blocks:
                        t=bl["t"]
                        if t[0]=="call" and t[1][0]=="fn" and not bl["c"] and last(t[1][1]["q"])==op and within(ck,b,{Q+"handle_event"}) is False and "HashMap" in t[1][1]["q"]: ck.ob("timers","timers changed by "+b.qual,False,b.span,"timers are changed elsewhere")
        # starting: waits for the interval, then sends the token and its number to this handler
        x=ck.root(Q+"set_notify",opaque=("fmt",)); got=CALL("get",tab,P(2)); some=x.after_edges(x.edges_where(IS(got,"Some"))); ck.floor("timers",st+": timer known",len(some),1,x.body.span)
        sp=x.calls("spawn"); sd=[n for n in x.calls("SinkExt::send") if name("notify_sender")(x.args(n)[0])]; sf=[n for n in x.calls("SinkExt::send") if name("future_task_sender")(x.args(n)[0])]; dl=x.calls("delay_for")
        for w,ns in(("started",sp),("handed over",sf),("token sent",sd),("delay",dl)): ck.floor("timers","%s: %s"%(st,w),len(ns),1,x.body.span)
        exactly(ck,x,"timers",st+": start",some,sp,x.exits(),"a timer is not started","a timer is started twice")
        nopath(ck,"timers",st+": start is not skipped",x,x.path(None,x.exits(),avoid=sp,avoid_edge=x.edge(IS(got,"None"))),"a timer is not started")
        for n in sf: ck.ob("timers",st+": what is handed over",any(y[0] in("closure","coroutine") or y[0]=="agg" and y[1]=="coroutine" or "coroutine" in str(y[0]) for y in subs(x.args(n)[1])),x.loc(n),"what is handed over is %s"%show(x.args(n)[1])[:60])
        for n in dl: ck.ob("timers",st+": interval",names_of(x.args(n)[0])[:1]==["0"] and has(x.args(n)[0],got) and strip_cast(x.args(n)[0])[0]=="f",x.loc(n),"a timer waits for %s"%show(x.args(n)[0])[:60])
        for n in sd:
            t=strip_cast(x.args(n)[1]); d=dict(t[3]) if t[0]=="agg" else {}
            ck.ob("timers",st+": token sent",bool(d) and P(2)(d["0"]) and names_of(d["1"])[:1]==["1"] and has(d["1"],got),x.loc(n),"a timer that fired sends %s"%show(t)[:60])
        for c in x.g.p.bodies.values():
            if c.kind=="coroutine" and c.qual.startswith(Q+"set_notify"):
                y=Root(ck,c,opaque=lambda c_: True,depth=0); d2=y.calls("delay_for"); s2=y.calls("SinkExt::send")
                if d2 and s2:
                    nopath(ck,"timers",st+": first the delay",y,y.path(None,s2,avoid_edge=y.edge(IS(CALL("poll",HAS(CALL("delay_for"))),"Ready"))),"a timer fires before its interval has passed")
                    exactly(ck,y,"timers",st+": fires",[y.u.start],s2,y.exits(),"a timer never fires","a timer fires twice")
        # what fired: told if that timer still runs
        q=ck.root(STREAM%(PHS+st),opaque=("fmt","handle_event","handle_poll","close")); it=CALL("poll_next",name("notify_receiver")); item=pay(it,"Ready","Some")
        hv=[n for n in q.calls("handle_event") if AGG(ev,"Notify")(q.args(n)[1])]; ck.floor("timers",st+": fired",len(hv),1,q.body.span)
        for n in hv:
            t=dict(strip_cast(q.args(n)[1])[3])["token"]; ck.ob("timers",st+": fired token",names_of(t)[:1]==["0"] and item(strip_cast(t)[1]),q.loc(n),"the token told is %s"%show(t)[:60])
        cur=lambda e: (lambda e: e[0]=="call" and last(e[1])=="map_or" and len(e[2])==3 and CALL("get",tab,lambda k: names_of(k)[:1]==["0"] and has(k,item))(e[2][0]) and strip_cast(e[2][1])==("c",False))(strip_cast(e))
        num=lambda e: names_of(e)[:1]==["1"] and has(e,CALL("get",tab)); itn=lambda e: names_of(e)[:1]==["1"] and item(strip_cast(e)[1])
        same=ANYF(TRUE(cur),CMP("==",num,itn),CMP("==",itn,num)); other=ANYF(FALSE(cur),CMP("!=",num,itn),CMP("!=",itn,num),IS(CALL("get",tab),"None"))
        nopath(ck,"timers",st+": told only if it still runs",q,q.path(None,hv,avoid_edge=q.edge(same)),"a timer that was removed is still told to the handler")
        fired=q.after_edges(q.edges_where(IS(lambda e: pay(it,"Ready")(e),"Some"))); ck.floor("timers",st+": items",len(fired),1,q.body.span)
        exactly(ck,q,"timers",st+": fired is told",fired,hv,q.exits(),"a timer that fired is not told to the handler","a timer that fired is told twice",avoid_edge=q.edge(other))
        cl=[b for b in ck.p.bodies.values() if b.kind=="closure" and b.qual.startswith(STREAM%(PHS+st)) and q.edges_where(TRUE(cur))]
        for b in cl:
            z=Root(ck,b,opaque=lambda c_: True,depth=0); ex=[n for n in z.nodes("assign") if n.data[0]==[0,[]] or n.data[0][0]==0]
            vs=[strip_cast(z.value(n)) for n in ex]; ok=bool(vs) and all((v[0]=="bin" and v[1]=="Eq" or v[0]=="cmp") and any(names_of(y)[:1]==["1"] and has(y,P(2)) for y in v[2:]) and any(strip_cast(y)[0] in("up","upv") or has(y,P(1)) for y in v[2:]) for v in vs)
            ck.ob("timers",st+": compares the number",ok,b.span,"which timer fired is decided by %s"%", ".join(show(v)[:60] for v in vs))
        # the channel of the timers is looked at on every poll that goes on, and again after something came
        pl=[n for n in q.calls("poll_next") if name("notify_receiver")(q.args(n)[0])]; ck.floor("timers",st+": looks",len(pl),1,q.body.span)
        goes=q.exits(lambda v: v is None or not(v[0]=="v" and v[1]=="Ready" and "None" in str(v)))
        nopath(ck,"timers",st+": looks on every poll",q,q.path(None,goes,avoid=pl),"a handler goes on without looking at its timers")
        wait=q.exits(lambda v: v is None or v[:2]==("v","Pending"))
        nopath(ck,"timers",st+": looks again",q,q.path_from(q.after_edges(q.edges_where(IS(it,"Ready"))),wait),"a handler waits without having looked whether another timer fired",0)
        for b in sorted(ck.p.bodies.values(),key=lambda b:b.qual):
            if not live(b) or b.crate!="tentacle" or b.trait=="core::clone::Clone" or "as core::clone::Clone" in b.qual: continue
            for bl in b.blocks:
                for s_ in bl["s"]:
                    if s_[0]=="=" and s_[2][0]=="agg" and s_[2][1]=="adt" and s_[2][2].endswith(ev) and s_[2][3]=="Notify":
                        ck.ob("timers","%s::Notify made by %s"%(ev,b.qual),within(ck,b,{STREAM%(PHS+st)}),b.span,"a notification is made up")
def requests(ck):
    notified(ck,"requests")
RULES=[("marked",["molc"],marked),("told",["molc"],told),("reported",["molc"],reported),("timers",["molc"],timers),("requests",["molc"],requests)]
