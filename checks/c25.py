"""Static rules on requests and their outcomes: an accepted dial or listen request is noted, counted and set going exactly once
and a refused one not at all; the task of a request sends exactly one result on every way through it, about the address of the
request; the service turns each result into exactly one reported outcome, lowers the count once and forgets the dial; a started
listener is entered and announced together, and is removed and announced as closed together."""
from que import *
from c22 import tabops
from c23 import nopath, part
CONFIGS=["molc"]
ASSUMES=["A task handed to the task manager runs to its end while the service runs (tokio, futures::mpsc)","A counted request is the only source of its result: the result events are made nowhere else (checked)"]
TSK=("fmt","MultiTransport","Transport::dial","Transport::listen","dial","listen","key_pair","Config::handshake","Config::new","timeout","send","Service::handshake","Buffer::push","Buffer::clone_sender","spawn_listener","handle_event","handle_error","State::increase","State::decrease","clone_sender")
HST=OPQ+("handle_message","session_close","protocol_close","protocol_open","dial_inner","listen_inner","send_future_task")
SE="tentacle::service::config::State::"
def A(e):
    """an address, seen through its copies"""
    v=strip_cast(e)
    if v[0]=="agg" and last(v[1])=="Multiaddr":
        b=strip_cast(dict(v[3]).get("bytes",("?",)))
        if b[0]=="f" and b[2]=="bytes": return strip_cast(b[1])
    return v
DP=name("dial_protocols"); LS=name("listens")
def count(ck):
    for fn,op in(("increase","Add"),("decrease","Sub")):
        r=ck.root(SE+fn)
        ws=[n for n in r.nodes("assign") if n.data[0][1] and n.data[0][1][0]==["*"] or (n.kind=="assign" and n.data[0][0]==1)]
        ws=[n for n in ws if not(n.body.kind=="x")]
        step=lambda e: strip_cast(e)[0]=="bin" and strip_cast(e)[1].startswith(op) and pay(P(1),"Running")(strip_cast(e)[2]) and K(1)(strip_cast(e)[3])
        good=[n for n in ws if has(r.value(n),step)]
        ck.floor("count",fn+" changes the count",len(good),1,r.body.span)
        for n in ws:
            v=r.value(n); ck.ob("count",fn+": what is stored",has(v,step) or strip_cast(v)==("p",1),r.loc(n),"%s stores %s"%(fn,show(v)[:60]))
        run=r.after_edges(r.edges_where(IS(P(1),"Running"))); ck.floor("count",fn+" of a running service",len(run),1,r.body.span)
        exactly(ck,r,"count",fn,run,good,r.exits(),"%s leaves the count as it is"%fn,"%s changes the count twice"%fn)
        nopath(ck,"count",fn+" otherwise",r,r.path(None,good,avoid_edge=r.edge(IS(P(1),"Running"))),"%s changes a state that has no count"%fn)
    n=ck.root(SE+"new"); z=[m for m in n.aggs("State","Running")]; ck.floor("count","start",len(z),1,n.body.span)
    for m in z: ck.ob("count","starts at none",K(0)(dict(n.agg_value(m)[3])["0"]),n.loc(m),"the count starts at %s"%show(n.agg_value(m)))
    for fn,homes in(("State::increase",{S+"dial",S+"dial_inner",S+"listen_inner"}),("State::decrease",{S+"handle_session_event"})):
        cs=callers(ck,fn); ck.floor("count","callers of "+fn,len(cs),1)
        for b in cs: ck.ob("count","%s in %s"%(fn,b.qual),within(ck,b,homes),b.span,"the count of requests is changed outside of accepting a request and handling its outcome")
def task(ck,r,inst,pushes,inc):
    """exactly one of each on every accepting way, none on a refusing one"""
    ok=r.exits(okexit); err=r.exits(lambda v: v is not None and v[0]=="v" and v[1]=="Err"); ck.floor("request",inst+": acceptance",len(ok),1,r.body.span); ck.floor("request",inst+": refusal",len(err),1,r.body.span)
    for what,ns in pushes.items():
        ck.floor("request","%s: %s"%(inst,what),len(ns),1,r.body.span)
        exactly(ck,r,"request","%s: %s"%(inst,what),[r.u.start],ns,ok,"an accepted request: %s left out"%what,"an accepted request: %s twice"%what)
        nopath(ck,"request","%s refused: %s"%(inst,what),r,r.path(ns,err),"a refused request: %s all the same"%what)
def request(ck):
    r=ck.root(S+"dial_inner",opaque=TSK)
    ins=tabops(r,"dial_protocols",("insert",)); push=[n for n in r.calls("Buffer::push") if name("future_task_sender")(r.args(n)[0])]
    task(ck,r,"dial",{"noted":ins,"set going":push,"counted":r.calls("State::increase")},None)
    for n in ins: ck.ob("request","dial: noted under its address",P(2)(A(r.args(n)[1])) and P(3)(r.args(n)[2]),r.loc(n),"noted is %s for %s"%(show(r.args(n)[2])[:40],show(r.args(n)[1])[:40]))
    for n in r.calls("dial"): ck.ob("request","dial: the address asked for",P(2)(A(r.args(n)[1])),r.loc(n),"what is dialled is %s"%show(r.args(n)[1])[:60])
    r=ck.root(S+"dial",opaque=TSK)
    ins=tabops(r,"dial_protocols",("insert",)); task(ck,r,"direct dial",{"noted":ins,"set going":r.calls("Service::handshake"),"counted":r.calls("State::increase")},None)
    for n in ins: ck.ob("request","direct dial: noted under its address",P(2)(A(r.args(n)[1])) and P(3)(r.args(n)[2]),r.loc(n),"noted is %s for %s"%(show(r.args(n)[2])[:40],show(r.args(n)[1])[:40]))
    for n in r.calls("Service::handshake"): ck.ob("request","direct dial: handshake",AGG("SessionType","Outbound")(r.args(n)[2]) and has(r.args(n)[3],CALL("poll")),r.loc(n),"the handshake is for %s"%show(r.args(n)[3])[:60])
    r=ck.root(S+"listen_inner",opaque=TSK)
    push=[n for n in r.calls("Buffer::push") if name("future_task_sender")(r.args(n)[0])]; task(ck,r,"listen",{"set going":push,"counted":r.calls("State::increase")},None)
    for n in r.calls("listen"): ck.ob("request","listen: the address asked for",P(2)(A(r.args(n)[1])),r.loc(n),"what is listened on is %s"%show(r.args(n)[1])[:60])
    r=ck.root(S+"listen",opaque=TSK)
    ev=[n for n in r.calls("handle_event") if AGG("ServiceEvent","ListenStarted")(r.args(n)[2])]
    task(ck,r,"direct listen",{"announced":ev,"entered":tabops(r,"listens",("insert",)),"set going":r.calls("spawn_listener")},None)
    started(ck,r,"direct listen",lambda e: has(e,CALL("poll")))
    h=ck.root(S+"handle_service_task",assume=under(P(3),"Dial"),opaque=HST); asked(ck,h,"dial","dial_inner",CALL("contains_key",DP),"DialerError")
    h=ck.root(S+"handle_service_task",assume=under(P(3),"Listen"),opaque=HST); asked(ck,h,"listen","listen_inner",CALL("contains",LS),"ListenError")
    for b in ck.p.bodies.values():
        if not live(b) or b.crate!="tentacle" or "service" not in b.qual: continue
        x=Root(ck,b,opaque=lambda c: True,depth=0,closures=False)
        for n in tabops(x,"dial_protocols",("insert","entry","extend","remove","clear","drain","retain","remove_entry")):
            d=last(x.g.decl(n)); home={S+"dial",S+"dial_inner"} if d in("insert","entry","extend") else {S+"session_open",S+"handle_session_event"}
            ck.ob("request","table of dials: %s in %s"%(d,b.qual),within(ck,b,home) and d in("insert","remove"),x.loc(n),"the table of running dials is changed with %s outside of requests and outcomes"%d)
        for n in tabops(x,"listens",("insert","extend","remove","clear","drain","retain","take","replace")):
            d=last(x.g.decl(n)); home={S+"listen",S+"handle_session_event"} if d in("insert","extend","replace") else {S+"handle_session_event",S+"handle_service_task"}
            ck.ob("request","table of listeners: %s in %s"%(d,b.qual),within(ck,b,home) and d in("insert","remove","drain"),x.loc(n),"the table of listeners is changed with %s outside of starting and closing"%d)
def asked(ck,h,inst,fn,known,kind):
    ns=h.calls(fn); ck.floor("request","asked to "+inst,len(ns),1,h.body.span)
    er=[n for n in h.calls("handle_error")]
    exactly(ck,h,"request","asked to "+inst,[h.u.start],ns,h.exits(),"a request to %s is dropped"%inst,"a request to %s is carried out twice"%inst,avoid_edge=h.edge(TRUE(known)))
    nopath(ck,"request","asked to %s again"%inst,h,h.path(None,ns,avoid_edge=h.edge(FALSE(known))),"a request to %s is carried out while the same one is running"%inst)
    for n in h.calls("contains_key","contains"): ck.ob("request","asked to %s: looked up"%inst,part(A(h.args(n)[1]),"address",3),h.loc(n),"what is looked up is %s"%show(h.args(n)[1])[:60])
    bad=h.after_edges(h.edges_where(IS(CALL(fn),"Err"))); ck.floor("request","refused to "+inst,len(bad),1,h.body.span)
    exactly(ck,h,"request","refused to "+inst,bad,er,h.exits(),"a refused request to %s is not reported"%inst,"a refused request to %s is reported twice"%inst)
    nopath(ck,"request","reported only if refused to "+inst,h,h.path(None,er,avoid_edge=h.edge(IS(CALL(fn),"Err"))),"an error is reported for a request to %s that was accepted"%inst)
    for n in ns: ck.ob("request","asked to %s: what"%inst,part(A(h.args(n)[1]),"address",3) and (inst!="dial" or part(h.args(n)[2],"target",3)),h.loc(n),"%s is given %s"%(fn,show(h.args(n)[1])[:60]))
    for n in er: reported(ck,h,n,kind,"request","refused to "+inst,"address")
def reported(ck,h,n,kind,rule,inst,f):
    v=strip_cast(h.args(n)[2]); ok=AGG("ServiceError",kind)(v) and part(A(dict(v[3])["address"]),f,3)
    ck.ob(rule,inst+": what is reported",ok,h.loc(n),"what is reported is %s"%show(v)[:100])
def started(ck,r,inst,addr):
    ev=[n for n in r.calls("handle_event") if AGG("ServiceEvent","ListenStarted")(r.args(n)[2])]; vals=[(n,dict(strip_cast(r.args(n)[2])[3])["address"]) for n in ev]+[(n,r.args(n)[1]) for n in tabops(r,"listens",("insert",))]+[(n,r.args(n)[2]) for n in r.calls("spawn_listener")]
    for n,v in vals: ck.ob("request",inst+": which address",addr(A(v)) and A(v)==A(vals[0][1]),r.loc(n),"a listener is started for %s"%show(v)[:60])
def result(ck):
    """one result per request, with the address of the request"""
    homes={"HandshakeSuccess":HSK,"HandshakeError":HSK,"DialError":S+"dial_inner","ListenStart":S+"listen_inner","ListenStartError":S+"listen_inner","ListenError":"tentacle::service::helper::Listener::close"}
    mk={}
    for v,home in homes.items():
        ms=[b for b in makers(ck,"SessionEvent",v) if b.crate=="tentacle"]; mk[v]=ms; ck.floor("result","makers of "+v,len(ms),1)
        for b in ms: ck.ob("result","%s made by %s"%(v,b.qual),within(ck,b,{home}),b.span,"the result %s is made outside of the task of a request"%v)
    def one(r,inst,vs,extra=()):
        snd=[n for n in r.calls("send") if strip_cast(r.args(n)[1])[0] in("agg","phi","f","d","p","call") and any(AGG("SessionEvent",v)(x) for x in alts(r.args(n)[1]) for v in vs)]
        ck.floor("result",inst+": sendings",len(snd)+len(extra),1,r.body.span)
        exactly(ck,r,"result",inst,[r.u.start],snd+list(extra),r.exits(),"a request ends without a result","a request has two results")
        for n in snd:
            for x in alts(r.args(n)[1]): ck.ob("result",inst+": what is sent",any(AGG("SessionEvent",v)(x) for v in vs),r.loc(n),"what is sent is %s"%show(x)[:80])
        awaited=[n for n in r.calls("poll","Future::poll")]
        for n in snd+list(extra): nopath(ck,"result",inst+": sending is waited for",r,r.path([n],r.exits(),avoid=[m for m in awaited if has(r.args(m)[0],lambda e: e[0]=="call" and last(e[1]) in("send","handshake"))]),"a result is made and not sent")
    h=ck.root(HSK,opaque=("fmt","timeout","Config::handshake","Config::new","send","max_frame_length"))
    one(h,"handshake",("HandshakeSuccess","HandshakeError"))
    for v in("HandshakeSuccess","HandshakeError"):
        for n in h.aggs("SessionEvent",v):
            d=dict(h.agg_value(n)[3]); ck.ob("result","%s: about its connection"%v,name("remote_address")(d["address"]) and name("ty")(d["ty"]),h.loc(n),"the result is about %s"%show(d["address"])[:60])
    timed=h.edge(IS(CALL("poll",lambda e: has(e,CALL("timeout"))),"Ok"))
    for b in mk["DialError"]:
        d=ck.root(b,opaque=TSK+("HandshakeContext::handshake",)); hs=d.calls("HandshakeContext::handshake","handshake"); ck.floor("result","dial goes on to the handshake",len(hs),1,d.body.span)
        one(d,"dial",("DialError",),hs)
        dialok=lambda e: has(e,lambda x: x[0]=="call" and last(x[1])=="poll")
        nopath(ck,"result","dial: handshake only if connected",d,d.path(None,hs,avoid_edge=d.edge(IS(lambda e: CALL("poll")(core_of(e)) or CALL("poll")(e) or dialok(e),"Ok"))),"a handshake is started on a failed dial")
        for n in hs:
            v=strip_cast(d.args(n)[0]); f=dict(v[3]) if v[0]=="agg" else {}
            ck.ob("result","dial: handshake of this dial",bool(f) and AGG("SessionType","Outbound")(f["ty"]) and ((has(f["remote_address"],CALL("poll")) and not has(f["remote_address"],CALL("handshake"))) or origin(ck,b,A(f["remote_address"]),2)),d.loc(n),"the handshake of a dial is for %s"%show(v)[:80])
        for n in d.aggs("SessionEvent","DialError"):
            f=dict(d.agg_value(n)[3]); a=strip_cast(f["address"]); ck.ob("result","dial error: about its address",a[0] in("p","up"),d.loc(n),"the error is about %s"%show(a)[:60])
            if a[0] in("p","up") and b.kind=="coroutine": ck.ob("result","dial error: address of the request",origin(ck,b,a,2),d.loc(n),"the error of a dial names another address")
    for b in mk["ListenStartError"]:
        d=ck.root(b,opaque=TSK); one(d,"listen",("ListenStart","ListenStartError"))
        for n in d.aggs("SessionEvent","ListenStartError"):
            a=strip_cast(dict(d.agg_value(n)[3])["address"]); ck.ob("result","listen error: address of the request",a[0] in("p","up") and origin(ck,b,a,2),d.loc(n),"the error of listening is about %s"%show(a)[:60])
        for n in d.aggs("SessionEvent","ListenStart"):
            f=dict(d.agg_value(n)[3]); ck.ob("result","listen start: what",all(has(x,CALL("poll")) and names_of(x)[:1]==[i] for k,i in(("listen_address","0"),("incoming","1")) for x in alts(f[k])),d.loc(n),"the started listener is %s"%show(f["listen_address"])[:60])
    x=ck.root(S+"handshake",opaque=("fmt","key_pair","clone_sender","HandshakeContext::handshake","send"))
    hs=x.calls("HandshakeContext::handshake"); ck.floor("result","direct dial goes on to the handshake",len(hs),1,x.body.span)
    for n in hs:
        f=dict(strip_cast(x.args(n)[0])[3]); ck.ob("result","direct dial: handshake of this dial",P(3)(f["ty"]) and P(4)(f["remote_address"]),x.loc(n),"the handshake is for %s"%show(f["remote_address"])[:60])
    sp=x.calls("spawn"); exactly(ck,x,"result","direct dial: handshake is run",[x.u.start],sp,x.exits(),"the handshake of a dial is not run","the handshake of a dial is run twice")
    for fn in(S+"handshake",S+"spawn_listener","tentacle::service::helper::Listener::close","tentacle::service::helper::Listener::handshake"):
        b=ck.p.one(fn) if hasattr(ck.p,"one") else [y for y in ck.p.bodies.values() if y.qual==fn][0]
        fam=[y for y in ck.p.bodies.values() if y.kind=="coroutine" and (y.parent==b.key)]
        hands=0
        for c in fam:
            y=ck.root(c,opaque=("fmt","send"))
            ss=[n for n in y.calls("send")]
            for n in ss: nopath(ck,"result","%s: handed to the manager"%fn,y,y.path(None,y.exits(),avoid=ss),"a task is made and not handed to the task manager"); hands+=1
        ck.floor("result","handings in "+fn,hands,1,b.span)
        z=ck.root(fn,opaque=("fmt","key_pair","clone_sender","HandshakeContext::handshake","send"),closures=False); sp=z.calls("spawn")
        exactly(ck,z,"result",fn+": started",[z.u.start],sp,z.exits(),"a task is made and not started","a task is started twice")
    fl=ck.root("<tentacle::service::Service as futures_core::stream::Stream>::poll_next",opaque=OPQ+("session_poll","user_task_poll","try_update_listens","wait_handle_poll","init_proto_handles","distribute_to_session","distribute_to_user_level","flush_buffer","spawn","for_each"))
    ts=[n for n in fl.calls("try_send") if name("future_task_sender")(fl.args(n)[0])]; ut=fl.calls("user_task_poll"); ck.floor("result","tasks are passed on",len(ts),1,fl.body.span)
    nopath(ck,"result","tasks are passed on after requests",fl,fl.path(ut,fl.exits(),avoid=ts,avoid_edge=fl.edge(CMP("==",LEN(name("buffer")),K(0)))),"a request is taken and its task is not passed on")
def origin(ck,b,a,want,homes=(S+"dial_inner",S+"listen_inner"),depth=4):
    """the value of a function or task is, followed back through captures and callers, the given parameter of the request function"""
    if a[0] not in("p","up") or depth==0: return False
    if b.qual in homes: return a==("p",want)
    i=a[1]-1 if a[0]=="p" else a[1]
    vals=[]
    if b.kind in("closure","coroutine"):
        par=ck.p.bodies.get(b.parent)
        if par is None: return False
        r=ck.root(par,opaque=TSK)
        vals=[(par,A(r.g.val(n.data[1][-1][i],n.ctx,n.id))) for n in r.nodes("assign") if n.data[1][0]=="agg" and n.data[1][1] in("coroutine","closure") and n.data[1][2]==b.key]
    else:
        for c in callers(ck,b.qual):
            r=Root(ck,c,opaque=lambda x: True,depth=0,closures=False)
            vals+=[(c,A(r.args(n)[i])) for n in r.calls(b.qual) if n.body is c]
    return bool(vals) and all(origin(ck,c,v,want,homes,depth-1) for c,v in vals)
def outcome(ck):
    o=OPQ+("session_close","session_open","protocol_open","protocol_message","protocol_close","Service::handshake","try_update_listens","spawn_listener","handle_service_task","State::increase","State::decrease","reached_max_connection_limit")
    OUTB=lambda h: (h.edge(FALSE(CALL("is_outbound"))),h.edge(IS(lambda e: name("ty")(e),"Inbound")))
    for v,kind in(("HandshakeSuccess","DialerError"),("HandshakeError","DialerError"),("DialError","DialerError"),("ListenStartError","ListenError"),("ListenStart",None),("ListenError","ListenError")):
        h=ck.root(S+"handle_session_event",assume=under(P(3),v),opaque=o)
        inb=h.edge(ANYF(IS(lambda e: part(e,"ty",3),"Inbound"),FALSE(CALL("is_outbound")))); outb=h.edge(ANYF(IS(lambda e: part(e,"ty",3),"Outbound"),TRUE(CALL("is_outbound"))))
        dec=h.calls("State::decrease"); rm=tabops(h,"dial_protocols",("remove",)); er=h.calls("handle_error"); so=h.calls("session_open"); ev=h.calls("handle_event")
        if v=="ListenError":
            lr=tabops(h,"listens",("remove",)); ck.floor("outcome","a listener ends",len(lr),1,h.body.span)
            exactly(ck,h,"outcome","listener ended: reported",[h.u.start],er,h.exits(),"the error of a listener is not reported","the error of a listener is reported twice")
            exactly(ck,h,"outcome","listener ended: removed",[h.u.start],lr,h.exits(),"an ended listener stays in the table","an ended listener is removed twice")
            cl=[n for n in ev if AGG("ServiceEvent","ListenClose")(h.args(n)[2])]
            gone=h.after_edges(h.edges_where(TRUE(CALL("remove",LS)))); ck.floor("outcome","a listener ended",len(gone),1,h.body.span)
            exactly(ck,h,"outcome","listener ended: announced",gone,cl,h.exits(),"a listener ends and is not announced as closed","a listener is announced as closed twice")
            nopath(ck,"outcome","listener ended: only if it was running",h,h.path(None,cl,avoid_edge=h.edge(TRUE(CALL("remove",LS)))),"a listener that is not in the table is announced as closed")
            for n in lr: ck.ob("outcome","listener ended: which is removed",part(A(h.args(n)[1]),"address",3),h.loc(n),"what is removed is %s"%show(h.args(n)[1])[:60])
            for n in cl: ck.ob("outcome","listener ended: which is announced",part(A(dict(strip_cast(h.args(n)[2])[3])["address"]),"address",3),h.loc(n),"what is announced is %s"%show(h.args(n)[2])[:60])
            for n in er: reported(ck,h,n,kind,"outcome","listener ended","address")
            ck.ob("outcome","listener ended: count",not dec,h.body.span,"the end of a listener lowers the count of requests")
            continue
        av=inb if v.startswith("Handshake") else (h.edge(ANYF(TRUE(CALL("is_pre_shutdown")),IS(name("state"),"PreShutdown"))) if v=="ListenStart" else None)
        ck.floor("outcome",v+": counts down",len(dec),1,h.body.span)
        exactly(ck,h,"outcome",v+": count lowered",[h.u.start],dec,h.exits(),"an outcome leaves the count of requests as it is","an outcome lowers the count of requests twice",avoid_edge=av)
        if v.startswith("Handshake"): nopath(ck,"outcome",v+": count of an inbound connection",h,h.path(None,dec+er+rm,avoid_edge=outb),"an inbound connection is counted or reported as a dial")
        if v=="ListenStart":
            st=[n for n in ev if AGG("ServiceEvent","ListenStarted")(h.args(n)[2])]
            for what,ns in(("announced",st),("entered",tabops(h,"listens",("insert",))),("set going",h.calls("spawn_listener"))):
                ck.floor("outcome","%s: %s"%(v,what),len(ns),1,h.body.span); exactly(ck,h,"outcome","%s: %s"%(v,what),[h.u.start],ns,h.exits(),"a started listener is not %s"%what,"a started listener is %s twice"%what,avoid_edge=av)
            started(ck,h,"started",lambda e: part(e,"listen_address",3))
            for n in h.calls("spawn_listener"): ck.ob("outcome",v+": the started one",part(h.args(n)[1],"incoming",3),h.loc(n),"what is set going is %s"%show(h.args(n)[1])[:60])
            continue
        ends=er+so; ck.floor("outcome",v+": reported",len(er),1,h.body.span)
        exactly(ck,h,"outcome",v+": one outcome",[h.u.start],ends,h.exits(),"a request ends without an outcome","a request has two outcomes",avoid_edge=av)
        for n in er: reported(ck,h,n,kind,"outcome",v,"address")
        if kind=="DialerError":
            ck.floor("outcome",v+": forgotten",len(rm),1,h.body.span)
            exactly(ck,h,"outcome",v+": forgotten",[h.u.start],rm+so,h.exits(),"the address of an ended dial cannot be dialled again","a dial is forgotten twice",avoid_edge=av)
            for n in rm: ck.ob("outcome",v+": which is forgotten",part(A(h.args(n)[1]),"address",3),h.loc(n),"what is forgotten is %s"%show(h.args(n)[1])[:60])
    r=ck.root(S+"session_open",opaque=OPQ+("generate_next_session","poll_shutdown"))
    rm=tabops(r,"dial_protocols",("remove",)); ck.floor("outcome","opening forgets the dial",len(rm),1,r.body.span)
    exactly(ck,r,"outcome","opening forgets the dial",[r.u.start],rm,r.exits(),"the address of an ended dial cannot be dialled again","a dial is forgotten twice")
    for n in rm: ck.ob("outcome","opening forgets the dial: which",P(5)(A(r.args(n)[1])),r.loc(n),"what is forgotten is %s"%show(r.args(n)[1])[:60])
    mut=[n for n in r.calls("Multiaddr::push") if P(5)(r.args(n)[0])]+[n for n in r.nodes("assign") if n.ctx==0 and n.data[0]==[5,[]]]
    nopath(ck,"outcome","opening forgets the dial: address as dialled",r,r.path(mut,rm),"the address is changed before the dial is looked up under it")
    ends=[n for n in r.calls("handle_error") if any(AGG("ServiceError",k)(r.args(n)[2]) for k in("DialerError","ListenError"))]+[n for n in r.calls("handle_event") if AGG("ServiceEvent","SessionOpen")(r.args(n)[2])]
    exactly(ck,r,"outcome","opening has one outcome",[r.u.start],ends,r.exits(),"a connection is neither opened nor reported","a connection has two outcomes")
    di=[n for n in r.calls("handle_error") if AGG("ServiceError","ListenError")(r.args(n)[2])]
    nopath(ck,"outcome","a dial is reported as a dial",r,r.path(None,di,avoid_edge=r.edge(ANYF(FALSE(CALL("is_outbound",P(6))),IS(P(6),"Inbound")))),"the failure of a dial is reported as that of a listener")
    for n in r.calls("handle_error"):
        v=strip_cast(r.args(n)[2])
        if AGG("ServiceError","DialerError")(v): ck.ob("outcome","opening: error is about the address",P(5)(A(dict(v[3])["address"])),r.loc(n),"what is reported is %s"%show(v)[:80])
    dialled(ck,"outcome")
def ended(ck):
    """a listener ends with one report; a shutdown announces every listener"""
    L="tentacle::service::helper::Listener"
    r=ck.root("<%s as futures_core::stream::Stream>::poll_next"%L,opaque=("fmt","Listener::close","Listener::handshake","poll_next"))
    cl=r.calls("Listener::close"); end=r.exits(lambda v: v is not None and v[0]=="v" and v[1]=="Ready" and len(v)>2 and v[2] and str(v[2]).find("None")>=0)
    ck.floor("ended","reports",len(cl),1,r.body.span)
    inner=lambda e: CALL("poll_next")(core_of(e)) or CALL("poll_next")(e)
    stop=r.after_edges([e for e in r.edges_where(ANYF(IS(lambda e: inner(e),"None"),IS(lambda e: inner(e),"Err")))]); ck.floor("ended","ends",len(stop),1,r.body.span)
    exactly(ck,r,"ended","reported",stop,cl,r.exits(),"a listener ends without a report","the end of a listener is reported twice")
    nopath(ck,"ended","only when it ends",r,r.path(None,cl,avoid_edge=r.edge(ANYF(IS(inner,"None"),IS(inner,"Err")))),"the end of a listener is reported while it runs")
    vals=retvals(r,lambda v: True) if False else None
    ok=r.exits(lambda v: not(v is not None and v[0]=="v" and v[1]=="Ready" and "None" in str(v)))
    p=r.path(cl,ok); nopath(ck,"ended","it stops",r,p,"a listener whose end was reported goes on")
    noend=r.exits(lambda v: v is not None and v[0]=="v" and v[1]=="Ready" and "None" in str(v)); ck.floor("ended","end of the stream",len(noend),1,r.body.span)
    nopath(ck,"ended","ends only reported",r,r.path(None,noend,avoid=cl),"a listener ends without a report")
    for b in makers(ck,"SessionEvent","ListenError"):
        c=ck.root(b,opaque=("fmt","send")); snd=c.calls("send"); exactly(ck,c,"ended","report is sent",[c.u.start],snd,c.exits(),"the end of a listener is not sent","the end of a listener is sent twice")
    w=ck.root(L+"::close",opaque=("fmt","send"),closures=False)
    for n in w.nodes("assign"):
        v=n.data[1]
        if v[0]=="agg" and v[1]=="coroutine" and any(b.key==v[2] for b in makers(ck,"SessionEvent","ListenError")): ck.ob("ended","report names the listener",any(name("listen_addr")(A(w.g.val(x,n.ctx,n.id))) for x in v[-1]),w.loc(n),"the end of a listener is reported under another address")
    s=ck.root(S+"spawn_listener",opaque=("fmt","key_pair","clone_sender","send"),closures=False)
    for n in s.aggs("Listener"):
        f=dict(s.agg_value(n)[3]); ck.ob("ended","listener knows its address",P(3)(f["listen_addr"]) and P(2)(f["inner"]),s.loc(n),"a listener is set going under %s"%show(f["listen_addr"])[:60])
    ck.floor("ended","listeners set going",len(s.aggs("Listener")),1,s.body.span)
    h=ck.root(S+"handle_service_task",assume=under(P(3),"Shutdown"),opaque=HST)
    dr=tabops(h,"listens",("drain",)); ck.floor("ended","shutdown takes the listeners",len(dr),1,h.body.span)
    it=lambda e: has(e,CALL("drain",LS)) and not has(e,CALL(("filter","skip","Iterator::take","take_while","step_by","skip_while","filter_map","find"))); cl=[n for n in h.calls("handle_event") if AGG("ServiceEvent","ListenClose")(h.args(n)[2])]
    some=h.after_edges(h.edges_where(IS(CALL("next",it),"Some"))); ck.floor("ended","listeners at shutdown",len(some),1,h.body.span)
    nxt=set(h.states_of([n for n in h.calls("next") if it(h.args(n)[0])]))|h.exits()
    nopath(ck,"ended","shutdown announces each",h,h.path_from(some,nxt,avoid=cl),"a listener is stopped and not announced as closed",0)
    ids={n.id for n in h.calls("next") if it(h.args(n)[0])}; ci={n.id for n in cl}
    p=h.query(0,lambda q,x: 0 if x in ids else min(2,q+(x in ci)),None,lambda q,s: q==2,some); nopath(ck,"ended","shutdown announces each once",h,p,"a listener is announced as closed twice")
    nopath(ck,"ended","shutdown goes through all",h,h.path(None,h.exits(),avoid_edge=h.edge(IS(CALL("next",it),"None"))),"a shutdown leaves listeners in the table")
    for n in cl: ck.ob("ended","shutdown announces the listener",has(h.args(n)[2],CALL("next",it)),h.loc(n),"what is announced is %s"%show(h.args(n)[2])[:80])
    for v,homes in(("ListenClose",{S+"handle_session_event",S+"handle_service_task"}),("ListenStarted",{S+"listen",S+"handle_session_event"})):
        ms=[b for b in makers(ck,"ServiceEvent",v) if b.crate=="tentacle"]; ck.floor("ended","makers of "+v,len(ms),1)
        for b in ms: ck.ob("ended","%s made by %s"%(v,b.qual),within(ck,b,homes),b.span,"%s is announced outside of changes of the table"%v)
RULES=[("count",["molc"],count),("request",["molc"],request),("result",["molc"],result),("outcome",["molc"],outcome),("ended",["molc"],ended)]
