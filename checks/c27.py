"""Static rules on the control handles: every operation of the blocking, the asynchronous and the in-handler handle submits, on
every way through it that does not refuse, exactly one request, the one a common table gives for the operation, with the
caller's arguments in place and in the priority the table gives; the results of the queue are passed on with one mapping of
errors; and the service carries out each request it takes from the queue, exactly once and with those arguments."""
from que import *
from c23 import nopath, part
from c25 import HST
CONFIGS=["molc"]
ASSUMES=["The request queue delivers what it accepts, in its priority, and reports full and disconnected truly (C18)"]
C="tentacle::service::control::"
OPS={"listen":(1,"Listen",{"address":2}),"dial":(1,"Dial",{"address":2,"target":3}),"disconnect":(1,"Disconnect",{"session_id":2}),
 "send_message_to":(0,"ProtocolMessage",{"target":"single","proto_id":3,"data":4}),"quick_send_message_to":(1,"ProtocolMessage",{"target":"single","proto_id":3,"data":4}),
 "filter_broadcast":(0,"ProtocolMessage",{"target":2,"proto_id":3,"data":4}),"quick_filter_broadcast":(1,"ProtocolMessage",{"target":2,"proto_id":3,"data":4}),
 "future_task":(0,"FutureTask",{"task":2}),"open_protocol":(1,"ProtocolOpen",{"session_id":2,"target":"proto"}),"open_protocols":(1,"ProtocolOpen",{"session_id":2,"target":3}),
 "close_protocol":(1,"ProtocolClose",{"session_id":2,"proto_id":3}),"set_service_notify":(0,"SetProtocolNotify",{"proto_id":2,"interval":3,"token":4}),"remove_service_notify":(0,"RemoveProtocolNotify",{"proto_id":2,"token":3}),
 "set_session_notify":(0,"SetProtocolSessionNotify",{"session_id":2,"proto_id":3,"interval":4,"token":5}),"remove_session_notify":(0,"RemoveProtocolSessionNotify",{"session_id":2,"proto_id":3,"token":4}),
 "close":(1,"Shutdown",{"0":False}),"shutdown":(1,"Shutdown",{"0":True})}
FAST=("try_quick_send","Sender::try_quick_send","quick_send"); SLOW=("try_send","send")
O=("fmt","Sender::try_send","Sender::try_quick_send","Sender::send","SinkExt::send","QuickSinkExt::quick_send","is_full","boxed")
def arg(e,w):
    e=strip_cast(e)
    if w=="single": return AGG("TargetSession","Single")(e) and P(2)(dict(e[3])["0"])
    if w=="proto": return (AGG("TargetProtocol","Single")(e) and P(3)(dict(e[3])["0"])) or P(3)(e) or CALL(("into","from"),P(3))(e)
    if w in(True,False): return e==("c",w)
    if P(w)(e): return True
    v=e
    if v[0]=="agg" and last(v[1])=="Multiaddr": v=strip_cast(dict(v[3])["bytes"]); v=strip_cast(v[1]) if v[0]=="f" else v; return P(w)(v)
    return CALL(("pin","Box::pin","new","boxed"),P(w))(e) or (e[0]=="agg" and last(e[1])=="Pin" and any(P(w)(x) or CALL(("pin","new"),P(w))(x) for x in subs(e)))
def sendings(r):
    out=[]
    for n in r.nodes("call"):
        if n.data[1][0]!="fn": continue
        d=r.g.decl(n); a=r.args(n)
        if last(d) in("try_send","try_quick_send","send","quick_send","start_send","start_quick_send","try_feed","feed") and len(a)>1 and has(a[0],name("task_sender")): out.append(n)
    return out
def submit(ck,r,inst,op):
    fast,variant,want=OPS[op]; ss=sendings(r); ck.floor("submit",inst+" submits",len(ss),1,r.body.span)
    closed=TRUE(CALL("load",name("closed")))
    exactly(ck,r,"submit",inst,[r.u.start],ss,r.exits(),"%s submits nothing"%inst,"%s submits two requests"%inst,avoid_edge=r.edge(closed))
    for n in ss:
        v=strip_cast(r.args(n)[1]); q="quick" in last(r.g.decl(n))
        ck.ob("submit",inst+": request",AGG("ServiceTask",variant)(v),r.loc(n),"%s submits %s"%(inst,show(v)[:60]))
        ck.ob("submit",inst+": priority",q==bool(fast),r.loc(n),"%s is submitted with %s"%(inst,last(r.g.decl(n))))
        if AGG("ServiceTask",variant)(v):
            d=dict(v[3])
            for f,w in want.items(): ck.ob("submit","%s: %s"%(inst,f),f in d and arg(d[f],w),r.loc(n),"%s submits %s as %s"%(inst,show(d.get(f,("?",)))[:60],f))
            ck.ob("submit",inst+": all of it",set(d)==set(want),r.loc(n),"%s submits a request with other parts: %s"%(inst,sorted(d)))
    nopath(ck,"submit",inst+": refused when closed",r,r.path_from(r.after_edges(r.edges_where(closed)),ss),"%s submits to a service that has ended"%inst)
    bad=[n for n in r.aggs("SendErrorKind","WouldBlock")]+[]
    okx=r.exits(lambda v: v is not None and v[0]=="v" and v[1]=="Ok" ); nopath(ck,"submit",inst+": no success without a request",r,r.path(None,okx,avoid=ss),"%s succeeds without a request"%inst)
    nopath(ck,"submit",inst+": success only if accepted",r,r.path(None,r.aggs("Result","Ok"),avoid_edge=r.edge(IS(CALL(("try_send","try_quick_send")),"Ok"))),"%s answers with success although the request was not accepted"%inst)
    errs(ck,r,inst,ss)
def errs(ck,r,inst,ss):
    asy=any(last(r.g.decl(n)) in("send","quick_send") for n in ss)
    full=r.edge(TRUE(CALL("is_full"))); notf=r.edge(FALSE(CALL("is_full")))
    wb=r.aggs("SendErrorKind","WouldBlock"); bp=r.aggs("SendErrorKind","BrokenPipe"); ck.floor("submit",inst+": broken pipe",len(bp),1,r.body.span)
    nopath(ck,"submit",inst+": closed is a broken pipe",r,r.path_from(r.after_edges(r.edges_where(TRUE(CALL("load",name("closed"))))),r.exits(),avoid=bp),"%s on an ended service is not a broken pipe"%inst)
    nopath(ck,"submit",inst+": would-block only when full",r,r.path(None,wb,avoid_edge=full),"%s reports would-block although the queue is not full"%inst)
    if not asy:
        ck.floor("submit",inst+": full",len(r.edges_where(TRUE(CALL("is_full")))),1,r.body.span)
        st=r.after_edges(r.edges_where(TRUE(CALL("is_full")))); nopath(ck,"submit",inst+": full is would-block",r,r.path_from(st,r.exits(),avoid=wb),"%s on a full queue is not would-block"%inst)
        st=r.after_edges(r.edges_where(FALSE(CALL("is_full")))); nopath(ck,"submit",inst+": else a broken pipe",r,r.path_from(st,r.exits(),avoid=bp),"%s on a closed queue is not a broken pipe"%inst)
def subst(e,args):
    if isinstance(e,tuple):
        if len(e)==2 and e[0]=="p" and isinstance(e[1],int): return strip_cast(args[e[1]-1]) if 0<e[1]<=len(args) else ("?",)
        return tuple(subst(x,args) for x in e)
    return e
def family(ck,b):
    cs=[c for c in ck.p.bodies.values() if c.kind=="coroutine" and c.parent==b.key]
    return cs[0] if cs else b
class Async:
    """what an asynchronous operation submits, followed through the functions it awaits"""
    def __init__(self,ck): self.ck=ck; self.memo={}; self.done=set()
    def of(self,b,depth=5):
        if b.key in self.memo: return self.memo[b.key]
        self.memo[b.key]=[]; ck=self.ck; c=family(ck,b); out=[]
        if depth==0: return []
        r=Root(ck,c,opaque=lambda x: True,depth=0,closures=False); leaf=sendings(r); sites=[(n,[("quick" in last(r.g.decl(n)),strip_cast(r.args(n)[1]))]) for n in leaf]
        for n in r.nodes("call"):
            if n in leaf or n.data[1][0]!="fn": continue
            t=[x for x in ck.p.bodies.values() if x.qual==r.g.qual(n) and x.crate=="tentacle" and x.kind in("fn","method")]
            if not t or t[0].key==b.key or not t[0].qual.startswith(C): continue
            sub=self.of(t[0],depth-1)
            if sub: sites.append((n,[(f,subst(e,r.args(n))) for f,e in sub]))
        self.memo[b.key]=out=[(f,e) for _,l in sites for f,e in l]; inst=b.qual
        if sites and b.key not in self.done:
            self.done.add(b.key); ns=[n for n,_ in sites]; closed=TRUE(CALL("load",name("closed")))
            exactly(ck,r,"submit",inst,[r.u.start],ns,r.exits(),"%s submits nothing"%inst,"%s submits two requests"%inst,avoid_edge=r.edge(closed) if leaf else None)
            if c is not b:
                pl=[m for m in r.calls("poll","Future::poll") if any(has(r.args(m)[0],lambda e,n=n: e==strip_cast(r.g.callval(n,0))) for n in ns)]
                nopath(ck,"submit",inst+": is awaited",r,r.path(ns,r.exits(),avoid=pl),"%s makes a request and does not wait until it is submitted"%inst)
            if leaf:
                ck.floor("submit",inst+": looks whether the service has ended",len(r.edges_where(closed)),1,r.body.span)
                nopath(ck,"submit",inst+": refused when closed",r,r.path_from(r.after_edges(r.edges_where(closed)),set(r.states_of(leaf))),"%s submits to a service that has ended"%inst)
                nopath(ck,"submit",inst+": mark is looked at first",r,r.path(None,leaf,avoid_edge=r.edge(FALSE(CALL("load",name("closed"))))),"%s submits without looking whether the service has ended"%inst)
                x=ck.root(c,opaque=("fmt","poll","is_full","SinkExt::send","QuickSinkExt::quick_send","QuickSend")); errs(ck,x,inst,leaf)
            nopath(ck,"submit",inst+": success only if accepted",r,r.path(None,r.aggs("Result","Ok"),avoid_edge=r.edge(IS(lambda e: has(e,CALL("poll")),"Ok"))),"%s answers with success although the request was not accepted"%inst)
            for v in retvals(r): ck.ob("submit",inst+": result",VAR("Ok")(v) or has(v,CALL("poll")) or has(v,lambda e: any(e==strip_cast(r.g.callval(n,0)) for n in ns)) or (VAR("Err")(v) and has(v,AGG("SendErrorKind","BrokenPipe"))) or v[0]=="?" ,r.body.span,"%s answers %s"%(inst,show(v)[:60]))
        return out
def ops(ck):
    A=Async(ck)
    for h in(C+"ServiceControl::",C+"ServiceAsyncControl::","tentacle::context::ServiceContext::"):
        asy="Async" in h
        for op in OPS:
            bs=[b for b in ck.p.bodies.values() if b.qual==h+op]
            if not bs: ck.ob("submit","%s%s"%(h,op),False,"","the operation %s is missing"%op); continue
            inst="%s of %s"%(op,h.split("::")[-2])
            if not asy: submit(ck,ck.root(h+op,opaque=O),inst,op); continue
            fast,variant,want=OPS[op]; got=A.of(bs[0]); ck.floor("submit",inst+" submits",len(got),1,bs[0].span)
            for q,v in got:
                w=where=bs[0].span
                ck.ob("submit",inst+": priority",q==bool(fast),w,"%s is submitted in the other priority"%inst); ok=AGG("ServiceTask",variant)(v)
                ck.ob("submit",inst+": request",ok,w,"%s submits %s"%(inst,show(v)[:60]))
                d=dict(v[3]) if ok else {}
                for f,x in want.items(): ck.ob("submit","%s: %s"%(inst,f),f in d and arg(d[f],x),w,"%s submits %s as %s"%(inst,show(d.get(f,("?",)))[:60],f))
        for b in sorted(ck.p.bodies.values(),key=lambda b:b.qual):
            if b.kind=="method" and b.qual.startswith(h) and b.vis=="pub" and last(b.qual) not in OPS and not asy and any("SendErrorKind" in l[2] for l in b.locals[:1]):
                r=ck.root(b,opaque=O); ck.ob("submit","known operation "+b.qual,not sendings(r),b.span,"an operation that is not in the table submits requests")
    for op in("send_message","quick_send_message"):
        r=ck.root("tentacle::context::ProtocolContextMutRef::"+op,opaque=O); ss=sendings(r); ck.floor("submit",op+" in a handler",len(ss),1,r.body.span)
        exactly(ck,r,"submit",op,[r.u.start],ss,r.exits(),"%s submits nothing"%op,"%s submits twice"%op,avoid_edge=r.edge(TRUE(CALL("load",name("closed")))))
        for n in ss:
            v=strip_cast(r.args(n)[1]); d=dict(v[3]) if AGG("ServiceTask","ProtocolMessage")(v) else {}
            t=strip_cast(d.get("target",("?",))); ok=bool(d) and AGG("TargetSession","Single")(t) and name("id")(dict(t[3])["0"]) and has(dict(t[3])["0"],name("session")) and name("proto_id")(d["proto_id"]) and P(2)(d["data"])
            ck.ob("submit",op+" in a handler: what",ok and ("quick" in last(r.g.decl(n)))==(op[0]=="q"),r.loc(n),"%s submits %s"%(op,show(v)[:80]))
        errs(ck,r,op+" in a handler",ss)
def same(ck):
    """handles made from one another share the queue, the table of protocols and the mark"""
    for a,b in(("ServiceControl","ServiceAsyncControl"),("ServiceAsyncControl","ServiceControl")):
        r=ck.root("<%s%s as core::convert::From>::from"%(C,b)); ns=r.aggs(b); ck.floor("same",b+" from "+a,len(ns),1,r.body.span)
        for n in ns:
            for f,v in r.agg_value(n)[3]: ck.ob("same","%s of %s"%(f,b),name(f)(v) and has(v,P(1)),r.loc(n),"%s becomes %s"%(f,show(v)[:40]))
    for h in("ServiceControl","ServiceAsyncControl"):
        qs=[b for b in ck.p.bodies.values() if b.qual=="<%s%s as core::clone::Clone>::clone"%(C,h)]; ck.floor("same","copies of "+h,len(qs),1)
        for b in qs:
            r=ck.root(b,opaque=("Sender::clone","clone"))
            for n in r.aggs(h):
                for f,v in r.agg_value(n)[3]: ck.ob("same","copied %s of %s"%(f,h),has(v,name(f)),r.loc(n),"%s is copied as %s"%(f,show(v)[:40]))
    r=ck.root("tentacle::context::ServiceContext::clone_self",opaque=("clone",))
    for n in r.aggs("ServiceContext"):
        for f,v in r.agg_value(n)[3]: ck.ob("same","handler's "+f,has(v,name(f)),r.loc(n),"%s is copied as %s"%(f,show(v)[:40]))
    for q,t in(("<tentacle::context::ProtocolContext as core::ops::deref::Deref>::deref","inner"),("<tentacle::context::ProtocolContextMutRef as core::ops::deref::Deref>::deref","inner")):
        r=ck.root(q); vs=retvals(r); ck.floor("same",q,len(vs),1,r.body.span)
        for v in vs: ck.ob("same",q,has(v,lambda x: x[0]=="f" and x[2]==t),r.body.span,"the handle of a handler is %s"%show(v)[:40])
    r=ck.root("tentacle::context::ServiceContext::control")
    for v in retvals(r): ck.ob("same","handle of a handler",name("inner")(v),r.body.span,"the handle of a handler is %s"%show(v)[:40])
    n=ck.root(S+"new",opaque=OPQ+("channel","FutureTaskManager::new","MultiTransport","Buffer::new","IGDClient"),depth=3,sited=("new","channel"))
    sv=[m for m in n.aggs("Service") if n.agg_value(m)[1].split("<")[0].endswith("::Service")]; ck.floor("same","service",len(sv),1,n.body.span)
    for m in sv:
        d=dict(n.agg_value(m)[3]); sc=[dict(x[3]) for x in subs(d["service_context"]) if x[0]=="agg" and last(x[1])=="ServiceControl"]
        ck.floor("same","handle of the service",len(sc),1,n.loc(m))
        for c in sc:
            ck.ob("same","mark is the service's",strip_cast(c["closed"])==strip_cast(d["shutdown"]),n.loc(m),"handles look at another mark: %s"%show(c["closed"])[:60])
            a,b=strip_cast(c["task_sender"]),strip_cast(d["service_task_receiver"]); ok=a[0]=="f" and b[0]=="f" and strip_cast(a[1])==strip_cast(b[1]) and a[2]=="0" and b[2]=="1"
            ck.ob("same","queue is the service's",ok,n.loc(m),"handles submit to %s, the service takes from %s"%(show(a)[:40],show(b)[:40]))
    for q in("TrySendError","SendError"):
        f=ck.root("tentacle::channel::%s::is_full"%q); T=f.exits(lambda v: v==("k",True)); F=f.exits(lambda v: v==("k",False)); full=IS(name("kind"),"Full")
        ck.floor("same",q+" tells full",len(f.edges_where(full)),1,f.body.span)
        nopath(ck,"same",q+": full only when full",f,f.path(None,T,avoid_edge=f.edge(full)),"a closed queue is reported as full"); nopath(ck,"same",q+": full",f,f.path_from(f.after_edges(f.edges_where(full)),F),"a full queue is not reported as full")
        ck.ob("same",q+": decided",not f.exits(lambda v: v not in(("k",True),("k",False))),f.body.span,"whether the queue is full is not decided by the error")
def notified(ck,rule):
    """requests for timers reach the handler they are for"""
    def h(v): return ck.root(S+"handle_service_task",assume=under(P(3),v),opaque=tuple(x for x in HST if x!="for_each")+("Buffer::push",))
    for v,ev,tab,ix in(("SetProtocolNotify","SetNotify","service_proto_handles",("interval","token")),("RemoveProtocolNotify","RemoveNotify","service_proto_handles",("token",)),("SetProtocolSessionNotify","SetNotify","session_proto_handles",("interval","token")),("RemoveProtocolSessionNotify","RemoveNotify","session_proto_handles",("token",))):
        r=h(v); ns=r.calls("Buffer::push"); ck.floor(rule,v,len(ns),1,r.body.span)
        gm=[n for n in r.calls("get_mut","get") if name(tab)(r.args(n)[0])]; ck.floor(rule,v+": handler",len(gm),1,r.body.span)
        exactly(ck,r,rule,v,[r.u.start],ns,r.exits(),"a request %s is discarded"%v,"a request %s is carried out twice"%v,avoid_edge=r.edge(IS(lambda e: has(e,name(tab)),"None")))
        for n in gm:
            k=strip_cast(r.args(n)[1]); ok=part(k,"proto_id",3) if tab[:7]=="service" else (k[0]=="agg" and len(k[3])==2 and part(dict(k[3])["0"],"session_id",3) and part(dict(k[3])["1"],"proto_id",3)); ck.ob(rule,v+": which handler",ok,r.loc(n),"%s goes to the handler of %s"%(v,show(k)[:60]))
        for n in ns:
            x=strip_cast(r.args(n)[1]); d=dict(x[3]) if x[0]=="agg" and x[2]==ev else {}
            ck.ob(rule,v+": what",bool(d) and all(part(d[f],f,3) for f in ix) and set(d)==set(ix),r.loc(n),"a handler is told %s"%show(x)[:80])
def taken(ck):
    """the service carries out each request it takes"""
    u=ck.root(S+"user_task_poll",opaque=("fmt","handle_service_task","poll_next","is_terminated"))
    hs=u.calls("handle_service_task"); it=lambda e: has(e,CALL("poll_next",name("service_task_receiver"))); got=u.after_edges(u.edges_where(IS(lambda e: it(e) and CALL("poll_next")(core_of(e)),"Some"))); ck.floor("taken","requests",len(got),1,u.body.span)
    exactly(ck,u,"taken","request is carried out",got,hs,u.exits(),"a request is taken from the queue and discarded","a request is carried out twice")
    nopath(ck,"taken","only requests",u,u.path(None,hs,avoid_edge=u.edge(IS(lambda e: it(e) and CALL("poll_next")(core_of(e)),"Some"))),"something that is not a request is carried out")
    for n in hs:
        a=u.args(n); ck.ob("taken","request as submitted",it(a[2]) and names_of(a[2])[:1]==["1"] and it(a[3]) and names_of(a[3])[:1]==["0"],u.loc(n),"what is carried out is %s"%show(a[2])[:80])
    def h(v): return ck.root(S+"handle_service_task",assume=under(P(3),v),opaque=tuple(x for x in HST if x!="for_each")+("Buffer::push",))
    for v,fn,ix in(("ProtocolMessage","handle_message",{2:"target",3:"proto_id",5:"data"}),("Disconnect","session_close",{2:"session_id"}),("FutureTask","send_future_task",{2:"task"}),("ProtocolClose","protocol_close",{2:"session_id",3:"proto_id"})):
        r=h(v); ns=r.calls(fn); ck.floor("taken",v,len(ns),1,r.body.span); exactly(ck,r,"taken",v,[r.u.start],ns,r.exits(),"a request %s is discarded"%v,"a request %s is carried out twice"%v)
        for n in ns:
            a=r.args(n); ck.ob("taken",v+": what",all(part(a[i],f,3) for i,f in ix.items()),r.loc(n),"%s is carried out with %s"%(v,", ".join(show(x)[:30] for x in a[1:])))
            if v=="ProtocolMessage": ck.ob("taken",v+": priority",P(4)(a[4]),r.loc(n),"a message is passed on with priority %s"%show(a[4])[:40])
            if fn in("session_close","protocol_close"): ck.ob("taken",v+": from outside",AGG("Source","External")(a[-1]),r.loc(n),"a request counts as %s"%show(a[-1])[:40])
    notified(ck,"taken")
    r=h("ProtocolOpen"); ns=r.calls("protocol_open"); ck.floor("taken","ProtocolOpen",len(ns),3,r.body.span); T=lambda e: part(e,"target",3)
    bads=("filter","skip","Iterator::take","take_while","step_by","skip_while","filter_map","find")
    for n in ns: ck.ob("taken","ProtocolOpen: session",part(r.args(n)[2],"session_id",3) and AGG("Source","External")(r.args(n)[-1]),r.loc(n),"a protocol is opened on %s"%show(r.args(n)[2])[:60])
    for k,ok in(("Single",lambda e: pay(T,"Single")(e)),("Multi",lambda e: has(e,pay(T,"Multi")) and not has(e,CALL(bads))),("All",lambda e: has(e,name("protocol_configs")) and not has(e,CALL(bads)))):
        st=r.after_edges(r.edges_where(IS(T,k))); ck.floor("taken","ProtocolOpen "+k,len(st),1,r.body.span)
        mine=[n for n in ns if r.path_from(st,[n]) is not None]; ck.floor("taken","ProtocolOpen %s is carried out"%k,len(mine),1,r.body.span)
        for n in mine: ck.ob("taken","ProtocolOpen %s: which"%k,ok(r.args(n)[3]),r.loc(n),"the protocol opened is %s"%show(r.args(n)[3])[:60])
        src=[n for n in r.calls("for_each") if ok(r.args(n)[0])]
        p=r.path_from(st,r.exits(),avoid=mine if k=="Single" else src,avoid_edge=r.edge(IS(CALL("next",ok),"None"))); nopath(ck,"taken","ProtocolOpen %s is not discarded"%k,r,p,"a request to open protocols is discarded",0)
    s=ck.root(S+"send_future_task",opaque=("Buffer::push","Buffer::try_send")); ps=s.calls("Buffer::push"); exactly(ck,s,"taken","task is passed on",[s.u.start],ps,s.exits(),"a task is discarded","a task is run twice")
    for n in ps: ck.ob("taken","task is passed on: what",P(3)(s.args(n)[1]) and name("future_task_sender")(s.args(n)[0]),s.loc(n),"what is passed on is %s"%show(s.args(n)[1])[:60])
RULES=[("submit",["molc"],ops),("same",["molc"],same),("taken",["molc"],taken)]
