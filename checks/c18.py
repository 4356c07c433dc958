"""Static rules on the channel (bounded and unbounded) and its intrusive queue: every send pushes its message exactly
once into the queue of its priority after the count was raised on an open channel, and wakes the receiver; the receiver
takes from the urgent queue first, lowers the count and resumes one parked sender per message, reports the end only when
closed and empty, and goes to sleep only after registering and looking again; a sender above capacity parks before its
message becomes visible; closing is ordered before the wake-ups; the queue links and unlinks nodes in the published order
with the needed memory orderings."""
from sec import *
CONFIGS=["molc"]
ASSUMES=["AtomicWaker::register/wake keep their documented contract, and Mutex its",
 "The linked queue has a single consumer (the receiver is not Clone and its methods take &mut self, decided by C30)"]
C="tentacle::channel::"
B=C+"bound::"; U=C+"unbound::"; Q=C+"queue::Queue::"
OP=("push","pop_spin")
MASK=1<<63; CAP=MASK-1
ORD={"Relaxed":set(),"Acquire":{"a"},"Release":{"r"},"AcqRel":{"a","r"},"SeqCst":{"a","r"}}
def order(e):
    e=strip_cast(e)
    return ORD.get(e[2]) if e[0]=="agg" and e[1].endswith("Ordering") else None
LOAD=lambda f: CALL("load",f)
ST=name("state")
def opened(f):
    """branch fact: the loaded state is open"""
    M=lambda e: BIN("BitAnd",anyx,K(MASK))(e)
    if f[0]=="cmp": return CMP("==",M,K(MASK))(f) or CMP("!=",M,K(0))(f)
    return f[0]=="true" and has(f[1],lambda e: M(e) and True)
def shut(f):
    M=lambda e: BIN("BitAnd",anyx,K(MASK))(e)
    if f[0]=="cmp": return CMP("!=",M,K(MASK))(f) or CMP("==",M,K(0))(f)
    return f[0]=="false" and has(f[1],lambda e: M(e))
SENDS=[(B+"Sender::try_send",0),(B+"Sender::try_quick_send",1),(B+"Sender::start_send",0),(B+"Sender::start_quick_send",1),
 (U+"UnboundedSender::start_send",0),(U+"UnboundedSender::start_quick_send",1),(U+"UnboundedSender::unbounded_send",0),(U+"UnboundedSender::unbounded_quick_send",1)]
def sink(ty,tr,fn,s="%ssink_impl::"%C): return "<%s as %s>::%s"%(ty,tr,fn)
BS=B+"Sender"; US=U+"UnboundedSender"
SINKS=[("<%s as futures_sink::Sink>::start_send"%BS,0),("<%s as futures_sink::Sink>::start_send"%US,0),
 ("<%s as tentacle::channel::sink_impl::QuickSinkExt>::start_quick_send"%BS,1),("<%s as tentacle::channel::sink_impl::QuickSinkExt>::start_quick_send"%US,1)]
def impls(ck,tr,fn):
    """the implementations of a method of the trait for the channel types"""
    return sorted((b for b in ck.p.bodies.values() if b.kind=="method" and b.name==fn and b.trait and b.trait.split("<")[0].split("::")[-1]==tr and b.crate=="tentacle" and "channel" in b.qual),key=lambda b:b.qual)
def lab(b): return b.qual.replace(C,"").replace("futures_sink::","").replace("sink_impl::","")
def queue_push(r):
    """(node, queue field, value) of every insertion into a queue"""
    out=[]
    for n in r.calls("Queue::push"):
        a=r.args(n); q=strip_cast(a[0])
        out.append((n,q[2] if q[0]=="f" else "?",strip_cast(a[1])))
    return out
def cas_ok(r): return lambda f: IS(CALL(("compare_exchange","compare_exchange_weak"),ST),"Ok")(f)

def send(ck):
    roots=[(ck.p.one(q),h) for q,h in SENDS]
    for b in impls(ck,"Sink","start_send"): roots.append((b,0))
    for b in impls(ck,"QuickSinkExt","start_quick_send"): roots.append((b,1))
    ck.floor("send","sending operations",len(roots),12)
    for b,high in roots:
        r=ck.root(b,opaque=OP); nm=lab(b); want="quick_message_queue" if high else "message_queue"
        ps=queue_push(r); msgs=[(n,q,v) for n,q,v in ps if q!="parked_queue"]
        ck.floor("send","insertions in %s"%nm,len(msgs),1,b.span)
        for n,q,v in msgs:
            ck.ob("send","%s: queue of its priority"%nm,q==want,r.loc(n),"the message is put into %s, not %s"%(q,want))
            ck.ob("send","%s: the message itself"%nm,v==("p",2),r.loc(n),"what is queued is %s, not the message"%show(v))
        mn=[n for n,_,_ in msgs]
        ok=r.exits(okexit); bad=r.exits(lambda v: not okexit(v))
        ck.floor("send","successful ends of %s"%nm,len(ok),1,b.span)
        p=r.path(None,ok,avoid=mn)
        ck.ob("send","%s: success means queued"%nm,p is None,r._where(p),"a send succeeds without the message having been queued",r.trail(p))
        p=r.path(mn,set(r.states_of(mn)))
        ck.ob("send","%s: queued once"%nm,p is None,r._where(p),"a message is queued twice",r.trail(p))
        p=r.path(mn,bad)
        ck.ob("send","%s: failure means not queued"%nm,p is None,r._where(p),"a send fails although the message was queued",r.trail(p))
        p=r.path(None,mn,avoid_edge=r.edge(cas_ok(r)))
        ck.ob("send","%s: counted first"%nm,p is None,r._where(p),"a message is queued without the count having been raised on the channel",r.trail(p))
        p=r.path(None,mn,avoid_edge=r.edge(opened))
        ck.ob("send","%s: only while open"%nm,p is None,r._where(p),"a message is accepted by a channel that is closed",r.trail(p))
        wake=[n for n in r.calls("AtomicWaker::wake") if name("recv_task")(r.args(n)[0])]
        p=r.path(mn,r.exits(),avoid=wake)
        ck.ob("send","%s: receiver woken"%nm,p is None,r._where(p,0),"a message is queued and the receiver is not woken afterwards",r.trail(p))
        # the compare-and-swap raises the count by one and leaves the rest of the word
        for n in r.calls("compare_exchange","compare_exchange_weak"):
            a=r.args(n)
            if not ST(a[0]): continue
            one=lambda e: has(e,BIN("Add",BIN("BitAnd",anyx,K(CAP)),K(1)))
            ck.ob("send","%s: count raised by one"%nm,all(one(x) for x in alts(a[2])),r.loc(n),"the count becomes %s"%show(a[2])[:160])
            ck.ob("send","%s: count raised from what was read"%nm,all(LOAD(ST)(x) or CALL(("compare_exchange","compare_exchange_weak"))(core_of(x)) or x[0]=="loop" for x in alts(a[1])),r.loc(n),"the count is exchanged against %s"%show(a[1])[:160])
            ck.ob("send","%s: count ordering"%nm,order(a[3])=={"a","r"},r.loc(n),"the count is raised with a weak memory ordering")
        # errors name their reason and give the message back
        for n in r.aggs("TrySendError"):
            v=dict(r.agg_value(n)[3])
            ck.ob("send","%s: message returned"%nm,strip_cast(v["val"])==("p",2),r.loc(n),"a failed send gives back %s, not the message"%show(v["val"]))
        full=[n for n in r.aggs("SendErrorKind","Full")]
        disc=[n for n in r.aggs("SendErrorKind","Disconnected")]
        p=r.path(None,full,avoid_edge=r.edge(TRUE(HAS(name("is_parked"))))) if full else None
        ck.ob("send","%s: full only while parked"%nm,p is None,r._where(p),"a send is refused as full although the sender is not parked",r.trail(p))
        p=r.path(None,disc,avoid_edge=r.edge(lambda f: shut(f) or IS(fld("Sender.0","UnboundedSender.0"),"None")(f))) if disc else None
        ck.ob("send","%s: disconnected only when closed"%nm,p is None,r._where(p),"a send is refused as disconnected although the channel is open",r.trail(p))

def park(ck):
    for q in(B+"Sender::try_send",B+"Sender::try_quick_send"):
        r=ck.root(q,opaque=OP); nm=lab(r.body)
        ps=queue_push(r); mn=[n for n,f,_ in ps if f!="parked_queue"]; pk=[n for n,f,_ in ps if f=="parked_queue"]
        ck.floor("park","places where a sender parks in %s"%nm,len(pk),1,r.body.span)
        cnt=lambda e: has(e,BIN("Add",BIN("BitAnd",anyx,K(CAP)),K(1)))
        over=CMP("<",fld("BoundedInner.buffer"),cnt)
        fits=LE(cnt,fld("BoundedInner.buffer"))
        p=r.path(None,mn,avoid=pk,avoid_edge=r.edge(fits))
        ck.ob("park","%s: above capacity parks"%nm,p is None,r._where(p),"a message above the capacity is queued without the sender being parked first",r.trail(p))
        p=r.path(None,pk,avoid_edge=r.edge(over))
        ck.ob("park","%s: only above capacity"%nm,p is None,r._where(p),"a sender is parked although the channel has room",r.trail(p))
        p=r.path(mn,set(r.states_of(pk)))
        ck.ob("park","%s: parked before the message is visible"%nm,p is None,r._where(p),"the message is queued before the sender is parked: the receiver can take it without resuming the sender",r.trail(p))
        for n,f,v in ps:
            if f=="parked_queue": ck.ob("park","%s: itself"%nm,name("sender_task")(v),r.loc(n),"%s is parked, not the sender's own task"%show(v))
        wr=[n for n in r.writes("SenderTask.is_parked") if K(True)(r.value(n))]
        ck.floor("park","stores of the parked flag in %s"%nm,len(wr),1,r.body.span)
        r.precede("park","%s: flag before queue"%nm,wr,pk,"a sender is put among the parked before it is marked as parked")
        mp=[n for n in r.calls("store") if name("maybe_parked")(r.args(n)[0]) and not K(False)(r.args(n)[1])]
        ck.floor("park","stores of maybe_parked in %s"%nm,len(mp),1,r.body.span)
        for n in mp:
            v=r.args(n)[1]
            ck.ob("park","%s: remembered while open"%nm,K(True)(v) or has(v,LOAD(ST)),r.loc(n),"maybe_parked is set to %s"%show(v))
        p=r.path(pk,r.exits(),avoid=mp)
        ck.ob("park","%s: sender remembers it"%nm,p is None,r._where(p,0),"a parked sender does not remember it and goes on sending",r.trail(p))
        # the openness consulted for maybe_parked is read after the sender is among the parked
        lds=[n for n in r.calls("load") if ST(r.args(n)[0]) and any(has(r.args(m)[1],lambda e,c=strip_cast(r.g.callval(n,0)): e==c) for m in mp)]
        p=r.path(None,mp,avoid=lds) if not all(K(True)(r.args(m)[1]) for m in mp) else None
        q2=r.path(pk,set(r.states_of(mp)),avoid=[n for n in lds if n.id>=0]) if lds else None
        ck.ob("park","%s: state read after parking"%nm,p is None and q2 is None,r._where(q2 or p),"whether the channel is still open is read before the sender is among the parked, so closing in between leaves it parked",r.trail(q2 or p))
    # resuming
    r=ck.root(B+"BoundedSenderInner::poll_unparked") if any(b.qual==B+"BoundedSenderInner::poll_unparked" for b in ck.p.bodies.values()) else None
    r=ck.root(B+"Sender::poll_ready",opaque=OP)
    pend=r.exits(lambda v: v is not None and v[0]=="v" and v[1]=="Pending")
    ck.floor("park","waiting ends of poll_ready",len(pend),1,r.body.span)
    stp=[n for n in r.writes("SenderTask.task") if has(r.value(n),CALL("waker")) or has(r.value(n),CALL("map"))]
    p=r.path(None,pend,avoid=stp)
    ck.ob("park","waker stored",p is None,r._where(p),"a sender waits for room without leaving its waker",r.trail(p))
    isp=r.edge(TRUE(name("is_parked")))
    p=r.path(None,pend,avoid_edge=isp)
    ck.ob("park","waits only while parked",p is None,r._where(p),"a sender that is not parked is made to wait",r.trail(p))
    # flag and waker are looked at and left under one acquisition of the lock
    lk=r.calls("Mutex::lock")
    s=r.after_edges(r.edges_where(TRUE(name("is_parked"))))
    p=r.path_from(s,set(r.states_of([n for n in stp])),avoid=None) if False else None
    bad=None
    for n in lk:
        q1=r.path_from(s,[n])
        if q1 and r.path([n],stp): bad=q1
    ck.ob("park","one lock",bad is None,r._where(bad),"the lock is released between the look at the parked flag and the storing of the waker",r.trail(bad))
    okx=r.exits(okexit)
    p=r.path(None,okx,avoid_edge=r.edge(ANYF(FALSE(name("is_parked")),FALSE(LOAD(name("maybe_parked"))))))
    ck.ob("park","ready only when not parked",p is None,r._where(p),"a parked sender is told it may send",r.trail(p))
    p=r.path(None,okx,avoid_edge=r.edge(opened))
    ck.ob("park","ready only while open",p is None,r._where(p),"a sender on a closed channel is told it may send",r.trail(p))
    # every other store to the flag clears it with the waker woken
    for b,how in ck.writers("SenderTask.is_parked"):
        if how=="agg":
            x=ck.root(b,depth=0)
            for a in x.aggs("SenderTask"):
                ck.ob("park","created unparked",K(False)(dict(x.agg_value(a)[3])["is_parked"]),x.loc(a),"a sender starts as parked")
            continue
        x=ck.root(b,opaque=OP,depth=0)
        for n in x.writes("SenderTask.is_parked"):
            if K(True)(x.value(n)): continue
            ck.ob("park","flag cleared: %s"%lab(b),K(False)(x.value(n)),x.loc(n),"the parked flag becomes %s"%show(x.value(n)))
            wk=x.calls("Waker::wake","Waker::wake_by_ref")
            none=x.edge(IS(HAS(name("task")),"None"))
            p=x.path([n],x.exits(),avoid=wk,avoid_edge=none)
            ck.ob("park","woken when resumed: %s"%lab(b),p is None,x._where(p,0),"a parked sender is resumed without its task being woken",x.trail(p))

RECV=[(B+"Receiver",True),(U+"UnboundedReceiver",False)]
def nonext(e): return core_of(e)[0]=="call" and last(core_of(e)[1])=="pop_spin"
def popped(r,q): return [n for n in r.calls("pop_spin") if name(q)(r.args(n)[0])]
def POP(q): return CALL("pop_spin",name(q))
def receive(ck):
    for ty,bounded in RECV:
        for b in [ck.p.one(ty+"::try_next"),ck.p.one("<%s as futures_core::stream::Stream>::poll_next"%ty)]:
            r=ck.root(b,opaque=OP,sited=("pop_spin",)); nm=lab(b)
            hi=popped(r,"quick_message_queue"); lo=popped(r,"message_queue")
            ck.floor("receive","takings from the urgent queue in %s"%nm,len(hi),1,b.span)
            ck.floor("receive","takings from the normal queue in %s"%nm,len(lo),1,b.span)
            emptyhi=r.edge(IS(POP("quick_message_queue"),"None"))
            p=r.path(None,lo,avoid_edge=emptyhi)
            if p is None and len(lo)>1: p=r.path(lo,set(r.states_of(lo)),avoid_edge=emptyhi)
            ck.ob("receive","%s: urgent first"%nm,p is None,r._where(p),"a normal message is taken without the urgent queue having been found empty",r.trail(p))
            some=r.edges_where(IS(OR(POP("quick_message_queue"),POP("message_queue")),"Some"))
            ck.floor("receive","takings that yield in %s"%nm,len(some),2,b.span)
            st=r.after_edges(some)
            dec=[n for n in r.calls("fetch_sub") if ST(r.args(n)[0])]
            for n in dec:
                a=r.args(n)
                ck.ob("receive","%s: count lowered by one"%nm,K(1)(a[1]) and order(a[2])=={"a","r"},r.loc(n),"the count is lowered by %s"%show(a[1]))
            none=r.edge(IS(name("inner"),"None"))
            p=r.path_from(st,r.exits(),avoid=dec,avoid_edge=none)
            ck.ob("receive","%s: count lowered"%nm,p is None,r._where(p,0),"a message is taken without the count being lowered",r.trail(p))
            p=r.path(dec,set(r.states_of(dec)),avoid=hi+lo)
            ck.ob("receive","%s: count lowered once"%nm,p is None,r._where(p,0),"the count is lowered twice for one message",r.trail(p))
            p=r.path(None,dec,avoid_edge=lambda nid,i,ss=set(some): (nid,i) in ss)
            ck.ob("receive","%s: count lowered only for a message"%nm,p is None,r._where(p,0),"the count is lowered without a message having been taken",r.trail(p))
            # a taken message is what is returned
            got=r.exits(lambda v: not item(v))
            p=r.path_from(st,got)
            ck.ob("receive","%s: taken means returned"%nm,p is None,r._where(p,0),"a message is taken from its queue and not returned",r.trail(p))
            p=r.path_from(st,hi+lo)
            ck.ob("receive","%s: one at a time"%nm,p is None,r._where(p,0),"a message is taken while another one taken before is still in hand",r.trail(p))
            vals=[n for n in r.nodes("assign") if n.data[1][0]=="agg" and n.data[1][1]=="tuple" and len(dict(r.value(n)[3]))==2 and nonext(dict(r.value(n)[3]).get("1",("?",)))]
            ck.floor("receive","pairs of priority and message in %s"%nm,len(vals),2,b.span)
            for n in vals:
                d=dict(r.value(n)[3]); pr=strip_cast(d["0"]); c=core_of(d["1"])
                want="High" if name("quick_message_queue")(c[2][0]) else "Normal"
                ck.ob("receive","%s: %s"%(nm,want),pr[0] in("agg","dconst") and want in(pr[2] if pr[0]=="agg" else "",pr[-1]),r.loc(n),"a message of the %s queue is returned as %s"%(want,show(pr)))
            # end of stream
            ends=r.exits(ended)
            ck.floor("receive","reports of the end in %s"%nm,len(ends),1,b.span)
            num0=lambda f: CMP("==",BIN("BitAnd",LOAD(ST),K(CAP)),K(0))(f)
            for what,f in(("closed",shut),("empty",num0)):
                p=r.path(None,ends,avoid_edge=r.edge(f))
                ck.ob("receive","%s: end only when %s"%(nm,what),p is None,r._where(p),"the end of the channel is reported without it being %s"%what,r.trail(p))
            p=r.path(None,ends,avoid_edge=r.edge(IS(POP("message_queue"),"None")))
            ck.ob("receive","%s: end only after the queues"%nm,p is None,r._where(p),"the end is reported without the queues having been found empty",r.trail(p))
            if b.name=="poll_next":
                pend=r.exits(lambda v: v is not None and v[0]=="v" and v[1]=="Pending")
                reg=[n for n in r.calls("AtomicWaker::register") if name("recv_task")(r.args(n)[0]) and has(r.args(n)[1],CALL("waker"))]
                ck.floor("receive","registrations in %s"%nm,len(reg),1,b.span)
                p=r.path(None,pend,avoid=reg)
                ck.ob("receive","%s: sleeps registered"%nm,p is None,r._where(p),"the receiver sleeps without having registered",r.trail(p))
                for q,ns in(("urgent",hi),("normal",lo)):
                    p=r.path(reg,pend,avoid=ns)
                    ck.ob("receive","%s: looks again at the %s queue"%(nm,q),p is None,r._where(p),"the receiver sleeps without looking at the %s queue after registering: a message queued in between is not noticed"%q,r.trail(p))
            if bounded:
                un=popped(r,"parked_queue")
                p=r.path_from(st,r.exits(),avoid=un,avoid_edge=none)
                ck.ob("receive","%s: resumes a sender"%nm,p is None,r._where(p,0),"a message is taken without a parked sender being resumed",r.trail(p))
                got1=r.after_edges(r.edges_where(IS(POP("parked_queue"),"Some")))
                clr=[n for n in r.writes("SenderTask.is_parked") if K(False)(r.value(n))]
                p=r.path_from(got1,r.exits(),avoid=clr)
                ck.ob("receive","%s: the resumed sender may send"%nm,bool(got1) and p is None,r._where(p,0),"a sender is taken from the parked without being resumed",r.trail(p))
def item(v):
    """the abstract value is (or may be) a received item"""
    if v is None: return True
    if v[0]!="v": return True
    if v[1]=="Pending" or v[1]=="Err": return False
    x=Unfolded.sub(v,"0")
    if x is None or x[0]!="v": return True
    return x[1]!="None"
def ended(v):
    if v is None or v[0]!="v" or v[1] in("Pending","Err"): return False
    x=Unfolded.sub(v,"0")
    return x is not None and x[0]=="v" and x[1]=="None"

def close(ck):
    def closes(r): return [n for n in r.calls("fetch_and") if ST(r.args(n)[0])]
    def unmask(e):
        e=strip_cast(e)
        return K(CAP)(e) or e[0]=="un" and e[1]=="Not" and K(MASK)(e[2]) or CONST("MAX_CAPACITY")(e)
    roots=[]
    for q in(B+"Sender::close_channel",U+"UnboundedSender::close_channel"): roots.append((ck.p.one(q),"sender"))
    for ty in(B+"BoundedSenderInner",U+"UnboundedSenderInner"): roots.append((ck.p.one("<%s as core::ops::drop::Drop>::drop"%ty),"drop"))
    for ty in(B+"Receiver",U+"UnboundedReceiver"):
        roots.append((ck.p.one(ty+"::close"),"receiver")); roots.append((ck.p.one("<%s as core::ops::drop::Drop>::drop"%ty),"receiver drop"))
    for b,kind in roots:
        r=ck.root(b,opaque=OP,sited=("pop_spin",)); nm=lab(b); cl=closes(r)
        ck.floor("close","closings in %s"%nm,len(cl),1,b.span)
        for n in cl:
            a=r.args(n)
            ck.ob("close","%s: only the open bit"%nm,unmask(a[1]) and order(a[2])=={"a","r"},r.loc(n),"closing leaves %s of the state"%show(a[1]))
        gone=ANYF(IS(fld("Sender.0","UnboundedSender.0","Receiver.inner","UnboundedReceiver.inner"),"None"),shut)
        last1=lambda f: CMP("!=",CALL("fetch_sub",name("num_senders")),K(1))(f)
        p=r.path(None,r.exits(),avoid=cl,avoid_edge=r.edge(ANYF(gone,last1)))
        ck.ob("close","%s: closes"%nm,p is None,r._where(p),"the channel is left open",r.trail(p))
        if kind in("sender","drop"):
            wk=[n for n in r.calls("AtomicWaker::wake") if name("recv_task")(r.args(n)[0])]
            p=r.path(cl,r.exits(),avoid=wk)
            ck.ob("close","%s: receiver woken"%nm,p is None,r._where(p,0),"the channel is closed and the waiting receiver is not woken afterwards",r.trail(p))
        if kind=="drop":
            fs=[n for n in r.calls("fetch_sub") if name("num_senders")(r.args(n)[0])]
            p=r.path(None,r.exits(),avoid=fs)
            ck.ob("close","%s: counted"%nm,p is None,r._where(p),"a dropped sender stays counted",r.trail(p))
            for n in fs: ck.ob("close","%s: by one"%nm,K(1)(r.args(n)[1]) and order(r.args(n)[2])=={"a","r"},r.loc(n),"the number of senders is lowered by %s"%show(r.args(n)[1]))
            p=r.path(None,cl,avoid_edge=r.edge(CMP("==",CALL("fetch_sub",name("num_senders")),K(1))))
            ck.ob("close","%s: last one only"%nm,p is None,r._where(p),"a sender that is not the last closes the channel",r.trail(p))
        if kind.startswith("receiver") and ty_bounded(b):
            pk=popped(r,"parked_queue"); lastnone=r.edge(IS(POP("parked_queue"),"None"))
            gone2=r.edge(IS(fld("Receiver.inner"),"None"))
            okp=lambda nid,i: lastnone(nid,i) or gone2(nid,i)
            p=r.path(None,r.exits(),avoid_edge=okp)
            ck.ob("close","%s: all parked senders resumed"%nm,p is None,r._where(p),"the receiver goes away without having resumed every parked sender",r.trail(p))
            p=r.path(pk,set(r.states_of(cl)))
            ck.ob("close","%s: closed before resuming"%nm,p is None,r._where(p),"parked senders are resumed before the channel is closed: one parking in between is never resumed",r.trail(p))
            got1=r.after_edges(r.edges_where(IS(POP("parked_queue"),"Some")))
            clr=[n for n in r.writes("SenderTask.is_parked") if K(False)(r.value(n))]
            p=r.path_from(got1,r.exits(),avoid=clr)
            ck.ob("close","%s: resumed"%nm,bool(got1) and p is None,r._where(p,0),"a parked sender is dropped without being resumed",r.trail(p))
        if kind=="receiver drop":
            # what was accepted is taken out until the channel reports its end
            fin=r.edge(ANYF(IS(name("inner"),"None"),lambda f: CMP("==",BIN("BitAnd",LOAD(ST),K(CAP)),K(0))(f)))
            p=r.path(None,r.exits(),avoid_edge=fin)
            ck.ob("close","%s: drained"%nm,p is None,r._where(p),"the receiver is dropped while accepted messages are left",r.trail(p))
    # nobody else changes the words
    def users(fn,f):
        return sorted({lab(b) for b in ck.p.bodies.values() if b.crate=="tentacle" for bl in b.blocks if not bl["c"] and bl["t"][0]=="call" and bl["t"][1][0]=="fn" and last(bl["t"][1][1]["q"]) in fn and "channel::" in b.qual})
    # openness is never regained: no store, or, swap, xor on the state word
    bad=[]
    n=0
    for b in ck.p.bodies.values():
        if b.crate!="tentacle" or not b.qual.replace("<","").startswith(C): continue
        if not any(bl["t"][0]=="call" and bl["t"][1][0]=="fn" and last(bl["t"][1][1]["q"]) in("store","swap","fetch_or","fetch_xor","fetch_add","fetch_max","fetch_min","fetch_update","fetch_nand","compare_and_swap") for bl in b.blocks): continue
        x=ck.root(b,depth=0)
        for c in x.calls("store","swap","fetch_or","fetch_xor","fetch_add","fetch_max","fetch_min","fetch_update","fetch_nand","compare_and_swap"):
            n+=1
            if ST(x.args(c)[0]): bad.append((x,c))
    for x,c in bad: ck.ob("close","the state word is only raised, lowered and closed",False,x.loc(c),"the state is changed by %s"%last(x.g.qual(c)))
    if not bad: ck.ob("close","the state word is only raised, lowered and closed",True)
    for ty in(B+"BoundedSenderInner",U+"UnboundedSenderInner"):
        r=ck.root("<%s as core::clone::Clone>::clone"%ty); nm=lab(r.body)
        ags=[a for a in r.aggs(ty.split("::")[-1])]
        ck.floor("close","senders built by clone of %s"%nm,len(ags),1,r.body.span)
        CS=CALL(("compare_and_swap","compare_exchange","compare_exchange_weak"),name("num_senders"))
        raised=ANYF(IS(CS,"Ok"),CMP("==",CS,anyx))
        fa=[n for n in r.calls("fetch_add") if name("num_senders")(r.args(n)[0])]
        p=r.path(None,ags,avoid=fa,avoid_edge=r.edge(raised))
        ck.ob("close","%s: counted"%nm,p is None,r._where(p),"a cloned sender is not counted, so the channel closes while it lives",r.trail(p))
        for n in r.calls("compare_and_swap","compare_exchange","compare_exchange_weak"):
            ck.ob("close","%s: by one"%nm,all(BIN("Add",anyx,K(1))(x) for x in alts(r.args(n)[2])),r.loc(n),"the number of senders becomes %s"%show(r.args(n)[2])[:120])
        for a in ags:
            v=dict(r.agg_value(a)[3])
            ck.ob("close","%s: same channel"%nm,SELF(base(v["inner"])),r.loc(a),"a cloned sender belongs to %s"%show(v["inner"])[:100])
            if "sender_task" in v:
                ck.ob("close","%s: own parking place"%nm,not has(v["sender_task"],SELF),r.loc(a),"a cloned sender shares the parking place of the original: resuming one leaves the other asleep")
def ty_bounded(b): return "bound::Receiver" in b.qual and "unbound" not in b.qual
def base(e):
    e=strip_cast(e)
    while e[0] in("f","d"): e=strip_cast(e[1])
    return e

def words(ck):
    def c(nm):
        t,v,s=ck.p.consts.get(C+nm,(None,None,""))
        return int(v) if v is not None else None
    ck.ob("words","open bit",c("OPEN_MASK")==MASK,"","OPEN_MASK is %s"%c("OPEN_MASK"))
    ck.ob("words","count bits",c("MAX_CAPACITY")==CAP,"","MAX_CAPACITY is %s"%c("MAX_CAPACITY"))
    ck.ob("words","initially open and empty",c("INIT_STATE")==MASK,"","INIT_STATE is %s"%c("INIT_STATE"))
    mb=c("MAX_BUFFER"); ck.ob("words","room for capacity and senders",mb is not None and 0<mb<=CAP//2,"","MAX_BUFFER is %s"%mb)
    r=ck.root(C+"decode_state")
    for a in r.aggs("State"):
        v=dict(r.agg_value(a)[3]); o=strip_cast(v["is_open"])
        ok=BIN("Eq",BIN("BitAnd",P(1),K(MASK)),K(MASK))(o) or BIN("Ne",BIN("BitAnd",P(1),K(MASK)),K(0))(o)
        ck.ob("words","decode: open",ok,r.loc(a),"decoded as %s"%show(o))
        ck.ob("words","decode: count",BIN("BitAnd",P(1),K(CAP))(v["num_messages"]),r.loc(a),"decoded as %s"%show(v["num_messages"]))
    r=ck.root(C+"encode_state")
    rv=set()
    for e in retvals(r): rv.add(e)
    num=name("num_messages"); withopen=BIN("BitOr",num,K(MASK))
    ok=rv and all(num(e) or withopen(e) for e in rv) and any(withopen(e) for e in rv)
    ck.ob("words","encode",bool(ok),r.body.span,"encoded as %s"%", ".join(show(e) for e in rv))
    orn=[n for n in r.nodes("assign") if n.data[1][0]=="bin" and withopen(r.value(n))]
    p=r.path(None,r.exits(),avoid=orn,avoid_edge=r.edge(FALSE(name("is_open"))))
    p2=r.path(None,orn,avoid_edge=r.edge(TRUE(name("is_open"))))
    ck.ob("words","encode: open bit exactly when open",p is None and p2 is None,r._where(p or p2),"the open bit does not follow is_open",r.trail(p or p2))
    for q,inner in((B+"channel","BoundedInner"),(U+"unbounded","UnboundedInner")):
        r=ck.root(q)
        ags=r.aggs(inner); ck.floor("words","channels built by %s"%q,len(ags),1)
        for a in ags:
            v=dict(r.agg_value(a)[3])
            ck.ob("words","%s: starts open"%inner,has(v["state"],OR(K(MASK),CONST("INIT_STATE"))),r.loc(a),"state starts as %s"%show(v["state"]))
            ck.ob("words","%s: one sender"%inner,has(v["num_senders"],K(1)),r.loc(a),"the number of senders starts as %s"%show(v["num_senders"]))
            if "buffer" in v: ck.ob("words","%s: capacity as asked"%inner,P(1)(v["buffer"]),r.loc(a),"capacity is %s"%show(v["buffer"]))

def queue(ck):
    r=ck.root(Q+"push")
    NODE=lambda e: AGG("Node")(e) and AGG("Option","Some",_0=P(2))(dict(strip_cast(e)[3])["value"]) and has(dict(strip_cast(e)[3])["next"],CALL("null_mut"))
    RAW=lambda e: CALL("into_raw",NODE)(e) or NODE(e)
    sw=[n for n in r.calls("swap") if name("head")(r.args(n)[0])]
    ck.floor("queue","exchanges of the head in push",len(sw),1,r.body.span)
    for n in sw:
        a=r.args(n)
        ck.ob("queue","push: new node",RAW(a[1]),r.loc(n),"the head becomes %s"%show(a[1]))
        ck.ob("queue","push: head ordering",order(a[2])=={"a","r"},r.loc(n),"the head is exchanged with a weak memory ordering")
    ln=[n for n in r.calls("store") if name("next")(r.args(n)[0])]
    ck.floor("queue","links in push",len(ln),1,r.body.span)
    for n in ln:
        a=r.args(n); o=strip_cast(a[0])[1]
        ck.ob("queue","push: linked behind the previous head",CALL("swap",name("head"))(o) and RAW(a[1]),r.loc(n),"%s is linked to %s"%(show(a[0]),show(a[1])))
        ck.ob("queue","push: link ordering","r" in (order(a[2]) or ()),r.loc(n),"the link is published with a weak memory ordering")
    r.follow("queue","push: always linked",sw,ln,"a node becomes the head without being linked")
    p=r.path(None,r.exits(),avoid=sw); ck.ob("queue","push: always queued",p is None,r._where(p),"a value is not queued",r.trail(p))
    p=r.path(sw,set(r.states_of(sw))); ck.ob("queue","push: once",p is None,r._where(p),"a value is queued twice",r.trail(p))
    r=ck.root(Q+"pop")
    TAIL=OR(CALL("get",name("tail")),name("tail"))
    NEXT=CALL("load",lambda e: name("next")(e) and TAIL(strip_cast(e)[1]))
    for n in r.calls("load"):
        a=r.args(n)
        ck.ob("queue","pop: ordering of %s"%strip_cast(a[0])[2],"a" in (order(a[1]) or ()),r.loc(n),"%s is read with a weak memory ordering"%show(a[0]))
    data=r.exits(lambda v: v is None or v[1]=="Data"); ck.floor("queue","yields of pop",len(data),1)
    adv=[n for n in r.nodes("assign") if n.data[0][1] and TAIL(r.g.place(n.data[0],n.ctx,n.id,0)) and not any(x[0]=="f" for x in n.data[0][1])]
    ck.floor("queue","advances of the tail",len(adv),1,r.body.span)
    for n in adv: ck.ob("queue","pop: advances by one",NEXT(r.value(n)),r.loc(n),"the tail becomes %s"%show(r.value(n)))
    p=r.path(None,data,avoid=adv); ck.ob("queue","pop: yields once",p is None,r._where(p),"a value is taken without the tail advancing",r.trail(p))
    p=r.path(adv,r.exits(lambda v: v is not None and v[1]!="Data")); ck.ob("queue","pop: nothing skipped",p is None,r._where(p),"the tail advances and no value is returned",r.trail(p))
    nonnull=FALSE(CALL("is_null",NEXT)); isnull=TRUE(CALL("is_null",NEXT))
    p=r.path(None,adv,avoid_edge=r.edge(nonnull)); ck.ob("queue","pop: only a linked node",p is None,r._where(p),"the tail advances without a next node",r.trail(p))
    p=r.path(None,r.exits(lambda v: v is not None and v[1]!="Data"),avoid_edge=r.edge(isnull)); ck.ob("queue","pop: a linked node is taken",p is None,r._where(p),"a linked node is not taken",r.trail(p))
    val=lambda e: core_of(e)[0]=="call" and last(core_of(e)[1]) in("take","replace") and name("value")(core_of(e)[2][0]) and NEXT(strip_cast(core_of(e)[2][0])[1])
    for n in r.aggs("PopResult","Data"): ck.ob("queue","pop: the value of the new tail",val(dict(r.agg_value(n)[3])["0"]),r.loc(n),"pop yields %s"%show(dict(r.agg_value(n)[3])["0"]))
    fr=[n for n in r.calls("from_raw")]
    for n in fr: ck.ob("queue","pop: frees the old tail",TAIL(r.args(n)[0]),r.loc(n),"pop frees %s"%show(r.args(n)[0]))
    p=r.path(fr,set(r.states_of(fr))); ck.ob("queue","pop: frees once",p is None,r._where(p),"a node is freed twice",r.trail(p))
    p=r.path(fr,r.exits(lambda v: v is not None and v[1]!="Data")); ck.ob("queue","pop: frees only what was passed",p is None,r._where(p),"the tail is freed although it stays in the queue",r.trail(p))
    HEAD=CALL("load",name("head"))
    emp=r.exits(lambda v: v is not None and v[1]=="Empty"); ck.floor("queue","empty results of pop",len(emp),1)
    p=r.path(None,emp,avoid_edge=r.edge(ANYF(CMP("==",HEAD,TAIL),TRUE(CALL(("eq","ptr_eq"))))))
    ck.ob("queue","pop: empty only at the head",p is None,r._where(p),"the queue is reported empty while a value is being linked",r.trail(p))
    r=ck.root(Q+"pop_spin",opaque=("Queue::pop",),sited=("Queue::pop",))
    PR=CALL("Queue::pop",SELF)
    ck.floor("queue","takings in pop_spin",len(r.calls("Queue::pop")),1)
    p=r.path(None,r.exits(lambda v: v is None or v[1]=="None"),avoid_edge=r.edge(IS(PR,"Empty"))); ck.ob("queue","pop_spin: none only when empty",p is None,r._where(p),"a value being linked is reported as an empty queue",r.trail(p))
    st=r.after_edges(r.edges_where(IS(PR,"Data")))
    p=r.path_from(st,r.exits(lambda v: v is not None and v[1]!="Some")); p2=r.path_from(st,r.calls("Queue::pop"))
    ck.ob("queue","pop_spin: returns what it takes",bool(st) and p is None and p2 is None,r._where(p or p2),"a value is taken and not returned",r.trail(p or p2))
    for e in retvals(r):
        if e[0]=="agg" and e[2]=="Some": ck.ob("queue","pop_spin: the value",core_of(dict(e[3])["0"])[0]=="call",r.body.span,"pop_spin returns %s"%show(e))
    r=ck.root(Q+"new")
    for a in r.aggs("Queue"):
        v=dict(r.agg_value(a)[3])
        h=[x for x in subs(v["head"]) if CALL("into_raw")(x)]; t=[x for x in subs(v["tail"]) if CALL("into_raw")(x)]
        stub=lambda e: has(e,lambda x: AGG("Node")(x) and VAR("None")(dict(strip_cast(x)[3])["value"]))
        ck.ob("queue","new: one empty stub",len(h)==1 and h==t and stub(h[0]),r.loc(a),"the queue starts as %s"%show(r.agg_value(a)))
    # the consumer side is used by the receiver alone
    users=sorted({b.qual for b in ck.p.bodies.values() if b.crate=="tentacle" for bl in b.blocks if not bl["c"] and bl["t"][0]=="call" and bl["t"][1][0]=="fn" and bl["t"][1][1]["q"] in(Q+"pop",Q+"pop_spin")})
    ck.floor("queue","users of the consumer side",len(users),3)
    for u in users:
        b=ck.p.one(u) if not isinstance(u,str) else [x for x in ck.p.bodies.values() if x.qual==u][0]
        st=b.self_ty or ""
        ok=u==Q+"pop_spin" or ("Receiver" in (b.locals[1][2] if b.argc else "") and "&" in b.locals[1][2] and "mut" in b.locals[1][2])
        ck.ob("queue","single consumer: %s"%lab(b),ok,b.span,"values are taken from a queue outside the receiver's exclusive methods")

def sinks(ck):
    n=0
    for b in impls(ck,"Sink","poll_ready"):
        r=ck.root(b,opaque=OP); nm=lab(b); n+=1
        p=r.path(None,r.exits(okexit),avoid_edge=r.edge(opened))
        ck.ob("sinks","%s: ready only while open"%nm,p is None,r._where(p),"a closed channel is reported as ready",r.trail(p))
    for b in impls(ck,"Sink","poll_flush"):
        r=ck.root(b,opaque=OP); nm=lab(b); n+=1
        pend=r.exits(lambda v: v is not None and v[0]=="v" and v[1]=="Pending")
        if pend:
            p=r.path(None,pend,avoid_edge=r.edge(TRUE(name("is_parked")))); ck.ob("sinks","%s: waits only while parked"%nm,p is None,r._where(p),"flushing waits although the sender is not parked",r.trail(p))
    for b in impls(ck,"Sink","poll_close"):
        r=ck.root(b,opaque=OP); nm=lab(b); n+=1
        gone=[w for w in r.writes("Sender.0","UnboundedSender.0") if VAR("None")(r.value(w))]+[c for c in r.calls("fetch_and") if ST(r.args(c)[0])]
        p=r.path(None,r.exits(),avoid=gone,avoid_edge=r.edge(ANYF(shut,IS(fld("Sender.0","UnboundedSender.0"),"None"))))
        ck.ob("sinks","%s: closes"%nm,p is None,r._where(p),"closing a sender leaves it open",r.trail(p))
    ck.floor("sinks","sink operations",n,9)
    q=[b for b in ck.p.bodies.values() if b.kind=="method" and b.name=="poll" and "QuickSend" in (b.self_ty or "") and b.crate=="tentacle"]
    ck.floor("sinks","urgent send futures",len(q),1)
    for b in q:
        r=ck.root(b); nm=lab(b)
        IT=name("item")
        tk=r.calls("Option::take"); snd=r.calls("start_quick_send"); rst=[w for w in r.writes("QuickSend.item") if VAR("Some")(r.value(w))]
        ck.floor("sinks","urgent sends in %s"%nm,len(snd),1)
        st=r.after_edges(r.edges_where(IS(CALL("take",IT),"Some")))
        p=r.path_from(st,r.exits(lambda v: not(v is not None and v[0]=="v" and v[1]=="Ready" and Unfolded.sub(v,"0") is not None and Unfolded.sub(v,"0")[1]=="Err")),avoid=snd+rst)
        ck.ob("sinks","%s: keeps or sends"%nm,bool(st) and p is None,r._where(p),"an urgent message is dropped by the future sending it",r.trail(p))
        for c in snd: ck.ob("sinks","%s: the message"%nm,CALL("take",IT)(core_of(r.args(c)[1])),r.loc(c),"the future sends %s"%show(r.args(c)[1]))
        p=r.path(snd,set(r.states_of(snd+rst))); ck.ob("sinks","%s: sends once"%nm,p is None,r._where(p),"an urgent message is sent again",r.trail(p))
        okx=r.exits(okexit); p=r.path(None,okx,avoid_edge=r.edge(IS(CALL("take",IT),"None")),avoid=snd)
        ck.ob("sinks","%s: completes after sending"%nm,p is None,r._where(p),"the future completes without having sent",r.trail(p))

RULES=[("words",["molc"],words),("send",["molc"],send),("park",["molc"],park),("receive",["molc"],receive),("close",["molc"],close),("queue",["molc"],queue),("sinks",["molc"],sinks)]
