"""Static rules on the transforms of a protocol: in the only function that queues application messages the data queued for
every kind of target is the result of the send transform registered for that protocol (or the data itself where none is
registered), applied on every path where one is registered and only once; the same for the receive transform between the
decoder and whatever is delivered, where its failure closes the protocol and delivers nothing; no other function makes
messages; and the transforms and codec used are those stored under the protocol's own id by its builder."""
from que import *
CONFIGS=["molc"]
ASSUMES=["The transform functions themselves are the user's"]
CALLF=("Fn::call","FnMut::call_mut","FnOnce::call_once")
def applied(ck,r,inst,rule,reg,raw,uses,some,none,okp=None):
    """uses: (node, expression) pairs that let data out; reg: predicate of the registered function; raw: of the untransformed data"""
    def tr(x):
        x=strip_cast(x)
        if okp: x=okp(x)
        return x is not None and CALL(CALLF)(x) and reg(x[2][0]) and len(alts(x[2][1]))==1 and raw(arg0(x))
    calls=[n for n in r.calls(*CALLF) if reg(r.args(n)[0])]
    ck.floor(rule,"applications of the transform in "+inst,len(calls),1,r.body.span)
    ck.floor(rule,"uses of the data in "+inst,len(uses),1,r.body.span)
    for n,e in uses:
        a=alts(e)
        ck.ob(rule,inst+": transformed data is used",any(tr(x) for x in a),r.loc(n),"what goes on is %s, not the transformed data"%show(e)[:120])
        ck.ob(rule,inst+": nothing else is used",all(tr(x) or raw(x) for x in a),r.loc(n),"what goes on is %s"%show(e)[:160])
    un=[n for n,_ in uses]
    st=r.after_edges(r.edges_where(some)); ck.floor(rule,"paths with a transform in "+inst,len(st),1,r.body.span)
    p=r.path_from(st,r.states_of(un),avoid=calls)
    ck.ob(rule,inst+": applied whenever registered",p is None,r._where(p) if p else r.body.span,"data goes on without passing the registered transform",r.trail(p))
    ids={n.id for n in calls}
    p=r.query(0,lambda k,x: min(2,k+(x in ids)),None,lambda k,s: k==2)
    ck.ob(rule,inst+": once",p is None,r._where(p) if p else r.body.span,"the transform is applied twice to one message",r.trail(p))
    p=r.path(None,un,avoid=calls,avoid_edge=r.edge(none))
    ck.ob(rule,inst+": looked up",p is None,r._where(p) if p else r.body.span,"data goes on without asking whether a transform is registered",r.trail(p))
    return calls
def arg0(x):
    t=strip_cast(x[2][1])
    if t[0]=="agg": return t[3][0][1] if t[3] else t
    return t
def send(ck):
    get=lambda e: CALL(("get","get_mut"),name("before_sends"),P(4))(strip_cast(e)) or (name("before_sends")(e))
    reg=lambda e: strip_cast(e)[0]!="closure" and has(e,name("before_sends"))
    looked=lambda e: has(e,name("before_sends")) and not has(e,CALL(CALLF))
    for var in("Single","Multi","All"):
        r=ck.root(S+"handle_message",assume=under(P(3),var),opaque=("push_message","SessionController::try_send","fmt"))
        ps=r.calls("push_message")
        calls=applied(ck,r,var,"send",reg,P(6),[(n,r.args(n)[3]) for n in ps],IS(looked,"Some"),ANYF(IS(looked,"None"),FALSE(CALL("contains_key",name("before_sends")))))
        for n in r.calls("HashMap::get","HashMap::get_mut","HashMap::remove"):
            if name("before_sends")(r.args(n)[0]): ck.ob("send",var+": of this protocol",P(4)(r.args(n)[1]) and last(r.g.decl(n))!="remove",r.loc(n),"the transform is looked up by %s"%show(r.args(n)[1])[:60])
    # nobody else queues application data
    for c in callers(ck,CTL+"push_message"):
        if live(c): ck.ob("send","queued by "+c.qual,within(ck,c,{S+"handle_message"}),c.span,"application data is queued without passing the send transform")
    mk={b.qual:b for b in makers(ck,"SessionEvent","ProtocolMessage")}
    ck.floor("send","makers of session messages",len(mk),2)
    for q in sorted(mk): ck.ob("send","made by "+q,within(ck,mk[q],{CTL+"push_message",SES+"handle_stream_event"}),mk[q].span,"a message for a session is made outside of the function behind the send transform")
    mk={b.qual:b for b in makers(ck,"ProtocolEvent","Message")}
    ck.floor("send","makers of stream messages",len(mk),2)
    for q in sorted(mk): ck.ob("send","made by "+q,within(ck,mk[q],{SUB+"recv_frame",SES+"handle_session_event"}),mk[q].span,"a message for a stream is made outside of the known path")
    # where the table is filled
    n=0
    for b in ck.p.bodies.values():
        if not live(b) or b.crate!="tentacle": continue
        if not any(st[0]=="=" and any(p[0]=="f" and p[1]=="before_sends" for p in (st[2][2][1] if st[2][0]=="ref" else [])) and st[2][1]!="shared" for bl in b.blocks if not bl["c"] for st in bl["s"]): continue
        r=Root(ck,b,opaque=lambda c: True,depth=0)
        for m in r.nodes("call"):
            if m.data[1][0]!="fn" or not r.args(m) or not name("before_sends")(r.args(m)[0]): continue
            d=last(r.g.decl(m)); n+=1
            ck.ob("send","table: %s in %s"%(d,b.qual),d in("get","contains_key","len","is_empty") or (d=="insert" and within(ck,b,{S+"init_proto_handles"})),r.loc(m),"the table of send transforms is changed with %s"%d)
    ck.floor("send","uses of the table of transforms",n,1)
    r=ck.root(S+"init_proto_handles",opaque=("fmt","handle_event","for_each","ServiceProtocolStream::new","clone_self","service_handle"),sited=("next",))
    ins=[m for m in r.calls("HashMap::insert") if name("before_sends")(r.args(m)[0])]
    ck.floor("send","registrations",len(ins),1,r.body.span)
    nxt=CALL("next",lambda e: has(e,name("protocol_configs")) and not has(e,CALL(("skip","take","filter","skip_while","take_while","step_by"))))
    for m in ins:
        k,v=r.args(m)[1:3]
        ck.ob("send","registered under its own id",(nxt(core_of(k)) and names_of(k)[-1:]==["0"]) or (name("id")(k) and has(k,nxt)),r.loc(m),"a transform is registered under %s"%show(k)[:80])
        ck.ob("send","registered is that of the protocol",has(v,lambda e: name("before_send")(e) and has(e,nxt)),r.loc(m),"what is registered is %s"%show(v)[:80])
    mine=lambda e: nxt(e) and any(has(r.args(m)[1],lambda x: x==strip_cast(e)) for m in ins)
    it=r.after_edges(r.edges_where(IS(mine,"Some"))); ck.floor("send","loop over the protocols",len(it),1,r.body.span)
    ends=set(r.states_of(r.calls("next")))|r.exits()
    p=r.path_from(it,ends,avoid=ins,avoid_edge=r.edge(IS(HAS(name("before_send")),"None")))
    ck.ob("send","every transform is registered",p is None,r._where(p) if p else r.body.span,"a protocol's transform is not registered",r.trail(p))
    ends=r.exits()
    p=r.path(None,ends,avoid_edge=r.edge(IS(mine,"None")))
    ck.ob("send","every protocol is visited",p is None,r._where(p) if p else r.body.span,"registration stops before the last protocol",r.trail(p))
    b=ck.p.one("<tentacle::service::Service as futures_core::stream::Stream>::poll_next")
    r=Root(ck,b,opaque=OPQ+("session_poll","user_task_poll","init_proto_handles","flush_buffer","try_update_listens","wait_handle_poll","send_pending_task"))
    ini=r.calls("init_proto_handles"); ck.floor("send","initialisation",len(ini),1,b.span)
    p=r.path(None,r.calls("user_task_poll","session_poll"),avoid=ini,avoid_edge=r.edge(ANYF(IS(HAS(name("future_task_manager")),"None"),FALSE(CALL("is_some",name("future_task_manager"))))))
    ck.ob("send","registered before anything is sent",p is None,r._where(p) if p else b.span,"requests are handled before the transforms are registered",r.trail(p))
def receive(ck):
    ok=lambda x: (lambda c: c)(core_of(x)) if names_of(x) or True else None
    def payl(x):
        c=core_of(x)
        return c if pay(lambda e: e==c,"Ok")(x) else None
    for q,fn,kind in((SUB+"recv_frame",("poll_next",),"stream"),("<%s as futures_core::stream::Stream>::poll_next"%RP,("poll_next_unpin","poll_next"),"read half")):
        r=ck.root(q,opaque=("Buffer::try_send","error_close","fmt")+fn)
        fr=CALL(fn,name("substream")); raw=pay(fr,"Ready","Some","Ok")
        if kind=="stream":
            uses=[(n,dict(strip_cast(r.args(n)[1])[3])["data"]) for n in r.calls("push_back") if any(AGG(a,v)(r.args(n)[1]) for a,v in(("ServiceProtocolEvent","Received"),("SessionProtocolEvent","Received"),("ProtocolEvent","Message")))]
            ck.floor("receive","deliveries",len(uses),3,r.body.span)
        else:
            uses=[]
            for n in r.nodes("assign"):
                if n.ctx==0 and n.data[0]==[0,[]]:
                    for v in alts(r.value(n)):
                        x=inner(v)
                        if x is not None: uses.append((n,x))
        applied(ck,r,kind,"receive",name("before_receive") if False else (lambda e: has(e,name("before_receive"))),raw,uses,IS(name("before_receive"),"Some"),IS(name("before_receive"),"None"),okp=payl)
        bad=r.after_edges(r.edges_where(IS(CALL(CALLF,HAS(name("before_receive"))),"Err"))); ck.floor("receive","failures of the transform in "+kind,len(bad),1,r.body.span)
        if kind=="stream":
            ec=r.calls("error_close")
            p=r.path_from(bad,r.exits(),avoid=ec)
            ck.ob("receive",kind+": failure closes",p is None,r._where(p) if p else r.body.span,"a failed receive transform does not close the protocol",r.trail(p))
            p=r.path_from(bad,r.states_of([n for n,_ in uses]))
            ck.ob("receive",kind+": failure delivers nothing",p is None,r._where(p) if p else r.body.span,"data is delivered although the receive transform failed",r.trail(p))
        else:
            es=r.exits(lambda v: not errv(v))
            p=r.path_from(bad,es)
            ck.ob("receive",kind+": failure is reported",p is None,r._where(p) if p else r.body.span,"a failed receive transform is not reported to the reader",r.trail(p))
    e=ck.root(SUB+"error_close",opaque=("Buffer::try_send","fmt"))
    dead=[n for n in e.nodes("assign") if n.data[0][1] and n.data[0][1][-1][0]=="f" and n.data[0][1][-1][1]=="dead" and strip_cast(e.value(n))==("c",True)]
    p=e.path(None,e.exits(),avoid=dead)
    ck.ob("receive","closing marks the stream as ended",p is None,e._where(p) if p else e.body.span,"a stream with an error is not ended",e.trail(p))
def errv(v):
    while v is not None and v[0]=="v":
        if v[1]=="Err": return True
        if v[1] in("Ready","Some"): v=Unfolded.sub(v,"0"); continue
        return False
    return False
def inner(v):
    """the data of Poll::Ready(Some(Ok(data)))"""
    for w in("Ready","Some","Ok"):
        v=strip_cast(v)
        if v[0]!="agg" or v[2]!=w: return None
        v=v[3][0][1]
    return v
def config(ck):
    r=ck.root(SES+"open_protocol",opaque=OPQ+("event_output","for_each","spawn"))
    ent=lambda e: pay(CALL(("get","index"),name("protocol_configs_by_name"),P(3)),"Some")(e) or CALL("index",name("protocol_configs_by_name"),P(3))(e)
    own=lambda f: lambda e: strip_cast(e)[0]=="f" and strip_cast(e)[2]==f and ent(strip_cast(e)[1])
    made=lambda f: lambda e: CALL(CALLF)(strip_cast(e)) and own(f)(strip_cast(e)[2][0])
    seen={"codec":0,"before_receive":0}
    for n in r.calls("FramedParts::new","FramedRead::new","FramedWrite::new","Framed::new"):
        seen["codec"]+=1
        ck.ob("config","codec of %s"%last(r.g.qual(n)),made("codec")(r.args(n)[1]),r.loc(n),"the stream of a protocol uses codec %s"%show(r.args(n)[1])[:100])
    for n in r.nodes("assign"):
        v=r.value(n) if n.data[1][0]=="agg" else None
        if v is None or v[0]!="agg": continue
        t=last(v[1])
        if t not in("Substream","SubstreamWritePart","SubstreamReadPart"): continue
        d=dict(v[3])
        if "before_receive" in d:
            seen["before_receive"]+=1
            ck.ob("config","receive transform of %s"%t,made("before_receive")(d["before_receive"]),r.loc(n),"the stream of a protocol uses receive transform %s"%show(d["before_receive"])[:100])
        ck.ob("config","protocol of %s"%t,own("id")(d["proto_id"]),r.loc(n),"the stream is that of protocol %s"%show(d["proto_id"])[:80])
    ck.floor("config","codecs chosen",seen["codec"],3,r.body.span); ck.floor("config","transforms chosen",seen["before_receive"],2,r.body.span)
    # the tables the session gets
    so=[b for b in ck.p.bodies.values() if live(b) and b.qual.startswith(S+"session_open")]
    k=0
    for b in so:
        x=Root(ck,b,opaque=lambda c: True,depth=0)
        for n in x.calls("HashMap::insert"):
            v=x.args(n)[2]
            if not name("inner")(v) or "ProtocolMeta" not in str(strip_cast(v)[3]): continue
            k+=1; key=x.args(n)[1]
            src=strip_cast(v)[1]
            ok=(CALL("name",lambda e: strip_cast(e)==strip_cast(src))(strip_cast(key))) or (core_of(key)==core_of(src)) or has(key,lambda e: strip_cast(e)==strip_cast(src))
            ck.ob("config","session table in "+b.qual.split("::")[-1],ok,x.loc(n),"a protocol is entered under %s"%show(key)[:80])
    ck.floor("config","entries of the session tables",k,2)
    m=ck.root("tentacle::builder::MetaBuilder::build")
    for n in m.nodes("assign"):
        v=m.value(n) if n.data[1][0]=="agg" else None
        if v is None or v[0]!="agg" or last(v[1]) not in("Meta","ProtocolMeta"): continue
        for f,x in v[3]:
            if f in("codec","before_receive","before_send","id","name"):
                ck.ob("config","builder passes on %s"%f,name(f)(x) and core_of(x)==("p",1),m.loc(n),"the %s of a protocol is %s"%(f,show(x)[:80]))
    for f in("before_send","before_receive","codec"):
        s=ck.root("tentacle::builder::MetaBuilder::"+f)
        ws=[n for n in s.nodes("assign") if n.data[0][1] and n.data[0][1][-1][0]=="f" and n.data[0][1][-1][1]==f]
        ck.floor("config","setting of "+f,len(ws),1,s.body.span)
        for n in ws: ck.ob("config","builder keeps %s"%f,has(s.value(n),P(2)),s.loc(n),"%s is set to %s"%(f,show(s.value(n))[:80]))
    b=ck.root("tentacle::substream::SubstreamBuilder::build")
    for n in b.nodes("assign"):
        v=b.value(n) if n.data[1][0]=="agg" else None
        if v is None or v[0]!="agg" or last(v[1])!="Substream": continue
        d=dict(v[3]); ck.ob("config","stream keeps the transform",name("before_receive")(d["before_receive"]),b.loc(n),"the stream's transform is %s"%show(d["before_receive"])[:60])
RULES=[("send",["molc"],send),("receive",["molc"],receive),("config",["molc"],config)]
