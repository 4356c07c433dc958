"""Provenance: the key pair every handshake runs with is followed back through all constructors, parameters and captured variables to the one given to the
builder; a session's stream and public key are followed back to one successful handshake result. Path rule: the plaintext result is built only where no key pair is configured."""
from svc import *
CONFIGS=["molc","async"]
ASSUMES=["a handshake result authenticates the key it carries (C01)"]
def keys(ck):
    o=Origins(ck,{"HandshakeContext":"key_pair","Listener":"key_pair","ServiceContext":"key_pair"})
    o.field("service::helper::HandshakeContext","key_pair")
    ck.floor("key-source","sources",len(o.leaves),1)
    for b,x,w in o.leaves:
        ck.ob("key-source","key pair from %s"%(b.qual if b else "?"),fld("ServiceBuilder.key_pair")(x),w,"a handshake can run with %s instead of the configured key pair"%show(x)[:80])
    for b,h in ck.writers("ServiceBuilder.key_pair"):
        if not live(b) or h=="agg": continue
        r=ck.root(b)
        for n in r.writes("ServiceBuilder.key_pair"):
            v=strip_cast(r.value(n)); ck.ob("key-source","builder %s"%last(b.qual),v[0]=="agg" and v[2]=="Some" and P(2)(dict(v[3])["0"]),r.loc(n),"the builder's key pair is set to %s"%show(v)[:60])
    ms=[b for b in makers(ck,"service::helper::HandshakeContext")]
    ck.floor("key-source","places that start a handshake",len(ms),3)
def outcome(ck):
    ms=makers(ck,"session::SessionEvent","HandshakeSuccess"); ck.floor("success-event","builders",len(ms),1)
    for b in ms: ck.ob("success-event","who: "+b.qual,b.qual.startswith(HSK),b.span,"a handshake is declared successful outside the handshake")
    r=ck.root(HSK,opaque=("fmt","timeout","Config::handshake","Config::new","send"))
    kp=name("key_pair"); hs=lambda e: HAS(CALL("Config::handshake"))(e)
    cs=r.calls("Config::new"); ck.floor("success-event","secio configurations",len(cs),1,r.body.span)
    for n in cs: ck.ob("success-event","own key",pay(kp,"Some")(r.args(n)[0]),r.loc(n),"the handshake runs with %s"%show(r.args(n)[0])[:80])
    for n in r.calls("Config::handshake"):
        a=r.args(n); ck.ob("success-event","on this socket",P(2)(a[1]) and HAS(CALL("Config::new"))(a[0]),r.loc(n),"the handshake runs on %s"%show(a[1])[:60])
    ag=r.aggs("SessionEvent","HandshakeSuccess"); ck.floor("success-event","success results",len(ag),2,r.body.span)
    for n in ag:
        d=dict(r.agg_value(n)[3]); k=strip_cast(d["public_key"]); h=d["handle"]
        if k[0]=="agg" and k[2]=="None":
            p=r.path(None,[n],avoid_edge=r.edge(IS(kp,"None")))
            ck.ob("success-event","plaintext only without a key",p is None,r.loc(n),"a connection becomes a plaintext session although a key pair is configured",r.trail(p))
        else:
            v=dict(k[3]).get("0",("?",)) if k[0]=="agg" else k
            p=r.path(None,[n],avoid_edge=r.edge(IS(lambda e: hs(core_of(e)) and strip_cast(e)[0]=="f","Ok")))
            ck.ob("success-event","after the handshake",p is None,r.loc(n),"success is reported without the handshake having succeeded",r.trail(p))
            ck.ob("success-event","authenticated key",hs(core_of(v)) and names_of(v)==["1"],r.loc(n),"the key reported is %s"%show(v)[-80:])
            ck.ob("success-event","encrypted stream",hs(core_of(h)) and names_of(h)==["0"] and core_of(h)==core_of(v),r.loc(n),"the stream handed on is %s, not the encrypted one"%show(h)[:60])
    # the result is only produced with both layers (timeout, handshake) successful
    q=ck.root("tentacle_secio::handshake::Config::handshake",opaque=("procedure::handshake","fmt"))
    cs=q.calls("procedure::handshake","handshake"); ck.floor("success-event","handshake procedure",len(cs),1,q.body.span)
    p=q.path(None,q.exits(okexit),avoid=cs); ck.ob("success-event","procedure runs",p is None,q.body.span,"a handshake result is produced without running the procedure",q.trail(p))
    for n in cs: ck.ob("success-event","procedure socket",any(P(2)(a) for a in q.args(n)) and any(HAS(P(1))(a) for a in q.args(n)),q.loc(n),"the procedure runs on something else")
def session(ck):
    ev=lambda f: lambda e: strip_cast(e)[0]=="f" and strip_cast(e)[2]==f and strip_cast(e)[1][0]=="d" and strip_cast(e)[1][2]=="HandshakeSuccess"
    o=Origins(ck,{"SessionContext":"remote_pubkey"},opaque=OPQ); o.field("context::SessionContext","remote_pubkey")
    ck.floor("session-key","sources",len(o.leaves),1)
    for b,x,w in o.leaves: ck.ob("session-key","key of a session, %s"%(last(b.qual) if b else "?"),ev("public_key")(x),w,"a session's public key is %s, not the authenticated one"%show(x)[:80])
    for b,h in ck.writers("SessionContext.remote_pubkey"):
        if live(b) and b.qual.startswith("tentacle::"): ck.ob("session-key","written in "+b.qual,h=="agg",b.span,"a session's public key is changed after it was opened")
    r=ck.root("tentacle::session::Session::new",opaque=OPQ+("yamux::session::Session::new","tokio_yamux::session::Session::new","Session::control"))
    ys=[n for n in r.calls("session::Session::new") if n.ctx==0]+r.calls("new_client","new_server")
    ck.floor("session-stream","multiplexer construction",len(ys),1,r.body.span)
    for n in ys: ck.ob("session-stream","multiplexed stream",P(1)(r.args(n)[0]),r.loc(n),"the session runs over %s"%show(r.args(n)[0])[:60])
    o=Origins(ck,{},opaque=OPQ); o.param(r.body,1,r.body.span)
    ck.floor("session-stream","sources",len(o.leaves),1)
    for b,x,w in o.leaves: ck.ob("session-stream","stream of a session, %s"%(last(b.qual) if b else "?"),ev("handle")(x),w,"a session runs over %s, not over the handshake's stream"%show(x)[:80])
    # stream and key of one event
    r=ck.root(S+"handle_session_event",opaque=OPQ+("session_open",),depth=2)
    for n in r.calls("session_open"):
        a=r.args(n); h=[x for x in a if ev("handle")(x)]; k=[x for x in a if ev("public_key")(x)]
        ck.ob("session-stream","one event",len(h)==1 and len(k)==1 and strip_cast(h[0])[1]==strip_cast(k[0])[1],r.loc(n),"stream and key of a session come from different events")
RULES=[("key-source",["molc","async"],keys),("success-event",["molc","async"],outcome),("session",["molc"],session)]
