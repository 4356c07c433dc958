"""Path rules over session_open: a session is registered only on paths that found no session with the key and an address without, or with the matching,
peer id; every refusal path reports exactly one error and touches no session."""
from svc import *
CONFIGS=["molc"]
ASSUMES=["key and id equality are byte equality (derived implementations, checked in C06 and here)"]
SO=S+"session_open"; K4=P(4)
ses=lambda e: HAS(fld("Service.sessions"))(e)
key=lambda e: HAS(P(4))(e)
rpk=lambda e: HAS(name("remote_pubkey"))(e)
def open_root(ck): return ck.root(SO,opaque=OPQ)
def creates(r):
    c=r.calls("insert",arg=lambda a: fld("Service.sessions")(a[0])); return c
def search_edges():
    return ANYF(IS(CALL("next",ses),"None"),IS(P(4),"None"))
def one_session(ck):
    r=open_root(ck); cr=creates(r); ck.floor("one-session","registrations",len(cr),1,r.body.span)
    also=r.calls("Session::new")+[n for n in r.aggs("ServiceEvent","SessionOpen")]
    ck.floor("one-session","effects of opening",len(also),2,r.body.span)
    for n in cr+also:
        p=r.path(None,[n],avoid_edge=r.edge(search_edges())); ck.ob("one-session","no session with this key: "+what(r,n),p is None,r.loc(n),"a session is opened without looking for one with the same key",r.trail(p))
    # every session is looked at, and passed over only for having another key
    nx=r.calls("next",arg=lambda a: ses(a[0])); found=r.edges_where(IS(CALL("next",ses),"Some")); ck.floor("one-session","searches",len(nx),1,r.body.span)
    for n in nx:
        it=strip_cast(r.args(n)[0]); ck.ob("one-session","all sessions searched",plain_iter(it),r.loc(n),"the search goes over %s"%show(it)[:80])
    same=same_key(r); ck.floor("one-session","keys compared",len(same),1,r.body.span)
    other=r.edge(ANYF(CMP("==",rpk,key),CMP("!=",rpk,key),IS(rpk,"None"),ISNT(rpk,"Some")))
    st=r.after_edges(found)
    p=r.path_from(st,nx+cr,avoid_edge=other); ck.ob("one-session","passed over only with another key",p is None,r.body.span,"an open session is passed over although its key was not compared",r.trail(p))
    p=r.path_from(r.after_edges(same),cr+nx); ck.ob("one-session","match refuses",p is None,r.body.span,"a session is opened although one with this key was found",r.trail(p))
    q=ck.root("<tentacle_secio::handshake::handshake_struct::PublicKey as core::cmp::PartialEq>::eq")
    vs=[x for x in retvals(q)]; ck.ob("one-session","key equality",bool(vs) and all(BIN("Eq",HAS(P(1)),HAS(P(2)))(v) or K(False)(v) or strip_cast(v)[0]=="bin" for v in vs),q.body.span,"keys are compared as %s"%[show(v)[:60] for v in vs])
def same_key(r): return r.edges_where(CMP("==",rpk,key))
def plain_iter(e):
    e=strip_cast(e)
    while e[0]=="call" and last(e[1]) in("values","values_mut","iter","iter_mut","into_iter","keys"): e=strip_cast(e[2][0])
    return fld("Service.sessions")(e)
def what(r,n): return {"call":"call of "+last(r.g.qual(n)) if n.kind=="call" and n.data[1][0]=="fn" else "event"}.get(n.kind,"event")
def identity(ck):
    r=open_root(ck); cr=creates(r)+r.calls("Session::new")+r.aggs("ServiceEvent","SessionOpen")
    ex=lambda e: CALL("extract_peer_id",HAS(P(5)))(core_of(e)); own=lambda e: CALL("peer_id",HAS(P(4)))(core_of(e)) or CALL("PeerId::from_public_key",HAS(P(4)))(core_of(e))
    f=ANYF(IS(P(4),"None"),IS(ex,"None"),CMP("==",ex,own),TRUE(CALL("is_public_key",ex,HAS(P(4)))))
    for n in cr:
        p=r.path(None,[n],avoid_edge=r.edge(f)); ck.ob("identity","dialled id checked: "+what(r,n),p is None,r.loc(n),"a session is opened although the address names another peer id",r.trail(p))
    x=r.calls("extract_peer_id"); ck.floor("identity","ids extracted",len(x),1,r.body.span)
    for n in x: ck.ob("identity","of this address",HAS(P(5))(r.args(n)[0]),r.loc(n),"the id is taken from %s"%show(r.args(n)[0])[:60])
    # an address without id gets the authenticated one
    pu=r.calls("Multiaddr::push"); 
    for n in pu:
        a=r.args(n)[1]; ck.ob("identity","completed address",HAS(CALL("peer_id",HAS(P(4))))(a) and AGG("Protocol","P2P")(a),r.loc(n),"the address is completed with %s"%show(a)[:60])
        p=r.path(None,[n],avoid_edge=r.edge(IS(ex,"None"))); ck.ob("identity","completed once",p is None,r.loc(n),"a second id is added to an address",r.trail(p))
    e=ck.root("tentacle::utils::extract_peer_id",opaque=("PeerId::from_bytes","Multiaddr::iter","Iter::next","next"))
    fb=e.calls("PeerId::from_bytes"); ck.floor("identity","ids validated",len(fb),1,e.body.span)
    p2p=lambda x: strip_cast(x)[0]=="f" and strip_cast(x)[1][0]=="d" and strip_cast(x)[1][2]=="P2P"
    for n in fb:
        a=e.args(n)[0]; ck.ob("identity","id component",HAS(p2p)(a),e.loc(n),"the id is made from %s"%show(a)[:60])
    its=e.calls("find_map","next","filter_map"); ck.floor("identity","components visited",len(its),1,e.body.span)
    for n in its: ck.ob("identity","all components",HAS(CALL("iter",P(1)))(e.args(n)[0]) and not HAS(CALL(("skip","take","step_by","rev","take_while","skip_while")))(e.args(n)[0]),e.loc(n),"only some components of the address are looked at: %s"%show(e.args(n)[0])[:80])
    # the bytes of every P2P component met are tried, the first that is an id is the answer, none only after the last component
    st=e.after_edges(e.edges_where(IS(lambda x: True,"P2P"))); ck.floor("identity","id components recognised",len(st),1,e.body.span)
    p=e.path_from(st,e.exits()|set(e.states_of(e.calls("next"))),avoid=fb); ck.ob("identity","no id skipped",p is None,e.body.span,"a component with an id is ignored",e.trail(p))
    isid=lambda v: CALL("PeerId::from_bytes")(core_of(v))
    ok=e.after_edges(e.edges_where(IS(isid,"Ok"))); ck.floor("identity","ids recognised",len(ok),1,e.body.span)
    none=e.exits(lambda v: v is None or v[:2]!=("v","Some")); p=e.path_from(ok,none|set(e.states_of(e.calls("next"))))
    ck.ob("identity","the id found is returned",p is None,e.body.span,"a valid id is passed over",e.trail(p))
    p=e.path(None,none,avoid_edge=e.edge(IS(CALL("next"),"None"))); ck.ob("identity","none after the last",p is None,e.body.span,"the search stops early",e.trail(p))
    for v in retvals(e):
        for x in alts(v): ck.ob("identity","nothing else is returned",AGG("Option","None")(x) or AGG("Option","Some")(x) and isid(dict(strip_cast(x)[3])["0"]) or isid(x),e.body.span,"the id returned is %s"%show(x)[:60])
def refusals(ck):
    r=open_root(ck); cr=creates(r)
    er=r.calls("handle_error"); ck.floor("refusal","error reports",len(er),3,r.body.span)
    ex=lambda e: CALL("extract_peer_id")(core_of(e))
    dup=same_key(r)
    mis=r.edges_where(ANYF(CMP("!=",ex,anyx),FALSE(CALL("is_public_key"))))
    ck.floor("refusal","refusing branches",len(dup)+len(mis),2,r.body.span)
    kinds=lambda nm: [n for n in er if HAS(lambda x: x[0]=="agg" and x[2]==nm)(r.args(n)[2])]
    for edges,kind,inst in((dup,"RepeatedConnection","repeated"),(mis,"PeerIdNotMatch","mismatch")):
        st=r.after_edges(edges); ks=kinds(kind)
        p=r.path_from(st,r.exits(),avoid=ks); ck.ob("refusal",inst+" reported",p is None,r.body.span,"a refused connection is not reported",r.trail(p))
        p=r.path_from(st,cr+r.calls("Session::new")+r.calls("spawn")); ck.ob("refusal",inst+" refused",p is None,r.body.span,"the refused connection still becomes a session",r.trail(p))
        q=None
        for n in ks:
            q=q or r.path([n],er)
        ck.ob("refusal",inst+" once",q is None,r.body.span,"a refusal is reported twice",r.trail(q))
        mut=r.calls("remove","clear","retain","drain","get_mut","values_mut","iter_mut",arg=lambda a: bool(a) and ses(a[0]))+r.aggs("SessionEvent","SessionClose")+r.calls("session_close","push_high","push_normal")
        p=r.path_from(st,mut) if mut else None; ck.ob("refusal",inst+" leaves sessions alone",p is None,r.body.span,"refusing a connection changes an open session",r.trail(p))
    for n in kinds("RepeatedConnection"):
        v=r.args(n)[2]; want="Outbound" if HAS(lambda x:x[0]=="agg" and x[1].endswith("ServiceError") and x[2]=="DialerError")(v) else "Inbound"
        p=r.path(None,[n],avoid_edge=r.edge(IS(P(6),want))); ck.ob("refusal","reported to the right side "+want,p is None,r.loc(n),"the refusal is reported for the other direction",r.trail(p))
        i=[x for x in subs(v) if x[0]=="agg" and x[2]=="RepeatedConnection"][0]
        ck.ob("refusal","names the open session "+want,ses(dict(i[3])["0"]) and HAS(name("id"))(dict(i[3])["0"]),r.loc(n),"the refusal names %s"%show(i)[:60])
    sh=r.calls("poll_shutdown"); p=r.path_from(r.after_edges(dup),r.exits(),avoid=sh)
    ck.ob("refusal","repeated connection shut down",p is None,r.body.span,"a repeated connection is left open",r.trail(p))
    for n in sh: ck.ob("refusal","shuts down the refused one",P(3)(r.args(n)[0]),r.loc(n),"%s is shut down"%show(r.args(n)[0])[:60])
def registry(ck):
    """only session_open registers sessions, and only the close handling removes them"""
    k=0
    for b,h in ck.writers("Service.sessions"):
        if not live(b) or h=="agg": continue
        q=ck.root(b,opaque=OPQ,depth=2)
        for n in creates(q):
            k+=1; ck.ob("registry","registers in %s"%q.body.qual,n.body.qual==SO,q.loc(n),"a session is registered outside session_open")
    ck.floor("registry","registrations",k,1)
RULES=[("one-session",["molc"],one_session),("identity",["molc"],identity),("refusal",["molc"],refusals),("registry",["molc"],registry)]
def address(ck):
    dialled(ck,"dialled-address")
    o=Origins(ck,{"HandshakeContext":"remote_address"},opaque=OPQ+("MultiTransport","dial"))
    r=ck.root(HSK,opaque=("fmt","timeout","Config::handshake","Config::new","send"))
    for n in r.aggs("SessionEvent","HandshakeSuccess"):
        d=dict(r.agg_value(n)[3]); ck.ob("dialled-address","handshake result",name("remote_address")(d["address"]) and name("ty")(d["ty"]),r.loc(n),"a handshake result carries %s"%show(d["address"])[:60])
    h=ck.root(S+"handle_session_event",opaque=OPQ+("session_open",),depth=2)
    for n in h.calls("session_open"):
        a=h.args(n); ok=all(strip_cast(x)[0]=="f" and strip_cast(x)[2]==f and HAS(lambda y:y[0]=="d" and y[2]=="HandshakeSuccess")(x) for x,f in((a[4],"address"),(a[5],"ty")))
        ck.ob("dialled-address","session opened with it",ok,h.loc(n),"a session is opened with %s"%show(a[4])[:60])
    for q in("dial","dial_inner"):
        d=ck.root(S+q,opaque=OPQ+("MultiTransport::dial","Transport>::dial","handshake","dial"))
        cs=d.calls("dial"); ck.floor("dialled-address","dials in "+q,len(cs),1,d.body.span)
        for n in cs: ck.ob("dialled-address",q+" dials its address",HAS(P(2))(d.args(n)[1]),d.loc(n),"%s is dialled"%show(d.args(n)[1])[:60])
RULES.append(("dialled-address",["molc"],address))
