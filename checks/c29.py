"""Static rules on transports: the components of an address decide the transport and nothing else does; an address without a usable
transport is refused before a socket is made; a name is resolved to an address with the same port, transport and peer id; a
connection is reported under the address of its own socket; a stream that wraps another one hands on every read, write, flush
and shutdown with the same buffer and gives back its result; the websocket stream gives out every byte of a message once, in order."""
from c25 import *
from svc import *
from sec import retvals
CONFIGS=["molc","async"]
ASSUMES=["Sockets, the name resolver and the websocket codec do what their interfaces say (std, tokio, async-std, tokio-tungstenite)","The components of an address are read as they were written (C12, C13)"]
U="tentacle::utils::"; T="tentacle::transports::"
SKIPS=("Iterator::skip","Iterator::take","Iterator::filter","Iterator::rev","Iterator::step_by","Iterator::last","Iterator::nth","Iterator::take_while","Iterator::skip_while","Iterator::filter_map")
def whole(ck,r,inst):
    """every component is looked at, in order"""
    for n in r.calls(*SKIPS): ck.ob("kind",inst+": every component",False,r.loc(n),"components of the address are passed over by %s"%last(r.g.decl(n)))
    ck.ob("kind",inst+": no component is passed over",not r.calls(*SKIPS),r.body.span,"")
COMP=lambda e: has(e,P(1)) and strip_cast(e)!=("p",1)
def kind(ck):
    r=ck.root(T+"find_type"); whole(ck,r,"find_type"); out=retvals(r)
    for v in("Ws","Wss","TLS"):
        ns=r.aggs("TransportType",v); ck.floor("kind",v,len(ns),1,r.body.span); e=r.edge(IS(COMP,v))
        for n in ns: nopath(ck,"kind",v+" only for an address with it",r,r.path(None,[n],avoid_edge=e),"an address without %s is taken as %s"%(v,v))
        st=r.after_edges(r.edges_where(IS(COMP,v))); ck.floor("kind",v+" found",len(st),1,r.body.span)
        nopath(ck,"kind",v+" is never overlooked",r,r.path_from(st,r.exits(),avoid=ns),"an address with %s is not taken as %s"%(v,v))
        # what is found is not lost to what comes later
        nopath(ck,"kind",v+" ends the search",r,r.path_from(st,r.calls("Iterator::next")),"the search goes on after %s was found"%v)
    ck.floor("kind","Tcp otherwise",len(r.aggs("TransportType","Tcp")),1,r.body.span)
    for o in out:
        x=strip_cast(o)
        if AGG("TransportType","Tcp")(x):
            for v in("Ws","Wss","TLS"): nopath(ck,"kind","Tcp is not for "+v,r,r.path_from(r.after_edges(r.edges_where(IS(COMP,v))),r.exits(lambda y: y is None or y[:2]!=("v",v))),"an address with %s is taken as Tcp"%v)
        else: ck.ob("kind","what is found is given back",AGG("TransportType")(x),r.body.span,"the kind is %s"%show(x)[:80])
def refused(r,n):
    """the error made names the address"""
    return AGG("TransportErrorKind","NotSupported")(r.agg_value(n))
def dispatch(ck):
    for m,inner in(("listen","bind"),("dial","connect")):
        r=ck.root("<%sos::MultiTransport as %sTransport>::%s"%(T,T,m),opaque=("find_type","DNSResolver::new","fmt",inner))
        ft=CALL("find_type",lambda e: P(2)(A(e))); ns=r.calls(inner); by={}
        for n in ns: by.setdefault("ws" if "ws::" in r.g.decl(n) else "tcp" if "tcp::" in r.g.decl(n) else "?",[]).append(n)
        ck.floor("dispatch",m+": transports",len(by),2,r.body.span); ck.ob("dispatch",m+": known transports","?" not in by,r.body.span,"a transport that the rules do not know")
        ok=r.exits(okexit); ck.floor("dispatch",m+": acceptance",len(ok),2,r.body.span)
        for v,t in(("Tcp","tcp"),("Ws","ws")):
            st=r.after_edges(r.edges_where(IS(ft,v))); ck.floor("dispatch","%s of %s"%(m,v),len(st),1,r.body.span)
            mine=by.get(t,[]); exactly(ck,r,"dispatch","%s of %s"%(m,v),st,mine,r.exits(),"an address of kind %s is not handed to %s"%(v,t),"an address of kind %s is handed on twice"%v)
            nopath(ck,"dispatch","%s: %s only for %s"%(m,t,v),r,r.path(None,mine,avoid_edge=r.edge(IS(ft,v))),"%s is used for an address of another kind"%t)
            fu="MultiListenFuture" if m=="listen" else "MultiDialFuture"
            futs=r.aggs(fu,v)+[n for n in r.calls("Result::map") if any(x[0]=="fn" and x[1].endswith(fu+"::"+v) for x in subs(r.args(n)[1]))]; ck.floor("dispatch","%s: future of %s"%(m,v),len(futs),1,r.body.span)
            for n in futs: nopath(ck,"dispatch","%s: result of %s"%(m,v),r,r.path(None,[n],avoid=mine),"the future of %s is not the one of its transport"%v)
        for v in("Wss","TLS"):
            st=r.after_edges(r.edges_where(IS(ft,v))); ck.floor("dispatch","%s of %s"%(m,v),len(st),1,r.body.span)
            nopath(ck,"dispatch","%s of %s is refused"%(m,v),r,r.path_from(st,ns),"an address of kind %s, which is not supported, is handed to a transport"%v)
            es=[n for n in r.aggs("TransportErrorKind","NotSupported") if P(2)(A(dict(r.agg_value(n)[3])["0"]))]
            nopath(ck,"dispatch","%s of %s: the error"%(m,v),r,r.path_from(st,r.exits(),avoid=es),"an address that is not supported is not refused as such")
        dns=CALL("DNSResolver::new",lambda e: P(2)(A(e)))
        for n in r.calls("DNSResolver::new"): ck.ob("dispatch",m+": what is resolved",P(2)(A(r.args(n)[0])),r.loc(n),"resolved is %s"%show(r.args(n)[0])[:60])
        for t,cs in sorted(by.items()):
            seen=set()
            for n in cs:
                a=strip_cast(r.args(n)[0]); direct=CALL(("ok","ready"),lambda e: P(2)(A(e)))(a); named=has(a,pay(dns,"Some"))
                ck.ob("dispatch","%s by %s: the address asked for"%(m,t),direct or named,r.loc(n),"the transport is given %s"%show(a)[:70])
                fact="None" if direct else "Some"; seen.add(fact)
                nopath(ck,"dispatch","%s by %s: %s"%(m,t,"without name" if direct else "by name"),r,r.path(None,[n],avoid_edge=r.edge(IS(dns,fact))),"%s"%("an address with a name is used unresolved" if direct else "a name is taken from an address without one"))
            ck.ob("dispatch","%s by %s: with and without name"%(m,t),seen=={"None","Some"},r.body.span,"only one of the two kinds of address is served")
    dialled(ck,"dispatch")
def sock(ck):
    r=ck.root(U+"multiaddr_to_socketaddr",sited=("next",)); whole(ck,r,"socket address")
    ns=r.calls("SocketAddr::new"); ck.floor("socket","made",len(ns),1,r.body.span)
    kinds=set(); nx=r.calls("Iterator::next","next"); ck.floor("socket","components",len(nx),1,r.body.span)
    for n in ns:
        ip,port=[strip_cast(x) for x in r.args(n)]
        for x in alts(ip):
            k=variants(x); kinds|=k&{"IP4","IP6"}
            ck.ob("socket","the address",any(pay(CALL(("next","peek")),"Some",z)(x) or (x[0]=="agg" and last(x[1])=="IpAddr" and pay(CALL(("next","peek")),"Some",z)(dict(x[3])["0"])) for z in("IP4","IP6")),r.loc(n),"the socket address is made of %s"%show(x)[:80])
        for y in alts(port): ck.ob("socket","the port",pay(CALL(("next","peek")),"Some","TCP")(y),r.loc(n),"the port is %s"%show(y)[:80])
        # the component of the port is the one right after that of the address
        a=[m for m in nx if any(has(x,lambda z,m=m: z==strip_cast(r.g.callval(m,0))) for x in alts(ip))]; b=[m for m in nx if any(has(y,lambda z,m=m: z==strip_cast(r.g.callval(m,0))) for y in alts(port))]
        ck.ob("socket","two components",bool(a) and bool(b) and not set(a)&set(b),r.loc(n),"address and port are not of two components")
        for i in a:
            for j in b:
                others=[m for m in nx if m is not j]
                p=r.path([i],[n],avoid=[j]); nopath(ck,"socket","the port follows the address",r,p,"a port is used that does not follow the address")
                for o in others:
                    p1=r.path([i],[o],avoid=[j,i]) if o is not i else None
                    if p1 is not None and r.path([o],[j],avoid=[i]) is not None: nopath(ck,"socket","nothing between address and port",r,p1,"a component between the address and the port is passed over")
        nopath(ck,"socket","what is made is given back",r,r.path([n],r.exits(lambda v: v is not None and v[:2]==("v","None"))),"the socket address found is not given back")
    ck.ob("socket","both families",kinds=={"IP4","IP6"},r.body.span,"no socket address for %s"%sorted({"IP4","IP6"}-kinds))
    ck.floor("socket","a port found",len(r.edges_where(IS(lambda e: COMP(e),"TCP"))),1,r.body.span)
    took=lambda e: COMP(e) and has(e,CALL(("next","next_if","nth"))) and not has(e,CALL("peek")); ip=r.edge(IS(took,("IP4","IP6"))); port=r.edge(IS(COMP,"TCP")); none=r.exits(lambda v: v is None or v[:2]!=("v","Some"))
    ids={n.id for n in r.calls("Iterator::next")}
    p=r.query(0,lambda q,x: q if q==3 else 0 if x in ids and q!=1 else q,lambda q,n,i: q|(1 if ip(n,i) else 0)|(2 if port(n,i) else 0),lambda q,st: q==3 and st in none)
    nopath(ck,"socket","an address with port is used",r,p,"an address with ip and port is refused")
    for o in retvals(r): ck.ob("socket","nothing is made up",AGG("Option")(o) or CALL(("from_residual","branch"))(o) ,r.body.span,"given back is %s"%show(o)[:60])
    for o in [r.agg_value(n) for n in r.aggs("Option","Some") if n.ctx==0]: ck.ob("socket","given back",CALL("SocketAddr::new")(dict(o[3])["0"]),r.body.span,"given back is %s"%show(o)[:60])
    for t,extra in(("tcp",False),("ws",True)):
        for fn,call in(("bind","tcp_listen"),("connect","tcp_dial")):
            c=ck.root("%s%s::%s"%(T,t,fn),opaque=("tcp_listen","tcp_dial","multiaddr_to_socketaddr","socketaddr_to_multiaddr","Multiaddr::push","timeout","client_async_with_config","fmt"))
            m=CALL("multiaddr_to_socketaddr",lambda e: CALL(("Future::poll","poll"),P(1))(core_of(A(e)))); inst="%s %s"%(t,fn); ns=c.calls(call)
            ck.floor("socket",inst,len(ns),1,c.body.span)
            for n in ns: ck.ob("socket",inst+": the socket asked for",pay(m,"Some")(c.args(n)[0]),c.loc(n),"%s is given %s"%(call,show(c.args(n)[0])[:60]))
            none=c.after_edges(c.edges_where(IS(m,"None"))); ck.floor("socket",inst+": no socket address",len(none),1,c.body.span)
            nopath(ck,"socket",inst+": refused before a socket is made",c,c.path_from(none,ns),"an address without a socket address is used")
            es=[n for n in c.aggs("TransportErrorKind","NotSupported")]
            nopath(ck,"socket",inst+": refused",c,c.path_from(none,c.exits(),avoid=es),"an address without a socket address is not refused as such")
            if fn=="connect":
                for n in ns: ck.ob("socket",inst+": bound where configured",P(4)(c.args(n)[1]),c.loc(n),"bound to %s"%show(c.args(n)[1])[:40])
            if fn=="connect" and t=="ws":
                u=c.calls("client_async_with_config"); ck.floor("socket","ws connect: upgrade",len(u),1,c.body.span)
                for n in u:
                    ck.ob("socket","ws connect: on its own socket",has(c.args(n)[1],CALL("tcp_dial")),c.loc(n),"the websocket runs over %s"%show(c.args(n)[1])[:60])
                bad=[n for n in c.calls("SocketAddr::ip","SocketAddr::port")]
                url_of_parts(ck,c,bad)
            if fn=="bind":
                for n in ns: ck.ob("socket",inst+": reuse as configured",P(3 if t=="ws" else 2)(c.args(n)[1]),c.loc(n),"reuse is %s"%show(c.args(n)[1])[:40])
                oks=[x for x in c.aggs("Result","Ok") if x.ctx==0 and HAS(lambda y: y[0]=="agg" and y[1]=="tuple")(c.agg_value(x))]; ck.floor("socket",inst+": results",len(oks),1,c.body.span)
                own=CALL("socketaddr_to_multiaddr",lambda e: has(e,CALL("tcp_listen")) and names_of(e)[:1]==["0"])
                for x in oks:
                    tup=[y for y in subs(c.agg_value(x)) if y[0]=="agg" and y[1]=="tuple"][0]; d=dict(tup[3])
                    ck.ob("socket",inst+": the address listened on",own(d["0"]),c.loc(x),"reported is %s"%show(d["0"])[:80])
                    ck.ob("socket",inst+": its listener",has(d["1"],CALL("tcp_listen")),c.loc(x),"given back is %s"%show(d["1"])[:80])
                ps=[n for n in c.calls("Multiaddr::push")]
                if extra:
                    for n in ps: ck.ob("socket",inst+": as websocket",own(c.args(n)[0]) and AGG("Protocol","Ws")(c.args(n)[1]),c.loc(n),"%s is added"%show(c.args(n)[1])[:40])
                    nopath(ck,"socket",inst+": marked as websocket",c,c.path(None,oks,avoid=ps),"a websocket listener reports an address that is not a websocket one"); nopath(ck,"socket",inst+": marked once",c,c.path(ps,ps),"marked twice")
                else: ck.ob("socket",inst+": plain",not ps,c.body.span,"a component is added to the address listened on")
def variants(e):
    """the variants along the access path"""
    return {x[2] for x in subs(e) if x[0]=="d"}
def url_of_parts(ck,c,bad):
    """ip and port joined by text is not a valid authority for ip version 6"""
    for n in bad: ck.ob("socket","ws connect: a url for every socket address",False,c.loc(n),"the url is put together from ip and port, which is no url for an ip version 6 address")
    ck.ob("socket","ws connect: url",not bad,c.body.span,"the url is not that of the socket address")

def resolve(ck):
    r=ck.root(U+"dns::DNSResolver::new",opaque=("find_type","extract_peer_id"),sited=("next",)); whole(ck,r,"name")
    own=lambda e: P(1)(A(e))
    ag=r.aggs("DNSResolver"); ck.floor("resolve","resolver",len(ag),1,r.body.span)
    for n in ag:
        d=dict(r.agg_value(n)[3])
        ck.ob("resolve","keeps the transport",CALL("find_type",own)(d["ty"]),r.loc(n),"the transport is %s"%show(d["ty"])[:60])
        ck.ob("resolve","keeps the peer id",CALL("extract_peer_id",own)(d["peer_id"]),r.loc(n),"the peer id is %s"%show(d["peer_id"])[:60])
        ck.ob("resolve","keeps the address for errors",own(d["source_address"]),r.loc(n),"the address is %s"%show(d["source_address"])[:60])
        ck.ob("resolve","keeps the port",all("TCP" in variants(x) and has(x,P(1)) for x in alts(d["port"])),r.loc(n),"the port is %s"%show(d["port"])[:80])
        names={v for x in alts(d["domain"]) for v in variants(x)&{"DNS4","DNS6"}}
        ck.ob("resolve","the name",names=={"DNS4","DNS6"} and all(variants(x)&{"DNS4","DNS6"} for x in alts(d["domain"])),r.loc(n),"the name is %s"%show(d["domain"])[:80])
        ck.ob("resolve","not yet resolved",AGG("Option","None")(d["join_handle"]),r.loc(n),"starts with %s"%show(d["join_handle"])[:40])
    got=r.after_edges(r.edges_where(IS(COMP,"TCP"))); ck.floor("resolve","a name with port",len(got),1,r.body.span)
    nopath(ck,"resolve","a name with port is resolved",r,r.path_from(got,r.exits(lambda v: v is None or v[:2]!=("v","Some"))),"an address with name and port is not resolved")
    r=ck.root(U+"dns::DNSResolver::new_addr",opaque=("socketaddr_to_multiaddr","Multiaddr::push"))
    some=pay(CALL("Iterator::next",P(2)),"Some"); base=CALL("socketaddr_to_multiaddr",some); ty=name("ty"); pid=lambda e: CALL("Option::take",name("peer_id"))(e) or name("peer_id")(e)
    ps=r.calls("Multiaddr::push"); ok=r.exits(okexit); ck.floor("resolve","pushes",len(ps),1,r.body.span); ck.floor("resolve","results",len(ok),1,r.body.span)
    kind={}
    for n in ps:
        a=r.args(n)
        for x in alts(a[1]):
            v=strip_cast(x)[2] if strip_cast(x)[0]=="agg" else "?"
            ck.ob("resolve","what is added",base(a[0]) and v in("Ws","Wss","P2P"),r.loc(n),"%s is added to %s"%(show(x)[:40],show(a[0])[:40]))
            if v=="P2P": ck.ob("resolve","the same peer id",has(x,pay(pid,"Some")) ,r.loc(n),"the peer id added is %s"%show(x)[:60])
    kind={v:r.aggs("Protocol",v) for v in("Ws","Wss","P2P")}
    for v in kind:
        for n in kind[v]: nopath(ck,"resolve",v+" made is added",r,r.path([n],ok,avoid=ps),"%s is not added to the resolved address"%v)
    nopath(ck,"resolve","nothing is added out of turn",r,r.path(None,ps,avoid=[n for v in kind for n in kind[v]]),"something is added to an address without being asked for")
    for v in("Ws","Wss"):
        st=r.after_edges(r.edges_where(IS(ty,v))); ck.floor("resolve","kind "+v,len(st),1,r.body.span)
        exactly(ck,r,"resolve","kind "+v,st,kind.get(v,[]),ok,"a resolved address is no longer %s"%v,"%s is added twice"%v)
        nopath(ck,"resolve","%s only for %s"%(v,v),r,r.path(None,kind.get(v,[]),avoid_edge=r.edge(IS(ty,v))),"a resolved address becomes %s"%v)
    st=r.after_edges(r.edges_where(IS(pid,"Some"))); ck.floor("resolve","peer id",len(st),1,r.body.span)
    exactly(ck,r,"resolve","peer id",st,kind.get("P2P",[]),ok,"the peer id of a resolved address is lost","the peer id is added twice")
    nopath(ck,"resolve","the peer id is looked at",r,r.path(None,ok,avoid_edge=r.edge(IS(pid,"Some","None"))),"a resolved address is given back without looking at its peer id")
    for o in retvals(r):
        x=strip_cast(o); y=strip_cast(dict(x[3])["0"]) if x[0]=="agg" and x[2]=="Ready" else ("?",)
        ck.ob("resolve","result",y[0]=="agg" and (base(dict(y[3])["0"]) if y[2]=="Ok" else source(dict(y[3])["0"])),r.body.span,"given back is %s"%show(x)[:80])
    none=r.after_edges(r.edges_where(IS(CALL("Iterator::next",P(2)),"None"))); ck.floor("resolve","nothing found",len(none),1,r.body.span); nopath(ck,"resolve","nothing found is an error",r,r.path_from(none,ok),"a name without address is resolved")
    r=ck.root("<%sdns::DNSResolver as core::future::future::Future>::poll"%U,opaque=("new_addr","poll_unpin"))
    ts=r.calls("to_socket_addrs"); ck.floor("resolve","the lookup",len(ts),1,r.body.span)
    for n in ts:
        x=strip_cast(r.args(n)[0]); d=dict(x[3]) if x[0]=="agg" and x[1]=="tuple" else {}
        ck.ob("resolve","what is looked up",bool(d) and has(d["0"],name("domain")) and name("port")(d["1"]),r.loc(n),"looked up is %s"%show(x)[:80])
    pu=CALL(("poll_unpin","poll")); na=r.calls("new_addr"); ck.floor("resolve","use of what was found",len(na),1,r.body.span)
    for n in na:
        x=r.args(n)[1]; vs=[v[2] for v in chain(x)]; ck.ob("resolve","what was found",P(1)(r.args(n)[0]) and pu(core_of(x)) and set(vs)<={"Ready","Ok"} and "Ready" in vs,r.loc(n),"the address is made of %s"%show(x)[:80])
    for o in retvals(r):
        x=strip_cast(o)
        if CALL("new_addr")(x) or AGG("Poll","Pending")(x): ck.ob("resolve","outcome",True,r.body.span,""); continue
        y=strip_cast(dict(x[3])["0"]) if x[0]=="agg" and x[2]=="Ready" else ("?",)
        ck.ob("resolve","outcome",y[0]=="agg" and y[2]=="Err" and source(dict(y[3])["0"]),r.body.span,"given back is %s"%show(x)[:80])
    c=ck.root(U+"extract_peer_id",opaque=("PeerId::from_bytes","from_bytes")); whole(ck,c,"peer id")
    fb=c.calls("PeerId::from_bytes"); ck.floor("resolve","peer id of an address",len(fb),1,c.body.span)
    for n in fb: ck.ob("resolve","peer id: of its component",all(variants(x)>={"P2P"} for x in alts(c.args(n)[0])),c.loc(n),"the peer id is read from %s"%show(c.args(n)[0])[:60])
    got=c.after_edges(c.edges_where(IS(COMP,"P2P"))); ck.floor("resolve","peer id component",len(got),1,c.body.span)
    nopath(ck,"resolve","peer id: not overlooked",c,c.path_from(got,c.exits(),avoid=fb),"the peer id of an address is overlooked")
    for o in retvals(c): ck.ob("resolve","peer id: what is found",has(o,CALL(("find_map","from_bytes"))) or AGG("Option","None")(o),c.body.span,"given back is %s"%show(o)[:60])
    c=ck.root(U+"socketaddr_to_multiaddr",opaque=("from_iter","from","Multiaddr::push"))
    ip=CALL("SocketAddr::ip",P(1)); port=CALL("SocketAddr::port",P(1)); v4=lambda e: pay(ip,"V4")(e) or CALL("ip",pay(P(1),"V4"))(e); v6=lambda e: pay(ip,"V6")(e) or CALL("ip",pay(P(1),"V6"))(e)
    ags={v:c.aggs("Protocol",v) for v in("IP4","IP6","TCP")}
    for v,g in(("IP4",v4),("IP6",v6),("TCP",port)):
        ck.floor("resolve","socket address: "+v,len(ags[v]),1,c.body.span)
        for n in ags[v]: ck.ob("resolve","socket address: its "+v,g(dict(c.agg_value(n)[3])["0"]),c.loc(n),"%s is %s"%(v,show(c.agg_value(n))[:60]))
    exactly(ck,c,"resolve","socket address: ip",[c.u.start],ags["IP4"]+ags["IP6"],c.exits(),"an address without ip","an address with two ips")
    exactly(ck,c,"resolve","socket address: port",[c.u.start],ags["TCP"],c.exits(),"an address without port","an address with two ports")
    ck.ob("resolve","socket address: nothing else",len(c.aggs("Protocol"))==sum(map(len,ags.values())),c.body.span,"another component is added")
    for n in c.calls("Iterator::chain"): ck.ob("resolve","socket address: order",not has(c.args(n)[0],AGG("Protocol","TCP")) and has(c.args(n)[1],AGG("Protocol","TCP")),c.loc(n),"the port comes before the ip")
    for n in c.calls("Multiaddr::push"):
        if has(c.args(n)[1],AGG("Protocol","TCP")): nopath(ck,"resolve","socket address: order",c,c.path(None,[n],avoid=[m for m in c.calls("Multiaddr::push") if has(c.args(m)[1],AGG("Protocol","IP4")) or has(c.args(m)[1],AGG("Protocol","IP6"))]) if not has(c.args(n)[0],AGG("Protocol","IP4")) else None,"the port comes before the ip")
def chain(e):
    e=strip_cast(e); out=[]
    while e[0] in("f","d","pollok"):
        if e[0]=="d": out.append(e)
        if e[0]=="pollok": out.append(("d",e,"Ok"))
        e=strip_cast(e[1])
    return out
def source(e):
    x=strip_cast(e); return x[0]=="agg" and x[1]=="tuple" and name("source_address")(A(dict(x[3])["0"]))
def peers(ck):
    """a connection is reported under the address of its own socket"""
    r=ck.root("<%sos::MultiIncoming as futures_core::stream::Stream>::poll_next"%T,opaque=("socketaddr_to_multiaddr","poll_accept","poll_next_unpin","fmt"))
    sites=[]
    for n in r.aggs("MultiStream"):
        v=r.agg_value(n); sites.append((n,v[2],strip_cast(dict(v[3])["0"])))
    ck.floor("peers","incoming",len(sites),2,r.body.span)
    tup=[n for n in r.nodes("assign") if n.data[1][0]=="agg" and n.data[1][1]=="tuple" and has(r.value(n),AGG("MultiStream"))]; ck.floor("peers","incoming results",len(tup),2,r.body.span)
    for n in tup:
        d=dict(strip_cast(r.value(n))[3]); m=strip_cast(d["1"]); s=strip_cast(dict(m[3])["0"]) if m[0]=="agg" else ("?",)
        if s[0]=="call" and last(s[1])=="new": s=strip_cast(s[2][0])
        if m[2]=="Tcp":
            pa=lambda e: CALL("peer_addr",lambda x: strip_cast(x)==s)(core_of(e)) and pay(anyx,"Ok")(e) or CALL("poll_accept")(core_of(e)) and names_of(e)[-1:]==["1"] and core_of(e)==core_of(s)
            ck.ob("peers","tcp: address of the socket",CALL("socketaddr_to_multiaddr",pa)(d["0"]) and CALL("poll_accept",pay(P(1),"Tcp"))(core_of(s)),r.loc(n),"a connection is reported under %s"%show(d["0"])[:80])
        else:
            ck.ob("peers","ws: as its listener reports it",names_of(s)[-1:]==["1"] and names_of(d["0"])[-1:]==["0"] and core_of(s)==core_of(d["0"]) and has(s,pay(P(1),"Ws")),r.loc(n),"a connection is reported under %s"%show(d["0"])[:80])
    for st in("Tcp","Ws"):
        call=CALL(("poll_accept",) if st=="Tcp" else ("poll_next_unpin","poll_next")); got=r.after_edges(r.edges_where(IS(lambda e: call(core_of(e)) and (st=="Ws" and "Ready" in [x[2] for x in chain(e)]),"Some") if st=="Ws" else IS(CALL("peer_addr"),"Ok")))
        ck.floor("peers",st+": a connection",len(got),1,r.body.span)
        exactly(ck,r,"peers",st+": a connection is given out",got,tup,r.exits(),"an accepted connection is dropped","an accepted connection is given out twice",avoid_edge=r.edge(IS(lambda e: call(core_of(e)),"Err")))
    if ck.cfg=="molc":
        w=ck.root("<%sws::WebsocketListener as futures_core::stream::Stream>::poll_next"%T,opaque=("socketaddr_to_multiaddr","poll_pending","Multiaddr::push","timeout","accept_async","poll_accept","fmt"))
        sn=[n for n in w.calls("send","quick_send","try_send","start_send") if name("sender")(w.args(n)[0])]; ck.floor("peers","websocket accepted",len(sn),1,w.body.span)
        sock=lambda e: CALL("poll_accept",name("inner"))(core_of(e)) and names_of(e)[-1:]==["0"]
        own=CALL("socketaddr_to_multiaddr",lambda e: CALL("peer_addr",sock)(core_of(e)) and pay(anyx,"Ok")(e) or CALL("poll_accept",name("inner"))(core_of(e)) and names_of(e)[-1:]==["1"])
        for n in sn:
            d=dict(strip_cast(w.args(n)[1])[3]); x=strip_cast(d["1"])
            ck.ob("peers","websocket: address of the socket",own(d["0"]),w.loc(n),"a connection is reported under %s"%show(d["0"])[:80])
            ck.ob("peers","websocket: over that socket",has(x,CALL("accept_async",sock)),w.loc(n),"the stream is %s"%show(x)[:80])
        pu=w.calls("Multiaddr::push")
        for n in pu: ck.ob("peers","websocket: marked",own(w.args(n)[0]) and AGG("Protocol","Ws")(w.args(n)[1]),w.loc(n),"added is %s"%show(w.args(n)[1])[:60])
        nopath(ck,"peers","websocket: marked as such",w,w.path(None,sn,avoid=pu),"a websocket connection is reported under an address that is not a websocket one")
        acc=w.after_edges(w.edges_where(IS(CALL("peer_addr"),"Ok"))); sp=w.calls("spawn"); ck.floor("peers","websocket: accepted",len(acc),1,w.body.span)
        exactly(ck,w,"peers","websocket: upgraded",acc,sp,w.exits(),"an accepted connection is dropped",None)
        q=ck.root(T+"ws::WebsocketListener::poll_pending",opaque=("poll_next",)); rs=q.after_edges(q.edges_where(IS(pay(CALL("poll_next",name("pending_stream")),"Ready"),"Some"))); ck.floor("peers","websocket: ready",len(rs),1,q.body.span)
        gv=[n for n in q.aggs("Result","Ok") if pay(CALL("poll_next",name("pending_stream")),"Ready","Some")(dict(q.agg_value(n)[3])["0"])]
        exactly(ck,q,"peers","websocket: given out",rs,gv,q.exits(),"an upgraded connection is dropped","given out twice")
        i=ck.root(T+"ws::WebsocketListener::new")
        for n in i.aggs("WebsocketListener"):
            d=dict(i.agg_value(n)[3]); ck.ob("peers","websocket: its own queue",names_of(d["sender"])[:1]==["0"] and names_of(d["pending_stream"])[:1]==["1"] and core_of(d["sender"])==core_of(d["pending_stream"]) and P(2)(d["inner"]) and P(1)(d["timeout"]),i.loc(n),"the listener is %s"%show(i.agg_value(n))[:80])
    for fu,st in(("MultiListenFuture","MultiIncoming"),("MultiDialFuture","MultiStream")):
        f=ck.root("<%sos::%s as core::future::future::Future>::poll"%(T,fu)); ns=[n for n in f.nodes("assign") if n.data[1][0]=="agg" and n.data[1][1]=="tuple" and has(f.value(n),AGG(st))]; ck.floor("peers",fu+": results",len(ns),2,f.body.span); seen=set()
        for n in ns:
            d=dict(strip_cast(f.value(n))[3]); m=strip_cast(d["1"]); s=strip_cast(dict(m[3])["0"])
            if s[0]=="call" and last(s[1])=="new": s=strip_cast(s[2][0])
            seen.add(m[2])
            ck.ob("peers","%s: %s"%(fu,m[2]),names_of(d["0"])[-1:]==["0"] and names_of(s)[-1:]==["1"] and core_of(d["0"])==core_of(s) and has(s,pay(P(1),m[2])),f.loc(n),"the result is %s"%show(f.value(n))[:100])
        ck.ob("peers",fu+": both transports",seen=={"Tcp","Ws"},f.body.span,"no result of one transport")
        for t,ty in(("tcp","Tcp"),("ws","Ws")):
            x=fu.replace("Multi",ty); g=ck.root("<%s%s::%s as core::future::future::Future>::poll"%(T,t,x)); ps=[n for n in g.calls("poll")]
            ck.ob("peers",x+": its own task",[o for o in retvals(g) if not CALL("poll",name("executed"),P(2))(o)]==[] and bool(ps),g.body.span,"the future does not run its task")
def listener(ck):
    for fn in("tcp_listen","tcp_dial"):
        r=ck.root(T+"os::"+fn,opaque=("connect_std","from_std","timeout","local_addr","TcpListener::bind"))
        if fn=="tcp_listen":
            oks=[n for n in r.aggs("Result","Ok") if n.ctx==0 and HAS(lambda y: y[0]=="agg" and y[1]=="tuple")(r.agg_value(n))]; ck.floor("socket","listen: results",len(oks),1,r.body.span)
            for n in oks:
                d=dict([y for y in subs(r.agg_value(n)) if y[0]=="agg" and y[1]=="tuple"][0][3]); l=d["1"]
                ck.ob("socket","listen: the address it listens on",CALL("local_addr",lambda e: strip_cast(e)==strip_cast(l))(core_of(d["0"])),r.loc(n),"reported is %s"%show(d["0"])[:80])
            for n in r.calls("bind"):
                a=r.args(n); ck.ob("socket","listen: where asked",P(1)(a[-1]) or has(a[-1],P(1)),r.loc(n),"bound to %s"%show(a[-1])[:60])
            ls=[n for n in r.calls("Socket::listen")]; raw=[n for n in r.calls("into_tcp_listener")]; bs=[n for n in r.calls("Socket::bind")]
            nopath(ck,"socket","listen: bound before use",r,r.path(None,raw,avoid=bs),"a listener that is not bound"); nopath(ck,"socket","listen: listening before use",r,r.path(None,raw,avoid=ls),"a listener that does not listen")
        else:
            cs=r.calls("connect_std"); ck.floor("socket","dial: connects",len(cs),1,r.body.span)
            for n in cs: ck.ob("socket","dial: where asked",P(1)(r.args(n)[1]) and CALL("Socket::new")(core_of(r.args(n)[0])),r.loc(n),"connects to %s"%show(r.args(n)[1])[:60])
            bs=r.calls("Socket::bind"); ck.floor("socket","dial: bind",len(bs),1,r.body.span); got=r.after_edges(r.edges_where(IS(P(2),"Some"))); ck.floor("socket","dial: bind configured",len(got),1,r.body.span)
            for n in bs: ck.ob("socket","dial: bound where configured",has(r.args(n)[1],pay(P(2),"Some")),r.loc(n),"bound to %s"%show(r.args(n)[1])[:60])
            nopath(ck,"socket","dial: bound if configured",r,r.path_from(got,cs,avoid=bs),"the configured local address is not used")
        ne=r.calls("Socket::new"); ck.floor("socket",fn+": socket",len(ne),1,r.body.span)
        for v,d in(("V4","ipv4"),("V6","ipv6")):
            ds=r.calls("Domain::"+d); ck.floor("socket","%s: %s"%(fn,d),len(ds),1,r.body.span)
            nopath(ck,"socket","%s: %s only for it"%(fn,d),r,r.path(None,ds,avoid_edge=r.edge(IS(P(1),v))),"a socket of the wrong family")
    if ck.cfg=="async": hosted(ck)
    q=("tentacle::runtime::tokio_runtime::" if ck.cfg=="molc" else "tentacle::runtime::async_runtime::os::")
    c=ck.root(q+"connect_std",opaque=lambda b: True); cs=c.calls("connect_std","Socket::connect"); ck.floor("socket","connects",len(cs),1,c.body.span)
    for n in cs: ck.ob("socket","connects its socket where asked",has(c.args(n)[0],P(1)) and has(c.args(n)[1],P(2)),c.loc(n),"connects %s to %s"%(show(c.args(n)[0])[:40],show(c.args(n)[1])[:40]))
    ok=c.exits(okexit); nopath(ck,"socket","connected before use",c,c.path(None,ok,avoid=cs),"a stream that is not connected is given back")
def hosted(ck):
    """the listener of the other runtime hands out what it accepts"""
    L="tentacle::runtime::async_runtime::os::"
    n=ck.root(L+"TcpListener::new"); sn=n.calls("send"); ck.floor("socket","hosted: accepted",len(sn),1,n.body.span); ac=n.calls("accept")
    for x in sn: ck.ob("socket","hosted: what it accepted",has(n.args(x)[1],CALL("accept",P(1))),n.loc(x),"handed out is %s"%show(n.args(x)[1])[:60])
    for a in n.aggs("TcpListener"):
        d=dict(n.agg_value(a)[3]); ck.ob("socket","hosted: its queue and address",names_of(d["recv"])[:1]==["1"] and all(core_of(n.args(x)[0])==core_of(d["recv"]) for x in sn) and P(2)(d["local_addr"]),n.loc(a),"the listener is %s"%show(n.agg_value(a))[:80])
    again=n.path(ac,ac,avoid=n.calls("send","SinkExt::send")); nopath(ck,"socket","hosted: nothing is dropped",n,again,"an accepted connection is dropped for the next one")
    p=ck.root(L+"TcpListener::poll_accept",opaque=("poll_next_unpin","CompatStream2::new")); it=CALL(("poll_next_unpin","poll_next"),name("recv"))
    st=p.aggs("TcpStream"); ck.floor("socket","hosted: streams",len(st),1,p.body.span)
    for a in st: ck.ob("socket","hosted: the accepted stream",has(p.agg_value(a),lambda e: names_of(e)[-1:]==["0"] and has(e,it)),p.loc(a),"the stream is %s"%show(p.agg_value(a))[:80])
    for a in [x for x in p.nodes("assign") if x.data[1][0]=="agg" and x.data[1][1]=="tuple" and has(p.value(x),AGG("TcpStream"))]:
        d=dict(strip_cast(p.value(a))[3]); ck.ob("socket","hosted: its address",names_of(d["1"])[-1:]==["1"] and has(d["1"],it),p.loc(a),"the address is %s"%show(d["1"])[:60])
    a=ck.root(L+"TcpStream::peer_addr")
    for o in retvals(a): ck.ob("socket","hosted: address of the socket",CALL("peer_addr",lambda e: has(e,P(1)))(o),a.body.span,"the address of a connection is %s"%show(o)[:60])
    b=ck.root(L+"TcpListener::local_addr")
    for o in retvals(b): ck.ob("socket","hosted: address listened on",AGG("Result","Ok")(o) and name("local_addr")(dict(strip_cast(o)[3])["0"]),b.body.span,"the address is %s"%show(o)[:60])
    for fn in("TcpListener::bind","from_std"):
        c=ck.root(L+fn,opaque=("TcpListener::new",)); ns=[x for x in c.calls("TcpListener::new")]; ck.floor("socket","hosted: "+fn,len(ns),1,c.body.span)
        for x in ns: ck.ob("socket","hosted: %s reports its own address"%fn,CALL("local_addr",lambda e: strip_cast(e)==strip_cast(c.args(x)[0]) or P(1)(e))(core_of(c.args(x)[1])),c.loc(x),"the address is %s"%show(c.args(x)[1])[:60])
OPS=("poll_read","poll_write","poll_flush","poll_shutdown","poll_close")
def delegates(ck):
    """every operation of a wrapping stream is that of the stream it wraps"""
    wraps=["tentacle::runtime::CompatStream","tentacle::runtime::CompatStream2"]+([T+"os::MultiStream"] if ck.cfg=="molc" else ["tentacle::runtime::async_runtime::os::TcpStream"])
    n=0
    for b in sorted(ck.p.bodies.values(),key=lambda b:b.qual):
        if not any(b.qual.startswith("<"+w+" as ") for w in wraps) or b.kind=="closure": continue
        op=b.qual.rsplit("::",1)[1]; w=last(b.qual[1:].split(" as ")[0]); inst="%s::%s"%(w,b.qual.split(" as ")[1].split("::")[0]+"::"+op)
        if op=="prepare_uninitialized_buffer": continue
        if op not in OPS: continue
        n+=1
        r=Root(ck,b,opaque=lambda f,o=b.qual.split(" as ")[0]: not any((f.get(k) or "").startswith(o+" as ") for k in("q","d")))
        same={"poll_close":("poll_close","poll_shutdown"),"poll_shutdown":("poll_close","poll_shutdown")}.get(op,(op,))
        inner=lambda e: strip_cast(e)!=("p",1) and has(e,P(1)) and all(strip_cast(x)[0]in("f","d","p") for x in [core_of(e)])
        good=lambda e: CALL(same,inner,P(2),*([P(3)] if op in("poll_read","poll_write") else []))(e)
        ms=[m for m in r.calls(*OPS) if inner(r.args(m)[0])]
        ck.floor("delegate",inst,len(ms),1,b.span)
        for m in ms: ck.ob("delegate",inst+": the same operation",good(r.g.callval(m,0)),r.loc(m),"%s of a wrapping stream does %s"%(op,show(r.g.callval(m,0))[:80]))
        exactly(ck,r,"delegate",inst,[r.u.start],ms,r.exits(),"%s of a wrapping stream is not handed on"%op,"%s of a wrapping stream is handed on twice"%op)
        for o in retvals(r): ck.ob("delegate",inst+": its result",good(o) or CALL(same,P(1),P(2),*([P(3)] if op in("poll_read","poll_write") else []))(o),r.body.span,"%s of a wrapping stream gives back %s"%(op,show(o)[:80]))
    ck.floor("delegate","operations",n,14 if ck.cfg=="molc" else 4)
    for b in ck.p.bodies.values():
        if b.qual.endswith("::prepare_uninitialized_buffer") and b.crate=="tentacle":
            r=Root(ck,b); ck.ob("delegate",b.qual+": initialised buffers",all(strip_cast(o)==("c",False) or CALL("prepare_uninitialized_buffer",lambda e: strip_cast(e)!=("p",1))(o) for o in retvals(r)),b.span,"a stream claims that it never reads the buffer it is given")
WS="<tentacle::transports::ws::WsStream as tokio::io::async_%s::Async%s>::%s"
def websocket(ck):
    r=ck.root(WS%("write","Write","poll_write"),opaque=("respond_ping","poll_ready","start_send","poll_flush")); clo=name("already_send_close")
    sn=[n for n in r.calls("start_send")]; ok=r.exits(okexit); ck.floor("websocket","writes",len(sn),1,r.body.span); ck.floor("websocket","write results",len(ok),1,r.body.span)
    for n in sn:
        x=strip_cast(r.args(n)[1]); ck.ob("websocket","write: what",AGG("Message","Binary")(x) and (lambda y: CALL(("to_vec","to_owned","from","into"),P(3))(y) or P(3)(y))(strip_cast(dict(x[3])["0"])),r.loc(n),"sent is %s"%show(x)[:60])
    exactly(ck,r,"websocket","write",[r.u.start],sn,ok,"a write reports success without sending","bytes are sent twice")
    nopath(ck,"websocket","write: not after close",r,r.path(None,sn,avoid_edge=r.edge(FALSE(clo))),"bytes are sent after the close message")
    rd=CALL("poll_ready",name("inner")); nopath(ck,"websocket","write: when ready",r,r.path(None,sn,avoid_edge=r.edge(IS(pay(rd,"Ready"),"Ok"))),"bytes are sent to a sink that is not ready")
    nopath(ck,"websocket","write: sent means taken",r,r.path_from(r.after_nodes(sn),r.exits(lambda v: v is not None and v[:2]==("v","Pending"))),"bytes that were taken are reported as not taken, so they are sent again")
    for o in retvals(r):
        x=strip_cast(o)
        if AGG("Poll","Ready")(x) and AGG("Result","Ok")(dict(x[3])["0"]): ck.ob("websocket","write: how much",LEN(P(3))(dict(strip_cast(dict(x[3])["0"])[3])["0"]),r.body.span,"a write reports %s bytes"%show(x)[:60])
        else: ck.ob("websocket","write: otherwise",not has(x,AGG("Result","Ok")) or CALL("from_residual")(x),r.body.span,"a write gives back %s"%show(x)[:60])
    fl=CALL("poll_flush",name("inner"),P(2))
    f=ck.root(WS%("write","Write","poll_flush"),opaque=("poll_flush",))
    for o in retvals(f): ck.ob("websocket","flush",has(o,fl) and (fl(o) or CALL("map_err",fl)(o)),f.body.span,"a flush gives back %s"%show(o)[:60])
    c=ck.root(WS%("write","Write","poll_shutdown"),opaque=("poll_ready","start_send","poll_flush","poll_close")); sn=c.calls("start_send"); pc=c.calls("poll_close")
    ck.floor("websocket","shutdown: close message",len(sn),1,c.body.span); ck.floor("websocket","shutdown",len(pc),1,c.body.span)
    for n in sn: ck.ob("websocket","shutdown: what",AGG("Message","Close")(c.args(n)[1]),c.loc(n),"sent is %s"%show(c.args(n)[1])[:60])
    nopath(ck,"websocket","shutdown: close message once",c,c.path(None,sn,avoid_edge=c.edge(FALSE(clo))),"the close message is sent again")
    nopath(ck,"websocket","shutdown: close message first",c,c.path_from(c.after_edges(c.edges_where(FALSE(clo))),pc,avoid=sn),"a connection is closed without close message")
    nopath(ck,"websocket","shutdown: closed",c,c.path(None,c.exits(okexit),avoid=pc),"a shutdown reports success without closing")
    st=c.writes("WsStream.already_send_close"); ck.floor("websocket","shutdown: noted",len(st),1,c.body.span)
    for n in st: ck.ob("websocket","shutdown: noted as sent",strip_cast(c.value(n)) in(("c",True),),c.loc(n),"noted is %s"%show(c.value(n)))
    nopath(ck,"websocket","shutdown: noted only if sent",c,c.path(None,st,avoid=sn),"the close message is noted as sent but was not")
    nopath(ck,"websocket","shutdown: noted if sent",c,c.path_from(c.after_nodes(sn),pc,avoid=st),"the close message is sent and not noted")
    for o in retvals(c):
        g=CALL("poll_close",name("inner"),P(2)); ck.ob("websocket","shutdown: result",g(o) or CALL("map_err",g)(o) or not has(o,AGG("Result","Ok")),c.body.span,"a shutdown gives back %s"%show(o)[:60])
    # reading
    r=ck.root(WS%("read","Read","poll_read"),opaque=("respond_ping","drain","poll_next_unpin","poll_next")); nx=CALL(("poll_next_unpin","poll_next"),name("inner")); dr=CALL("drain",P(1),P(3))
    data=lambda e: all(pay(nx,"Ready","Some","Ok","Binary")(x) for x in alts(e)); ds=r.calls("WsStream::drain"); rs=r.calls("poll_next_unpin","poll_next"); ok=r.exits(okexit)
    ck.floor("websocket","reads what is left",len(ds),1,r.body.span); ck.floor("websocket","reads",len(rs),1,r.body.span)
    for n in ds: ck.ob("websocket","read: into the caller's buffer",dr(r.g.callval(n,0)),r.loc(n),"read into %s"%show(r.args(n)[1])[:40])
    nopath(ck,"websocket","read: what is left first",r,r.path(None,rs,avoid=ds),"a message is read before what is left of the last one was given out")
    left=r.edge(ANYF(CMP("<=",dr,K(0)),CMP("==",dr,K(0)),CMP("<",dr,K(1))))
    nopath(ck,"websocket","read: nothing left",r,r.path(None,rs,avoid_edge=left),"a message is read although something of the last one was given out")
    st=r.writes("WsStream.recv_buf"); cp=r.calls("copy_from_slice","clone_from_slice","extend_from_slice","put_slice")
    for n in st: ck.ob("websocket","read: kept",data(r.value(n)),r.loc(n),"kept is %s"%show(r.value(n))[:60])
    for n in cp: ck.ob("websocket","read: given out",data(r.args(n)[1]) and has(r.args(n)[0],P(3)),r.loc(n),"given out is %s"%show(r.args(n)[1])[:60])
    got=r.after_edges(r.edges_where(IS(lambda e: pay(nx,"Ready","Some","Ok")(e),"Binary"))); ck.floor("websocket","read: a message",len(got),1,r.body.span)
    emp=lambda e: CALL("is_empty",data)(e)
    none=r.edge(ANYF(TRUE(emp),CMP("==",LEN(data),K(0)),CMP("<=",LEN(data),K(0))))
    exactly(ck,r,"websocket","read: a message",got,st+cp,ok,"the bytes of a message are lost","the bytes of a message are given out twice",avoid_edge=none)
    nopath(ck,"websocket","read: a message is not overwritten",r,r.path_from(got,rs,avoid=[n for n in st+cp],avoid_edge=none),"a message with bytes is dropped for the next one")
    nopath(ck,"websocket","read: kept only if it does not fit",r,r.path(None,st,avoid_edge=r.edge(ANYF(CMP("<",LEN(P(3)),LEN(data)),CMP("<=",LEN(P(3)),LEN(data))))) if cp else None,"a message that fits is kept")
    nopath(ck,"websocket","read: what is kept is given out first",r,r.path_from(r.after_nodes(st),ok,avoid=ds),"a read gives out nothing although a message came")
    for o in retvals(r):
        x=strip_cast(o)
        if AGG("Poll","Ready")(x) and AGG("Result","Ok")(dict(x[3])["0"]):
            for k in alts(dict(strip_cast(dict(x[3])["0"])[3])["0"]): ck.ob("websocket","read: how much",dr(k) or LEN(data)(k),r.body.span,"a read reports %s bytes"%show(k)[:60])
    d=ck.root("tentacle::transports::ws::WsStream::drain"); buf=lambda e: LEN(P(2))(e); rb=lambda e: LEN(name("recv_buf"))(e); both=lambda e: strip_cast(e)[0] in("min","call") and (lambda a: len(a)==2 and (buf(a[0]) and rb(a[1]) or rb(a[0]) and buf(a[1])))(list(strip_cast(e)[1:]) if strip_cast(e)[0]=="min" else list(strip_cast(e)[2]))
    for o in retvals(d): ck.ob("websocket","drain: how much",K(0)(o) or both(o),d.body.span,"given out are %s"%show(o)[:60])
    ze=d.after_edges(d.edges_where(ANYF(FALSE(CALL("is_empty",name("recv_buf"))),CMP("<",K(0),rb),CMP("!=",rb,K(0))))); cp=d.calls("copy_from_slice","clone_from_slice"); dn=d.calls("drain","split_to","split_off","advance"); dn=[n for n in dn if name("recv_buf")(d.args(n)[0])]
    ck.floor("websocket","drain: taken",len(dn),1,d.body.span); ck.floor("websocket","drain: copied",len(cp),1,d.body.span); ck.floor("websocket","drain: something left",len(ze),1,d.body.span)
    exactly(ck,d,"websocket","drain: taken",ze,dn,d.exits(),"bytes given out stay in the buffer","bytes are taken twice"); exactly(ck,d,"websocket","drain: copied",ze,cp,d.exits(),"bytes are taken without giving them out","bytes are given out twice")
    upto=lambda e: (lambda x: x[0]=="agg" and last(x[1])=="RangeTo" and both(dict(x[3])["end"]) or x[0]=="agg" and last(x[1])=="Range" and K(0)(dict(x[3])["start"]) and both(dict(x[3])["end"]))(strip_cast(e))
    for n in dn: ck.ob("websocket","drain: from the front",last(d.g.decl(n))!="drain" or upto(d.args(n)[1]),d.loc(n),"taken are %s"%show(d.args(n)[1])[:60])
    for n in cp:
        x,y=d.args(n)[:2]; ck.ob("websocket","drain: to the front of the buffer",any(upto(z) for z in subs(x)) and has(x,P(2)) and has(y,name("recv_buf")),d.loc(n),"copied to %s"%show(x)[:60])
    i=ck.root("tentacle::transports::ws::WsStream::new")
    for n in i.aggs("WsStream"):
        v=dict(i.agg_value(n)[3]); ck.ob("websocket","starts empty",P(1)(v["inner"]) and CALL(("new","default"))(v["recv_buf"]) and K(False)(v["already_send_close"]),i.loc(n),"a stream starts as %s"%show(i.agg_value(n))[:80])
RULES=[("kind",["molc"],kind),("dispatch",["molc"],dispatch),("socket",["molc"],sock),("resolve",["molc","async"],resolve),("peers",["molc"],peers),("listener",["molc","async"],listener),("delegate",["molc","async"],delegates),("websocket",["molc"],websocket)]
