"""Static rules on protocol negotiation: the answering end looks the proposed name up among its protocols, chooses among the versions
of both sides, answers with exactly that name and choice and keeps the same; the choice walks both lists from their ends and stops
only at a common version; a stream is opened only from a finished negotiation with a version, and every other outcome is reported;
nothing is entered for an unknown name or an open protocol; the negotiated stream is handed over whole."""
from que import *
import c19
from c23 import nopath,part
CONFIGS=["molc","flatc"]
ASSUMES=["Version lists are in ascending order, as select_version requires of its caller","The end that proposed trusts the answer of the other end: a lying peer can name another protocol the node supports"]
SEL="tentacle::protocol_select::"
def choice(ck):
    r=ck.root(SEL+"select_version",opaque=("cmp",))
    back=lambda k: lambda e: CALL(("next","last","next_back","pop"))(strip_cast(e)) and has(e,P(k)) and not has(e,P(3-k))
    def side(e):
        s={k for k in(1,2) if has(e,P(k))}
        return s.pop() if len(s)==1 else None
    def rel(f):
        """how the version of the first list stands to that of the second: the orders a fact leaves possible"""
        if f[0]=="is" and CALL("cmp")(strip_cast(f[1])):
            x=[side(z) for z in strip_cast(f[1])[2]]; vs=set(f[2])
        elif f[0]=="cmp":
            x=[side(f[2]),side(f[3])]; vs={"Lt":{"Less"},"Le":{"Less","Equal"},"Eq":{"Equal"},"Ne":{"Less","Greater"}}.get(f[1],set())
        else: return frozenset()
        if set(x)!={1,2}: return frozenset()
        return frozenset(vs if x[0]==1 else {{"Less":"Greater","Greater":"Less"}.get(v,v) for v in vs})
    cmps=[n for n in r.calls("cmp","eq","ne","lt","le","gt","ge") if any(side(a) for a in r.args(n))]; ck.floor("choice","comparison",len(cmps),1,r.body.span)
    for n in cmps: ck.ob("choice","both sides are compared",{side(r.args(n)[0]),side(r.args(n)[1])}=={1,2},r.loc(n),"%s is compared with %s"%(show(r.args(n)[0])[:40],show(r.args(n)[1])[:40]))
    # a position that counts down from the length is as good as an iterator from the end
    defs={}
    for n in r.nodes("assign"):
        if not n.data[0][1]: defs.setdefault((n.ctx,n.data[0][0]),[]).append(n)
    def down(n):
        v=strip_cast(r.value(n)); return v[0]=="bin" and v[1]=="Sub" and KN(1)(v[3]) and len(defs.get((n.ctx,n.data[0][0]),()))>1 and all(x[0]=="len" or x[0]=="bin" and x[1]=="Sub" for x in map(strip_cast,alts(v[2])))
    its=lambda k: [n for n in r.calls("next","next_back","pop") if side(r.args(n)[0])==k]
    adv=lambda k: its(k)+[n for n in r.nodes("assign") if not n.data[0][1] and down(n) and side(r.value(n))==k]
    for n in its(1)+its(2): ck.ob("choice","from the highest",(last(r.g.decl(n))=="next")==bool(has(r.args(n)[0],CALL("rev"))),r.loc(n),"the versions are gone through from the lowest")
    rv=[v for v in retvals(r)]; ck.floor("choice","results",len(rv),2,r.body.span)
    some=[n for n in r.nodes("assign") if n.data[0]==[0,[]] and AGG("Option","Some")(r.value(n))]
    p=r.path(None,some,avoid_edge=r.edge(lambda f: rel(f)=={"Equal"})); nopath(ck,"choice","only a common version",r,p,"a version is chosen that was not found in both lists")
    for v in rv: ck.ob("choice","one of the compared",v[0]=="agg" and (v[2]=="None" or any(strip_cast(dict(v[3])["0"])==strip_cast(core_of(a)) or strip_cast(dict(v[3])["0"])==strip_cast(a) for n in cmps for a in r.args(n))),r.body.span,"what is chosen is %s"%show(v)[:80])
    none=r.exits(lambda v: v is None or not(v[0]=="v" and v[1]=="Some"))
    p=r.path(None,none,avoid_edge=r.edge(lambda f: f[0]=="is" and f[2]==frozenset(["None"]) and side(f[1]) is not None or f[0]=="cmp" and f[1] in("Le","Eq") and KN(0)(f[3]) and side(f[2]) is not None or f[0]=="cmp" and f[1]=="Eq" and KN(0)(f[2]) and side(f[3]) is not None)); nopath(ck,"choice","gives up only at the end of a list",r,p,"no version is chosen although both lists go on")
    eq=r.after_edges(r.edges_where(lambda f: rel(f)=={"Equal"})); ck.floor("choice","order Equal",len(eq),1,r.body.span)
    p=r.path_from(eq,set(r.states_of(cmps))|none); nopath(ck,"choice","a common version is chosen",r,p,"a common version is passed over",0)
    moved={n.id for k in(1,2) for n in adv(k)}; apart=r.edge(lambda f: rel(f) and "Equal" not in rel(f)); cid={n.id for n in cmps}
    nopath(ck,"choice","a common version is not passed over",r,r.query(2,lambda k,x: k if k==9 else 0 if k==2 and x in cid else (9 if k==0 else 2) if x in moved else k,lambda k,n,i: 1 if k==0 and apart(n,i) else k,lambda k,s: k==9),"a list is advanced although the two versions may be the same")
    for v,k in(("Less",2),("Greater",1)):
        vs=[v]; st=r.after_edges(r.edges_where(lambda f,v=v: v in rel(f) and not rel(f)-{v,"Equal"})); ck.floor("choice","order "+v,len(st),1,r.body.span)
        other=adv(3-k); own=adv(k)
        stop=set(r.states_of(cmps))|r.exits()
        p=r.path_from(st,stop,avoid=own); nopath(ck,"choice","%s: the higher is passed over"%vs[0],r,p,"the list with the higher version is not advanced",0)
        p=r.query(0,lambda q,x: q if q==9 else (9 if x in {m.id for m in cmps} else (5 if x in {m.id for m in other} else q)),None,lambda q,s: q==5,starts=st); nopath(ck,"choice","%s: the lower stays"%vs[0],r,p,"the list with the lower version is advanced",0)
        p=r.query(0,lambda q,x: q if q==9 else (9 if x in {m.id for m in cmps} else min(2,q+1) if x in {m.id for m in own} else q),None,lambda q,s: q==2,starts=st); nopath(ck,"choice","%s: by one"%vs[0],r,p,"a version is passed over without being compared",0)
def outs(r):
    """the Ok results of an async function, as (node, tuple)"""
    o=[]
    for n in r.nodes("assign"):
        if n.ctx!=0 or n.data[1][0]!="agg": continue
        v=r.value(n)
        for y in alts(v):
            if AGG("Result","Ok")(y) and strip_cast(dict(strip_cast(y)[3])["0"])[0]=="agg": o.append((n,[x for _,x in sorted(dict(strip_cast(dict(strip_cast(y)[3])["0"])[3]).items())]))
    return o
def talk(ck):
    O=("encode","decode","select_version","into_future","LengthDelimitedCodec::new","Framed::new","fmt")
    dec=CALL("decode"); D=lambda f: lambda e: strip_cast(e)[0]=="f" and strip_cast(e)[2]==f and dec(core_of(e)) and names_of(e)==[f]
    r=ck.root(SEL+"server_select::{closure#0}",opaque=O)
    send=[n for n in r.calls("send") if has(r.args(n)[1],CALL("encode"))]; ck.floor("talk","answer",len(send),1,r.body.span)
    oks=outs(r); ck.floor("talk","server results",len(oks),1,r.body.span)
    sent=r.edge(lambda f: f[0]=="is" and f[2]==frozenset(["Ok"]) and has(f[1],CALL("send"))); got=r.edge(IS(dec,"Some"))
    for n,t in oks:
        p=r.path(None,[n],avoid=send); nopath(ck,"talk","answered",r,p,"the answering end takes a protocol as opened without answering")
        p=r.path(None,[n],avoid_edge=sent); nopath(ck,"talk","answer was sent",r,p,"the answering end takes a protocol as opened although its answer could not be sent")
        p=r.path(None,[n],avoid_edge=got); nopath(ck,"talk","understood",r,p,"a proposal that could not be read leads to a result")
        ck.ob("talk","name is the proposed one",len(t)==3 and D("name")(t[1]),r.loc(n),"the name taken is %s"%show(t[1])[:80])
        lk=[m for m in r.calls("remove","get") if D("name")(r.args(m)[1]) and P(2)(r.args(m)[0])]; ck.floor("talk","lookup of the name",len(lk),1,r.body.span)
        look=lambda e: CALL(("remove","get"),P(2),D("name"))(e)
        for y in alts(strip_cast(t[2])): ck.ob("talk","version of a known name",AGG("Option","None")(y) or has(y,look),r.loc(n),"a version is taken without looking up the name: %s"%show(y)[:80])
        bad=[x for x in subs(t[2]) if x[0]=="call" and last(x[1]) in("unwrap_or","or","or_else","unwrap_or_default","xor","map_or")]
        ck.ob("talk","no version of its own",not bad,r.loc(n),"a version is taken for a name that is not known")
        for m in send:
            i=[x for x in subs(r.args(m)[1]) if x[0]=="agg" and last(x[1])=="ProtocolInfo"]
            ok=bool(i) and strip_cast(dict(i[0][3])["name"])==strip_cast(t[1]) and has(dict(i[0][3])["support_versions"],lambda e: strip_cast(e)==strip_cast(t[2]))
            ck.ob("talk","answers what it takes",ok,r.loc(m),"the answer is not the name and version that are taken: %s"%show(r.args(m)[1])[:100])
        ck.ob("talk","same stream",has(t[0],CALL("Framed::new")),r.loc(n),"the stream handed on is %s"%show(t[0])[:60])
    ch=r.calls("select_version"); ck.floor("talk","default choice",len(ch),1,r.body.span)
    loc=lambda e: names_of(e)[-1:]==["support_versions"] and CALL(("remove","get"),P(2))(core_of(e)); rem=D("support_versions")
    for m in ch: ck.ob("talk","choice among both",loc(r.args(m)[0]) and rem(r.args(m)[1]) or loc(r.args(m)[1]) and rem(r.args(m)[0]),r.loc(m),"the versions compared are %s and %s"%(show(r.args(m)[0])[:60],show(r.args(m)[1])[:60]))
    for m in r.calls("Fn::call","call"):
        if not(r.args(m) and CALL(("remove","get"),P(2))(core_of(r.args(m)[0]))): continue
        a=strip_cast(r.args(m)[1]); xs=[x for _,x in sorted(dict(a[3]).items())] if a[0]=="agg" else []
        ck.ob("talk","configured choice among both",len(xs)==2 and loc(xs[0]) and rem(xs[1]),r.loc(m),"the configured choice is given %s"%show(a)[:100])
    c=ck.root(SEL+"client_select::{closure#0}",opaque=O)
    send=[n for n in c.calls("send") if CALL("encode")(core_of(c.args(n)[1])) and any(P(2)(x) for x in subs(c.args(n)[1]))]; ck.floor("talk","proposal",len(send),1,c.body.span)
    got=c.edge(IS(dec,"Some")); oks=outs(c); ck.floor("talk","client results",len(oks),1,c.body.span)
    for n,t in oks:
        nopath(ck,"talk","proposed first",c,c.path(None,[n],avoid=send),"a protocol is taken as opened without proposing it")
        nopath(ck,"talk","answer understood",c,c.path(None,[n],avoid_edge=got),"an answer that could not be read leads to a result")
        ck.ob("talk","name of the answer",D("name")(t[1]),r.loc(n) if False else c.loc(n),"the name taken is %s"%show(t[1])[:80])
        ck.ob("talk","version of the answer",has(t[2],D("support_versions")) and not any(x[0]=="call" and last(x[1]) in("unwrap_or","or","or_else","unwrap_or_default","map_or") for x in subs(t[2])),c.loc(n),"the version taken is %s"%show(t[2])[:80])
        ck.ob("talk","same stream (client)",has(t[0],CALL("Framed::new")),c.loc(n),"the stream handed on is %s"%show(t[0])[:60])
    for x,nm in((r,"server"),(c,"client")):
        for m in x.calls("decode"): ck.ob("talk",nm+" reads the whole message",not has(x.args(m)[0],CALL(("split_to","split_off","index"))),x.loc(m),"part of a message is read: %s"%show(x.args(m)[0])[:60])
    e=ck.root(SEL+"ProtocolInfo::encode",opaque=("build",)); vs=[v for v in retvals(e)]
    for f in("name","support_versions"): ck.ob("talk","encode carries "+f,any(x.data[1] and any(has(a,lambda y: names_of(y)[-1:]==[f] and has(y,P(1))) for a in e.args(x)) for x in e.calls("set","create_string","into_bytes","into_iter","iter","next","map")),e.body.span,"the encoded message does not carry %s"%f)
    ad=[n for n in e.calls("filter","filter_map","skip","take","rev","step_by","take_while","skip_while","pop","truncate","split_off","remove","drain") if has(e.args(n)[0],P(1))]
    ck.ob("talk","encode: all of it in order",not ad,e.loc(ad[0]) if ad else e.body.span,"part of a proposal is left out or reordered when it is encoded")
    d=ck.root(SEL+"ProtocolInfo::decode",opaque=("name","support_versions"))
    for v in retvals(d):
        for y in alts(v):
            if AGG("Option","Some")(y):
                i=strip_cast(dict(strip_cast(y)[3])["0"]); m=dict(i[3]) if i[0]=="agg" else {}
                ck.ob("talk","decode: name",bool(m) and has(m["name"],CALL("name")),d.body.span,"the name read is %s"%show(m.get("name",i))[:80])
    pu=[n for n in d.calls("push") if has(d.args(n)[1],CALL("support_versions"))]; ck.floor("talk","decode: versions",len(pu),1,d.body.span)
    ad=[x for n in pu for x in subs(d.args(n)[1]) if x[0]=="call" and last(x[1]) in("filter","skip","take","rev","step_by","take_while","skip_while","filter_map")]
    ck.ob("talk","decode: all versions in order",not ad,d.body.span,"versions are left out or reordered when a message is read")
def outcome(ck):
    b=[q for q in ck.p.bodies.values() if q.qual.startswith(SES+"select_procedure::") and any(st[0]=="=" and st[2][0]=="agg" and st[2][1]=="adt" and "SelectError" in str(st[2][3]) for bl in q.blocks for st in bl["s"])]
    ck.floor("outcome","end of a negotiation",len(b),1)
    for q in b:
        r=Root(ck,q,opaque=("fmt","timeout"))
        send=r.calls("send"); ck.floor("outcome","report",len(send),1,q.span)
        mk=[n for n in r.nodes("assign") if n.data[1][0]=="agg" and n.data[1][1]=="adt" and r.value(n)[0]=="agg" and last(r.value(n)[1])=="ProtocolEvent"]
        op=[n for n in mk if r.value(n)[2]=="Open"]; ck.floor("outcome","opening",len(op),1,q.span)
        res=lambda e: CALL("poll",CALL("timeout"))(core_of(e))
        okv=r.edge(lambda f: f[0]=="is" and f[2]==frozenset(["Some"]) and res(f[1]))
        nopath(ck,"outcome","only with a version",r,r.path(None,op,avoid_edge=okv),"a protocol is opened without an agreed version")
        for n in op:
            a=dict(r.value(n)[3])
            tup=lambda e: names_of(e)
            ck.ob("outcome","opens what was agreed",res(a["proto_name"]) and tup(a["proto_name"])[-1:]==["1"] and res(a["version"]) and tup(a["version"])[-1:]==["2"] and has(a["substream"],lambda e: res(e) and tup(e)[-1:]==["0"]),r.loc(n),"what is opened is %s"%show(r.value(n))[:120])
        for fact,nm in((lambda f: f[0]=="is" and f[2]==frozenset(["Err"]) and res(f[1]),"failure"),(lambda f: f[0]=="is" and f[2]==frozenset(["None"]) and res(f[1]),"no version")):
            s=r.after_edges(r.edges_where(fact)); ck.floor("outcome",nm,len(s),1,q.span)
            nopath(ck,"outcome",nm+" opens nothing",r,r.path_from(s,op),"a protocol is opened although the negotiation ended in "+nm,0)
            er=[n for n in mk if r.value(n)[2]=="SelectError"]
            nopath(ck,"outcome",nm+" is reported",r,r.path_from(s,r.exits(),avoid=er),"the %s of a negotiation is not reported"%nm,0)
        exactly(ck,r,"outcome","reported",[r.u.start],send,r.exits(),"a negotiation ends without a report","a negotiation is reported twice")
        for n in send:
            ck.ob("outcome","report is the outcome",all(AGG("ProtocolEvent","Open")(y) or AGG("ProtocolEvent","SelectError")(y) for y in alts(strip_cast(r.args(n)[1]))),r.loc(n),"what is reported is %s"%show(r.args(n)[1])[:80])
    s=ck.root(SES+"select_procedure",opaque=("fmt","timeout"))
    nopath(ck,"outcome","negotiation is run",s,s.path(None,s.exits(),avoid=s.calls("spawn")),"a negotiation is not run")
    ts=[n for n in s.calls("timeout")]; ck.floor("outcome","negotiation with a limit",len(ts),1,s.body.span)
    o=ck.root(SES+"open_protocol",opaque=("fmt","proto_open","event_output","SubstreamBuilder::build","SubstreamWritePartBuilder::build","ProtocolSpawn::spawn"))
    ins=[n for n in o.calls("insert") if name("proto_streams")(o.args(n)[0]) or name("substreams")(o.args(n)[0])]; ck.floor("outcome","entries of a stream",len(ins),2,o.body.span)
    lk=CALL("get",name("protocol_configs_by_name"),P(3))
    nopath(ck,"outcome","known name",o,o.path(None,ins+o.calls("spawn"),avoid_edge=o.edge(IS(lk,"Some"))),"a protocol whose name is not known is opened")
    un=o.after_edges(o.edges_where(IS(lk,"None"))); er=[n for n in o.calls("event_output") if AGG("SessionEvent","ProtocolSelectError")(o.args(n)[2])]; ck.floor("outcome","unknown names",len(un),1,o.body.span)
    nopath(ck,"outcome","unknown name is reported",o,o.path_from(un,o.exits(),avoid=er),"an answer with an unknown name is not reported",0)
    free=FALSE(CALL("contains_key",name("proto_streams"),lambda e: name("id")(e) and has(e,lk))); free=ANYF(free,IS(CALL("get",name("proto_streams"),lambda e: name("id")(e) and has(e,lk)),"None"))
    nopath(ck,"outcome","not open yet",o,o.path(None,ins+o.calls("spawn"),avoid_edge=o.edge(free)),"a protocol that is already open is opened again")
    for n in ins:
        if name("proto_streams")(o.args(n)[0]): ck.ob("outcome","entered under its id",name("id")(o.args(n)[1]) and has(o.args(n)[1],lk) and name("next_stream")(o.args(n)[2]),o.loc(n),"what is entered is %s"%show(o.args(n)[1])[:60])
        else: ck.ob("outcome","its queue is entered",name("next_stream")(o.args(n)[1]),o.loc(n),"what is entered is %s"%show(o.args(n)[1])[:60])
    ns=[n for n in o.nodes("assign") if n.data[0][1] and n.data[0][1][-1][0]=="f" and n.data[0][1][-1][1]=="next_stream"]; ck.floor("outcome","next stream number",len(ns),1,o.body.span)
    nopath(ck,"outcome","stream numbers are not used again",o,o.path(ins,o.exits(),avoid=ns),"the number of an opened stream is used again")
    p=o.path(ns,ins); nopath(ck,"outcome","one number for one stream",o,p,"a stream is entered under two numbers")
    h=ck.root(SES+"handle_stream_event",assume=under(P(3),"Open"),opaque=("fmt","event_output","open_protocol","output"))
    oc=h.calls("open_protocol"); exactly(ck,h,"outcome","opening is handled",[h.u.start],oc,h.exits(),"a finished negotiation is ignored","a finished negotiation is handled twice")
    for n in oc: ck.ob("outcome","opening: what",part(h.args(n)[2],"proto_name",3) and part(h.args(n)[3],"version",3) and part(h.args(n)[4],"substream",3),h.loc(n),"what is opened is %s"%show(h.args(n)[2])[:60])
    h=ck.root(SES+"handle_stream_event",assume=under(P(3),"SelectError"),opaque=("fmt","event_output","open_protocol","output"))
    ev=[n for n in h.calls("event_output") if AGG("SessionEvent","ProtocolSelectError")(h.args(n)[2])]
    exactly(ck,h,"outcome","failure reaches the service",[h.u.start],ev,h.exits(),"a failed negotiation is not reported","a failed negotiation is reported twice")
    for n in ev: ck.ob("outcome","failure: which",part(dict(strip_cast(h.args(n)[2])[3])["proto_name"],"proto_name",3),h.loc(n),"the name reported is %s"%show(h.args(n)[2])[:80])
    t=ck.root(S+"handle_session_event",assume=under(P(3),"ProtocolSelectError"),opaque=OPQ+("session_close","session_open","protocol_open","protocol_message","protocol_close","Service::handshake","try_update_listens","spawn_listener","handle_service_task","handle_error"))
    ev=[n for n in t.calls("handle_error") if AGG("ServiceError","ProtocolSelectError")(t.args(n)[2])]
    exactly(ck,t,"outcome","failure reaches the user",[t.u.start],ev,t.exits(),"a failed negotiation is not told to the user","a failed negotiation is told twice",avoid_edge=t.edge(IS(CALL("get",name("sessions")),"None")))
    for b in sorted(ck.p.bodies.values(),key=lambda b:b.qual):
        if not live(b) or b.crate!="tentacle" or "session::" not in b.qual: continue
        if not any(bl["t"][0]=="call" and bl["t"][1][0]=="fn" and not bl["c"] and last(bl["t"][1][1]["q"]) in("insert","entry","extend") for bl in b.blocks): continue
        x=Root(ck,b,opaque=lambda c: True,depth=0,closures=False)
        for n in x.calls("insert","entry","extend"):
            a=strip_cast(x.args(n)[0])
            if a[0]=="f" and a[2] in("proto_streams","substreams"): ck.ob("outcome","%s entered in %s"%(a[2],b.qual),within(ck,b,{SES+"open_protocol"}),x.loc(n),"a stream is entered without negotiation")
def propose(ck):
    r=ck.root(SES+"open_proto_stream",opaque=("fmt","select_procedure","client_select","open_stream"))
    mk=[x for n in r.calls("select_procedure") for x in subs(r.args(n)[1])]; sp=r.calls("select_procedure"); ck.floor("propose","negotiation",len(sp),1,r.body.span)
    exactly(ck,r,"propose","negotiated",[r.u.start],sp,r.exits(),"a protocol to open is not negotiated","a protocol is negotiated twice")
    cs=r.calls("client_select"); 
    if not cs:
        for b in ck.p.bodies.values():
            if b.qual.startswith(SES+"open_proto_stream::"):
                x=Root(ck,b,opaque=("fmt","client_select","open_stream"))
                cs+=x.calls("client_select")
    ck.floor("propose","proposal",len(cs),1,r.body.span)
    inf=[n for n in r.nodes("assign") if n.data[1][0]=="agg" and r.value(n)[0]=="agg" and last(r.value(n)[1])=="ProtocolInfo"]; ck.floor("propose","proposed protocol",len(inf),1,r.body.span)
    for n in inf:
        a=dict(r.value(n)[3]); ck.ob("propose","its name and versions",has(a["name"],P(2)) and name("support_versions")(a["support_versions"]) and has(a["support_versions"],P(2)) and has(a["support_versions"],name("protocol_configs_by_name")),r.loc(n),"what is proposed is %s"%show(r.value(n))[:120])
    h=ck.root(SES+"handle_session_event",assume=under(P(3),"ProtocolOpen"),opaque=OPQ+("close_session","close_all_proto","handle_substream","event_output","open_proto_stream"))
    op=h.calls("open_proto_stream"); ck.floor("propose","order to open",len(op),1,h.body.span)
    part3=lambda e: part(e,"proto_id",3)
    opened=ANYF(FALSE(CALL("contains_key",name("proto_streams"),part3)),IS(CALL("get",name("proto_streams"),part3),"None"))
    nopath(ck,"propose","only if not open",h,h.path(None,op,avoid_edge=h.edge(opened)),"a protocol that is already open is negotiated again")
    skip=ANYF(TRUE(CALL("contains_key",name("proto_streams"),part3)),IS(CALL("get",name("proto_streams"),part3),"Some"),lambda f: f[0]=="is" and f[2]==frozenset(["None"]) and has(f[1],name("protocol_configs_by_id")))
    exactly(ck,h,"propose","order to open",[h.u.start],op,h.exits(),"an order to open is ignored","an order to open is carried out twice",avoid_edge=h.edge(skip))
    for n in op: ck.ob("propose","order to open: which",has(h.args(n)[1],CALL("get",name("protocol_configs_by_id"),part3)),h.loc(n),"what is opened is %s"%show(h.args(n)[1])[:80])
    s=ck.root(SES+"handle_substream",opaque=("fmt","select_procedure","server_select"))
    ss=s.calls("server_select"); ck.floor("propose","answer",len(ss),1,s.body.span)
    exactly(ck,s,"propose","answered",[s.u.start],s.calls("select_procedure"),s.exits(),"a stream opened by the peer is not negotiated","a stream is negotiated twice")
    for n in ss:
        a=s.args(n); ck.ob("propose","answer on that stream",P(2)(a[0]),s.loc(n),"the stream negotiated is %s"%show(a[0])[:60])
        ck.ob("propose","answer from all protocols",has(a[1],name("protocol_configs_by_name")) and not any(x[0]=="call" and last(x[1]) in("filter","filter_map","skip","take","step_by","skip_while","take_while") for x in subs(a[1])),s.loc(n),"the protocols offered are %s"%show(a[1])[:80])
    inf=[n for n in s.nodes("assign") if n.data[1][0]=="agg" and s.value(n)[0]=="agg" and last(s.value(n)[1])=="ProtocolInfo"]; ck.floor("propose","offered protocol",len(inf),1,s.body.span)
    for n in inf:
        a=dict(s.value(n)[3]); ck.ob("propose","offered with its versions",name("support_versions")(a["support_versions"]) and has(a["support_versions"],name("protocol_configs_by_name")),s.loc(n),"what is offered is %s"%show(s.value(n))[:120])
RULES=[("choice",["molc"],choice),("talk",["molc","flatc"],talk),("outcome",["molc"],outcome),("propose",["molc"],propose),("handover",["molc"],c19.handover)]
