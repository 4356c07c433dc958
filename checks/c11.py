"""Path rules over the multiplexer session: ids are allocated by one function whose result and advance are checked, every admission lies behind its limits, every
refusal is answered, the three end-of-session flags are only ever raised and are tracked through the poll function, every ping and control request is answered."""
from ymx import *
from unfold import V
KB=lambda b: ("k",b)
from sec import core_of,names_of,okexit,under,retvals,KN
from svc import callers
CONFIGS=["molc"]
ASSUMES=["dropping the session drops the senders of its streams, which ends their channels (futures channel)","the clock used for the keepalive is monotonic"]
SC=lambda f: "tokio_yamux::session::Session::"+f
F=lambda f: fld("Session."+f)
first=lambda p: (lambda a: bool(a) and p(a[0]))
FLAGS=[{"eof":a,"local_go_away":b,"remote_go_away":c} for a in(False,True) for b in(False,True) for c in(False,True)]
nm=lambda fl: ",".join(k for k,v in sorted(fl.items()) if v) or "none set"
def ids(ck):
    for ty,v in(("Client",1),("Server",2)):
        r=ck.root(SC("new"),opaque=("interval","fmt"),assume=under(P(3),ty))
        ag=[n for n in r.aggs("session::Session") if r.u.by_node.get(n.id)]; ck.floor("ids","sessions built",len(ag),1,r.body.span)
        for n in ag:
            x=dict(strip_cast(r.agg_value(n))[3]); vs={strip_cast(y)[1] for y in alts(x["next_stream_id"])}
            ck.ob("ids","first id of a %s"%ty,vs=={v},r.loc(n),"a %s starts with stream id %s"%(ty,sorted(map(str,vs))))
            for k in("eof","remote_go_away","local_go_away"): ck.ob("ids","%s starts with %s unset"%(ty,k),K(False)(x[k]),r.loc(n),"a new session has %s set"%k)
    for f,ty in(("new_client","Client"),("new_server","Server")):
        r=ck.root(SC(f),opaque=("new","fmt")); c=r.calls("Session::new"); ck.floor("ids",f,len(c),1,r.body.span)
        for n in c: ck.ob("ids",f,VAR(ty)(r.args(n)[2]) and P(1)(r.args(n)[0]) and P(2)(r.args(n)[1]),r.loc(n),"%s builds another kind of session"%f)
    r=ck.root(SC("create_stream"),opaque=("send_window_update","fmt"))
    N=F("next_stream_id"); adv=r.writes("Session.next_stream_id"); ck.floor("ids","advances",len(adv),1,r.body.span)
    for n in adv: ck.ob("ids","advance by two",CALL("checked_add",N,KN(2))(core_of(r.value(n))),r.loc(n),"the next id becomes %s"%show(r.value(n))[:60])
    own=r.after_edges(r.edges_where(IS(P(2),"None"))); ck.floor("ids","local openings",len(own),1,r.body.span)
    hs=r.aggs("StreamHandle",None); ck.floor("ids","streams built",len(hs),1,r.body.span)
    p=r.path_from(own,set(r.states_of(hs)),avoid=adv); ck.ob("ids","each id once",p is None,r._where(p,0),"a stream is opened without advancing the id",r.trail(p))
    p=r.path(adv,adv); ck.ob("ids","one advance",p is None,r._where(p,0),"ids are skipped",r.trail(p))
    other=r.after_edges(r.edges_where(IS(P(2),"Some"))); p=r.path_from(other,set(r.states_of(adv))); ck.ob("ids","inbound streams use no id",p is None,r._where(p,0),"an inbound stream consumes a local id",r.trail(p))
    ex=r.after_edges(r.edges_where(IS(CALL("checked_add",N),"None"))); p=r.path_from(ex,r.exits(okexit)|set(r.states_of(hs))); ck.ob("ids","exhausted",p is None and bool(ex),r._where(p,0),"a stream is opened although the ids are exhausted",r.trail(p))
    idv=lambda e: all(N(x) or (core_of(x)==("p",2)) for x in alts(e)) and any(N(x) for x in alts(e)) and any(core_of(x)==("p",2) for x in alts(e))
    en=r.calls("entry",arg=first(F("streams"))); ck.floor("ids","table entries",len(en),1,r.body.span)
    for n in en: ck.ob("ids","key of the table",idv(r.args(n)[1]),r.loc(n),"the stream is entered under %s"%show(r.args(n)[1])[:60])
    for n in hs:
        x=dict(strip_cast(r.agg_value(n))[3])
        ck.ob("ids","id of the stream",idv(x["id"]),r.loc(n),"the stream gets id %s"%show(x["id"])[:60])
        fr=x["frame_receiver"]; ins=r.calls("VacantEntry::insert"); ck.floor("ids","senders kept",len(ins),1,r.body.span)
        for m in ins:
            s=r.args(m)[1]; ck.ob("ids","ends of one channel",core_of(s)==core_of(fr) and names_of(s)==["0"] and names_of(fr)==["1"],r.loc(m),"the stream and the table hold ends of different channels")
        ck.ob("ids","events of the stream",F("event_sender")(x["unbound_event_sender"]),r.loc(n),"the stream reports to %s"%show(x["unbound_event_sender"])[:40])
    live=r.after_edges(r.edges_where(IS(CALL("entry",F("streams")),"Occupied"))); p=r.path_from(live,r.exits(okexit)|set(r.states_of(hs))); ck.ob("ids","live id refused",p is None and bool(live),r._where(p,0),"a live id is given to a second stream",r.trail(p))
    for b,w in ck.writers("Session.next_stream_id"): ck.ob("ids","%s in %s"%(w,b.name),w=="agg" or b.key in r.g.analysed,b.span,"the next id is changed elsewhere")
    for n in r.calls("clone"): ck.ob("ids","sender not copied",not has(r.args(n)[0],CALL("channel")),r.loc(n),"the sender of a stream is copied, so the stream may not see the end of the session")
def opening(ck):
    r=ck.root(SC("open_stream"),opaque=("create_stream","fmt")); cs=r.calls("create_stream"); ck.floor("open","streams created",len(cs),1,r.body.span)
    for n in cs: ck.ob("open","own id",VAR("None")(r.args(n)[1]),r.loc(n),"a local stream is opened under %s"%show(r.args(n)[1])[:40])
    for k in("eof","remote_go_away"):
        p=r.path(None,cs,avoid_edge=r.edge(FALSE(F(k)))); ck.ob("open","refused when %s"%k,p is None,r._where(p,0),"a stream is opened on a session with %s"%k,r.trail(p))
    p=r.path(None,r.exits(okexit),avoid=cs); ck.ob("open","returns the stream",p is None,r._where(p,0),"open succeeds without a stream",r.trail(p))
    for fl in FLAGS:
        q=ck.root(SC("open_stream"),opaque=("create_stream","fmt"),track=list(fl),init={k:KB(v) for k,v in fl.items()}); cs=q.calls("create_stream")
        if fl["eof"] or fl["remote_go_away"]: p=q.path(None,q.exits(okexit)|set(q.states_of(cs))); ck.ob("open","refused: %s"%nm(fl),p is None,q._where(p,0),"a stream is opened on an ended session",q.trail(p))
        elif not fl["local_go_away"]: p=q.path(None,q.exits(),avoid=cs); ck.ob("open","possible",p is None,q._where(p,0),"opening is refused on a healthy session",q.trail(p))
    # the control handle
    r=ck.root(SC("control_poll"),opaque=("open_stream","shutdown","fmt"))
    cmd=lambda e: CALL("poll_next",F("control_receiver"))(core_of(e))
    for v,f in(("OpenStream","open_stream"),("Shutdown","shutdown")):
        st=r.after_edges(r.edges_where(IS(cmd,v))); ck.floor("open","%s requests"%v,len(st),1,r.body.span)
        act=r.calls(f); an=[n for n in r.calls("send") if cmd(r.args(n)[0])]
        p=r.path_from(st,r.exits(),avoid=act); ck.ob("open","%s acted upon"%v,p is None,r._where(p,0),"the request is ignored",r.trail(p))
        bad=r.edge(IS(CALL("shutdown"),"Err"))
        p=r.path_from(st,r.exits(),avoid=an,avoid_edge=bad); ck.ob("open","%s answered"%v,p is None,r._where(p,0),"the requester is not answered",r.trail(p))
        p=r.path_from(st,set(r.states_of(an)),avoid=act); ck.ob("open","%s answered afterwards"%v,p is None,r._where(p,0),"the answer precedes the action",r.trail(p))
        if v=="OpenStream":
            for n in an:
                if n in [m for m in an if has(r.args(m)[1],CALL("open_stream"))]: ck.ob("open","answer is the stream",CALL("open_stream")(r.args(n)[1]),r.loc(n),"the answer is %s"%show(r.args(n)[1])[:50])
            ck.floor("open","streams answered",len([n for n in an if CALL("open_stream")(r.args(n)[1])]),1,r.body.span)
    for fl in FLAGS:
        if fl["eof"] or fl["local_go_away"]: continue
        r=ck.root(SC("shutdown"),opaque=("send_go_away","send_go_away_with_code","fmt"),track=list(fl),init={k:KB(v) for k,v in fl.items()}); ga=r.calls("send_go_away","send_go_away_with_code")
        p=r.path(None,r.exits(okexit),avoid=ga); ck.ob("open","shutdown says go away: %s"%nm(fl),p is None,r._where(p,0),"shutting down tells the remote nothing",r.trail(p))
def rst(r,n,idp):
    """a reset for the id is queued or sent here"""
    a=r.args(n)[-1]
    for x in alts(a):
        h=header(strip_cast(x))
        if h and VAR("WindowUpdate")(h["ty"]) and idp(h["stream_id"]):
            fl=strip_cast(h["flags"]); v=dict(fl[3]).get("0") if fl[0]=="agg" else None
            if v is not None and (K(8)(v) or K(10)(v) or BIN("BitOr",anyx,K(8))(v)): return True
    return False
def inbound(ck):
    r=ck.root(SC("distribute_to_substream"),opaque=("send_frame","send_go_away_with_code","create_stream","fmt"))
    item=lambda e: core_of(e)[0]=="call" and last(core_of(e)[1]) in("next","pop_front") and has(core_of(e),F("read_pending_frames"))
    sid=lambda e: item(e) and names_of(e)[-1:]==["stream_id"]
    syn=CMP("==",BIN("BitAnd",lambda x: item(x) and "flags" in names_of(x),K(1)),K(1))
    nosyn=CMP("!=",BIN("BitAnd",lambda x: item(x) and "flags" in names_of(x),K(1)),K(1))
    cs=r.calls("create_stream"); ck.floor("inbound","streams accepted",len(cs),1,r.body.span)
    got=r.after_edges(r.edges_where(IS(lambda e: item(e) and names_of(e)==[],"Some"))); ck.floor("inbound","frames",len(got),1,r.body.span)
    for n in cs: ck.ob("inbound","the announced id",VAR("Some")(r.args(n)[1]) and sid(dict(strip_cast(r.args(n)[1])[3])["0"]),r.loc(n),"an inbound stream gets id %s"%show(r.args(n)[1])[:50])
    tgt=set(r.states_of(cs))
    live=TRUE(CALL("contains_key",F("streams"),sid))
    def need(f,inst,msg,also=()):
        p=r.path_from(got,tgt,avoid_edge=r.edge(ANYF(f,*also))); ck.ob("inbound",inst,p is None,r._where(p,0),msg,r.trail(p))
    need(syn,"only on SYN","a stream is accepted without SYN")
    need(FALSE(F("local_go_away")),"not after go-away","a stream is accepted after our go-away")
    need(CMP("<",LEN(F("streams")),lambda e: names_of(e)[-1:]==["max_stream_count"]),"stream limit","a stream is accepted beyond the configured number",(live,))
    need(CMP("<",LEN(F("pending_streams")),lambda e: names_of(e)[-1:]==["accept_backlog"]),"backlog limit","a stream is accepted beyond the backlog",(live,))
    again=set(r.states_of([n for n in r.calls("next","pop_front") if item(r.g.callval(n,0))]))
    rs=[n for n in r.calls("send_frame","push_back") if rst(r,n,sid)]; ck.floor("inbound","resets",len(rs),2,r.body.span)
    sy=r.after_edges(r.edges_where(syn)); ck.floor("inbound","openings",len(sy),1,r.body.span)
    err=r.edge(IS(lambda e: has(e,CALL(("send_frame","send_go_away_with_code"))),"Err"))
    p=r.path_from(sy,again|r.exits(okexit),avoid=rs+cs); ck.ob("inbound","every opening answered",p is None,r._where(p,0),"a refused stream is not reset",r.trail(p))
    p=r.path_from(got,set(r.states_of(rs)),avoid_edge=r.edge(syn)); ck.ob("inbound","only openings reset",p is None,r._where(p,0),"an open stream is reset",r.trail(p))
    ok=r.after_edges(r.edges_where(IS(CALL("create_stream"),"Ok"))); q=[n for n in r.calls("push_back",arg=first(F("pending_streams"))) if CALL("create_stream")(core_of(r.args(n)[1]))]
    p=r.path_from(ok,again|r.exits(),avoid=q); ck.ob("inbound","accepted stream queued",p is None and bool(ok),r._where(p,0),"an accepted stream is not handed to the application",r.trail(p))
    er=r.after_edges(r.edges_where(IS(CALL("create_stream"),"Err"))); ga=[n for n in r.calls("send_go_away_with_code") if VAR("ProtocolError")(r.args(n)[2])]
    p=r.path_from(er,again|r.exits(),avoid=ga); ck.ob("inbound","live id is a protocol error",p is None and bool(er),r._where(p,0),"reuse of a live id is not answered as a protocol error",r.trail(p))
    lv=r.after_edges(r.edges_where(live))
    if lv:
        p=r.path_from(lv,again|r.exits(),avoid=cs); ck.ob("inbound","live id refused",p is None,r._where(p,0),"reuse of a live id is accepted",r.trail(p))
    n=0
    for b in callers(ck,"Session::create_stream"):
        n+=1; ck.ob("inbound","opened by %s"%b.name,b.qual in(SC("open_stream"),SC("distribute_to_substream")) or b.qual.startswith((SC("open_stream"),SC("distribute_to_substream"))) or b.key in r.g.analysed,b.span,"streams are also created by %s, outside the limits"%b.name)
    ck.floor("inbound","creators",n,2)
    r=ck.root(POLL,opaque=("keep_alive","flush","control_poll","recv_frames","recv_events","poll_complete","fmt"))
    pp=r.calls("pop_front",arg=first(F("pending_streams"))); ck.floor("inbound","accept side",len(pp),1,r.body.span)
    st=r.after_edges(r.edges_where(IS(CALL("pop_front",F("pending_streams")),"Some")))
    bad=r.exits(lambda v: not(v and v[:2]==("v","Ready")))|set(r.states_of(pp))
    p=r.path_from(st,bad); ck.ob("inbound","handed out",p is None and bool(st),r._where(p,0),"an accepted stream is dropped",r.trail(p))
    ok=[x for x in retvals(r) if has(x,CALL("pop_front",F("pending_streams")))]; ck.floor("inbound","streams returned",len(ok),1,r.body.span)
def pings(ck):
    r=ck.root(SC("recv_frames"),opaque=("send_all","handle_go_away","handle_stream_message","fmt"))
    fr=lambda e: CALL("poll_next",F("framed_stream"))(core_of(e))
    bit=lambda b: CMP("==",BIN("BitAnd",lambda x: fr(x) and "flags" in names_of(x),K(b)),K(b))
    ln=lambda e: fr(e) and names_of(e)[-1:]==["length"]
    pf=[]
    for n in r.calls("push_back",arg=first(F("write_pending_frames"))):
        for x in alts(r.args(n)[1]):
            h=header(strip_cast(x))
            if h and VAR("Ping")(h["ty"]): pf.append((n,h))
    ck.floor("ping","pings sent",len(pf),1,r.body.span)
    ty=r.after_edges(r.edges_where(IS(lambda e: fr(e) and names_of(e)[-1:]==["ty"],"Ping"))); ck.floor("ping","pings received",len(ty),1,r.body.span)
    for n,h in pf:
        fl=strip_cast(h["flags"]); v=dict(fl[3]).get("0") if fl[0]=="agg" else fl
        ck.ob("ping","answer carries ACK",K(2)(v),r.loc(n),"a ping is answered with flags %s"%show(v)[:40]); ck.ob("ping","answer carries the id",ln(h["length"]),r.loc(n),"a ping is answered with id %s"%show(h["length"])[:60])
    ns=[n for n,_ in pf]
    st=r.after_edges(r.edges_where(bit(1))); st=[s for s in st]
    p=r.path_from(ty,r.exits(),avoid=ns,avoid_edge=r.edge(CMP("!=",BIN("BitAnd",lambda x: fr(x) and "flags" in names_of(x),K(1)),K(1)))); ck.ob("ping","answered",p is None,r._where(p,0),"a ping is not answered",r.trail(p))
    p=r.path(None,ns,avoid_edge=r.edge(bit(1))); ck.ob("ping","only pings answered",p is None,r._where(p,0),"an answer is answered",r.trail(p))
    p=r.path(ns,ns); ck.ob("ping","answered once",p is None,r._where(p,0),"a ping is answered twice",r.trail(p))
    rm=[n for n in r.calls("remove",arg=first(F("pings")))]; ack=r.after_edges(r.edges_where(bit(2)))
    for n in rm: ck.ob("ping","the acknowledged one",ln(r.args(n)[1]),r.loc(n),"another ping is taken as answered")
    p=r.path_from([s for s in ty],r.exits(),avoid=rm+ns,avoid_edge=r.edge(CMP("!=",BIN("BitAnd",lambda x: fr(x) and "flags" in names_of(x),K(2)),K(2)))); ck.ob("ping","acknowledgement removes it",p is None and bool(ack),r._where(p,0),"an acknowledged ping stays outstanding",r.trail(p))
    for n in r.calls("clear","retain","pop_first","insert",arg=first(F("pings"))): ck.ob("ping","nothing else changes",False,r.loc(n),"outstanding pings are forgotten by a received frame")
    for n in r.calls("split_off",arg=first(F("pings"))): ck.ob("ping","older ones forgotten",ln(r.args(n)[1]),r.loc(n),"pings are forgotten from %s on"%show(r.args(n)[1])[:50])
    for n in r.writes("Session.pings"): ck.ob("ping","newer ones kept",CALL("split_off",F("pings"),ln)(r.value(n)),r.loc(n),"the outstanding pings become %s"%show(r.value(n))[:50])
    # keepalive
    k=ck.root(SC("keep_alive"),opaque=("send_frame","fmt"))
    sf=k.calls("send_frame"); ck.floor("keepalive","pings sent",len(sf),1,k.body.span)
    ins=k.calls("insert",arg=first(F("pings"))); ck.floor("keepalive","pings remembered",len(ins),1,k.body.span)
    old=[n for n in k.calls("any","all","find","filter","position","next","first_key_value","values","iter") if has(k.g.callval(n,0),F("pings"))]; ck.floor("keepalive","pings looked at",len(old),1,k.body.span)
    tm=[n for n in k.calls("from","into","new") if any(VAR("TimedOut")(a) for a in k.args(n)[:1])]; ck.floor("keepalive","timeouts",len(tm),1,k.body.span)
    p=k.path(None,sf,avoid=old); ck.ob("keepalive","outstanding pings looked at",p is None,k._where(p,0),"a new ping is sent without looking at unanswered ones",k.trail(p))
    EL=CALL(("elapsed","duration_since","saturating_duration_since"))
    anyc=TRUE(lambda e: CALL("any",HAS(F("pings")))(e) or (strip_cast(e)[0]=="call" and last(strip_cast(e)[1])=="any" and has(e,F("pings"))))
    st=k.after_edges(k.edges_where(ANYF(anyc,IS(lambda e: has(e,F("pings")) and CALL(("find","find_map","position"))(core_of(e)),"Some"),TRUE(CALL(("gt","ge"),HAS(EL))),TRUE(CALL(("lt","le"),anyx,HAS(EL))),CMP("<=",anyx,HAS(EL)))))
    lt=late_cmp(ck,k); ck.ob("keepalive","late means longer than the timeout",lt,k.body.span,"no comparison of a ping's age with the timeout decides")
    if st:
        p=k.path_from(st,set(k.states_of(sf))|k.exits(okexit)); ck.ob("keepalive","late ends the session",p is None,k._where(p,0),"a late ping does not end the session",k.trail(p))
    ck.ob("keepalive","late is noticed",bool(st),k.body.span,"no branch on a late ping")
    p=k.path(None,tm,avoid_edge=k.edge(anyc)) if st and k.edges_where(anyc) else None; ck.ob("keepalive","only when late",p is None,k._where(p,0),"the session times out although no ping is late",k.trail(p))
    p=k.path(sf,k.exits(okexit),avoid=ins); ck.ob("keepalive","ping remembered",p is None,k._where(p,0),"a ping is sent and not remembered",k.trail(p))
    for n in ins:
        for m in sf:
            h=header(strip_cast(k.args(m)[-1]))
            ck.ob("keepalive","ping with SYN",h is not None and VAR("Ping")(h["ty"]) and K(1)(dict(strip_cast(h["flags"])[3]).get("0",("x",))),k.loc(m),"the keepalive sends something else")
            if h: ck.ob("keepalive","same id",same_id(h["length"],k.args(n)[1]),k.loc(n),"ping %s is remembered as %s"%(show(h["length"])[:40],show(k.args(n)[1])[:60]))
        ck.ob("keepalive","time of the ping",P(3)(k.args(n)[2]) or has(k.args(n)[2],CALL("now")),k.loc(n),"the ping is remembered with time %s"%show(k.args(n)[2])[:40])
    w=k.writes("Session.ping_id"); p=k.path(None,sf,avoid=w); ck.ob("keepalive","fresh id",p is None and all(core_of(k.value(n))[0]=="call" and has(k.value(n),F("ping_id")) and has(k.value(n),K(1)) or SUM([F("ping_id"),K(1)])(k.value(n)) for n in w),k._where(p,0),"two pings share an id",k.trail(p))
def same_id(a,b):
    f=lambda e: [x for x in alts(e)]
    strip=lambda e: core_of(e)
    A=f(a); B=f(b)
    if strip_cast(a)==strip_cast(b): return True
    # the id comes back as the payload of the send's result
    return all(strip_cast(x) in [strip_cast(y) for y in A] or has(x,lambda e: strip_cast(e)==strip_cast(a)) or (x[0]!="c" and CALL(("map","send_frame","and"))(core_of(x))) for x in B)
def late_cmp(ck,k):
    for b in ck.p.bodies.values():
        if not b.qual.startswith(SC("keep_alive")): continue
        r=ck.root(b,opaque=("send_frame","fmt"),depth=2)
        for n in r.nodes():
            if n.kind=="call" and last(r.g.qual(n)) in("gt","ge","lt","le","cmp","partial_cmp"):
                a=r.args(n); e=lambda x: has(x,CALL(("elapsed","duration_since","saturating_duration_since")))
                nm=last(r.g.qual(n))
                if len(a)==2 and (nm in("gt","ge") and e(a[0]) and not e(a[1]) or nm in("lt","le") and e(a[1]) and not e(a[0])): return True
    return False
def goaway(ck):
    r=ck.root(SC("send_go_away_with_code"),opaque=("send_frame","interval","fmt"))
    sf=[n for n in r.calls("send_frame") if (header(strip_cast(r.args(n)[-1])) or {}).get("ty") is not None and VAR("GoAway")(header(strip_cast(r.args(n)[-1]))["ty"])]; ck.floor("go-away","frames sent",len(sf),1,r.body.span)
    for n in sf: ck.ob("go-away","the code",has(header(strip_cast(r.args(n)[-1]))["length"],P(3)),r.loc(n),"go-away is sent with another code")
    lw=[n for n in r.writes("Session.local_go_away") if K(True)(r.value(n))]; kw=[n for n in r.writes("Session.keepalive") if VAR("Some")(r.value(n)) and has(r.value(n),CALL("interval")) and has(r.value(n),lambda e: names_of(e)[-1:]==["connection_write_timeout"])]
    for what,ns in(("sent",sf),("remembered",lw),("bounded by a timer",kw)):
        p=r.path(None,r.exits(okexit),avoid=ns); ck.ob("go-away",what,p is None,r._where(p,0),"go-away is not %s"%what,r.trail(p))
    r=ck.root(SC("recv_frames"),opaque=("send_all","handle_ping","handle_stream_message","send_go_away","send_go_away_with_code","fmt"))
    fr=lambda e: CALL("poll_next",F("framed_stream"))(core_of(e))
    st=r.after_edges(r.edges_where(IS(lambda e: fr(e) and names_of(e)[-1:]==["ty"],"GoAway"))); ck.floor("go-away","received",len(st),1,r.body.span)
    rw=[n for n in r.writes("Session.remote_go_away") if K(True)(r.value(n))]
    p=r.path_from(st,r.exits(),avoid=rw); ck.ob("go-away","remote's is remembered",p is None,r._where(p,0),"a go-away is ignored",r.trail(p))
    sg=r.calls("send_go_away","send_go_away_with_code"); p=r.path_from(st,r.exits(),avoid=sg,avoid_edge=r.edge(TRUE(F("local_go_away")))); ck.ob("go-away","remote's is answered",p is None,r._where(p,0),"a go-away is not answered, so the session never ends",r.trail(p))
    p=r.path(None,rw,avoid_edge=r.edge(IS(lambda e: fr(e) and names_of(e)[-1:]==["ty"],"GoAway"))); ck.ob("go-away","only go-away frames",p is None,r._where(p,0),"another frame counts as go-away",r.trail(p))
    ew=[n for n in r.writes("Session.eof") if K(True)(r.value(n))]
    en=r.after_edges(r.edges_where(IS(lambda e: fr(e) and names_of(e)==[],"None"))); p=r.path_from(en,r.exits(),avoid=ew); ck.ob("go-away","end of the connection",p is None and bool(en),r._where(p,0),"the end of the connection is not noticed",r.trail(p))
    p=r.path(None,ew,avoid_edge=r.edge(IS(fr,"None"))); ck.ob("go-away","only the end of the connection",p is None,r._where(p,0),"the session ends although the connection is open",r.trail(p))
    for k in("eof","remote_go_away","local_go_away"):
        w=0
        for b,what in ck.writers("Session."+k):
            if what=="agg": continue
            q=ck.root(b,depth=1)
            for n in q.writes("Session."+k): w+=1; ck.ob("go-away","%s only raised in %s"%(k,b.name),K(True)(q.value(n)),q.loc(n),"%s is reset, so a dead session comes back"%k)
            ck.ob("go-away","%s not lent in %s"%(k,b.name),what=="write",b.span,"%s is lent mutably"%k)
        ck.floor("go-away","places raising %s"%k,w,1)
def ending(ck):
    none=lambda v: v and v[:2]==("v","Ready") and Unfolded.sub(v,"0") is not None and Unfolded.sub(v,"0")[1]=="None"
    OP=("keep_alive","flush","control_poll","recv_frames","recv_events","poll_complete","fmt")
    for fl in FLAGS:
        r=ck.root(POLL,opaque=OP,track=list(fl),init={k:KB(v) for k,v in fl.items()})
        if fl["eof"] or fl["remote_go_away"] and fl["local_go_away"]:
            bad=r.exits(lambda v: not none(v))|set(r.states_of(r.calls(*OP))); p=r.path(None,bad); ck.ob("ending","none when ended: %s"%nm(fl),p is None,r._where(p,0),"a session that ended goes on",r.trail(p))
        else:
            work=[n for n in r.calls(*OP)]+r.writes("Session.remote_go_away"); p=r.path(None,r.exits(none),avoid=work); ck.ob("ending","goes on otherwise: %s"%nm(fl),p is None,r._where(p,0),"a living session ends",r.trail(p))
    r=ck.root(POLL,opaque=OP)
    flags=lambda e: all(F("eof")(x) or F("remote_go_away")(x) or F("local_go_away")(x) or strip_cast(x)[0]=="c" for x in alts(e))
    p=r.path(None,r.exits(none),avoid_edge=r.edge(ANYF(TRUE(flags),TRUE(F("remote_go_away"))))); ck.ob("ending","only a dead session ends",p is None,r._where(p,0),"a living session ends",r.trail(p))
    # errors are reported, not swallowed
    for f in OP[:-1]:
        st=r.after_edges(r.edges_where((lambda g: g[0] in("is","isq") and CALL(f)(core_of(g[1])) and set(g[2])&{"Err","Break"} and not set(g[2])&{"Ok","Continue"})))
        if not st and not r.calls(f): continue
        p=r.path_from(st,r.exits(lambda v: not(v and v[:2]==("v","Ready") and not none(v)))); ck.ob("ending","errors of %s reported"%f,p is None and bool(st),r._where(p,0),"an error of %s is swallowed"%f,r.trail(p))
    tick=r.after_edges(r.edges_where(IS(lambda e: CALL("poll_next",HAS(F("keepalive")))(core_of(e)) ,"Some"))); ck.floor("ending","keepalive ticks",len(tick),1,r.body.span)
    ka=r.calls("keep_alive"); ck.floor("ending","keepalives",len(ka),1,r.body.span)
    rw=[n for n in r.writes("Session.remote_go_away") if K(True)(r.value(n))]
    work=set(r.states_of(r.calls("flush","recv_frames")))
    p=r.path_from(tick,r.exits()|work,avoid=ka+rw); ck.ob("ending","tick acted upon",p is None,r._where(p,0),"a keepalive tick does nothing",r.trail(p))
    p=r.path(None,ka,avoid_edge=r.edge(FALSE(F("local_go_away")))); ck.ob("ending","go-away not held up",p is None,r._where(p,0),"after our go-away the session still pings instead of ending",r.trail(p))
    p=r.path(None,rw,avoid_edge=r.edge(TRUE(F("local_go_away")))); ck.ob("ending","given up only after go-away",p is None,r._where(p,0),"a tick ends a session that did not go away",r.trail(p))
    # the accept side is served before waiting, and every source is polled
    pend=r.exits(lambda v: v and v[:2]==("v","Pending"))
    for f in("control_poll","recv_frames","recv_events","flush"):
        p=r.path(None,pend,avoid=r.calls(f),avoid_edge=over(r)); ck.ob("ending","%s polled"%f,p is None,r._where(p,0),"the session sleeps without polling %s"%f,r.trail(p))
def over(r): return r.edge(lambda f: f[0]=="is" and "None" in f[2] and has(f[1],CALL("next")) and has(f[1],AGG("Range")))
RULES=[(n,["molc"],f) for n,f in(("ids",ids),("opening",opening),("inbound",inbound),("pings",pings),("goaway",goaway),("ending",ending))]
