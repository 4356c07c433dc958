"""Conservation rules: every item taken from a queue reaches, on every path, the hand-over of that very item, the queue it came from at the place it had,
or an allowed end (stream gone, session dead, error). Order: a stream once refused is held for the rest of the round. The read buffer is replaced only when empty and copied out exactly."""
from ymx import *
from sec import core_of,names_of,okexit,retvals
CONFIGS=["molc"]
ASSUMES=["VecDeque and the futures channel are FIFO; Framed and the transport below deliver bytes in order (C03, C09)"]
RP=fld("Session.read_pending_frames"); WP=fld("Session.write_pending_frames")
DT="tokio_yamux::session::Session::distribute_to_substream"
INERT=("send_frame","send_go_away_with_code","create_stream","fmt")
ITEM=("next","pop_front","pop")
def first(p): return lambda a: bool(a) and p(a[0])
def distribute(ck):
    r=ck.root(DT,opaque=INERT)
    taken=r.calls("replace","take","swap","split_off","drain",arg=first(RP))+[n for n in r.calls("pop_front") if RP(r.args(n)[0])]
    ck.floor("deliver","queue taken",len(taken),1,r.body.span)
    src=lambda e: has(e,lambda x: x[0]=="call" and last(x[1]) in("replace","take","drain","split_off","pop_front") and RP(x[2][0])) or has(e,CALL("pop_front",RP))
    got=[e for e in r.edges_where(IS(lambda e: strip_cast(e)[0]=="call" and last(strip_cast(e)[1]) in ITEM and src(e),"Some"))]
    ck.floor("deliver","frames taken one by one",len(got),1,r.body.span)
    acq=[n for n in r.calls(*ITEM) if src(r.g.callval(n,0))]
    for n in acq: ck.ob("deliver","in order",not has(r.g.callval(n,0),CALL(("rev","pop_back","next_back","skip","filter"))),r.loc(n),"frames are taken out of order: %s"%show(r.g.callval(n,0))[:80])
    item=lambda e: core_of(e)[0]=="call" and last(core_of(e)[1]) in ITEM and src(core_of(e))
    frame=lambda e: (item(e) and names_of(e)==[]) or CALL("into_inner",lambda x: has(x,CALL("try_send",any_,frame0)))(strip_cast(e))
    any_=lambda e: True
    frame0=lambda e: item(e) and names_of(e)==[]
    sid=lambda e: item(e) and names_of(e)[-1:]==["stream_id"]
    send=r.calls("try_send","start_send"); ck.floor("deliver","hand-overs",len(send),1,r.body.span)
    back=[n for n in r.calls("push_back",arg=first(RP))]; ck.floor("deliver","frames kept",len(back),2,r.body.span)
    for n in send: ck.ob("deliver","hands over the frame",frame0(r.args(n)[1]),r.loc(n),"a stream is given %s"%show(r.args(n)[1])[:60])
    for n in back: ck.ob("deliver","keeps the frame",frame(r.args(n)[1]),r.loc(n),"%s is kept instead of the frame"%show(r.args(n)[1])[:60])
    for n in r.calls("push_front","insert","extend","append",arg=first(RP)): ck.ob("deliver","kept at the end",False,r.loc(n),"a frame of the queue changes its place")
    # which stream
    gm=r.calls("get_mut","get","entry",arg=first(fld("Session.streams"))); ck.floor("deliver","streams looked up",len(gm),1,r.body.span)
    for n in gm: ck.ob("deliver","its own stream",sid(r.args(n)[1]),r.loc(n),"a frame is given to stream %s"%show(r.args(n)[1])[:60])
    for n in send: ck.ob("deliver","through the table",has(r.args(n)[0],fld("Session.streams")),r.loc(n),"a frame is handed to %s"%show(r.args(n)[0])[:60])
    # nothing is lost
    st=r.after_edges(got); end=r.exits(okexit)|set(r.states_of(acq))
    gone=ANYF(IS(fld("Session.streams"),"None"),IS(CALL(("get_mut","get"),fld("Session.streams")),"None"),IS(lambda e: CALL("poll_ready")(core_of(e)),"Err"))
    syn=CMP("==",lambda e: BIN("BitAnd",lambda x: item(x) and "flags" in names_of(x),K(1))(e),K(1))
    refused=r.after_edges(r.edges_where(IS(CALL("create_stream"),"Err")))+r.after_edges(r.edges_where(TRUE(fld("Session.local_go_away"))))
    rs=set(refused)
    p=r.path_from([s for s in st],end,avoid=send+back,avoid_edge=r.edge(ANYF(gone,IS(CALL("create_stream"),"Err"),TRUE(fld("Session.local_go_away")))))
    ck.ob("deliver","nothing lost",p is None,r._where(p,0),"a frame can leave the queue without reaching its stream",r.trail(p))
    # a frame dropped because its stream was refused carries SYN
    for f in(IS(CALL("create_stream"),"Err"),TRUE(fld("Session.local_go_away"))):
        es=r.edges_where(f)
        p=None
        for e in es:
            q=r.path_from(st,set(r.after_edges([e])),avoid=send+back,avoid_edge=r.edge(syn)); p=p or q
        ck.ob("deliver","only opening frames refused",p is None,r._where(p,0),"a frame of an open stream is dropped as if it opened one",r.trail(p))
    # frames behind stay in the loop: leaving before the last frame loses them
    p=r.path_from(st,r.exits(okexit),avoid=acq); ck.ob("deliver","all frames visited",p is None,r._where(p,0),"the round ends with frames still undelivered",r.trail(p))
    # full means kept, and the stream held for the round
    full=r.after_edges(r.edges_where(ANYF(TRUE(CALL("is_full")),IS(CALL("poll_ready"),"Pending"))))
    ck.floor("deliver","full channels noticed",len(full),1,r.body.span)
    p=r.path_from(full,end,avoid=back); ck.ob("deliver","full keeps the frame",p is None,r._where(p,0),"a frame for a full stream is dropped",r.trail(p))
    isset=lambda e: has(e,CALL(("HashSet::new","HashSet::default","BTreeSet::new","HashSet::with_capacity")))
    ins=[n for n in r.calls("insert") if isset(r.args(n)[0]) and sid(r.args(n)[1])]
    con=[n for n in r.calls("contains") if isset(r.args(n)[0]) and sid(r.args(n)[1])]
    ck.floor("deliver","held streams",len(ins),1,r.body.span); ck.floor("deliver","held streams consulted",len(con),1,r.body.span)
    p=r.path_from(full,set(r.states_of(acq)),avoid=ins); ck.ob("deliver","full holds the stream",p is None,r._where(p,0),"later frames of a full stream can overtake",r.trail(p))
    p=r.path_from(st,set(r.states_of(send)),avoid_edge=r.edge(FALSE(CALL("contains",isset,sid)))); ck.ob("deliver","held streams wait",p is None,r._where(p,0),"a frame is handed over although an earlier one of its stream waits",r.trail(p))
    h=r.after_edges(r.edges_where(TRUE(CALL("contains",isset,sid)))); p=r.path_from(h,end,avoid=back); ck.ob("deliver","held frames kept",p is None,r._where(p,0),"a frame behind a waiting one is dropped",r.trail(p))
    p=None
    for n in send+back: p=p or r.path([n],set(r.states_of([x for x in send+back])),avoid=acq,avoid_edge=r.edge(TRUE(CALL("is_full"))))
    ck.ob("deliver","once",p is None,r._where(p,0),"a frame is delivered twice",r.trail(p))
def incoming(ck):
    r=ck.root("tokio_yamux::session::Session::recv_frames",opaque=("distribute_to_substream","handle_ping","handle_go_away","fmt"))
    sock=lambda e: CALL("poll_next",fld("Session.framed_stream"))(core_of(e))
    pb=r.calls("push_back",arg=first(RP)); ck.floor("incoming","frames queued",len(pb),1,r.body.span)
    for n in pb: ck.ob("incoming","the frame itself",sock(r.args(n)[1]) and names_of(r.args(n)[1])==[],r.loc(n),"%s is queued"%show(r.args(n)[1])[:60])
    fr=r.after_edges(r.edges_where(IS(lambda e: sock(e) and names_of(e)[-1:]==["ty"],"Data")))+r.after_edges(r.edges_where(IS(lambda e: sock(e) and names_of(e)[-1:]==["ty"],"WindowUpdate")))
    ck.floor("incoming","frame types told apart",len(fr),2,r.body.span)
    p=r.path_from(fr,r.exits(),avoid=pb); ck.ob("incoming","queued",p is None,r._where(p,0),"a received frame is dropped",r.trail(p))
    p=r.path(pb,set(r.states_of(pb))); ck.ob("incoming","queued once",p is None,r._where(p,0),"a frame is queued twice",r.trail(p))
    for b,what in ck.writers("Session.read_pending_frames"):
        if what!="agg" and not b.qual.startswith("tokio_yamux::session::Session::distribute_to_substream"):
            q=ck.root(b,depth=1,opaque=INERT+("distribute_to_substream","send_all"))
            bad=q.calls("clear","pop_front","pop_back","truncate","drain","retain","remove","push_front","insert",arg=first(RP))+q.writes("Session.read_pending_frames")
            ck.ob("incoming","queue only grows in %s"%b.name,not bad,q.loc(bad[0]) if bad else b.span,"received frames are removed outside the delivery")
def outgoing(ck):
    r=ck.root("tokio_yamux::session::Session::send_all",opaque=("fmt",))
    pop=r.calls("pop_front",arg=first(WP)); ck.floor("outgoing","frames taken",len(pop),1,r.body.span)
    it=lambda e: CALL("pop_front",WP)(core_of(e)) and names_of(e)==[]
    snd=r.calls("start_send"); pf=r.calls("push_front",arg=first(WP)); ck.floor("outgoing","frames sent",len(snd),1,r.body.span)
    for n in snd+pf: ck.ob("outgoing","the frame taken: "+last(r.g.qual(n)),it(r.args(n)[1]),r.loc(n),"%s is sent or kept"%show(r.args(n)[1])[:60])
    for n in r.calls("push_back","pop_back","insert","remove","clear","truncate","drain","swap",arg=first(WP)): ck.ob("outgoing","order",False,r.loc(n),"outgoing frames change their order")
    st=r.after_edges(r.edges_where(IS(CALL("pop_front",WP),"Some")))
    dead=ANYF(TRUE(fld("Session.eof")),TRUE(fld("Session.local_go_away")),TRUE(fld("Session.remote_go_away")))
    isdead=lambda e: strip_cast(e)
    p=r.path_from(st,r.exits(okexit)|set(r.states_of(pop)),avoid=snd+pf,avoid_edge=r.edge(ANYF(TRUE(fld("Session.eof")),TRUE(lambda e: fld("Session.eof")(e) or all(K(True)(x) or fld("Session.eof")(x) for x in alts(e))))))
    ck.ob("outgoing","nothing lost",p is None,r._where(p,0),"a frame is dropped although the session lives",r.trail(p))
    p=None
    for n in snd+pf: p=p or r.path([n],set(r.states_of(snd+pf)),avoid=pop)
    ck.ob("outgoing","once",p is None,r._where(p,0),"a frame is sent twice",r.trail(p))
    p=r.path(None,snd,avoid_edge=r.edge(ANYF(IS(lambda e: has(e,CALL("poll_ready")),"Ready")))); ck.ob("outgoing","only when ready",p is None,r._where(p,0),"a frame is sent to a sink that is not ready",r.trail(p))
    # who touches the queue
    k=0
    for b,what in ck.writers("Session.write_pending_frames"):
        if what=="agg" or b.name=="send_all": continue
        q=ck.root(b,depth=1,opaque=("send_all","distribute_to_substream","fmt","create_stream","send_window_update"))
        bad=q.calls("pop_front","pop_back","push_front","truncate","drain","retain","insert","remove","swap",arg=first(WP))+[w for w in q.writes("Session.write_pending_frames")]
        ck.ob("outgoing","appended in %s"%b.name,not bad,q.loc(bad[0]) if bad else b.span,"outgoing frames are reordered or removed"); k+=1
        for n in q.calls("clear",arg=first(WP)):
            # frames are given up only for the frame that ends the session, or when it has ended on both sides
            ga=[m for m in q.calls("push_back",arg=first(WP)) if has(q.args(m)[1],OR(VAR("GoAway"),CALL("new_go_away")))]+[m for m in q.calls("send_go_away","send_go_away_with_code")]+[m for m in q.calls("send_frame") if has(q.args(m)[-1],OR(VAR("GoAway"),CALL("new_go_away")))]
            other=[m for m in q.calls("push_back",arg=first(WP)) if m not in ga]
            p=q.path([n],q.exits(okexit)|set(q.states_of(other)),avoid=ga,avoid_edge=q.edge(TRUE(fld("Session.local_go_away"))))
            ck.ob("outgoing","given up only to go away, %s"%b.name,p is None,q.loc(n),"queued frames are thrown away and the session goes on",q.trail(p))
    ck.floor("outgoing","places appending",k,2)
    e=ck.root("tokio_yamux::session::Session::recv_events",opaque=("send_all","fmt","send_go_away_with_code"))
    pb=e.calls("push_back",arg=first(WP)); ck.floor("outgoing","stream frames queued",len(pb),1,e.body.span)
    ev=lambda x: CALL("poll_next",fld("Session.event_receiver"))(core_of(x))
    for n in pb: ck.ob("outgoing","the stream's frame",ev(e.args(n)[1]),e.loc(n),"%s is queued"%show(e.args(n)[1])[:60])
    p=e.path_from(e.after_edges(e.edges_where(IS(ev,"Frame"))),e.exits(),avoid=pb); ck.ob("outgoing","stream frames queued",p is None,e._where(p,0),"a frame of a stream is dropped",e.trail(p))
def reading(ck):
    r=ck.root(READ,opaque=("fmt",))
    B=fld("StreamHandle.read_buf"); empty=r.edge(CMP("==",LEN(B),K(0)))
    st=r.writes("StreamHandle.read_buf"); ck.floor("read","buffer filled",len(st),1,r.body.span)
    rcv=lambda e: CALL("poll_next",fld("StreamHandle.frame_receiver"))(core_of(e))
    for n in st: ck.ob("read","filled from the frame",rcv(r.value(n)) and names_of(r.value(n))==["body"],r.loc(n),"the read buffer becomes %s"%show(r.value(n))[:60])
    p=r.path(None,st,avoid_edge=empty); ck.ob("read","never overwritten",p is None,r._where(p,0),"unread bytes are overwritten",r.trail(p))
    p=r.path(st,set(r.states_of(st)),avoid_edge=empty); ck.ob("read","never overwritten again",p is None,r._where(p,0),"unread bytes are overwritten by a second frame",r.trail(p))
    polls=[n for n in r.calls("poll_next") if fld("StreamHandle.frame_receiver")(r.args(n)[0])]
    data=r.after_edges(r.edges_where(IS(lambda e: rcv(e) and names_of(e)==["body"],"Some"))); ck.floor("read","bodies recognised",len(data),1,r.body.span)
    p=r.path_from(data,r.exits()|set(r.states_of(polls)),avoid=st); ck.ob("read","body kept",p is None,r._where(p,0),"the body of a data frame is dropped",r.trail(p))
    tk=[n for n in r.calls("split_to","split_off","advance","take","clear","truncate","copy_to_slice","copy_to_bytes","get_u8") if B(r.args(n)[0])]
    mn=lambda e: strip_cast(e)[0]=="min" and any(LEN(B)(x) for x in strip_cast(e)[1:]) and any(LEN(P(3))(x) for x in strip_cast(e)[1:])
    ck.floor("read","bytes taken",len(tk),1,r.body.span)
    cp=r.calls("copy_from_slice","clone_from_slice")+[n for n in tk if last(r.g.qual(n))=="copy_to_slice"]
    for n in tk:
        q=last(r.g.qual(n)); ck.ob("read","taken from the front",q in("split_to","advance") and mn(r.args(n)[1]) or q=="copy_to_slice",r.loc(n),"%s takes %s from the read buffer"%(q,[show(a)[:40] for a in r.args(n)[1:]]))
        p=r.path([n],set(r.states_of(tk))); ck.ob("read","taken once",p is None,r.loc(n),"bytes are taken twice for one read",r.trail(p))
    for n in cp:
        a=r.args(n); d=strip_cast(a[0])
        if last(r.g.qual(n))=="copy_to_slice": d=strip_cast(a[1])
        okd=CALL(("index_mut","index"),P(3),lambda x: x[0]=="agg" and mn(dict(x[3]).get("end",("?",))) and ("start" not in dict(x[3]) or K(0)(dict(x[3])["start"])))(d)
        oks=last(r.g.qual(n))=="copy_to_slice" or CALL("split_to",B,mn)(a[1]) or (has(a[1],B) and not has(a[1],lambda x: x[0]=="agg" and "start" in dict(x[3]) and not K(0)(dict(x[3])["start"])))
        ck.ob("read","copied to the caller",okd and oks,r.loc(n),"%s is copied to %s"%(show(a[1])[:60],show(d)[:60]))
    okx=[n for n in r.nodes("assign") if n.ctx==0 and n.data[1][0]=="agg" and n.data[1][3]=="Ok"]
    for n in okx:
        v=dict(r.value(n)[3]).get("0")
        if K(0)(v):
            p=r.path(None,[n],avoid_edge=r.edge(ANYF(CMP("==",mn,K(0)),CMP("==",LEN(P(3)),K(0))))); ck.ob("read","zero only without room",p is None,r.loc(n),"a read reports no bytes (end of stream) while there are some",r.trail(p)); continue
        ck.ob("read","reported count",mn(v),r.loc(n),"a read reports %s bytes"%show(v)[:60])
        p=r.path(None,[n],avoid=cp); ck.ob("read","reported bytes copied",p is None,r.loc(n),"a read reports bytes it did not copy",r.trail(p))
        p=r.path(None,[n],avoid=tk); ck.ob("read","reported bytes taken",p is None,r.loc(n),"a read reports bytes it leaves in the buffer",r.trail(p))
    # bytes received before a close are still readable: an end is reported only with an empty buffer
    ends=[n for n in r.nodes() if n.kind=="assign" and n.data[1][0]=="agg" and n.data[1][3] in("UnexpectedEof","ConnectionReset")]+[n for n in r.calls("into","from") if has(r.args(n)[0],OR(VAR("UnexpectedEof"),VAR("ConnectionReset")))]
    ck.floor("read","ends reported",len(ends),2,r.body.span)
    for n in ends:
        p=r.path(None,[n],avoid_edge=empty); ck.ob("read","end only when drained",p is None,r.loc(n),"an end is reported while bytes are unread",r.trail(p))
        p=r.path(st,[n],avoid_edge=empty); ck.ob("read","end only when drained, after a frame",p is None,r.loc(n),"an end is reported while bytes are unread",r.trail(p))
    # a data frame carries what was written (lengths: C07)
    w=ck.root(WRITE,opaque=("fmt",))
    for n,h in sends(w,"Data"): ck.ob("write","own stream id",fld("StreamHandle.id")(h["stream_id"]),w.loc(n),"data is sent for stream %s"%show(h["stream_id"])[:40])
    ws=[n for n,h in sends(w,"Data")]; ck.floor("write","data frames",len(ws),1,w.body.span)
    p=w.path(ws,set(w.states_of(ws))); ck.ob("write","sent once",p is None,w.body.span,"the bytes of one write are sent twice",w.trail(p))
RULES=[("deliver",["molc"],distribute),("incoming",["molc"],incoming),("outgoing",["molc"],outgoing),("read",["molc"],reading)]
