"""Static rules on what a remote can make the node hold: every framed reader over a remote's bytes has a limit on announced sizes that is constant or the configured
one, followed from the builder; storage is reserved only for amounts that are constant, configured or the length of something already held; sessions and streams are
admitted only on the branch where their number is below the configured one; data taken from a remote is put into a queue only on the branch where that queue is short."""
from que import *
from svc import Origins
from c23 import nopath
SE="tentacle::service::Service::handle_session_event"
CONFIGS=["molc"]
ASSUMES=["LengthDelimitedCodec and FrameCodec's Framed compare the announced size with max_frame_length (default 8 MiB) before they reserve or collect",
 "The codec a user gives a protocol has its own limit","Messages of a websocket are limited by the websocket library (64 MiB) before the records inside are","A bounded channel holds what it was made for"]
SES="tentacle::session::Session::"
RSV={"with_capacity":0,"reserve":1,"resize":1,"from_elem":1,"reserve_exact":1,"try_reserve":1,"set_len":1,"put_bytes":2,"repeat":1,"resize_with":1,"with_capacity_and_hasher":0}
LIB=("tentacle","tentacle_secio","tokio_yamux","tentacle_multiaddr")
# amounts fixed by the chosen algorithm, or computed from data already held
FIXED=("iv_size","key_size","tag_size","nonce_size","len","expected_length","size","total_size","block_size","size_of","encoded_len","serialized_size")
def moderate(ck,o,b,r,e,seen=()):
    """the amount is constant, configured, or that of something already held"""
    for x in alts(e):
        x=strip_cast(x)
        if const_num(x) is not None or x[0] in("len","c","const","k"): continue
        if x[0]=="bin":
            if moderate(ck,o,b,r,x[2],seen) and moderate(ck,o,b,r,x[3],seen): continue
            if x[1] in("Rem","BitAnd") and (moderate(ck,o,b,r,x[3],seen) or x[1]=="BitAnd" and moderate(ck,o,b,r,x[2],seen)): continue
            return False
        if x[0]=="min" and any(moderate(ck,o,b,r,a,seen) for a in x[1:]) or x[0]=="max" and all(moderate(ck,o,b,r,a,seen) for a in x[1:]): continue
        if x[0]=="call" and last(x[1])=="min" and any(moderate(ck,o,b,r,a,seen) for a in x[2]): continue
        if x[0]=="call" and last(x[1]) in FIXED: continue
        if x[0]=="call" and last(x[1]) in("saturating_add","wrapping_add","max","saturating_sub","unwrap_or","unwrap_or_default","checked_add","saturating_mul") and all(moderate(ck,o,b,r,a,seen) for a in x[2]): continue
        if x[0]=="call" and last(x[1])=="sum" and has(x,CALL(("map",),anyx,lambda c: strip_cast(c)[0] in("closure","fn"))): continue
        if x[0]=="f" and "config" in [n for n in names_of(x)]: continue
        return False
    return True
def reserve(ck):
    n=0
    for b in sorted(ck.p.bodies.values(),key=lambda b: b.key):
        if b.crate not in LIB or not live(b) or "_generated" in b.qual: continue
        if not any(bl["t"][0]=="call" and bl["t"][1][0]=="fn" and last(bl["t"][1][1].get("q","")) in RSV for bl in b.blocks): continue
        r=Root(ck,b,depth=1,opaque=FIXED+("fmt",))
        for c in r.calls(*RSV):
            if c.body is not b: continue
            a=r.args(c); i=RSV[last(r.g.qual(c))]
            if last(r.g.qual(c))=="repeat" and len(a)<2 or i>=len(a): continue
            n+=1; e=a[i]; ok=moderate(ck,None,b,r,e)
            if not ok: ok=r.path(None,[c],avoid_edge=r.edge(lambda f: f[0]=="cmp" and f[1] in("Lt","Le") and strip_cast(f[2])==strip_cast(e) and moderate(ck,None,b,r,f[3]))) is None
            ck.ob("reserve","%s in %s"%(last(r.g.qual(c)),b.qual),ok,r.loc(c),"%s bytes or items are reserved, which is neither fixed nor the size of something already held"%show(e)[:80])
    ck.floor("reserve","reservations",n,12)
def configured(e): return strip_cast(e)[0]=="f" and names_of(e)[-1:]==["max_frame_length"]
def sizes(ck):
    EIGHT=8*1024*1024; nb=0; nf=0
    for b in sorted(ck.p.bodies.values(),key=lambda b: b.key):
        if b.crate not in("tentacle","tentacle_secio","tokio_yamux") or not live(b): continue
        qs=[bl["t"][1][1].get("q","") for bl in b.blocks if bl["t"][0]=="call" and bl["t"][1][0]=="fn"]
        hit=[q for q in qs if "length_delimited::" in q and last(q) in("new_framed","new_codec","new_read","new_write","set_max_frame_length","max_frame_length","max_frame_length_mut") or last(q)=="new" and "Framed" in q or "FramedRead" in q]
        if not hit: continue
        r=Root(ck,b,depth=3,opaque=("fmt","Meta::codec","codec"))
        for c in r.calls("new_framed","new_codec","new_read"):
            if "length_delimited" not in r.g.qual(c): continue
            nb+=1; a=r.args(c)[0]
            for x in alts(a):
                lims=[y for y in subs(x) if y[0]=="call" and last(y[1])=="max_frame_length"]
                ck.ob("sizes","limit of frames in "+b.qual,bool(lims),r.loc(c),"frames are read with a codec whose limit is not set")
                for y in lims[:1]: ck.ob("sizes","which limit in "+b.qual,configured(y[2][1]) or const_num(y[2][1]) is not None and const_num(y[2][1])<=EIGHT,r.loc(c),"the limit of announced sizes is %s, not the configured one"%show(y[2][1])[:60])
        for c in r.calls("set_max_frame_length"):
            v=r.args(c)[1]; ck.ob("sizes","limit changed in "+b.qual,configured(v) or const_num(v) is not None and const_num(v)<=EIGHT,r.loc(c),"the limit of announced sizes becomes %s"%show(v)[:60])
        for c in r.calls("Framed::new","FramedRead::new","FramedRead2::new"):
            nf+=1; a=r.args(c)[1]
            for x in alts(a):
                cod=strip_cast(x)
                ok=CALL(("LengthDelimitedCodec::new","new_codec"))(cod) and last(cod[1])!="new" or CALL("new")(cod) and "LengthDelimitedCodec" in cod[1] or CALL("default")(cod) and "LengthDelimitedCodec" in cod[1] or has(cod,lambda y: y[0]=="agg" and y[1].endswith("FrameCodec")) or has(cod,CALL("codec")) or CALL(("call","call_mut"),lambda e: names_of(e)[-1:]==["codec"])(cod) or names_of(cod)[-1:]==["codec"]
                ck.ob("sizes","codec in "+b.qual,ok,r.loc(c),"a remote's bytes are read with %s, whose limit is not known"%show(cod)[:60])
    ck.floor("sizes","limited codecs",nb,1); ck.floor("sizes","framed readers",nf,4)
    # the encrypted channel reads with the codec of the handshake
    from sec import HS, OPAQUE as SOPQ
    h=ck.root(HS,opaque=SOPQ,sited=("next",))
    rd=[n for n in h.calls("next","poll_next") if n.body is h.body]; ck.floor("sizes","handshake reads",len(rd),2,h.body.span)
    for n in rd:
        src=h.args(n)[0]; ck.ob("sizes","handshake read",has(src,CALL("new_framed",lambda e: has(e,CALL("max_frame_length")))) or CALL(("encode","decrypt"))(src) or has(src,CALL("SecureStream::new")),h.loc(n),"the handshake reads from %s, without the limit"%show(src)[:80])
    ns=h.calls("SecureStream::new"); ck.floor("sizes","encrypted channels",len(ns),1,h.body.span)
    for n in ns: ck.ob("sizes","encrypted channel",has(h.args(n)[0],CALL("new_framed",lambda e: has(e,CALL("max_frame_length")))),h.loc(n),"the encrypted channel reads records from %s, without the limit of the handshake"%show(h.args(n)[0])[:80])
    # multiplexer: data frames above the limit are refused before their body is waited for
    r=ck.root("<tokio_yamux::frame::FrameCodec as tokio_util::codec::decoder::Decoder>::decode",opaque=("fmt",),sited=("get_u32","get_u16","get_u8"))
    mx=fld("FrameCodec.max_frame_size"); le=LE(anyx,mx)
    notdata=lambda f: f[0]=="is" and "Data" not in f[2] and set(f[2])<={"WindowUpdate","Ping","GoAway"}
    rem=IS(lambda e: has(e,fld("FrameCodec.unused_data_header")),"Some")
    def short(f):
        if not(f[0]=="cmp" and f[1] in("Lt","Le") and mx(f[3])): return False
        x=strip_cast(f[2]); return x[0]=="call" and last(x[1]).startswith("get_u32") or names_of(x)[-1:]==["length"]
    outs=[n for n in r.aggs("frame::Frame")]+r.writes("FrameCodec.unused_data_header"); ck.floor("sizes","frames decoded",len(outs),2,r.body.span)
    nopath(ck,"sizes","multiplexer",r,r.path(None,outs,avoid_edge=r.edge(lambda f: short(f) or notdata(f) or rem(f))),"the body of a data frame is waited for whatever size it announces")
    s=ck.root("tokio_yamux::session::Session::new",opaque=("fmt","interval"))
    fr=s.calls("Framed::new"); ck.floor("sizes","multiplexer: readers",len(fr),1,s.body.span)
    for n in fr:
        cs=alts(s.args(n)[1])
        for x in cs:
            x=strip_cast(x); v=dict(x[3]).get("max_frame_size") if x[0]=="agg" else None
            if v is None and x[0]=="call" and last(x[1])=="max_frame_size": v=x[2][1]
            ck.ob("sizes","multiplexer: configured",v is not None and names_of(v)[-1:]==["max_stream_window_size"],s.loc(n),"the limit of data frames is %s"%(show(v) if v is not None else show(x))[:60])
    ws=[(b,h) for b,h in ck.writers("FrameCodec.max_frame_size") if live(b) and h!="agg"]
    for b,_ in ws: ck.ob("sizes","multiplexer: set by "+b.qual,within(ck,b,{"tokio_yamux::frame::FrameCodec::max_frame_size"}),b.span,"the limit of data frames is changed elsewhere")
    # the limit of the handshake is the configured one, all the way
    through={"tentacle_secio::handshake::Config":"max_frame_length","helper::HandshakeContext":"max_frame_length","Listener":"max_frame_length"}
    for adt in sorted(through):
        o=Origins(ck,through,opaque=CHAN+("key_pair","DNSResolver::new","YamuxSession::new","Session::new","timeout","spawn","session_handles_open","handle_event","handle_error","connect","bind"))
        o.field(adt,"max_frame_length"); ck.floor("sizes",adt+": origins",len(o.leaves),1)
        for b,x,where in o.leaves:
            num=const_num(x)
            ck.ob("sizes",last(adt)+": from the configuration",x[0]=="f" and x[2]=="max_frame_length" and match_name(x[3],"ServiceConfig") or num is not None and num<=EIGHT or CALL("default")(x),where or "","the limit held by %s is %s"%(adt,show(x)[:60]))
    for b,h in ck.writers("ServiceConfig.max_frame_length"):
        if live(b) and h!="agg": ck.ob("sizes","configured by "+b.qual,within(ck,b,{"tentacle::builder::ServiceBuilder::max_frame_length","tentacle::builder::ServiceBuilder::yamux_config","tentacle::service::Service::yamux_config","tentacle::service::Service::max_frame_length"}),b.span,"the configured limit is changed by %s"%b.qual)
def subs(e):
    out=[]
    def go(x):
        if isinstance(x,tuple):
            if x and isinstance(x[0],str): out.append(x)
            for y in x: go(y)
    go(e); return out
def closed(ck,r,e):
    """the value with simple Option combinators applied: every closure mapped over a value is replaced by what it returns for that value"""
    x=strip_cast(e)
    if x[0]=="call" and last(x[1]) in("unwrap_or_default","unwrap_or"): return closed(ck,r,x[2][0])
    if x[0]=="call" and last(x[1]) in("map","and_then","map_or"):
        c=strip_cast(x[2][-1])
        if c[0]=="closure" and c[1] in ck.p.bodies:
            q=Root(ck,ck.p.bodies[c[1]],depth=2); vs=retvals(q)
            return ("mapped",tuple(vs),closed(ck,r,x[2][0]))
    return x
def admitted(ck):
    r=ck.root(SE,assume=under(P(3),"HandshakeSuccess"),opaque=("fmt","session_open","handle_error","remove","decrease","reached_max_connection_limit"))
    so=r.calls("session_open"); ck.floor("admitted","sessions opened",len(so),1,r.body.span)
    many=lambda e: has(e,lambda x: x[0]=="len" and name("sessions")(x[1])); mxn=lambda e: names_of(e)[-1:]==["max_connection_number"]
    direct=lambda f: f[0]=="cmp" and f[1]=="Lt" and many(f[2]) and mxn(f[3])
    viacall=FALSE(CALL("reached_max_connection_limit"))
    nopath(ck,"admitted","connections",r,r.path(None,so,avoid_edge=r.edge(ANYF(viacall,direct))),"a session is opened although the configured number is reached")
    for b in callers(ck,"Service::session_open"):
        ck.ob("admitted","opened in "+b.qual,b.key in r.g.analysed or within(ck,b,{SE}),b.span,"a session is opened without looking at the configured number")
    if r.calls("reached_max_connection_limit"):
        q=ck.root("tentacle::service::Service::reached_max_connection_limit",opaque=("fmt",)); vs=retvals(q); ck.floor("admitted","the limit",len(vs),1,q.body.span)
        BAD=("Sub","Div","Rem","BitAnd","Shr")
        def plain(e): return not any(y[0]=="bin" and y[1] in BAD for y in subs(e)) and not any(y[0]=="call" and last(y[1]) in("saturating_sub","wrapping_sub","checked_sub","min","count") for y in subs(e))
        def enough(v,cnt=None):
            """true as soon as the number of sessions is the configured one"""
            v=strip_cast(v)
            if v[0]=="mapped":
                return all(enough(x,v[2]) for x in v[1])
            c=lambda e: (many(e) and plain(e)) or cnt is not None and strip_cast(e) in(("p",2),) and many(cnt) and plain(cnt) and (strip_cast(cnt)[0] in("call","len","bin"))
            return v[0]=="bin" and (v[1]=="Le" and mxn(v[2]) and c(v[3]) or v[1]=="Ge" and c(v[2]) and mxn(v[3]))
        def known(v): return v in(("k",True),("k",False),("c",1),("c",0)) or strip_cast(v)[0] in("k","c")
        sym=[v for v in vs if not known(strip_cast(v))]
        for v in sym: ck.ob("admitted","how the limit is decided",enough(closed(ck,q,v)),q.body.span,"the limit counts as reached when %s"%show(v)[:120])
        lt=lambda f: f[0]=="cmp" and f[1]=="Lt" and many(f[2]) and plain(f[2]) and mxn(f[3])
        no=q.exits(lambda v: v==("k",False) or v==("c",0))
        if no and not sym: nopath(ck,"admitted","below the limit",q,q.path(None,no,avoid_edge=q.edge(lambda f: lt(f) or IS(CALL("checked_add"),"None")(f))),"the limit does not count as reached although the configured number is")
        ck.ob("admitted","the limit is decided",bool(sym) or bool(no),q.body.span,"nothing decides whether the limit is reached")
    for b in ck.p.bodies.values():
        if b.crate!="tentacle" or not live(b): continue
        for bl in b.blocks:
            t=bl["t"]
            if t[0]=="call" and t[1][0]=="fn" and last(t[1][1].get("q","")) in("insert","entry") and "SessionController" in str(t[1][1]):
                ck.ob("admitted","noted in "+b.qual,within(ck,b,{"tentacle::service::Service::session_open"}),b.span,"a session is noted without looking at the configured number")
    for b,h in ck.writers("ServiceConfig.max_connection_number"):
        if live(b) and h!="agg": ck.ob("admitted","configured by "+b.qual,within(ck,b,{"tentacle::builder::ServiceBuilder::max_connection_number"}),b.span,"the configured number is changed by %s"%b.qual)
    w=ck.root("tentacle::builder::ServiceBuilder::max_connection_number")
    ws=[n for n in w.nodes("assign") if n.data[0][1] and n.data[0][1][-1][0]=="f" and n.data[0][1][-1][1]=="max_connection_number"]; ck.floor("admitted","setting",len(ws),1,w.body.span)
    for n in ws: ck.ob("admitted","set as given",P(2)(w.value(n)),w.loc(n),"the number set is %s"%show(w.value(n))[:60])
    # streams
    y=ck.root("tokio_yamux::session::Session::distribute_to_substream",opaque=("send_frame","send_go_away_with_code","create_stream","fmt"))
    cs=y.calls("create_stream"); ck.floor("admitted","streams accepted",len(cs),1,y.body.span); tgt=set(y.states_of(cs))
    live_=TRUE(CALL("contains_key",name("streams")))
    for q,f in(("streams","max_stream_count"),("pending_streams","accept_backlog")):
        p=None
        for n in cs:
            # between the frame and the creation of its stream
            got=y.after_nodes([m for m in y.calls("next","pop_front") if has(y.g.callval(m,0),name("read_pending_frames"))])
            p=p or y.path_from(got,tgt,avoid_edge=y.edge(ANYF(CMP("<",LEN(name(q)),lambda e,f=f: names_of(e)[-1:]==[f]),live_)))
        nopath(ck,"admitted","streams: "+f,y,p,"a remote's stream is accepted beyond the configured number",0)
    c=ck.root("tokio_yamux::session::Session::create_stream",opaque=("fmt",))
    ins=[n for n in c.calls("insert") if name("streams")(c.args(n)[0]) or has(c.args(n)[0],name("streams"))]; ck.floor("admitted","streams noted",len(ins),1,c.body.span)
    for b in callers(ck,"Session::create_stream"):
        if b.crate=="tokio_yamux": ck.ob("admitted","streams created in "+b.qual,b.key in y.g.analysed or within(ck,b,{"tokio_yamux::session::Session::open_stream","tokio_yamux::session::Session::distribute_to_substream"}),b.span,"streams are also created by %s, outside the limits"%b.name)
PUSH=("push_back","push","push_front","push_normal","push_high","extend","insert","append","extend_from_slice")
def limit(e):
    """constants and configured values only"""
    x=strip_cast(e)
    if const_num(x) is not None or x[0] in("c","const"): return True
    if x[0]=="bin": return x[1] in("Add","Div","Mul","Shr","Sub") and limit(x[2]) and limit(x[3])
    if x[0]=="f": return "config" in names_of(x)
    if x[0] in("min","max"): return all(limit(a) for a in x[1:])
    if x[0]=="call" and last(x[1]) in("min","max","saturating_add","recv_event_size","send_event_size"): return all(limit(a) or names_of(a)[-1:]==["config"] for a in x[2])
    return False
def short(buf):
    """the queue is known to be short"""
    def length(e):
        x=strip_cast(e)
        if x[0]=="len": return buf(x[1])
        if x[0]=="phi": return all(length(y) or const_num(y)==0 for y in x[1]) and any(length(y) for y in x[1])
        if x[0]=="call" and last(x[1]) in("unwrap_or_default","unwrap_or","map_or","map_or_default"):
            return has(x,lambda y: buf(y)) and has(x,lambda y: y[0] in("fn","closure") and ("len" in str(y[1]) or y[0]=="closure"))
        return x[0]=="bin" and x[1]=="Add" and (length(x[2]) or length(x[3]))
    return ANYF(CMP("<",length,limit),CMP("<=",length,limit),CMP("==",length,KN(0)),TRUE(CALL("is_empty",buf)),IS(lambda e: buf(e),"None"))
def relays(ck,inst,r,srcs,known={}):
    """whatever is taken from these sources goes only into queues that are short at that time"""
    ck.floor("pressure",inst+": sources",len(srcs),1,r.body.span)
    vals=[strip_cast(r.g.callval(n,0)) for n in srcs]
    isrc=lambda e: has(e,lambda x: x in vals)
    qs={}
    for n in r.calls(*PUSH):
        a=r.args(n)
        if len(a)<2 or not any(isrc(x) for x in a[1:]) or isrc(a[0]) : continue
        if last(r.g.qual(n))=="insert" and not has(a[-1],lambda x: x in vals): continue
        nm=tuple(z for z in names_of(a[0]) if z not in("buffer","high_buffer","normal_buffer"))
        if not nm: continue
        qs.setdefault(nm[-1],[]).append(n)
    for q,ns in sorted(qs.items()):
        buf=lambda e: q in names_of(e) or name(q)(e)
        p=r.path(None,srcs,avoid_edge=r.edge(short(buf)))
        # only if the source can be reached with a long queue and the value then ends in it
        ck.ob("pressure","%s: %s"%(inst,q),p is None,r.loc(srcs[0]),"what a remote sends is taken in and put into %s however long that queue is"%q,r.trail(p))
    return qs
def pressure(ck):
    r=ck.root("tentacle::substream::Substream::recv_frame",opaque=("fmt","error_close","close_proto_stream","try_send","Buffer::try_send"))
    q=relays(ck,"substream",r,[n for n in r.calls("poll_next") if name("substream")(r.args(n)[0])]); ck.floor("pressure","substream: queues",len(q),3,r.body.span)
    r=ck.root(SES+"recv_substreams",opaque=("fmt","open_protocol","try_send"))
    q=relays(ck,"session",r,[n for n in r.calls("poll_next") if name("proto_event_receiver")(r.args(n)[0])]); ck.floor("pressure","session: queues",len(q),1,r.body.span)
    r=ck.root("tokio_yamux::session::Session::recv_frames",opaque=("fmt","poll_complete","distribute_to_substream","send_go_away_with_code","flush","start_send","poll_ready"))
    q=relays(ck,"multiplexer",r,[n for n in r.calls("poll_next") if name("framed_stream")(r.args(n)[0])]); ck.floor("pressure","multiplexer: queues",len(q),1,r.body.span)
    # nobody else reads from them
    for recv,home in(("substream",{"tentacle::substream::Substream::recv_frame","<tentacle::substream::SubstreamReadPart as futures_core::stream::Stream>::poll_next"}),("proto_event_receiver",{SES+"recv_substreams"}),("framed_stream",{"tokio_yamux::session::Session::recv_frames"})):
        n=0
        for b in ck.p.bodies.values():
            if b.crate not in("tentacle","tokio_yamux") or not live(b): continue
            if not any(bl["t"][0]=="call" and bl["t"][1][0]=="fn" and last(bl["t"][1][1].get("q","")) in("poll_next","next","poll_next_unpin","try_next","try_poll_next") for bl in b.blocks): continue
            g=Root(ck,b,depth=0)
            for c in g.calls("poll_next","next","poll_next_unpin","try_next","try_poll_next"):
                if c.body is b and names_of(g.args(c)[0])[-1:]==[recv] and b.qual.split("::")[0].lstrip("<")!="":
                    n+=1; ck.ob("pressure","%s read in %s"%(recv,b.qual),within(ck,b,home),g.loc(c),"%s is read outside of the function that looks at its queues"%recv)
        ck.floor("pressure",recv+": readers",n,1)
    # queues between tasks are bounded
    for b in callers(ck,"unbounded"):
        if b.crate in LIB and live(b): ck.ob("pressure","unbounded channel in "+b.qual,within(ck,b,{"tokio_yamux::session::Session::new"}),b.span,"a queue between tasks has no bound")
RULES=[("sizes",["molc"],sizes),("reserve",["molc","flatc","alt"],reserve),("admitted",["molc"],admitted),("pressure",["molc"],pressure)]
