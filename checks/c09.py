"""Sibling agreement: the sequence of typed puts the encoder makes on every path is compared, field by field, with the sequence of typed gets from which the
decoder builds the header, and with the protocol's twelve-byte layout; path rules decide when bytes are consumed, remembered or refused."""
from ymx import *
from sec import core_of,names_of,okexit,retvals,const_num,KN,feeds
CONFIGS=["molc"]
ASSUMES=["bytes' put_*/get_* are big endian and FIFO, split_to takes exactly the given number of bytes from the front"]
DEC=m("tokio_yamux::frame::FrameCodec","tokio_util::codec::decoder::Decoder","decode")
ENC=m("tokio_yamux::frame::FrameCodec","tokio_util::codec::encoder::Encoder","encode")
WID={"u8":1,"u16":2,"u32":4,"u64":8}
TABLE={"Type":{"Data":0,"WindowUpdate":1,"Ping":2,"GoAway":3},"Flag":{"Syn":1,"Ack":2,"Fin":4,"Rst":8},"GoAwayCode":{"Normal":0,"ProtocolError":1,"InternalError":2}}
GETS=("get_u8","get_u16","get_u32","get_u64","get_u16_le","get_u32_le","get_i8","get_i16","get_i32","get_uint","get_int")
PUTS=("put_u8","put_u16","put_u32","put_u64","put_u16_le","put_u32_le","put","put_slice","extend_from_slice","extend","put_i8","put_bytes","resize","truncate","clear","unsplit")
def other(f,e,v):
    """the fact excludes that e is the number v"""
    if f[0]=="notin": return e(f[1]) and v in f[2]
    if f[0]!="cmp": return False
    a,b=f[2],f[3]; x,y=(v if e(a) else const_num(strip_cast(a))),(v if e(b) else const_num(strip_cast(b)))
    if not(e(a) or e(b)) or x is None or y is None: return False
    return not{"Eq":x==y,"Ne":x!=y,"Lt":x<y,"Le":x<=y}[f[1]]
def tables(ck):
    for t,want in TABLE.items():
        a=ck.p.adts.get("tokio_yamux::frame::"+t); got={v[0]:int(v[1]) for v in a["variants"]} if a else {}
        for k,v in want.items(): ck.ob("codes","%s::%s"%(t,k),got.get(k)==v,t,"the code of %s::%s is %s, not %d"%(t,k,got.get(k),v))
    for c,v in(("HEADER_SIZE",12),("PROTOCOL_VERSION",0),("RESERVED_STREAM_ID",0)):
        x=ck.p.consts.get("tokio_yamux::"+c,(None,None,"")); ck.ob("codes",c,x[1] is not None and int(x[1])==v,x[2],"%s is %s"%(c,x[1]))
    r=ck.root("<tokio_yamux::frame::GoAwayCode as core::convert::From>::from")
    for k,v in TABLE["GoAwayCode"].items():
        ns=r.aggs("GoAwayCode",k); no=r.edge(lambda f,v=v: other(f,P(1),v))
        ck.ob("codes","go away %s recognised"%k,r.path(None,set(r.states_of(ns)),avoid_edge=no) is not None and r.path(None,r.exits(),avoid=ns,avoid_edge=no) is None,r.body.span,"code %d is not read as %s"%(v,k))
def flags(ck):
    F="tokio_yamux::frame::Flags::"
    bit=lambda e: strip_cast(e)[0]=="discr" or P(2)(e) or has(e,P(2)); own=lambda e: has(e,P(1)) and not has(e,P(2))
    r=ck.root(F+"add"); w=r.writes("Flags.0"); ck.floor("flags","add",len(w),1,r.body.span)
    for n in w: ck.ob("flags","add sets the bit",BIN("BitOr",own,bit)(r.value(n)),r.loc(n),"adding a flag makes %s"%show(r.value(n))[:60])
    r=ck.root(F+"remove"); w=r.writes("Flags.0"); ck.floor("flags","remove",len(w),1,r.body.span)
    for n in w: ck.ob("flags","remove clears the bit",BIN("BitAnd",own,lambda e: strip_cast(e)[0]=="un" and bit(strip_cast(e)[2]) or (strip_cast(e)[0] in("not",) and bit(strip_cast(e)[1])))(r.value(n)),r.loc(n),"removing a flag makes %s"%show(r.value(n))[:60])
    r=ck.root(F+"contains"); vs=retvals(r)
    msk=lambda e: BIN("BitAnd",own,bit)(strip_cast(e))
    for v in vs: ck.ob("flags","contains tests the bit",BIN("Eq",msk,bit)(v) or BIN("Ne",msk,K(0))(v) or BIN("Gt",msk,K(0))(v),r.body.span,"testing a flag means %s"%show(v)[:80])
    ck.floor("flags","contains",len(vs),1)
def encode(ck):
    r=ck.root(ENC,opaque=("fmt",)); ex=r.exits(okexit)
    dst=P(3); ns={n.id:n for n in r.calls(*PUTS) if dst(r.args(n)[0])}
    end=[n for n in r.nodes("assign") if n.ctx==0 and n.data[0]==[0,[]]]; ck.floor("layout","encoder result",len(end),1,r.body.span)
    H=lambda f: lambda e: names_of(e)[:2]==["header",f] or (names_of(e)[:1]==["header"] and names_of(e)[1:2]==[f])
    want=[("put_u8",H("version")),("put_u8",lambda e: strip_cast(e)[0]=="discr" and H("ty")(strip_cast(e)[1])),("put_u16",H("flags")),("put_u32",H("stream_id")),("put_u32",H("length"))]
    seqs=set()
    for n in end: seqs|=r.transcript(n,("p",3),PUTS) or {("loop",)}
    ck.floor("layout","encodings",len(seqs),2,r.body.span)
    body=lambda e: names_of(e)==["body"] and P(2)(core_of(e))
    for q in seqs:
        q=[r.g.nodes[i] for i in q if i!="loop"]
        ok=len(q)>=5 and all(last(r.g.qual(n))==w and p(strip_cast(r.args(n)[1])) and P(2)(core_of(strip_cast(r.args(n)[1])[1] if strip_cast(r.args(n)[1])[0]=="discr" else r.args(n)[1])) for n,(w,p) in zip(q[:5],want))
        ck.ob("layout","header encoded",ok,r.body.span,"the header is written as %s"%[("%s %s"%(last(r.g.qual(n)),show(r.args(n)[1])[:40])) for n in q[:5]])
        ck.ob("layout","only the body follows",len(q)==5 or (len(q)==6 and body(r.args(q[5])[1])),r.body.span,"the header is followed by %s"%[show(r.args(n)[-1])[:40] for n in q[5:]])
    bd=[n for n in ns.values() if body(r.args(n)[1])]
    p=r.path(None,ex,avoid=bd,avoid_edge=r.edge(IS(lambda e: names_of(e)==["body"],"None"))); ck.ob("layout","body encoded",p is None,r.body.span,"a frame's body is left out",r.trail(p))
def decode(ck):
    r=ck.root(DEC,opaque=("fmt",),sited=GETS); src=P(2)
    hs=r.aggs("frame::Header"); ck.floor("layout","headers decoded",len(hs),1,r.body.span)
    cut=[n for n in r.calls("split_to","advance","split","get_u8","get_u16","get_u32","clear","truncate","split_off") if src(r.args(n)[0])]
    hd=[n for n in cut if KN(12)(r.args(n)[1] if len(r.args(n))>1 else ("?",))]; ck.floor("layout","headers cut",len(hd),1,r.body.span)
    full=ANYF(LE(K(12),LEN(src)),CMP("<",K(11),LEN(src)))
    for n in hd:
        p=r.path(None,[n],avoid_edge=r.edge(full)); ck.ob("fragments","header only when complete",p is None,r.loc(n),"bytes of an incomplete header are consumed",r.trail(p))
        p=r.path(None,[n],avoid_edge=r.edge(IS(lambda e: has(e,fld("FrameCodec.unused_data_header")),"None"))); ck.ob("fragments","remembered header first",p is None,r.loc(n),"a header is read although one is remembered",r.trail(p))
    want=["get_u8","get_u8","get_u16","get_u32","get_u32"]; seqvals=None
    for h in hs:
        d=dict(r.agg_value(h)[3])
        buf=strip_cast(r.g.callval(hd[0],0)) if hd else None
        seqs=r.transcript(h,buf,GETS) or set()
        for q in seqs or [()]:
            q=[r.g.nodes[i] for i in q]; vals=[strip_cast(r.g.callval(n,0)) for n in q]
            ck.ob("layout","header decoded",[last(r.g.qual(n)) for n in q]==want,r.loc(h),"the header is read as %s"%[last(r.g.qual(n)) for n in q])
            if len(vals)!=5: continue
            seqvals=vals
            fl=strip_cast(d["flags"]); fl=strip_cast(dict(fl[3])["0"]) if fl[0]=="agg" else fl
            for f,i,v in(("version",0,d["version"]),("flags",2,fl),("stream_id",3,d["stream_id"]),("length",4,d["length"])):
                ck.ob("layout","decoded "+f,strip_cast(v)==vals[i] or (f=="version" and KN(0)(v)),r.loc(h),"the %s of a decoded frame is %s"%(f,show(v)[:60]))
            ts=alts(d["ty"]); ck.ob("layout","decoded type",all(x[0]=="agg" and x[1].endswith("Type") for x in ts) and len(ts)==4,r.loc(h),"the type of a decoded frame is %s"%show(d["ty"])[:60])
    if seqvals is None: return
    ver,ty,_,_,ln=seqvals; is_=lambda v: lambda e: strip_cast(e)==v
    p=r.path(None,hs,avoid_edge=r.edge(CMP("==",is_(ver),KN(0)))); ck.ob("refuse","version",p is None,r._where(p,0),"a frame of another version is accepted",r.trail(p))
    for k,c in TABLE["Type"].items():
        ns=r.aggs("frame::Type",k); st=r.after_edges(r.edges_where(CMP("==",is_(ty),KN(c)))); others=[n for o in TABLE["Type"] if o!=k for n in r.aggs("frame::Type",o)]
        live_=[n for n in ns if r.path(None,[n]) is not None and any(strip_cast(x)==strip_cast(r.agg_value(n)) for h in hs for x in alts(dict(r.agg_value(h)[3])["ty"]))]
        ck.floor("refuse","type %s decoded"%k,len(st),1,r.body.span)
        cmpd=[n for n in live_ if n.body.name not in("eq","ne")]
        p=r.path(None,[n for n in cmpd if feeds(r,n)],avoid_edge=r.edge(CMP("==",is_(ty),KN(c))))
        ck.ob("refuse","only code %d is %s"%(c,k),p is None,r.body.span,"another code is read as %s"%k,r.trail(p))
        p=r.path_from(st,set(r.states_of(hs)),avoid=ns); ck.ob("refuse","code %d is %s"%(c,k),p is None,r.body.span,"code %d is not read as %s"%(c,k),r.trail(p))
    # size limit: data only, before the header is kept
    tdata=lambda e: True
    lim=ANYF(LE(is_(ln),fld("FrameCodec.max_frame_size")),IS(lambda e: all(x[0]=="agg" or "unused" in show(x) for x in alts(e)),"WindowUpdate","Ping","GoAway"))
    notdata=lambda f: f[0]=="is" and "Data" not in f[2] and set(f[2])<={"WindowUpdate","Ping","GoAway"}
    le=LE(is_(ln),fld("FrameCodec.max_frame_size"))
    outs=[n for n in r.aggs("frame::Frame")]+r.writes("FrameCodec.unused_data_header")
    rem=IS(lambda e: CALL("take",fld("FrameCodec.unused_data_header"))(core_of(e)) ,"Some")
    p=r.path(None,outs,avoid_edge=r.edge(lambda f: le(f) or notdata(f) or rem(f))); ck.ob("refuse","oversized data",p is None,r._where(p,0),"a data frame above the limit is accepted",r.trail(p))
    big=r.after_edges(r.edges_where(CMP("<",fld("FrameCodec.max_frame_size"),is_(ln)))); ck.floor("refuse","limit checks",len(big),1,r.body.span)
    p=r.path_from(big,r.exits(okexit)); ck.ob("refuse","oversized data is an error",p is None,r._where(p,0),"an oversized frame is not an error",r.trail(p))
    p=None
    for n in r.nodes("switch"):
        for i,f in enumerate(r.u.facts.of(n.id)):
            if CMP("<",fld("FrameCodec.max_frame_size"),is_(ln))(f):
                p=p or r.path(None,set(r.after_edges([(n.id,i)])),avoid_edge=r.edge(lambda f: f[0]=="is" and tuple(f[2])==("Data",)))
    ck.ob("refuse","limit for data only",p is None,r._where(p,0),"the limit is applied to a frame that carries no data",r.trail(p))
    # body
    lens=lambda e: all(strip_cast(x)==ln or (has(x,fld("FrameCodec.unused_data_header")) and names_of(x)[-1:]==["length"]) for x in alts(e))
    bc=[n for n in cut if n not in hd]; ck.floor("fragments","bodies cut",len(bc),1,r.body.span)
    for n in bc:
        ck.ob("fragments","body length: "+last(r.g.qual(n)),last(r.g.qual(n))=="split_to" and lens(r.args(n)[1]),r.loc(n),"%s is cut from the input"%show(r.args(n)[-1])[:60])
        p=r.path(None,[n],avoid_edge=r.edge(LE(lens,LEN(src)))); ck.ob("fragments","body only when complete",p is None,r.loc(n),"an incomplete body is cut",r.trail(p))
        p=r.path(None,[n],avoid_edge=r.edge(lambda f: f[0]=="is" and tuple(f[2])==("Data",))); ck.ob("fragments","body of data frames only",p is None,r.loc(n),"bytes are consumed for a frame without body",r.trail(p))
    for n in r.aggs("frame::Frame"):
        d=dict(r.agg_value(n)[3]); hv=alts(d["header"]); bv=alts(d["body"])
        ck.ob("fragments","frame header",all((x[0]=="agg" and x[1].endswith("Header")) or CALL("take",fld("FrameCodec.unused_data_header"))(core_of(x)) for x in hv),r.loc(n),"a frame is built with header %s"%show(d["header"])[:60])
        cutv=[strip_cast(r.g.callval(c,0)) for c in bc]
        ck.ob("fragments","frame body",all((x[0]=="agg" and x[2]=="None") or (x[0]=="agg" and x[2]=="Some" and strip_cast(dict(x[3])["0"]) in cutv) for x in bv),r.loc(n),"a frame is built with body %s"%show(d["body"])[:80])
        data=r.after_edges(r.edges_where(lambda f: f[0]=="is" and tuple(f[2])==("Data",)))
        p=r.path_from(data,[n],avoid=bc,avoid_edge=r.edge(notdata)); ck.ob("fragments","data frames have their body",p is None,r.loc(n),"a data frame is returned without body",r.trail(p))
    # incomplete body: header remembered, nothing else consumed
    short=r.after_edges(r.edges_where(CMP("<",LEN(src),lens))); ck.floor("fragments","incomplete bodies noticed",len(short),1,r.body.span)
    rm=r.writes("FrameCodec.unused_data_header"); 
    for n in rm:
        v=r.value(n); ck.ob("fragments","remembered header",v[0]=="agg" and v[2]=="Some" and all((x[0]=="agg" and x[1].endswith("Header")) or has(x,fld("FrameCodec.unused_data_header")) for x in alts(dict(v[3])["0"])),r.loc(n),"%s is remembered"%show(v)[:60])
    p=r.path_from(short,r.exits(),avoid=rm); ck.ob("fragments","header remembered",p is None,r._where(p,0),"the header of an incomplete frame is forgotten",r.trail(p))
    p=r.path_from(short,set(r.states_of(bc))); ck.ob("fragments","body waits",p is None,r._where(p,0),"an incomplete body is consumed",r.trail(p))
    p=r.path(rm,r.aggs("frame::Frame")); ck.ob("fragments","remembered once",p is None,r._where(p,0),"a header is used and remembered",r.trail(p))
    tk=r.calls("take",arg=lambda a: fld("FrameCodec.unused_data_header")(a[0]))
    use=[n for n in r.aggs("frame::Frame")]
    ck.ob("fragments","remembered header taken",bool(tk) and r.path(None,use,avoid=tk) is None,r.body.span,"a remembered header is used again for the next frame")
    for b,what in ck.writers("FrameCodec.unused_data_header"):
        ck.ob("fragments","header kept by the decoder, %s"%b.name,b.key in r.g.analysed or what=="agg",b.span,"the remembered header is changed outside the decoder")
def build(ck):
    """constructors announce what they carry"""
    r=ck.root("tokio_yamux::frame::Frame::new_data")
    for n in r.aggs("frame::Frame"):
        h=header(r.agg_value(n)); ck.ob("constructors","data length",LEN(P(3))(h["length"]) and VAR("Data")(h["ty"]) and has(h["body"],P(3)) and P(1)(h["flags"]) and P(2)(h["stream_id"]),r.loc(n),"a data frame is built with length %s"%show(h["length"])[:40])
    for f,ty,ln in(("new_window_update","WindowUpdate",P(3)),("new_ping","Ping",P(2)),("new_go_away","GoAway",lambda e: has(e,P(1)))):
        r=ck.root("tokio_yamux::frame::Frame::"+f)
        for n in r.aggs("frame::Frame"):
            h=header(r.agg_value(n)); ck.ob("constructors",f,VAR(ty)(h["ty"]) and ln(h["length"]) and AGG("Option","None")(h["body"]),r.loc(n),"%s builds %s"%(f,show(r.agg_value(n))[:80]))
    # the only frames with a body are data frames
    for b in ck.p.bodies.values():
        pass
RULES=[("codes",["molc"],tables),("flags",["molc"],flags),("encode",["molc"],encode),("decode",["molc"],decode),("constructors",["molc"],build)]
