"""Totality: every operation that can panic in the parsing functions is listed and discharged by a fact established on every path to it. Well-formedness: every
construction and modification of an address anywhere in the workspace is one of three forms - written component by component, validated component by component to the
end, or cut at a component boundary - and what the writer emits for each kind passes the reader's checks by the type of the component."""
from core import *
from panics import *
from c12 import M,PR,mm,TAB,OP,BY,bare,cut,payload,APP,old_bytes as old
CONFIGS=["molc"]
ASSUMES=["unsigned_varint, bs58 and the standard library's parsers return errors rather than panic","the component written by write_to_bytes is read back by from_bytes up to the checks compared here (decided in C12)"]
def total_(ck):
    quiet=("encode","decode","from_str","parse","fmt","custom")
    k=total(ck,"total",ck.root(PR+"from_bytes")); k+=total(ck,"total",ck.root(PR+"from_str_peek")); ck.floor("total","panic sites of the parsers",k,8)
    fb=lambda r,n,kind,text: None
    def walk(r,n,kind,text):
        """reading back a stored address: well formed by the rules below"""
        a=[strip_cast(x) for x in r.args(n)] if n.kind=="call" else []
        if kind=="unwrap" and CALL("from_bytes",lambda e: all(has(x,fld(BY)) or has(x,fld("Iter.0")) or core_of(x)[0]=="loop" or CALL("from_bytes",anyx)(core_of(x)) for x in alts(e)))(a[0]): return "the bytes of an address"
        if text.endswith("copy_from_slice") and any(last(r.g.qual(c))=="set_len" and strip_cast(r.args(c)[0])==a[0] and LEN(lambda e: bare(e)==bare(a[1]))(r.args(c)[1]) and r.path(None,[n],avoid=[c]) is None for c in r.calls("set_len")): return "lengths equal"
        if kind=="unwrap" and CALL("take",AGG("Option","Some"))(a[0]):
            # taken at most once: only at the one position that equals the argument
            eq=CMP("==",lambda e: CALL("next",CALL("enumerate",anyx))(core_of(e)) and names_of(e)==["0"],P(2))
            if guarded(r,n,eq) and r.path([n],[n],avoid=r.calls("next")) is None: return "taken at one position"
        return None
    for q in(M+"Multiaddr::pop",M+"Multiaddr::push",M+"Multiaddr::replace",mm("core::iter::traits::iterator::Iterator","next","Iter"),mm("core::str::traits::FromStr","from_str"),mm("core::iter::traits::collect::FromIterator","from_iter"),mm("core::fmt::Display","fmt"),PR+"write_to_bytes",PR+"acquire"):
        total(ck,"total",ck.root(q,opaque=OP if "write_to_bytes" not in q and "acquire" not in q else ()),walk)
    k=0
    for b in ck.p.bodies.values():
        if b.qual.startswith("<tentacle_multiaddr::") and b.name in("try_from","deserialize","serialize") or ("tentacle_multiaddr" in b.qual and b.name.startswith("visit_")): k+=1; total(ck,"total",ck.root(b,opaque=OP),walk)
    ck.floor("total","conversions",k,10)
def refuse(ck):
    """what the writer emits is accepted by the reader"""
    a=ck.p.adts.get(M+"protocol::Protocol"); ft=iter(a["ftys"]); ty={v[0]:"".join(next(ft) for _ in v[2]) for v in a["variants"]}
    code_=lambda e: CALL(("decode::u32","decode::u64","decode::usize"),P(1))(core_of(e)) and names_of(e)==["0"]
    for v,(code,_,kind) in TAB.items():
        def no(f): return f[0]=="cmp" and ((f[1]=="Eq" and any(code_(x) and const_num(y) is not None and const_num(y)!=code for x,y in((f[2],f[3]),(f[3],f[2])))) or (f[1]=="Ne" and any(code_(x) and const_num(y)==code for x,y in((f[2],f[3]),(f[3],f[2])))))
        r=ck.root(PR+"from_bytes",assume=no)
        sp=r.calls("split_at") or r.calls("index")
        texty="str" in ty.get(v,"") and "[u8]" not in ty.get(v,"")
        utf=IS(lambda e: CALL("from_utf8",anyx)(core_of(e)),"Err")
        err=set(r.exits(lambda x: x is not None and x[1]=="Err"))
        p=r.path(sp,err,avoid_edge=r.edge(lambda f: texty and utf(f))) if sp else None
        w=ck.root(PR+"write_to_bytes",assume=lambda f: f[0]=="is" and SELF(f[1]) and v not in f[2])
        refuses=bool([s for s in w.exits(lambda x: x is not None and x[0]=="v" and x[1]=="Err")])
        ck.ob("components",v,p is None or refuses,r._where(p) if p else r.body.span,"a %s component is written whatever its value, but reading it back can fail: iterating over the address panics"%v,r.trail(p))
def builders(ck):
    """every construction, store and mutable borrow of the bytes of an address"""
    n_=0
    for b,how in ck.writers(BY):
        n_+=1; top=b
        r=ck.root(b,opaque=OP+("freeze",))
        for n in r.aggs("Multiaddr"):
            if n.body.key!=b.key: continue
            v=dict(r.agg_value(n)[3])["bytes"]; made(ck,b,r,n,v)
        for n in r.writes(BY):
            if n.body.key==b.key: made(ck,b,r,n,r.value(n))
        if how=="borrow":
            for n in r.nodes("call"):
                if n.extra is not None: continue
                a=r.args(n)
                if a and fld(BY)(strip_cast(a[0])) and last(r.g.qual(n)) not in("index","deref","as_ref","len","is_empty","clone","iter","to_vec","borrow","eq","hash","deref_mut","from","into"):
                    nm=last(r.g.qual(n)); rest=lambda e: CALL("from_bytes",anyx)(core_of(e)) and names_of(e)==["1"]
                    cur=lambda e: all(old(x) or rest(x) or strip_cast(x)[0]=="loop" for x in alts(e))
                    ok=(nm=="truncate" and (K(0)(a[1]) or (SUM([LEN(old)],[LEN(cur)])(a[1])))) or nm=="clear"
                    ck.ob("built","%s: cut at a component"%b.name,ok,r.loc(n),"the bytes of an address are changed by %s"%show(r.g.callval(n,0))[:100])
    ck.floor("built","places that build or change an address",n_,5)
    a=ck.p.adts.get(M+"Multiaddr"); ck.ob("built","private bytes",not any(v=="Public" for v in a["vis"]),a["loc"],"the bytes of an address can be set by anybody")
    for b,how in ck.writers(BY): ck.ob("built","%s in its own crate"%b.name,"tentacle_multiaddr" in b.key or "tentacle_multiaddr" in b.qual,b.span,"the bytes of an address are written outside its crate")
def made(ck,b,r,n,v):
    whole=CALL("index",lambda e: True)
    ob=strip_cast(v); inst=b.name
    if bare(ob)==("p",1) or P(1)(ob):
        rest=lambda e: CALL("from_bytes",anyx)(core_of(e)) and names_of(e)==["1"]
        start=lambda e: bare(e)==("p",1)
        cur=lambda e: all(start(x) or rest(x) or strip_cast(x)[0]=="loop" for x in alts(e)) and any(start(x) or strip_cast(x)[0]=="loop" for x in alts(e))
        done=CMP("==",LEN(cur),K(0))
        p=r.path(None,[n],avoid_edge=r.edge(done)); ck.ob("built","%s: read to the end first"%inst,p is None,r.loc(n),"bytes that were not read to the end become an address",r.trail(p))
        fb=r.calls("from_bytes")
        for c in fb: ck.ob("built","%s: reads what follows"%inst,cur(r.args(c)[0]),r.loc(c),"%s is read"%show(r.args(c)[0])[:60])
        er=r.after_edges(r.edges_where(IS(lambda e: CALL("from_bytes",anyx)(core_of(e)),"Err"))); p=r.path_from(er,set(r.states_of([n]))); ck.ob("built","%s: errors end it"%inst,p is None and bool(fb),r.loc(n),"bytes with an unreadable component become an address",r.trail(p))
        # progress only past what was read
        return
    fresh=CALL(("BytesMut::new","BytesMut::with_capacity","Vec::new","Vec::with_capacity","Bytes::new"))(ob); cp=old(ob) or CALL(("to_vec","from"),old)(ob)
    ck.ob("built","%s: a new buffer"%inst,fresh or cp,r.loc(n),"an address is made of %s"%show(ob)[:80])
    if not(fresh or cp): return
    ap=[c for c in r.calls(*APP,"set_len","clear","truncate","split_to","advance","insert","remove","reverse","split_off","swap","extend_with") if r.args(c) and strip_cast(r.args(c)[0])==ob]
    for c in ap:
        nm=last(r.g.qual(c)); a=r.args(c)
        ok=(nm in("copy_from_slice","extend_from_slice","put","put_slice","extend") and old(a[1])) or (nm=="set_len" and LEN(old)(a[1]))
        ck.ob("built","%s: components only"%inst,ok,r.loc(c),"%s goes into an address"%show(a[-1])[:60])
        if nm=="set_len":
            fill=[d for d in ap if last(r.g.qual(d))=="copy_from_slice"]; p=r.path([c],[n],avoid=fill); ck.ob("built","%s: no uninitialised bytes"%inst,p is None,r.loc(c),"uninitialised bytes become part of an address",r.trail(p))
    ws=[c for c in r.calls("write_to_bytes") if strip_cast(r.args(c)[1])==ob]
    pre=[c for c in ap]
    p=r.path(ws,pre); ck.ob("built","%s: old components first"%inst,p is None,r.loc(n),"old components are copied over new ones",r.trail(p))
RULES=[("total",["molc"],total_),("components",["molc"],refuse),("built",["molc"],builders)]
