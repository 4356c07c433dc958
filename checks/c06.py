"""Every construction of a peer id reachable from a public function is classified: validated bytes (all four facts established on every path)
or code, length and SHA-256 digest written by the library. Conversions are checked to pass the bytes through unchanged."""
from sec import *
CONFIGS=["molc"]
ASSUMES=["base58 encoding of crate bs58 is a bijection between byte strings and canonical texts (its decoder accepts only its alphabet)"]
Q="tentacle_secio::peer_id::PeerId::"
OPQ=("fmt",)
def secio(b): return b.qual.replace("<","").startswith("tentacle_secio") and "::test" not in b.qual
def build(b): return any(st[0]=="=" and st[2][0]=="agg" and st[2][1]=="adt" and last(st[2][2])=="PeerId" for bl in b.blocks for st in bl["s"])
def constructions(ck):
    makers=[b for b in ck.p.bodies.values() if build(b) and "::test" not in b.qual]
    ck.floor("construction","functions building a peer id",len(makers),2)
    for b in makers: ck.ob("construction","who: "+b.qual,secio(b),b.span,"a peer id is built outside its crate")
    seen=set(); n_ok=0
    for b in sorted(ck.p.bodies.values(),key=lambda b:b.qual):
        if not secio(b) or b.kind=="closure" or b.vis!="pub": continue
        if "::peer_id::" not in b.qual or " as core::clone" in b.qual: continue
        r=ck.root(b,opaque=OPQ)
        for n in r.aggs("PeerId"):
            v=dict(r.agg_value(n)[3])["inner"]; seen.add(n.body.qual); n_ok+=1
            inst="%s in %s"%(n.body.qual.split("::")[-1],b.qual.split("::")[-1])
            if digest_shape(ck,r,n,v,inst): continue
            multihash(ck,r,"construction",inst,[n],lambda e,v=v: strip_cast(e)==strip_cast(v))
    ck.floor("construction","analysed",n_ok,3)
    for b in makers:
        if " as core::clone" in b.qual: continue
        ck.ob("construction","covered: "+b.qual,b.qual in seen,b.span,"a peer id is built here on a path not analysed")
def fills(r,v):
    """(offset range, value) of everything stored in the buffer"""
    out=[]; me=lambda e: strip_cast(e)==strip_cast(v)
    for n in r.calls("copy_from_slice","clone_from_slice"):
        d,s=r.args(n)[:2]; d=strip_cast(d)
        if CALL("index_mut",me)(d): out.append((n,d[2][1],s))
    for n in r.nodes("assign"):
        if not n.data[0][1]: continue
        d=strip_cast(r.g.place(n.data[0],n.ctx,n.id,0))
        if CALL("index_mut",me)(d): out.append((n,d[2][1],r.value(n)))
        if d[0]=="idx" and me(d[1]): out.append((n,d[2],r.value(n)))
    return out
def digest_shape(ck,r,n,v,inst):
    code=lambda e: CALL(("encode::u16","encode::u8","encode::u32"),KN(18))(e)
    dig=lambda e: CALL("finish",HAS(CALL("new")))(core_of(e))
    one=lambda e: KN(1)(e) or LEN(code)(e)
    two=lambda e: KN(2)(e) or SUM([LEN(code),KN(1)])(e)
    fs=fills(r,v)
    tr=r.transcript(n,v)
    put=[]
    if not fs and tr and len(tr)==1:
        put=[r.args(r.g.nodes[i])[1] for i in next(iter(tr))]
        if len(put)!=3: return False
        got=dict(zip(("code","len","digest"),put))
        okl=KN(32)(got["len"]); okc=code(got["code"]) or KN(18)(got["code"]); okd=dig(got["digest"])
    elif fs:
        okc=okl=okd=False
        for m,at,val in fs:
            must=r.path(None,[n],avoid=[m]) is None
            if not must: continue
            if code(val) and AGG("RangeTo",None,end=one)(at): okc=True
            if KN(18)(val) and KN(0)(at): okc=True
            if KN(32)(val) and one(at): okl=True
            if dig(val) and AGG("RangeFrom",None,start=two)(at): okd=True
        put=[x[2] for x in fs]
        sz=[m for m in r.calls("resize") if strip_cast(r.args(m)[0])==strip_cast(v)]
        okl=okl and (any(SUM([LEN(code),KN(1),KN(32)])(r.args(m)[1]) or KN(34)(r.args(m)[1]) for m in sz) or HAS(KN(34))(v))
    else: return False
    ck.ob("construction",inst+" code",okc,r.loc(n),"the hash code written is not SHA-256's")
    ck.ob("construction",inst+" length",okl,r.loc(n),"the length written is not the digest's")
    ck.ob("construction",inst+" digest",okd,r.loc(n),"the digest is not written behind the header")
    for x in put:
        if dig(x):
            fin=[m for m in r.calls("finish") if strip_cast(r.g.callval(m,0))==core_of(x) or True][:1]
            ctx=core_of(x)[2][0]; s=r.transcript(fin[0],ctx,("Context::update","update"))
            ins=[r.args(r.g.nodes[i])[1] for i in next(iter(s))] if s and len(s)==1 else None
            ins=[] if ins is None else list(dict.fromkeys(ins))
            nm=last(r.body.qual)
            want=(lambda e: HAS(lambda x: x[0]=="p")(e)) if nm not in("random","default") else (lambda e: True)
            ck.ob("construction",inst+" hashed",len(ins)==1 and want(ins[0]) and not HAS(CALL(("index","get")))(ins[0]) and HAS(lambda y: y[0]=="const" and last(y[1])=="SHA256" or (y[0]=="call" and "ha256" in y[1]))(ctx),r.loc(n),"the digest is over %s, not the whole key"%[show(i)[:60] for i in ins])
    return True
def conversions(ck):
    for nm,want in(("as_bytes",lambda e: fld("PeerId.inner")(e)),("into_bytes",lambda e: fld("PeerId.inner")(e)),
      ("to_base58",lambda e: CALL("into_string",CALL("bs58::encode",fld("PeerId.inner")))(e))):
        r=ck.root(Q+nm); vs=retvals(r); ck.floor("conversion",nm,len(vs),1,r.body.span)
        for v in vs: ck.ob("conversion",nm,want(v),r.body.span,"%s returns %s"%(nm,show(v)[:80]))
    r=ck.root("<tentacle_secio::peer_id::PeerId as core::str::traits::FromStr>::from_str",opaque=("PeerId::from_bytes",))
    cs=r.calls("PeerId::from_bytes"); ck.floor("conversion","parsed text",len(cs),1,r.body.span)
    for n in cs: ck.ob("conversion","text decoded",pay(CALL("into_vec",CALL("bs58::decode",P(1))),"Ok")(r.args(n)[0]),r.loc(n),"the text is decoded as %s"%show(r.args(n)[0])[:80])
    p=r.path(None,r.exits(lambda v: okexit(v)),avoid=cs); ck.ob("conversion","text validated",p is None,r.body.span,"a text is accepted without validating the bytes",r.trail(p))
    for v in retvals(r):
        ck.ob("conversion","text result",CALL("from_bytes")(core_of(v)) or v[0]=="agg" and (v[2]=="Err" or CALL("from_bytes")(core_of(dict(v[3])["0"]))) or v[0] in("err","errof") or CALL("from_residual")(v),r.body.span,"parsing returns %s"%show(v)[:80])
    r=ck.root("<tentacle_secio::peer_id::PeerId as core::cmp::PartialEq>::eq")
    fl=fld("PeerId.inner"); vs=retvals(r); ck.floor("conversion","equality",len(vs),1,r.body.span)
    for v in vs: ck.ob("conversion","equality",BIN("Eq",fl,fl)(v) and len({x for x in subs(v) if x[0]=="p"})==2,r.body.span,"ids are compared as %s"%show(v)[:80])
    hs=[b for b in ck.p.bodies.values() if b.qual=="<tentacle_secio::peer_id::PeerId as core::hash::Hash>::hash"]
    for b in hs:
        r=ck.root(b); ck.ob("conversion","hash",any(HAS(fl)(a) for n in r.nodes("call") for a in r.args(n)),b.span,"the hash does not use the id")
def keys(ck):
    sites=(("tentacle_secio::handshake::handshake_struct::PublicKey::peer_id",P(1)),("tentacle_secio::SecioKeyPair::peer_id",lambda e: HAS(lambda x:x[0]=="f" and x[2]=="private")(e)),
      ("<tentacle_secio::peer_id::PeerId as core::convert::From>::from",P(1)))
    for q,w in sites:
        r=ck.root(q,opaque=("PeerId::from_public_key",)); cs=r.calls("PeerId::from_public_key"); ck.floor("key-id",q,len(cs),1,r.body.span)
        for v in retvals(r): ck.ob("key-id",q.split("::")[-2],CALL(("from_public_key","PublicKey::peer_id"),w)(v),r.body.span,"the id returned is %s"%show(v)[:80])
    r=ck.root(Q+"is_public_key",opaque=("PeerId::from_public_key",))
    for v in retvals(r): ck.ob("key-id","is_public_key",BIN("Eq",CALL("from_public_key",P(2)),SELF)(v),r.body.span,"is_public_key is %s"%show(v)[:80])
    r=ck.root(Q+"from_public_key",opaque=("from_seed",)); cs=r.calls("from_seed")
    for n in cs: ck.ob("key-id","whole key",pay(P(1),"*")(r.args(n)[0]) or P(1)(r.args(n)[0]),r.loc(n),"the id is derived from %s"%show(r.args(n)[0])[:80])
RULES=[("construction",["molc"],constructions),("conversion",["molc"],conversions),("key-id",["molc"],keys)]
