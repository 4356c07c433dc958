"""On the fully inlined handshake: every path to a successful result crosses the true edge of the signature verification, whose
message, signature and key arguments trace back to the remote's hello, our hello and the remote's exchange; crosses the not-our-own-key
edge; and crosses the nonce comparison after a complete read. No path leads from a failed step to success; secure streams are built nowhere else."""
from sec import *
CONFIGS=["molc"]
ASSUMES=["secp256k1 verification, SHA-256 and the random generator do what their crates document",
 "the decoders return what was encoded (decided separately for hostile bytes in C14)"]
def CK(nm): return lambda e: core_of(e)[0]=="call" and match_name(core_of(e)[1],nm)
def EXDEC(f): return lambda e: CK("Exchange::decode")(e) and names_of(e)==[f]
def pubkey(e): return CK("PublicKey::decode")(e) and core_of(core_of(e)[2][0])[0]=="call" and CK("Propose::decode")(core_of(e)[2][0]) and names_of(core_of(e)[2][0])==["pubkey"]

def proof(ck):
    r=hs(ck); ok=r.exits(okexit)
    ck.floor("success","successful results",len(ok),1,r.body.span)
    vs=r.calls("verify")
    ck.floor("signature","signature verifications",len(vs),1,r.body.span)
    good=[]
    pd=[n for n in r.calls("Propose::decode")]; ck.floor("signature","hello decoded",len(pd),1)
    hello=strip_cast(r.args(pd[0])[0]) if pd else None
    ed=[n for n in r.calls("Exchange::decode")]; ck.floor("signature","exchange decoded",len(ed),1)
    ex=strip_cast(r.args(ed[0])[0]) if ed else None
    for what,e in(("hello",hello),("exchange",ex)):
        ck.ob("signature","the %s comes from the socket"%what,e is not None and HAS(CALL("next"))(e) and core_of(e)[0]=="call" and last(core_of(e)[1])=="poll",r.body.span,"the decoded %s is %s"%(what,show(e)[:120]))
    ck.ob("signature","hello and exchange are different messages",hello!=ex,r.body.span,"hello and exchange are decoded from the same message")
    snt=[n for n in r.calls("send")]
    mine=[strip_cast(r.args(n)[1]) for n in snt if len(r.args(n))>1]
    props=[e for e in mine if CK("Propose::encode")(e)]
    ck.floor("signature","our hello is sent",len(props),1,r.body.span)
    for v in vs:
        m,s,k=(r.args(v)+[("?",)]*3)[:3]
        okm=CK("message_from_slice")(m) and CK("sha256")(core_of(m)[2][0])
        seq=None
        if okm:
            hexpr=core_of(m)[2][0]; obj=core_of(hexpr)[2][0]
            hn=[n for n in r.calls("sha256") if strip_cast(r.args(n)[0])==strip_cast(obj)]
            seqs=r.transcript(hn[0],obj) if hn else None
            if seqs and len(seqs)==1:
                seq=([] if CALL(("BytesMut::new","BytesMut::with_capacity","Vec::new","Vec::with_capacity"))(strip_cast(obj)) else [strip_cast(obj)])+[strip_cast(r.args(r.g.nodes[i])[1]) for i in next(iter(seqs))]
                seq=flatten(seq)
        want=seq is not None and len(seq)==3 and seq[0]==hello and bool(props) and seq[1]==props[0] and EXDEC("epubkey")(seq[2])
        ck.ob("signature","signed message",want,r.loc(v),"the message verified is not SHA-256 of (remote hello, our hello, remote ephemeral key): %s"%(", ".join(show(x)[:60] for x in seq) if seq else show(m)[:120]))
        oks=CK("signature_from_der")(s) and EXDEC("signature")(core_of(s)[2][0])
        ck.ob("signature","signature",oks,r.loc(v),"the signature verified is %s, not the one in the remote's exchange"%show(s)[:120])
        okk=CK("pubkey_from_slice")(k) and pubkey(core_of(k)[2][0])
        ck.ob("signature","key",okk,r.loc(v),"the key used is %s, not the one in the remote's hello"%show(k)[:120])
        if want and oks and okk: good.append(v.id)
    p=r.path(None,ok,avoid_edge=r.edge(TRUE(CALL("verify"))))
    ck.ob("verified-before-success","all paths",p is None,r._where(p,-2),"a successful handshake can be reached without a verified signature",r.trail(p))
    # the key that is handed out is the verified one; the agreed key uses the ephemeral key that was signed
    rets=[n for n in r.nodes("assign") if n.data[0][0]==0 and n.ctx==0 and n.data[1][0]=="agg" and n.data[1][1]=="adt" and n.data[1][3]=="Ok"]
    ck.floor("key-handed-out","success values",len(rets),1)
    for n in rets:
        t=dict(r.value(n)[3]).get("0",("?",)); parts=dict(t[3]) if t[0]=="agg" else {}
        if not parts and t[0]=="tup": parts={str(i):x for i,x in enumerate(t[1])}
        ck.ob("key-handed-out","success value",any(pubkey(x) and not names_of(x) for x in parts.values()),r.loc(n),"the public key returned is not the decoded key of the remote's hello: %s"%show(t)[:200])
    ag=r.calls("agree"); ck.floor("agreement","key agreements",len(ag),1)
    for n in ag: ck.ob("agreement","remote ephemeral key",len(r.args(n))>2 and EXDEC("epubkey")(r.args(n)[2]),r.loc(n),"the shared secret is computed with %s, not the signed ephemeral key"%show(r.args(n)[-1])[:100])
def flatten(seq):
    out=[]
    for e in seq:
        if e[0]=="call" and last(e[1]) in("concat","bytes","from","copy_from_slice","to_vec","as_ref") and e[2]:
            a=e[2][0]
            if a[0]=="arr": out+=flatten([strip_cast(x) for x in a[1]]); continue
            out+=flatten([strip_cast(a)]); continue
        out.append(e)
    return out

def selfkey(ck):
    r=hs(ck); ok=r.exits(okexit)
    mine=HAS(CALL("public_key"))
    f=CMP("!=",lambda e:pubkey(e),lambda e:mine(e))
    p=r.path(None,ok,avoid_edge=r.edge(f))
    ck.ob("not-ourselves","all paths",p is None,r._where(p,-2),"a handshake can succeed without comparing the remote's key with our own",r.trail(p))

def failures(ck):
    r=hs(ck); ok=r.exits(okexit)
    n=0
    def bad(f): return (f[0]=="is" and f[2]<=frozenset(["Err","None"]) and not HAS(name("agreements_proposal","ciphers_proposal","digests_proposal"))(f[1])) or FALSE(CALL("verify"))(f)
    for nd in r.nodes("switch"):
        for i in range(len(nd.succ)):
            fa=r.u.edge_fact(nd.id,i)
            if fa is None or not bad(fa): continue
            ss=r.after_edges([(nd.id,i)])
            if not ss: continue
            n+=1
            p=r.path_from(ss,ok)
            ck.ob("failure-is-final","%s in %s"%(what(fa),nd.body.name),p is None,r.loc(nd),"after a failed step (%s) the handshake can still succeed"%show(fa)[:120],r.trail(p))
    ck.floor("failure-is-final","failing steps",n,8,r.body.span)
def what(f):
    c=core_of(f[1]); return (last(c[1]) if c[0]=="call" else c[0])+(" "+"/".join(sorted(f[2])) if f[0]=="is" else "")

def nonce(ck):
    r=hs(ck); ok=r.exits(okexit)
    fb=r.calls("fill_bytes")
    arr=[strip_cast(r.args(n)[1]) for n in fb if len(r.args(n))>1]
    ck.floor("own-nonce","random fills",len(fb),1,r.body.span)
    ck.ob("own-nonce","source",any(HAS(CALL(("thread_rng","OsRng","from_entropy")))(r.args(n)[0]) or "rng" in show(r.args(n)[0]).lower() for n in fb),r.body.span,"the nonce is not drawn from a random generator")
    enc=[n for n in r.calls("Propose::encode")]
    r.precede("own-nonce","drawn before the hello",fb,enc,"our hello is built before the nonce is drawn")
    for n in enc:
        a=r.args(n)[0]; d=dict(a[3]) if a[0]=="agg" else {}
        ck.ob("own-nonce","hello carries it","rand" in d and any(has(d["rand"],lambda x:x==z) for z in arr),r.loc(n),"the hello's random field is %s, not the drawn nonce"%show(d.get("rand",("?",)))[:80])
        pk=d.get("pubkey",("?",))
        ck.ob("own-key","hello carries our key",HAS(CALL("public_key"))(pk),r.loc(n),"the hello's key is %s"%show(pk)[:80])
    ss=r.aggs("SecureStream"); ck.floor("own-nonce","secure streams built",len(ss),1)
    for n in ss:
        v=dict(r.agg_value(n)[3]).get("nonce",("?",))
        ck.ob("own-nonce","kept for the comparison",any(has(v,lambda x:x==z) for z in arr),r.loc(n),"the nonce expected back is %s, not ours"%show(v)[:80])
    for a in arr: ck.ob("own-nonce","length",a[0]=="rep" and isinstance(a[2] if len(a)>2 else None,int) and a[2]>=16,r.body.span,"the nonce has fewer than 16 bytes: %s"%show(a))
    compare(ck,r,ok,"handshake")
    # echo
    wr=[n for n in r.calls("write_all")]
    ck.floor("nonce-echo","write of the remote's nonce",len([n for n in wr if CK("Propose::decode")(r.args(n)[1]) and names_of(r.args(n)[1])==["rand"]]),1,r.body.span)
def NONCE(e):
    e=strip_cast(e)
    if e[0]=="call" and last(e[1])=="to_vec": e=strip_cast(e[2][0])
    return e[0]=="rep" or fld("SecureStream.nonce")(e)
def BUF(e):
    """a fresh buffer of the nonce's length"""
    e=strip_cast(e)
    return e[0]=="call" and last(e[1])=="from_elem" and len(e[2])==2 and (LEN(NONCE)(e[2][1]) or K(16)(e[2][1]))
def WHOLE(e,NONCE=NONCE):
    """the nonce, or a slice of it that ends at the nonce's own length"""
    e=strip_cast(e)
    if NONCE(e): return True
    if e[0]=="call" and last(e[1])=="index" and len(e[2])==2 and NONCE(e[2][0]):
        d=dict(strip_cast(e[2][1])[3]) if strip_cast(e[2][1])[0]=="agg" else {}
        if "start" in d and not K(0)(d["start"]): return False
        if "end" not in d: return strip_cast(e[2][1])[1].endswith(("RangeFull","RangeFrom"))
        x=strip_cast(d["end"]); xs=x[1:] if x[0]=="min" else [x]
        return all(LEN(NONCE)(y) or LEN(BUF)(y) or (K(16)(y)) for y in xs)
    return False
def READ(e): return NONCE(e) or BUF(e)
def compare(ck,r,ok,inst):
    """success only across `whole nonce == whole nonce`, after a completed read of a buffer of the nonce's length"""
    eq=CMP("==",WHOLE,lambda e: WHOLE(e,READ)); emp=CMP("==",LEN(NONCE),K(0))
    p=r.path(None,ok,avoid_edge=r.edge(ANYF(eq,emp)))
    ck.ob("nonce-returned",inst+": compared",p is None,r._where(p,-2),"success is reached without comparing the whole returned nonce with ours",r.trail(p))
    tgt=set(r.after_edges(r.edges_where(eq)))
    full=r.edge(lambda f: f[0]=="is" and f[2]==frozenset(["Ok"]) and HAS(CALL("read_exact",anyx,READ))(f[1]))
    p=r.path(None,tgt,avoid_edge=full) if tgt else None
    ck.ob("nonce-returned",inst+": read completely first",p is None and bool(tgt),r._where(p,-2),"the nonces are compared without a completed read of the whole nonce",r.trail(p))

def nonce_fn(ck):
    r=ck.root(SS+"verify_nonce",opaque=("poll_read","read_exact","read","fmt"))
    compare(ck,r,r.exits(okexit),"verify_nonce")

def wrappers(ck):
    for fn,call,argn in(("verify",("verify","verify_ecdsa"),3),("message_from_slice",("from_slice","parse_slice"),1),("signature_from_der",("from_der","parse_der"),1),("pubkey_from_slice",("from_slice","parse_slice"),1)):
        b=ck.p.one("tentacle_secio::secp256k1_compat::"+fn) if hasattr(ck.p,"one") else None
        r=ck.root("tentacle_secio::secp256k1_compat::"+fn)
        cs=[n for n in r.calls(*call) if n.extra is None]
        good=[]
        for n in cs:
            a=[strip_cast(x) for x in r.args(n)]
            if all(("p",i+1) in a for i in range(argn)): good.append(n)
        ck.ob("wrappers",fn+" delegates",bool(good),r.body.span,"%s does not pass its arguments to the library's %s"%(fn,"/".join(call)))
        rt=r.exits(lambda v: v is not None and v[0]=="k" and v[1]) if fn=="verify" else set()
        if fn=="verify":
            rv=[show(x) for x in retvals(r)]
            ck.ob("wrappers","verify result",bool(retvals(r)) and all(CALL("is_ok",CALL(call))(x) or CALL(call)(x) or (x[0]=="is") for x in retvals(r)),r.body.span,"verify returns %s"%rv)
def retvals(r):
    out=[]
    for n in r.nodes():
        if n.ctx!=0: continue
        if n.kind=="assign" and n.data[0]==[0,[]]: out.append(r.value(n))
        if n.kind=="call" and n.data[3]==[0,[]]: out.append(r.g.callval(n,0))
    return [strip_cast(x) for x in out]

def only_way(ck):
    cs=[]
    for b in ck.p.bodies.values():
        for bl in b.blocks:
            t=bl["t"]
            if t[0]=="call" and t[1][0]=="fn" and match_name(t[1][1]["q"] or "","SecureStream::new"): cs.append(b)
            for s in bl["s"]:
                pass
    root=hs(ck).body
    ck.floor("only-way","places building a secure stream",len(cs),1)
    for b in cs: ck.ob("only-way","caller %s"%b.name,b.key==root.key,b.span,"%s builds a secure stream outside the handshake"%b.qual)
    wr=[b for b,w in ck.writers("SecureStream.nonce")]
    hc=[b for b in ck.p.bodies.values() for bl in b.blocks if bl["t"][0]=="call" and bl["t"][1][0]=="fn" and (bl["t"][1][1]["q"] or "")==HS]
    ck.floor("only-way","entry points of the handshake",len(hc),1)
RULES=[("proof",CONFIGS,proof),("self",CONFIGS,selfkey),("failures",CONFIGS,failures),("nonce",CONFIGS,nonce),("nonce_fn",CONFIGS,nonce_fn),("wrappers",CONFIGS,wrappers),("only_way",CONFIGS,only_way)]
