"""Nonce discipline is decided as an automaton over every path of the cipher implementations (advance, then at most one seal/open, with that
nonce); the counter function is checked to be a carry increment; what reaches a reader is traced back to the result of a successful open. All three cipher
implementations are analysed (OpenSSL as built for use; ring and pure-Rust in the test configuration)."""
from sec import *
CONFIGS=["molc","alt"]
ASSUMES=["AES-GCM and ChaCha20-Poly1305 of openssl/ring/chacha20poly1305 are authenticated encryption for distinct nonces; a connection carries fewer than 2^96 records",
 "ring's SealingKey/OpeningKey call NonceSequence::advance exactly once per record"]
SEAL=("encrypt_aead","decrypt_aead","Aead::encrypt","Aead::decrypt","symm::encrypt","symm::decrypt")
NA="tentacle_secio::crypto::nonce_advance"
OS="tentacle_secio::crypto::openssl_impl::OpenSSLCrypt::"; WA="tentacle_secio::crypto::wasm_compat::WasmCrypt::"; RI="tentacle_secio::crypto::ring_impl::"
RD="<tentacle_secio::codec::secure_stream::SecureStream as tokio::io::async_read::AsyncRead>::poll_read"
WR="<tentacle_secio::codec::secure_stream::SecureStream as tokio::io::async_write::AsyncWrite>::poll_write"
OPQ=("fmt","RecvBuf::len","RecvBuf::is_empty","drain_to","poll_next_unpin","decrypt","encrypt","decrypt_in_place","is_in_place")

def counter(ck):
    r=ck.root(NA); item=lambda e: pay(CALL("next"),"Some")(e) and HAS(P(1))(e)
    st=[n for n in r.nodes("assign") if n.data[0][1] and n.data[0][1][-1][0]=="*"]
    more=lambda e: CALL("wrapping_add",item,K(1))(strip_cast(e)) or strip_cast(e)[0]=="f" and strip_cast(e)[2]=="0" and CALL("overflowing_add",item,K(1))(strip_cast(e)[1])
    zero=[n for n in st if K(0)(r.value(n))]; wrap=[n for n in st if more(r.value(n))]; inc=[n for n in st if n not in zero+wrap]
    ck.floor("counter","carry store",len(zero+wrap),1,r.body.span); ck.floor("counter","increment store",len(inc+wrap),1,r.body.span)
    MAX=lambda e: K(255)(e) or (strip_cast(e)[0]=="const" and last(strip_cast(e)[1])=="MAX")
    ismax=r.edge(ANYF(CMP("==",item,MAX),CMP("<=",MAX,item),CMP("<",K(254),item))); notmax=r.edge(ANYF(CMP("!=",item,MAX),CMP("<",item,MAX)))
    it=[n for n in r.calls("next")]
    for n in it:
        a=r.args(n)[0]; bad=[x for x in subs(a) if x[0]=="call" and last(x[1]) not in("next","iter_mut","into_iter","as_mut","deref_mut")]
        ck.ob("counter","all bytes",HAS(P(1))(a) and not bad and not HAS(CALL(("index","index_mut","skip","take","rev")))(a),r.loc(n),"the counter goes over %s"%show(a))
    for n in zero:
        p=r.path(None,[n],avoid_edge=ismax); ck.ob("counter","carry only from 255",p is None,r.loc(n),"a byte is reset without having overflowed",r.trail(p))
        p=r.path([n],r.exits(lambda v:True),avoid=it) if it else None
        ck.ob("counter","carry goes on",p is None,r.loc(n),"after a byte overflows the next one is not advanced: nonces repeat every 256 records",r.trail(p))
    for n in inc:
        v=r.value(n); ck.ob("counter","increment by one",SUM([item,K(1)])(v),r.loc(n),"the counter byte becomes %s"%show(v))
        p=r.path(None,[n],avoid_edge=notmax); ck.ob("counter","no overflow",p is None,r.loc(n),"the byte is incremented when it may be 255",r.trail(p))
        p=r.path([n],st); ck.ob("counter","one increment",p is None,r.loc(n),"a second byte is changed after the increment",r.trail(p))
    over=lambda e: strip_cast(e)[0]=="f" and strip_cast(e)[2]=="1" and CALL("overflowing_add",item,K(1))(strip_cast(e)[1]); now=lambda e: item(e) or more(e)
    carry=r.edge(ANYF(TRUE(over),CMP("==",now,K(0)))); kept=r.edge(ANYF(FALSE(over),CMP("!=",now,K(0)),CMP("<",K(0),now)))
    for n in wrap:
        p=r.path([n],r.exits(lambda v:True),avoid=it,avoid_edge=kept); ck.ob("counter","carry goes on",p is None,r.loc(n),"after a byte overflows the next one is not advanced: nonces repeat every 256 records",r.trail(p))
        p=r.path([n],st,avoid_edge=carry); ck.ob("counter","one increment",p is None,r.loc(n),"a second byte is changed after the increment",r.trail(p))
    # every entry leads to one of the stores unless all bytes were visited
    done=r.edge(IS(CALL("next"),"None"))
    p=r.path(None,r.exits(lambda v:True),avoid=st,avoid_edge=done)
    ck.ob("counter","always advances",p is None,r.body.span,"a path leaves the nonce unchanged",r.trail(p))

def nonce_use(ck,quals,field,keyok):
    for q in quals:
        r=ck.root(q,opaque=("nonce_advance",))
        iv=lambda e: HAS(lambda x: strip_cast(x)[0]=="f" and strip_cast(x)[2]=="iv" and SELF(strip_cast(x)[1]))(e)
        adv=r.calls("nonce_advance",arg=lambda a: iv(a[0])); seal=r.calls(*SEAL)
        ck.floor("nonce-per-record",last(q)+" cipher calls",len(seal),1,r.body.span)
        A={n.id for n in adv}; S={n.id for n in seal}
        for n in seal:
            p=r.path(None,[n],avoid=adv)
            ck.ob("nonce-per-record","%s advances first"%tail(q),p is None,r.loc(n),"the cipher is used with a nonce that was not advanced",r.trail(p))
            p=r.path([n],seal,avoid=adv)
            ck.ob("nonce-per-record","%s one use"%tail(q),p is None,r.loc(n),"two records are processed with one nonce",r.trail(p))
            for m in adv:
                p=r.path([m],adv,avoid=seal); ck.ob("nonce-per-record","%s one step"%tail(q),p is None,r.loc(m),"the nonce is advanced twice for a record, out of step with the other end",r.trail(p))
            a=r.args(n); na=[x for x in a if iv(x)]
            ck.ob("nonce-per-record","%s nonce argument"%tail(q),len(na)==1,r.loc(n),"the nonce given to the cipher is not the advanced one: %s"%", ".join(show(x)[:40] for x in a))
            ck.ob("nonce-per-record","%s key"%tail(q),any(keyok(x) for x in a),r.loc(n),"the key is not this direction's")
        # every path that returns has consumed exactly one nonce (both ends stay in step), apart from error returns
        p=r.path(None,r.exits(okexit),avoid=adv)
        ck.ob("nonce-per-record","%s every result"%tail(q),p is None,r.body.span,"a record is processed without advancing the nonce",r.trail(p))
def tail(q): return "::".join(q.split("::")[-2:])
def openssl(ck):
    nonce_use(ck,[OS+"encrypt",OS+"decrypt"],"iv",lambda e: fld("OpenSSLCrypt.key")(e))
    tag=lambda e: const_num(e)==16
    r=ck.root(OS+"encrypt")
    for n in r.calls("encrypt_aead"):
        a=r.args(n); ck.ob("tag","sealed data",P(2)(a[4]),r.loc(n),"what is encrypted is %s, not the whole record"%show(a[4]))
        t=a[5]; ok=CALL("encrypt_aead"); out=pay(ok,"Ok")
        ap=[m for m in r.calls("append","extend_from_slice","extend","put","put_slice") if out(r.args(m)[0]) and strip_cast(r.args(m)[1])==strip_cast(t)]
        ck.ob("tag","tag appended",bool(ap) and r.path(None,r.exits(okexit),avoid=ap) is None,r.loc(n),"a record can be sent without the tag computed for it")
        ck.ob("tag","tag length",sized(r,t,16),r.loc(n),"the tag buffer is %s, not 16 bytes"%show(t))
    vs=[v for v in retvals(r) if v[0]=="agg" and v[2]=="Ok"]; ck.floor("tag","encrypt results",len(vs),1)
    for v in vs: ck.ob("tag","sealed result",pay(CALL("encrypt_aead"),"Ok")(dict(v[3])["0"]),r.body.span,"encrypt returns %s"%show(v)[:80])
    r=ck.root(OS+"decrypt")
    cut=lambda e: pay(CALL("checked_sub",LEN(P(2)),tag),"Some")(e) or SUM([LEN(P(2))],[tag])(e)
    for n in r.calls("decrypt_aead"):
        a=r.args(n)
        ck.ob("tag","opened data",prefix(a[4],cut),r.loc(n),"the cipher text opened is %s"%show(a[4])[:100])
        ck.ob("tag","checked tag",suffix(a[5],cut),r.loc(n),"the tag checked is %s"%show(a[5])[:100])
    dec=lambda e: CALL("decrypt_aead")(core_of(e))
    for v in retvals(r):
        if v[0]=="agg" and v[2]=="Ok": ck.ob("tag","opened result",dec(dict(v[3])["0"]),r.body.span,"decrypt returns %s"%show(v)[:80])
        elif v[0]!="agg": ck.ob("tag","opened result",direct(v,"decrypt_aead") ,r.body.span,"decrypt returns %s"%show(v)[:80])
    ck.floor("tag","decrypt results",len(retvals(r)),1)
def given(r):
    """successes that are the outcome of the whole function"""
    vs=[strip_cast(x) for o in retvals(r) for x in alts(o)]; vs+=[strip_cast(y) for x in vs if AGG("Poll","Ready")(x) for y in alts(dict(x[3])["0"])]
    return [n for n in r.aggs("Result","Ok") if strip_cast(r.agg_value(n)) in vs]
def direct(v,nm):
    """a Result passed on unchanged in its Ok part"""
    v=strip_cast(v)
    while v[0]=="call" and last(v[1]) in("map_err","from_residual","into"): v=strip_cast(v[2][0])
    return v[0]=="call" and match_name(v[1],nm) or v[0] in("err","errof")
def prefix(e,cut):
    e=strip_cast(e)
    return (CALL(("index","get"),P(2),lambda x:AGG("RangeTo",None,end=cut)(x))(e) or (e[0]=="f" and e[2]=="0" and CALL(("split_at","split_at_mut"),P(2),cut)(e[1])))
def suffix(e,cut):
    e=strip_cast(e)
    return (CALL(("index","get"),P(2),lambda x:AGG("RangeFrom",None,start=cut)(x))(e) or (e[0]=="f" and e[2]=="1" and CALL(("split_at","split_at_mut"),P(2),cut)(e[1])))
def sized(r,t,n):
    t=strip_cast(t)
    if t[0]=="rep": return const_num(t[2])==n if len(t)>2 else False
    if t[0]=="call" and last(t[1])=="from_elem": return const_num(t[2][1])==n
    if t[0]=="call" and last(t[1]) in("with_capacity","new"):
        return any(const_num(r.args(m)[1])==n for m in r.calls("set_len","resize") if strip_cast(r.args(m)[0])==t)
    return False
def others(ck):
    nonce_use(ck,[WA+"encrypt",WA+"decrypt"],"iv",lambda e: fld("WasmCrypt.cipher")(e))
    r=ck.root("<tentacle_secio::crypto::ring_impl::RingNonce as ring::aead::NonceSequence>::advance",opaque=("nonce_advance",))
    adv=r.calls("nonce_advance"); use=r.calls("try_assume_unique_for_key","assume_unique_for_key")
    ck.floor("nonce-per-record","ring nonce",len(use),1,r.body.span)
    for n in use:
        p=r.path(None,[n],avoid=adv); ck.ob("nonce-per-record","ring advances first",p is None,r.loc(n),"ring is given a nonce that was not advanced",r.trail(p))
        ck.ob("nonce-per-record","ring one step",r.path(adv,adv) is None and all(strip_cast(r.args(m)[0])==strip_cast(r.args(n)[0]) for m in adv),r.loc(n),"the nonce advanced is not the one used")
    for q in("encrypt","decrypt","decrypt_in_place"):
        r=ck.root(RI+"RingAeadCipher::"+q); nm="seal_in_place_append_tag" if q=="encrypt" else "open_in_place"
        cs=r.calls(nm); ck.floor("tag","ring "+q,len(cs),1,r.body.span)
        okk=r.edge(IS(CALL(nm),"Ok")); p=r.path(None,r.exits(okexit),avoid_edge=okk)
        ck.ob("tag","ring %s result"%q,p is None,r.body.span,"%s returns data that was not authenticated"%q,r.trail(p))

def fields(ck):
    """nobody else touches a nonce"""
    for own in("OpenSSLCrypt","WasmCrypt"):
        if ck.cfg=="molc" and own=="WasmCrypt": continue
        ws=[(b,h) for b,h in ck.writers(own+".iv") if "::test" not in b.qual]
        ck.floor("nonce-writers",own,len(ws),1)
        for b,h in ws:
            ok={"agg":("new",),"borrow":("encrypt","decrypt"),"write":()}[h]
            ck.ob("nonce-writers","%s %s in %s"%(own,h,b.qual),last(b.qual) in ok,b.span,"the nonce is changed outside the per-record advance")
        r=ck.root((OS if own=="OpenSSLCrypt" else WA)+"new")
        for n in r.aggs(own):
            v=dict(r.agg_value(n)[3]).get("iv",("?",)); z=strip_cast(v)
            z=(z[0]=="call" and last(z[1])=="from_elem" and K(0)(z[2][0])) or HAS(lambda x:x[0]=="rep" and K(0)(x[1]))(v) or HAS(CALL("zeroed"))(v)
            fill=[m for m in r.calls("write_bytes","resize","put_bytes","fill") if HAS(lambda x,v=v: strip_cast(x)==strip_cast(v))(r.args(m)[0]) and any(K(0)(y) for y in r.args(m)[1:])]
            ck.ob("nonce-writers",own+" first nonce",z or (bool(fill) and r.path(None,[n],avoid=fill) is None),r.loc(n),"a direction starts with nonce %s, not with a fixed one both ends know"%show(v)[:80])

def reads(ck):
    r=ck.root(RD,opaque=OPQ); dc=lambda e: fld("SecureStream.decode_cipher")(e)
    rb=lambda e: fld("SecureStream.recv_buf")(e); out=lambda e: HAS(P(3))(e)
    poll=r.calls("poll_next_unpin","poll_next"); ck.floor("reads","socket polls",len(poll),1,r.body.span)
    op=r.calls("decrypt","decrypt_in_place"); ck.floor("reads","opens",len(op),1,r.body.span)
    empty=r.edge(CMP("==",LEN(rb),K(0)))
    for n in poll:
        p=r.path(None,[n],avoid_edge=empty); ck.ob("reads","buffered first",p is None,r.loc(n),"a new record is read while decrypted bytes are waiting: they would be overtaken or lost",r.trail(p))
    for n in op:
        a=r.args(n); ck.ob("reads","cipher",dc(a[0]),r.loc(n),"records are opened with %s"%show(a[0]))
        ck.ob("reads","record",HAS(CALL(("poll_next_unpin","poll_next")))(a[1]) and not HAS(CALL(("index","split_to","split_off")))(a[1]),r.loc(n),"what is opened is %s, not the received record"%show(a[1])[:90])
        p=r.path([n],op,avoid=poll); ck.ob("reads","opened once",p is None,r.loc(n),"one record is opened twice",r.trail(p))
    okopen=r.edge(IS(CALL(("decrypt","decrypt_in_place")),"Ok"))
    def plain(e):
        for x in alts(e):
            x=strip_cast(x); x=dict(x[3]).get("0",x) if x[0]=="agg" else x
            for y in alts(x):
                y=strip_cast(y)
                while y[0]=="d" or (y[0]=="f" and y[1][0]=="d" and y[1][2] in("Byte","Vec")): y=strip_cast(y[1])
                y=dict(y[3]).get("0",y) if y[0]=="agg" else y
                if not(pay(CALL("decrypt"),"Ok")(y) or HAS(CALL(("poll_next_unpin","poll_next")))(y)): return False
        return True
    ws=r.writes("SecureStream.recv_buf"); cp=[n for n in r.calls("copy_from_slice","clone_from_slice","put_slice") if out(r.args(n)[0])]; dr=r.calls("drain_to")
    ck.floor("reads","deliveries",len(cp)+len(dr),2,r.body.span)
    for n in ws+cp:
        v=r.value(n) if n in ws else r.args(n)[1]
        ck.ob("reads","only opened records",plain(v),r.loc(n),"bytes are delivered that did not come from an opened record: %s"%show(v)[:90])
        p=r.path(None,[n],avoid_edge=okopen); ck.ob("reads","after authentication",p is None,r.loc(n),"bytes are delivered although no record was authenticated",r.trail(p))
    for n in ws:
        p=r.path(None,[n],avoid_edge=empty); ck.ob("reads","nothing overwritten",p is None,r.loc(n),"waiting bytes are overwritten",r.trail(p))
        p=r.path([n],poll); ck.ob("reads","not skipped",p is None,r.loc(n),"a record is read over one just stored",r.trail(p))
    # after a successful open: data stored, or copied entirely, before returning success
    for n in cp:
        v=r.args(n)[1]; d=r.args(n)[0]; ln=lambda e: LEN(lambda x: plain(x))(e)
        ck.ob("reads","whole record copied",(CALL("index_mut",P(3),lambda x:AGG("RangeTo",None,end=ln)(x))(d) and not HAS(CALL("index"))(strip_cast(v))),r.loc(n),"only part of a record is copied and the rest forgotten: %s"%show(d)[:100])
        p=r.path(None,[n],avoid_edge=r.edge(LE(ln,LEN(P(3))))); ck.ob("reads","fits",p is None,r.loc(n),"a record is copied into a buffer that may be too small",r.trail(p))
        p=r.path([n],[m for m in ws+dr+cp]); ck.ob("reads","delivered once",p is None,r.loc(n),"bytes already copied are delivered again",r.trail(p))
    suc=[s for s in r.exits(okexit)]
    p=r.path_from(r.after_edges(r.edges_where(IS(CALL(("decrypt","decrypt_in_place")),"Ok"))),set(suc),avoid=ws+cp)
    ck.ob("reads","nothing dropped",p is None,r.body.span,"an opened record is not delivered",r.trail(p))
    for n in dr:
        a=r.args(n); mn=lambda e: CALL("min")(e) and any(LEN(rb)(x) for x in strip_cast(e)[2]) and any(LEN(P(3))(x) for x in strip_cast(e)[2])
        ck.ob("reads","drain amount",rb(a[0]) and P(3)(a[1]) and (mn(a[2]) or strip_cast(a[2])[0]=="min"),r.loc(n),"the buffer is drained by %s"%show(a[2]))
        p=r.path([n],dr+cp); ck.ob("reads","drained once",p is None,r.loc(n),"two deliveries in one read",r.trail(p))
    # the number reported is the number delivered
    ck.floor("reads","outcomes",len(given(r)),1,r.body.span)
    for n in given(r):
        v=dict(r.agg_value(n)[3])["0"]
        for x in alts(v):
            x=strip_cast(x)
            good=K(0)(x) or x[0]=="min" or CALL("min")(x) or LEN(plain)(x)
            ck.ob("reads","count reported",good,r.loc(n),"the read reports %s bytes"%show(x)[:80])
    q=ck.root("tentacle_secio::codec::secure_stream::RecvBuf::drain_to")
    cps=q.calls("copy_from_slice","copy_to_slice"); ck.floor("drain","copies",len(cps),1,q.body.span)
    dst=lambda e: CALL("index_mut",P(2),lambda x:AGG("RangeTo",None,end=P(3))(x))(e)
    src=lambda e: CALL(("index","drain","split_to"),lambda x:pay(SELF,"*")(x),lambda x:AGG("RangeTo",None,end=P(3))(x) or P(3)(x))(strip_cast(e))
    for n in cps:
        a=q.args(n); ck.ob("drain","copied",dst(a[0]) and src(a[1]),q.loc(n),"draining copies %s to %s"%(show(a[1])[:60],show(a[0])[:60]))
    rm=q.calls("drain","advance","split_to")
    for n in rm: 
        x=q.args(n)[1]; ck.ob("drain","removed",P(3)(x) or AGG("RangeTo",None,end=P(3))(x),q.loc(n),"draining removes %s"%show(x))
    p=q.path(None,q.exits(lambda v:True),avoid=rm); ck.ob("drain","always removed",p is None,q.body.span,"bytes copied to the reader stay in the buffer",q.trail(p))
    p=q.path(rm,rm); ck.ob("drain","removed once",p is None,q.body.span,"bytes are removed twice",q.trail(p))

def writes(ck):
    r=ck.root(WR,opaque=OPQ); ec=r.calls("encrypt"); ss=r.calls("start_send_unpin","start_send","feed")
    ck.floor("writes","seals",len(ec),1,r.body.span); ck.floor("writes","sends",len(ss),1,r.body.span)
    ready=r.edge(IS(lambda e: CALL(("poll_ready_unpin","poll_ready"))(core_of(e)),"Ok","Continue"))
    for n in ec:
        a=r.args(n); ck.ob("writes","cipher",fld("SecureStream.encode_cipher")(a[0]),r.loc(n),"records are sealed with %s"%show(a[0]))
        ck.ob("writes","whole buffer",P(3)(a[1]),r.loc(n),"what is sealed is %s"%show(a[1]))
        p=r.path(None,[n],avoid_edge=ready); ck.ob("writes","socket ready",p is None,r.loc(n),"a record is sealed although the socket cannot take it: the nonce is spent and the data sealed again later",r.trail(p))
        p=r.path([n],r.exits(lambda v:okexit(v) or pending(v)),avoid=ss); ck.ob("writes","sealed is sent",p is None,r.loc(n),"a sealed record is not sent",r.trail(p))
        p=r.path([n],ec); ck.ob("writes","sealed once",p is None,r.loc(n),"data is sealed twice",r.trail(p))
        p=r.path([n],r.exits(pending)); ck.ob("writes","no retry after sealing",p is None,r.loc(n),"Pending is returned after the record was sent: the caller sends it again",r.trail(p))
    for n in ss:
        a=r.args(n); ck.ob("writes","only sealed",pay(CALL("encrypt"),"Ok")(a[1]),r.loc(n),"%s is sent"%show(a[1])[:80])
        p=r.path([n],ss); ck.ob("writes","sent once",p is None,r.loc(n),"a record is sent twice",r.trail(p))
    ck.floor("writes","outcomes",len(given(r)),1,r.body.span)
    for n in given(r):
            v=dict(r.agg_value(n)[3])["0"]; ck.ob("writes","count reported",LEN(P(3))(v),r.loc(n),"the write reports %s"%show(v))
            p=r.path(None,[n],avoid=ss); ck.ob("writes","success means sent",p is None,r.loc(n),"success is reported for data that was not sent",r.trail(p))
def pending(v): return v is not None and v[0]=="v" and v[1]=="Pending"

def users(ck):
    """the ciphers of a stream are used by its read and write halves only"""
    for f,allowed in(("decode_cipher",("decode_buffer","poll_read","new")),("encode_cipher",("encode_buffer","poll_write","new"))):
        for b in ck.p.bodies.values():
            if not b.qual.replace("<","").startswith("tentacle_secio") or "::test" in b.qual: continue
            if mentions(b,f):
                pub=b.vis=="pub" and " as " not in b.qual
                ck.ob("cipher-users","%s used in %s"%(f,b.qual),not pub or last(b.qual) in allowed,b.span,"%s is reachable from outside the record layer"%f)
def mentions(b,f):
    def go(x):
        if isinstance(x,(list,tuple)): return any(go(y) for y in x)
        return isinstance(x,str) and (x==f or x.endswith("."+f))
    return any(go(bl["s"]) or go(bl["t"]) for bl in b.blocks)
RULES=[("counter",["molc"],counter),("openssl",["molc"],openssl),("others",["alt"],others),("nonce-writers",["molc","alt"],fields),("reads",["molc"],reads),("writes",["molc"],writes),("cipher-users",["molc"],users)]
