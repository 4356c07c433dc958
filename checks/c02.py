"""The handshake is analysed once per order of the two hashes: the value chosen on one end must be the mirror image of what the other
end computes with the roles and the order swapped (hash inputs, preferred list, key halves, directions). The name tables that write and read the
lists, and the key/iv/tag sizes against the ciphers built, are extracted from the code and compared entry by entry."""
from sec import *
from c23 import nopath
CONFIGS=["molc","alt"]
ASSUMES=["Diffie-Hellman agreement is symmetric and HMAC is a function (crates ring, openssl, x25519)"]
OPQ=OPAQUE+("Context::new","Context::update","Context::finish")
SITES=("next","decode","generate_agreement","new")
def ORD(e): return CALL("cmp")(e)
def CK(nm): return lambda e: core_of(e)[0]=="call" and match_name(core_of(e)[1],nm)
def theirs(f): return lambda e: CK("Propose::decode")(e) and names_of(e)==[f]
def role(e):
    """(side, what) of a hello ingredient"""
    e=strip_cast(e); c=core_of(e)
    if c[0]=="call" and match_name(c[1],"PublicKey::decode") and theirs("pubkey")(c[2][0]): return("remote","key")
    if theirs("rand")(e): return("remote","nonce")
    if c[0]=="call" and last(c[1])=="public_key": return("local","key")
    if HAS(lambda x:x[0]=="rep")(e): return("local","nonce")
    return None
def hashes(ck):
    r=ck.root(HS,opaque=OPQ,sited=SITES)
    cm=r.calls("cmp")
    ck.floor("role-order","comparisons deciding the roles",len(cm),1,r.body.span)
    for n in cm:
        a=r.args(n); seqs=[]
        for x in a[:2]:
            if not CK("Context::finish")(x): seqs.append(None); continue
            fin=[m for m in r.calls("Context::finish") if strip_cast(r.args(m)[0])==strip_cast(core_of(x)[2][0])]
            s=r.transcript(fin[0],core_of(x)[2][0],("Context::update",)) if fin else None
            seqs.append([role(r.args(r.g.nodes[i])[1]) for i in next(iter(s))] if s and len(s)==1 else None)
        ok=None not in seqs and None not in seqs[0]+seqs[1] and sw(seqs[0])==seqs[1] and set(seqs[0])|set(seqs[1])=={("local","key"),("local","nonce"),("remote","key"),("remote","nonce")}
        ck.ob("role-order","hash inputs",ok,r.loc(n),"the two hashes compared are over %s and %s, which are not mirror images"%tuple(seqs))
    # the same comparison decides everything
    for nm,fi,cfg in(("select_agreement","exchange","agreements_proposal"),("select_cipher","ciphers","ciphers_proposal"),("select_digest","hashes","digests_proposal")):
        cs=r.calls(nm); ck.floor("selection-inputs",nm,len(cs),1,r.body.span)
        enc=r.calls("Propose::encode")
        for n in cs:
            a=r.args(n)
            ck.ob("selection-inputs",nm+" order",ORD(a[0]),r.loc(n),"%s is given %s as the order"%(nm,show(a[0])[:80]))
            ck.ob("selection-inputs",nm+" theirs",theirs(fi)(a[2]),r.loc(n),"%s reads %s as the remote's list"%(nm,show(a[2])[-80:]))
            mine=offered(a[1])
            ck.ob("selection-inputs",nm+" ours",mine[0]=={cfg} and len(mine[1])==1,r.loc(n),"%s reads %s as our list"%(nm,show(a[1])[:100]))
            for m in enc:
                d=dict(r.args(m)[0][3]) if r.args(m)[0][0]=="agg" else {}
                ck.ob("selection-inputs",nm+" sent",offered(d.get(fi,("?",)),ck.p)==mine,r.loc(m),"the list sent as %s (%s) is not the one selection uses (%s)"%(fi,show(d.get(fi,("?",)))[:80],show(a[1])[:80]))
def offered(e,p=None):
    """(config fields, default texts) a list expression draws from"""
    cf={x[2] for x in subs(e) if x[0]=="f" and x[2].endswith("_proposal")}
    df={x[1] for x in subs(e) if x[0]=="c" and isinstance(x[1],str)}|closure_consts(e,p)
    return cf,df
def closure_consts(e,p):
    out=set()
    if p is None: return out
    for x in subs(e):
        if x[0]=="closure" or (x[0]=="agg" and "closure" in str(x[1])):
            for b in p.bodies.values():
                if b.key==x[1] or b.qual==x[1]:
                    for bl in b.blocks:
                        for s in bl["s"]: out|=strs(s)
                        out|=strs(bl["t"])
    return out
def strs(x):
    if isinstance(x,(list,tuple)):
        if len(x)>=3 and x[0]=="c" and x[1] in("&str","&'static str","&'{erased} str") and isinstance(x[2],str): return {x[2]}
        return set().union(*[strs(y) for y in x]) if x else set()
    return set()
def sw(seq): return [({"local":"remote","remote":"local"}[s],w) for s,w in seq]

def halves(ck):
    got={}
    for v in("Less","Greater","Equal"):
        r=ck.root(HS,opaque=OPQ,sited=SITES,assume=under(ORD,v))
        if v=="Equal":
            ck.ob("equal-fails","order Equal",not r.exits(okexit),r.body.span,"with equal hashes (a reflected hello) the handshake can succeed")
            continue
        ck.floor("key-halves","success with order "+v,len(r.exits(okexit)),1,r.body.span)
        ss=r.aggs("SecureStream"); ck.floor("key-halves","secure stream",len(ss),1,r.body.span)
        gs=r.calls("generate_stream_cipher_and_hmac")
        for n in gs: 
            a=r.args(n); m=strip_cast(a[1]); mode=m[2] if m[0]=="agg" else show(m)
            h=strip_cast(a[2])
            ok=h[0]=="f" and h[2] in("0","1") and CALL("split_at",anyx,BIN("Div",LEN(anyx),K(2)))(h[1])
            ck.ob("key-halves","half of %s with order %s"%(mode,v),ok,r.loc(n),"the key for %s is %s, not one half of the stretched key"%(mode,show(h)[:100]))
            got[(v,mode)]=(h[2] if ok else None,a[0],a[3],a[4],r.loc(n),h[1] if ok else None)
        d=dict(r.agg_value(ss[0])[3])
        for f,mode in(("decode_cipher","Decrypt"),("encode_cipher","Encrypt")):
            e=d.get(f,("?",)); c=core_of(e)
            ck.ob("key-halves","%s with order %s"%(f,v),CK("generate_stream_cipher_and_hmac")(e) and strip_cast(c[2][1])[0]=="agg" and strip_cast(c[2][1])[2]==mode,r.loc(ss[0]),"%s is %s"%(f,show(e)[:100]))
    if len(got)==4 and all(x[0] for x in got.values()):
        e,d=got[("Less","Encrypt")],got[("Greater","Decrypt")]
        ck.ob("key-halves","mirror",e[0]==d[0] and got[("Less","Decrypt")][0]==got[("Greater","Encrypt")][0],e[4],"what one end encrypts with is not what the other end decrypts with")
        ck.ob("key-halves","directions differ",got[("Less","Encrypt")][0]!=got[("Less","Decrypt")][0],e[4],"both directions use the same key")
        for v in("Less","Greater"):
            x,y=got[(v,"Encrypt")],got[(v,"Decrypt")]
            ck.ob("key-halves","parameters agree "+v,x[1:4]==y[1:4] and x[5]==y[5],x[4],"the two directions are built with different cipher, sizes or material")
            ck.ob("key-halves","sizes "+v,CALL("key_size",lambda e:e==x[1])(x[2]) and CALL("iv_size",lambda e:e==x[1])(x[3]) and CK("select_cipher")(x[1]),x[4],"key and iv sizes are not those of the selected cipher")
    else: ck.ob("key-halves","complete",False,"","the halves could not be determined: %s"%{k:v[0] for k,v in got.items()})

def key_source(ck):
    r=ck.root(HS,opaque=OPQ,sited=SITES)
    for n in r.calls("Hmac::from_key"):
        a=r.args(n)
        ck.ob("key-material","hmac digest",CK("select_digest")(a[0]),r.loc(n),"the key stretching uses %s"%show(a[0])[:80])
        ck.ob("key-material","hmac key",CK("agree")(a[1]),r.loc(n),"the stretched secret is %s, not the agreed one"%show(a[1])[:80])
    ck.floor("key-material","hmac keys",len(r.calls("Hmac::from_key")),1,r.body.span)
    ga=r.calls("generate_agreement"); ck.floor("key-material","ephemeral keys",len(ga),1)
    for n in r.calls("agree"):
        a=r.args(n)
        ck.ob("key-material","agreement",CK("select_agreement")(a[0]) and CK("generate_agreement")(a[1]),r.loc(n),"agree is called with %s"%show(a[0])[:80])
    for n in ga: ck.ob("key-material","ephemeral",CK("select_agreement")(r.args(n)[0]),r.loc(n),"the ephemeral key is for %s"%show(r.args(n)[0])[:80])
    ex=r.calls("Exchange::encode"); ck.floor("key-material","exchange sent",len(ex),1)
    for n in r.calls("stretch_key"):
        b=strip_cast(r.args(n)[1]); 
        ln=[x for x in subs(b) if x[0]=="bin" and x[1]=="Mul"]
        ck.ob("key-material","length",any(long_enough(x) for x in ln),r.loc(n),"the stretched key is not provably long enough for two keys and ivs: %s"%show(b)[:120])
def long_enough(e):
    fs=[strip_cast(e[2]),strip_cast(e[3])]
    for a,b in(fs,fs[::-1]):
        if K(2)(a):
            ts=[t for s,t in addends(b) if s>0]
            if any(CALL("iv_size")(t) for t in ts) and any(CALL("key_size")(t) for t in ts) and all(s>0 for s,_ in addends(b)): return True
    return False

def cipher_key(ck):
    r=ck.root("tentacle_secio::handshake::procedure::generate_stream_cipher_and_hmac",opaque=("new_stream",))
    cs=r.calls("new_stream"); ck.floor("cipher-key","cipher construction",len(cs),1,r.body.span)
    for n in cs:
        a=r.args(n)
        rest=lambda e: strip_cast(e)[0]=="f" and strip_cast(e)[2]=="1" and CALL("split_at",P(3),P(5))(strip_cast(e)[1])
        key=lambda e: strip_cast(e)[0]=="f" and strip_cast(e)[2]=="0" and CALL("split_at",rest,P(4))(strip_cast(e)[1])
        ck.ob("cipher-key","arguments",P(1)(a[0]) and key(a[1]) and P(2)(a[2]),r.loc(n),"the cipher is built with %s, %s, %s"%tuple(show(x)[:60] for x in a))

SELECT=(("select_agreement","key_agreements_proposition","KeyAgreement","DEFAULT_AGREEMENTS_PROPOSITION"),("select_cipher","ciphers_proposition","CipherType","DEFAULT_CIPHERS_PROPOSITION"),("select_digest","digests_proposition","Digest","DEFAULT_DIGESTS_PROPOSITION"))
def selection(ck):
    for sel,prop,en,dflt in SELECT:
        q="tentacle_secio::support::"+sel
        tab={}
        for v,outer,inner in(("Less",3,2),("Greater",2,3)):
            r=ck.root(q,assume=under(P(1),v))
            nx=r.calls("next"); ck.floor("preference",sel+" loop",len(nx),1,r.body.span)
            split=lambda i: CALL("split",P(i),K(44))
            of=lambda i: [n for n in nx if split(i)(r.args(n)[0])]
            el=lambda i: lambda e: CALL("next",split(i))(core_of(e))
            for n in nx: ck.ob("preference","%s %s lists"%(sel,v),n in of(outer)+of(inner),r.loc(n),"%s goes through %s"%(sel,show(r.args(n)[0])[:60]))
            more=r.edge(IS(CALL("next",split(outer)),"Some")); end=r.edge(IS(CALL("next",split(outer)),"None"))
            within=ANYF(CMP("==",el(outer),el(inner)),CMP("==",el(inner),el(outer)),TRUE(CALL("contains",HAS(split(inner)),el(outer))))
            nopath(ck,"preference","%s %s outer"%(sel,v),r,r.path(None,of(inner),avoid_edge=more),"with order %s %s goes through the other list first, which the other end does not mirror"%(v,sel))
            ck.floor("preference","%s %s names compared"%(sel,v),len(of(outer)),1,r.body.span)
            nopath(ck,"preference","%s %s whole list"%(sel,v),r,r.path_from(r.after_edges(r.edges_where(IS(CALL("next",split(outer)),"Some"))),of(inner),avoid=[n for n in r.calls("split","clone") if split(inner)(r.g.callval(n,0)) or split(inner)(r.args(n)[0])]),"the other list is not gone through from its start for each name",0)
            oks=[n for n in r.aggs("Result","Ok")]
            ck.floor("preference",sel+" results",len(oks),1,r.body.span)
            both=r.edge(within)
            sites=[]
            for n in oks:
                x=dict(r.agg_value(n)[3])["0"]; vals=alts(x); mk=lambda a: [m for m in r.aggs(en,a[2])]
                if len(vals)==1 or not all(strip_cast(a)[0]=="agg" and mk(strip_cast(a)) for a in vals): sites.append((n,strip_cast(x)[2] if strip_cast(x)[0]=="agg" else show(x))); continue
                made=[m for a in vals for m in mk(strip_cast(a))]; sites+=[(m,strip_cast(a)[2]) for a in vals for m in mk(strip_cast(a))]
                nopath(ck,"preference","%s %s what was found is given"%(sel,v),r,r.path(made,set(r.states_of(of(outer)))|r.exits(),avoid=[n]),"what was found in both lists is not given back")
            for n,var in sites:
                p=r.path(None,[n],avoid_edge=both)
                ck.ob("preference","%s %s %s in both lists"%(sel,v,var),p is None,r.loc(n),"%s is selected without being in the other list"%var,r.trail(p))
                cs=[c for c in consts_eq(r) if r.path(None,[n],avoid_edge=r.edge(eqc(c,split(outer)))) is None]
                ck.ob("name-table","%s %s %s"%(sel,v,var),len(cs)==1,r.loc(n),"the name leading to %s is not determined: %s"%(var,cs))
                if len(cs)==1:
                    tab.setdefault(v,{})[var]=cs[0]
                    nopath(ck,"preference","%s %s %s is selected"%(sel,v,var),r,r.path_from(r.after_edges(r.edges_where(eqc(cs[0],split(outer)))),set(r.states_of(of(outer)))|r.exits(),avoid=[n]),"%s is in both lists and passed over"%var,0)
            absent=lambda f: IS(CALL("next",split(inner)),"None")(f) or FALSE(CALL("contains",HAS(split(inner)),el(outer)))(f)
            nopath(ck,"preference","%s %s passed over only if not in the other"%(sel,v),r,r.path(of(outer),of(outer),avoid_edge=r.edge(lambda f: absent(f) or within(f))),"a name is passed over although the other list goes on")
            nopath(ck,"preference","%s %s gives up at the end"%(sel,v),r,r.path(None,r.exits(lambda x: x is None or x[:2]!=("v","Ok")),avoid_edge=end),"no agreement is reported although the list goes on")
        ck.ob("name-table",sel+" same for both orders",tab.get("Less")==tab.get("Greater") and bool(tab.get("Less")),r.body.span,"names map differently for the two orders: %s"%tab)
        t=tab.get("Less",{})
        adt=[a for q2,a in ck.p.adts.items() if q2.endswith("::"+en) and q2.startswith("tentacle_secio")]
        allv=[v[0] for v in adt[0]["variants"]] if adt else []
        ck.ob("name-table",sel+" complete",set(allv)==set(t) and len(set(t.values()))==len(t),r.body.span,"not every %s has its own name: %s"%(en,t))
        for v in allv:
            w=ck.root("tentacle_secio::support::"+prop,assume=under(lambda e: not CALL("next")(e) and CALL("next")(core_of(e)),v))
            names={strip_cast(w.args(n)[1])[1] for n in w.calls("push_str","push") if isinstance(strip_cast(w.args(n)[1])[1],str) and strip_cast(w.args(n)[1])[0]=="c"}
            ck.ob("name-table","%s %s"%(prop,v),names=={t.get(v)},w.body.span,"%s is written as %s and read as %s"%(v,sorted(map(str,names)),t.get(v)))
        d=[c for k,c in ck.p.consts.items() if k.endswith("support::"+dflt)]
        ck.ob("name-table",dflt,bool(d) and all(x in t.values() for x in d[0][1].split(",")),d[0][2] if d else "","the default list %s has a name that cannot be selected"%(d[0][1] if d else "?"))
def eqc(c,lst): return CMP("==",lambda e: CALL("next",lst)(core_of(e)),lambda e: strip_cast(e)==("c",c))
def consts_eq(r):
    out=set()
    for n in r.nodes("switch"):
        for f in r.u.facts.of(n.id):
            if f[0]=="cmp" and f[1]=="Eq":
                for e in f[2:]:
                    if strip_cast(e)[0]=="c" and isinstance(strip_cast(e)[1],str): out.add(strip_cast(e)[1])
    return sorted(out)

SIZES={"aes_128_gcm":(16,12,16),"aes_256_gcm":(32,12,16),"chacha20_poly1305":(32,12,16),"AES_128_GCM":(16,12,16),"AES_256_GCM":(32,12,16),"CHACHA20_POLY1305":(32,12,16)}
def sizes(ck):
    en=[a for q,a in ck.p.adts.items() if q.endswith("cipher::CipherType")]
    vs=[v[0] for v in en[0]["variants"]] if en else []
    ck.floor("cipher-sizes","ciphers",len(vs),3)
    size={}
    for v in vs:
        t=[]
        for f in("key_size","iv_size","tag_size"):
            r=ck.root("tentacle_secio::crypto::cipher::CipherType::"+f,assume=under(P(1),v))
            x={const_num(e) for e in retvals(r)}
            t.append(next(iter(x)) if len(x)==1 else None)
        size[v]=tuple(t)
    impls=[b for b in ck.p.bodies.values() if b.name=="new" and b.self_ty and b.self_ty.split("<")[0].split("::")[-1] in("OpenSSLCrypt","RingAeadCipher")]
    ck.floor("cipher-sizes","cipher implementations",len(impls),1)
    n=0
    for b in impls:
        for v in vs:
            r=ck.root(b,assume=under(P(1),v))
            built={last(r.g.qual(m)) for m in r.calls() if last(r.g.qual(m)) in SIZES}|{x for x in statics(r) if x in SIZES}
            n+=1
            ck.ob("cipher-sizes","%s %s"%(b.self_ty.split("::")[-1],v),len(built)==1 and SIZES[next(iter(built))]==size[v] and norm(next(iter(built)))==norm(v),b.span,"%s builds %s while its sizes are %s"%(v,sorted(built),size[v]))
def norm(x): return x.lower().replace("_","")
def statics(r):
    import re
    out=set()
    for n in r.nodes():
        for e in ([r.value(n)] if n.kind=="assign" else r.args(n) if n.kind=="call" and n.data[1][0]=="fn" else []):
            for x in subs(e):
                if x[0] in("const","static"): out.add(last(x[1]))
                elif x[0]=="c0": out|=set(re.findall(r"[A-Z0-9_]{6,}",str(x)))
    return out
RULES=[("hashes",["molc"],hashes),("halves",["molc"],halves),("key_source",["molc"],key_source),("cipher_key",["molc"],cipher_key),("selection",["molc"],selection),("sizes",["molc","alt"],sizes)]
CONFIGS=["molc","alt"]
