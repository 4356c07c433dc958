"""Rules on the type-checked program: which types can be copied, moved to and shared with other threads (asked of the compiler's trait solver, with an argument type
that is thread-safe and one that is not), which fields are visible, which functions hand out a second value of a type that must stay single, where such values are
made, and where code that bypasses the compiler (unsafe blocks, impls and functions) stands and what it is allowed to do there."""
TECHNIQUE="static analysis: queries over the type-checked program (trait solver, visibility, signatures, constructors, unsafe blocks) and MIR rules on the uses of unsafe operations"
from que import *
from c23 import nopath
import c06, c13
CONFIGS=["molc"]
ASSUMES=["The dependencies' types keep their own promises (ring's ephemeral keys are used up by the agreement, futures' receivers are single)","Code of the crates' own tests and of the browser target is not user code"]
# types of which there is one value for one purpose: no second one can be made from the first
SINGLE={
 "molc":("tentacle_secio::codec::secure_stream::SecureStream","tentacle_secio::crypto::openssl_impl::OpenSSLCrypt","tentacle_secio::handshake::handshake_context::Ephemeral","tentacle::channel::bound::Receiver","tentacle::channel::unbound::UnboundedReceiver","tentacle::channel::queue::Queue","tokio_yamux::session::Session","tokio_yamux::stream::StreamHandle","tentacle::service::Service","tentacle::session::Session","tentacle::substream::Substream","tentacle::substream::SubstreamReadPart","tentacle::substream::SubstreamWritePart"),
 "alt":("tentacle_secio::crypto::openssl_impl::OpenSSLCrypt","tentacle_secio::crypto::ring_impl::RingAeadCipher","tentacle_secio::crypto::ring_impl::RingNonce","tentacle_secio::crypto::wasm_compat::WasmCrypt","tentacle_secio::codec::secure_stream::SecureStream")}
# handles that are given to many threads
SHARED=("tentacle::service::control::ServiceControl","tentacle::service::control::ServiceAsyncControl","tokio_yamux::control::Control","tentacle::channel::bound::Sender","tentacle::channel::unbound::UnboundedSender","tentacle::context::SessionContext","tentacle_secio::SecioKeyPair","tentacle_secio::peer_id::PeerId","tentacle_multiaddr::Multiaddr")
# what only passes values of another type between threads
CARRIER=("tentacle::channel::bound::Sender","tentacle::channel::bound::Receiver","tentacle::channel::unbound::UnboundedSender","tentacle::channel::unbound::UnboundedReceiver","tentacle::channel::bound::BoundedInner","tentacle::channel::unbound::UnboundedInner","tentacle::channel::queue::Queue","tentacle::channel::queue::Node","tentacle::channel::sink_impl::QuickSend")
MAKE={"tentacle_secio::peer_id::PeerId":{"tentacle_secio::peer_id::PeerId::from_public_key","tentacle_secio::peer_id::PeerId::from_bytes","tentacle_secio::peer_id::PeerId::random","tentacle_secio::peer_id::PeerId::from_seed"},
 "tentacle::channel::bound::Receiver":{"tentacle::channel::bound::channel"},"tentacle::channel::unbound::UnboundedReceiver":{"tentacle::channel::unbound::unbounded"},
 "tentacle_secio::crypto::openssl_impl::OpenSSLCrypt":{"tentacle_secio::crypto::openssl_impl::OpenSSLCrypt::new"}}
CIPHER={"Self","StreamCipher","OpenSSLCrypt","RingAeadCipher","WasmCrypt","SecureStream"}
def adt(ck,q): return ck.p.adts.get(q)
def words(t): return set(__import__("re").findall(r"[A-Za-z_0-9]+",t))
def single(ck):
    n=0
    for q in SINGLE[ck.cfg]:
        a=adt(ck,q); ck.ob("single",q+": exists",a is not None and bool(a.get("loc")),"","the type is gone")
        if a is None: continue
        n+=1
        for t in("Clone","Copy"): ck.ob("single","%s is not %s"%(q,t),t not in a["auto"] and t not in a["autop"],a["loc"],"a %s can be duplicated: it is %s"%(last(q),t))
        for f,v in zip([f for x in a["variants"] for f in x[2]],a["vis"]): ck.ob("single","%s.%s is private"%(q,f),v!="Public" or last(q) in("Ephemeral",),a["loc"],"the field %s of %s is public"%(f,last(q)))
    ck.floor("single","types",n,5)
    # a second value by reference: a function that is lent one and returns one
    names={last(q) for q in SINGLE[ck.cfg]}|{"StreamCipher","EphemeralPrivateKey","EphemeralSecret"}
    k=0; ty=lambda l: l[2] if len(l)>2 else l[0]
    for b in ck.p.bodies.values():
        if not live(b) or b.kind=="closure" or not b.locals: continue
        f=b
        if b.kind=="coroutine":
            f=ck.p.bodies.get(b.parent)
            if f is None: continue
        elif any(ck.p.bodies[c].kind=="coroutine" for c in ck.p.children.get(b.key,[])) and ("Coroutine" in ty(b.locals[0]) or "async" in ty(b.locals[0]) or "coroutine" in b.locals[0][0] or "{closure" in ty(b.locals[0])): continue
        rt=ty(b.locals[0]); hit=words(rt)&names
        if not hit: continue
        k+=1
        if "&" in rt: continue
        for h in hit:
            lent=[t for t in map(ty,f.locals[1:f.argc+1]) if t.startswith("&") and (h in words(t.split("<")[0]) or h=="StreamCipher" and words(t)&CIPHER)]
            ck.ob("single","%s from a borrowed one: %s"%(h,f.qual),not lent,f.span,"%s makes a %s out of a borrowed one (%s)"%(f.qual,h,", ".join(lent)))
    ck.floor("single","functions that return one",k,3)
    for tr in ck.p.impls:
        if last(tr["trait"]) in("Clone","Copy"):
            ck.ob("single","no copies of the trait object: %s"%tr["selff"],"dyn" not in tr["selff"] or "StreamCipher" not in tr["selff"],tr["span"],"a cipher behind its trait can be duplicated")
    # the one-time secret is used up
    for b in ck.p.bodies.values():
        if b.name=="agree" and "dh_compat" in b.qual and live(b):
            t=b.locals[2][2] if len(b.locals[2])>2 else b.locals[2][0]
            ck.ob("single","one-time secret is used up: "+b.qual,not t.startswith("&") and bool(words(t)&{"EphemeralPrivateKey","EphemeralSecret"}),b.span,"the secret of one handshake is lent (%s), so that it can be used again"%t)
            k=1
    ck.floor("single","agreements",len([b for b in ck.p.bodies.values() if b.name=="agree" and "dh_compat" in b.qual]),1)
    if ck.cfg!="molc": return
    e=adt(ck,"tentacle_secio::handshake::handshake_context::Ephemeral")
    if e: ck.ob("single","one-time secret is kept by itself",any(words(t)&{"EphemeralPrivateKey"} and not words(t)&{"Arc","Rc","StaticSecret"} for t in e["ftys"]),e["loc"],"the secret of one handshake is kept as %s"%e["ftys"])
    for q,s in MAKE.items():
        ms=[b for b in makers(ck,q,crate=q.split("::")[0]) if live(b)]; ck.floor("single" if "channel" in q or "crypto" in q else "validated",last(q)+": constructors",len(ms),1)
        for b in ms:
            if " as core::clone::Clone>" in b.qual: continue
            rule="single" if "channel" in q or "crypto" in q else "validated"
            ck.ob(rule,"%s made in %s"%(last(q),b.qual),within(ck,b,s),b.span,"a %s is also made by %s"%(last(q),b.qual))
    # messages are taken from a queue by the one receiver only
    n=0
    for f in("Queue::pop","Queue::pop_spin"):
        for b in callers(ck,f):
            if not live(b) or b.qual.startswith("tentacle::channel::queue::Queue"): continue
            n+=1; t=b.locals[1][2] if b.argc and len(b.locals[1])>2 else ""
            ck.ob("single","taken in "+b.qual,exclusive(ck,b),b.span,"%s takes from a queue with only shared access (%s)"%(b.qual,t))
    ck.floor("single","takers",n,3)
def exclusive(ck,b,depth=3):
    """the function is only run with exclusive access to the receiver"""
    if b.kind in("closure","coroutine"):
        p=ck.p.bodies.get(b.parent); return p is not None and exclusive(ck,p,depth)
    if b.argc:
        t=b.locals[1][2] if len(b.locals[1])>2 else b.locals[1][0]
        rec="Receiver" in t
        if rec and (t.startswith("&mut") or t.startswith("&'") and "mut" in t.split("Receiver")[0] or "Pin<&mut" in t or t.startswith("std::pin::Pin<&mut") or not t.startswith("&")): return True
    cs=[c for c in callers(ck,b.qual) if live(c)] if depth and b.vis!="pub" else []
    return bool(cs) and all(exclusive(ck,c,depth-1) for c in cs)
def validated(ck):
    for q in("tentacle_secio::peer_id::PeerId","tentacle_multiaddr::Multiaddr"):
        a=adt(ck,q); ck.ob("validated",q+": exists",a is not None,"","the type is gone")
        if a is None: continue
        for f,v in zip([f for x in a["variants"] for f in x[2]],a["vis"]): ck.ob("validated","%s.%s is private"%(last(q),f),v!="Public",a["loc"],"the bytes of a %s can be set by anybody"%last(q))
        for i in ck.p.impls:
            if i["self"]!=q: continue
            tr=last(i["trait"]) if i["trait"] else ""
            ck.ob("validated","%s: %s"%(last(q),i["traitf"] or "own methods"),tr not in("AsMut","DerefMut","BorrowMut","IndexMut"),i["span"],"%s gives access to the bytes of a %s, which can then be changed unchecked"%(i["traitf"],last(q)))
            if tr=="From":
                src=i["traitf"].split(" as ")[-1]
                ck.ob("validated","%s made from: %s"%(last(q),src),not(("u8" in words(src) or words(src)&{"Bytes","BytesMut","String","str"}) and not words(src)&{"Ipv4Addr","Ipv6Addr","IpAddr"}),i["span"],"%s makes a %s from raw bytes that were not validated"%(i["traitf"],last(q)))
        for b in ck.p.bodies.values():
            if not live(b) or b.crate!=q.split("::")[0] or b.kind in("closure","coroutine") or b.vis!="pub" or not b.argc: continue
            rt=b.locals[0][2] if len(b.locals[0])>2 else b.locals[0][0]; t=b.locals[1][2] if len(b.locals[1])>2 else b.locals[1][0]
            if last(q) in words(t) and "&mut" in t and ("&mut" in rt and words(rt)&{"u8","Vec","Bytes","BytesMut"}): ck.ob("validated","bytes handed out by "+b.qual,False,b.span,"%s hands out the bytes of a %s for change"%(b.qual,last(q)))
            src=[(l[2] if len(l)>2 else l[0]) for l in b.locals[1:b.argc+1]]
            made=rt.split("::")[-1]==last(q)
            if made and any(words(s)&{"u8","Bytes","BytesMut","String","str"} and last(q) not in words(s) for s in src):
                ck.ob("validated","%s from bytes by %s"%(last(q),b.qual),b.name=="from_seed" and b.vis!="pub",b.span,"%s makes a %s of bytes without being able to refuse them"%(b.qual,last(q)))
    ad=adt(ck,"tentacle_multiaddr::Iter"); 
    if ad: 
        for v in ad["vis"]: ck.ob("validated","component iterator is private",v!="Public",ad["loc"],"an iterator over unvalidated bytes can be made by anybody")
def shared(ck):
    for q in SHARED:
        a=adt(ck,q); ck.ob("shared",q+": exists",a is not None,"","the handle is gone")
        if a is None: continue
        for t in("Send","Sync","Clone"): ck.ob("shared","%s is %s"%(q,t),t in a["auto"],a["loc"],"%s cannot be shared between threads: it is not %s"%(last(q),t))
    for q in CARRIER:
        a=adt(ck,q); ck.ob("shared",q+": exists",a is not None,"","the type is gone")
        if a is None: continue
        for t in("Send","Sync"): ck.ob("shared","%s is %s only for what is"%(q,t),t in a["auto"] and t not in a["autop"],a["loc"],"%s carries between threads what must stay on one" %last(q) if t in a["autop"] else "%s cannot be used from another thread"%last(q))
    for q in("tokio_yamux::session::Session","tokio_yamux::stream::StreamHandle","tentacle::service::Service","tentacle_secio::codec::secure_stream::SecureStream","tentacle::substream::SubstreamReadPart"):
        a=adt(ck,q); ck.ob("shared",q+" can move",a is not None and "Send" in a["auto"],a["loc"] if a else "","%s cannot be given to a task"%last(q))
# where code may bypass the compiler: file, and the unsafe functions it may call there
UNSAFE=(("tentacle/src/channel/",{"pop_spin","pop","new","from_raw","as_ref","as_mut"}),("tentacle/src/upnp/",{"getifaddrs","freeifaddrs","from_ptr"}),("multiaddr/src/lib.rs",{"set_len"}),("secio/src/crypto/",{"set_len","write_bytes","advance_mut"}),("tentacle/src/runtime/generic_timer.rs",{"map_unchecked_mut","new_unchecked","get_unchecked_mut"}))
MARK=("get_unchecked","get_unchecked_mut","from_utf8_unchecked","transmute","from_raw_parts","from_raw_parts_mut","from_raw","set_len","advance_mut","zeroed","uninitialized","assume_init","new_unchecked","map_unchecked_mut","unreachable_unchecked","copy_nonoverlapping","write_bytes","read","from_ptr","transmute_copy","unwrap_unchecked","offset","as_mut_vec","as_bytes_mut","into_inner_unchecked","from_vec_unchecked","from_digest_unchecked")
def bypass(ck):
    n=0
    for q,span in ck.p.unsafe:
        if "::test" in q: continue
        n+=1; f=relp_(span)
        ck.ob("bypass","unsafe block in "+q,any(f.startswith(x) for x,_ in UNSAFE) or "prepare_uninitialized_buffer" in q or "_mol" in q or "_generated" in q,span,"code that bypasses the compiler's guarantees stands in %s"%q)
    if ck.cfg=="molc": ck.floor("bypass","unsafe blocks",n,1)
    for i in ck.p.impls:
        if i["unsafe"] and last(i["trait"])!="TrivialClone":
            f=relp_(i["span"]); ck.ob("bypass","unsafe impl "+i["traitf"],f.startswith("tentacle/src/channel/"),i["span"],"%s is promised by hand"%i["traitf"])
    for b in sorted(ck.p.bodies.values(),key=lambda b: b.key):
        if not live(b) or "_mol" in b.qual or "_generated" in b.qual: continue
        calls=[bl["t"][1][1] for bl in b.blocks if bl["t"][0]=="call" and bl["t"][1][0]=="fn" and not bl["c"]]
        f=relp_(b.span); ok=set().union(*[s for x,s in UNSAFE if f.startswith(x)],set())
        for c in calls:
            nm=last(c.get("q") or c.get("d") or "")
            full=c.get("q") or c.get("d") or ""
            if nm in MARK and not(nm=="read" and "ptr" not in full) and not(nm=="offset" and "ptr" not in full) and not full.startswith("tentacle::substream") and not(nm in("new_unchecked",) and b.kind=="coroutine") and "desugar" not in full:
                if nm in("new_unchecked","from_raw") and "Pin" in full and "await" in str(c): continue
                if not any(u[0]==b.qual or u[0]==outer(ck,b).qual for u in ck.p.unsafe): continue
                ck.ob("bypass","%s in %s"%(nm,b.qual),nm in ok,b.span,"%s is used in %s"%(full,b.qual))
    # a length that is promised for a buffer is one it has room for
    m=0
    for b in sorted(ck.p.bodies.values(),key=lambda b: b.key):
        if not live(b) or not any(bl["t"][0]=="call" and bl["t"][1][0]=="fn" and last(bl["t"][1][1].get("q",""))=="set_len" for bl in b.blocks): continue
        r=Root(ck,b,depth=1,opaque=("fmt","iv_size","tag_size","nonce_advance"))
        for c in r.calls("set_len"):
            if c.body is not b: continue
            m+=1; a=r.args(c); rec=strip_cast(a[0])
            room=[strip_cast(x[2][0]) for x in alts(rec) if strip_cast(x)[0]=="call" and last(strip_cast(x)[1])=="with_capacity" for x in [strip_cast(x)]]
            want=strip_cast(a[1])
            ok=bool(room) and all(rm==want or rm[0]=="bin" and rm[1]=="Add" and want in(strip_cast(rm[2]),strip_cast(rm[3])) or const_num(want) is not None and const_num(rm) is not None and const_num(want)<=const_num(rm) for rm in room)
            ck.ob("bypass","promised length in "+b.qual,ok,r.loc(c),"a length of %s is promised for %s"%(show(want)[:60],show(rec)[:60]))
            # nothing is read from it before it was written as a whole
            fill=[n for n in r.calls("copy_from_slice","write_bytes","clone_from_slice","fill","encrypt_aead","copy_nonoverlapping") if any(has(x,lambda e: e==rec) for x in r.args(n)) or last(r.g.qual(n))=="write_bytes"]
            uses=[n for n in r.nodes("call") if n.extra is None and n is not c and n not in fill and any(has(x,lambda e: e==rec) for x in r.args(n)) and last(r.g.qual(n)) not in("as_mut_ptr","deref_mut","as_mut","deref","as_mut_slice","len","with_capacity","index_mut","drop","drop_in_place")]
            p=r.path_from(r.after_nodes([c]),set(r.states_of(uses)),avoid=fill) if uses else None
            ck.ob("bypass","written before use in "+b.qual,p is None and bool(fill),r.loc(c),"memory that was not written is used",r.trail(p))
def outer(ck,b):
    while b.kind in("closure","coroutine") and b.parent in ck.p.bodies: b=ck.p.bodies[b.parent]
    return b
def relp_(s):
    for x in("tentacle/src","secio/src","yamux/src","multiaddr/src"):
        i=s.find(x)
        if i>=0: return s[i:]
    return s
RULES=[("single",["molc","alt"],single),("validated",["molc"],validated),("construction",["molc"],c06.constructions),("built",["molc"],c13.builders),("shared",["molc"],shared),("bypass",["molc","async","alt"],bypass)]
