"""Every operation that can panic (compiler assertions, diverging calls, library calls that panic on bad arguments) in the code that handles received bytes is listed from the compiler's
own representation, and each is discharged by a fact on every path to it or by a stated invariant. Trusted: the verified accessors that molecule and flatbuffers generate, the panic-freedom of the
library functions used, and the panics of poisoned locks."""
from core import *
from sec import *
from panics import *
from svc import live,callers
CONFIGS=["molc","flatc","alt"]
ASSUMES=["molecule and flatbuffers accessors do not panic on a message their verifier accepted","no lock is poisoned and counters of 64 bits do not wrap","configured sizes and durations are sane"]
X="tentacle_secio"; Y="tokio_yamux"; T="tentacle"
GENERATED=("_mol.rs","_generated.rs")
SECIO=[X+"::handshake::procedure::handshake","<%s::codec::secure_stream::SecureStream as tokio::io::async_read::AsyncRead>::poll_read"%X,
 X+"::peer_id::PeerId::from_bytes","<%s::peer_id::PeerId as core::str::traits::FromStr>::from_str"%X,
 X+"::handshake::handshake_struct::PublicKey::decode",X+"::handshake::handshake_struct::Propose::decode",X+"::handshake::handshake_struct::Exchange::decode",
 X+"::crypto::openssl_impl::OpenSSLCrypt::decrypt",X+"::dh_compat::openssl_compat::agree",X+"::dh_compat::native::agree"]
ALT=[X+"::crypto::ring_impl::RingAeadCipher::decrypt",X+"::dh_compat::wasm_compat::agree"]
YAMUX=["<%s::frame::FrameCodec as tokio_util::codec::decoder::Decoder>::decode"%Y,"<%s::session::Session as futures_core::stream::Stream>::poll_next"%Y,
 "<%s::stream::StreamHandle as tokio::io::async_read::AsyncRead>::poll_read"%Y,"<%s::stream::StreamHandle as tokio::io::async_write::AsyncWrite>::poll_write"%Y,
 "<%s::stream::StreamHandle as tokio::io::async_write::AsyncWrite>::poll_flush"%Y,"<%s::stream::StreamHandle as tokio::io::async_write::AsyncWrite>::poll_shutdown"%Y]
P2P=[T+"::protocol_select::ProtocolInfo::decode",T+"::protocol_select::select_version",T+"::protocol_select::client_select",T+"::protocol_select::server_select",
 "<%s::substream::Substream as futures_core::stream::Stream>::poll_next"%T,"<%s::substream::SubstreamReadPart as futures_core::stream::Stream>::poll_next"%T,
 "<%s::substream::SubstreamWritePart as futures_core::stream::Stream>::poll_next"%T,"<%s::substream::PatchedReadPart as tokio::io::async_read::AsyncRead>::poll_read"%T,
 "<%s::session::Session as futures_core::stream::Stream>::poll_next"%T,"<%s::service::Service as futures_core::stream::Stream>::poll_next"%T,
 "<%s::service::helper::Listener as futures_core::stream::Stream>::poll_next"%T,"<%s::transports::os::MultiIncoming as futures_core::stream::Stream>::poll_next"%T,
 "<%s::transports::ws::WebsocketListener as futures_core::stream::Stream>::poll_next"%T,"<%s::transports::ws::WsStream as tokio::io::async_read::AsyncRead>::poll_read"%T,
 "<%s::transports::ws::WsStream as tokio::io::async_write::AsyncWrite>::poll_write"%T,"<%s::transports::ws::WsStream as tokio::io::async_write::AsyncWrite>::poll_flush"%T,
 "<%s::transports::ws::WsStream as tokio::io::async_write::AsyncWrite>::poll_shutdown"%T,
 "<%s::protocol_handle_stream::ServiceProtocolStream as futures_core::stream::Stream>::poll_next"%T,"<%s::protocol_handle_stream::SessionProtocolStream as futures_core::stream::Stream>::poll_next"%T,
 "<%s::utils::dns::DNSResolver as core::future::future::Future>::poll"%T,T+"::utils::multiaddr_to_socketaddr",T+"::utils::extract_peer_id",T+"::utils::is_reachable",
 T+"::service::helper::HandshakeContext::handshake"]
def ours(n):
    q=n.body.qual; f=str(n.body.span)
    return not any(g in f for g in GENERATED) and "_mol::" not in q and "_generated" not in q and "::channel::" not in q and "tentacle_multiaddr" not in q and "::upnp::" not in q
def leaves(e):
    """the data an expression depends on: parameters, results of calls to unknown code"""
    return [z for z in subterms(strip_cast(e)) if z[0] in("p","q","up") or (z[0]=="call" and last(z[1]) not in("len","from_elem","with_capacity"))]
def fixed(e):
    """made of constants, sizes of buffers made here, and configuration"""
    e=strip_cast(e)
    if const_num(e) is not None: return True
    if e[0] in("c","c0","rep"): return True
    if e[0]=="f": return config(e) or fixed(e[1])
    if e[0] in("bin","min","max","len","loop","phi","cast","big"):
        return all(fixed(z) for z in e[1:] if isinstance(z,tuple) and z and isinstance(z[0],str)) and all(fixed(y) for z in e[1:] if isinstance(z,tuple) and z and isinstance(z[0],tuple) for y in z)
    if e[0]=="call" and last(e[1]) in("from_elem","size","key_size","iv_size","tag_size","output_len","num_bytes","now","sign","digest"): return last(e[1]) in("sign","digest","now") or all(fixed(x) for x in e[2])
    if e[0]=="agg" and e[1].split("::")[-1].startswith("Range"): return all(fixed(x) for _,x in e[3])
    if e[0]=="call" and last(e[1]) in("index","index_mut","split_at","split_at_mut"): return all(fixed(x) for x in e[2])
    return False
def config(e):
    e=strip_cast(e)
    while e[0] in("f","d"):
        if e[0]=="f" and str(e[2]).endswith("config"): return True
        e=strip_cast(e[1])
    return False
def atmost(e,n):
    """never more than n: made from it by taking away only"""
    e=strip_cast(e)
    if e==n or e[0]=="loop": return True
    if e[0]=="phi": return all(atmost(x,n) for x in e[1])
    return e[0]=="bin" and e[1]=="Sub" and atmost(e[2],n)
SELFHELD={}
def allow(r,n,kind,text):
    a=[strip_cast(x) for x in (r.args(n) if n.kind=="call" else [r.g.val(o,n.ctx,n.id,0) for o in n.data[4]])]
    q=n.body.qual
    if a and all(fixed(x) for x in a) and kind!="diverges" and kind!="unwrap": return "depends on constants and configuration only"
    if kind=="overflow:Add" and KN(1)(a[1]) and (guarded(r,n,CMP("!=",same(a[0]),KN(255))) or guarded(r,n,CMP("<",same(a[0]),anyx))): return "below the maximum of its type"
    if kind=="bounds" and a[1][0]=="bin" and a[1][1]=="Sub" and (const_num(a[1][3]) or 0)>=1 and atmost(a[1][2],a[0]): return "counts down from the length"
    if kind=="arith" and all(fixed(x) or CALL("now",anyx)(x) or CALL("now")(x) for x in a): return "clock and configuration"
    if kind=="overflow:Add" and KN(1)(a[1]) and fld("Session.next_stream")(a[0]): return "a counter of streams opened, 64 bits"
    if kind=="diverges" and "unreachable" in text:
        # a receiver whose sender the same object keeps never ends
        for (adt,rx),tx in SELFHELD.items():
            if guarded(r,n,lambda f,rx=rx: f[0]=="is" and set(f[2])=={"None"} and has(f[1],lambda z: z[0]=="f" and z[2]==rx)): return "the receiver's sender is kept beside it"
    if kind=="unwrap" and text.endswith("expect") and has(a[0],P(7)) and n.body.name=="session_open" and guarded(r,n,lambda f: f[0]=="is" and P(6)(f[1]) and set(f[2])=={"Inbound"}): return "inbound connections carry it (rule listen address)"
    if kind=="overflow:Add" and n.body.name=="increase" and "config::State" in q: return "a counter of dials and listens, 64 bits"
    if kind=="overflow:Sub" and n.body.name=="decrease" and "config::State" in q: return "every decrease undoes an increase (C26)"
    if kind=="index" and len(a)==2 and n.body.name=="open_proto_stream" and all(has(z,lambda z: z[0]=="f" and z[2] in("protocol_configs","protocol_configs_by_id","protocol_configs_by_name")) for z in alts(a[1])): return "a configured name"
    if kind=="unwrap" and fld("DNSResolver.join_handle")(core_of(a[0])[2][0] if core_of(a[0])[0]=="call" else a[0]): return "set above when absent" if pending(r,n) else None
    if kind=="diverges" and "unreachable" in text and guarded(r,n,lambda f: f[0]=="is" and fld("RingAeadCipher.cipher")(f[1]) and set(f[2])=={"Seal"}): return "the decoding cipher is made for decryption (C02)"
    if kind=="call" and last(text)=="get_root" and "flatbuffers_verifier" in text: return "verifies first"
    if kind=="call" and last(text)=="copy_from_slice" and (CALL("with_capacity",LEN(same(a[1])))(a[0]) or (CALL("index",anyx)(a[1]) and CALL("with_capacity",LEN(same(a[1][2][0])))(a[0]))):
        ss=r.calls("set_len",arg=lambda z: strip_cast(z[0])==a[0] and strip_cast(z[1])==a[0][2][0])
        if ss and r.path(None,[n],avoid=ss) is None: return "as long as its source"
    if kind.startswith("overflow") and q.endswith("StreamHandle::send_window_update") and window(a): return "window invariant (C07)"
    return None
def pending(r,n):
    """no path to n leaves the handle absent: from the edge where it is found absent, it is written before n"""
    J=lambda z: z[0]=="f" and z[2]=="join_handle"
    ws=[w for w in r.writes("DNSResolver.join_handle") if strip_cast(r.value(w))[0]=="agg" and strip_cast(r.value(w))[2]=="Some"]
    es=r.edges_where(lambda f: f[0]=="is" and set(f[2])=={"None"} and J(strip_cast(f[1])) or f[0]=="true" and CALL("is_none",J)(f[1]))
    return bool(ws) and bool(es) and r.path_from(r.after_edges(es),[n],avoid=ws) is None
def window(a):
    nm={z[2] for x in a for z in subterms(x) if z[0]=="f"}
    return bool(nm & {"max_recv_window","recv_window","max_stream_window_size"})
def run(ck,rule,quals,floor,opaque=(),whole=False):
    k=0; found=0
    for q in quals:
        for b in [b for b in ck.p.bodies.values() if b.qual==q]:
            found+=1
            r=ck.root(b,opaque=opaque,depth=14)
            left=sorted({ck.p.bodies[x].qual for x in r.g.truncated if not any(g in str(ck.p.bodies[x].span) for g in GENERATED)}) if whole else []
            ck.ob(rule,"%s is analysed with everything it calls"%label(b),not left,b.qual,"not analysed: %s"%left[:3])
            k+=total(ck,rule,r,allow=allow,only=ours)
    ck.floor(rule,"entry points",found,floor[0],"entry points of received data")
    ck.floor(rule,"operations that can panic",k,floor[1],"code handling received data")
def secio(ck): run(ck,"secio",SECIO,(8,20),whole=True)
def alt(ck): run(ck,"other ciphers",ALT,(2,1),whole=True)
def yamux(ck): held(ck); run(ck,"multiplexer",YAMUX,(6,10),whole=True)
PARTS=[T+"::service::Service::"+x for x in ("handle_session_event","handle_service_task","session_open","session_close","session_handles_open","protocol_open","protocol_close","protocol_message","dial_inner","listen_inner","spawn_listener","flush_buffer","try_update_listens","handle_message","wait_handle_poll","init_proto_handles","handshake","distribute_to_session","distribute_to_user_level","send_pending_task")]
PARTS+=[T+"::session::Session::"+x for x in ("handle_session_event","handle_stream_event","handle_substream","open_protocol","close_session","select_procedure","handle_sub_stream","new")]
PARTS+=[T+"::protocol_select::"+x for x in ("client_select","server_select","select_version","ProtocolInfo::decode","ProtocolInfo::encode")]+[T+"::service::helper::HandshakeContext::handshake",T+"::service::helper::Listener::handshake"]
PARTS+=[T+"::utils::"+x for x in ("multiaddr_to_socketaddr","extract_peer_id","is_reachable","socketaddr_to_multiaddr")]
PARTS+=[T+"::buffer::%s::%s"%(b,x) for b in("Buffer","PriorityBuffer") for x in("try_send","push","push_high","push_normal","clear","shrink_to_fit","take")]
def p2p(ck):
    held(ck); listening(ck)
    names=set(PARTS)
    op=lambda c: "tentacle::channel::" in c["q"] or c["q"].lstrip("<&").startswith((X+"::handshake","tentacle_multiaddr","tokio_yamux")) or "_mol::" in c["q"] or "::transports::" in c["q"] or "::upnp::" in c["q"] or c["q"] in names
    tr=[q for q in P2P if "::transports::" in q]
    run(ck,"node",sorted(set(P2P+PARTS)-set(tr)),(40,15),opaque=op,whole=True)
    run(ck,"transports",tr,(6,3),opaque=lambda c: "tentacle::channel::" in c["q"] or c["q"].lstrip("<&").startswith("tentacle_multiaddr"),whole=True)
def listening(ck):
    """an inbound connection is announced with the address it was accepted on"""
    k=0
    for b in ck.p.bodies.values():
        if "HandshakeContext" not in str(b.blocks) or not live(b): continue
        r=ck.root(b,depth=0)
        for n in r.aggs("HandshakeContext"):
            v=dict(strip_cast(r.agg_value(n))[3])
            if "listen_address" not in v: continue
            k+=1; ty=strip_cast(v["ty"]); la=strip_cast(v["listen_address"])
            out=VAR("Outbound")(ty) or "Outbound" in show(ty)
            ck.ob("listen address","%s"%label(b),la[0]=="agg" and la[2]=="Some" or out or handed(ck,b,ty,la),r.loc(n),"an inbound connection without the address it was accepted on: %s, %s"%(show(ty),show(la)))
    ck.floor("listen address","connections handed to the handshake",k,2,"HandshakeContext")
def handed(ck,b,ty,la):
    """type and listen address are parameters: every caller passes Outbound, or Some"""
    if ty[0]!="p" or la[0]!="p": return False
    nm="::".join(b.qual.split("::")[-2:]); cs=callers(ck,nm)
    for c in cs:
        r=ck.root(c,depth=0)
        for n in r.calls(nm):
            a=r.args(n); t=strip_cast(a[ty[1]-1]); l=strip_cast(a[la[1]-1])
            if not("Outbound" in show(t) or l[0]=="agg" and l[2]=="Some"): return False
    return True
HELD=[("Service","session_event_receiver","session_event_sender",T+"::service::Service"),("Session","event_receiver","event_sender",Y+"::session::Session"),("Session","control_receiver","control_sender",Y+"::session::Session"),
 ("ServiceProtocolStream","notify_receiver","notify_sender",T+"::protocol_handle_stream::ServiceProtocolStream"),("SessionProtocolStream","notify_receiver","notify_sender",T+"::protocol_handle_stream::SessionProtocolStream")]
def held(ck):
    SELFHELD.clear()
    for name,rx,tx,adt in HELD:
        a=ck.p.adts.get(adt); fs=[f for v in a["variants"] for f in v[2]] if a else []
        SELFHELD[(adt,rx)]=tx
        ty=dict(zip(fs,a["ftys"])) if a else {}
        ok=tx in fs and rx in fs and "Sender" in str(ty.get(tx)) and "Option" not in str(ty.get(tx))
        ck.ob("kept senders","%s.%s"%(name,rx),ok,"struct "+name,"%s does not keep a sender of %s, whose end is treated as unreachable"%(name,rx))
        bad=[b for b,how in ck.writers("%s.%s"%(name,tx)) if how=="write"]
        ck.ob("kept senders","%s.%s is not replaced"%(name,tx),not bad,bad[0].qual if bad else name,"the kept sender is overwritten")
UNCHECKED={"new_unchecked","from_utf8_unchecked","get_root","follow","root_unchecked","get_unchecked","from_raw_parts","size_prefixed_root_unchecked"}
CHECKED={"from_compatible_slice","from_slice","root","size_prefixed_root","verify","from_utf8"}
def verified(ck):
    """bytes are read as a message only through a verifying constructor"""
    k=0
    for b in ck.p.bodies.values():
        if any(g in str(b.span) for g in GENERATED) or "_mol::" in b.qual or "_generated" in b.qual or b.qual.startswith("molecule"): continue
        if not b.qual.lstrip("<").startswith(("tentacle","tokio_yamux")): continue
        for bl in b.blocks:
            t=bl["t"]
            if bl["c"] or t[0]!="call" or t[1][0]!="fn": continue
            q=t[1][1]["q"]; m=last(q)
            if "Pin" in q: continue
            if m in UNCHECKED and "flatbuffers_verifier" not in q: ck.ob("verified readers","%s in %s"%(m,label(b)),False,b.qual,"received bytes interpreted without verification: %s"%q)
            elif m in CHECKED or "flatbuffers_verifier" in q: k+=1; ck.ob("verified readers","%s in %s"%(m,label(b)),True,b.qual,"")
    ck.floor("verified readers","verifying constructors",k,3,"decoders")
RULES=[("secio",["molc","flatc"],secio),("other ciphers",["alt"],alt),("multiplexer",["molc"],yamux),("node",["molc"],p2p),("verified readers",["molc","flatc"],verified)]
