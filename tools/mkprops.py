#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that the wording lives in one place)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

# ----------------------------------------------------------------- encrypted transport
prop("C01", "No secure channel before the remote has proved who it is",
 "An encrypted connection and a remote public key are handed to the application only after the remote's signature, made with the key it presented over both sides' hello messages and its ephemeral key, has verified, and after the remote has returned the whole of our nonce through the encrypted channel. A remote that presents our own public key is refused. Every failed step ends the handshake with an error and without a connection.",
 ["inputs","fault_sequences"], "for every sequence of bytes a remote sends during the handshake and every point at which it stops or deviates",
 "The tests run honest handshakes and one or two malformed ones; the property is about every deviating remote, and a handshake that skips or weakens a verification still passes every honest run.",
 ["secio/src/handshake/procedure.rs","secio/src/handshake/handshake_context.rs","secio/src/codec/secure_stream.rs","secio/src/secp256k1_compat.rs"],
 [("signature check over the transcript","secio/src/handshake/procedure.rs handshake"),("self-connection check","secio/src/handshake/handshake_context.rs with_remote"),("nonce echo","secio/src/codec/secure_stream.rs verify_nonce")],
 observe=["result of secio Config::handshake"])
prop("C02", "Both ends of a handshake choose the same algorithms and mirrored keys",
 "For every pair of hello messages the two ends either both fail or select the same key exchange, cipher and digest, each of which both of them offered. What one end encrypts with (key, initial vector) is what the other end decrypts with, and the two directions never share a key.",
 ["inputs","configurations"], "for all pairs of hello messages, nonces, key orders and algorithm lists",
 "Tests use fixed configurations on both sides; role assignment depends on the order of two hashes, so one run reaches one of the orders, and a selection rule that disagrees only for asymmetric lists is not reached.",
 ["secio/src/handshake/handshake_context.rs","secio/src/handshake/procedure.rs","secio/src/support.rs","secio/src/crypto/mod.rs","secio/src/crypto/cipher.rs"],
 [("ordering of the two sides","with_remote / stretch_key halves"),("name tables","secio/src/support.rs"),("key, iv sizes per cipher","secio/src/crypto/cipher.rs")])
prop("C03", "Each encrypted record uses a fresh nonce and is checked before use",
 "Every record in either direction is sealed or opened under a nonce never used before with that key, and plaintext reaches the reader only from a record whose authentication tag verified. A record that fails to open makes the read fail with an error and delivers nothing. Plaintext is delivered once, in order, including the part of a record that did not fit the reader's buffer.",
 ["inputs","histories"], "for all sequences of reads, writes, record sizes and received bytes",
 "Tests exchange a few records between two honest ends; nonce reuse is invisible to honest round trips (both ends reuse alike), and tampered records are tried at one or two positions.",
 ["secio/src/codec/secure_stream.rs","secio/src/crypto/openssl_impl.rs","secio/src/crypto/ring_impl.rs","secio/src/crypto/wasm_compat.rs","secio/src/crypto/mod.rs"],
 [("nonce_advance before each operation","secio/src/crypto/*"),("tag split and verification","secio/src/crypto/*"),("recv_buf drain","secio/src/codec/secure_stream.rs poll_read")])
prop("C04", "With encryption configured no session ever runs in plaintext",
 "If the service was built with a key pair, every inbound and outbound connection of every transport becomes a session only through a completed encrypted handshake, and the session carries exactly the public key that handshake authenticated. A session without a remote public key exists only in a service built without a key pair.",
 ["inputs","configurations","fault_sequences"], "for all transports, directions, configurations and handshake outcomes",
 "Tests look at sessions that were opened successfully; a fall-back path to plaintext after an error, or on one transport or direction only, is not reached by them.",
 ["tentacle/src/service/helper.rs","tentacle/src/service.rs","tentacle/src/builder.rs"],
 [("single handshake entry","HandshakeContext::handshake"),("key passed to session","Service::session_open")])
prop("C05", "A dialled identity is enforced and a peer has at most one session",
 "If the address of a connection names a peer id, a session is opened only if that id is the one derived from the authenticated public key. While a session with a public key is open no second session with that key is opened, in either direction. Each refusal is reported as an error, the refused connection is shut down, and the open session is left alone.",
 ["inputs","histories","schedules"], "for all dial and accept histories, address forms and orders of handshake completion",
 "Tests try one mismatching id and one repeated dial; simultaneous dials from both sides, and refusals interleaved with other sessions, depend on the schedule.",
 ["tentacle/src/service.rs","tentacle/src/utils.rs","secio/src/peer_id.rs"],
 [("duplicate key and peer id checks","Service::session_open"),("peer id of an address","utils::extract_peer_id")])
prop("C06", "A peer id is always the validated digest of a public key",
 "Every peer id value that can be constructed from bytes or text is a well-formed SHA-256 multihash of the fixed length, and bytes or text of any other form yield an error. The id of a public key depends only on the key, distinct text or bytes never denote the same id, and converting to text or bytes and back is the identity.",
 ["inputs"], "for all byte strings, texts and keys",
 "Tests convert a few ids; rejection has to hold for every malformed prefix, length and alphabet.",
 ["secio/src/peer_id.rs","secio/src/handshake/handshake_struct.rs"],
 [("from_bytes validation","secio/src/peer_id.rs"),("FromStr via base58 and from_bytes","secio/src/peer_id.rs")])
# ----------------------------------------------------------------- stream multiplexer
prop("C07", "A stream never sends beyond, nor accepts beyond, the granted window",
 "On every multiplexed stream the bytes sent never exceed the credit the remote has granted so far, and a remote that sends more than the credit we granted is cut off with a protocol error. Credit is consumed by exactly the bytes of each data frame, granted again only for bytes that have left the receive buffer, never overflows silently, and a writer waiting for credit is woken when credit arrives.",
 ["inputs","schedules","histories"], "for all interleavings of reads, writes, window updates and frames from an arbitrary remote",
 "Tests transfer data between two honest ends with default windows; they do not exhaust windows at every interleaving nor send excess data.",
 ["yamux/src/stream.rs","yamux/src/session.rs","yamux/src/config.rs"],
 [("send_window / recv_window updates","yamux/src/stream.rs poll_write, handle_data, handle_window_update, send_window_update")],
 state=[("send_window","credit left to send","StreamHandle"),("recv_window","credit granted to the remote","StreamHandle")])
prop("C08", "Stream bytes arrive complete, in order and exactly once",
 "The bytes read from a multiplexed stream are a prefix of the bytes written to it at the other end, in order, without loss, duplication or mixing between streams, whatever channel or socket is full in between. Frames that cannot be handed on yet are kept and handed on before any later frame of the same stream. Unread bytes that were received before a close are still readable.",
 ["schedules","inputs","histories"], "for all schedules, buffer fill levels and socket write patterns",
 "The loss or reordering windows open only when a bounded channel or the socket is full at a particular point; tests rarely fill them.",
 ["yamux/src/session.rs","yamux/src/stream.rs"],
 [("pending queues with push_front on refusal","Session::send_all, distribute_to_substream"),("read buffer","StreamHandle::poll_read")])
prop("C09", "Frames survive encoding and decoding and oversized data frames are refused",
 "Encoding then decoding any frame yields the same frame, however the bytes are split, and the encoded form is the fixed twelve-byte big-endian header followed by the body. Unknown versions and types are refused with an error, a data frame whose announced length exceeds the limit is refused before any of it is stored, and no bytes are consumed for a frame that is still incomplete other than its remembered header. Setting, clearing and testing a flag concern only that flag.",
 ["inputs"], "for all frames and all byte strings in all fragmentations",
 "Tests encode and decode a handful of frames in one piece.",
 ["yamux/src/frame.rs"],
 [("FrameCodec encode/decode","yamux/src/frame.rs"),("Type, Flag tables","yamux/src/frame.rs")])
prop("C10", "Stream open, half-close, close and reset follow the protocol",
 "A stream moves only along the protocol's states: data is sent only while the local side is open, end of stream is reported only after the remote finished or reset or the session ended, and a reset fails both directions. Closing, resetting or dropping a stream tells both the remote and the session, so that the session forgets the stream and its id is never reused.",
 ["schedules","inputs","histories"], "for all interleavings of local calls, drops and flags from an arbitrary remote",
 "Tests open and close streams in the ordinary order; illegal flags and crossings of close, reset and drop are schedule dependent.",
 ["yamux/src/stream.rs","yamux/src/session.rs"],
 [("state transitions","StreamHandle::process_flags, send_close, Drop"),("stream table","Session::handle_event, create_stream")])
prop("C11", "A multiplexer session numbers, limits and ends its streams correctly",
 "Locally opened streams get fresh ids of the side's parity, refused when ids run out, the session is dead or the remote said go-away; inbound streams beyond the configured number or after our own go-away are reset instead of accepted, and reuse of a live id is a protocol error. Every ping is answered once with its own id, an unanswered keepalive ping ends the session with a timeout error, once the session has ended the accept side sees the end, and once it is dropped every stream does.",
 ["inputs","schedules","histories","fault_sequences"], "for all frame sequences of an arbitrary remote and all schedules",
 "Tests use cooperative remotes, few streams and never exhaust ids or let a keepalive expire.",
 ["yamux/src/session.rs","yamux/src/control.rs","yamux/src/config.rs"],
 [("stream id allocation and limits","Session::open_stream, create_stream, distribute_to_substream"),("keepalive","Session::keep_alive, handle_ping"),("go away","Session::handle_go_away, is_dead")])
# ----------------------------------------------------------------- addresses
prop("C12", "Address text, bytes and components agree and convert losslessly",
 "For every address, converting to bytes and parsing back yields the same address; for every address made of components whose names contain no slash, converting to text and parsing back yields the same address, and iteration lists the components it was built from. Each component kind has one code and one name, used alike by every reader and writer, and serialization uses the text in readable formats and the bytes in binary ones on both sides.",
 ["inputs"], "for all addresses and components",
 "Tests list a few addresses; a code or width wrong in one of the five tables for one kind is seen only by an address of that kind going through that table.",
 ["multiaddr/src/protocol.rs","multiaddr/src/lib.rs"],
 [("component tables","Protocol::from_str_peek, from_bytes, write_to_bytes, Display, acquire")])
prop("C13", "Address parsing is total and every address value is well formed",
 "Parsing any bytes or text as an address ends with either a well-formed address or an error, never a panic. Every way of building an address, including appending and replacing components and deserializing, yields a well-formed one, so that iterating over or popping from an address never fails.",
 ["inputs","programs"], "for all byte strings, texts and sequences of address operations",
 "Tests parse a list of bad inputs; totality quantifies over all of them and over all constructors.",
 ["multiaddr/src/lib.rs","multiaddr/src/protocol.rs"],
 [("validating constructors","TryFrom<Bytes>, FromStr, Deserialize, From<Protocol>, push, replace"),("bounds checks before slicing","Protocol::from_bytes, split_header")])
# ----------------------------------------------------------------- hostile input, resources, liveness
prop("C14", "Bytes from the network cannot crash the process",
 "Decoding anything a remote can send, in the encrypted handshake, encrypted records, multiplexer frames, protocol negotiation messages, keys, signatures and peer ids, ends in a value or an error and never in a panic or arithmetic overflow.",
 ["inputs","fault_sequences"], "for all byte strings received at every decoding point in every state",
 "Tests decode well-formed messages and a few truncated ones; a panic on one length or one state is not reached.",
 ["secio/src/handshake/handshake_struct.rs","secio/src/crypto/openssl_impl.rs","secio/src/dh_compat/native.rs","secio/src/dh_compat/wasm_compat.rs","yamux/src/frame.rs","yamux/src/stream.rs","yamux/src/session.rs","tentacle/src/protocol_select/mod.rs"],
 [("checked lengths, Option/Result returns","decoders listed"),("verified flatbuffer/molecule readers","handshake_struct.rs, protocol_select")])
prop("C15", "What a remote can make the node hold is bounded by configuration",
 "Sizes announced by a remote are compared with a maximum (the configured one in the handshake, the encrypted channel and the multiplexer; the codec's in protocol negotiation) before storage is reserved or data collected. A connection gets a session, and a remote's stream is accepted, only while their number is below the configured one. A service, handler or stream user that does not consume stops the reading of the remote's data instead of growing queues.",
 ["inputs","configurations","schedules"], "for all announced sizes, numbers of connections and streams, and stalled consumers",
 "Tests stay far below the limits, and never stall a consumer for long.",
 ["secio/src/handshake/procedure.rs","secio/src/codec/secure_stream.rs","yamux/src/frame.rs","yamux/src/session.rs","tentacle/src/service.rs","tentacle/src/session.rs","tentacle/src/substream.rs","tentacle/src/protocol_select/mod.rs"],
 [("max_frame_length","framed codecs"),("reached_max_connection_limit","Service::handle_session_event"),("recv_event_size back pressure","Substream/Session poll")])
prop("C16", "A task that goes to sleep has always arranged to be woken",
 "Whenever an asynchronous operation of the library reports that it is not ready, it has, in that very call, registered the caller for wake-up with the thing it waits for or asked to be polled again. No connection, listener, stream, channel or service can therefore stall while input is available.",
 ["schedules","inputs","histories"], "for all poll functions, execution paths and schedules",
 "A lost wake-up needs a particular order of readiness; other traffic usually hides it in tests.",
 ["tentacle/src","yamux/src","secio/src"],
 [("every not-ready result follows a not-ready result of an inner poll with the same context, a stored waker, or an explicit wake","all poll_* functions")])
prop("C17", "Every wait for a remote is bounded by the configured timeout",
 "Dialling, accepting an upgrade, the encrypted handshake and protocol negotiation each finish within the configured timeout whatever the remote does (each stage has its own; looking up a name is the system resolver's), and expiry is reported as a timeout or negotiation failure and releases what was reserved. A session on which no protocol is open when the timeout has passed since its start is closed.",
 ["fault_sequences","schedules"], "for all remotes that stop responding at any point",
 "Tests do not wait for real timeouts of most stages, and a stage left outside the timeout is only seen with a remote that stalls exactly there.",
 ["tentacle/src/service/helper.rs","tentacle/src/transports/mod.rs","tentacle/src/transports/tcp.rs","tentacle/src/transports/ws.rs","tentacle/src/session.rs","tentacle/src/runtime"],
 [("timeout wrappers","runtime::timeout call sites"),("idle check","Session::handle_stream_event")])
# ----------------------------------------------------------------- queues and messages
prop("C18", "The internal channel delivers all, in order, urgent first, and wakes",
 "Each message accepted by the channel is received exactly once, in sending order within its priority, and an available urgent message is received before an available normal one. A sender above capacity is parked and resumed when a message is taken, a receiver waiting on an empty channel is woken by every send and by closing, and after closing sends fail while accepted messages are still received.",
 ["schedules","histories"], "for all interleavings of any number of senders with the receiver, including close and drop at any point",
 "The lost wake-up and lost message windows are a few instructions wide; tests hit a tiny part of the interleavings.",
 ["tentacle/src/channel/bound.rs","tentacle/src/channel/unbound.rs","tentacle/src/channel/queue.rs","tentacle/src/channel/mod.rs","tentacle/src/channel/sink_impl.rs"],
 [("count then push then wake","queue_push_and_signal, do_send_b"),("register then re-check","Receiver::poll_next, park")])
prop("C19", "Messages of a protocol are sent in order and never dropped silently",
 "Messages given to an open protocol of a session in one priority are written to its stream in the order given, each exactly once, and urgent ones before waiting normal ones. A full queue delays a message and keeps its place; it never drops, duplicates or reorders it. Received messages reach the handler in arrival order.",
 ["schedules","histories"], "for all fill levels of every queue between the caller and the stream and all interleavings",
 "Reordering or loss needs a queue to be full at one of a dozen hand-over points; tests rarely fill them.",
 ["tentacle/src/buffer.rs","tentacle/src/substream.rs","tentacle/src/session.rs","tentacle/src/service.rs"],
 [("buffers with push_front on refusal","PriorityBuffer, Buffer, Substream"),("routing","Session::distribute_to_substream, Service::handle_message")])
prop("C20", "Each message passes the send and receive transforms exactly once",
 "If a protocol was configured with a transform for outgoing or for incoming data, every outgoing message (to one, several or all sessions) passes the former exactly once before it is written, and every incoming message passes the latter exactly once before a handler sees it, and a receive transform error closes that protocol (a protocol spawned by the user gets the error itself). The protocol's codec and transforms are those configured for that protocol.",
 ["inputs","configurations","histories"], "for all messages, targets, priorities and handler kinds",
 "Tests configure transforms in one or two set-ups; a send path that misses the transform or applies it twice is found only with an idempotence-sensitive transform on that path.",
 ["tentacle/src/service.rs","tentacle/src/substream.rs","tentacle/src/builder.rs","tentacle/src/session.rs"],
 [("before_sends lookup","Service::handle_message"),("before_receive call","Substream/SubstreamReadPart recv_frame")])
prop("C21", "Queued-bytes accounting is exact and a stuck session is cut off",
 "While a session is open, the number of bytes counted as waiting for it is increased by a message's length when it is queued and decreased by the same length when that message has been written or discarded, and by nothing else. A session whose waiting bytes exceed the configured limit while its queue is full is reported and closed, and no other session is affected.",
 ["schedules","histories"], "for all histories of queueing, writing, refusing and closing",
 "A leak in the counter shows only after many messages through a rarely taken path, as a healthy session being closed much later.",
 ["tentacle/src/context.rs","tentacle/src/substream.rs","tentacle/src/session.rs","tentacle/src/service.rs"],
 [("incr/decr_pending_data_size","SessionController::push_message, Substream::send_inner"),("limit checks","Service::distribute_to_session, Session::distribute_to_substream")])
# ----------------------------------------------------------------- sessions and protocols
prop("C22", "Session opening and closing are announced in pairs, exactly once",
 "Every session is announced as opened once, under an id no other open session has, before anything else about it, and as closed once, after which nothing more about it is announced and no reference to it is kept. This holds for closing by either side, by error, by timeout and at shutdown.",
 ["schedules","fault_sequences","histories"], "for all causes and interleavings of closing",
 "Tests watch a single orderly close; crossing causes (local close while the remote closes or a stream fails) give double or missing announcements only in some schedules.",
 ["tentacle/src/service.rs","tentacle/src/session.rs"],
 [("session table insert and remove","Service::session_open, session_close"),("single terminal event","Session::close_session")])
prop("C23", "Protocol handlers see connect, messages, disconnect in matched order",
 "For every protocol opened on a session its handler is told connected before it is given any message of it, and is told disconnected once it has closed, whatever closes it: either side, a stream or codec error, or the end of the session (where a handler exclusive to that session may instead be dropped, and at a shutdown of the service both kinds). A service-wide handler is told disconnected at most once per connected, and is given no message for a session it was not told about or that has ended.",
 ["schedules","fault_sequences","histories"], "for all orders of opening, data, errors and closing",
 "Each cause of closing has its own path; tests use orderly closes, not stream errors at each point.",
 ["tentacle/src/substream.rs","tentacle/src/protocol_handle_stream.rs","tentacle/src/session.rs"],
 [("proto_open / close_proto_stream","tentacle/src/substream.rs"),("session bookkeeping","ServiceProtocolStream::handle_event, SessionProtocolStream::handle_event")])
prop("C24", "A protocol opens only by agreement on a supported name and version",
 "Between two nodes whose version lists are in ascending order and that use the default selection, a protocol is opened on a session only if both ends support its name and have a version in common, with the highest such version, and both ends use the same name and version. Whatever the remote sends, an unknown name, no common version, a malformed negotiation or a timeout opens nothing and is reported as a negotiation error, opening an already open protocol changes nothing, and application data that arrives right behind the negotiation is not lost.",
 ["inputs","schedules","configurations"], "for all supported-version lists and all negotiation messages of an arbitrary remote",
 "Tests negotiate a few lists between honest ends.",
 ["tentacle/src/protocol_select/mod.rs","tentacle/src/session.rs"],
 [("client_select/server_select/select_version","tentacle/src/protocol_select/mod.rs"),("open_protocol","tentacle/src/session.rs")])
prop("C25", "Every dial and listen request ends in exactly one reported outcome",
 "While the service runs, each accepted dial request ends in exactly one of a session opening or a reported dial error, after which the same address can be dialled again (a request for an address that is being dialled is part of the running one), and each listen request in a started listener or a reported error. The count of outstanding requests is raised once per request and lowered once per outcome, and every listener that ends is reported closed once.",
 ["fault_sequences","schedules","histories"], "for all dial and listen outcomes in any order",
 "A leaked or doubly released request shows only as a service that never stops, or stops early, or ignores a later dial, after a rarely taken failure path.",
 ["tentacle/src/service.rs","tentacle/src/service/config.rs","tentacle/src/service/helper.rs","tentacle/src/transports/mod.rs"],
 [("dial_protocols and state counter","Service::dial, dial_inner, handle_session_event, session_open"),("ListenError/ListenStart events","Listener, Service::listen_inner")])
prop("C26", "Shutdown closes everything and the service ends exactly when idle",
 "After a shutdown request listeners stop and are reported, every session is closed, no new session or listener is started, background tasks are told to stop, and then the service ends and its handles accept no more requests; nothing is left running. A service not told to stay ends by itself only when it has no listener, no session, no outstanding request and no task waiting to be started, and a running one never ends early.",
 ["schedules","histories"], "for all moments of the request and all outstanding work",
 "A shutdown that hangs or ends early depends on what is outstanding at that moment; tests shut down quiet services.",
 ["tentacle/src/service.rs","tentacle/src/service/future_task.rs","tentacle/src/service/config.rs"],
 [("Shutdown task handling","Service::handle_service_task"),("termination condition","Service::poll_next"),("task cancellation","FutureTaskManager")])
prop("C27", "All control handles do the same thing and fail cleanly when closed",
 "For every operation the blocking, the asynchronous and the in-handler control handles submit the same request with the same arguments and the same priority. After the service has stopped accepting, every operation fails with a broken-pipe error, a full request queue is reported as would-block (or awaited by the asynchronous handle), and no accepted request is discarded while the service runs.",
 ["programs","configurations","schedules"], "for all operations on all handle kinds in all service states",
 "Tests exercise a few operations on one handle kind each.",
 ["tentacle/src/service/control.rs","tentacle/src/context.rs","tentacle/src/service.rs"],
 [("parallel implementations","ServiceControl, ServiceAsyncControl, ServiceContext, ProtocolContext, ProtocolContextMutRef")])
prop("C28", "A failing protocol handler is reported and timers follow requests",
 "If a protocol handler panics or its task ends while it is running user code, the service is told which handler of which session failed, reports it and shuts down, and this is never reported otherwise. A notification timer requested by a handler keeps firing at its interval, only for the requested token, until removed or the service or session ends.",
 ["fault_sequences","programs","schedules"], "for all handlers, callbacks and points of failure",
 "Tests panic in one callback; the marking has to bracket every callback of both handler kinds.",
 ["tentacle/src/protocol_handle_stream.rs","tentacle/src/service.rs"],
 [("current_task bracket and Drop","ServiceProtocolStream, SessionProtocolStream"),("set_notify re-arm","handle_event")])
prop("C29", "An address selects its transport and unsupported ones are refused",
 "The form of an address alone decides the transport used for dialling and listening, names are resolved without changing port, transport or peer id, and an address without a usable transport is refused with an error before any connection is made. Whatever the transport, a connection reports the remote's real address and passes bytes, flushes and shutdowns through unchanged.",
 ["inputs","configurations"], "for all addresses, transports and stream operations",
 "Tests use loopback TCP and one websocket address.",
 ["tentacle/src/transports","tentacle/src/utils.rs","tentacle/src/utils/dns.rs","tentacle/src/session.rs","tentacle/src/runtime"],
 [("find_type and dispatch","tentacle/src/transports/mod.rs"),("delegating AsyncRead/AsyncWrite impls","MultiStream, WsStream, CompatStream, InnerSocket")])
prop("C30", "The public types make the dangerous misuses impossible to write",
 "User code that compiles cannot duplicate a cipher state or a one-time secret, cannot read a channel from two places at once, cannot make an address or a peer id from raw bytes that were not validated, and can share every control handle freely between threads. Code that bypasses the compiler's guarantees stays confined to the few places that need it.",
 ["programs"], "for all programs that compile against the crates",
 "A test is one program that compiles; the property is about the programs that must not compile.",
 ["secio/src/crypto/mod.rs","secio/src/dh_compat","tentacle/src/channel","tentacle/src/service/control.rs","multiaddr/src/lib.rs","secio/src/peer_id.rs"],
 [("missing Clone, private fields, Send/Sync bounds","type definitions")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
