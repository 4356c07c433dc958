From d5b891b31449264e446a883cd7360a198bce3aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:11:45 +0000
Subject: [PATCH 01/27] fix: poll the keepalive timer until it is pending

A tick resets the interval but does not register the task for the next one.
With a silent peer the session was never woken again, so the keepalive
timeout could not fire.
---
 yamux/src/session.rs | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/yamux/src/session.rs b/yamux/src/session.rs
index ecf7ea0..602e486 100644
--- a/yamux/src/session.rs
+++ b/yamux/src/session.rs
@@ -628,20 +628,27 @@ where
         }
 
         if let Some(ref mut interval) = self.keepalive {
-            match Pin::new(interval).as_mut().poll_next(cx) {
-                Poll::Ready(Some(_)) => {
-                    if self.local_go_away {
-                        // The remote peer has not responded to our sent go away code.
-                        // Assume that remote peer has gone away and this session should be closed.
-                        self.remote_go_away = true;
-                    } else {
-                        self.keep_alive(cx, Instant::now())?;
+            // A tick resets the timer but does not register the task for the next one,
+            // so poll until it is pending; missed ticks only count once.
+            let mut tick = false;
+            loop {
+                match Pin::new(&mut *interval).poll_next(cx) {
+                    Poll::Ready(Some(_)) => tick = true,
+                    Poll::Ready(None) => {
+                        debug!("yamux::Session poll keepalive interval finished");
+                        break;
                     }
+                    Poll::Pending => break,
                 }
-                Poll::Ready(None) => {
-                    debug!("yamux::Session poll keepalive interval finished");
+            }
+            if tick {
+                if self.local_go_away {
+                    // The remote peer has not responded to our sent go away code.
+                    // Assume that remote peer has gone away and this session should be closed.
+                    self.remote_go_away = true;
+                } else {
+                    self.keep_alive(cx, Instant::now())?;
                 }
-                Poll::Pending => (),
             }
         }
 
-- 
2.43.0


From 7dee490fb6d7a15c6fe29ef2690ed55409cbdbb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:11:45 +0000
Subject: [PATCH 02/27] fix: return Ok(0) when reading buffered data into an
 empty slice

poll_read returned Pending without registering a waker when data was
available but the caller's buffer had no room.
---
 yamux/src/stream.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/yamux/src/stream.rs b/yamux/src/stream.rs
index 0c27408..b15c9a5 100644
--- a/yamux/src/stream.rs
+++ b/yamux/src/stream.rs
@@ -360,9 +360,13 @@ impl AsyncRead for StreamHandle {
             buf.len(),
             n,
         );
-        if n == 0 {
+        if self.read_buf.is_empty() {
             return Poll::Pending;
         }
+        if n == 0 {
+            // there is data, but no room for it in the caller's buffer
+            return Poll::Ready(Ok(0));
+        }
         let b = self.read_buf.split_to(n);
 
         buf[..n].copy_from_slice(&b);
-- 
2.43.0


From d43b42ce15547abc331bfee9a42d89f07472bc43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:11:45 +0000
Subject: [PATCH 03/27] fix: keep polling listeners and websocket streams until
 they are pending

A connection without peer address, an accepted websocket connection, and a
websocket frame without payload made the poll functions return Pending while
the underlying source had not been polled to pending, so nothing woke the task.
---
 tentacle/src/transports/mod.rs |  32 +++++----
 tentacle/src/transports/ws.rs  | 126 +++++++++++++++++----------------
 2 files changed, 83 insertions(+), 75 deletions(-)

diff --git a/tentacle/src/transports/mod.rs b/tentacle/src/transports/mod.rs
index 4c57241..f26fc7c 100644
--- a/tentacle/src/transports/mod.rs
+++ b/tentacle/src/transports/mod.rs
@@ -289,21 +289,23 @@ mod os {
 
         fn poll_next(self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<Self::Item>> {
             match self.get_mut() {
-                MultiIncoming::Tcp(inner) => match inner.poll_accept(cx)? {
-                    // Why can't get the peer address of the connected stream ?
-                    // Error will be "Transport endpoint is not connected",
-                    // so why incoming will appear unconnected stream ?
-                    Poll::Ready((stream, _)) => match stream.peer_addr() {
-                        Ok(remote_address) => Poll::Ready(Some(Ok((
-                            socketaddr_to_multiaddr(remote_address),
-                            MultiStream::Tcp(stream),
-                        )))),
-                        Err(err) => {
-                            debug!("stream get peer address error: {:?}", err);
-                            Poll::Pending
-                        }
-                    },
-                    Poll::Pending => Poll::Pending,
+                MultiIncoming::Tcp(inner) => loop {
+                    match inner.poll_accept(cx)? {
+                        // Why can't get the peer address of the connected stream ?
+                        // Error will be "Transport endpoint is not connected",
+                        // so why incoming will appear unconnected stream ?
+                        Poll::Ready((stream, _)) => match stream.peer_addr() {
+                            Ok(remote_address) => {
+                                break Poll::Ready(Some(Ok((
+                                    socketaddr_to_multiaddr(remote_address),
+                                    MultiStream::Tcp(stream),
+                                ))))
+                            }
+                            // go on with the next one, the listener must be polled until pending
+                            Err(err) => debug!("stream get peer address error: {:?}", err),
+                        },
+                        Poll::Pending => break Poll::Pending,
+                    }
                 },
                 #[cfg(feature = "ws")]
                 MultiIncoming::Ws(inner) => match inner.poll_next_unpin(cx)? {
diff --git a/tentacle/src/transports/ws.rs b/tentacle/src/transports/ws.rs
index 8621a68..499eeec 100644
--- a/tentacle/src/transports/ws.rs
+++ b/tentacle/src/transports/ws.rs
@@ -225,37 +225,42 @@ impl Stream for WebsocketListener {
             return Poll::Ready(res);
         }
 
-        match self.inner.poll_accept(cx)? {
-            Poll::Ready((stream, _)) => match stream.peer_addr() {
-                Ok(remote_address) => {
-                    let timeout = self.timeout;
-                    let mut sender = self.sender.clone();
-                    crate::runtime::spawn(async move {
-                        match crate::runtime::timeout(timeout, accept_async(stream)).await {
-                            Err(_) => debug!("accept websocket stream timeout"),
-                            Ok(res) => match res {
-                                Ok(stream) => {
-                                    let mut addr = socketaddr_to_multiaddr(remote_address);
-                                    addr.push(Protocol::Ws);
-                                    if sender.send((addr, WsStream::new(stream))).await.is_err() {
-                                        debug!("receiver closed unexpectedly")
+        // poll the listener until it is pending, otherwise nothing will wake up this task
+        // when the next connection comes
+        loop {
+            match self.inner.poll_accept(cx)? {
+                Poll::Ready((stream, _)) => match stream.peer_addr() {
+                    Ok(remote_address) => {
+                        let timeout = self.timeout;
+                        let mut sender = self.sender.clone();
+                        crate::runtime::spawn(async move {
+                            match crate::runtime::timeout(timeout, accept_async(stream)).await {
+                                Err(_) => debug!("accept websocket stream timeout"),
+                                Ok(res) => match res {
+                                    Ok(stream) => {
+                                        let mut addr = socketaddr_to_multiaddr(remote_address);
+                                        addr.push(Protocol::Ws);
+                                        if sender.send((addr, WsStream::new(stream))).await.is_err()
+                                        {
+                                            debug!("receiver closed unexpectedly")
+                                        }
                                     }
-                                }
-                                Err(err) => {
-                                    debug!("accept websocket stream err: {:?}", err);
-                                }
-                            },
-                        }
-                    });
-                    self.poll_pending(cx)
-                }
-                Err(err) => {
-                    debug!("stream get peer address error: {:?}", err);
-                    Poll::Pending
-                }
-            },
-            Poll::Pending => Poll::Pending,
+                                    Err(err) => {
+                                        debug!("accept websocket stream err: {:?}", err);
+                                    }
+                                },
+                            }
+                        });
+                    }
+                    Err(err) => {
+                        debug!("stream get peer address error: {:?}", err);
+                    }
+                },
+                Poll::Pending => break,
+            }
         }
+
+        self.poll_pending(cx)
     }
 }
 
@@ -341,45 +346,46 @@ impl AsyncRead for WsStream {
             return Poll::Ready(Ok(copied));
         }
 
-        match self.inner.poll_next_unpin(cx) {
-            Poll::Ready(Some(Ok(t))) => {
-                let data = match t {
-                    Message::Binary(data) => data,
+        // A frame that carries nothing for the caller is not a reason to stop: returning
+        // pending after it would leave nobody to wake up this task.
+        let data = loop {
+            match self.inner.poll_next_unpin(cx) {
+                Poll::Ready(Some(Ok(t))) => match t {
+                    Message::Binary(data) => {
+                        if !data.is_empty() {
+                            break data;
+                        }
+                    }
                     Message::Close(_) => return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into())),
                     Message::Ping(data) => {
                         self.pending_ping = Some(data);
                         self.respond_ping(cx)?;
-                        Vec::new()
                     }
-                    Message::Pong(_) => Vec::new(),
-                    Message::Text(_) => Vec::new(),
-                };
-
-                if data.is_empty() {
-                    return Poll::Pending;
+                    Message::Pong(_) | Message::Text(_) => (),
+                },
+                Poll::Ready(Some(Err(err))) => {
+                    debug!("read from websocket stream error: {:?}", err);
+                    return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()));
                 }
-                // when input buffer is big enough
-                let n = data.len();
-                if buf.len() >= n {
-                    buf[..n].copy_from_slice(data.as_ref());
-                    Poll::Ready(Ok(n))
-                } else {
-                    // fill internal recv buffer
-                    self.recv_buf = data;
-                    // drain for input buffer
-                    let copied = self.drain(buf);
-                    Poll::Ready(Ok(copied))
+                Poll::Ready(None) => {
+                    debug!("connection shutting down");
+                    return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()));
                 }
+                Poll::Pending => return Poll::Pending,
             }
-            Poll::Ready(Some(Err(err))) => {
-                debug!("read from websocket stream error: {:?}", err);
-                Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()))
-            }
-            Poll::Ready(None) => {
-                debug!("connection shutting down");
-                Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()))
-            }
-            Poll::Pending => Poll::Pending,
+        };
+
+        // when input buffer is big enough
+        let n = data.len();
+        if buf.len() >= n {
+            buf[..n].copy_from_slice(data.as_ref());
+            Poll::Ready(Ok(n))
+        } else {
+            // fill internal recv buffer
+            self.recv_buf = data;
+            // drain for input buffer
+            let copied = self.drain(buf);
+            Poll::Ready(Ok(copied))
         }
     }
 
-- 
2.43.0


From 8c89c3d8dd086c87fafd90a8da29b4f843999ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:17:09 +0000
Subject: [PATCH 04/27] fix: read the whole nonce back before comparing it

verify_nonce used a single read call. A peer that sends the nonce in more
than one record made the comparison use the local copy of the missing
bytes, and the rest of the nonce was handed to the application as data.
---
 secio/src/codec/secure_stream.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/secio/src/codec/secure_stream.rs b/secio/src/codec/secure_stream.rs
index fe8df5a..2a303ff 100644
--- a/secio/src/codec/secure_stream.rs
+++ b/secio/src/codec/secure_stream.rs
@@ -112,7 +112,7 @@ where
     pub(crate) async fn verify_nonce(&mut self) -> Result<(), SecioError> {
         if !self.nonce.is_empty() {
             let mut nonce = self.nonce.clone();
-            self.read(&mut nonce).await?;
+            self.read_exact(&mut nonce).await?;
 
             trace!(
                 "received nonce={}, my_nonce={}",
-- 
2.43.0


From 782aa7b5e324cf9d4217e573055f4a10b620cb96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:54:59 +0000
Subject: [PATCH 05/27] fix: keep buffered plaintext when a read is made with
 an empty buffer

---
 secio/src/codec/secure_stream.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/secio/src/codec/secure_stream.rs b/secio/src/codec/secure_stream.rs
index 2a303ff..6775b0c 100644
--- a/secio/src/codec/secure_stream.rs
+++ b/secio/src/codec/secure_stream.rs
@@ -164,9 +164,8 @@ where
         buf: &mut [u8],
     ) -> Poll<io::Result<usize>> {
         // when there is something in recv_buffer
-        let copied = self.drain(buf);
-        if copied > 0 {
-            return Poll::Ready(Ok(copied));
+        if !self.recv_buf.is_empty() {
+            return Poll::Ready(Ok(self.drain(buf)));
         }
 
         match self.socket.poll_next_unpin(cx) {
-- 
2.43.0


From 5c5d5d8380f8630e377830f2efc25bb52aba0b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:00:44 +0000
Subject: [PATCH 06/27] fix: refuse peer ids whose hash code is not in its
 shortest form

---
 multiaddr/src/protocol.rs | 8 +++++++-
 secio/src/peer_id.rs      | 5 +++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/multiaddr/src/protocol.rs b/multiaddr/src/protocol.rs
index 9a4ed59..c4acc3c 100644
--- a/multiaddr/src/protocol.rs
+++ b/multiaddr/src/protocol.rs
@@ -257,12 +257,18 @@ impl<'a> From<Ipv6Addr> for Protocol<'a> {
 }
 
 fn check_p2p(data: &[u8]) -> Result<(), Error> {
-    let (code, bytes) = unsigned_varint::decode::u16(&data)?;
+    use unsigned_varint::{decode, encode};
+    let (code, bytes) = decode::u16(&data)?;
 
     if code != SHA256_CODE {
         return Err(Error::UnknownHash);
     }
 
+    // the code must be in its shortest form, or one digest would have several ids
+    if data.len() - bytes.len() != encode::u16(SHA256_CODE, &mut encode::u16_buffer()).len() {
+        return Err(Error::UnknownHash);
+    }
+
     if bytes.len() != SHA256_SIZE as usize + 1 {
         return Err(Error::UnknownHash);
     }
diff --git a/secio/src/peer_id.rs b/secio/src/peer_id.rs
index 48ddc2e..5b1d4c8 100644
--- a/secio/src/peer_id.rs
+++ b/secio/src/peer_id.rs
@@ -37,6 +37,11 @@ impl PeerId {
             return Err(());
         }
 
+        // the code must be in its shortest form, or one digest would have several ids
+        if data.len() - bytes.len() != encode::u16(SHA256_CODE, &mut encode::u16_buffer()).len() {
+            return Err(());
+        }
+
         if bytes.len() != SHA256_SIZE as usize + 1 {
             return Err(());
         }
-- 
2.43.0


From 6f70d4ff0f9ae60ad58c64e33b6872cceed612ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:20:48 +0000
Subject: [PATCH 07/27] fix: apply the yamux frame size limit to data frames
 only

The length field of ping, window update and go away frames is an id, a
delta or a code. A ping id above the limit was taken for an oversized
frame and ended the session.
---
 yamux/src/frame.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/yamux/src/frame.rs b/yamux/src/frame.rs
index 25686df..c1c64fd 100644
--- a/yamux/src/frame.rs
+++ b/yamux/src/frame.rs
@@ -293,7 +293,8 @@ impl Decoder for FrameCodec {
                 let flags = Flags(header_data.get_u16());
                 let stream_id = header_data.get_u32();
                 let length = header_data.get_u32();
-                if length > self.max_frame_size {
+                // only the length of a data frame is a size, others carry ids, codes or window deltas
+                if ty == Type::Data && length > self.max_frame_size {
                     let err = io::Error::new(
                         io::ErrorKind::InvalidData,
                         format!("yamux.length={}", length),
-- 
2.43.0


From 2a8a9876824ab2a02aad0749e89ec8091b351a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:20:48 +0000
Subject: [PATCH 08/27] fix: removing a flag that is not set leaves it unset

---
 yamux/src/frame.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yamux/src/frame.rs b/yamux/src/frame.rs
index c1c64fd..897060b 100644
--- a/yamux/src/frame.rs
+++ b/yamux/src/frame.rs
@@ -193,7 +193,7 @@ impl Flags {
 
     /// Remove a flag
     pub fn remove(&mut self, flag: Flag) {
-        self.0 ^= flag as u16;
+        self.0 &= !(flag as u16);
     }
 
     /// Check if contains a target flag
-- 
2.43.0


From 1f15fd08f31ad8b422b8413df12c909a009f41d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:20:48 +0000
Subject: [PATCH 09/27] fix: keep the read half of a stream open after a local
 shutdown

A read that returned data on a locally closed stream closed the whole
stream, so everything the remote sent after that data was lost.
---
 yamux/src/stream.rs | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/yamux/src/stream.rs b/yamux/src/stream.rs
index b15c9a5..33f5be9 100644
--- a/yamux/src/stream.rs
+++ b/yamux/src/stream.rs
@@ -372,11 +372,6 @@ impl AsyncRead for StreamHandle {
         buf[..n].copy_from_slice(&b);
         match self.state {
             StreamState::RemoteClosing | StreamState::Closed | StreamState::Reset => (),
-            StreamState::LocalClosing => {
-                if self.close().is_err() {
-                    return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()));
-                }
-            }
             _ => {
                 if self.send_window_update().is_err() {
                     return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()));
-- 
2.43.0


From 295d4ab6913593bc355ebd99d559b5292e999ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:20:48 +0000
Subject: [PATCH 10/27] fix: handle the frames that follow a refused stream

Refusing a new stream after go away, or a repeated stream id, stopped the
distribution and dropped the frames queued behind it. A repeated id at the
stream limit was answered with a reset of the live stream instead of the
protocol error.
---
 yamux/src/session.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/yamux/src/session.rs b/yamux/src/session.rs
index 602e486..fd34c00 100644
--- a/yamux/src/session.rs
+++ b/yamux/src/session.rs
@@ -409,10 +409,12 @@ where
                         stream_id, self.ty
                     );
                     // TODO: should report error?
-                    return Ok(());
+                    continue;
                 }
-                if self.streams.len() < self.config.max_stream_count
-                    && self.pending_streams.len() < self.config.accept_backlog
+                // a live id is refused by `create_stream`
+                if self.streams.contains_key(&stream_id)
+                    || self.streams.len() < self.config.max_stream_count
+                        && self.pending_streams.len() < self.config.accept_backlog
                 {
                     debug!(
                         "substream({}) accepted, session.ty={:?}",
@@ -422,7 +424,7 @@ where
                         Ok(stream) => stream,
                         Err(_) => {
                             self.send_go_away_with_code(cx, GoAwayCode::ProtocolError)?;
-                            return Ok(());
+                            continue;
                         }
                     };
                     self.pending_streams.push_back(stream);
-- 
2.43.0


From 677310157e241f4a21b07ada898529862b2592a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:46:20 +0000
Subject: [PATCH 11/27] fix: reject X25519 keys that are not 32 bytes long

The wasm key agreement copied the remote key into a 32 byte array after
checking only that it was not shorter, and panicked on a longer one.
---
 secio/src/dh_compat/wasm_compat.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/secio/src/dh_compat/wasm_compat.rs b/secio/src/dh_compat/wasm_compat.rs
index 62d0b9b..0e922ce 100644
--- a/secio/src/dh_compat/wasm_compat.rs
+++ b/secio/src/dh_compat/wasm_compat.rs
@@ -27,7 +27,7 @@ pub fn agree(
     my_private_key: EphemeralPrivateKey,
     other_public_key: &[u8],
 ) -> Result<Vec<u8>, SecioError> {
-    if !matches!(algorithm, KeyAgreement::X25519) || other_public_key.len() < 32 {
+    if !matches!(algorithm, KeyAgreement::X25519) || other_public_key.len() != 32 {
         return Err(SecioError::SecretGenerationFailed);
     }
     let mut bytes = [0; 32];
-- 
2.43.0


From ecf6f9f6a63e739f6c7dfcdb29b3d8bb10a0eb02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:49:10 +0000
Subject: [PATCH 12/27] fix: remember a dial only once it has been started

A dial refused by the transport left its address behind, and every later
request for the same address was ignored without an outcome.
---
 tentacle/src/service.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tentacle/src/service.rs b/tentacle/src/service.rs
index 98c3f23..69ecaca 100644
--- a/tentacle/src/service.rs
+++ b/tentacle/src/service.rs
@@ -315,8 +315,8 @@ where
     /// Use by inner
     #[inline(always)]
     fn dial_inner(&mut self, address: Multiaddr, target: TargetProtocol) -> Result<()> {
-        self.dial_protocols.insert(address.clone(), target);
         let dial_future = self.multi_transport.dial(address.clone())?;
+        self.dial_protocols.insert(address.clone(), target);
 
         let key_pair = self.service_context.key_pair().cloned();
         let timeout = self.config.timeout;
-- 
2.43.0


From ea6b54e3aa96b8323c54c71c1e3a9991b12a7a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:49:10 +0000
Subject: [PATCH 13/27] fix: do not admit one session more than the configured
 maximum

---
 tentacle/src/service.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tentacle/src/service.rs b/tentacle/src/service.rs
index 69ecaca..c74eaf6 100644
--- a/tentacle/src/service.rs
+++ b/tentacle/src/service.rs
@@ -625,7 +625,7 @@ where
         self.sessions
             .len()
             .checked_add(self.state.into_inner().unwrap_or_default())
-            .map(|count| self.config.max_connection_number < count)
+            .map(|count| self.config.max_connection_number <= count)
             .unwrap_or_default()
     }
 
-- 
2.43.0


From b9f52629741b0a73c12bb5243603a1e16f7c37ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:49:22 +0000
Subject: [PATCH 14/27] fix: report a dial that ends at the connection limit

The connection was dropped without a word and its address stayed behind,
so that the caller never got an outcome and could not dial it again.
---
 tentacle/src/service.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/tentacle/src/service.rs b/tentacle/src/service.rs
index c74eaf6..5fd092c 100644
--- a/tentacle/src/service.rs
+++ b/tentacle/src/service.rs
@@ -1029,6 +1029,18 @@ where
                 }
                 if !self.reached_max_connection_limit() {
                     self.session_open(cx, handle, public_key, address, ty, listen_address);
+                } else if ty.is_outbound() {
+                    self.dial_protocols.remove(&address);
+                    self.handle.handle_error(
+                        &mut self.service_context,
+                        ServiceError::DialerError {
+                            address,
+                            error: DialerErrorKind::IoError(std::io::Error::new(
+                                std::io::ErrorKind::Other,
+                                "reached max connection number",
+                            )),
+                        },
+                    )
                 }
             }
             SessionEvent::HandshakeError { ty, error, address } => {
-- 
2.43.0


From e16b8ae79d4334cbf1b7986ea9a1a33c993194f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:49:37 +0000
Subject: [PATCH 15/27] fix: close a protocol stream exactly once after an
 error

A codec error closed the stream twice and told the handle twice. A broken
connection found while flushing ended the stream without closing it, so
that neither the handle nor the session learned about it.
---
 tentacle/src/substream.rs | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/tentacle/src/substream.rs b/tentacle/src/substream.rs
index a97bb55..a36ff03 100644
--- a/tentacle/src/substream.rs
+++ b/tentacle/src/substream.rs
@@ -238,7 +238,8 @@ where
         }
     }
 
-    /// When send or receive message error, output error and close stream
+    /// When send or receive message error, output error and mark the stream as dead,
+    /// it is closed by the next poll
     fn error_close(&mut self, cx: &mut Context, error: io::Error) {
         self.dead = true;
         match error.kind() {
@@ -249,12 +250,14 @@ where
             | ErrorKind::UnexpectedEof => return,
             _ => (),
         }
-        self.event_sender.push(ProtocolEvent::Error {
-            id: self.id,
-            proto_id: self.proto_id,
-            error,
-        });
-        self.close_proto_stream(cx);
+        self.output_event(
+            cx,
+            ProtocolEvent::Error {
+                id: self.id,
+                proto_id: self.proto_id,
+                error,
+            },
+        );
     }
 
     /// Handling commands send by session
@@ -482,6 +485,7 @@ where
                 self.id, err
             );
             self.error_close(cx, err);
+            self.close_proto_stream(cx);
             return Poll::Ready(None);
         }
 
@@ -784,7 +788,8 @@ where
         }
     }
 
-    /// When send or receive message error, output error and close stream
+    /// When send or receive message error, output error and mark the stream as dead,
+    /// it is closed by the next poll
     fn error_close(&mut self, cx: &mut Context, error: io::Error) {
         self.dead = true;
         match error.kind() {
@@ -795,12 +800,14 @@ where
             | ErrorKind::UnexpectedEof => return,
             _ => (),
         }
-        self.event_sender.push(ProtocolEvent::Error {
-            id: self.id,
-            proto_id: self.proto_id,
-            error,
-        });
-        self.close_proto_stream(cx);
+        self.output_event(
+            cx,
+            ProtocolEvent::Error {
+                id: self.id,
+                proto_id: self.proto_id,
+                error,
+            },
+        );
     }
 
     fn close_proto_stream(&mut self, cx: &mut Context) {
@@ -864,6 +871,7 @@ where
                 self.id, err
             );
             self.error_close(cx, err);
+            self.close_proto_stream(cx);
             return Poll::Ready(None);
         }
 
-- 
2.43.0


From 0a58b5cf0e04e34ac927d7ba93f86bedac69e003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:51:18 +0000
Subject: [PATCH 16/27] fix: stop counting data dropped for a protocol that is
 not open

Such data was counted as waiting for the rest of the session, which could
get the session killed as blocked although nothing was waiting.
---
 tentacle/src/session.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tentacle/src/session.rs b/tentacle/src/session.rs
index f6db4fc..458a10e 100644
--- a/tentacle/src/session.rs
+++ b/tentacle/src/session.rs
@@ -598,6 +598,7 @@ impl Session {
                     }
                 } else {
                     trace!("protocol {} not ready", proto_id);
+                    self.context.decr_pending_data_size(data.len());
                 }
             }
             SessionEvent::SessionClose { .. } => {
-- 
2.43.0


From 76d39c334892e6b9c84898d8020cf14e0db2f85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:53:27 +0000
Subject: [PATCH 17/27] fix: stop counting data discarded when a protocol
 stream closes

Data still queued when its protocol was closed, or lost to a stream error,
was counted as waiting for the rest of the session.
---
 tentacle/src/substream.rs | 67 +++++++++++++++++++++++++++++++++------
 1 file changed, 58 insertions(+), 9 deletions(-)

diff --git a/tentacle/src/substream.rs b/tentacle/src/substream.rs
index a36ff03..483ca58 100644
--- a/tentacle/src/substream.rs
+++ b/tentacle/src/substream.rs
@@ -1,4 +1,9 @@
-use futures::{channel::mpsc, prelude::*, stream::iter, SinkExt, StreamExt};
+use futures::{
+    channel::mpsc,
+    prelude::*,
+    stream::{iter, FusedStream},
+    SinkExt, StreamExt,
+};
 use log::debug;
 use std::{
     collections::VecDeque,
@@ -138,10 +143,12 @@ where
         let data_size = frame.len();
         let mut sink = Pin::new(&mut self.substream);
 
-        match sink.as_mut().poll_ready(cx)? {
-            Poll::Ready(()) => {
-                sink.as_mut().start_send(frame)?;
+        match sink.as_mut().poll_ready(cx) {
+            Poll::Ready(res) => {
+                // either sent or lost with the stream, it is no longer pending
                 self.context.decr_pending_data_size(data_size);
+                res?;
+                sink.as_mut().start_send(frame)?;
                 Ok(false)
             }
             Poll::Pending => {
@@ -183,9 +190,30 @@ where
         }
     }
 
+    /// Data that will not be sent any more is no longer pending
+    fn discard_pending(&mut self, cx: &mut Context) {
+        for frame in self
+            .high_write_buf
+            .drain(..)
+            .chain(self.write_buf.drain(..))
+        {
+            self.context.decr_pending_data_size(frame.len());
+        }
+        while !self.event_receiver.is_terminated() {
+            match Pin::new(&mut self.event_receiver).as_mut().poll_next(cx) {
+                Poll::Ready(Some((_, ProtocolEvent::Message { data, .. }))) => {
+                    self.context.decr_pending_data_size(data.len())
+                }
+                Poll::Ready(Some(_)) => (),
+                Poll::Ready(None) | Poll::Pending => break,
+            }
+        }
+    }
+
     /// Close protocol sub stream
     fn close_proto_stream(&mut self, cx: &mut Context) {
         self.event_receiver.close();
+        self.discard_pending(cx);
         if let Poll::Ready(Err(e)) = Pin::new(self.substream.get_mut()).poll_shutdown(cx) {
             log::trace!("sub stream poll shutdown err {}", e)
         }
@@ -286,7 +314,6 @@ where
                 }
             }
             ProtocolEvent::Close { .. } => {
-                self.write_buf.clear();
                 self.dead = true;
             }
             _ => (),
@@ -671,10 +698,12 @@ where
         let data_size = frame.len();
         let mut sink = Pin::new(&mut self.substream);
 
-        match sink.as_mut().poll_ready(cx)? {
-            Poll::Ready(()) => {
-                sink.as_mut().start_send(frame)?;
+        match sink.as_mut().poll_ready(cx) {
+            Poll::Ready(res) => {
+                // either sent or lost with the stream, it is no longer pending
                 self.context.decr_pending_data_size(data_size);
+                res?;
+                sink.as_mut().start_send(frame)?;
                 Ok(false)
             }
             Poll::Pending => {
@@ -755,7 +784,6 @@ where
                 }
             }
             ProtocolEvent::Close { .. } => {
-                self.write_buf.clear();
                 self.dead = true;
             }
             _ => (),
@@ -810,8 +838,29 @@ where
         );
     }
 
+    /// Data that will not be sent any more is no longer pending
+    fn discard_pending(&mut self, cx: &mut Context) {
+        for frame in self
+            .high_write_buf
+            .drain(..)
+            .chain(self.write_buf.drain(..))
+        {
+            self.context.decr_pending_data_size(frame.len());
+        }
+        while !self.event_receiver.is_terminated() {
+            match Pin::new(&mut self.event_receiver).as_mut().poll_next(cx) {
+                Poll::Ready(Some((_, ProtocolEvent::Message { data, .. }))) => {
+                    self.context.decr_pending_data_size(data.len())
+                }
+                Poll::Ready(Some(_)) => (),
+                Poll::Ready(None) | Poll::Pending => break,
+            }
+        }
+    }
+
     fn close_proto_stream(&mut self, cx: &mut Context) {
         self.event_receiver.close();
+        self.discard_pending(cx);
         if let Poll::Ready(Err(e)) = Pin::new(self.substream.get_mut()).poll_shutdown(cx) {
             log::trace!("sub stream poll shutdown err {}", e)
         }
-- 
2.43.0


From 8675003d8e12e6a84743f8cdd54d31988fcf264c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:18:30 +0000
Subject: [PATCH 18/27] fix: report open protocols closed before the session,
 once, however it closes

When the remote closed the connection, the session told the service that it
had closed without first reporting its open protocols as closed, so a
ServiceHandle saw protocols opened and never closed.  The session also sent
its close event more than once, from tasks that race with each other.
---
 tentacle/src/session.rs | 38 +++++++++++++++++++++++++-------------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/tentacle/src/session.rs b/tentacle/src/session.rs
index 458a10e..e4be622 100644
--- a/tentacle/src/session.rs
+++ b/tentacle/src/session.rs
@@ -721,8 +721,22 @@ impl Session {
 
     /// Close session
     fn close_session(&mut self) {
+        if self.state.is_closed() {
+            return;
+        }
+        self.state = SessionState::Closed;
         self.context.closed.store(true, Ordering::SeqCst);
 
+        let id = self.context.id;
+        let protos = ::std::mem::take(&mut self.proto_streams);
+        for (proto_id, _) in protos {
+            // make sure close protocol is early than close session
+            if self.event.contains(&proto_id) {
+                self.service_sender
+                    .push(SessionEvent::ProtocolClose { id, proto_id });
+            }
+        }
+
         let (mut sender, mut events) = self.service_sender.take();
         events.push_back(SessionEvent::SessionClose {
             id: self.context.id,
@@ -800,12 +814,12 @@ impl Stream for Session {
         }
 
         // double check here
-        if self.state.is_local_close() {
+        if self.state.is_closed() {
             debug!(
-                "Session({:?}) finished, self.state.is_local_close()",
+                "Session({:?}) finished, self.state.is_closed()",
                 self.context.id
             );
-            return Poll::Ready(None);
+            return self.wait_handle_poll(cx);
         }
 
         self.flush(cx);
@@ -820,15 +834,6 @@ impl Stream for Session {
                     "Session({:?}) finished, LocalClose||Abnormal",
                     self.context.id
                 );
-                let id = self.context.id;
-                let protos = ::std::mem::take(&mut self.proto_streams);
-                for (proto_id, _) in protos {
-                    // make sure close protocol is early than close session
-                    if self.event.contains(&proto_id) {
-                        self.service_sender
-                            .push(SessionEvent::ProtocolClose { id, proto_id });
-                    }
-                }
                 self.close_session();
                 return self.wait_handle_poll(cx);
             }
@@ -842,7 +847,7 @@ impl Stream for Session {
                     self.close_all_proto(cx);
                 }
             }
-            SessionState::Normal => (),
+            SessionState::Closed | SessionState::Normal => (),
         }
 
         if is_pending {
@@ -956,6 +961,8 @@ pub(crate) enum SessionState {
     LocalClose,
     /// Normal communication
     Normal,
+    /// The close event has been handed to the service
+    Closed,
     /// Abnormal state
     Abnormal,
 }
@@ -966,6 +973,11 @@ impl SessionState {
         matches!(self, SessionState::LocalClose)
     }
 
+    #[inline]
+    fn is_closed(self) -> bool {
+        matches!(self, SessionState::Closed)
+    }
+
     #[inline]
     fn is_normal(self) -> bool {
         matches!(self, SessionState::Normal)
-- 
2.43.0


From b67d32e116310a9b5dbe64462c1722bbc9ab55b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:19:16 +0000
Subject: [PATCH 19/27] fix: stop counting data that was queued for a protocol
 that closed

Messages still queued in the session for a stream that closed were dropped
without being subtracted from the pending data size of the session, which
therefore never went back to zero.
---
 tentacle/src/buffer.rs  | 15 +++++++++++----
 tentacle/src/session.rs |  8 +++++++-
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/tentacle/src/buffer.rs b/tentacle/src/buffer.rs
index 93589ad..7159391 100644
--- a/tentacle/src/buffer.rs
+++ b/tentacle/src/buffer.rs
@@ -63,7 +63,7 @@ impl<T> PriorityBuffer<T> {
                             self.high_buffer.push_front(e.into_inner());
                             return SendResult::Pending;
                         } else {
-                            self.clear();
+                            self.high_buffer.push_front(e.into_inner());
                             return SendResult::Disconnect;
                         }
                     }
@@ -73,7 +73,7 @@ impl<T> PriorityBuffer<T> {
                     return SendResult::Pending;
                 }
                 Poll::Ready(Err(_)) => {
-                    self.clear();
+                    self.high_buffer.push_front(event);
                     return SendResult::Disconnect;
                 }
             }
@@ -86,7 +86,7 @@ impl<T> PriorityBuffer<T> {
                             self.normal_buffer.push_front(e.into_inner());
                             return SendResult::Pending;
                         } else {
-                            self.clear();
+                            self.normal_buffer.push_front(e.into_inner());
                             return SendResult::Disconnect;
                         }
                     }
@@ -96,7 +96,7 @@ impl<T> PriorityBuffer<T> {
                     return SendResult::Pending;
                 }
                 Poll::Ready(Err(_)) => {
-                    self.clear();
+                    self.normal_buffer.push_front(event);
                     return SendResult::Disconnect;
                 }
             }
@@ -105,6 +105,13 @@ impl<T> PriorityBuffer<T> {
         SendResult::Ok
     }
 
+    /// Take out everything that was not sent
+    pub fn drain(&mut self) -> impl Iterator<Item = T> + '_ {
+        self.high_buffer
+            .drain(..)
+            .chain(self.normal_buffer.drain(..))
+    }
+
     pub fn clear(&mut self) {
         self.high_buffer.clear();
         self.normal_buffer.clear();
diff --git a/tentacle/src/session.rs b/tentacle/src/session.rs
index e4be622..2a323d4 100644
--- a/tentacle/src/session.rs
+++ b/tentacle/src/session.rs
@@ -517,7 +517,13 @@ impl Session {
             }
             ProtocolEvent::Close { id, proto_id } => {
                 debug!("session [{}] proto [{}] closed", self.context.id, proto_id);
-                if self.substreams.remove(&id).is_some() {
+                if let Some(mut buffer) = self.substreams.remove(&id) {
+                    // what was waiting for this stream will not be sent any more
+                    for event in buffer.drain() {
+                        if let ProtocolEvent::Message { data, .. } = event {
+                            self.context.decr_pending_data_size(data.len());
+                        }
+                    }
                     self.proto_streams.remove(&proto_id);
                     if self.event.contains(&proto_id) {
                         self.event_output(
-- 
2.43.0


From b64a9fffc0ffc724180ebdf41a96014e799884bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:26:56 +0000
Subject: [PATCH 20/27] fix: report a protocol handler that panics in poll or
 in a late disconnected

The task of a handler is marked as running user code while it handles an
event.  The calls of poll, and of disconnected for a session that closed in
the meantime, were not marked, so a panic in them ended the handler without
any report and the service went on without it.
---
 tentacle/src/protocol_handle_stream.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/tentacle/src/protocol_handle_stream.rs b/tentacle/src/protocol_handle_stream.rs
index 3926f42..05a5e25 100644
--- a/tentacle/src/protocol_handle_stream.rs
+++ b/tentacle/src/protocol_handle_stream.rs
@@ -156,6 +156,7 @@ where
             .collect::<Vec<_>>();
         for session_id in closed_sessions {
             if let Some(session) = self.sessions.remove(&session_id) {
+                self.current_task.run_with_id(session_id);
                 self.handle
                     .disconnected(self.handle_context.as_mut(&session));
             }
@@ -221,7 +222,10 @@ where
     }
 
     fn handle_poll(&mut self, cx: &mut Context) -> bool {
-        match Pin::new(&mut self.handle).poll(cx, &mut self.handle_context) {
+        self.current_task.run();
+        let result = Pin::new(&mut self.handle).poll(cx, &mut self.handle_context);
+        self.current_task.idle();
+        match result {
             Poll::Ready(None) => {
                 self.need_poll = false;
                 true
@@ -477,7 +481,11 @@ where
     }
 
     fn handle_poll(&mut self, cx: &mut Context) -> bool {
-        match Pin::new(&mut self.handle).poll(cx, self.handle_context.as_mut(&self.context)) {
+        self.current_task = true;
+        let result =
+            Pin::new(&mut self.handle).poll(cx, self.handle_context.as_mut(&self.context));
+        self.current_task = false;
+        match result {
             Poll::Ready(None) => {
                 self.need_poll = false;
                 true
-- 
2.43.0


From cf26e2445c91e7da7b6aa46b6963afe9f8fd88cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:27:36 +0000
Subject: [PATCH 21/27] fix: do not report a running listener closed when a
 second request fails

A failed request to listen on an address where the service already listens
was taken for the end of the running listener, and the failed request stayed
counted as outstanding.
---
 tentacle/src/service.rs | 16 ++++++++++++----
 tentacle/src/session.rs |  8 ++++++++
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/tentacle/src/service.rs b/tentacle/src/service.rs
index 5fd092c..9851beb 100644
--- a/tentacle/src/service.rs
+++ b/tentacle/src/service.rs
@@ -284,7 +284,7 @@ where
                         listen_address: addr,
                         incoming,
                     },
-                    Err(error) => SessionEvent::ListenError { address, error },
+                    Err(error) => SessionEvent::ListenStartError { address, error },
                 };
                 if let Err(err) = sender.send(event).await {
                     error!("Listen address result send back error: {:?}", err);
@@ -1121,11 +1121,19 @@ where
                         &mut self.service_context,
                         ServiceEvent::ListenClose { address },
                     )
-                } else {
-                    // try start listen error
-                    self.state.decrease();
                 }
             }
+            #[cfg(not(target_arch = "wasm32"))]
+            SessionEvent::ListenStartError { address, error } => {
+                self.state.decrease();
+                self.handle.handle_error(
+                    &mut self.service_context,
+                    ServiceError::ListenError {
+                        address,
+                        error: ListenErrorKind::TransportError(error),
+                    },
+                );
+            }
             SessionEvent::SessionTimeout { id } => {
                 if let Some(session_control) = self.sessions.get(&id) {
                     self.handle.handle_error(
diff --git a/tentacle/src/session.rs b/tentacle/src/session.rs
index 2a323d4..9e5424e 100644
--- a/tentacle/src/session.rs
+++ b/tentacle/src/session.rs
@@ -73,6 +73,14 @@ pub(crate) enum SessionEvent {
         /// error
         error: TransportErrorKind,
     },
+    /// A listen request failed
+    ListenStartError {
+        /// listen address
+        address: Multiaddr,
+        /// error
+        error: TransportErrorKind,
+    },
+    /// A running listener failed
     ListenError {
         /// listen address
         address: Multiaddr,
-- 
2.43.0


From cf3987e3e5160dba84294c4b2e6fe5157f2d24b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:28:10 +0000
Subject: [PATCH 22/27] fix: do not open sessions or listeners after a shutdown
 request

A connection or a listener that was being set up when shutdown was requested
was still opened, and kept the service from ending.
---
 tentacle/src/service.rs        | 15 ++++++++++++---
 tentacle/src/service/config.rs |  6 ++++++
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/tentacle/src/service.rs b/tentacle/src/service.rs
index 9851beb..078d11c 100644
--- a/tentacle/src/service.rs
+++ b/tentacle/src/service.rs
@@ -1027,9 +1027,15 @@ where
                 if ty.is_outbound() {
                     self.state.decrease();
                 }
-                if !self.reached_max_connection_limit() {
+                let refused = if self.state.is_pre_shutdown() {
+                    "service is shutting down"
+                } else if self.reached_max_connection_limit() {
+                    "reached max connection number"
+                } else {
                     self.session_open(cx, handle, public_key, address, ty, listen_address);
-                } else if ty.is_outbound() {
+                    return;
+                };
+                if ty.is_outbound() {
                     self.dial_protocols.remove(&address);
                     self.handle.handle_error(
                         &mut self.service_context,
@@ -1037,7 +1043,7 @@ where
                             address,
                             error: DialerErrorKind::IoError(std::io::Error::new(
                                 std::io::ErrorKind::Other,
-                                "reached max connection number",
+                                refused,
                             )),
                         },
                     )
@@ -1160,6 +1166,9 @@ where
                 listen_address,
                 incoming,
             } => {
+                if self.state.is_pre_shutdown() {
+                    return;
+                }
                 self.handle.handle_event(
                     &mut self.service_context,
                     ServiceEvent::ListenStarted {
diff --git a/tentacle/src/service/config.rs b/tentacle/src/service/config.rs
index 09a7fa1..a07898b 100644
--- a/tentacle/src/service/config.rs
+++ b/tentacle/src/service/config.rs
@@ -378,6 +378,12 @@ impl State {
         }
     }
 
+    /// Has a shutdown been requested?
+    #[inline]
+    pub fn is_pre_shutdown(&self) -> bool {
+        matches!(self, State::PreShutdown)
+    }
+
     /// Convert to pre shutdown state
     #[inline]
     pub fn pre_shutdown(&mut self) {
-- 
2.43.0


From 7facb502bd631441d14b5a4e7eaff6b8919033b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:28:48 +0000
Subject: [PATCH 23/27] fix: keep one timer per notify token and none after its
 removal

Setting the same token twice, or again after removing it, started a second
timer, and a removed token was notified once more.
---
 tentacle/src/protocol_handle_stream.rs | 67 ++++++++++++++++++--------
 1 file changed, 47 insertions(+), 20 deletions(-)

diff --git a/tentacle/src/protocol_handle_stream.rs b/tentacle/src/protocol_handle_stream.rs
index 05a5e25..ddd9df3 100644
--- a/tentacle/src/protocol_handle_stream.rs
+++ b/tentacle/src/protocol_handle_stream.rs
@@ -92,9 +92,11 @@ pub struct ServiceProtocolStream<T> {
     handle_context: ProtocolContext,
     sessions: HashMap<SessionId, Arc<SessionContext>>,
     receiver: mpsc::Receiver<ServiceProtocolEvent>,
-    notify: HashMap<u64, Duration>,
-    notify_sender: mpsc::Sender<u64>,
-    notify_receiver: mpsc::Receiver<u64>,
+    /// The interval and the timer of each token
+    notify: HashMap<u64, (Duration, u64)>,
+    next_timer: u64,
+    notify_sender: mpsc::Sender<(u64, u64)>,
+    notify_receiver: mpsc::Receiver<(u64, u64)>,
     panic_report: mpsc::Sender<SessionEvent>,
     current_task: CurrentTask,
     shutdown: Arc<AtomicBool>,
@@ -124,6 +126,7 @@ where
             notify_sender,
             notify_receiver,
             notify: HashMap::new(),
+            next_timer: 0,
             current_task: CurrentTask::Idle,
             shutdown,
             panic_report,
@@ -206,8 +209,12 @@ where
             }
             SetNotify { interval, token } => {
                 self.current_task.run();
-                self.notify.entry(token).or_insert(interval);
-                self.set_notify(token);
+                // a token has one timer, one that is already set keeps running
+                if !self.notify.contains_key(&token) {
+                    self.next_timer = self.next_timer.wrapping_add(1);
+                    self.notify.insert(token, (interval, self.next_timer));
+                    self.set_notify(token);
+                }
             }
             RemoveNotify { token } => {
                 self.current_task.run();
@@ -236,13 +243,13 @@ where
     }
 
     fn set_notify(&mut self, token: u64) {
-        if let Some(&interval) = self.notify.get(&token) {
+        if let Some(&(interval, timer)) = self.notify.get(&token) {
             let mut sender = self.notify_sender.clone();
             // NOTE: A Interval/Delay will block tokio runtime from gracefully shutdown.
             //       So we spawn it in FutureTaskManager
             let task = async move {
                 crate::runtime::delay_for(interval).await;
-                if sender.send(token).await.is_err() {
+                if sender.send((token, timer)).await.is_err() {
                     trace!("service notify token {} send err", token)
                 }
             };
@@ -315,8 +322,15 @@ where
         };
 
         match Pin::new(&mut self.notify_receiver).as_mut().poll_next(cx) {
-            Poll::Ready(Some(token)) => {
-                self.handle_event(ServiceProtocolEvent::Notify { token });
+            Poll::Ready(Some((token, timer))) => {
+                // the timer may have been removed while it was running
+                if self
+                    .notify
+                    .get(&token)
+                    .map_or(false, |(_, id)| *id == timer)
+                {
+                    self.handle_event(ServiceProtocolEvent::Notify { token });
+                }
                 is_pending &= false
             }
             Poll::Ready(None) => unreachable!(),
@@ -379,9 +393,11 @@ pub struct SessionProtocolStream<T> {
     handle_context: ProtocolContext,
     context: Arc<SessionContext>,
     receiver: mpsc::Receiver<SessionProtocolEvent>,
-    notify: HashMap<u64, Duration>,
-    notify_sender: mpsc::Sender<u64>,
-    notify_receiver: mpsc::Receiver<u64>,
+    /// The interval and the timer of each token
+    notify: HashMap<u64, (Duration, u64)>,
+    next_timer: u64,
+    notify_sender: mpsc::Sender<(u64, u64)>,
+    notify_receiver: mpsc::Receiver<(u64, u64)>,
     current_task: bool,
     panic_report: mpsc::Sender<SessionEvent>,
     shutdown: Arc<AtomicBool>,
@@ -411,6 +427,7 @@ where
             notify_sender,
             notify_receiver,
             notify: HashMap::new(),
+            next_timer: 0,
             context,
             panic_report,
             current_task: false,
@@ -467,8 +484,12 @@ where
                 self.set_notify(token);
             }
             SetNotify { token, interval } => {
-                self.notify.entry(token).or_insert(interval);
-                self.set_notify(token);
+                // a token has one timer, one that is already set keeps running
+                if !self.notify.contains_key(&token) {
+                    self.next_timer = self.next_timer.wrapping_add(1);
+                    self.notify.insert(token, (interval, self.next_timer));
+                    self.set_notify(token);
+                }
             }
             RemoveNotify { token } => {
                 self.notify.remove(&token);
@@ -482,8 +503,7 @@ where
 
     fn handle_poll(&mut self, cx: &mut Context) -> bool {
         self.current_task = true;
-        let result =
-            Pin::new(&mut self.handle).poll(cx, self.handle_context.as_mut(&self.context));
+        let result = Pin::new(&mut self.handle).poll(cx, self.handle_context.as_mut(&self.context));
         self.current_task = false;
         match result {
             Poll::Ready(None) => {
@@ -496,13 +516,13 @@ where
     }
 
     fn set_notify(&mut self, token: u64) {
-        if let Some(&interval) = self.notify.get(&token) {
+        if let Some(&(interval, timer)) = self.notify.get(&token) {
             let mut sender = self.notify_sender.clone();
             // NOTE: A Interval/Delay will block tokio runtime from gracefully shutdown.
             //       So we spawn it in FutureTaskManager
             let task = async move {
                 crate::runtime::delay_for(interval).await;
-                if sender.send(token).await.is_err() {
+                if sender.send((token, timer)).await.is_err() {
                     trace!("session notify token {} send err", token)
                 }
             };
@@ -559,8 +579,15 @@ where
         };
 
         match Pin::new(&mut self.notify_receiver).as_mut().poll_next(cx) {
-            Poll::Ready(Some(token)) => {
-                self.handle_event(SessionProtocolEvent::Notify { token });
+            Poll::Ready(Some((token, timer))) => {
+                // the timer may have been removed while it was running
+                if self
+                    .notify
+                    .get(&token)
+                    .map_or(false, |(_, id)| *id == timer)
+                {
+                    self.handle_event(SessionProtocolEvent::Notify { token });
+                }
                 is_pending &= false
             }
             Poll::Ready(None) => unreachable!(),
-- 
2.43.0


From 22c0fe8534326bf89216f99926e7a087cd977aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:02:38 +0000
Subject: [PATCH 24/27] fix: do not take the end of a session for a failure of
 its protocol handle

A protocol handle of a session closes its queue when the session ends. If the
service had something to send to it at that moment, for example a changed
notify, it reported the handle as abnormally closed and shut down.
Report only a handle whose session is still running.
---
 tentacle/src/service.rs | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/tentacle/src/service.rs b/tentacle/src/service.rs
index 078d11c..680bf6a 100644
--- a/tentacle/src/service.rs
+++ b/tentacle/src/service.rs
@@ -462,14 +462,21 @@ where
                 }
                 SendResult::Ok => (),
                 SendResult::Disconnect => {
-                    error = true;
-                    self.handle.handle_error(
-                        &mut self.service_context,
-                        ServiceError::ProtocolHandleError {
-                            proto_id: *proto_id,
-                            error: ProtocolHandleErrorKind::AbnormallyClosed(Some(*session_id)),
-                        },
-                    )
+                    // the handle goes away with its session, that is not a failure of the handle
+                    if let Some(control) = self.sessions.get(session_id) {
+                        if !control.inner.closed.load(Ordering::SeqCst) {
+                            error = true;
+                            self.handle.handle_error(
+                                &mut self.service_context,
+                                ServiceError::ProtocolHandleError {
+                                    proto_id: *proto_id,
+                                    error: ProtocolHandleErrorKind::AbnormallyClosed(Some(
+                                        *session_id,
+                                    )),
+                                },
+                            )
+                        }
+                    }
                 }
             }
         }
-- 
2.43.0


From ae398d724608ada408ef86f7de2f76956868f9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:03:25 +0000
Subject: [PATCH 25/27] fix: dial websocket addresses of ip version 6

The url of the upgrade request was put together from ip and port without the
brackets an ip version 6 address needs, so it was refused as invalid and every
such dial failed. Use the text form of the socket address, which has them.
---
 tentacle/src/transports/ws.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tentacle/src/transports/ws.rs b/tentacle/src/transports/ws.rs
index 499eeec..29c0901 100644
--- a/tentacle/src/transports/ws.rs
+++ b/tentacle/src/transports/ws.rs
@@ -56,7 +56,7 @@ async fn connect(
     let addr = address.await?;
     match multiaddr_to_socketaddr(&addr) {
         Some(socket_address) => {
-            let url = format!("ws://{}:{}", socket_address.ip(), socket_address.port());
+            let url = format!("ws://{}", socket_address);
             let tcp = tcp_dial(socket_address, bind_addr, timeout).await?;
 
             match crate::runtime::timeout(timeout, client_async_with_config(url, tcp, None)).await {
-- 
2.43.0


From 1a198d9b924d526dc7e8b66d4d20d385aff9ab06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:59:24 +0000
Subject: [PATCH 26/27] fix: stop reading substreams while the service does not
 take a session's events

Session::recv_substreams moved every message of every protocol stream into the
queue of events waiting for the service, without looking at its length. When
the service is slower than the remote the queue grew without limit. It now
waits once the queue exceeds the configured receive buffer, so the pressure
reaches the streams and their windows.
---
 tentacle/src/session.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tentacle/src/session.rs b/tentacle/src/session.rs
index 9e5424e..59c3bd5 100644
--- a/tentacle/src/session.rs
+++ b/tentacle/src/session.rs
@@ -673,6 +673,12 @@ impl Session {
     }
 
     fn recv_substreams(&mut self, cx: &mut Context) -> Poll<Option<()>> {
+        // a service that does not take its events stops the reading of substreams,
+        // `flush` registers the wakeup
+        if self.service_sender.len() > self.config.recv_event_size() {
+            return Poll::Pending;
+        }
+
         match Pin::new(&mut self.proto_event_receiver)
             .as_mut()
             .poll_next(cx)
-- 
2.43.0


From b323cabd6c175718eecf470daccb090c5b361064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:00:25 +0000
Subject: [PATCH 27/27] fix: do not reserve what a serialized address announces

Deserializing a Multiaddr from a sequence reserved the length announced by the
data before reading an element, so a few bytes could ask for any amount of
memory or panic with a capacity overflow. The reservation is now limited and
the buffer grows with the elements really present.
---
 multiaddr/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/multiaddr/src/lib.rs b/multiaddr/src/lib.rs
index 9f35e64..d80196f 100644
--- a/multiaddr/src/lib.rs
+++ b/multiaddr/src/lib.rs
@@ -352,7 +352,8 @@ impl<'de> Deserialize<'de> for Multiaddr {
                 self,
                 mut seq: A,
             ) -> StdResult<Self::Value, A::Error> {
-                let mut buf: Vec<u8> = Vec::with_capacity(seq.size_hint().unwrap_or(0));
+                // the hint comes from the data, do not reserve more than a page for it
+                let mut buf: Vec<u8> = Vec::with_capacity(seq.size_hint().unwrap_or(0).min(4096));
                 while let Some(e) = seq.next_element()? {
                     buf.push(e);
                 }
-- 
2.43.0

