From b7a1c08b1ed72615fe038640c3788ebbf2452bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:11 +0000
Subject: [PATCH 01/13] fix: do not overflow when encoding the client ID suffix
 with index u32::MAX

---
 src/client/core/client_id.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/client/core/client_id.rs b/src/client/core/client_id.rs
index 4ff3f24..559b719 100644
--- a/src/client/core/client_id.rs
+++ b/src/client/core/client_id.rs
@@ -151,7 +151,7 @@ fn get_size_for_number(num: u32) -> usize {
     //There are 10 + 2*26 - 1 = 61 codewords for each given length, except that the
     //codeword 0x00 is not used to avoid ambiguities in the ClientIDSuffix
     //encoding. Hence the `+ 1` below.
-    (1 + (num + 1) / 61) as usize
+    (1 + (num as u64 + 1) / 61) as usize
 }
 
 const LOOKUP_TABLE: [u8; 62] = [
@@ -163,7 +163,7 @@ const LOOKUP_TABLE: [u8; 62] = [
 
 fn encode_number(num: u32, buf: &mut [u8]) {
     //shift all numbers by 1 to account for the omitted codeword "0"
-    let mut num = num + 1;
+    let mut num = num as u64 + 1;
     for byte_mut in buf.iter_mut() {
         if num >= 61 {
             num -= 61;
-- 
2.43.0


From bd61864fda92c8d35dd0b05b634b45bfe5aca19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:22 +0000
Subject: [PATCH 02/13] fix: reject non-canonical encodings when decoding
 integers

---
 src/common/core/decode_argument.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/common/core/decode_argument.rs b/src/common/core/decode_argument.rs
index aae9b1d..8c19d3e 100644
--- a/src/common/core/decode_argument.rs
+++ b/src/common/core/decode_argument.rs
@@ -70,13 +70,17 @@ macro_rules! impl_DecodeArgument_for_integer {
 
         impl<'a> DecodeArgument<'a> for $t {
             fn decode_argument(arg: &'a [u8]) -> Option<Self> {
-                //forbid leading zeroes
+                //forbid leading zeroes (also for negative numbers, including
+                //negative zero) as well as the plus sign accepted by parse()
                 if arg.len() == 0 {
                     return None;
                 }
                 if arg != b"0" && arg[0] == b'0' {
                     return None;
                 }
+                if arg[0] == b'+' || arg.starts_with(b"-0") {
+                    return None;
+                }
 
                 core::str::from_utf8(arg).ok()?.parse().ok()
             }
-- 
2.43.0


From 502c1df1943432a59880a52f359bb50b516eb968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:22 +0000
Subject: [PATCH 03/13] fix: unregister clients when their lifetime is ended by
 core1.client-end

---
 src/server/core/msg.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/server/core/msg.rs b/src/server/core/msg.rs
index 3335763..abbfe21 100644
--- a/src/server/core/msg.rs
+++ b/src/server/core/msg.rs
@@ -115,9 +115,13 @@ impl<A: server::Application, Next: server::core::MessageHandlerExt<A>> server::H
                     return Err(InvalidMessage);
                 }
 
+                //release the registrations of all clients at or below this client ID
+                let d = conn.dispatch();
+                d.application()
+                    .unregister_clients(ClientSelector::AtOrBelow(msg.client_id));
+
                 //tear down all client connections at or below this client ID
                 let owned_client_id = OwnedClientID::from(&msg.client_id);
-                let d = conn.dispatch();
                 d.enqueue_broadcast(Box::new(move |conn| {
                     let selector = ClientSelector::AtOrBelow(owned_client_id.as_ref());
                     if let ConnectionState::Msgio(ref connector) = conn.state() {
-- 
2.43.0


From 445c284aa575b19fca8698f68e55d35e02d9b056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:48 +0000
Subject: [PATCH 04/13] fix: report the exact size hint when iterating over
 message arguments

---
 src/common/core/msg/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/common/core/msg/mod.rs b/src/common/core/msg/mod.rs
index 641fcd7..1d366c4 100644
--- a/src/common/core/msg/mod.rs
+++ b/src/common/core/msg/mod.rs
@@ -346,6 +346,10 @@ impl<'s> Iterator for MessageIterator<'s> {
     fn next(&mut self) -> Option<Self::Item> {
         self.next_or_error().unwrap_or(None)
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        (self.remaining_items, Some(self.remaining_items))
+    }
 }
 
 impl<'s> core::iter::ExactSizeIterator for MessageIterator<'s> {
-- 
2.43.0


From f3431e11d05bd0f865c203f11b6c3391ab5ffb58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:48 +0000
Subject: [PATCH 05/13] fix: do not recurse for each message in the receive
 buffer

---
 src/server/connection.rs | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/server/connection.rs b/src/server/connection.rs
index c7bfbf4..7ed100d 100644
--- a/src/server/connection.rs
+++ b/src/server/connection.rs
@@ -171,10 +171,12 @@ impl<A: server::Application, D: server::Dispatch<A>> Connection<A, D> {
     ///Handle data sent by the client. This interface is called by the Dispatch whenever data has
     ///been read from the client socket associated with this Connection instance.
     pub fn handle_incoming<B: ReceiveBuffer>(&mut self, buf: &mut B) {
-        if !buf.contents().is_empty() {
+        //each message may change the state of this connection, so the state needs to be looked at
+        //again for each one
+        while !buf.contents().is_empty() {
             use server::StdoutConnector;
             use ConnectionState::*;
-            match self.state {
+            let is_incomplete = match self.state {
                 Handshake => self.handle_incoming_msgio::<B>(buf, HandlerObj::<A>::handshake()),
                 Msgio(_) => self.handle_incoming_msgio::<B>(buf, HandlerObj::<A>::message()),
                 Stdin(_) => {
@@ -186,17 +188,28 @@ impl<A: server::Application, D: server::Dispatch<A>> Connection<A, D> {
                     let n = server::Notification::IncomingBytesDiscarded(buf.contents());
                     self.dispatch.application().notify(&n);
                     buf.discard(buf.contents().len());
+                    false
                 }
                 Stdout(ref mut connector) => {
                     connector.receive(buf.contents());
                     buf.discard(buf.contents().len());
+                    false
                 }
-                Teardown => {}
+                Teardown => return,
+            };
+            if is_incomplete {
+                return;
             }
         }
     }
 
-    fn handle_incoming_msgio<B: ReceiveBuffer>(&mut self, buf: &mut B, handler: HandlerObj<A>) {
+    //Handles the first message (or unintelligible input) in the buffer. Returns whether there is no
+    //full message in the buffer yet, i.e. whether we have to wait for the next read.
+    fn handle_incoming_msgio<B: ReceiveBuffer>(
+        &mut self,
+        buf: &mut B,
+        handler: HandlerObj<A>,
+    ) -> bool {
         match msg::Message::parse(buf.contents()) {
             Ok((msg, bytes_parsed)) => {
                 use server::HandlerError::*;
@@ -234,7 +247,7 @@ impl<A: server::Application, D: server::Dispatch<A>> Connection<A, D> {
             }
             Err(e) if e.kind == msg::ParseErrorKind::UnexpectedEOF => {
                 //if we don't have a full message yet, wait until the next read
-                return;
+                return true;
             }
             Err(e) => {
                 match handler {
@@ -261,8 +274,6 @@ impl<A: server::Application, D: server::Dispatch<A>> Connection<A, D> {
                 buf.discard(bytes_to_discard);
             }
         }
-        //handling the previous message (or error) may have changed into a different state, so
-        //tail-call back into handle_incoming() to disambiguate again
-        self.handle_incoming(buf)
+        false
     }
 }
-- 
2.43.0


From 7d1723576159a75acecf08025414bef901c51be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:49 +0000
Subject: [PATCH 06/13] fix: do not reply on connections that have left msgio
 mode

---
 src/server/connection.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/server/connection.rs b/src/server/connection.rs
index 7ed100d..69e9e25 100644
--- a/src/server/connection.rs
+++ b/src/server/connection.rs
@@ -223,6 +223,9 @@ impl<A: server::Application, D: server::Dispatch<A>> Connection<A, D> {
                     (Err(_), HandlerObj::HandshakeHandler(_)) => {
                         self.set_state(ConnectionState::Teardown);
                     }
+                    //the handler may have torn down the connection, in which case there is nobody to reply to
+                    (Err(_), HandlerObj::MessageHandler(_))
+                        if !self.state.can_receive_messages() => {}
                     //error handling according to [vt6/foundation, sect. 3.3.2]
                     (Err(InvalidMessage), HandlerObj::MessageHandler(_)) => {
                         self.enqueue_message(&Nope(msg.parsed_type()));
-- 
2.43.0


From 53da1bc51805f12b5be17ffe51f5a4dfe7338034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:32 +0000
Subject: [PATCH 07/13] fix: tear down the connection instead of panicking when
 a reply is too long

---
 src/server/tokio/dispatch.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/server/tokio/dispatch.rs b/src/server/tokio/dispatch.rs
index 6366e50..41f828d 100644
--- a/src/server/tokio/dispatch.rs
+++ b/src/server/tokio/dispatch.rs
@@ -351,8 +351,15 @@ impl<A: server::Application> server::Dispatch<A> for Dispatch<A> {
                 }
             };
             //if the fill_if_ok() errors out this time, it's because the rendered message is
-            //legimitately too long, so it's a good time to panic
-            send_buffer.fill_if_ok(|buf| msg.encode(buf)).unwrap();
+            //legimitately too long; since we cannot tell the client what we want to tell it (and
+            //the client may have provoked this), give up on this connection
+            if send_buffer.fill_if_ok(|buf| msg.encode(buf)).is_err() {
+                std::mem::drop(tx);
+                let n = server::Notification::ConnectionIOError("outgoing message too long".into());
+                self.0.app.notify(&n);
+                conn.set_state(server::ConnectionState::Teardown);
+                return;
+            }
         }
 
         //wake up the transmitter job if necessary
-- 
2.43.0


From dd06106e0d02fa3c196f54f30000a2d363841df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:10 +0000
Subject: [PATCH 08/13] fix: do not leave broadcasts in the queue when the
 connection pool is released

---
 src/server/tokio/dispatch.rs | 43 +++++++++++++++++++++++-------------
 1 file changed, 28 insertions(+), 15 deletions(-)

diff --git a/src/server/tokio/dispatch.rs b/src/server/tokio/dispatch.rs
index 41f828d..e19d880 100644
--- a/src/server/tokio/dispatch.rs
+++ b/src/server/tokio/dispatch.rs
@@ -92,6 +92,7 @@ impl<A: server::Application> InnerDispatch<A> {
             bufs: Vec::new(),
         };
         self.tx.write().unwrap().insert(conn_id, tx_connector);
+        self.run_pending_broadcasts();
 
         (conn_id, rx_ar, tx_ar, tx_notify)
     }
@@ -102,7 +103,7 @@ impl<A: server::Application> InnerDispatch<A> {
     pub(crate) fn connection_mut<'a>(self: &'a Arc<Self>, conn_id: u64) -> ConnectionRefMut<'a, A> {
         ConnectionRefMut {
             inner: self,
-            guard: self.pool.write().unwrap(),
+            guard: Some(self.pool.write().unwrap()),
             conn_id,
         }
     }
@@ -163,25 +164,22 @@ impl<A: server::Application> InnerDispatch<A> {
         //This function is called whenever we are about to drop a `self.pool.write()` lock. We use
         //this opportunity to execute broadcasts that we could not execute until now because we had
         //given mutable references to someone else.
-        let mut there_were_broadcasts = false;
         loop {
             use std::ops::DerefMut;
             let broadcasts = std::mem::replace(self.bc_queue.lock().unwrap().deref_mut(), vec![]);
             if broadcasts.is_empty() {
                 break;
             }
-            there_were_broadcasts = true;
             for broadcast in broadcasts {
                 for ref mut conn_entry in pool.conns.values_mut() {
                     broadcast(&mut conn_entry.conn);
                 }
             }
-        }
 
-        //run do_maintenance_on_conn() for all connections to detect state changes (we could not do
-        //this in the previous loop because we cannot pass `pool` to do_maintenance_on_conn() while
-        //iterating over `&mut pool.conns`
-        if there_were_broadcasts {
+            //run do_maintenance_on_conn() for all connections to detect state changes (we could not
+            //do this in the previous loop because we cannot pass `pool` to do_maintenance_on_conn()
+            //while iterating over `&mut pool.conns`); this may cause further broadcasts, so it needs
+            //to be done before looking at the queue again
             let all_conn_ids: Vec<_> = pool
                 .conns
                 .iter_mut()
@@ -192,6 +190,19 @@ impl<A: server::Application> InnerDispatch<A> {
             }
         }
     }
+
+    fn run_pending_broadcasts(self: &Arc<Self>) {
+        //This function is called after a broadcast was enqueued, and after dropping a
+        //`self.pool.write()` lock (since broadcasts may have been enqueued after
+        //`do_maintenance()` was done, but before the lock was dropped). If the lock cannot be
+        //obtained right now, whoever is holding it will call this function after dropping it.
+        while !self.bc_queue.lock().unwrap().is_empty() {
+            match self.pool.try_write() {
+                Ok(mut pool_lock) => self.do_maintenance(&mut pool_lock),
+                Err(_) => return,
+            }
+        }
+    }
 }
 
 ////////////////////////////////////////////////////////////////////////////////
@@ -204,13 +215,14 @@ impl<A: server::Application> InnerDispatch<A> {
 
 pub(crate) struct ConnectionRefMut<'a, A: server::Application> {
     inner: &'a Arc<InnerDispatch<A>>,
-    guard: RwLockWriteGuard<'a, ConnectionPool<A>>,
+    guard: Option<RwLockWriteGuard<'a, ConnectionPool<A>>>, //only None during drop()
     conn_id: u64,
 }
 
 impl<'a, A: server::Application> ConnectionRefMut<'a, A> {
     pub(crate) fn alive(&mut self) -> Option<&mut server::Connection<A, Dispatch<A>>> {
         self.guard
+            .as_mut()?
             .conns
             .get_mut(&self.conn_id)
             .map(|conn_ref| &mut conn_ref.conn)
@@ -219,9 +231,12 @@ impl<'a, A: server::Application> ConnectionRefMut<'a, A> {
 
 impl<'a, A: server::Application> Drop for ConnectionRefMut<'a, A> {
     fn drop(&mut self) {
-        self.inner
-            .do_maintenance_on_conn(&mut self.guard, self.conn_id);
-        self.inner.do_maintenance(&mut self.guard);
+        if let Some(mut guard) = self.guard.take() {
+            self.inner.do_maintenance_on_conn(&mut guard, self.conn_id);
+            self.inner.do_maintenance(&mut guard);
+        }
+        //at this point, the write lock has been released
+        self.inner.run_pending_broadcasts();
     }
 }
 
@@ -305,9 +320,7 @@ impl<A: server::Application> server::Dispatch<A> for Dispatch<A> {
         //This part is important because, if we didn't have it, and there is nothing currently
         //being received or transmitted, the broadcast would just needlessly sit in the queue until
         //the next time a client sends data to us.
-        if let Ok(mut pool_lock) = self.0.pool.try_write() {
-            self.0.do_maintenance(&mut pool_lock);
-        }
+        self.0.run_pending_broadcasts();
     }
 
     fn enqueue_message<M: msg::EncodeMessage>(
-- 
2.43.0


From e25b3e73b32c7b2cdcab198aaa35fa6cf8e320d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:13 +0000
Subject: [PATCH 09/13] fix: report NoVT6Terminal instead of aborting when FD
 60 does not exist

---
 src/client/env.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/client/env.rs b/src/client/env.rs
index 663cd8d..750fdee 100644
--- a/src/client/env.rs
+++ b/src/client/env.rs
@@ -56,6 +56,14 @@ impl Environment {
             has_vt6_terminal: true,
         };
 
+        //if FD 60 does not exist, we must not construct a File for it (dropping a File whose FD is not
+        //open aborts the process when debug assertions are enabled)
+        //SAFETY: fcntl(F_GETFD) can be called on any integer and does not have side effects
+        if unsafe { libc::fcntl(60, libc::F_GETFD) } == -1 {
+            env.has_vt6_terminal = false;
+            return Ok(env);
+        }
+
         //SAFETY: we need to call this unsafe trait method to obtain a File handle
         let mut f = unsafe { File::from_raw_fd(60) };
         //NOTE: `impl Drop for File` will close FD 60 when this method returns.
-- 
2.43.0


From b151a5e6bac56ca476e92c95036ccf5b3f51afc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:26 +0000
Subject: [PATCH 10/13] fix: do not apply format options to each byte of a
 rendered message

Display for Message formatted every character of the arguments with the
caller's formatter, so that format!("{:3}", msg) padded each single byte
instead of rendering the message.
---
 src/common/core/msg/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/common/core/msg/mod.rs b/src/common/core/msg/mod.rs
index 1d366c4..97509cb 100644
--- a/src/common/core/msg/mod.rs
+++ b/src/common/core/msg/mod.rs
@@ -4,6 +4,8 @@
 * Refer to the file "LICENSE" for details.
 *******************************************************************************/
 
+use core::fmt::Write;
+
 use crate::common::core::{DecodeArgument, MessageType};
 
 mod format;
@@ -466,7 +468,7 @@ impl<'s> core::fmt::Display for Message<'s> {
             let escaped = arg.is_empty() || arg.iter().any(|&x| char_needs_escaping(x));
             f.write_str(if escaped { " \"" } else { " " })?;
             for byte in arg.iter().flat_map(|&b| core::ascii::escape_default(b)) {
-                (byte as char).fmt(f)?;
+                f.write_char(byte as char)?;
             }
             if escaped {
                 f.write_str("\"")?;
-- 
2.43.0


From 163249bbed5dfcc0cd520adb58b3b836ed871653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:09 +0000
Subject: [PATCH 11/13] fix: do not lose what other threads enqueue for a
 connection that is just being set up

---
 src/server/tokio/dispatch.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/server/tokio/dispatch.rs b/src/server/tokio/dispatch.rs
index e19d880..d0f8701 100644
--- a/src/server/tokio/dispatch.rs
+++ b/src/server/tokio/dispatch.rs
@@ -84,14 +84,17 @@ impl<A: server::Application> InnerDispatch<A> {
                 tx_abort: tx_ah,
             },
         );
-        std::mem::drop(pool); //release the write lock
 
         let tx_notify = Arc::new(Notify::new());
         let tx_connector = TxConnector {
             notify: tx_notify.clone(),
             bufs: Vec::new(),
         };
+        //this needs to happen before releasing the write lock: as soon as other threads can see the
+        //connection, they can enqueue data for it or tear it down
         self.tx.write().unwrap().insert(conn_id, tx_connector);
+
+        std::mem::drop(pool); //release the write lock
         self.run_pending_broadcasts();
 
         (conn_id, rx_ar, tx_ar, tx_notify)
-- 
2.43.0


From 7aa34307714424f9acdbbd222a026065b766192f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:51 +0000
Subject: [PATCH 12/13] fix: notify ConnectionOpened before anything else can
 happen to the connection

---
 src/server/tokio/dispatch.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/server/tokio/dispatch.rs b/src/server/tokio/dispatch.rs
index d0f8701..0a25e51 100644
--- a/src/server/tokio/dispatch.rs
+++ b/src/server/tokio/dispatch.rs
@@ -94,6 +94,9 @@ impl<A: server::Application> InnerDispatch<A> {
         //connection, they can enqueue data for it or tear it down
         self.tx.write().unwrap().insert(conn_id, tx_connector);
 
+        //likewise, otherwise ConnectionClosed could be notified before ConnectionOpened
+        self.app.notify(&server::Notification::ConnectionOpened);
+
         std::mem::drop(pool); //release the write lock
         self.run_pending_broadcasts();
 
@@ -274,7 +277,6 @@ impl<A: server::Application> Dispatch<A> {
                 let (conn_id, rx_abort, tx_abort, tx_notify) = self.0.create_connection_object();
                 my::spawn_receiver(self.0.clone(), rx_abort, conn_id, stream_reader);
                 my::spawn_transmitter(self.0.clone(), tx_abort, conn_id, stream_writer, tx_notify);
-                self.0.app.notify(&server::Notification::ConnectionOpened);
             }
         };
         match Abortable::new(accept_future, ar).await {
-- 
2.43.0


From 77b781cb3599c85a04d74da91def566b948091df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:57 +0000
Subject: [PATCH 13/13] fix: release all connections on shutdown instead of
 leaving them to later broadcasts

---
 src/server/tokio/dispatch.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/server/tokio/dispatch.rs b/src/server/tokio/dispatch.rs
index 0a25e51..899cdf9 100644
--- a/src/server/tokio/dispatch.rs
+++ b/src/server/tokio/dispatch.rs
@@ -285,11 +285,17 @@ impl<A: server::Application> Dispatch<A> {
             Err(Aborted) => {}
         };
 
-        //tell all receiver/transmitter jobs to quit it
-        for conn in self.0.pool.write().unwrap().conns.values() {
-            conn.rx_abort.abort();
-            conn.tx_abort.abort();
+        //tell all receiver/transmitter jobs to quit it, and release the connections
+        let mut pool = self.0.pool.write().unwrap();
+        for conn in pool.conns.values_mut() {
+            conn.conn.set_state(server::ConnectionState::Teardown);
         }
+        let all_conn_ids: Vec<_> = pool.conns.keys().copied().collect();
+        for conn_id in all_conn_ids {
+            self.0.do_maintenance_on_conn(&mut pool, conn_id);
+        }
+        std::mem::drop(pool);
+        self.0.run_pending_broadcasts();
 
         //clean up the server socket
         std::mem::drop(listener);
-- 
2.43.0

