From d4271d551fa767b3431e099e31a5998bbbed0e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:10 +0000
Subject: [PATCH 01/17] fix: send queued responses after an internally created
 one without waiting for input

After an internally created response (e.g. the answer to a literal) was sent
Server::next continued with receiving and asked for more input even though
further responses were queued.
---
 src/server.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index 1150ae9..1acf453 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -193,8 +193,9 @@ impl Server {
                 Ok(Some(Event::ResponseSent { handle, response }))
             }
             Ok(Some(ServerSendEvent::Response { handle: None, .. })) => {
-                // An internally created response was sent, don't inform the caller
-                Ok(None)
+                // An internally created response was sent, don't inform the caller but continue
+                // with the next queued message (if any)
+                self.progress_send()
             }
             Ok(_) => {
                 // No progress yet
-- 
2.43.0


From 3e622176f59d878cd77b58913cf3094812485e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:41 +0000
Subject: [PATCH 02/17] fix: deliver TLS data that arrived together with the
 end of the handshake

---
 src/stream.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/stream.rs b/src/stream.rs
index a5c4316..1399fb8 100644
--- a/src/stream.rs
+++ b/src/stream.rs
@@ -269,11 +269,9 @@ fn decrypt(
 ) -> Result<Vec<u8>, DecryptEncryptError> {
     let mut plain_bytes = Vec::new();
 
-    while tls.wants_read() && !read_buffer.is_empty() {
-        let mut encrypted_bytes = read_buffer.reader();
-        tls.read_tls(&mut encrypted_bytes)?;
-        tls.process_new_packets()?;
-
+    loop {
+        // Note that there might be decrypted bytes before anything was read from the stream: They
+        // were received together with the end of the handshake.
         loop {
             let mut plain_bytes_chunk = [0; 128];
             match tls.reader().read(&mut plain_bytes_chunk) {
@@ -288,6 +286,14 @@ fn decrypt(
                 Ok(n) => plain_bytes.extend(&plain_bytes_chunk[0..n]),
             };
         }
+
+        if !tls.wants_read() || read_buffer.is_empty() {
+            break;
+        }
+
+        let mut encrypted_bytes = read_buffer.reader();
+        tls.read_tls(&mut encrypted_bytes)?;
+        tls.process_new_packets()?;
     }
 
     Ok(plain_bytes)
-- 
2.43.0


From e363ade2a956463412120e7d4a7d7fb8e7a970a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:41 +0000
Subject: [PATCH 03/17] fix: encrypt output that is larger than the buffer of
 the TLS library

---
 src/stream.rs | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/stream.rs b/src/stream.rs
index 1399fb8..3c70b67 100644
--- a/src/stream.rs
+++ b/src/stream.rs
@@ -304,13 +304,26 @@ fn encrypt(
     write_buffer: &mut BytesMut,
     plain_bytes: Vec<u8>,
 ) -> Result<(), DecryptEncryptError> {
-    if !plain_bytes.is_empty() {
-        tls.writer().write_all(&plain_bytes)?;
-    }
+    let mut plain_bytes = plain_bytes.as_slice();
+
+    loop {
+        // `rustls` accepts only a limited number of bytes until the encrypted bytes are taken.
+        if !plain_bytes.is_empty() {
+            let byte_count = tls.writer().write(plain_bytes)?;
+            if byte_count == 0 {
+                return Err(DecryptEncryptError::Io(ErrorKind::WriteZero.into()));
+            }
+            plain_bytes.advance(byte_count);
+        }
 
-    while tls.wants_write() {
-        let mut encrypted_bytes = write_buffer.writer();
-        tls.write_tls(&mut encrypted_bytes)?;
+        while tls.wants_write() {
+            let mut encrypted_bytes = write_buffer.writer();
+            tls.write_tls(&mut encrypted_bytes)?;
+        }
+
+        if plain_bytes.is_empty() {
+            break;
+        }
     }
 
     Ok(())
-- 
2.43.0


From 584ce14167b5c3f66dccc0aed2f26de93b60a7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:37 +0000
Subject: [PATCH 04/17] fix: report a closed TLS connection instead of looping
 forever

---
 src/stream.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/stream.rs b/src/stream.rs
index 3c70b67..acc3f97 100644
--- a/src/stream.rs
+++ b/src/stream.rs
@@ -138,6 +138,11 @@ impl Stream {
 
                     // Encrypt output bytes
                     encrypt(tls, &mut self.write_buffer, plain_bytes)?;
+
+                    // The peer won't send more bytes, even if the underlying stream is still open
+                    if tls.process_new_packets()?.peer_has_closed() {
+                        return Err(Error::Closed);
+                    }
                 }
             }
 
@@ -283,6 +288,9 @@ fn decrypt(
                     break;
                 }
                 Err(err) => return Err(DecryptEncryptError::Io(err)),
+                // The peer closed the TLS connection. This is reported once the client/server
+                // doesn't make progress without more input.
+                Ok(0) => break,
                 Ok(n) => plain_bytes.extend(&plain_bytes_chunk[0..n]),
             };
         }
-- 
2.43.0


From 3738a527a628f61a8aa7c7a374709995d63a350b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:46 +0000
Subject: [PATCH 05/17] fix: filter capabilities in all responses of the server

The responses that belong to an AUTHENTICATE or IDLE command reached the
client with the server's capabilities.
---
 proxy/src/proxy.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/proxy/src/proxy.rs b/proxy/src/proxy.rs
index 105d023..3e18dfa 100644
--- a/proxy/src/proxy.rs
+++ b/proxy/src/proxy.rs
@@ -396,19 +396,23 @@ fn handle_server_event(
             trace!(role = "p2s", ?handle, "--->");
         }
         client::Event::AuthenticateContinuationRequestReceived {
-            continuation_request,
+            mut continuation_request,
             ..
         } => {
             trace!(role = "s2p", authenticate_continuation_request=%format!("{:?}", continuation_request).blue(), "<--|");
 
+            util::filter_capabilities_in_continuation(&mut continuation_request);
+
             let handle = client_to_proxy
                 .authenticate_continue(continuation_request)
                 .unwrap();
             trace!(role = "p2c", ?handle, "authenticate_continue");
         }
-        client::Event::AuthenticateStatusReceived { status, .. } => {
+        client::Event::AuthenticateStatusReceived { mut status, .. } => {
             trace!(role = "s2p", authenticate_status=%format!("{:?}", status).blue(), "<--|");
 
+            util::filter_capabilities_in_status(&mut status);
+
             // TODO(#145): Fix unwrap
             let handle = client_to_proxy.authenticate_finish(status).unwrap();
             trace!(role = "p2c", ?handle, "authenticate_finish");
@@ -444,7 +448,7 @@ fn handle_server_event(
         }
         client::Event::IdleAccepted {
             handle,
-            continuation_request,
+            mut continuation_request,
         } => {
             trace!(
                 role = "s2p",
@@ -453,13 +457,17 @@ fn handle_server_event(
                 "<--|"
             );
 
+            util::filter_capabilities_in_continuation(&mut continuation_request);
+
             // TODO(#145): Fix unwrap
             let handle = client_to_proxy.idle_accept(continuation_request).unwrap();
             trace!(role = "p2c", ?handle, "idle_accept");
         }
-        client::Event::IdleRejected { handle, status } => {
+        client::Event::IdleRejected { handle, mut status } => {
             trace!(role = "s2p", ?handle, idle_rejected_status=%format!("{:?}", status).blue(), "<--|");
 
+            util::filter_capabilities_in_status(&mut status);
+
             // TODO(#145): Fix unwrap
             let handle = client_to_proxy.idle_reject(status).unwrap();
             trace!(role = "p2c", ?handle, "idle_reject");
-- 
2.43.0


From 1b040a2781199bc28f111c85ff1298f2311082e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:05 +0000
Subject: [PATCH 06/17] fix: end the connection instead of panicking on
 unexpected messages

For example, a server that completes an accepted IDLE command without
waiting for DONE, or a client that sends authenticate data without being
asked, made the task of the connection panic.
---
 proxy/src/proxy.rs | 48 +++++++++++++++++++++++++++++++++-------------
 1 file changed, 35 insertions(+), 13 deletions(-)

diff --git a/proxy/src/proxy.rs b/proxy/src/proxy.rs
index 3e18dfa..4bfc6a1 100644
--- a/proxy/src/proxy.rs
+++ b/proxy/src/proxy.rs
@@ -299,10 +299,13 @@ fn handle_client_event(
         server::Event::AuthenticateDataReceived { authenticate_data } => {
             trace!(role = "c2p", authenticate_data=%format!("{:?}", authenticate_data).red(), "|-->");
 
-            // TODO(#145): Fix unwrap
-            let handle = proxy_to_server
-                .set_authenticate_data(authenticate_data)
-                .unwrap();
+            let handle = match proxy_to_server.set_authenticate_data(authenticate_data) {
+                Ok(handle) => handle,
+                Err(authenticate_data) => {
+                    error!(role = "c2p", ?authenticate_data, "Unexpected authenticate data");
+                    return ControlFlow::Abort;
+                }
+            };
             trace!(role = "p2s", ?handle, "set_authenticate_data");
         }
         server::Event::IdleCommandReceived { tag } => {
@@ -403,9 +406,13 @@ fn handle_server_event(
 
             util::filter_capabilities_in_continuation(&mut continuation_request);
 
-            let handle = client_to_proxy
-                .authenticate_continue(continuation_request)
-                .unwrap();
+            let handle = match client_to_proxy.authenticate_continue(continuation_request) {
+                Ok(handle) => handle,
+                Err(continuation_request) => {
+                    error!(role = "s2p", ?continuation_request, "Unexpected authenticate continuation request");
+                    return ControlFlow::Abort;
+                }
+            };
             trace!(role = "p2c", ?handle, "authenticate_continue");
         }
         client::Event::AuthenticateStatusReceived { mut status, .. } => {
@@ -413,8 +420,13 @@ fn handle_server_event(
 
             util::filter_capabilities_in_status(&mut status);
 
-            // TODO(#145): Fix unwrap
-            let handle = client_to_proxy.authenticate_finish(status).unwrap();
+            let handle = match client_to_proxy.authenticate_finish(status) {
+                Ok(handle) => handle,
+                Err(status) => {
+                    error!(role = "s2p", ?status, "Unexpected authenticate status");
+                    return ControlFlow::Abort;
+                }
+            };
             trace!(role = "p2c", ?handle, "authenticate_finish");
         }
         client::Event::DataReceived { mut data } => {
@@ -459,8 +471,13 @@ fn handle_server_event(
 
             util::filter_capabilities_in_continuation(&mut continuation_request);
 
-            // TODO(#145): Fix unwrap
-            let handle = client_to_proxy.idle_accept(continuation_request).unwrap();
+            let handle = match client_to_proxy.idle_accept(continuation_request) {
+                Ok(handle) => handle,
+                Err(continuation_request) => {
+                    error!(role = "s2p", ?continuation_request, "Unexpected idle accept");
+                    return ControlFlow::Abort;
+                }
+            };
             trace!(role = "p2c", ?handle, "idle_accept");
         }
         client::Event::IdleRejected { handle, mut status } => {
@@ -468,8 +485,13 @@ fn handle_server_event(
 
             util::filter_capabilities_in_status(&mut status);
 
-            // TODO(#145): Fix unwrap
-            let handle = client_to_proxy.idle_reject(status).unwrap();
+            let handle = match client_to_proxy.idle_reject(status) {
+                Ok(handle) => handle,
+                Err(status) => {
+                    error!(role = "s2p", ?status, "Unexpected idle reject");
+                    return ControlFlow::Abort;
+                }
+            };
             trace!(role = "p2c", ?handle, "idle_reject");
         }
         client::Event::IdleDoneSent { handle } => {
-- 
2.43.0


From f6be9e7469ee5a1bd8d7fee30271db76a298e729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:36 +0000
Subject: [PATCH 07/17] fix: accept other clients during a TLS handshake

A client that connected without performing the TLS handshake kept the
service from accepting any other client.
---
 proxy/src/main.rs  |  1 +
 proxy/src/proxy.rs | 48 +++++++++++++++++++++++++++++++---------------
 2 files changed, 34 insertions(+), 15 deletions(-)

diff --git a/proxy/src/main.rs b/proxy/src/main.rs
index 24624b4..9976ca1 100644
--- a/proxy/src/main.rs
+++ b/proxy/src/main.rs
@@ -89,6 +89,7 @@ async fn handle_service(service: Service) {
 
 #[instrument(name = "client", skip_all, fields(addr = %proxy.client_addr()))]
 async fn handle_client(proxy: Proxy<ClientAcceptedState>) -> Result<()> {
+    let proxy = proxy.secure_client().await?;
     let proxy = proxy.connect_to_server().await?;
     proxy.start_conversation().await;
     Ok(())
diff --git a/proxy/src/proxy.rs b/proxy/src/proxy.rs
index 4bfc6a1..2fc7777 100644
--- a/proxy/src/proxy.rs
+++ b/proxy/src/proxy.rs
@@ -80,6 +80,32 @@ impl Proxy<BoundState> {
         let (client_to_proxy, client_addr) = self.state.listener.accept().await?;
         info!(?client_addr, "Accepted client");
 
+        Ok(Proxy {
+            service: self.service.clone(),
+            state: ClientAcceptedState {
+                client_addr,
+                client_to_proxy,
+            },
+        })
+    }
+}
+
+pub struct ClientAcceptedState {
+    client_addr: SocketAddr,
+    client_to_proxy: TcpStream,
+}
+
+impl State for ClientAcceptedState {}
+
+impl Proxy<ClientAcceptedState> {
+    pub fn client_addr(&self) -> SocketAddr {
+        self.state.client_addr
+    }
+
+    /// Performs the TLS handshake with the client (if configured).
+    ///
+    /// This depends on the client and must not delay accepting other clients.
+    pub async fn secure_client(self) -> Result<Proxy<ClientSecuredState>, ProxyError> {
         let client_to_proxy = match &self.service.bind {
             Bind::Tls { identity, .. } => {
                 let config = {
@@ -110,33 +136,25 @@ impl Proxy<BoundState> {
                 //             However, for testing purposes, it's nice to create it on-the-fly.
                 let acceptor = TlsAcceptor::from(Arc::new(config));
 
-                Stream::tls(acceptor.accept(client_to_proxy).await?.into())
+                Stream::tls(acceptor.accept(self.state.client_to_proxy).await?.into())
             }
-            Bind::Insecure { .. } => Stream::insecure(client_to_proxy),
+            Bind::Insecure { .. } => Stream::insecure(self.state.client_to_proxy),
         };
 
         Ok(Proxy {
-            service: self.service.clone(),
-            state: ClientAcceptedState {
-                client_addr,
-                client_to_proxy,
-            },
+            service: self.service,
+            state: ClientSecuredState { client_to_proxy },
         })
     }
 }
 
-pub struct ClientAcceptedState {
-    client_addr: SocketAddr,
+pub struct ClientSecuredState {
     client_to_proxy: Stream,
 }
 
-impl State for ClientAcceptedState {}
-
-impl Proxy<ClientAcceptedState> {
-    pub fn client_addr(&self) -> SocketAddr {
-        self.state.client_addr
-    }
+impl State for ClientSecuredState {}
 
+impl Proxy<ClientSecuredState> {
     pub async fn connect_to_server(self) -> Result<Proxy<ConnectedState>, ProxyError> {
         let server_addr_port = self.service.connect.addr_port();
         info!(%server_addr_port, "Connecting to server");
-- 
2.43.0


From 9329a5d4b9d369918fb84ba4e3d408864f55efb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:54 +0000
Subject: [PATCH 08/17] fix: report a closed stream only after everything
 received was handled

---
 src/stream.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/stream.rs b/src/stream.rs
index acc3f97..1fd571e 100644
--- a/src/stream.rs
+++ b/src/stream.rs
@@ -121,6 +121,10 @@ impl Stream {
                 Interrupt::Error(err) => return Err(Error::State(err)),
             };
 
+            // If the client/server doesn't need more input, it might not have handled everything
+            // that was received. We must not report a closed stream before that.
+            let need_more_input = matches!(io, Io::NeedMoreInput);
+
             match &mut self.tls {
                 None => {
                     // Handle the output bytes from the client/server
@@ -140,15 +144,15 @@ impl Stream {
                     encrypt(tls, &mut self.write_buffer, plain_bytes)?;
 
                     // The peer won't send more bytes, even if the underlying stream is still open
-                    if tls.process_new_packets()?.peer_has_closed() {
+                    if need_more_input && tls.process_new_packets()?.peer_has_closed() {
                         return Err(Error::Closed);
                     }
                 }
             }
 
             // Progress the stream
-            if self.write_buffer.is_empty() {
-                read(&mut self.stream, &mut self.read_buffer).await?;
+            let result = if self.write_buffer.is_empty() {
+                read(&mut self.stream, &mut self.read_buffer).await
             } else {
                 // We read and write the stream simultaneously because otherwise
                 // a deadlock between client and server might occur if both sides
@@ -157,8 +161,13 @@ impl Stream {
                 select! {
                     result = read(read_stream, &mut self.read_buffer) => result,
                     result = write(write_stream, &mut self.write_buffer) => result,
-                }?;
+                }
             };
+
+            match result {
+                Err(ReadWriteError::Closed) if !need_more_input => {}
+                result => result?,
+            }
         };
 
         Ok(event)
-- 
2.43.0


From a9a13612ed3dc0876d3a8e389b47b2ed116a13fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:01 +0000
Subject: [PATCH 09/17] fix: forward the remaining messages of a closed
 connection

---
 proxy/src/proxy.rs | 117 ++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 110 insertions(+), 7 deletions(-)

diff --git a/proxy/src/proxy.rs b/proxy/src/proxy.rs
index 2fc7777..8e55bab 100644
--- a/proxy/src/proxy.rs
+++ b/proxy/src/proxy.rs
@@ -1,10 +1,11 @@
-use std::{net::SocketAddr, sync::Arc};
+use std::{net::SocketAddr, sync::Arc, time::Duration};
 
 use colored::Colorize;
 use imap_next::{
     client::{self, Client},
     server::{self, Server},
     stream::{self, Stream},
+    Interrupt, Io,
 };
 use imap_types::{
     bounded_static::ToBoundedStatic,
@@ -14,7 +15,10 @@ use imap_types::{
 };
 use once_cell::sync::Lazy;
 use thiserror::Error;
-use tokio::net::{TcpListener, TcpStream};
+use tokio::{
+    net::{TcpListener, TcpStream},
+    time::timeout,
+};
 use tokio_rustls::{
     rustls::{pki_types::ServerName, ClientConfig, RootCertStore, ServerConfig},
     TlsAcceptor, TlsConnector,
@@ -40,6 +44,9 @@ const LITERAL_ACCEPT_TEXT: &str = "proxy: Literal accepted by proxy";
 const LITERAL_REJECT_TEXT: &str = "proxy: Literal rejected by proxy";
 const COMMAND_REJECTED_TEXT: &str = "proxy: Command rejected by server";
 
+/// How long we wait for progress when forwarding the remaining messages of a closed connection.
+const FORWARD_REMAINING_TIMEOUT: Duration = Duration::from_secs(30);
+
 #[derive(Debug, Error)]
 pub enum ProxyError {
     #[error(transparent)]
@@ -237,19 +244,115 @@ impl Proxy<ConnectedState> {
         };
         let mut client_to_proxy_stream = self.state.client_to_proxy;
 
+        // Commands that are not completely sent to the server yet
+        let mut pending_commands: usize = 0;
+
+        // Messages that were received before a connection was closed must still be forwarded.
         loop {
-            let control_flow = tokio::select! {
+            tokio::select! {
                 event = client_to_proxy_stream.next(&mut client_to_proxy) => {
-                    handle_client_event(event, &mut proxy_to_server)
+                    if let Ok(
+                        server::Event::CommandReceived { .. }
+                        | server::Event::CommandAuthenticateReceived { .. }
+                        | server::Event::IdleCommandReceived { .. },
+                    ) = &event
+                    {
+                        pending_commands += 1;
+                    }
+
+                    if let ControlFlow::Abort = handle_client_event(event, &mut proxy_to_server) {
+                        forward_remaining(
+                            &mut proxy_to_server_stream,
+                            &mut proxy_to_server,
+                            pending_commands,
+                            is_command_sent,
+                        )
+                        .await;
+                        break;
+                    }
                 }
                 event = proxy_to_server_stream.next(&mut proxy_to_server) => {
-                    handle_server_event(event, &mut client_to_proxy)
+                    if event.as_ref().is_ok_and(is_command_sent) {
+                        pending_commands -= 1;
+                    }
+
+                    if let ControlFlow::Abort = handle_server_event(event, &mut client_to_proxy) {
+                        forward_remaining(
+                            &mut client_to_proxy_stream,
+                            &mut client_to_proxy,
+                            0,
+                            |_| false,
+                        )
+                        .await;
+                        break;
+                    }
                 }
             };
+        }
+    }
+}
 
-            if let ControlFlow::Abort = control_flow {
-                break;
+/// Returns `true` if the client has finished sending a command (or gave up on it).
+fn is_command_sent(event: &client::Event) -> bool {
+    matches!(
+        event,
+        client::Event::CommandSent { .. }
+            | client::Event::CommandRejected { .. }
+            | client::Event::AuthenticateStarted { .. }
+            | client::Event::IdleCommandSent { .. }
+    )
+}
+
+/// Sends everything that is already enqueued. Received messages are ignored.
+///
+/// Commands might depend on input of the server (e.g. because of literals). For this reason, their
+/// number must be given, and how to recognize that one of them was sent.
+async fn forward_remaining<S: imap_next::State>(
+    stream: &mut Stream,
+    state: &mut S,
+    pending_commands: usize,
+    is_command_sent: fn(&S::Event) -> bool,
+) {
+    let mut state = Remaining {
+        state,
+        pending_commands,
+    };
+
+    loop {
+        match timeout(FORWARD_REMAINING_TIMEOUT, stream.next(&mut state)).await {
+            Ok(Ok(Some(event))) => {
+                if is_command_sent(&event) {
+                    state.pending_commands -= 1;
+                }
             }
+            Ok(Ok(None)) => break,
+            Ok(Err(stream::Error::State(_))) => {}
+            Ok(Err(_)) | Err(_) => return,
+        }
+    }
+
+    let _ = timeout(FORWARD_REMAINING_TIMEOUT, stream.flush()).await;
+}
+
+/// Emits `None` as soon as there is nothing left to send.
+struct Remaining<'a, S> {
+    state: &'a mut S,
+    pending_commands: usize,
+}
+
+impl<S: imap_next::State> imap_next::State for Remaining<'_, S> {
+    type Event = Option<S::Event>;
+    type Error = S::Error;
+
+    fn enqueue_input(&mut self, bytes: &[u8]) {
+        self.state.enqueue_input(bytes);
+    }
+
+    fn next(&mut self) -> Result<Self::Event, Interrupt<Self::Error>> {
+        match self.state.next() {
+            Ok(event) => Ok(Some(event)),
+            Err(Interrupt::Io(Io::NeedMoreInput)) if self.pending_commands == 0 => Ok(None),
+            Err(interrupt) => Err(interrupt),
         }
     }
 }
-- 
2.43.0


From 68dc7fe8a91884f1d2becd41018cddc79ae5db1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:31 +0000
Subject: [PATCH 10/17] fix: end the connection instead of panicking on an
 invalid server name

---
 proxy/src/proxy.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/proxy/src/proxy.rs b/proxy/src/proxy.rs
index 8e55bab..439909c 100644
--- a/proxy/src/proxy.rs
+++ b/proxy/src/proxy.rs
@@ -20,7 +20,10 @@ use tokio::{
     time::timeout,
 };
 use tokio_rustls::{
-    rustls::{pki_types::ServerName, ClientConfig, RootCertStore, ServerConfig},
+    rustls::{
+        pki_types::{InvalidDnsNameError, ServerName},
+        ClientConfig, RootCertStore, ServerConfig,
+    },
     TlsAcceptor, TlsConnector,
 };
 use tracing::{error, info, trace};
@@ -55,6 +58,8 @@ pub enum ProxyError {
     Identity(#[from] IdentityError),
     #[error(transparent)]
     Tls(#[from] tokio_rustls::rustls::Error),
+    #[error(transparent)]
+    ServerName(#[from] InvalidDnsNameError),
 }
 
 pub trait State: Send + 'static {}
@@ -181,7 +186,7 @@ impl Proxy<ClientSecuredState> {
                 };
 
                 let connector = TlsConnector::from(Arc::new(config));
-                let dnsname = ServerName::try_from(host.clone()).unwrap();
+                let dnsname = ServerName::try_from(host.clone())?;
 
                 info!(?server_addr_port, "Starting TLS with server");
                 Stream::tls(connector.connect(dnsname, stream_to_server).await?.into())
-- 
2.43.0


From e61541b39d6c8a59f93725c296d034c180f7367f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:52 +0000
Subject: [PATCH 11/17] fix: deliver TLS data that was received before invalid
 data

---
 src/stream.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/stream.rs b/src/stream.rs
index 1fd571e..d4c1dd7 100644
--- a/src/stream.rs
+++ b/src/stream.rs
@@ -282,6 +282,7 @@ fn decrypt(
     read_buffer: &mut BytesMut,
 ) -> Result<Vec<u8>, DecryptEncryptError> {
     let mut plain_bytes = Vec::new();
+    let mut tls_error = None;
 
     loop {
         // Note that there might be decrypted bytes before anything was read from the stream: They
@@ -304,13 +305,23 @@ fn decrypt(
             };
         }
 
+        if let Some(err) = tls_error {
+            if plain_bytes.is_empty() {
+                return Err(DecryptEncryptError::Tls(err));
+            }
+
+            // The plain bytes that were received before the error must not get lost. The error is
+            // reported later because `rustls` returns it again.
+            break;
+        }
+
         if !tls.wants_read() || read_buffer.is_empty() {
             break;
         }
 
         let mut encrypted_bytes = read_buffer.reader();
         tls.read_tls(&mut encrypted_bytes)?;
-        tls.process_new_packets()?;
+        tls_error = tls.process_new_packets().err();
     }
 
     Ok(plain_bytes)
-- 
2.43.0


From d48e9a81d1c9a89b4443e113ba370157c28c9f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:24 +0000
Subject: [PATCH 12/17] fix: reserve no memory for literals that were only
 announced

---
 src/receive.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/receive.rs b/src/receive.rs
index 5a3ad70..2550e6c 100644
--- a/src/receive.rs
+++ b/src/receive.rs
@@ -4,6 +4,9 @@ use imap_codec::decode::Decoder;
 
 use crate::{Interrupt, Io};
 
+/// How many bytes of a literal can be reserved before they are received?
+const MAX_RESERVED_LITERAL_BYTES: usize = 64 * 1024;
+
 pub struct ReceiveState<C> {
     codec: C,
     crlf_relaxed: bool,
@@ -45,7 +48,10 @@ impl<C> ReceiveState<C> {
 
     pub fn start_literal(&mut self, length: u32) {
         self.next_fragment = NextFragment::Literal { length };
-        self.read_buffer.reserve(length as usize);
+        // The announced literal might never be received. Hence we must not reserve memory for more
+        // than a small part of it.
+        self.read_buffer
+            .reserve((length as usize).min(MAX_RESERVED_LITERAL_BYTES));
     }
 
     pub fn finish_message(&mut self) {
-- 
2.43.0


From 376da4d0cca0cd341a608bc5461e6f140a937a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:18 +0000
Subject: [PATCH 13/17] fix: failure to load root certificates must not break
 TLS connections forever

---
 proxy/src/proxy.rs | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/proxy/src/proxy.rs b/proxy/src/proxy.rs
index 439909c..1837382 100644
--- a/proxy/src/proxy.rs
+++ b/proxy/src/proxy.rs
@@ -13,7 +13,7 @@ use imap_types::{
     extensions::idle::IdleDone,
     response::{Code, Status},
 };
-use once_cell::sync::Lazy;
+use once_cell::sync::OnceCell;
 use thiserror::Error;
 use tokio::{
     net::{TcpListener, TcpStream},
@@ -33,15 +33,20 @@ use crate::{
     util::{self, ControlFlow, IdentityError},
 };
 
-static ROOT_CERT_STORE: Lazy<RootCertStore> = Lazy::new(|| {
-    let mut root_store = RootCertStore::empty();
+static ROOT_CERT_STORE: OnceCell<RootCertStore> = OnceCell::new();
 
-    for cert in rustls_native_certs::load_native_certs().unwrap() {
-        root_store.add(cert).unwrap();
-    }
+/// Loads the root certificates once. A failure affects only the current connection.
+fn root_cert_store() -> Result<&'static RootCertStore, ProxyError> {
+    ROOT_CERT_STORE.get_or_try_init(|| {
+        let mut root_store = RootCertStore::empty();
+
+        for cert in rustls_native_certs::load_native_certs()? {
+            root_store.add(cert)?;
+        }
 
-    root_store
-});
+        Ok(root_store)
+    })
+}
 
 const LITERAL_ACCEPT_TEXT: &str = "proxy: Literal accepted by proxy";
 const LITERAL_REJECT_TEXT: &str = "proxy: Literal rejected by proxy";
@@ -176,7 +181,7 @@ impl Proxy<ClientSecuredState> {
             Connect::Tls { ref host, .. } => {
                 let config = {
                     let mut config = ClientConfig::builder()
-                        .with_root_certificates(ROOT_CERT_STORE.clone())
+                        .with_root_certificates(root_cert_store()?.clone())
                         .with_no_client_auth();
 
                     // See <https://www.iana.org/assignments/tls-extensiontype-values/tls-extensiontype-values.xhtml#alpn-protocol-ids>
-- 
2.43.0


From e1d050e647dcf5b8ea7347162ebf18a2a9146a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:02 +0000
Subject: [PATCH 14/17] fix: forwarded messages must not get lost because of
 unread input when the proxy closes a connection

---
 proxy/src/proxy.rs | 12 +++++++++++-
 src/stream.rs      | 18 ++++++++++++++++++
 2 files changed, 29 insertions(+), 1 deletion(-)

diff --git a/proxy/src/proxy.rs b/proxy/src/proxy.rs
index 1837382..e73ef3f 100644
--- a/proxy/src/proxy.rs
+++ b/proxy/src/proxy.rs
@@ -52,7 +52,8 @@ const LITERAL_ACCEPT_TEXT: &str = "proxy: Literal accepted by proxy";
 const LITERAL_REJECT_TEXT: &str = "proxy: Literal rejected by proxy";
 const COMMAND_REJECTED_TEXT: &str = "proxy: Command rejected by server";
 
-/// How long we wait for progress when forwarding the remaining messages of a closed connection.
+/// How long we wait for progress when forwarding the remaining messages of a closed connection (and
+/// for the other connection being closed afterwards).
 const FORWARD_REMAINING_TIMEOUT: Duration = Duration::from_secs(30);
 
 #[derive(Debug, Error)]
@@ -278,6 +279,8 @@ impl Proxy<ConnectedState> {
                             is_command_sent,
                         )
                         .await;
+                        drop(client_to_proxy_stream);
+                        shutdown(proxy_to_server_stream).await;
                         break;
                     }
                 }
@@ -294,6 +297,8 @@ impl Proxy<ConnectedState> {
                             |_| false,
                         )
                         .await;
+                        drop(proxy_to_server_stream);
+                        shutdown(client_to_proxy_stream).await;
                         break;
                     }
                 }
@@ -344,6 +349,11 @@ async fn forward_remaining<S: imap_next::State>(
     let _ = timeout(FORWARD_REMAINING_TIMEOUT, stream.flush()).await;
 }
 
+/// Closes the connection without losing forwarded messages because of input that is still unread.
+async fn shutdown(mut stream: Stream) {
+    let _ = timeout(FORWARD_REMAINING_TIMEOUT, stream.shutdown()).await;
+}
+
 /// Emits `None` as soon as there is nothing left to send.
 struct Remaining<'a, S> {
     state: &'a mut S,
diff --git a/src/stream.rs b/src/stream.rs
index d4c1dd7..a66d4ca 100644
--- a/src/stream.rs
+++ b/src/stream.rs
@@ -85,6 +85,24 @@ impl Stream {
         Ok(())
     }
 
+    /// Signals the end of the stream to the peer and discards input until the peer closes it, too.
+    ///
+    /// Dropping the stream while there is unread input might reset the underlying TCP connection.
+    /// In this case the peer might not receive everything, even if the stream was flushed before.
+    pub async fn shutdown(&mut self) -> Result<(), Error<Infallible>> {
+        self.stream.shutdown().await?;
+
+        loop {
+            self.read_buffer.clear();
+
+            match read(&mut self.stream, &mut self.read_buffer).await {
+                Ok(()) => {}
+                Err(ReadWriteError::Closed) => return Ok(()),
+                Err(error) => return Err(error.into()),
+            }
+        }
+    }
+
     pub async fn next<F: State>(&mut self, mut state: F) -> Result<F::Event, Error<F::Error>> {
         let event = loop {
             match &mut self.tls {
-- 
2.43.0


From 0f846cc83be420e9c47fcb94dcf062c0d29755a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:07 +0000
Subject: [PATCH 15/17] fix: report TLS errors only after everything that was
 received before was handled

---
 src/stream.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/stream.rs b/src/stream.rs
index a66d4ca..aa5bf31 100644
--- a/src/stream.rs
+++ b/src/stream.rs
@@ -300,7 +300,7 @@ fn decrypt(
     read_buffer: &mut BytesMut,
 ) -> Result<Vec<u8>, DecryptEncryptError> {
     let mut plain_bytes = Vec::new();
-    let mut tls_error = None;
+    let mut failed = false;
 
     loop {
         // Note that there might be decrypted bytes before anything was read from the stream: They
@@ -323,13 +323,10 @@ fn decrypt(
             };
         }
 
-        if let Some(err) = tls_error {
-            if plain_bytes.is_empty() {
-                return Err(DecryptEncryptError::Tls(err));
-            }
-
+        if failed {
             // The plain bytes that were received before the error must not get lost. The error is
-            // reported later because `rustls` returns it again.
+            // reported once the client/server doesn't make progress without more input because
+            // `rustls` returns it again.
             break;
         }
 
@@ -339,7 +336,7 @@ fn decrypt(
 
         let mut encrypted_bytes = read_buffer.reader();
         tls.read_tls(&mut encrypted_bytes)?;
-        tls_error = tls.process_new_packets().err();
+        failed = tls.process_new_packets().is_err();
     }
 
     Ok(plain_bytes)
-- 
2.43.0


From 53286a0aa11958ffcf242ea929ab0572bbba15eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:02 +0000
Subject: [PATCH 16/17] fix: output that can't be encrypted anymore must not
 hide what was received before the TLS connection failed

---
 src/stream.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/stream.rs b/src/stream.rs
index aa5bf31..17bc115 100644
--- a/src/stream.rs
+++ b/src/stream.rs
@@ -158,6 +158,12 @@ impl Stream {
                         Vec::new()
                     };
 
+                    // Nothing can be sent anymore after the TLS connection failed. We must not report the
+                    // error before the client/server handled everything that was received.
+                    if !plain_bytes.is_empty() && tls.process_new_packets().is_err() {
+                        continue;
+                    }
+
                     // Encrypt output bytes
                     encrypt(tls, &mut self.write_buffer, plain_bytes)?;
 
-- 
2.43.0


From d4c52a1bc434fcba157a0edf33baeb06688e8b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:34 +0000
Subject: [PATCH 17/17] fix: a slow reader must not lose what is forwarded
 after the other side closed

---
 proxy/src/proxy.rs | 46 ++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 38 insertions(+), 8 deletions(-)

diff --git a/proxy/src/proxy.rs b/proxy/src/proxy.rs
index e73ef3f..4bd570d 100644
--- a/proxy/src/proxy.rs
+++ b/proxy/src/proxy.rs
@@ -1,4 +1,11 @@
-use std::{net::SocketAddr, sync::Arc, time::Duration};
+use std::{
+    future::{poll_fn, Future},
+    net::SocketAddr,
+    pin::pin,
+    sync::Arc,
+    task::Poll,
+    time::Duration,
+};
 
 use colored::Colorize;
 use imap_next::{
@@ -17,7 +24,7 @@ use once_cell::sync::OnceCell;
 use thiserror::Error;
 use tokio::{
     net::{TcpListener, TcpStream},
-    time::timeout,
+    time::{sleep, timeout, Instant},
 };
 use tokio_rustls::{
     rustls::{
@@ -334,19 +341,42 @@ async fn forward_remaining<S: imap_next::State>(
     };
 
     loop {
-        match timeout(FORWARD_REMAINING_TIMEOUT, stream.next(&mut state)).await {
-            Ok(Ok(Some(event))) => {
+        match timeout_without_progress(stream.next(&mut state)).await {
+            Some(Ok(Some(event))) => {
                 if is_command_sent(&event) {
                     state.pending_commands -= 1;
                 }
             }
-            Ok(Ok(None)) => break,
-            Ok(Err(stream::Error::State(_))) => {}
-            Ok(Err(_)) | Err(_) => return,
+            Some(Ok(None)) => break,
+            Some(Err(stream::Error::State(_))) => {}
+            Some(Err(_)) | None => return,
         }
     }
 
-    let _ = timeout(FORWARD_REMAINING_TIMEOUT, stream.flush()).await;
+    let _ = timeout_without_progress(stream.flush()).await;
+}
+
+/// Waits for the future as long as it makes progress. Returns `None` if it doesn't.
+async fn timeout_without_progress<F: Future>(future: F) -> Option<F::Output> {
+    let mut future = pin!(future);
+    let mut sleep = pin!(sleep(FORWARD_REMAINING_TIMEOUT));
+
+    poll_fn(|cx| {
+        if let Poll::Ready(output) = future.as_mut().poll(cx) {
+            return Poll::Ready(Some(output));
+        }
+
+        if sleep.is_elapsed() {
+            return Poll::Ready(None);
+        }
+
+        // The future was polled because it could read or write something
+        sleep
+            .as_mut()
+            .reset(Instant::now() + FORWARD_REMAINING_TIMEOUT);
+        sleep.as_mut().poll(cx).map(|()| None)
+    })
+    .await
 }
 
 /// Closes the connection without losing forwarded messages because of input that is still unread.
-- 
2.43.0

