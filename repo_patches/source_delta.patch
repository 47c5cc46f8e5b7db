From d993b735764915c353a573dccf314d8bdb5bb70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:54 +0000
Subject: [PATCH 01/55] fix: offer buffered data to the upper layer before
 pausing a full receive buffer

When the receive buffer filled up inside one read callback, reading was
masked and the function returned without calling on_read(), which is the
only place that resumes reading: the connection stalled forever.
---
 src/conn.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/conn.cpp b/src/conn.cpp
index 41704ca..ed38aa5 100644
--- a/src/conn.cpp
+++ b/src/conn.cpp
@@ -116,6 +116,10 @@ void ConnPool::Conn::_recv_data(const conn_t &conn, int fd, int events) {
     {
         if (conn->recv_buffer.len() >= conn->max_recv_buff_size)
         {
+            /* let the upper layer consume the data that already arrived */
+            conn->ready_recv = false;
+            conn->cpool->on_read(conn);
+            if (conn->recv_buffer.len() < conn->max_recv_buff_size) continue;
             /* recv_buffer is full, temporarily mask the READ event */
             conn->ev_socket.del();
             conn->ev_socket.add(conn->ready_send ? 0 : FdEvent::WRITE);
@@ -205,6 +209,9 @@ void ConnPool::Conn::_recv_data_tls(const conn_t &conn, int fd, int events) {
     {
         if (conn->recv_buffer.len() >= conn->max_recv_buff_size)
         {
+            conn->ready_recv = false;
+            conn->cpool->on_read(conn);
+            if (conn->recv_buffer.len() < conn->max_recv_buff_size) continue;
             conn->ev_socket.del();
             conn->ev_socket.add(conn->ready_send ? 0 : FdEvent::WRITE);
             conn->ready_recv = true;
-- 
2.43.0


From 96239f0ff5cfb1b9bf2df903cad09ea820d0515d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:54 +0000
Subject: [PATCH 02/55] fix: keep parsing buffered messages after dropping a
 corrupted one

break left the already received messages behind the dropped one in the
buffer until some further byte arrived.
---
 include/salticidae/network.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index 5aaa3bf..8056794 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -680,7 +680,7 @@ void MsgNetwork<OpcodeType>::on_read(const ConnPool::conn_t &_conn) {
             if (!msg.verify_checksum())
             {
                 SALTICIDAE_LOG_WARN("checksums do not match, dropping the message");
-                break;
+                continue;
             }
 #endif
             if (!incoming_msgs.enqueue(std::make_pair(msg, conn), false))
-- 
2.43.0


From ae0517c12e9fc744dfab41e821891324aeaeaa2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:54 +0000
Subject: [PATCH 03/55] fix: report errors raised while parsing from the
 queue-full retry timer

An oversized message found by on_read() threw through the event loop and
aborted the process instead of terminating the connection.
---
 include/salticidae/network.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index 8056794..036ccb5 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -145,7 +145,12 @@ class MsgNetwork: public ConnPool {
                     return;
                 }
                 conn->msg_sleep = false;
-                on_read(conn);
+                try {
+                    on_read(conn);
+                } catch (...) {
+                    this->recoverable_error(std::current_exception(), -1);
+                    this->worker_terminate(conn);
+                }
             });
     }
 
-- 
2.43.0


From 40634f2644a5ac8bcd26252af5b4c932c2e1f57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:54 +0000
Subject: [PATCH 04/55] fix: do not enqueue empty segments in the send buffer

The sender takes an empty segment for an empty queue and stops, leaving
the data written after it unsent.
---
 include/salticidae/buffer.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/salticidae/buffer.h b/include/salticidae/buffer.h
index 6d3f97a..7bb2d4f 100644
--- a/include/salticidae/buffer.h
+++ b/include/salticidae/buffer.h
@@ -134,6 +134,8 @@ struct MPSCWriteBuffer {
     }
   
     bool push(bytearray_t &&data, bool unbounded) {
+        /* an empty segment would be taken as the end of the queue */
+        if (data.empty()) return true;
         return buffer.enqueue(buffer_entry_t(std::move(data)), unbounded);
     }
 
-- 
2.43.0


From 9e6a739e528b2bb59b140a7adf936099ca9abad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:50 +0000
Subject: [PATCH 05/55] fix: hold the peer table exclusively while a handshake
 replaces a peer's connection

finish_handshake() assigns Peer::conn, which send_msg() reads from other
threads under the shared lock: a shared lock on the writer side does not
exclude them.
---
 include/salticidae/network.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index 036ccb5..e410db8 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -1005,7 +1005,7 @@ void PeerNetwork<O, _, __>::ping_handler(MsgPing &&msg, const conn_t &conn) {
                 if (conn->get_mode() == Conn::ConnMode::PASSIVE)
                 {
                     auto pid = get_peer_id(conn, msg.claimed_addr);
-                    pinfo_slock_t _g(known_peers_lock);
+                    pinfo_ulock_t _g(known_peers_lock);
                     auto pit = known_peers.find(pid);
                     if (pit == known_peers.end())
                     {
@@ -1087,7 +1087,7 @@ void PeerNetwork<O, _, __>::pong_handler(MsgPong &&msg, const conn_t &conn) {
                 if (conn->get_mode() == Conn::ConnMode::ACTIVE)
                 {
                     auto pid = get_peer_id(conn, conn->get_addr());
-                    pinfo_slock_t _g(known_peers_lock);
+                    pinfo_ulock_t _g(known_peers_lock);
                     auto pit = known_peers.find(pid);
                     if (pit == known_peers.end())
                     {
-- 
2.43.0


From 94ae87262208e6377525243a9863bf28baf90926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:50 +0000
Subject: [PATCH 06/55] fix: protect the client table of ClientNetwork

send_msg() looks clients up on the caller's thread while the dispatcher
inserts and erases them.
---
 include/salticidae/network.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index e410db8..30f62a1 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -283,6 +283,7 @@ class ClientNetwork: public MsgNetwork<OpcodeType> {
 
     private:
     std::unordered_map<NetAddr, typename MsgNet::conn_t> addr2conn;
+    std::mutex addr2conn_lock;
 
     public:
     class Conn: public MsgNet::Conn {
@@ -1375,6 +1376,7 @@ void ClientNetwork<OpcodeType>::on_dispatcher_setup(const ConnPool::conn_t &_con
     assert(conn->get_mode() == Conn::PASSIVE);
     const auto &addr = conn->get_addr();
     auto cn = conn->get_net();
+    std::lock_guard<std::mutex> _g(cn->addr2conn_lock);
     cn->addr2conn.erase(addr);
     cn->addr2conn.insert(std::make_pair(addr, conn));
 }
@@ -1383,7 +1385,9 @@ template<typename OpcodeType>
 void ClientNetwork<OpcodeType>::on_dispatcher_teardown(const ConnPool::conn_t &_conn) {
     MsgNet::on_dispatcher_teardown(_conn);
     auto conn = static_pointer_cast<Conn>(_conn);
-    conn->get_net()->addr2conn.erase(conn->get_addr());
+    auto cn = conn->get_net();
+    std::lock_guard<std::mutex> _g(cn->addr2conn_lock);
+    cn->addr2conn.erase(conn->get_addr());
 }
 
 template<typename OpcodeType>
@@ -1412,6 +1416,7 @@ inline bool ClientNetwork<OpcodeType>::send_msg(const MsgType &msg, const NetAdd
 
 template<typename OpcodeType>
 inline bool ClientNetwork<OpcodeType>::_send_msg(const Msg &msg, const NetAddr &addr) {
+    std::lock_guard<std::mutex> _g(addr2conn_lock);
     auto it = addr2conn.find(addr);
     if (it == addr2conn.end())
         throw ClientNetworkError(SALTI_ERROR_CLIENT_NOT_EXIST);
-- 
2.43.0


From ce0cc721385816f9954950f2213f0a96e6275364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:50 +0000
Subject: [PATCH 07/55] fix: stop the threads before ClientNetwork's members
 are destroyed

As in MsgNetwork and PeerNetwork; otherwise the dispatcher may still use
the client table after its destruction.
---
 include/salticidae/network.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index 30f62a1..32e5c73 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -307,6 +307,8 @@ class ClientNetwork: public MsgNetwork<OpcodeType> {
     ClientNetwork(const EventContext &ec, const Config &config):
         MsgNet(ec, config) {}
 
+    virtual ~ClientNetwork() { this->stop(); }
+
     using MsgNet::send_msg;
     template<typename MsgType>
     inline bool send_msg(const MsgType &msg, const NetAddr &addr);
-- 
2.43.0


From 920e8aa3f597b5324a98eb936ae3226e5d6f50ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:50 +0000
Subject: [PATCH 08/55] fix: do not drop the entry of a newer connection when
 an old one is torn down

---
 include/salticidae/network.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index 32e5c73..f17e08b 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -826,7 +826,10 @@ void PeerNetwork<O, _, __>::on_dispatcher_teardown(const ConnPool::conn_t &_conn
     MsgNet::on_dispatcher_teardown(_conn);
     auto conn = static_pointer_cast<Conn>(_conn);
     auto addr = conn->get_addr();
-    pending_peers.erase(addr);
+    auto pending = pending_peers.find(addr);
+    /* a newer connection may have taken over the address */
+    if (pending != pending_peers.end() && pending->second == conn)
+        pending_peers.erase(pending);
     SALTICIDAE_LOG_INFO("%s%s%s: lost connection %s",
             tty_secondary_color,
             id_hex.c_str(),
@@ -1389,7 +1392,10 @@ void ClientNetwork<OpcodeType>::on_dispatcher_teardown(const ConnPool::conn_t &_
     auto conn = static_pointer_cast<Conn>(_conn);
     auto cn = conn->get_net();
     std::lock_guard<std::mutex> _g(cn->addr2conn_lock);
-    cn->addr2conn.erase(conn->get_addr());
+    auto it = cn->addr2conn.find(conn->get_addr());
+    /* a newer connection may have taken over the address */
+    if (it != cn->addr2conn.end() && it->second == conn)
+        cn->addr2conn.erase(it);
 }
 
 template<typename OpcodeType>
-- 
2.43.0


From 94cd45fad387608ade4d6dba3d57a7a3dfa2d6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:50 +0000
Subject: [PATCH 09/55] fix: report a deferred client send that could not be
 queued

---
 include/salticidae/network.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index f17e08b..8e21bd6 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -1410,7 +1410,8 @@ inline int32_t ClientNetwork<OpcodeType>::_send_msg_deferred(Msg &&msg, const Ne
     this->disp_tcall->async_call(
             [this, msg=std::move(msg), addr, id](ThreadCall::Handle &) {
         try {
-            _send_msg(msg, addr);
+            if (!_send_msg(msg, addr))
+                throw ClientNetworkError(SALTI_ERROR_CONN_NOT_READY);
         } catch (...) { this->recoverable_error(std::current_exception(), id); }
     });
     return id;
-- 
2.43.0


From 224340d7d4e4194078b526ea26e7bf89996b47b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:50 +0000
Subject: [PATCH 10/55] fix: read cross-thread results with the type they were
 stored with

---
 include/salticidae/network.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index 8e21bd6..d3cde35 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -1307,13 +1307,13 @@ bool PeerNetwork<O, _, __>::has_peer(const PeerId &pid) const {
     return *(static_cast<bool *>(this->disp_tcall->call(
                 [this, pid](ThreadCall::Handle &h) {
         pinfo_slock_t _g(known_peers_lock);
-        h.set_result(known_peers.count(pid));
+        h.set_result(known_peers.count(pid) > 0);
     }).get()));
 }
 
 template<typename O, O _, O __>
 size_t PeerNetwork<O, _, __>::get_npending() const {
-    return *(static_cast<bool *>(this->disp_tcall->call(
+    return *(static_cast<size_t *>(this->disp_tcall->call(
                 [this](ThreadCall::Handle &h) {
         h.set_result(pending_peers.size());
     }).get()));
-- 
2.43.0


From b9f7ffb8ff4ddf4183463e581c7ab7d105cfaf07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:50 +0000
Subject: [PATCH 11/55] fix: return from Config::msg_magic

---
 include/salticidae/network.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index d3cde35..bed81b6 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -195,6 +195,7 @@ class MsgNetwork: public ConnPool {
 
         Config &msg_magic(uint32_t x) {
             _msg_magic = x;
+            return *this;
         }
     };
 
-- 
2.43.0


From 118e0208d5f49e27cd7f1f4472dc85fbd2c47fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:50 +0000
Subject: [PATCH 12/55] fix: initialise the nonce of a heartbeat ping

---
 include/salticidae/network.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index bed81b6..f8d8f48 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -421,6 +421,7 @@ class PeerNetwork: public MsgNetwork<OpcodeType> {
         MsgPing(DataStream &&s) {
             uint8_t flag;
             s >> flag;
+            nonce = 0;
             if (flag)
                 s >> claimed_addr >> nonce;
             nonce = letoh(nonce);
-- 
2.43.0


From d1d53a67f9ce7fbdb8b30d8fdc4c0334122bdddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:50 +0000
Subject: [PATCH 13/55] fix: detach a stale outbound connection instead of
 asserting

An outbound connection refers to its peer until the handshake finishes, so
a pong on another connection to the same peer aborted the process.
---
 include/salticidae/network.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index f8d8f48..139fd17 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -1119,7 +1119,7 @@ void PeerNetwork<O, _, __>::pong_handler(MsgPong &&msg, const conn_t &conn) {
                         SALTICIDAE_LOG_DEBUG("%s%s%s: terminating stale handshake connection %s",
                             tty_secondary_color, id_hex.c_str(), tty_reset_color,
                             std::string(*old_conn).c_str());
-                        assert(old_conn->peer == nullptr);
+                        old_conn->peer = nullptr;
                         this->disp_terminate(old_conn);
                     }
                     old_conn = conn;
-- 
2.43.0


From ddf559426b20674afce1de4be6cf6bef58fbf8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:50 +0000
Subject: [PATCH 14/55] fix: detach the outbound connection that conn_peer
 forgets

Its back pointer outlived the peer after del_peer() and was followed when
the connection was torn down.
---
 include/salticidae/network.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index 139fd17..73955ed 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -1215,7 +1215,11 @@ int32_t PeerNetwork<O, _, __>::conn_peer(const PeerId &pid, int32_t ntry, double
             p->cur_ntry = ntry;
             p->retry_delay = retry_delay;
             p->inbound_conn = nullptr;
-            p->outbound_conn = nullptr;
+            if (p->outbound_conn)
+            {
+                p->outbound_conn->peer = nullptr;
+                p->outbound_conn = nullptr;
+            }
             p->ev_ping_timer.del();
             p->nonce = 0;
             p->ev_retry_timer = TimerEvent(this->disp_ec,
-- 
2.43.0


From da8d5dd44ecc934ef3e06c69bb1b2923d409c154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:51 +0000
Subject: [PATCH 15/55] fix: allow a blocked TLS write to be retried from
 another buffer

A segment put back on the send queue is copied when it is taken off again,
so the retried SSL_write() failed with 'bad write retry' and the connection
was terminated.
---
 include/salticidae/crypto.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/salticidae/crypto.h b/include/salticidae/crypto.h
index d17a919..3675fb7 100644
--- a/include/salticidae/crypto.h
+++ b/include/salticidae/crypto.h
@@ -372,7 +372,8 @@ class TLS {
         else
             SSL_set_connect_state(ssl);
 
-        SSL_set_mode(ssl, SSL_MODE_ENABLE_PARTIAL_WRITE);
+        SSL_set_mode(ssl, SSL_MODE_ENABLE_PARTIAL_WRITE |
+                            SSL_MODE_ACCEPT_MOVING_WRITE_BUFFER);
     }
 
     TLS(const TLS &) = delete;
-- 
2.43.0


From e49c9be3c04b7fceef522d346b4cc37d6f388f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:51 +0000
Subject: [PATCH 16/55] fix: close the PEM file when it does not parse

---
 include/salticidae/crypto.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/salticidae/crypto.h b/include/salticidae/crypto.h
index 3675fb7..8759cf6 100644
--- a/include/salticidae/crypto.h
+++ b/include/salticidae/crypto.h
@@ -177,9 +177,9 @@ class PKey {
         {
             key = PEM_read_PrivateKey(fp, NULL, _tls_pem_no_passswd, NULL);
         }
+        fclose(fp);
         if (key == nullptr)
             throw SalticidaeError(SALTI_ERROR_TLS_KEY);
-        fclose(fp);
         return PKey(key);
     }
 
@@ -265,9 +265,9 @@ class X509 {
         {
             x509 = PEM_read_X509(fp, NULL, _tls_pem_no_passswd, NULL);
         }
+        fclose(fp);
         if (x509 == nullptr)
             throw SalticidaeError(SALTI_ERROR_TLS_X509);
-        fclose(fp);
         return X509(x509);
     }
 
-- 
2.43.0


From feb17774a27678103f715266ca2ed0225ec45647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:51 +0000
Subject: [PATCH 17/55] fix: report a key or certificate file that cannot be
 opened for writing

---
 include/salticidae/crypto.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/salticidae/crypto.h b/include/salticidae/crypto.h
index 8759cf6..fa2897b 100644
--- a/include/salticidae/crypto.h
+++ b/include/salticidae/crypto.h
@@ -216,6 +216,8 @@ class PKey {
 
     void save_privkey_to_file(const std::string &fname) {
         FILE *fp = fopen(fname.c_str(), "wb");
+        if (fp == nullptr)
+            throw SalticidaeError(SALTI_ERROR_TLS_KEY);
         auto ret = PEM_write_PrivateKey(fp, key, nullptr, nullptr, 0, nullptr, nullptr);
         fclose(fp);
         if (!ret)
@@ -300,6 +302,8 @@ class X509 {
 
     void save_to_file(const std::string &fname) {
         FILE *fp = fopen(fname.c_str(), "wb");
+        if (fp == nullptr)
+            throw SalticidaeError(SALTI_ERROR_TLS_X509);
         auto ret = PEM_write_X509(fp, x509);
         fclose(fp);
         if (!ret)
-- 
2.43.0


From 9969a6f6a7792931cb7b2ab3a18815b8a60654f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:51 +0000
Subject: [PATCH 18/55] fix: free the key when RSA generation fails

---
 include/salticidae/crypto.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/salticidae/crypto.h b/include/salticidae/crypto.h
index fa2897b..344ff65 100644
--- a/include/salticidae/crypto.h
+++ b/include/salticidae/crypto.h
@@ -156,6 +156,7 @@ class PKey {
         if (!ret)
         {
             RSA_free(rsa);
+            EVP_PKEY_free(key);
             throw SalticidaeError(SALTI_ERROR_TLS_KEY);
         }
         EVP_PKEY_set1_RSA(key, rsa);
-- 
2.43.0


From f1a0c5395fd4389089b7889f153fc046c59dac7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:51 +0000
Subject: [PATCH 19/55] fix: check the length before consuming data in place

A huge length wrapped around and passed the check, and a failed call left
the stream positioned past its end.
---
 include/salticidae/stream.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/salticidae/stream.h b/include/salticidae/stream.h
index 1ac166a..6d850ce 100644
--- a/include/salticidae/stream.h
+++ b/include/salticidae/stream.h
@@ -114,12 +114,12 @@ class DataStream {
     }
 
     const uint8_t *get_data_inplace(size_t len) {
-        auto res = (uint8_t *)&*(buffer.begin() + offset);
-        offset += len;
 #ifndef SALTICIDAE_NOCHECK
-        if (offset > buffer.size())
+        if (len > buffer.size() - offset)
             throw std::ios_base::failure("insufficient buffer");
 #endif
+        auto res = (uint8_t *)&*(buffer.begin() + offset);
+        offset += len;
         return res;
     }
 
-- 
2.43.0


From 9c51285e481c96837fe012536a664225d9de9c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:51 +0000
Subject: [PATCH 20/55] fix: validate the length of a serialized bit set before
 allocating it

nbits close to 2^32 wrapped around to an empty array, and any other length
was allocated before looking at the available data.
---
 include/salticidae/stream.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/salticidae/stream.h b/include/salticidae/stream.h
index 6d850ce..3ac7d14 100644
--- a/include/salticidae/stream.h
+++ b/include/salticidae/stream.h
@@ -380,7 +380,11 @@ class _Bits {
     void unserialize(DataStream &s) {
         s >> nbits;
         nbits = letoh(nbits);
-        ndata = (nbits + bit_per_datum - 1) / bit_per_datum;
+        ndata = nbits / bit_per_datum + (nbits % bit_per_datum ? 1 : 0);
+#ifndef SALTICIDAE_NOCHECK
+        if (s.size() / sizeof(_impl_type) < ndata)
+            throw std::ios_base::failure("insufficient buffer");
+#endif
         data = new _impl_type[ndata];
         for (_impl_type *ptr = data.get(); ptr < data.get() + ndata; ptr++)
         {
-- 
2.43.0


From b48d36b846cd18efed030ab575c80feea47e7a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:51 +0000
Subject: [PATCH 21/55] fix: initialise the size of an empty bit set

---
 include/salticidae/stream.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/salticidae/stream.h b/include/salticidae/stream.h
index 3ac7d14..74036b3 100644
--- a/include/salticidae/stream.h
+++ b/include/salticidae/stream.h
@@ -326,7 +326,7 @@ class _Bits {
 
     public:
 
-    _Bits(): data(nullptr) {}
+    _Bits(): data(nullptr), nbits(0), ndata(0) {}
     _Bits(const bytearray_t &arr) {
         load(&*arr.begin(), arr.size());
     }
-- 
2.43.0


From e68df34b7166a704bae37a2a5be91d26c265ada9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:51 +0000
Subject: [PATCH 22/55] fix: load all bytes of a 64-bit datum of a bit set

The byte was shifted as an int, which is undefined from the fifth byte on.
---
 include/salticidae/stream.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/salticidae/stream.h b/include/salticidae/stream.h
index 74036b3..3d941fc 100644
--- a/include/salticidae/stream.h
+++ b/include/salticidae/stream.h
@@ -354,7 +354,7 @@ class _Bits {
         {
             _impl_type x = 0;
             for (unsigned j = 0, k = 0; j < sizeof(_impl_type); j++, k += 8)
-                if (arr < end) x |= *(arr++) << k;
+                if (arr < end) x |= (_impl_type)*(arr++) << k;
             *(ptr++) = x;
         }
     }
-- 
2.43.0


From 864aea111f02097a915777159ccbcaab42dabf7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:51 +0000
Subject: [PATCH 23/55] fix: leave consumed data out when an rvalue stream is
 turned into bytes

---
 include/salticidae/stream.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/salticidae/stream.h b/include/salticidae/stream.h
index 3d941fc..1cfe40f 100644
--- a/include/salticidae/stream.h
+++ b/include/salticidae/stream.h
@@ -188,7 +188,9 @@ class DataStream {
     }
 
     operator bytearray_t () && {
-        return buffer;
+        if (offset)
+            return bytearray_t(buffer.begin() + offset, buffer.end());
+        return std::move(buffer);
     }
 
     operator std::string () const & {
-- 
2.43.0


From 3274c2f91905e81b9069c7331786b0b511101777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:51 +0000
Subject: [PATCH 24/55] fix: reject signs, blanks and prefixes in a hex string

---
 include/salticidae/stream.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/salticidae/stream.h b/include/salticidae/stream.h
index 1cfe40f..afb2cf4 100644
--- a/include/salticidae/stream.h
+++ b/include/salticidae/stream.h
@@ -177,7 +177,9 @@ class DataStream {
         for (p = hex_str.data(), bp = &*buffer.begin();
             p < hex_str.data() + len; p += 2, bp++)
         {
-            if (sscanf(p, "%02x", &tmp) != 1)
+            if (!isxdigit((unsigned char)p[0]) ||
+                !isxdigit((unsigned char)p[1]) ||
+                sscanf(p, "%02x", &tmp) != 1)
                 throw std::invalid_argument("not a valid hex string");
             *bp = tmp;
         }
-- 
2.43.0


From cf877440af75071a3c8c8a2a5e703b008b8f16f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:51 +0000
Subject: [PATCH 25/55] fix: validate the length of a hash list before
 allocating it

---
 include/salticidae/msg.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/salticidae/msg.h b/include/salticidae/msg.h
index 11cf309..9f40c00 100644
--- a/include/salticidae/msg.h
+++ b/include/salticidae/msg.h
@@ -252,7 +252,10 @@ class MsgBase {
 
         s >> size;
         size = letoh(size);
-
+#ifndef SALTICIDAE_NOCHECK
+        if (s.size() / (256 / 8) < size)
+            throw std::ios_base::failure("insufficient buffer");
+#endif
         hashes.resize(size);
         for (auto &hash: hashes) s >> hash;
     }
-- 
2.43.0


From 3f50fedcf32a024e545511d086851b45de7a85e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:51 +0000
Subject: [PATCH 26/55] fix: take the CA check setting by value

The pointer parameter made every non-null pointer, also to false, skip the
check, and literal true did not compile.
---
 include/salticidae/conn.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/salticidae/conn.h b/include/salticidae/conn.h
index f08ba66..22a98a0 100644
--- a/include/salticidae/conn.h
+++ b/include/salticidae/conn.h
@@ -472,7 +472,7 @@ class ConnPool {
             return *this;
         }
 
-        Config &tls_skip_ca_check(bool *x) {
+        Config &tls_skip_ca_check(bool x) {
             _tls_skip_ca_check = x;
             return *this;
         }
-- 
2.43.0


From 90e81f2d1d8abbae67e2f50e0bc9e01c19ff1824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:34 +0000
Subject: [PATCH 27/55] fix: let the worker tear down a connection handed to it
 before the dispatcher did

disp_terminate() decides on the basis of the worker at the time of the call,
but the teardown runs later; the connection may be established and handed to a
worker in between, so the dispatcher would tear down events owned by the worker.
---
 src/conn.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/conn.cpp b/src/conn.cpp
index ed38aa5..6699b1d 100644
--- a/src/conn.cpp
+++ b/src/conn.cpp
@@ -298,6 +298,12 @@ void ConnPool::disp_terminate(const conn_t &conn) {
         worker_terminate(conn);
     else
         disp_tcall->async_call([this, conn](ThreadCall::Handle &) {
+            if (conn->worker)
+            {
+                /* handed over to a worker in the meantime */
+                worker_terminate(conn);
+                return;
+            }
             if (!conn->set_terminated()) return;
             on_worker_teardown(conn);
             //conn->stop();
-- 
2.43.0


From 2fd242cea6b2998f20dc98ba6612279cdfe78e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:34 +0000
Subject: [PATCH 28/55] fix: close a new socket that cannot be configured

---
 src/conn.cpp | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/conn.cpp b/src/conn.cpp
index 6699b1d..26e82d0 100644
--- a/src/conn.cpp
+++ b/src/conn.cpp
@@ -326,10 +326,13 @@ void ConnPool::accept_client(int fd, int) {
             int one = 1;
             if (setsockopt(client_fd, SOL_SOCKET, SO_REUSEADDR, (const char *)&one, sizeof(one)) < 0 ||
                 //setsockopt(client_fd, SOL_SOCKET, SO_REUSEPORT, (const char *)&one, sizeof(one)) < 0 ||
-                setsockopt(client_fd, SOL_TCP, TCP_NODELAY, (const char *)&one, sizeof(one)) < 0)
-                throw ConnPoolError(SALTI_ERROR_ACCEPT, errno);
-            if (fcntl(client_fd, F_SETFL, O_NONBLOCK) == -1)
-                throw ConnPoolError(SALTI_ERROR_ACCEPT, errno);
+                setsockopt(client_fd, SOL_TCP, TCP_NODELAY, (const char *)&one, sizeof(one)) < 0 ||
+                fcntl(client_fd, F_SETFL, O_NONBLOCK) == -1)
+            {
+                int err = errno;
+                close(client_fd);
+                throw ConnPoolError(SALTI_ERROR_ACCEPT, err);
+            }
 
             NetAddr addr((struct sockaddr_in *)&client_addr);
             conn_t conn = create_conn();
@@ -410,10 +413,13 @@ ConnPool::conn_t ConnPool::_connect(const NetAddr &addr) {
         throw ConnPoolError(SALTI_ERROR_CONNECT, errno);
     if (setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, (const char *)&one, sizeof(one)) < 0 ||
         //setsockopt(fd, SOL_SOCKET, SO_REUSEPORT, (const char *)&one, sizeof(one)) < 0 ||
-        setsockopt(fd, SOL_TCP, TCP_NODELAY, (const char *)&one, sizeof(one)) < 0)
-        throw ConnPoolError(SALTI_ERROR_CONNECT, errno);
-    if (fcntl(fd, F_SETFL, O_NONBLOCK) == -1)
-        throw ConnPoolError(SALTI_ERROR_CONNECT, errno);
+        setsockopt(fd, SOL_TCP, TCP_NODELAY, (const char *)&one, sizeof(one)) < 0 ||
+        fcntl(fd, F_SETFL, O_NONBLOCK) == -1)
+    {
+        int err = errno;
+        close(fd);
+        throw ConnPoolError(SALTI_ERROR_CONNECT, err);
+    }
     conn_t conn = create_conn();
     conn->send_buffer.set_capacity(max_send_buff_size);
     conn->recv_chunk_size = recv_chunk_size;
-- 
2.43.0


From b608e9692e77466a514f92bcf33bea00599a95a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:34 +0000
Subject: [PATCH 29/55] fix: report a failed read from the C stream interface

---
 src/stream.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/stream.cpp b/src/stream.cpp
index 6b208aa..92a2d83 100644
--- a/src/stream.cpp
+++ b/src/stream.cpp
@@ -99,15 +99,15 @@ bool datastream_put_data(datastream_t *self, const uint8_t *base, size_t size) {
     return true;
 }
 
-uint8_t datastream_get_u8(datastream_t *self, bool *succ) { uint8_t val = 0; try {*self >> val;} catch (...) {*succ = false;} *succ = true; return val; }
-uint16_t datastream_get_u16(datastream_t *self, bool *succ) { uint16_t val = 0; try {*self >> val;} catch (...) {*succ = false;} *succ = true; return val; }
-uint32_t datastream_get_u32(datastream_t *self, bool *succ) { uint32_t val = 0; try {*self >> val;} catch (...) {*succ = false;} *succ = true; return val; }
-uint64_t datastream_get_u64(datastream_t *self, bool *succ) { uint64_t val = 0; try {*self >> val;} catch (...) {*succ = false;} *succ = true; return val; }
-
-int8_t datastream_get_i8(datastream_t *self, bool *succ) {int8_t val = 0; try {*self >> val;} catch (...) {*succ = false;} *succ = true; return val; }
-int16_t datastream_get_i16(datastream_t *self, bool *succ) {int16_t val = 0; try {*self >> val;} catch (...) {*succ = false;} *succ = true; return val; }
-int32_t datastream_get_i32(datastream_t *self, bool *succ) {int32_t val = 0; try {*self >> val;} catch (...) {*succ = false;} *succ = true; return val; }
-int64_t datastream_get_i64(datastream_t *self, bool *succ) {int64_t val = 0; try {*self >> val;} catch (...) {*succ = false;} *succ = true; return val; }
+uint8_t datastream_get_u8(datastream_t *self, bool *succ) { uint8_t val = 0; *succ = true; try {*self >> val;} catch (...) {*succ = false;} return val; }
+uint16_t datastream_get_u16(datastream_t *self, bool *succ) { uint16_t val = 0; *succ = true; try {*self >> val;} catch (...) {*succ = false;} return val; }
+uint32_t datastream_get_u32(datastream_t *self, bool *succ) { uint32_t val = 0; *succ = true; try {*self >> val;} catch (...) {*succ = false;} return val; }
+uint64_t datastream_get_u64(datastream_t *self, bool *succ) { uint64_t val = 0; *succ = true; try {*self >> val;} catch (...) {*succ = false;} return val; }
+
+int8_t datastream_get_i8(datastream_t *self, bool *succ) {int8_t val = 0; *succ = true; try {*self >> val;} catch (...) {*succ = false;} return val; }
+int16_t datastream_get_i16(datastream_t *self, bool *succ) {int16_t val = 0; *succ = true; try {*self >> val;} catch (...) {*succ = false;} return val; }
+int32_t datastream_get_i32(datastream_t *self, bool *succ) {int32_t val = 0; *succ = true; try {*self >> val;} catch (...) {*succ = false;} return val; }
+int64_t datastream_get_i64(datastream_t *self, bool *succ) {int64_t val = 0; *succ = true; try {*self >> val;} catch (...) {*succ = false;} return val; }
 
 const uint8_t *datastream_get_data_inplace(datastream_t *self, size_t len) {
     try {
-- 
2.43.0


From ba2b7a1ae08675790854d5f0b8eb36610b915b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:34 +0000
Subject: [PATCH 30/55] fix: return the result of sending from the C network
 interface

---
 src/network.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/network.cpp b/src/network.cpp
index d81b569..f888ff9 100644
--- a/src/network.cpp
+++ b/src/network.cpp
@@ -295,8 +295,7 @@ void peernetwork_conn_free(const peernetwork_conn_t *self) { delete self; }
 
 bool peernetwork_send_msg(peernetwork_t *self, const msg_t * msg, const peerid_t *peer) {
     try {
-        self->_send_msg(*msg, *peer);
-        return true;
+        return self->_send_msg(*msg, *peer);
     } catch (...) {
         return false;
     }
@@ -365,8 +364,7 @@ void clientnetwork_conn_free(const clientnetwork_conn_t *self) { delete self; }
 
 bool clientnetwork_send_msg(clientnetwork_t *self, const msg_t * msg, const netaddr_t *addr) {
     try {
-        self->_send_msg(*msg, *addr);
-        return true;
+        return self->_send_msg(*msg, *addr);
     } catch (...) {
         return false;
     }
-- 
2.43.0


From 6e937dfea0aa66a96b3e6871cd3f6df01a4ef019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:34 +0000
Subject: [PATCH 31/55] fix: close the configuration file when an option is
 rejected

---
 src/util.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/util.cpp b/src/util.cpp
index 01f6b06..7a3241d 100644
--- a/src/util.cpp
+++ b/src/util.cpp
@@ -291,7 +291,12 @@ bool Config::load(const std::string &fname) {
                             optname.c_str());
                 continue;
             }
-            update(optname, optval.c_str());
+            try {
+                update(optname, optval.c_str());
+            } catch (...) {
+                fclose(conf_f);
+                throw;
+            }
         }
         fclose(conf_f);
         return true;
-- 
2.43.0


From 85f30d17aeba10d9b42788a4e9ebdf307669f89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:34 +0000
Subject: [PATCH 32/55] fix: report an out-of-range option value as an invalid
 value

---
 include/salticidae/util.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/salticidae/util.h b/include/salticidae/util.h
index 1ad81c1..3aa07aa 100644
--- a/include/salticidae/util.h
+++ b/include/salticidae/util.h
@@ -320,6 +320,8 @@ class Config {
                 val = stoi(strval, &idx);
             } catch (std::invalid_argument &) {
                 throw SalticidaeError(SALTI_ERROR_OPTVAL_INVALID);
+            } catch (std::out_of_range &) {
+                throw SalticidaeError(SALTI_ERROR_OPTVAL_INVALID);
             }
         }
         int &get() { return val; }
@@ -340,6 +342,8 @@ class Config {
                 val = stod(strval, &idx);
             } catch (std::invalid_argument &) {
                 throw SalticidaeError(SALTI_ERROR_OPTVAL_INVALID);
+            } catch (std::out_of_range &) {
+                throw SalticidaeError(SALTI_ERROR_OPTVAL_INVALID);
             }
         }
         double &get() { return val; }
-- 
2.43.0


From 17891a2b31a4de24b0bfa665e5aea652c59656b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:34 +0000
Subject: [PATCH 33/55] fix: initialize the system error code of an error

---
 include/salticidae/util.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/salticidae/util.h b/include/salticidae/util.h
index 3aa07aa..7af290a 100644
--- a/include/salticidae/util.h
+++ b/include/salticidae/util.h
@@ -125,10 +125,10 @@ class SalticidaeError: public std::exception {
     int oscode;
 
     public:
-    SalticidaeError() : code(SALTI_NORMAL) {}
+    SalticidaeError() : code(SALTI_NORMAL), oscode(0) {}
 
     template<typename... Args>
-    SalticidaeError(const std::string &fmt, Args... args): code(SALTI_ERROR_GENERIC) {
+    SalticidaeError(const std::string &fmt, Args... args): code(SALTI_ERROR_GENERIC), oscode(0) {
         msg = stringprintf(fmt.c_str(), args...);
     }
 
-- 
2.43.0


From ce880a705ac4696be084801a5a2b44089ba7543e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:34 +0000
Subject: [PATCH 34/55] fix: keep the last character of a long formatted string

---
 src/util.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/util.cpp b/src/util.cpp
index 7a3241d..9395974 100644
--- a/src/util.cpp
+++ b/src/util.cpp
@@ -120,12 +120,13 @@ std::string vstringprintf(const char *fmt, va_list _ap) {
     if (nwrote < 0) buff = "";
     else
     {
-        buff.resize(nwrote);
-        if (nwrote > guessed_size)
+        if (nwrote >= guessed_size)
         {
-            if (vsnprintf(&buff[0], nwrote, fmt, ap) != nwrote)
-                buff = "";
+            buff.resize(nwrote + 1);
+            if (vsnprintf(&buff[0], nwrote + 1, fmt, ap) != nwrote)
+                nwrote = 0;
         }
+        buff.resize(nwrote);
     }
     va_end(ap);
     return buff;
-- 
2.43.0


From 8fa08cfc85faf098abfb4a81a904bbc1e94d1b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:23 +0000
Subject: [PATCH 35/55] fix: release the source of a cast between owning boxes

---
 include/salticidae/ref.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/salticidae/ref.h b/include/salticidae/ref.h
index bb5fb3a..54f54e5 100644
--- a/include/salticidae/ref.h
+++ b/include/salticidae/ref.h
@@ -150,7 +150,7 @@ class BoxObj<T[], D>: public _BoxObj<T, D> {
 template<typename T, typename D = default_delete<T>, typename T_, typename D_>
 BoxObj<T, D> static_pointer_cast(BoxObj<T_, D_> &&other) {
     BoxObj<T, D> box{};
-    box.obj = static_cast<typename BoxObj<T, D>::type *>(other.obj);
+    box.obj = static_cast<typename BoxObj<T, D>::type *>(other.unwrap());
     return box;
 }
 
-- 
2.43.0


From 980bfb772dd95969019b2b734dcd53746cab89e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:09 +0000
Subject: [PATCH 36/55] fix: do not abort on a handshake reply over a
 connection that does not match the record

---
 include/salticidae/network.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index 73955ed..d0c1062 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -1107,7 +1107,9 @@ void PeerNetwork<O, _, __>::pong_handler(MsgPong &&msg, const conn_t &conn) {
                         return;
                     }
                     auto &p = pit->second;
-                    assert(!p->addr.is_null() && p->addr == conn->get_addr());
+                    /* the record may have changed since the connection was
+                     * made, or the connection was made by the user */
+                    if (p->addr.is_null() || p->addr != conn->get_addr()) return;
                     if (p->state != Peer::State::DISCONNECTED ||
                         p->addr != msg.claimed_addr) return;
                     SALTICIDAE_LOG_DEBUG("%s%s%s: outbound handshake to %s%s%s",
-- 
2.43.0


From 3095642c6af24ab77490bdfa8f6d02b3cee3d782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:04:08 +0000
Subject: [PATCH 37/55] fix: leave a moved-from stream empty instead of with a
 read position past its end

---
 include/salticidae/stream.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/salticidae/stream.h b/include/salticidae/stream.h
index afb2cf4..ecc97dc 100644
--- a/include/salticidae/stream.h
+++ b/include/salticidae/stream.h
@@ -50,7 +50,7 @@ class DataStream {
 
     DataStream(DataStream &&other):
             buffer(std::move(other.buffer)),
-            offset(other.offset) {}
+            offset(other.offset) { other.offset = 0; }
 
     DataStream(const DataStream &other):
         buffer(other.buffer),
-- 
2.43.0


From 1d07bbab428983c0e031cebc8142ba259f32f21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:33 +0000
Subject: [PATCH 38/55] fix: take a reference from a weak handle atomically

---
 include/salticidae/ref.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/salticidae/ref.h b/include/salticidae/ref.h
index 54f54e5..98700ab 100644
--- a/include/salticidae/ref.h
+++ b/include/salticidae/ref.h
@@ -158,6 +158,8 @@ struct _RCCtl {
     size_t ref_cnt;
     size_t weak_cnt;
     void add_ref() { ref_cnt++; }
+    /** add a reference unless the last one is already gone */
+    bool try_add_ref() { return ref_cnt ? (ref_cnt++, true) : false; }
     void add_weak() { weak_cnt++; }
     bool release_ref() {
         if (--ref_cnt) return false;
@@ -180,6 +182,13 @@ struct _ARCCtl {
     std::atomic_size_t weak_cnt;
     std::atomic<std::uint8_t> dcnt;
     void add_ref() { ref_cnt++; }
+    /** add a reference unless the last one is already gone */
+    bool try_add_ref() {
+        size_t cnt = ref_cnt.load();
+        while (cnt)
+            if (ref_cnt.compare_exchange_weak(cnt, cnt + 1)) return true;
+        return false;
+    }
     void add_weak() { weak_cnt++; }
     bool release_ref() {
         dcnt++;
@@ -347,11 +356,10 @@ class _RcObjBase {
     }
 
     _RcObjBase(const _WeakObjBase<T, R> &other) {
-        if (other.ctl && other.ctl->ref_cnt)
+        if (other.ctl && other.ctl->try_add_ref())
         {
             obj = other.obj;
             ctl = other.ctl;
-            ctl->add_ref();
         }
         else
         {
-- 
2.43.0


From 38cd83d958867d40ac5dff22d210b481baf6c1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:33 +0000
Subject: [PATCH 39/55] fix: release the counters of a shared object when the
 last handles go concurrently

---
 include/salticidae/ref.h | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/include/salticidae/ref.h b/include/salticidae/ref.h
index 98700ab..ad7611a 100644
--- a/include/salticidae/ref.h
+++ b/include/salticidae/ref.h
@@ -179,8 +179,8 @@ struct _RCCtl {
 
 struct _ARCCtl {
     std::atomic_size_t ref_cnt;
+    /** number of weak handles, plus one while there are references */
     std::atomic_size_t weak_cnt;
-    std::atomic<std::uint8_t> dcnt;
     void add_ref() { ref_cnt++; }
     /** add a reference unless the last one is already gone */
     bool try_add_ref() {
@@ -191,20 +191,16 @@ struct _ARCCtl {
     }
     void add_weak() { weak_cnt++; }
     bool release_ref() {
-        dcnt++;
-        if (--ref_cnt) { dcnt--; return false; }
-        if (weak_cnt) { dcnt--; return true; }
-        if (!--dcnt) delete this;
+        if (--ref_cnt) return false;
+        release_weak();
         return true;
     }
     void release_weak() {
-        dcnt++;
-        if (--weak_cnt) { dcnt--; return; }
-        if (ref_cnt) { dcnt--; return; }
-        if (!--dcnt) delete this;
+        if (--weak_cnt) return;
+        delete this;
     }
     size_t get_cnt() { return ref_cnt.load(); }
-    _ARCCtl(): ref_cnt(1), weak_cnt(0), dcnt(0) {}
+    _ARCCtl(): ref_cnt(1), weak_cnt(1) {}
     ~_ARCCtl() {}
 };
 
-- 
2.43.0


From 18259ac4a304d92f170a6095fecfa14aa929b1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:01 +0000
Subject: [PATCH 40/55] fix: a moved-from shared handle no longer keeps the
 pointer to the object

---
 include/salticidae/ref.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/salticidae/ref.h b/include/salticidae/ref.h
index ad7611a..05e546c 100644
--- a/include/salticidae/ref.h
+++ b/include/salticidae/ref.h
@@ -224,6 +224,7 @@ class _WeakObjBase {
 
     _WeakObjBase(_WeakObjBase &&other):
             obj(other.obj), ctl(other.ctl) {
+        other.obj = nullptr;
         other.ctl = nullptr;
     }
 
@@ -313,6 +314,7 @@ class _RcObjBase {
 
     _RcObjBase(_RcObjBase &&other):
             obj(other.obj), ctl(other.ctl) {
+        other.obj = nullptr;
         other.ctl = nullptr;
     }
 
@@ -325,6 +327,7 @@ class _RcObjBase {
     template<typename T_, typename D_>
     _RcObjBase(_RcObjBase<T_, R, D_> &&other):
             obj(other.obj), ctl(other.ctl) {
+        other.obj = nullptr;
         other.ctl = nullptr;
     }
 
@@ -460,6 +463,7 @@ RcObjBase<T, R_, D> static_pointer_cast(RcObjBase<T_, R_, D_> &&other) {
     RcObjBase<T, R_, D> rc{};
     rc.obj = static_cast<typename RcObjBase<T, R_, D>::type *>(other.obj);
     rc.ctl = other.ctl;
+    other.obj = nullptr;
     other.ctl = nullptr;
     return rc;
 }
-- 
2.43.0


From 89d131b17c958c3930522b2d7bdb67932342478c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:01 +0000
Subject: [PATCH 41/55] fix: free the event handle when it cannot be
 initialised

---
 include/salticidae/event.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/salticidae/event.h b/include/salticidae/event.h
index 412780e..3e80c17 100644
--- a/include/salticidae/event.h
+++ b/include/salticidae/event.h
@@ -107,7 +107,10 @@ class FdEvent {
             ec(ec), fd(fd), ev_fd(new uv_poll_t()),
             callback(std::move(callback)) {
         if (uv_poll_init(ec.get(), ev_fd, fd) < 0)
+        {
+            delete ev_fd;
             throw SalticidaeError(SALTI_ERROR_LIBUV_INIT);
+        }
         ev_fd->data = this;
     }
 
@@ -190,7 +193,10 @@ class TimerEvent {
             ec(ec), ev_timer(new uv_timer_t()),
             callback(std::move(callback)) {
         if (uv_timer_init(ec.get(), ev_timer) < 0)
+        {
+            delete ev_timer;
             throw SalticidaeError(SALTI_ERROR_LIBUV_INIT);
+        }
         ev_timer->data = this;
     }
 
@@ -372,7 +378,10 @@ class SigEvent {
             ec(ec), ev_sig(new uv_signal_t()),
             callback(std::move(callback)) {
         if (uv_signal_init(ec.get(), ev_sig) < 0)
+        {
+            delete ev_sig;
             throw SalticidaeError(SALTI_ERROR_LIBUV_INIT);
+        }
         ev_sig->data = this;
     }
 
@@ -459,7 +468,10 @@ class CheckEvent {
             ec(ec), ev_check(new uv_check_t()),
             callback(std::move(callback)) {
         if (uv_check_init(ec.get(), ev_check) < 0)
+        {
+            delete ev_check;
             throw SalticidaeError(SALTI_ERROR_LIBUV_INIT);
+        }
         ev_check->data = this;
     }
 
-- 
2.43.0


From 803070f3e24408cb169e245068788f6ad3b4e3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:01 +0000
Subject: [PATCH 42/55] fix: detach a stale connection attempt from its peer
 before making the next one

---
 include/salticidae/network.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index d0c1062..721bfb8 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -988,7 +988,11 @@ void PeerNetwork<O, _, __>::start_active_conn(Peer *p) {
     conn->peer = p;
     conn->manual = false;
     if (p->outbound_conn)
+    {
+        /* the stale attempt no longer belongs to the peer */
+        p->outbound_conn->peer = nullptr;
         this->disp_terminate(p->outbound_conn);
+    }
     p->outbound_conn = conn;
     assert(pending_peers.count(conn->get_addr()) == 0);
 }
-- 
2.43.0


From 6cca49e75af814ce4349027cb51afbd11ba1abd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:01 +0000
Subject: [PATCH 43/55] fix: make no more connection attempts to a peer than
 asked for

---
 include/salticidae/network.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index 721bfb8..93b80ad 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -847,6 +847,9 @@ void PeerNetwork<O, _, __>::on_dispatcher_teardown(const ConnPool::conn_t &_conn
     if (p->state != Peer::State::DISCONNECTED)
     {
         assert(p->conn == conn);
+        /* failed attempts are counted when they are made */
+        if (p->state == Peer::State::CONNECTED && p->cur_ntry > 0)
+            p->cur_ntry--;
         p->state = Peer::State::DISCONNECTED;
         p->outbound_conn = nullptr;
         p->ev_ping_timer.del();
@@ -879,7 +882,6 @@ void PeerNetwork<O, _, __>::on_dispatcher_teardown(const ConnPool::conn_t &_conn
     });
     p->inbound_conn = nullptr;
     /* auto retry the connection */
-    if (p->cur_ntry > 0) p->cur_ntry--;
     if (p->cur_ntry)
     {
         p->nonce = 0;
@@ -1232,7 +1234,9 @@ int32_t PeerNetwork<O, _, __>::conn_peer(const PeerId &pid, int32_t ntry, double
                     [this, addr=p->addr, p=p.get()](TimerEvent &) {
                 try {
                     start_active_conn(p);
-                    p->ev_retry_timer.add(gen_rand_timeout(p->retry_delay));
+                    if (p->cur_ntry > 0) p->cur_ntry--;
+                    if (p->cur_ntry)
+                        p->ev_retry_timer.add(gen_rand_timeout(p->retry_delay));
                 } catch (...) { this->disp_error_cb(std::current_exception()); }
             });
 
-- 
2.43.0


From 6b0a5dc6bdfed1df9a039e35a1cecf232679f12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:01 +0000
Subject: [PATCH 44/55] fix: notice the loss of a peer connection that was
 initiated by the user

---
 include/salticidae/network.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index 93b80ad..6626bc6 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -951,6 +951,8 @@ void PeerNetwork<O, _, __>::finish_handshake(Peer *p) {
     }
     old_conn = new_conn;
     new_conn->peer = p;
+    /* it is not a temporary connection (any more) */
+    new_conn->manual = false;
     this->user_tcall->async_call([this, conn=p->conn](ThreadCall::Handle &) {
         if (peer_cb) peer_cb(conn, true);
     });
-- 
2.43.0


From 375d7cf6045c7b513ed337a3c248abb574e1864d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:04 +0000
Subject: [PATCH 45/55] fix: count a heartbeat reply only over the peer's
 connection

---
 include/salticidae/network.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index 6626bc6..e519d21 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -472,6 +472,7 @@ class PeerNetwork: public MsgNetwork<OpcodeType> {
             retry_delay(0), ntry(0), cur_ntry(0),
             ev_ping_timer(
                 TimerEvent(pn->disp_ec, std::bind(&Peer::ping_timer, this, _1))),
+            ping_timer_ok(false), pong_msg_ok(false),
             ping_period(pn->ping_period),
             inbound_preempt_ping(nullptr),
             state(DISCONNECTED) {}
@@ -1158,7 +1159,8 @@ void PeerNetwork<O, _, __>::pong_handler(MsgPong &&msg, const conn_t &conn) {
             else /* heartbeat pong */
             {
                 auto p = conn->peer;
-                if (!p)
+                /* the handshake may not have been finished */
+                if (!p || p->conn != conn)
                 {
                     SALTICIDAE_LOG_WARN("%s%s%s: unexpected pong mesage",
                         tty_secondary_color, id_hex.c_str(), tty_reset_color);
-- 
2.43.0


From 6fd5f44e63d2a917c3a050c532bce60ec3485ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:04 +0000
Subject: [PATCH 46/55] fix: do not take an attempt made for another peer

---
 include/salticidae/network.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index e519d21..469cb98 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -812,6 +812,11 @@ void PeerNetwork<O, _, __>::on_dispatcher_setup(const ConnPool::conn_t &_conn) {
             else
                 throw PeerNetworkError(SALTI_ERROR_PEER_NOT_MATCH);
         }
+        else if (conn->peer && conn->peer != it->second.get())
+        {
+            /* the attempt was made for another peer */
+            throw PeerNetworkError(SALTI_ERROR_PEER_NOT_MATCH);
+        }
         else
         {
             pinfo_slock_t _g(known_peers_lock);
@@ -1119,6 +1124,8 @@ void PeerNetwork<O, _, __>::pong_handler(MsgPong &&msg, const conn_t &conn) {
                     /* the record may have changed since the connection was
                      * made, or the connection was made by the user */
                     if (p->addr.is_null() || p->addr != conn->get_addr()) return;
+                    /* the attempt was made for another peer */
+                    if (conn->peer && conn->peer != p.get()) return;
                     if (p->state != Peer::State::DISCONNECTED ||
                         p->addr != msg.claimed_addr) return;
                     SALTICIDAE_LOG_DEBUG("%s%s%s: outbound handshake to %s%s%s",
-- 
2.43.0


From 8b3873db3073f7f9ee73b64b83c4fd5c25f42a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:04 +0000
Subject: [PATCH 47/55] fix: do not carry the rest of a message over to another
 connection

---
 include/salticidae/conn.h    | 4 +++-
 include/salticidae/network.h | 2 ++
 src/conn.cpp                 | 8 ++++++++
 3 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/include/salticidae/conn.h b/include/salticidae/conn.h
index 22a98a0..6348c1e 100644
--- a/include/salticidae/conn.h
+++ b/include/salticidae/conn.h
@@ -91,6 +91,8 @@ class ConnPool {
         FdEvent ev_socket;
         /** does not need to wait if true */
         bool ready_send;
+        /** the head of send_buffer is the rest of a partly sent segment */
+        bool partly_sent;
         bool ready_recv;
 
         typedef void (socket_io_func)(const conn_t &, int, int);
@@ -116,7 +118,7 @@ class ConnPool {
             worker(nullptr),
             cpool(nullptr),
             mode(ConnMode::PASSIVE),
-            ready_send(false), ready_recv(false),
+            ready_send(false), partly_sent(false), ready_recv(false),
             send_data_func(nullptr), recv_data_func(nullptr),
             tls(nullptr), peer_cert(nullptr) {}
         Conn(const Conn &) = delete;
diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index 469cb98..47ac0bf 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -947,6 +947,8 @@ void PeerNetwork<O, _, __>::finish_handshake(Peer *p) {
     {
         /* there is some previously terminated connection */
         assert(p->conn->is_terminated());
+        /* the rest of a message is of no use to another connection */
+        if (old_conn->partly_sent) old_conn->send_buffer.move_pop();
         for (;;)
         {
             bytearray_t buff_seg = old_conn->send_buffer.move_pop();
diff --git a/src/conn.cpp b/src/conn.cpp
index 26e82d0..6bad201 100644
--- a/src/conn.cpp
+++ b/src/conn.cpp
@@ -89,13 +89,17 @@ void ConnPool::Conn::_send_data(const conn_t &conn, int fd, int events) {
                 }
             }
             else
+            {
                 /* rewind the leftover */
                 conn->send_buffer.rewind(
                     bytearray_t(buff_seg.begin() + ret, buff_seg.end()));
+                conn->partly_sent = true;
+            }
             /* wait for the next write callback */
             conn->ready_send = false;
             return;
         }
+        conn->partly_sent = false;
     }
     /* the send_buffer is empty though the kernel buffer is still available, so
      * temporarily mask the WRITE event and mark the `ready_send` flag */
@@ -183,13 +187,17 @@ void ConnPool::Conn::_send_data_tls(const conn_t &conn, int fd, int events) {
                 }
             }
             else
+            {
                 /* rewind the leftover */
                 conn->send_buffer.rewind(
                     bytearray_t(buff_seg.begin() + ret, buff_seg.end()));
+                conn->partly_sent = true;
+            }
             /* wait for the next write callback */
             conn->ready_send = false;
             return;
         }
+        conn->partly_sent = false;
     }
     conn->ev_socket.del();
     conn->ev_socket.add(conn->ready_recv ? 0 : FdEvent::READ);
-- 
2.43.0


From 886ef6b420267c2406a28cd51101c548bbc265a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:01 +0000
Subject: [PATCH 48/55] fix: clear the OpenSSL error queue before each TLS
 operation

The queue belongs to the thread, and a worker serves many connections: an
error left behind by one of them made SSL_get_error() misjudge the outcome of
an operation on another and terminated that healthy connection.
---
 include/salticidae/crypto.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/salticidae/crypto.h b/include/salticidae/crypto.h
index 344ff65..f427430 100644
--- a/include/salticidae/crypto.h
+++ b/include/salticidae/crypto.h
@@ -31,6 +31,7 @@
 #ifdef __cplusplus
 #include <openssl/sha.h>
 #include <openssl/ssl.h>
+#include <openssl/err.h>
 #include <openssl/bn.h>
 
 namespace salticidae {
@@ -387,6 +388,7 @@ class TLS {
     bool do_handshake(int &want_io_type) {
         /* want_io_type: 0 for read, 1 for write */
         /* return true if handshake is completed */
+        ERR_clear_error();
         auto ret = SSL_do_handshake(ssl);
         if (ret == 1) return true;
         auto err = SSL_get_error(ssl, ret);
@@ -407,10 +409,12 @@ class TLS {
     }
 
     inline int send(const void *buff, size_t size) {
+        ERR_clear_error();
         return SSL_write(ssl, buff, size);
     }
 
     inline int recv(void *buff, size_t size) {
+        ERR_clear_error();
         return SSL_read(ssl, buff, size);
     }
 
-- 
2.43.0


From fc2d1ba4d5746cf4f04d85ff3ae6a41c83717fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:01 +0000
Subject: [PATCH 49/55] fix: free the TLS session if its construction fails

---
 include/salticidae/crypto.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/salticidae/crypto.h b/include/salticidae/crypto.h
index f427430..dbdb17b 100644
--- a/include/salticidae/crypto.h
+++ b/include/salticidae/crypto.h
@@ -372,7 +372,10 @@ class TLS {
         if (ssl == nullptr)
             throw std::runtime_error("TLS init error");
         if (!SSL_set_fd(ssl, fd))
+        {
+            SSL_free(ssl);
             throw SalticidaeError(SALTI_ERROR_TLS_GENERIC);
+        }
         if (accept)
             SSL_set_accept_state(ssl);
         else
-- 
2.43.0


From 97f5648c65bd3a4716c1ac7e57e32081c1cd3a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:01 +0000
Subject: [PATCH 50/55] fix: do not throw through OpenSSL when a PEM password
 is too long

---
 include/salticidae/crypto.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/salticidae/crypto.h b/include/salticidae/crypto.h
index dbdb17b..f20b97f 100644
--- a/include/salticidae/crypto.h
+++ b/include/salticidae/crypto.h
@@ -127,7 +127,7 @@ static inline int _tls_pem_no_passswd(char *, int, int, void *) {
 static inline int _tls_pem_with_passwd(char *buf, int size, int, void *) {
     size_t _size = strlen(_passwd) + 1;
     if (_size > (size_t)size)
-        throw SalticidaeError(SALTI_ERROR_TLS_X509);
+        return -1;
     memmove(buf, _passwd, _size);
     return _size - 1;
 }
-- 
2.43.0


From afe4c0bcc37078c16365870754b9e90e323c3458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:16 +0000
Subject: [PATCH 51/55] fix: do not let an exception out of the C functions
 that return a new object

---
 src/crypto.cpp  | 24 ++++++++++++++++++++----
 src/event.cpp   | 44 +++++++++++++++++++++++++++++++++++---------
 src/msg.cpp     | 12 ++++++++++--
 src/network.cpp | 24 ++++++++++++++++++++----
 4 files changed, 85 insertions(+), 19 deletions(-)

diff --git a/src/crypto.cpp b/src/crypto.cpp
index eb49ea4..b82b912 100644
--- a/src/crypto.cpp
+++ b/src/crypto.cpp
@@ -27,11 +27,19 @@ x509_t *x509_new_from_der(const bytearray_t *der, SalticidaeCError *cerror) {
 void x509_free(const x509_t *self) { delete self; }
 
 pkey_t *x509_get_pubkey(const x509_t *self) {
-    return new pkey_t(self->get_pubkey());
+    try {
+        return new pkey_t(self->get_pubkey());
+    } catch (...) {
+        return nullptr;
+    }
 }
 
 bytearray_t *x509_get_der(const x509_t *self) {
-    return new bytearray_t(self->get_der());
+    try {
+        return new bytearray_t(self->get_der());
+    } catch (...) {
+        return nullptr;
+    }
 }
 
 pkey_t *pkey_new_privkey_from_pem_file(const char *pem_fname, const char *passwd, SalticidaeCError *cerror) {
@@ -55,11 +63,19 @@ pkey_t *pkey_new_privkey_from_der(const bytearray_t *der, SalticidaeCError *cerr
 void pkey_free(const pkey_t *self) { delete self; }
 
 bytearray_t *pkey_get_pubkey_der(const pkey_t *self) {
-    return new bytearray_t(self->get_pubkey_der());
+    try {
+        return new bytearray_t(self->get_pubkey_der());
+    } catch (...) {
+        return nullptr;
+    }
 }
 
 bytearray_t *pkey_get_privkey_der(const pkey_t *self) {
-    return new bytearray_t(self->get_privkey_der());
+    try {
+        return new bytearray_t(self->get_privkey_der());
+    } catch (...) {
+        return nullptr;
+    }
 }
 
 }
diff --git a/src/event.cpp b/src/event.cpp
index 16a3c41..6b32c2c 100644
--- a/src/event.cpp
+++ b/src/event.cpp
@@ -8,7 +8,13 @@ const uint64_t salticidae::NotifyFd::dummy = 1;
 
 extern "C" {
 
-eventcontext_t *eventcontext_new() { return new eventcontext_t(); }
+eventcontext_t *eventcontext_new() {
+    try {
+        return new eventcontext_t();
+    } catch (...) {
+        return nullptr;
+    }
+}
 
 void eventcontext_free(eventcontext_t *self) { delete self; }
 
@@ -17,12 +23,22 @@ void eventcontext_dispatch(eventcontext_t *self) { return self->dispatch(); }
 void eventcontext_stop(eventcontext_t *self) { return self->stop(); }
 
 sigev_t *sigev_new(const eventcontext_t *self, sigev_callback_t callback, void *userdata) {
-    return new sigev_t(*self, [=](int signum) {
-        callback(signum, userdata);
-    });
+    try {
+        return new sigev_t(*self, [=](int signum) {
+            callback(signum, userdata);
+        });
+    } catch (...) {
+        return nullptr;
+    }
 }
 
-threadcall_t *threadcall_new(const eventcontext_t *ec) { return new threadcall_t(*ec); }
+threadcall_t *threadcall_new(const eventcontext_t *ec) {
+    try {
+        return new threadcall_t(*ec);
+    } catch (...) {
+        return nullptr;
+    }
+}
 
 void threadcall_free(threadcall_t *self) { delete self; }
 
@@ -49,9 +65,13 @@ const eventcontext_t *sigev_get_ec(const sigev_t *self) {
 }
 
 timerev_t *timerev_new(const eventcontext_t *ec, timerev_callback_t callback, void *userdata) {
-    return new timerev_t(*ec, [=](salticidae::TimerEvent &ev) {
-        callback(&ev, userdata);
-    });
+    try {
+        return new timerev_t(*ec, [=](salticidae::TimerEvent &ev) {
+            callback(&ev, userdata);
+        });
+    } catch (...) {
+        return nullptr;
+    }
 }
 
 void timerev_set_callback(timerev_t *self, timerev_callback_t callback, void *userdata) {
@@ -73,7 +93,13 @@ void timerev_del(timerev_t *self) { self->del(); }
 
 void timerev_clear(timerev_t *self) { self->clear(); }
 
-mpscqueue_t *mpscqueue_new() { return new mpscqueue_t(); }
+mpscqueue_t *mpscqueue_new() {
+    try {
+        return new mpscqueue_t();
+    } catch (...) {
+        return nullptr;
+    }
+}
 
 void mpscqueue_free(mpscqueue_t *self) { delete self; }
 
diff --git a/src/msg.cpp b/src/msg.cpp
index 7ad0629..dd5ff17 100644
--- a/src/msg.cpp
+++ b/src/msg.cpp
@@ -5,13 +5,21 @@
 extern "C" {
 
 msg_t *msg_new_moved_from_bytearray(_opcode_t opcode, bytearray_t *_moved_payload) {
-    return new msg_t(opcode, std::move(*_moved_payload));
+    try {
+        return new msg_t(opcode, std::move(*_moved_payload));
+    } catch (...) {
+        return nullptr;
+    }
 }
 
 void msg_free(msg_t *msg) { delete msg; }
 
 datastream_t *msg_consume_payload(const msg_t *msg) {
-    return new datastream_t(msg->get_payload());
+    try {
+        return new datastream_t(msg->get_payload());
+    } catch (...) {
+        return nullptr;
+    }
 }
 
 _opcode_t msg_get_opcode(const msg_t *self) { return self->get_opcode(); }
diff --git a/src/network.cpp b/src/network.cpp
index f888ff9..15957c2 100644
--- a/src/network.cpp
+++ b/src/network.cpp
@@ -179,19 +179,35 @@ bool msgnetwork_conn_is_terminated(const msgnetwork_conn_t *conn) {
 
 void peerid_free(const peerid_t *self) { delete self; }
 peerid_t *peerid_new_from_netaddr(const netaddr_t *addr) {
-    return new peerid_t(*addr);
+    try {
+        return new peerid_t(*addr);
+    } catch (...) {
+        return nullptr;
+    }
 }
 
 peerid_t *peerid_new_from_x509(const x509_t *cert) {
-    return new peerid_t(*cert);
+    try {
+        return new peerid_t(*cert);
+    } catch (...) {
+        return nullptr;
+    }
 }
 
 peerid_t *peerid_new_moved_from_uint256(uint256_t *_moved_rawid) {
-    return new peerid_t(std::move(*_moved_rawid));
+    try {
+        return new peerid_t(std::move(*_moved_rawid));
+    } catch (...) {
+        return nullptr;
+    }
 }
 
 peerid_t *peerid_new_copied_from_uint256(const uint256_t *rawid) {
-    return new peerid_t(*rawid);
+    try {
+        return new peerid_t(*rawid);
+    } catch (...) {
+        return nullptr;
+    }
 }
 
 peerid_array_t *peerid_array_new() { return new peerid_array_t(); }
-- 
2.43.0


From 716d3e72047988a9ff256979bcedf1f80eeecc77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:17 +0000
Subject: [PATCH 52/55] fix: use localtime_r for log messages, which are
 written by several threads

---
 src/util.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/util.cpp b/src/util.cpp
index 9395974..777c775 100644
--- a/src/util.cpp
+++ b/src/util.cpp
@@ -145,8 +145,9 @@ const std::string get_current_datetime() {
     char fmt[64], buf[64];
     struct timeval tv;
     gettimeofday(&tv, nullptr);
-    struct tm *tmp = localtime(&tv.tv_sec);
-    strftime(fmt, sizeof fmt, "%Y-%m-%d %H:%M:%S.%%06u", tmp);
+    struct tm tm;
+    localtime_r(&tv.tv_sec, &tm);
+    strftime(fmt, sizeof fmt, "%Y-%m-%d %H:%M:%S.%%06u", &tm);
     snprintf(buf, sizeof buf, fmt, tv.tv_usec);
     return std::string(buf);
 }
-- 
2.43.0


From 845b8c313d63c3e45ad34c0ad1186cf425dbf659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:17 +0000
Subject: [PATCH 53/55] fix: resolve addresses with getaddrinfo, as
 gethostbyname is not thread-safe

---
 include/salticidae/netaddr.h | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/salticidae/netaddr.h b/include/salticidae/netaddr.h
index 669ff27..f448575 100644
--- a/include/salticidae/netaddr.h
+++ b/include/salticidae/netaddr.h
@@ -51,10 +51,15 @@ struct NetAddr {
     }
     
     void set_by_ip_port(const std::string &_addr, uint16_t _port) {
-        struct hostent *h;
-        if ((h = gethostbyname(_addr.c_str())) == nullptr)
-            throw SalticidaeError(SALTI_ERROR_NETADDR_INVALID, errno);
-        memmove(&ip, h->h_addr_list[0], sizeof(in_addr_t));
+        struct addrinfo hints, *res;
+        memset(&hints, 0, sizeof hints);
+        hints.ai_family = AF_INET;
+        hints.ai_socktype = SOCK_STREAM;
+        int ret = getaddrinfo(_addr.c_str(), nullptr, &hints, &res);
+        if (ret != 0)
+            throw SalticidaeError(SALTI_ERROR_NETADDR_INVALID, ret == EAI_SYSTEM ? errno : 0);
+        ip = ((struct sockaddr_in *)res->ai_addr)->sin_addr.s_addr;
+        freeaddrinfo(res);
         port = htons(_port);
     }
     
-- 
2.43.0


From e13661c140f0457a5828f445a915e2155aee2fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:06 +0000
Subject: [PATCH 54/55] fix: refuse an address whose port is followed by other
 characters

---
 include/salticidae/netaddr.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/salticidae/netaddr.h b/include/salticidae/netaddr.h
index f448575..a0447c0 100644
--- a/include/salticidae/netaddr.h
+++ b/include/salticidae/netaddr.h
@@ -70,12 +70,13 @@ struct NetAddr {
         std::string ip_str = ip_port_addr.substr(0, pos);
         std::string port_str = ip_port_addr.substr(pos + 1);
         long port;
+        size_t idx;
         try {
-            port = std::stol(port_str.c_str());
+            port = std::stol(port_str, &idx);
         } catch (std::logic_error &) {
             throw SalticidaeError(SALTI_ERROR_NETADDR_INVALID);
         }
-        if (port < 0)
+        if (idx != port_str.length() || port < 0)
             throw SalticidaeError(SALTI_ERROR_NETADDR_INVALID);
         if (port > 0xffff)
             throw SalticidaeError(SALTI_ERROR_NETADDR_INVALID);
-- 
2.43.0


From ebde9bd225a5b7f8a18b9033810667c974782c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:06 +0000
Subject: [PATCH 55/55] fix: refuse an option value of which only the beginning
 is a number

---
 include/salticidae/util.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/salticidae/util.h b/include/salticidae/util.h
index 7af290a..7eee1b2 100644
--- a/include/salticidae/util.h
+++ b/include/salticidae/util.h
@@ -317,7 +317,10 @@ class Config {
         void set_val(const std::string &strval) override {
             size_t idx;
             try {
-                val = stoi(strval, &idx);
+                int newval = stoi(strval, &idx);
+                if (idx != strval.length())
+                    throw SalticidaeError(SALTI_ERROR_OPTVAL_INVALID);
+                val = newval;
             } catch (std::invalid_argument &) {
                 throw SalticidaeError(SALTI_ERROR_OPTVAL_INVALID);
             } catch (std::out_of_range &) {
@@ -339,7 +342,10 @@ class Config {
         void set_val(const std::string &strval) override {
             size_t idx;
             try {
-                val = stod(strval, &idx);
+                double newval = stod(strval, &idx);
+                if (idx != strval.length())
+                    throw SalticidaeError(SALTI_ERROR_OPTVAL_INVALID);
+                val = newval;
             } catch (std::invalid_argument &) {
                 throw SalticidaeError(SALTI_ERROR_OPTVAL_INVALID);
             } catch (std::out_of_range &) {
-- 
2.43.0

