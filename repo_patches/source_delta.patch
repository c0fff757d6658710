From fa972f8f9ed2ea3ee3e5cc20149b38846d0f8d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:04 +0000
Subject: [PATCH 01/28] fix: count one round-robin attempt per backend
 attempted

The session asks the ConnectionManager for the candidate of an attempt more
than once (when connecting and when checking for SEND-PROXY and TLS), and
each query advanced the partition's marker. The farm position therefore moved
by three per connection and a three member farm always used the same backend.
Remember the candidate handed out for the current attempt.
---
 libamqpprox/amqpprox_connectionmanager.cpp | 10 ++++++++--
 libamqpprox/amqpprox_connectionmanager.h   |  9 ++++++++-
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/libamqpprox/amqpprox_connectionmanager.cpp b/libamqpprox/amqpprox_connectionmanager.cpp
index 1fa0892..2c8c545 100644
--- a/libamqpprox/amqpprox_connectionmanager.cpp
+++ b/libamqpprox/amqpprox_connectionmanager.cpp
@@ -32,14 +32,20 @@ ConnectionManager::ConnectionManager(std::shared_ptr<BackendSet> backendSet,
 : d_backendSet(std::move(backendSet))
 , d_markerSnapshot(d_backendSet->markers())
 , d_backendSelector_p(backendSelector)
+, d_current()
 {
 }
 
 const Backend *ConnectionManager::getConnection(uint64_t retryCount) const
 {
     if (d_backendSelector_p) {
-        return d_backendSelector_p->select(
-            d_backendSet.get(), d_markerSnapshot, retryCount);
+        if (!d_current || d_current->first != retryCount) {
+            d_current = std::make_pair(
+                retryCount,
+                d_backendSelector_p->select(
+                    d_backendSet.get(), d_markerSnapshot, retryCount));
+        }
+        return d_current->second;
     }
     else {
         // The ConnectionManager must handle the special case where a vhost has
diff --git a/libamqpprox/amqpprox_connectionmanager.h b/libamqpprox/amqpprox_connectionmanager.h
index 8ee315b..229088e 100644
--- a/libamqpprox/amqpprox_connectionmanager.h
+++ b/libamqpprox/amqpprox_connectionmanager.h
@@ -20,6 +20,8 @@
 
 #include <cstdint>
 #include <memory>
+#include <optional>
+#include <utility>
 #include <vector>
 
 namespace Bloomberg {
@@ -53,6 +55,10 @@ class ConnectionManager {
     std::vector<BackendSet::Marker> d_markerSnapshot;
     BackendSelector                *d_backendSelector_p;  // HELD NOT OWNED
 
+    // The candidate most recently handed out, so that asking again about the
+    // same attempt is not recorded as a further attempt on the partition
+    mutable std::optional<std::pair<uint64_t, const Backend *>> d_current;
+
   public:
     // CREATORS
     /**
@@ -96,7 +102,8 @@ class ConnectionManager {
      * defined by the `BackendSet` backing this instance. The order in which
      * the candidates will be returned is defined by the `BackendSelector` and
      * `Marker` snapshot. If there are no valid `Backend` instances to connect
-     * to, this method will return `nullptr`.
+     * to, this method will return `nullptr`. Consecutive calls with the same
+     * `retryCount` return the same candidate and count as one attempt.
      */
     const Backend *getConnection(uint64_t retryCount) const;
 };
-- 
2.43.0


From 9ea1142a4714a199cc81381c352ef6cd9b342111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:19 +0000
Subject: [PATCH 02/28] fix: keep farms consistent when a member backend is
 deleted or re-added

BACKEND DELETE freed a Backend that farms and connecting sessions still point
to, new connections kept using it, and the next repartitioning dereferenced
the failed lookup. Removed backends are now kept alive, farms skip members
that do not exist and are repartitioned when a backend is added or deleted.
---
 amqpprox/amqpprox.m.cpp                        |  2 +-
 libamqpprox/amqpprox_backendcontrolcommand.cpp | 11 ++++++++++-
 libamqpprox/amqpprox_backendcontrolcommand.h   |  6 ++++--
 libamqpprox/amqpprox_backendstore.cpp          |  3 ++-
 libamqpprox/amqpprox_backendstore.h            | 11 +++++++++--
 libamqpprox/amqpprox_farm.cpp                  |  5 ++++-
 6 files changed, 30 insertions(+), 8 deletions(-)

diff --git a/amqpprox/amqpprox.m.cpp b/amqpprox/amqpprox.m.cpp
index 2a114d6..8b692b2 100644
--- a/amqpprox/amqpprox.m.cpp
+++ b/amqpprox/amqpprox.m.cpp
@@ -233,7 +233,7 @@ int main(int argc, char *argv[])
                                           &backendStore,
                                           &backendSelectorStore,
                                           &partitionPolicyStore)),
-        CommandPtr(new BackendControlCommand(&backendStore)),
+        CommandPtr(new BackendControlCommand(&backendStore, &farmStore)),
         CommandPtr(
             new MapControlCommand(&resourceMapper, &connectionSelector)),
         CommandPtr(new VhostControlCommand(&vhostState)),
diff --git a/libamqpprox/amqpprox_backendcontrolcommand.cpp b/libamqpprox/amqpprox_backendcontrolcommand.cpp
index ecec1d9..356920f 100644
--- a/libamqpprox/amqpprox_backendcontrolcommand.cpp
+++ b/libamqpprox/amqpprox_backendcontrolcommand.cpp
@@ -18,6 +18,7 @@
 #include <amqpprox_backendstore.h>
 #include <amqpprox_constants.h>
 #include <amqpprox_control.h>
+#include <amqpprox_farmstore.h>
 
 #include <sstream>
 #include <string>
@@ -28,8 +29,10 @@
 namespace Bloomberg {
 namespace amqpprox {
 
-BackendControlCommand::BackendControlCommand(BackendStore *store)
+BackendControlCommand::BackendControlCommand(BackendStore *store,
+                                             FarmStore    *farmStore)
 : d_store_p(store)
+, d_farmStore_p(farmStore)
 {
 }
 
@@ -110,6 +113,9 @@ void BackendControlCommand::handleCommand(const std::string & /* command */,
                        << "', error code: " << rc;
                 return;
             }
+
+            // Farms may already name this backend as a member
+            d_farmStore_p->repartitionAll();
         }
         else {
             output << "Arguments not correctly provided";
@@ -126,7 +132,10 @@ void BackendControlCommand::handleCommand(const std::string & /* command */,
             if (rc) {
                 output << "Delete failed to remove '" << name << "', rcode "
                        << rc;
+                return;
             }
+
+            d_farmStore_p->repartitionAll();
         }
     }
     else if (subcommand == "PRINT") {
diff --git a/libamqpprox/amqpprox_backendcontrolcommand.h b/libamqpprox/amqpprox_backendcontrolcommand.h
index f07654c..3c5086f 100644
--- a/libamqpprox/amqpprox_backendcontrolcommand.h
+++ b/libamqpprox/amqpprox_backendcontrolcommand.h
@@ -22,15 +22,17 @@ namespace Bloomberg {
 namespace amqpprox {
 
 class BackendStore;
+class FarmStore;
 
 /**
  * \brief Represents a backend control command
  */
 class BackendControlCommand : public ControlCommand {
-    BackendStore *d_store_p;  // HELD NOT OWNED
+    BackendStore *d_store_p;      // HELD NOT OWNED
+    FarmStore    *d_farmStore_p;  // HELD NOT OWNED
 
   public:
-    explicit BackendControlCommand(BackendStore *store);
+    BackendControlCommand(BackendStore *store, FarmStore *farmStore);
 
     /**
      * \return Command verb this handles
diff --git a/libamqpprox/amqpprox_backendstore.cpp b/libamqpprox/amqpprox_backendstore.cpp
index 55bce56..3449cdf 100644
--- a/libamqpprox/amqpprox_backendstore.cpp
+++ b/libamqpprox/amqpprox_backendstore.cpp
@@ -22,6 +22,7 @@ namespace amqpprox {
 
 BackendStore::BackendStore()
 : d_backends()
+, d_removed()
 {
 }
 
@@ -48,7 +49,7 @@ int BackendStore::remove(const std::string &name)
 
     std::lock_guard<std::mutex> lg(d_mutex);
     auto addrKey = std::make_pair(backend->ip(), backend->port());
-    d_backends.erase(name);
+    d_removed.push_back(d_backends.extract(name));
     return 0;
 }
 
diff --git a/libamqpprox/amqpprox_backendstore.h b/libamqpprox/amqpprox_backendstore.h
index 071a468..31d53dd 100644
--- a/libamqpprox/amqpprox_backendstore.h
+++ b/libamqpprox/amqpprox_backendstore.h
@@ -22,6 +22,7 @@
 #include <map>
 #include <mutex>
 #include <unordered_map>
+#include <vector>
 
 namespace Bloomberg {
 namespace amqpprox {
@@ -30,8 +31,14 @@ namespace amqpprox {
  * \brief Represents Backend store
  */
 class BackendStore {
-    std::unordered_map<std::string, Backend> d_backends;
-    mutable std::mutex                       d_mutex;
+    using Backends = std::unordered_map<std::string, Backend>;
+
+    Backends d_backends;
+
+    // Farms and connecting sessions hold pointers to backends, so the removed
+    // ones are kept alive
+    std::vector<Backends::node_type> d_removed;
+    mutable std::mutex               d_mutex;
 
   public:
     BackendStore();
diff --git a/libamqpprox/amqpprox_farm.cpp b/libamqpprox/amqpprox_farm.cpp
index 2ddf61a..09f83fb 100644
--- a/libamqpprox/amqpprox_farm.cpp
+++ b/libamqpprox/amqpprox_farm.cpp
@@ -86,7 +86,10 @@ void Farm::doRepartitionWhileLocked(std::lock_guard<std::mutex> & /* guard */)
 
     // Create the initial partition
     for (const auto &member : d_backendMembers) {
-        initialPartition.push_back(d_backendStore_p->lookup(member));
+        auto backend = d_backendStore_p->lookup(member);
+        if (backend) {
+            initialPartition.push_back(backend);
+        }
     }
 
     auto newSet = std::make_shared<BackendSet>(std::move(partitions));
-- 
2.43.0


From a2fbe332b68661f9e1e57bea11335e5d82032bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:19 +0000
Subject: [PATCH 03/28] fix: do not terminate when a port cannot be listened on

A failing bind or listen threw out of the io_context's run loop and ended the
whole proxy. Report the failure and keep serving the other listeners.
---
 libamqpprox/amqpprox_server.cpp | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/libamqpprox/amqpprox_server.cpp b/libamqpprox/amqpprox_server.cpp
index 5b297df..35a5348 100644
--- a/libamqpprox/amqpprox_server.cpp
+++ b/libamqpprox/amqpprox_server.cpp
@@ -140,10 +140,23 @@ void Server::startListening(int port, bool secure)
 
             boost::asio::ip::tcp::acceptor acceptor(d_ioContext);
             tcp::endpoint                  local_endpoint(tcp::v4(), port);
-            acceptor.open(local_endpoint.protocol());
-            acceptor.set_option(boost::asio::socket_base::reuse_address(true));
-            acceptor.bind(local_endpoint);
-            acceptor.listen(boost::asio::socket_base::max_connections);
+            error_code                     ec;
+            acceptor.open(local_endpoint.protocol(), ec);
+            if (!ec) {
+                acceptor.set_option(
+                    boost::asio::socket_base::reuse_address(true), ec);
+            }
+            if (!ec) {
+                acceptor.bind(local_endpoint, ec);
+            }
+            if (!ec) {
+                acceptor.listen(boost::asio::socket_base::max_connections, ec);
+            }
+            if (ec) {
+                LOG_ERROR << "Failed to listen on port: " << port
+                          << ", reason: " << ec.message();
+                return;
+            }
             d_listeningSockets.emplace(port, std::move(acceptor));
         }
 
-- 
2.43.0


From c4eec116d0ac6c255f27ea20fcd6110433c9a493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:19 +0000
Subject: [PATCH 04/28] fix: a stopped listener must not accept on its
 successor's socket

The aborted accept of a stopped listener looked up the port again and, if it
was restarted meanwhile, accepted on the new socket with the old secure flag,
so a secure port could serve plain AMQP or the reverse.
---
 libamqpprox/amqpprox_server.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libamqpprox/amqpprox_server.cpp b/libamqpprox/amqpprox_server.cpp
index 35a5348..6983d6c 100644
--- a/libamqpprox/amqpprox_server.cpp
+++ b/libamqpprox/amqpprox_server.cpp
@@ -247,6 +247,11 @@ void Server::doAccept(int port, bool secure)
                 d_eventSource_p->connectionReceived().emit(
                     session->state().id());
             }
+            else if (ec == boost::asio::error::operation_aborted) {
+                // This acceptor was closed. The port may be listening again
+                // by now, with another acceptor that runs its own accept.
+                return;
+            }
             else {
                 LOG_ERROR << "Accept failed, reason: " << ec.message();
                 // When the accept fails, we still fall through to try the
-- 
2.43.0


From 8d3fc73d4a82bf8015dd9482fa63da7daa4f65eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:19 +0000
Subject: [PATCH 05/28] fix: do not read past the end of a truncated field
 value

Fixed size field values were copied out of the buffer without checking that
their bytes are there.
---
 libamqpprox/amqpprox_types.cpp | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/libamqpprox/amqpprox_types.cpp b/libamqpprox/amqpprox_types.cpp
index e0252b5..8b2cb2d 100644
--- a/libamqpprox/amqpprox_types.cpp
+++ b/libamqpprox/amqpprox_types.cpp
@@ -59,6 +59,29 @@ bool decodeString(std::string *string, Buffer &buffer)
     return true;
 }
 
+std::size_t fixedSize(char type)
+{
+    switch (type) {
+    case 't':
+    case 'b':
+    case 'B':
+        return 1;
+    case 'U':
+    case 's':
+    case 'u':
+        return 2;
+    case 'I':
+    case 'i':
+        return 4;
+    case 'l':
+    case 'L':
+    case 'T':
+        return 8;
+    default:
+        return 0;  // no data, or a decoder that checks for itself
+    }
+}
+
 }
 
 using namespace boost::endian;
@@ -133,7 +156,15 @@ bool Types::decodeFieldValue(FieldValue *outValue, Buffer &buffer)
 {
     assert(outValue != nullptr);
 
+    if (buffer.available() < sizeof(char)) {
+        return false;
+    }
+
     char type = buffer.copy<char>();
+    if (buffer.available() < fixedSize(type)) {
+        return false;
+    }
+
     switch (type) {
     case 't':  // boolean
     {
-- 
2.43.0


From 3f8531803fdeefa0f535d250f0f5a9f2a5f9bcbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:46 +0000
Subject: [PATCH 06/28] fix: limit the nesting of decoded field tables and
 arrays

A Start-Ok of one frame could nest some 25000 tables, and decoding it
recursively overflowed the stack and ended the proxy.
---
 libamqpprox/amqpprox_types.cpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/libamqpprox/amqpprox_types.cpp b/libamqpprox/amqpprox_types.cpp
index 8b2cb2d..cf369dc 100644
--- a/libamqpprox/amqpprox_types.cpp
+++ b/libamqpprox/amqpprox_types.cpp
@@ -39,6 +39,21 @@ const int FLOAT_OCTETS   = 4;
 const int DOUBLE_OCTETS  = 8;
 const int DECIMAL_OCTETS = 5;
 
+// Tables and arrays are decoded recursively, so their nesting is limited
+const int MAX_NESTING = 100;
+
+class NestingGuard {
+    static thread_local int s_nesting;
+
+  public:
+    NestingGuard() { ++s_nesting; }
+    ~NestingGuard() { --s_nesting; }
+
+    bool tooDeep() const { return s_nesting > MAX_NESTING; }
+};
+
+thread_local int NestingGuard::s_nesting = 0;
+
 template <typename T>
 bool decodeString(std::string *string, Buffer &buffer)
 {
@@ -156,7 +171,8 @@ bool Types::decodeFieldValue(FieldValue *outValue, Buffer &buffer)
 {
     assert(outValue != nullptr);
 
-    if (buffer.available() < sizeof(char)) {
+    NestingGuard nesting;
+    if (nesting.tooDeep() || buffer.available() < sizeof(char)) {
         return false;
     }
 
-- 
2.43.0


From 1f73d5ced20f4f375fcaed74a6d4df4ba823533b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:46 +0000
Subject: [PATCH 07/28] fix: ignore handshake method frames without a method

The result of decoding the class and method of a frame was ignored, so for a
payload of fewer than four bytes uninitialised values were used.
---
 libamqpprox/amqpprox_packetprocessor.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libamqpprox/amqpprox_packetprocessor.cpp b/libamqpprox/amqpprox_packetprocessor.cpp
index 59959f8..f13e186 100644
--- a/libamqpprox/amqpprox_packetprocessor.cpp
+++ b/libamqpprox/amqpprox_packetprocessor.cpp
@@ -87,7 +87,11 @@ void PacketProcessor::process(FlowType direction, const Buffer &readBuffer)
 
         if (1 == frame.type && d_connector.state() != Connector::State::OPEN) {
             Method method;
-            Method::decode(&method, frame.payload, frame.length);
+            if (!Method::decode(&method, frame.payload, frame.length)) {
+                LOG_WARN << "Ignoring frame without a method from "
+                         << direction;
+                continue;
+            }
 
             LOG_TRACE << ((direction == FlowType::INGRESS) ? "->" : "<-")
                       << " Frame: TYPE=" << (int)frame.type
-- 
2.43.0


From e730159f0155bc289560604c10d6f5629ce64396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:46 +0000
Subject: [PATCH 08/28] fix: send the Close even if its text exceeds a short
 string

With a long virtual host name the refusal text passes 255 bytes, encoding
the Close failed and the client was disconnected without being told why.
---
 libamqpprox/amqpprox_connector.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libamqpprox/amqpprox_connector.cpp b/libamqpprox/amqpprox_connector.cpp
index 61e0111..86944a7 100644
--- a/libamqpprox/amqpprox_connector.cpp
+++ b/libamqpprox/amqpprox_connector.cpp
@@ -424,6 +424,8 @@ void Connector::synthesizeMessage(methods::Close  &replyMethod,
                                   uint16_t         methodId)
 {
     d_buffer = Buffer();  // forget inbound buffer
+    // The reply text is a short string
+    text = text.substr(0, Constants::shortStringLimit());
     replyMethod.setReply(code, std::string(text), classId, methodId);
     sendResponse(replyMethod, sendToIngressSide);
 }
-- 
2.43.0


From 16a18285640efface082f099244da9ae13ce1c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:46 +0000
Subject: [PATCH 09/28] fix: pass on the broker's Close in answer to Open

A broker that refuses the Open (no such vhost, access refused) answers with
Close, which was ignored in this state, so the client was left without an
answer or disconnected without the reason.
---
 libamqpprox/amqpprox_connector.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libamqpprox/amqpprox_connector.cpp b/libamqpprox/amqpprox_connector.cpp
index 86944a7..3d68d9f 100644
--- a/libamqpprox/amqpprox_connector.cpp
+++ b/libamqpprox/amqpprox_connector.cpp
@@ -239,6 +239,11 @@ void Connector::receive(const Method &method, FlowType direction)
                 d_connectionReadyHandler();
             }
         }
+        else if (direction == FlowType::EGRESS &&
+                 method.methodType == methods::Close::methodType()) {
+            // Expecting OpenOk, this reports the broker's refusal
+            decodeMethod(&d_openOk, method, methodPayload, direction);
+        }
     } break;
     case State::CLIENT_CLOSE_SENT: {
         if (direction == FlowType::INGRESS &&
-- 
2.43.0


From 9e413f67990a88065810829343ce38e55624e8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:46 +0000
Subject: [PATCH 10/28] fix: deny clients when the auth service answers with an
 HTTP error

The status was not looked at, and an empty body parses as ALLOW, so a failing
auth service (500, 404, 503, ...) let every client in.
---
 libamqpprox/amqpprox_httpauthintercept.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/libamqpprox/amqpprox_httpauthintercept.cpp b/libamqpprox/amqpprox_httpauthintercept.cpp
index eb192fa..6fb6f2a 100644
--- a/libamqpprox/amqpprox_httpauthintercept.cpp
+++ b/libamqpprox/amqpprox_httpauthintercept.cpp
@@ -233,6 +233,18 @@ void HttpAuthIntercept::onRead(
         return;
     }
 
+    if (response->result() != beast::http::status::ok) {
+        const std::string errorMsg =
+            "Received http status " + std::to_string(response->result_int()) +
+            " from auth service.";
+        LOG_ERROR << errorMsg;
+        authproto::AuthResponse errorResponseData;
+        errorResponseData.set_result(authproto::AuthResponse::DENY);
+        errorResponseData.set_reason(errorMsg);
+        responseCb(errorResponseData);
+        return;
+    }
+
     authproto::AuthResponse authResponseData;
     if (!authResponseData.ParseFromString(response->body())) {
         const std::string errorMsg = "Unable to deserialize auth response "
-- 
2.43.0


From 2f426b3001e9fddf011c8bc90ae2a2f994427852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:46 +0000
Subject: [PATCH 11/28] fix: do not pause a session that is gone already

The session may have been removed by the time its vhost is established.
---
 libamqpprox/amqpprox_vhostestablishedpauser.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libamqpprox/amqpprox_vhostestablishedpauser.cpp b/libamqpprox/amqpprox_vhostestablishedpauser.cpp
index 7daf9d2..974680f 100644
--- a/libamqpprox/amqpprox_vhostestablishedpauser.cpp
+++ b/libamqpprox/amqpprox_vhostestablishedpauser.cpp
@@ -32,7 +32,9 @@ EventSubscriptionHandle vhostEstablishedPauser(EventSource *eventSource,
         [=](uint64_t id, const std::string &vhost) {
             if (vhostState->isPaused(vhost)) {
                 auto session = server->getSession(id);
-                session->pause();
+                if (session) {
+                    session->pause();
+                }
             }
         });
 }
-- 
2.43.0


From fdbcf74a0c3edda20f899600679f2214941675d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:01 +0000
Subject: [PATCH 12/28] fix: resume a session that received data while it was
 held

Data arriving while a session waits for its vhost to be unpaused was read but
neither handled nor followed by another read, so the session went on to
connect to a broker and then ignored its client for ever. Handle the held
data on unpausing. Unpausing also ran on the control thread, concurrently
with the session's own handlers; run it on the io_context.
---
 libamqpprox/amqpprox_session.cpp | 16 ++++++++++++++++
 libamqpprox/amqpprox_session.h   |  6 ++++++
 2 files changed, 22 insertions(+)

diff --git a/libamqpprox/amqpprox_session.cpp b/libamqpprox/amqpprox_session.cpp
index 9dca7b4..805053f 100644
--- a/libamqpprox/amqpprox_session.cpp
+++ b/libamqpprox/amqpprox_session.cpp
@@ -154,6 +154,7 @@ Session::Session(
 , d_egressWaitingSince()
 , d_egressRetryCounter(0)
 , d_ingressCurrentlyReading(false)
+, d_ingressHeld(false)
 , d_ingressStartedAt()
 , d_egressCurrentlyReading(false)
 , d_egressStartedAt()
@@ -598,6 +599,13 @@ void Session::pause()
 }
 
 void Session::unpause()
+{
+    // Called from the control socket thread
+    auto self(shared_from_this());
+    d_ioContext.dispatch([this, self] { doUnpause(); });
+}
+
+void Session::doUnpause()
 {
     if (d_sessionState.getPaused()) {
         if (d_sessionState.getReadyToConnectOnUnpause()) {
@@ -614,6 +622,11 @@ void Session::unpause()
             d_sessionState.setReadyToConnectOnUnpause(false);
             d_sessionState.setPaused(false);
             establishConnection();
+
+            if (d_ingressHeld) {
+                d_ingressHeld = false;
+                handleData(FlowType::INGRESS);
+            }
         }
         else {
             this->disconnect(true);
@@ -825,6 +838,9 @@ void Session::readData(FlowType direction)
                     !d_sessionState.getPaused()) {
                     handleData(direction);
                 }
+                else {
+                    d_ingressHeld = true;
+                }
             }
             else if (ec == boost::asio::error::would_block) {
                 readData(direction);
diff --git a/libamqpprox/amqpprox_session.h b/libamqpprox/amqpprox_session.h
index 545a9b0..4cd2d64 100644
--- a/libamqpprox/amqpprox_session.h
+++ b/libamqpprox/amqpprox_session.h
@@ -80,6 +80,7 @@ class Session : public std::enable_shared_from_this<Session> {
     TimePoint                    d_egressWaitingSince;
     uint32_t                     d_egressRetryCounter;
     bool                         d_ingressCurrentlyReading;
+    bool                         d_ingressHeld;  // data read while paused
     TimePoint                    d_ingressStartedAt;
     bool                         d_egressCurrentlyReading;
     TimePoint                    d_egressStartedAt;
@@ -264,6 +265,11 @@ class Session : public std::enable_shared_from_this<Session> {
         boost::system::error_code                 ec,
         const std::shared_ptr<ConnectionManager> &connectionManager);
 
+    /**
+     * \brief Unpause from within the `io_context`
+     */
+    void doUnpause();
+
     /**
      * \brief Disconnect both sockets forcibly
      */
-- 
2.43.0


From be9fdbd5500b5e1b5cf711b02d4ab81776897e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:55 +0000
Subject: [PATCH 13/28] fix: do not let clients forge the amqpprox_client and
 amqpprox_host fields

A client sending these properties itself made the broker see them twice, its
own values first. Replace them instead.
---
 libamqpprox/amqpprox_connectorutil.cpp |  8 ++++----
 libamqpprox/amqpprox_fieldtable.h      | 20 ++++++++++++++++++++
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/libamqpprox/amqpprox_connectorutil.cpp b/libamqpprox/amqpprox_connectorutil.cpp
index 6cc04dc..da91e14 100644
--- a/libamqpprox/amqpprox_connectorutil.cpp
+++ b/libamqpprox/amqpprox_connectorutil.cpp
@@ -91,15 +91,15 @@ void ConnectorUtil::injectProxyClientIdent(methods::StartOk  *startOk,
     if (isIngressSecured) {
         remoteClient << " TLS";
     }
-    startOk->properties().pushField("amqpprox_client",
-                                    FieldValue('S', remoteClient.str()));
+    startOk->properties().setField("amqpprox_client",
+                                   FieldValue('S', remoteClient.str()));
 
     // E.g. (:5672) hostname:37812
     std::stringstream proxyInfo;
     proxyInfo << "(:" << inboundListenPort << ") " << localHostname << ":"
               << outboundLocalPort;
-    startOk->properties().pushField("amqpprox_host",
-                                    FieldValue('S', proxyInfo.str()));
+    startOk->properties().setField("amqpprox_host",
+                                   FieldValue('S', proxyInfo.str()));
 }
 
 }
diff --git a/libamqpprox/amqpprox_fieldtable.h b/libamqpprox/amqpprox_fieldtable.h
index 4543fc7..6f5d267 100644
--- a/libamqpprox/amqpprox_fieldtable.h
+++ b/libamqpprox/amqpprox_fieldtable.h
@@ -18,6 +18,7 @@
 
 #include <amqpprox_fieldvalue.h>
 
+#include <algorithm>
 #include <iosfwd>
 #include <string>
 #include <vector>
@@ -41,6 +42,13 @@ class FieldTable {
      */
     void pushField(const std::string &name, const FieldValue &value);
 
+    /**
+     * \brief add a field to the table in place of any of the same name
+     * \param name the name of the field
+     * \param value the Field
+     */
+    void setField(const std::string &name, const FieldValue &value);
+
     /**
      * \brief resets the Field table to an empty state
      */
@@ -103,6 +111,18 @@ inline void FieldTable::pushField(const std::string &name,
     d_fields.emplace_back(std::make_pair(name, value));
 }
 
+inline void FieldTable::setField(const std::string &name,
+                                 const FieldValue  &value)
+{
+    d_fields.erase(std::remove_if(d_fields.begin(),
+                                  d_fields.end(),
+                                  [&name](const auto &field) {
+                                      return field.first == name;
+                                  }),
+                   d_fields.end());
+    pushField(name, value);
+}
+
 inline void FieldTable::reset()
 {
     d_fields.clear();
-- 
2.43.0


From b996bceca6144c05122a49eba8ec65b1bfa44353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:15 +0000
Subject: [PATCH 14/28] fix: use a fresh socket for each backend connection
 attempt

After a failed attempt the same socket was used for the next endpoint, where
connect() fails at once (ECONNABORTED on Linux) without being tried, so every
second backend of a farm was skipped during failover.
---
 libamqpprox/amqpprox_session.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libamqpprox/amqpprox_session.cpp b/libamqpprox/amqpprox_session.cpp
index 805053f..6bae919 100644
--- a/libamqpprox/amqpprox_session.cpp
+++ b/libamqpprox/amqpprox_session.cpp
@@ -1012,6 +1012,11 @@ void Session::handleConnectionError(
              << "' error_code=" << TlsUtil::augmentTlsError(ec)
              << " conn=" << ConnectionSummary(*this);
 
+    // A socket whose connection attempt failed can't be used for another one:
+    // without a new one the next endpoint would fail without being tried
+    boost::system::error_code closeEc;
+    d_clientSocket->close(closeEc);
+
     attemptResolvedConnection(connectionManager);
 }
 
-- 
2.43.0


From 15fb703bd07944577f345e79935aa53233fa8438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:33 +0000
Subject: [PATCH 15/28] fix: do not take server handshake methods from the
 client

---
 libamqpprox/amqpprox_connector.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/libamqpprox/amqpprox_connector.cpp b/libamqpprox/amqpprox_connector.cpp
index 3d68d9f..402aad1 100644
--- a/libamqpprox/amqpprox_connector.cpp
+++ b/libamqpprox/amqpprox_connector.cpp
@@ -146,6 +146,16 @@ void Connector::receive(const Method &method, FlowType direction)
     d_buffer = Buffer();
     Buffer methodPayload(method.payload, method.length);
 
+    // While acting as a client only the server's methods count
+    if (direction == FlowType::INGRESS &&
+        (d_state == State::AWAITING_CONNECTION ||
+         d_state == State::STARTOK_SENT)) {
+        std::ostringstream oss;
+        oss << "Unexpected method during the server handshake: ";
+        streamOutMethod(oss, method);
+        throw std::runtime_error(oss.str());
+    }
+
     // Normal pass-through: just look for CloseOk
     switch (d_state) {
     case State::OPEN: {
@@ -224,7 +234,8 @@ void Connector::receive(const Method &method, FlowType direction)
         d_state = State::OPEN_SENT;
     } break;
     case State::OPEN_SENT: {
-        if (method.methodType == methods::OpenOk::methodType()) {
+        if (direction == FlowType::EGRESS &&
+            method.methodType == methods::OpenOk::methodType()) {
             // We are good to go
             d_state = State::OPEN;
 
-- 
2.43.0


From 2a1c9c247f62c4edf37d362c11f79aea44eb7a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:29 +0000
Subject: [PATCH 16/28] fix: name the destination in the PROXY line of DNS
 based backends

---
 libamqpprox/amqpprox_session.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/libamqpprox/amqpprox_session.cpp b/libamqpprox/amqpprox_session.cpp
index 6bae919..917deb6 100644
--- a/libamqpprox/amqpprox_session.cpp
+++ b/libamqpprox/amqpprox_session.cpp
@@ -454,11 +454,17 @@ std::string Session::getProxyProtocolHeader(const Backend *currentBackend)
     std::stringstream remoteClientAddress;
     remoteClientAddress << remoteClient.address();
 
+    // DNS based backends have no address of their own
+    const std::string backendAddress =
+        currentBackend->dnsBasedEntry()
+            ? d_sessionState.getEgress().second.address().to_string()
+            : currentBackend->ip();
+
     // Add Proxy Protocol-V1 Header
     ProxyProtocolHeaderV1 header =
         ProxyProtocolHeaderV1(ProxyProtocolHeaderV1::InetProtocol::TCP4,
                               remoteClientAddress.str(),
-                              currentBackend->ip(),
+                              backendAddress,
                               remoteClient.port(),
                               currentBackend->port());
 
-- 
2.43.0


From a38d4f878b1f8c85d6ef7f01c1a449809b086ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:30 +0000
Subject: [PATCH 17/28] fix: account for sessions that finish while their
 statistics are collected

A session was collected first and tested for having finished afterwards. One
that finished in between was deleted without ever being reported as removed,
and what it transferred in between was subtracted from figures it had not been
added to. Test first, so that such a session is left for the next run.
---
 libamqpprox/amqpprox_sessioncleanup.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libamqpprox/amqpprox_sessioncleanup.cpp b/libamqpprox/amqpprox_sessioncleanup.cpp
index 0985196..1f6e189 100644
--- a/libamqpprox/amqpprox_sessioncleanup.cpp
+++ b/libamqpprox/amqpprox_sessioncleanup.cpp
@@ -41,9 +41,13 @@ bool SessionCleanup::cleanup(Control *control, Server *server)
     // sessions that are disconnected to be deleted.
     auto visitor = [this, server, &sessionsDeleted](
                        const std::shared_ptr<Session> &session) {
+        // Decided before collecting: a session that finishes in between is
+        // collected, and deleted, in the next run with its final figures.
+        const bool finished = session->finished();
+
         d_statCollector_p->collect(session->state());
 
-        if (session->finished()) {
+        if (finished) {
             LOG_TRACE << "Cleaning session: " << session->state();
             sessionsDeleted.push_back(session);
         }
-- 
2.43.0


From e58363a7e0e930f313476d489caffc7e4d5e05da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:49 +0000
Subject: [PATCH 18/28] fix: keep per-source statistics right when they are
 disabled or re-enabled

With per-source statistics disabled, a deleted session was still subtracted
from its source, leaving a wrapped-around figure to compare the next report
with. And once re-enabled, the first report compared lifetime totals with
nothing, reporting again what had been reported before. Leave the sources alone
while disabled, and report them again from the second collection on.
---
 libamqpprox/amqpprox_statcollector.cpp | 19 +++++++++++++------
 libamqpprox/amqpprox_statcollector.h   |  1 +
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/libamqpprox/amqpprox_statcollector.cpp b/libamqpprox/amqpprox_statcollector.cpp
index bf5fb01..b88857e 100644
--- a/libamqpprox/amqpprox_statcollector.cpp
+++ b/libamqpprox/amqpprox_statcollector.cpp
@@ -30,6 +30,7 @@ StatCollector::StatCollector()
 , d_cpuMonitor_p(nullptr)
 , d_bufferPool_p(nullptr)
 , d_collectPerSourceStats(true)
+, d_previousHasSources(true)
 {
 }
 
@@ -38,6 +39,7 @@ void StatCollector::reset()
     d_previous.swap(d_current);
     StatSnapshot temp;
     d_current.swap(temp);
+    d_previousHasSources = d_collectPerSourceStats;
 }
 
 void StatCollector::setCpuMonitor(CpuMonitor *monitor)
@@ -176,12 +178,8 @@ void StatCollector::deletedSession(const SessionState &session)
         session.hostname(session.getEgress().second) + "_" +
         boost::lexical_cast<std::string>(session.getEgress().second.port());
 
-    // For sources we only look at the machine, not the ephemeral port
-    auto source = session.hostname(session.getIngress().second);
-
     auto &vhostStats   = d_current.vhosts()[vhost];
     auto &backendStats = d_current.backends()[backend];
-    auto &sourceStats  = d_current.sources()[source];
 
     uint64_t ingressPackets, ingressFrames, ingressBytes, ingressLatencyCount,
         ingressLatencyTotal, egressPackets, egressFrames, egressBytes,
@@ -222,13 +220,22 @@ void StatCollector::deletedSession(const SessionState &session)
 
     remStats(vhostStats);
     remStats(backendStats);
-    remStats(sourceStats);
+    if (d_collectPerSourceStats) {
+        // For sources we only look at the machine, not the ephemeral port
+        auto source = session.hostname(session.getIngress().second);
+        remStats(d_current.sources()[source]);
+    }
     remStats(d_current.overall());
 }
 
 void StatCollector::populateStats(StatSnapshot *snap)
 {
-    populateMap(&snap->sources(), d_current.sources(), d_previous.sources());
+    // The first collection after enabling per-source statistics has nothing to
+    // be compared with.
+    if (d_previousHasSources) {
+        populateMap(
+            &snap->sources(), d_current.sources(), d_previous.sources());
+    }
     populateMap(&snap->vhosts(), d_current.vhosts(), d_previous.vhosts());
     populateMap(
         &snap->backends(), d_current.backends(), d_previous.backends());
diff --git a/libamqpprox/amqpprox_statcollector.h b/libamqpprox/amqpprox_statcollector.h
index 3d19a15..64e6ea7 100644
--- a/libamqpprox/amqpprox_statcollector.h
+++ b/libamqpprox/amqpprox_statcollector.h
@@ -55,6 +55,7 @@ class StatCollector {
     BufferPool  *d_bufferPool_p;  // HELD NOT OWNED
 
     std::atomic<bool> d_collectPerSourceStats;
+    bool              d_previousHasSources;
 
   public:
     // CREATORS
-- 
2.43.0


From d35cbe061a533b5b9f1124d422546cffdb4e980d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:41:45 +0000
Subject: [PATCH 19/28] fix: LISTEN STOP also stops ports whose start is still
 queued

---
 libamqpprox/amqpprox_server.cpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/libamqpprox/amqpprox_server.cpp b/libamqpprox/amqpprox_server.cpp
index 6983d6c..273242b 100644
--- a/libamqpprox/amqpprox_server.cpp
+++ b/libamqpprox/amqpprox_server.cpp
@@ -30,6 +30,7 @@
 
 #include <iostream>
 #include <memory>
+#include <vector>
 
 namespace Bloomberg {
 namespace amqpprox {
@@ -183,10 +184,20 @@ void Server::stopListening(int port)
 
 void Server::stopAllListening()
 {
-    std::lock_guard<std::mutex> lg(d_mutex);
-    for (auto &p : d_listeningSockets) {
-        stopListening(p.first);
-    }
+    // Walk the listening sockets on the io context, so that this also stops
+    // the ports whose start is still queued there.
+    d_ioContext.dispatch([this] {
+        std::vector<int> ports;
+        {
+            std::lock_guard<std::mutex> lg(d_mutex);
+            for (const auto &p : d_listeningSockets) {
+                ports.push_back(p.first);
+            }
+        }
+        for (int port : ports) {
+            stopListening(port);
+        }
+    });
 }
 
 void Server::timer()
-- 
2.43.0


From e64b96cb4557f2a025741298ea7140c50f43fdda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:42:00 +0000
Subject: [PATCH 20/28] fix: apply the current TLS settings to the next
 accepted connection

---
 libamqpprox/amqpprox_server.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/libamqpprox/amqpprox_server.cpp b/libamqpprox/amqpprox_server.cpp
index 273242b..dca4740 100644
--- a/libamqpprox/amqpprox_server.cpp
+++ b/libamqpprox/amqpprox_server.cpp
@@ -223,14 +223,16 @@ void Server::doAccept(int port, bool secure)
         return;
     }
 
-    std::shared_ptr<MaybeSecureSocketAdaptor<>> incomingSocket =
-        std::make_shared<MaybeSecureSocketAdaptor<>>(
-            d_ioContext, d_ingressTlsContext, secure);
-
     it->second.async_accept(
-        incomingSocket->socket(),
-        [this, port, secure, incomingSocket](error_code ec) {
+        d_ioContext, [this, port, secure](error_code ec, tcp::socket peer) {
             if (!ec) {
+                // The TLS state copies the settings of the context, so create
+                // it only now: they may have changed while waiting to accept.
+                std::shared_ptr<MaybeSecureSocketAdaptor<>> incomingSocket =
+                    std::make_shared<MaybeSecureSocketAdaptor<>>(
+                        d_ioContext, d_ingressTlsContext, secure);
+                incomingSocket->socket() = std::move(peer);
+
                 std::shared_ptr<MaybeSecureSocketAdaptor<>> clientSocket =
                     std::make_shared<MaybeSecureSocketAdaptor<>>(
                         d_ioContext, d_egressTlsContext, false);
-- 
2.43.0


From 5e7b3770599d02c66a656cd8f38dce65a281d0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:52:29 +0000
Subject: [PATCH 21/28] fix: check for space for the length of an encoded table
 or array

---
 libamqpprox/amqpprox_types.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libamqpprox/amqpprox_types.cpp b/libamqpprox/amqpprox_types.cpp
index cf369dc..325bb71 100644
--- a/libamqpprox/amqpprox_types.cpp
+++ b/libamqpprox/amqpprox_types.cpp
@@ -468,6 +468,9 @@ bool Types::encodeFieldArray(Buffer                        &buffer,
                              const std::vector<FieldValue> &vector)
 {
     Buffer writeBuffer = buffer.remaining();
+    if (sizeof(big_uint32_t) > writeBuffer.available()) {
+        return false;
+    }
     writeBuffer.skip(sizeof(big_uint32_t));
     std::size_t originalOffset = writeBuffer.offset();
 
@@ -516,6 +519,9 @@ bool Types::decodeFieldTable(FieldTable *table, Buffer &buffer)
 bool Types::encodeFieldTable(Buffer &buffer, const FieldTable &table)
 {
     Buffer writeBuffer = buffer.remaining();
+    if (sizeof(big_uint32_t) > writeBuffer.available()) {
+        return false;
+    }
     writeBuffer.skip(sizeof(big_uint32_t));
     std::size_t originalOffset = writeBuffer.offset();
 
-- 
2.43.0


From 59066507c4f5187f7e5c28a5ac543590c022375a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:12:25 +0000
Subject: [PATCH 22/28] fix: report failing control commands instead of ending
 the control thread

---
 libamqpprox/amqpprox_control.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/libamqpprox/amqpprox_control.cpp b/libamqpprox/amqpprox_control.cpp
index 1fc52db..da181c3 100644
--- a/libamqpprox/amqpprox_control.cpp
+++ b/libamqpprox/amqpprox_control.cpp
@@ -92,8 +92,18 @@ class ControlSession : public std::enable_shared_from_this<ControlSession> {
 
         auto controlCommand = d_control_p->getControlCommand(commandVerb);
         if (controlCommand) {
-            controlCommand->handleCommand(
-                commandVerb, remaining, outputFunc, d_server_p, d_control_p);
+            try {
+                controlCommand->handleCommand(commandVerb,
+                                              remaining,
+                                              outputFunc,
+                                              d_server_p,
+                                              d_control_p);
+            }
+            catch (const std::exception &e) {
+                // A failing command must not end the control thread
+                LOG_ERROR << "Control '" << input << "' failed: " << e.what();
+                outputFunc(std::string("Error: ") + e.what() + "\n", true);
+            }
         }
         else {
             auto helpCommand = d_control_p->getControlCommand("HELP");
-- 
2.43.0


From 9f7074f6b3d552875c0f488764244bf3fb215724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:13:55 +0000
Subject: [PATCH 23/28] fix: LISTEN STOP with an invalid port no longer stops
 all ports

---
 libamqpprox/amqpprox_listencontrolcommand.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/libamqpprox/amqpprox_listencontrolcommand.cpp b/libamqpprox/amqpprox_listencontrolcommand.cpp
index 896d8cd..b9e247a 100644
--- a/libamqpprox/amqpprox_listencontrolcommand.cpp
+++ b/libamqpprox/amqpprox_listencontrolcommand.cpp
@@ -64,11 +64,15 @@ void ListenControlCommand::handleCommand(const std::string & /* command */,
         }
         else if (subcommand == "STOP") {
             int port = -1;
-            if (iss >> port && port > 0 && port <= 65535) {
+            iss >> std::ws;
+            if (iss.eof()) {
+                serverHandle->stopAllListening();
+            }
+            else if (iss >> port && port > 0 && port <= 65535) {
                 serverHandle->stopListening(port);
             }
             else {
-                serverHandle->stopAllListening();
+                output << "Invalid port provided.\n";
             }
         }
         else {
-- 
2.43.0


From 99bcdeafb50419ce6be7eee6ccbeba192f5b0d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:13:55 +0000
Subject: [PATCH 24/28] fix: reject backends with an invalid port

---
 libamqpprox/amqpprox_backendcontrolcommand.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libamqpprox/amqpprox_backendcontrolcommand.cpp b/libamqpprox/amqpprox_backendcontrolcommand.cpp
index 356920f..49e7930 100644
--- a/libamqpprox/amqpprox_backendcontrolcommand.cpp
+++ b/libamqpprox/amqpprox_backendcontrolcommand.cpp
@@ -77,7 +77,8 @@ void BackendControlCommand::handleCommand(const std::string & /* command */,
         boost::to_upper(arg1);
         boost::to_upper(arg2);
 
-        if (!name.empty() && !datacenter.empty() && !host.empty() && port) {
+        if (!name.empty() && !datacenter.empty() && !host.empty() &&
+            port > 0 && port <= 65535) {
             std::string ip;
             if (!isDns) {
                 auto &ioContext = controlHandle->ioContext();
-- 
2.43.0


From 29204a8bdcc743e229519fa93f66091d1925bde4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:13:55 +0000
Subject: [PATCH 25/28] fix: reject negative limits

---
 libamqpprox/amqpprox_limitcontrolcommand.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/libamqpprox/amqpprox_limitcontrolcommand.cpp b/libamqpprox/amqpprox_limitcontrolcommand.cpp
index a48c504..6cfbfbf 100644
--- a/libamqpprox/amqpprox_limitcontrolcommand.cpp
+++ b/libamqpprox/amqpprox_limitcontrolcommand.cpp
@@ -34,6 +34,14 @@ namespace amqpprox {
 
 namespace {
 
+/// Read a limit, streams would wrap negative numbers around
+template <typename T>
+bool readLimit(std::istringstream &iss, T *limit)
+{
+    iss >> std::ws;
+    return iss.peek() != '-' && (iss >> *limit);
+}
+
 void handleConnectionLimitAlarm(
     std::istringstream                                  &iss,
     ControlCommandOutput<ControlCommand::OutputFunctor> &output,
@@ -59,7 +67,7 @@ void handleConnectionLimitAlarm(
     }
     else {
         uint32_t numberOfConnections;
-        if (!(iss >> numberOfConnections)) {
+        if (!readLimit(iss, &numberOfConnections)) {
             output << "Invalid numberOfConnections provided.\n";
             return;
         }
@@ -116,7 +124,7 @@ void handleConnectionLimit(
     }
     else {
         uint32_t numberOfConnections;
-        if (!(iss >> numberOfConnections)) {
+        if (!readLimit(iss, &numberOfConnections)) {
             output << "Invalid numberOfConnections provided.\n";
             return;
         }
@@ -184,7 +192,7 @@ void handleDataRateAlarmLimit(
     }
     else {
         size_t bytesPerSecond = 0;
-        if (!(iss >> bytesPerSecond)) {
+        if (!readLimit(iss, &bytesPerSecond)) {
             output << "Failed to read bytesPerSecond";
             return;
         }
@@ -226,7 +234,7 @@ void handleDataRateLimit(
     }
     else {
         size_t bytesPerSecond = 0;
-        if (!(iss >> bytesPerSecond)) {
+        if (!readLimit(iss, &bytesPerSecond)) {
             output << "Failed to read bytesPerSecond";
             return;
         }
-- 
2.43.0


From b8c0b622b033ae454e1746b6ee59e2e5ab9102b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:54 +0000
Subject: [PATCH 26/28] fix: send the answer to a handshake method even if
 another method follows in the same read

---
 libamqpprox/amqpprox_packetprocessor.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libamqpprox/amqpprox_packetprocessor.cpp b/libamqpprox/amqpprox_packetprocessor.cpp
index f13e186..9ac5a88 100644
--- a/libamqpprox/amqpprox_packetprocessor.cpp
+++ b/libamqpprox/amqpprox_packetprocessor.cpp
@@ -103,6 +103,12 @@ void PacketProcessor::process(FlowType direction, const Buffer &readBuffer)
             if (method.classType == 10) {  // Connection
                 d_connector.receive(method, direction);
 
+                // A method without an answer of its own leaves the answer to
+                // an earlier method of the same read to be sent
+                if (!d_connector.outBuffer().size()) {
+                    continue;
+                }
+
                 if (d_connector.sendToIngressSide()) {
                     d_ingressWriteBuffer = d_connector.outBuffer();
                     d_egressWriteBuffer  = Buffer();
-- 
2.43.0


From 88c27bf499e839a28325dd58c8137110f51dd746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:18:01 +0000
Subject: [PATCH 27/28] fix: do not connect to a broker once the session has
 ended

---
 libamqpprox/amqpprox_session.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/libamqpprox/amqpprox_session.cpp b/libamqpprox/amqpprox_session.cpp
index 917deb6..a4c77f2 100644
--- a/libamqpprox/amqpprox_session.cpp
+++ b/libamqpprox/amqpprox_session.cpp
@@ -311,6 +311,13 @@ void Session::attemptConnection(
 void Session::attemptResolvedConnection(
     const std::shared_ptr<ConnectionManager> &connectionManager)
 {
+    if (finished()) {
+        // The session can end while its backend is being looked up
+        LOG_DEBUG << "Not establishing a connection because session already "
+                     "ended";
+        return;
+    }
+
     if (d_resolvedEndpoints.empty() ||
         d_resolvedEndpointsIndex >= d_resolvedEndpoints.size()) {
         // If we've run out of endpoints or the returned set was empty we must
-- 
2.43.0


From be02d3a8a95a4c719f132564de9e15fcb396e792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:52:12 +0000
Subject: [PATCH 28/28] fix: do not interleave the outputs of a control
 connection

---
 libamqpprox/amqpprox_control.cpp | 33 +++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/libamqpprox/amqpprox_control.cpp b/libamqpprox/amqpprox_control.cpp
index da181c3..5838e05 100644
--- a/libamqpprox/amqpprox_control.cpp
+++ b/libamqpprox/amqpprox_control.cpp
@@ -21,7 +21,10 @@
 
 #include <boost/algorithm/string.hpp>
 
+#include <deque>
 #include <iostream>
+#include <string>
+#include <utility>
 
 using boost::asio::local::stream_protocol;
 using namespace boost::system;
@@ -53,6 +56,7 @@ class ControlSession : public std::enable_shared_from_this<ControlSession> {
     EventSource            *d_eventSource_p;
     boost::asio::streambuf  d_streamBuf;
     bool                    d_finished;
+    std::deque<std::pair<std::string, bool>> d_outputs;
 
   public:
     ControlSession(stream_protocol::socket socket,
@@ -65,6 +69,7 @@ class ControlSession : public std::enable_shared_from_this<ControlSession> {
     , d_eventSource_p(eventSource)
     , d_streamBuf()
     , d_finished(false)
+    , d_outputs()
     {
     }
 
@@ -118,28 +123,42 @@ class ControlSession : public std::enable_shared_from_this<ControlSession> {
             return false;
         }
 
+        // Only one write may be in progress at any time, otherwise the parts
+        // of large outputs would be interleaved
+        d_outputs.emplace_back(output, finishOutput);
+        if (d_outputs.size() == 1) {
+            writeOutput();
+        }
+
+        return true;
+    }
+
+    void writeOutput()
+    {
         auto self(shared_from_this());
-        auto spOutput = std::make_shared<std::string>(output);
         boost::asio::async_write(
             d_socket,
-            boost::asio::buffer(spOutput->data(), spOutput->length()),
-            [this, finishOutput, self, spOutput](error_code  ec,
-                                                 std::size_t length) {
+            boost::asio::buffer(d_outputs.front().first),
+            [this, self](error_code ec, std::size_t length) {
                 if (ec) {
                     d_finished = true;
                     return;
                 }
 
-                if (finishOutput) {
+                if (d_outputs.front().second) {
                     d_finished = true;
                     error_code shutdownErr;
                     d_socket.shutdown(stream_protocol::socket::shutdown_both,
                                       shutdownErr);
                     d_socket.close();
+                    return;
                 }
-            });
 
-        return true;
+                d_outputs.pop_front();
+                if (!d_outputs.empty()) {
+                    writeOutput();
+                }
+            });
     }
 
     void start() { readInput(); }
-- 
2.43.0

