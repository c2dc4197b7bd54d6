From 08584851315d2170d7adbfbb2f8e9eb0170198c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:10 +0000
Subject: [PATCH 01/35] fix: check available bytes before reading each field
 value

Types::decodeFieldValue read the type tag and every fixed-width value
without checking that the bytes were there; a truncated field table made
it read past the received data.
---
 libamqpprox/amqpprox_types.cpp | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/libamqpprox/amqpprox_types.cpp b/libamqpprox/amqpprox_types.cpp
index e0252b5..d7817fd 100644
--- a/libamqpprox/amqpprox_types.cpp
+++ b/libamqpprox/amqpprox_types.cpp
@@ -133,20 +133,33 @@ bool Types::decodeFieldValue(FieldValue *outValue, Buffer &buffer)
 {
     assert(outValue != nullptr);
 
+    if (buffer.available() < sizeof(char)) {
+        return false;
+    }
+
     char type = buffer.copy<char>();
     switch (type) {
     case 't':  // boolean
     {
+        if (buffer.available() < sizeof(char)) {
+            return false;
+        }
         FieldValue value(type, (buffer.copy<char>() != 0));
         *outValue = value;
     } break;
     case 'b':  // short-short-int
     {
+        if (buffer.available() < sizeof(big_int8_t)) {
+            return false;
+        }
         FieldValue value(type, (int64_t)buffer.copy<big_int8_t>());
         *outValue = value;
     } break;
     case 'B':  // short-short-uint
     {
+        if (buffer.available() < sizeof(big_uint8_t)) {
+            return false;
+        }
         FieldValue value(type, (uint64_t)buffer.copy<big_uint8_t>());
         *outValue = value;
     } break;
@@ -155,27 +168,42 @@ bool Types::decodeFieldValue(FieldValue *outValue, Buffer &buffer)
         // fall through
     case 's':  // short-int
     {
+        if (buffer.available() < sizeof(big_int16_t)) {
+            return false;
+        }
         FieldValue value('s', (int64_t)buffer.copy<big_int16_t>());
         *outValue = value;
     } break;
     case 'u':  // short-uint
     {
+        if (buffer.available() < sizeof(big_uint16_t)) {
+            return false;
+        }
         FieldValue value(type, (uint64_t)buffer.copy<big_uint16_t>());
         *outValue = value;
     } break;
     case 'I':  // long-int
     {
+        if (buffer.available() < sizeof(big_int32_t)) {
+            return false;
+        }
         FieldValue value(type, (int64_t)buffer.copy<big_int32_t>());
         *outValue = value;
     } break;
     case 'i':  // long-uint
     {
+        if (buffer.available() < sizeof(big_uint32_t)) {
+            return false;
+        }
         FieldValue value(type, (uint64_t)buffer.copy<big_uint32_t>());
         *outValue = value;
     } break;
     case 'l':  // long-long-int
     case 'L':  // compatibility long-long-int
     {
+        if (buffer.available() < sizeof(big_int64_t)) {
+            return false;
+        }
         FieldValue value(type, (int64_t)buffer.copy<big_int64_t>());
         *outValue = value;
     } break;
@@ -226,6 +254,9 @@ bool Types::decodeFieldValue(FieldValue *outValue, Buffer &buffer)
     } break;
     case 'T':  // timestamp
     {
+        if (buffer.available() < sizeof(big_uint64_t)) {
+            return false;
+        }
         FieldValue value(type, (uint64_t)buffer.copy<big_uint64_t>());
         *outValue = value;
     } break;
-- 
2.43.0


From a7453df9373dea8427b0e9a35b3263b61c57025f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:10 +0000
Subject: [PATCH 02/35] fix: check space for the length prefix of field tables
 and arrays

encodeFieldTable and encodeFieldArray skipped the four length bytes
without checking they fit, and then wrote the length out of bounds.
---
 libamqpprox/amqpprox_types.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libamqpprox/amqpprox_types.cpp b/libamqpprox/amqpprox_types.cpp
index d7817fd..81b6c7a 100644
--- a/libamqpprox/amqpprox_types.cpp
+++ b/libamqpprox/amqpprox_types.cpp
@@ -452,6 +452,9 @@ bool Types::encodeFieldArray(Buffer                        &buffer,
                              const std::vector<FieldValue> &vector)
 {
     Buffer writeBuffer = buffer.remaining();
+    if (writeBuffer.available() < sizeof(big_uint32_t)) {
+        return false;
+    }
     writeBuffer.skip(sizeof(big_uint32_t));
     std::size_t originalOffset = writeBuffer.offset();
 
@@ -500,6 +503,9 @@ bool Types::decodeFieldTable(FieldTable *table, Buffer &buffer)
 bool Types::encodeFieldTable(Buffer &buffer, const FieldTable &table)
 {
     Buffer writeBuffer = buffer.remaining();
+    if (writeBuffer.available() < sizeof(big_uint32_t)) {
+        return false;
+    }
     writeBuffer.skip(sizeof(big_uint32_t));
     std::size_t originalOffset = writeBuffer.offset();
 
-- 
2.43.0


From e29ebadf2a6ba6ab794cf7cd915b27eebc7ada03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:21 +0000
Subject: [PATCH 03/35] fix: ignore method frames too short to hold a method

PacketProcessor ignored the failure of Method::decode and went on with an
uninitialised Method, including its payload pointer and length.
---
 libamqpprox/amqpprox_packetprocessor.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libamqpprox/amqpprox_packetprocessor.cpp b/libamqpprox/amqpprox_packetprocessor.cpp
index 59959f8..4eaf349 100644
--- a/libamqpprox/amqpprox_packetprocessor.cpp
+++ b/libamqpprox/amqpprox_packetprocessor.cpp
@@ -87,7 +87,11 @@ void PacketProcessor::process(FlowType direction, const Buffer &readBuffer)
 
         if (1 == frame.type && d_connector.state() != Connector::State::OPEN) {
             Method method;
-            Method::decode(&method, frame.payload, frame.length);
+            if (!Method::decode(&method, frame.payload, frame.length)) {
+                LOG_ERROR << "Ignoring method frame of " << frame.length
+                          << " bytes, too short to hold a method";
+                continue;
+            }
 
             LOG_TRACE << ((direction == FlowType::INGRESS) ? "->" : "<-")
                       << " Frame: TYPE=" << (int)frame.type
-- 
2.43.0


From 1c588752189868721637977ade6f480fdd4ac74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:01:39 +0000
Subject: [PATCH 04/35] fix: limit the nesting of decoded arrays and tables

Field arrays and tables are decoded recursively and nothing limited the
nesting: a client could send a StartOk with some twenty thousand nested
tables, within the frame size limit, and overflow the stack.
---
 libamqpprox/amqpprox_types.cpp | 31 ++++++++++++++++++++++++-------
 libamqpprox/amqpprox_types.h   | 14 +++++++++++---
 2 files changed, 35 insertions(+), 10 deletions(-)

diff --git a/libamqpprox/amqpprox_types.cpp b/libamqpprox/amqpprox_types.cpp
index 81b6c7a..ef82a4b 100644
--- a/libamqpprox/amqpprox_types.cpp
+++ b/libamqpprox/amqpprox_types.cpp
@@ -39,6 +39,9 @@ const int FLOAT_OCTETS   = 4;
 const int DOUBLE_OCTETS  = 8;
 const int DECIMAL_OCTETS = 5;
 
+// Nested arrays and tables are decoded recursively, so the nesting is limited
+const std::size_t MAX_NESTING_DEPTH = 100;
+
 template <typename T>
 bool decodeString(std::string *string, Buffer &buffer)
 {
@@ -129,7 +132,9 @@ bool Types::encodeByteVector(Buffer                     &buffer,
     return true;
 }
 
-bool Types::decodeFieldValue(FieldValue *outValue, Buffer &buffer)
+bool Types::decodeFieldValue(FieldValue *outValue,
+                             Buffer     &buffer,
+                             std::size_t depth)
 {
     assert(outValue != nullptr);
 
@@ -246,7 +251,7 @@ bool Types::decodeFieldValue(FieldValue *outValue, Buffer &buffer)
     case 'A':  // field-array
     {
         std::vector<FieldValue> val;
-        if (!decodeFieldArray(&val, buffer)) {
+        if (!decodeFieldArray(&val, buffer, depth + 1)) {
             return false;
         }
         FieldValue value(type, val);
@@ -263,7 +268,7 @@ bool Types::decodeFieldValue(FieldValue *outValue, Buffer &buffer)
     case 'F':  // field-table
     {
         auto sp = std::make_shared<FieldTable>();
-        if (!decodeFieldTable(sp.get(), buffer)) {
+        if (!decodeFieldTable(sp.get(), buffer, depth + 1)) {
             return false;
         }
         FieldValue value(type, sp);
@@ -422,10 +427,16 @@ bool Types::encodeFieldValue(Buffer &buffer, const FieldValue &fv)
     return true;
 }
 
-bool Types::decodeFieldArray(std::vector<FieldValue> *vector, Buffer &buffer)
+bool Types::decodeFieldArray(std::vector<FieldValue> *vector,
+                             Buffer                  &buffer,
+                             std::size_t              depth)
 {
     assert(vector != nullptr);
 
+    if (depth > MAX_NESTING_DEPTH) {
+        return false;
+    }
+
     if (sizeof(big_uint32_t) > buffer.available()) {
         return false;
     }
@@ -438,7 +449,7 @@ bool Types::decodeFieldArray(std::vector<FieldValue> *vector, Buffer &buffer)
     auto arrayBuffer = buffer.consume(arrayLength);
     while (arrayBuffer.available() > 0) {
         FieldValue value('V', false);
-        if (!decodeFieldValue(&value, arrayBuffer)) {
+        if (!decodeFieldValue(&value, arrayBuffer, depth)) {
             return false;
         }
 
@@ -472,8 +483,14 @@ bool Types::encodeFieldArray(Buffer                        &buffer,
     return true;
 }
 
-bool Types::decodeFieldTable(FieldTable *table, Buffer &buffer)
+bool Types::decodeFieldTable(FieldTable *table,
+                             Buffer     &buffer,
+                             std::size_t depth)
 {
+    if (depth > MAX_NESTING_DEPTH) {
+        return false;
+    }
+
     if (sizeof(big_uint32_t) > buffer.available()) {
         return false;
     }
@@ -491,7 +508,7 @@ bool Types::decodeFieldTable(FieldTable *table, Buffer &buffer)
         }
 
         FieldValue value('V', false);
-        if (!decodeFieldValue(&value, tBuffer)) {
+        if (!decodeFieldValue(&value, tBuffer, depth)) {
             return false;
         }
 
diff --git a/libamqpprox/amqpprox_types.h b/libamqpprox/amqpprox_types.h
index a66fcd0..dff5c22 100644
--- a/libamqpprox/amqpprox_types.h
+++ b/libamqpprox/amqpprox_types.h
@@ -102,9 +102,12 @@ class Types {
      * type
      * \param value AMQP field type stored as `FieldValue`
      * \param buffer raw data stored as `Buffer`
+     * \param depth how many arrays and tables the value is nested in
      * \return true in case of success, otherwise false
      */
-    static bool decodeFieldValue(FieldValue *value, Buffer &buffer);
+    static bool decodeFieldValue(FieldValue *value,
+                                 Buffer     &buffer,
+                                 std::size_t depth = 0);
 
     /**
      * \brief Encode AMQP field type and write the data into the specified
@@ -121,10 +124,12 @@ class Types {
      * \param vector AMQP field type array stored as std::vector of
      * `FieldValue`
      * \param buffer raw data stored as `Buffer`
+     * \param depth how many arrays and tables the array is nested in
      * \return true in case of success, otherwise false
      */
     static bool decodeFieldArray(std::vector<FieldValue> *vector,
-                                 Buffer                  &buffer);
+                                 Buffer                  &buffer,
+                                 std::size_t              depth = 0);
 
     /**
      * \brief Encode AMQP field type array and write the data into the
@@ -141,9 +146,12 @@ class Types {
      * table type
      * \param table AMQP field table type stored as `FieldTable`
      * \param buffer raw data stored as `Buffer`
+     * \param depth how many arrays and tables the table is nested in
      * \return true in case of success, otherwise false
      */
-    static bool decodeFieldTable(FieldTable *table, Buffer &buffer);
+    static bool decodeFieldTable(FieldTable *table,
+                                 Buffer     &buffer,
+                                 std::size_t depth = 0);
 
     /**
      * \brief Encode AMQP field table and write the data into the specified
-- 
2.43.0


From 84c802c40c944508ad5af3b0cfdd7e2ab36172f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:20 +0000
Subject: [PATCH 05/35] fix: deny when the authentication service answers with
 an HTTP error

The status of the response was ignored, and an empty body parses as an
AuthResponse whose result is ALLOW, so a 404 or 503 let clients in.
---
 libamqpprox/amqpprox_httpauthintercept.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/libamqpprox/amqpprox_httpauthintercept.cpp b/libamqpprox/amqpprox_httpauthintercept.cpp
index eb192fa..58815e4 100644
--- a/libamqpprox/amqpprox_httpauthintercept.cpp
+++ b/libamqpprox/amqpprox_httpauthintercept.cpp
@@ -233,6 +233,19 @@ void HttpAuthIntercept::onRead(
         return;
     }
 
+    if (beast::http::to_status_class(response->result()) !=
+        beast::http::status_class::successful) {
+        const std::string errorMsg =
+            "Http status " + std::to_string(response->result_int()) +
+            " received from hostname " + d_hostname + " on port " + d_port;
+        LOG_ERROR << errorMsg;
+        authproto::AuthResponse errorResponseData;
+        errorResponseData.set_result(authproto::AuthResponse::DENY);
+        errorResponseData.set_reason(errorMsg);
+        responseCb(errorResponseData);
+        return;
+    }
+
     authproto::AuthResponse authResponseData;
     if (!authResponseData.ParseFromString(response->body())) {
         const std::string errorMsg = "Unable to deserialize auth response "
-- 
2.43.0


From c4b5ad195e3df9f893672a98d5ff7aec669e728c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:23 +0000
Subject: [PATCH 06/35] fix: accept the server half of the handshake only from
 the server

---
 libamqpprox/amqpprox_connector.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/libamqpprox/amqpprox_connector.cpp b/libamqpprox/amqpprox_connector.cpp
index 61e0111..2f95445 100644
--- a/libamqpprox/amqpprox_connector.cpp
+++ b/libamqpprox/amqpprox_connector.cpp
@@ -95,6 +95,16 @@ void decodeMethod(T            *t,
     }
 }
 
+void requireFromServer(const Method &method, FlowType direction)
+{
+    if (direction != FlowType::EGRESS) {
+        std::ostringstream oss;
+        oss << "Received from the client while connecting to the server: ";
+        streamOutMethod(oss, method);
+        throw std::runtime_error(oss.str());
+    }
+}
+
 const Buffer protocolHeader(Constants::protocolHeader(),
                             Constants::protocolHeaderLength());
 const Buffer legacyProtocolHeader(Constants::legacyProtocolHeader(),
@@ -194,6 +204,7 @@ void Connector::receive(const Method &method, FlowType direction)
     } break;
     // Acting as a client
     case State::AWAITING_CONNECTION: {
+        requireFromServer(method, direction);
         decodeMethod(&d_receivedStart, method, methodPayload, direction);
 
         LOG_TRACE << "Server Start: " << d_receivedStart;
@@ -216,6 +227,7 @@ void Connector::receive(const Method &method, FlowType direction)
     } break;
     // Acting as a client
     case State::STARTOK_SENT: {
+        requireFromServer(method, direction);
         decodeMethod(&d_receivedTune, method, methodPayload, direction);
         LOG_TRACE << "Server Tune: " << d_receivedTune;
 
@@ -224,7 +236,8 @@ void Connector::receive(const Method &method, FlowType direction)
         d_state = State::OPEN_SENT;
     } break;
     case State::OPEN_SENT: {
-        if (method.methodType == methods::OpenOk::methodType()) {
+        if (direction == FlowType::EGRESS &&
+            method.methodType == methods::OpenOk::methodType()) {
             // We are good to go
             d_state = State::OPEN;
 
-- 
2.43.0


From 7094e5c0260ec4d0f250bccbd2addd6162a25693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:43 +0000
Subject: [PATCH 07/35] fix: unpause and gracefully disconnect sessions on the
 data-plane thread

---
 libamqpprox/amqpprox_session.cpp | 49 ++++++++++++++++++--------------
 1 file changed, 28 insertions(+), 21 deletions(-)

diff --git a/libamqpprox/amqpprox_session.cpp b/libamqpprox/amqpprox_session.cpp
index 9dca7b4..b3e598d 100644
--- a/libamqpprox/amqpprox_session.cpp
+++ b/libamqpprox/amqpprox_session.cpp
@@ -599,26 +599,30 @@ void Session::pause()
 
 void Session::unpause()
 {
-    if (d_sessionState.getPaused()) {
-        if (d_sessionState.getReadyToConnectOnUnpause()) {
-            BOOST_LOG_SCOPED_THREAD_ATTR(
-                "Vhost",
-                boost::log::attributes::constant<std::string>(
-                    d_sessionState.getVirtualHost()));
-            BOOST_LOG_SCOPED_THREAD_ATTR(
-                "ConnID",
-                boost::log::attributes::constant<uint64_t>(
-                    d_sessionState.id()));
-            LOG_DEBUG << "Session unpaused. Starting to acquire connection";
-
-            d_sessionState.setReadyToConnectOnUnpause(false);
-            d_sessionState.setPaused(false);
-            establishConnection();
-        }
-        else {
-            this->disconnect(true);
+    auto self(shared_from_this());
+    d_ioContext.dispatch([this, self] {
+        if (d_sessionState.getPaused()) {
+            if (d_sessionState.getReadyToConnectOnUnpause()) {
+                BOOST_LOG_SCOPED_THREAD_ATTR(
+                    "Vhost",
+                    boost::log::attributes::constant<std::string>(
+                        d_sessionState.getVirtualHost()));
+                BOOST_LOG_SCOPED_THREAD_ATTR(
+                    "ConnID",
+                    boost::log::attributes::constant<uint64_t>(
+                        d_sessionState.id()));
+                LOG_DEBUG
+                    << "Session unpaused. Starting to acquire connection";
+
+                d_sessionState.setReadyToConnectOnUnpause(false);
+                d_sessionState.setPaused(false);
+                establishConnection();
+            }
+            else {
+                this->disconnect(true);
+            }
         }
-    }
+    });
 }
 
 void Session::disconnectUnauthClient(const FieldTable &clientProperties,
@@ -675,8 +679,11 @@ void Session::disconnect(bool forcible)
         });
     }
     else {
-        d_connector.synthesizeClose(true);
-        sendSyntheticData();
+        auto self(shared_from_this());
+        d_ioContext.dispatch([this, self] {
+            d_connector.synthesizeClose(true);
+            sendSyntheticData();
+        });
     }
 }
 
-- 
2.43.0


From ab048b4c6747421e5d62f79a95a718d61aa71445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:36 +0000
Subject: [PATCH 08/35] fix: resume reading client data that arrived while
 paused

---
 libamqpprox/amqpprox_session.cpp | 9 +++++++++
 libamqpprox/amqpprox_session.h   | 1 +
 2 files changed, 10 insertions(+)

diff --git a/libamqpprox/amqpprox_session.cpp b/libamqpprox/amqpprox_session.cpp
index b3e598d..b474fc6 100644
--- a/libamqpprox/amqpprox_session.cpp
+++ b/libamqpprox/amqpprox_session.cpp
@@ -154,6 +154,7 @@ Session::Session(
 , d_egressWaitingSince()
 , d_egressRetryCounter(0)
 , d_ingressCurrentlyReading(false)
+, d_ingressDataHeldByPause(false)
 , d_ingressStartedAt()
 , d_egressCurrentlyReading(false)
 , d_egressStartedAt()
@@ -617,6 +618,11 @@ void Session::unpause()
                 d_sessionState.setReadyToConnectOnUnpause(false);
                 d_sessionState.setPaused(false);
                 establishConnection();
+
+                if (d_ingressDataHeldByPause && !finished()) {
+                    d_ingressDataHeldByPause = false;
+                    handleData(FlowType::INGRESS);
+                }
             }
             else {
                 this->disconnect(true);
@@ -832,6 +838,9 @@ void Session::readData(FlowType direction)
                     !d_sessionState.getPaused()) {
                     handleData(direction);
                 }
+                else {
+                    d_ingressDataHeldByPause = true;
+                }
             }
             else if (ec == boost::asio::error::would_block) {
                 readData(direction);
diff --git a/libamqpprox/amqpprox_session.h b/libamqpprox/amqpprox_session.h
index 545a9b0..662fd15 100644
--- a/libamqpprox/amqpprox_session.h
+++ b/libamqpprox/amqpprox_session.h
@@ -80,6 +80,7 @@ class Session : public std::enable_shared_from_this<Session> {
     TimePoint                    d_egressWaitingSince;
     uint32_t                     d_egressRetryCounter;
     bool                         d_ingressCurrentlyReading;
+    bool                         d_ingressDataHeldByPause;
     TimePoint                    d_ingressStartedAt;
     bool                         d_egressCurrentlyReading;
     TimePoint                    d_egressStartedAt;
-- 
2.43.0


From 2c3a7f94cceea743ecd0793dcad691cc3e180895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:01 +0000
Subject: [PATCH 09/35] fix: do not pause a session that is already gone

---
 libamqpprox/amqpprox_vhostestablishedpauser.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libamqpprox/amqpprox_vhostestablishedpauser.cpp b/libamqpprox/amqpprox_vhostestablishedpauser.cpp
index 7daf9d2..974680f 100644
--- a/libamqpprox/amqpprox_vhostestablishedpauser.cpp
+++ b/libamqpprox/amqpprox_vhostestablishedpauser.cpp
@@ -32,7 +32,9 @@ EventSubscriptionHandle vhostEstablishedPauser(EventSource *eventSource,
         [=](uint64_t id, const std::string &vhost) {
             if (vhostState->isPaused(vhost)) {
                 auto session = server->getSession(id);
-                session->pause();
+                if (session) {
+                    session->pause();
+                }
             }
         });
 }
-- 
2.43.0


From 38836db185c0c71187a786b6e164a748a412a520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:53 +0000
Subject: [PATCH 10/35] fix: use a fresh socket for each attempt to connect to
 a broker

---
 libamqpprox/amqpprox_session.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libamqpprox/amqpprox_session.cpp b/libamqpprox/amqpprox_session.cpp
index b474fc6..5b1772d 100644
--- a/libamqpprox/amqpprox_session.cpp
+++ b/libamqpprox/amqpprox_session.cpp
@@ -1012,6 +1012,11 @@ void Session::handleConnectionError(
              << "' error_code=" << TlsUtil::augmentTlsError(ec)
              << " conn=" << ConnectionSummary(*this);
 
+    // The state of a socket is unspecified after a failed connect, so the next
+    // attempt has to start with a fresh one
+    boost::system::error_code closeEc;
+    d_clientSocket->close(closeEc);
+
     attemptResolvedConnection(connectionManager);
 }
 
-- 
2.43.0


From 05d2b93d28316e0c816a3445d212c63572cbc271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:34 +0000
Subject: [PATCH 11/35] fix: do not try further endpoints for a session that
 has ended

---
 libamqpprox/amqpprox_session.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libamqpprox/amqpprox_session.cpp b/libamqpprox/amqpprox_session.cpp
index 5b1772d..b144925 100644
--- a/libamqpprox/amqpprox_session.cpp
+++ b/libamqpprox/amqpprox_session.cpp
@@ -311,6 +311,11 @@ void Session::attemptConnection(
 void Session::attemptResolvedConnection(
     const std::shared_ptr<ConnectionManager> &connectionManager)
 {
+    if (finished()) {
+        LOG_WARN << "Not trying another endpoint because already disconnected";
+        return;
+    }
+
     if (d_resolvedEndpoints.empty() ||
         d_resolvedEndpointsIndex >= d_resolvedEndpoints.size()) {
         // If we've run out of endpoints or the returned set was empty we must
-- 
2.43.0


From 1537835fdc58ef6189bf2897f87ddb39f1107f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:53 +0000
Subject: [PATCH 12/35] fix: keep removed backends alive for farms and sessions
 that still use them

---
 libamqpprox/amqpprox_backendstore.cpp | 11 ++++++-----
 libamqpprox/amqpprox_backendstore.h   |  8 ++++++--
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/libamqpprox/amqpprox_backendstore.cpp b/libamqpprox/amqpprox_backendstore.cpp
index 55bce56..4b2e757 100644
--- a/libamqpprox/amqpprox_backendstore.cpp
+++ b/libamqpprox/amqpprox_backendstore.cpp
@@ -41,14 +41,15 @@ int BackendStore::insert(const Backend &backend)
 
 int BackendStore::remove(const std::string &name)
 {
-    auto backend = lookup(name);
-    if (!backend) {
+    std::lock_guard<std::mutex> lg(d_mutex);
+    auto                        node = d_backends.extract(name);
+    if (node.empty()) {
         return 1;
     }
 
-    std::lock_guard<std::mutex> lg(d_mutex);
-    auto addrKey = std::make_pair(backend->ip(), backend->port());
-    d_backends.erase(name);
+    // Farms and sessions may still hold pointers previously returned by
+    // lookup(), so the removed element must outlive its removal.
+    d_removedBackends.push_back(std::move(node));
     return 0;
 }
 
diff --git a/libamqpprox/amqpprox_backendstore.h b/libamqpprox/amqpprox_backendstore.h
index 071a468..12e643a 100644
--- a/libamqpprox/amqpprox_backendstore.h
+++ b/libamqpprox/amqpprox_backendstore.h
@@ -22,6 +22,7 @@
 #include <map>
 #include <mutex>
 #include <unordered_map>
+#include <vector>
 
 namespace Bloomberg {
 namespace amqpprox {
@@ -30,8 +31,11 @@ namespace amqpprox {
  * \brief Represents Backend store
  */
 class BackendStore {
-    std::unordered_map<std::string, Backend> d_backends;
-    mutable std::mutex                       d_mutex;
+    using BackendMap = std::unordered_map<std::string, Backend>;
+
+    BackendMap                         d_backends;
+    std::vector<BackendMap::node_type> d_removedBackends;
+    mutable std::mutex                 d_mutex;
 
   public:
     BackendStore();
-- 
2.43.0


From 8a400e2c5aad8c9a95e4cb93d24552361a19053f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:59 +0000
Subject: [PATCH 13/35] fix: leave backends that no longer exist out of farm
 partitions

---
 libamqpprox/amqpprox_farm.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libamqpprox/amqpprox_farm.cpp b/libamqpprox/amqpprox_farm.cpp
index 2ddf61a..e8b7d39 100644
--- a/libamqpprox/amqpprox_farm.cpp
+++ b/libamqpprox/amqpprox_farm.cpp
@@ -86,7 +86,10 @@ void Farm::doRepartitionWhileLocked(std::lock_guard<std::mutex> & /* guard */)
 
     // Create the initial partition
     for (const auto &member : d_backendMembers) {
-        initialPartition.push_back(d_backendStore_p->lookup(member));
+        const Backend *backend = d_backendStore_p->lookup(member);
+        if (backend) {
+            initialPartition.push_back(backend);
+        }
     }
 
     auto newSet = std::make_shared<BackendSet>(std::move(partitions));
-- 
2.43.0


From 9b34437c728607b7c9cf1ac7ca4163a7239fb22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:48 +0000
Subject: [PATCH 14/35] fix: close both sockets of a session also when the
 failed operation was aborted

Closing only the broker's socket (VHOST BACKEND_DISCONNECT) aborts the pending
read on it. The session was then marked as ended and dropped, but the client's
socket stayed open.
---
 libamqpprox/amqpprox_session.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/libamqpprox/amqpprox_session.cpp b/libamqpprox/amqpprox_session.cpp
index b144925..0613f30 100644
--- a/libamqpprox/amqpprox_session.cpp
+++ b/libamqpprox/amqpprox_session.cpp
@@ -990,15 +990,17 @@ void Session::handleSessionError(const char               *action,
                      << " conn=" << ConnectionSummary(*this)
                      << " direction=" << direction;
         }
+    }
 
-        boost::system::error_code clientCloseEc, serverCloseEc;
-        d_clientSocket->close(clientCloseEc);
-        d_serverSocket->close(serverCloseEc);
+    // An aborted operation only tells that its own socket was closed, so the
+    // other one still has to go
+    boost::system::error_code clientCloseEc, serverCloseEc;
+    d_clientSocket->close(clientCloseEc);
+    d_serverSocket->close(serverCloseEc);
 
-        if (clientCloseEc || serverCloseEc) {
-            LOG_WARN << "Socket close failed: client=" << clientCloseEc
-                     << ", server=" << serverCloseEc;
-        }
+    if (clientCloseEc || serverCloseEc) {
+        LOG_WARN << "Socket close failed: client=" << clientCloseEc
+                 << ", server=" << serverCloseEc;
     }
 }
 
-- 
2.43.0


From 14cd8084ab84e6414aff6e06754a9f9fe8bc035e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:13 +0000
Subject: [PATCH 15/35] fix: attribute a failed broker handshake or write to
 the side that failed

A failed TLS handshake with a broker, a failed write of the proxy protocol
header, and on an open connection every failed write, were recorded as a
disconnect of the other side.
---
 libamqpprox/amqpprox_session.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/libamqpprox/amqpprox_session.cpp b/libamqpprox/amqpprox_session.cpp
index 0613f30..90269aa 100644
--- a/libamqpprox/amqpprox_session.cpp
+++ b/libamqpprox/amqpprox_session.cpp
@@ -406,7 +406,7 @@ void Session::attemptEndpointConnection(
                             d_sessionState.id()));
 
                     if (ec) {
-                        handleSessionError("ssl", FlowType::INGRESS, ec);
+                        handleSessionError("ssl", FlowType::EGRESS, ec);
                         return;
                     }
 
@@ -435,7 +435,7 @@ void Session::attemptEndpointConnection(
                     [this, self, hscb{std::move(handshake_cb)}](error_code ec,
                                                                 std::size_t) {
                         if (ec) {
-                            handleSessionError("write", FlowType::INGRESS, ec);
+                            handleSessionError("write", FlowType::EGRESS, ec);
                             return;
                         }
 
@@ -730,8 +730,15 @@ void Session::handleWriteData(FlowType                    direction,
                               MaybeSecureSocketAdaptor<> &writeSocket,
                               Buffer                      data)
 {
+    // The direction says which read follows the write, the failing side is the
+    // one written to
+    const FlowType writeSide = &writeSocket == d_serverSocket.get()
+                                   ? FlowType::INGRESS
+                                   : FlowType::EGRESS;
+
     auto self(shared_from_this());
-    auto writeHandler = [this, self, direction](error_code ec, std::size_t) {
+    auto writeHandler = [this, self, direction, writeSide](error_code ec,
+                                                           std::size_t) {
         BOOST_LOG_SCOPED_THREAD_ATTR(
             "Vhost",
             boost::log::attributes::constant<std::string>(
@@ -747,7 +754,7 @@ void Session::handleWriteData(FlowType                    direction,
         }
 
         if (ec) {
-            handleSessionError("write", direction, ec);
+            handleSessionError("write", writeSide, ec);
             return;
         }
 
-- 
2.43.0


From 3e61817c0d47fdbb0aceebfb9f8ab0e8c1092547 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 06:45:13 +0000
Subject: [PATCH 16/35] fix: name the address actually connected to in the
 proxy protocol header

A backend added by DNS name has no address of its own, so its header had
an empty destination; and a header with IPv6 addresses said TCP4.
---
 libamqpprox/amqpprox_session.cpp | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/libamqpprox/amqpprox_session.cpp b/libamqpprox/amqpprox_session.cpp
index 90269aa..73d8d31 100644
--- a/libamqpprox/amqpprox_session.cpp
+++ b/libamqpprox/amqpprox_session.cpp
@@ -455,17 +455,29 @@ std::string Session::getProxyProtocolHeader(const Backend *currentBackend)
 {
     // For now only Proxy Protocol V1 is supported
     LOG_INFO << "Proxy Protocol V1 is enabled for: " << d_sessionState;
-    auto              remoteClient = d_sessionState.getIngress().second;
-    std::stringstream remoteClientAddress;
-    remoteClientAddress << remoteClient.address();
+    auto remoteClient = d_sessionState.getIngress().second;
+    auto source       = remoteClient.address();
+    auto destination  = d_sessionState.getEgress().second.address();
+
+    // Both addresses have to belong to the same family, the one the header
+    // names
+    const bool isV6 = source.is_v6() || destination.is_v6();
+    auto       text = [isV6](const boost::asio::ip::address &address) {
+        return isV6 && address.is_v4()
+                         ? boost::asio::ip::make_address_v6(
+                         boost::asio::ip::v4_mapped, address.to_v4())
+                         .to_string()
+                         : address.to_string();
+    };
 
     // Add Proxy Protocol-V1 Header
-    ProxyProtocolHeaderV1 header =
-        ProxyProtocolHeaderV1(ProxyProtocolHeaderV1::InetProtocol::TCP4,
-                              remoteClientAddress.str(),
-                              currentBackend->ip(),
-                              remoteClient.port(),
-                              currentBackend->port());
+    ProxyProtocolHeaderV1 header = ProxyProtocolHeaderV1(
+        isV6 ? ProxyProtocolHeaderV1::InetProtocol::TCP6
+             : ProxyProtocolHeaderV1::InetProtocol::TCP4,
+        text(source),
+        text(destination),
+        remoteClient.port(),
+        currentBackend->port());
 
     std::stringstream proxyProtocolHeaderStream;
     proxyProtocolHeaderStream << header;
-- 
2.43.0


From 84b9350a32346f43b2edddc5042b84354ae28bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:20 +0000
Subject: [PATCH 17/35] fix: DATACENTER SET without a name no longer clears the
 datacenter

---
 libamqpprox/amqpprox_datacentercontrolcommand.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libamqpprox/amqpprox_datacentercontrolcommand.cpp b/libamqpprox/amqpprox_datacentercontrolcommand.cpp
index 6734d3e..bd88abf 100644
--- a/libamqpprox/amqpprox_datacentercontrolcommand.cpp
+++ b/libamqpprox/amqpprox_datacentercontrolcommand.cpp
@@ -60,7 +60,11 @@ void DatacenterControlCommand::handleCommand(
 
         if (subcommand == "SET") {
             std::string name;
-            iss >> name;
+            if (!(iss >> name)) {
+                output << "SET requires a name argument.\n";
+                return;
+            }
+
             d_datacenter_p->set(std::move(name));
 
             // Repartition all farms
-- 
2.43.0


From bf3c6fd298e87ba591c78491a8b44e596f1334e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:40 +0000
Subject: [PATCH 18/35] fix: LISTEN STOP with an invalid port no longer stops
 every listener

---
 libamqpprox/amqpprox_listencontrolcommand.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libamqpprox/amqpprox_listencontrolcommand.cpp b/libamqpprox/amqpprox_listencontrolcommand.cpp
index 896d8cd..2134773 100644
--- a/libamqpprox/amqpprox_listencontrolcommand.cpp
+++ b/libamqpprox/amqpprox_listencontrolcommand.cpp
@@ -64,11 +64,14 @@ void ListenControlCommand::handleCommand(const std::string & /* command */,
         }
         else if (subcommand == "STOP") {
             int port = -1;
-            if (iss >> port && port > 0 && port <= 65535) {
+            if ((iss >> std::ws).eof()) {
+                serverHandle->stopAllListening();
+            }
+            else if (iss >> port && port > 0 && port <= 65535) {
                 serverHandle->stopListening(port);
             }
             else {
-                serverHandle->stopAllListening();
+                output << "Invalid port provided.\n";
             }
         }
         else {
-- 
2.43.0


From 0b0b962ab2c4b776e54c491d49d9d317420db1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:40 +0000
Subject: [PATCH 19/35] fix: BACKEND ADD rejects unknown options and ports out
 of range

---
 libamqpprox/amqpprox_backendcontrolcommand.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/libamqpprox/amqpprox_backendcontrolcommand.cpp b/libamqpprox/amqpprox_backendcontrolcommand.cpp
index ecec1d9..b69972f 100644
--- a/libamqpprox/amqpprox_backendcontrolcommand.cpp
+++ b/libamqpprox/amqpprox_backendcontrolcommand.cpp
@@ -74,7 +74,17 @@ void BackendControlCommand::handleCommand(const std::string & /* command */,
         boost::to_upper(arg1);
         boost::to_upper(arg2);
 
-        if (!name.empty() && !datacenter.empty() && !host.empty() && port) {
+        auto isOption = [](const std::string &arg) {
+            return arg.empty() || arg == Constants::sendProxy() ||
+                   arg == Constants::tlsCommand();
+        };
+        if (!isOption(arg1) || !isOption(arg2)) {
+            output << "Unknown option provided";
+            return;
+        }
+
+        if (!name.empty() && !datacenter.empty() && !host.empty() &&
+            port > 0 && port <= 65535) {
             std::string ip;
             if (!isDns) {
                 auto &ioContext = controlHandle->ioContext();
-- 
2.43.0


From ad4d5b1d5be8b73685a84128552c10417bd7f856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:38 +0000
Subject: [PATCH 20/35] fix: a restarted listener no longer inherits the accept
 loop (and security) of the stopped one

---
 libamqpprox/amqpprox_server.cpp | 36 +++++++++++++++++++--------------
 libamqpprox/amqpprox_server.h   |  8 ++++++--
 2 files changed, 27 insertions(+), 17 deletions(-)

diff --git a/libamqpprox/amqpprox_server.cpp b/libamqpprox/amqpprox_server.cpp
index 5b297df..2ea96bc 100644
--- a/libamqpprox/amqpprox_server.cpp
+++ b/libamqpprox/amqpprox_server.cpp
@@ -118,7 +118,7 @@ int Server::run()
 void Server::closeListeners()
 {
     for (auto &p : d_listeningSockets) {
-        p.second.close();
+        p.second->close();
     }
 }
 
@@ -130,6 +130,8 @@ void Server::stop()
 void Server::startListening(int port, bool secure)
 {
     d_ioContext.dispatch([this, port, secure] {
+        auto listener =
+            std::make_shared<boost::asio::ip::tcp::acceptor>(d_ioContext);
         {
             std::lock_guard<std::mutex> lg(d_mutex);
             auto                        it = d_listeningSockets.find(port);
@@ -138,16 +140,16 @@ void Server::startListening(int port, bool secure)
                 return;
             }
 
-            boost::asio::ip::tcp::acceptor acceptor(d_ioContext);
-            tcp::endpoint                  local_endpoint(tcp::v4(), port);
-            acceptor.open(local_endpoint.protocol());
-            acceptor.set_option(boost::asio::socket_base::reuse_address(true));
-            acceptor.bind(local_endpoint);
-            acceptor.listen(boost::asio::socket_base::max_connections);
-            d_listeningSockets.emplace(port, std::move(acceptor));
+            tcp::endpoint local_endpoint(tcp::v4(), port);
+            listener->open(local_endpoint.protocol());
+            listener->set_option(
+                boost::asio::socket_base::reuse_address(true));
+            listener->bind(local_endpoint);
+            listener->listen(boost::asio::socket_base::max_connections);
+            d_listeningSockets.emplace(port, listener);
         }
 
-        doAccept(port, secure);
+        doAccept(port, secure, listener);
     });
 }
 
@@ -158,7 +160,7 @@ void Server::stopListening(int port)
         auto                        it = d_listeningSockets.find(port);
         if (it != d_listeningSockets.end()) {
             boost::system::error_code ec;
-            it->second.close(ec);
+            it->second->close(ec);
             d_listeningSockets.erase(it);
             if (ec) {
                 LOG_WARN << "Closing listening socket failed: "
@@ -191,11 +193,15 @@ void Server::doTimer()
     // listening.
 }
 
-void Server::doAccept(int port, bool secure)
+void Server::doAccept(
+    int                                                    port,
+    bool                                                   secure,
+    const std::shared_ptr<boost::asio::ip::tcp::acceptor> &listener)
 {
     std::lock_guard<std::mutex> lg(d_mutex);
     auto                        it = d_listeningSockets.find(port);
-    if (it == d_listeningSockets.end()) {
+    if (it == d_listeningSockets.end() || it->second != listener) {
+        // Stopped, possibly with another listener on the same port since
         return;
     }
 
@@ -203,9 +209,9 @@ void Server::doAccept(int port, bool secure)
         std::make_shared<MaybeSecureSocketAdaptor<>>(
             d_ioContext, d_ingressTlsContext, secure);
 
-    it->second.async_accept(
+    listener->async_accept(
         incomingSocket->socket(),
-        [this, port, secure, incomingSocket](error_code ec) {
+        [this, port, secure, listener, incomingSocket](error_code ec) {
             if (!ec) {
                 std::shared_ptr<MaybeSecureSocketAdaptor<>> clientSocket =
                     std::make_shared<MaybeSecureSocketAdaptor<>>(
@@ -240,7 +246,7 @@ void Server::doAccept(int port, bool secure)
                 // accept again.
             }
 
-            doAccept(port, secure);
+            doAccept(port, secure, listener);
         });
 }
 
diff --git a/libamqpprox/amqpprox_server.h b/libamqpprox/amqpprox_server.h
index 0d6f01a..9db4dda 100644
--- a/libamqpprox/amqpprox_server.h
+++ b/libamqpprox/amqpprox_server.h
@@ -52,7 +52,8 @@ class Server {
     boost::asio::deadline_timer              d_timer;
     std::unordered_map<uint64_t, SessionPtr> d_sessions;
     std::unordered_set<SessionPtr>           d_deletingSessions;
-    std::unordered_map<int, boost::asio::ip::tcp::acceptor> d_listeningSockets;
+    std::unordered_map<int, std::shared_ptr<boost::asio::ip::tcp::acceptor>>
+        d_listeningSockets;
     DNSResolver                                             d_dnsResolver;
     ConnectionSelectorInterface    *d_connectionSelector_p;  // HELD NOT OWNED
     EventSource                    *d_eventSource_p;         // HELD NOT OWNED
@@ -179,7 +180,10 @@ class Server {
     DNSResolver *getDNSResolverPtr();
 
   private:
-    void doAccept(int port, bool secure);
+    void
+    doAccept(int                                                    port,
+             bool                                                   secure,
+             const std::shared_ptr<boost::asio::ip::tcp::acceptor> &listener);
     void doTimer();
     void timer();
     void closeListeners();
-- 
2.43.0


From ca978f680562c0143ea5cfdd6c1d4c5e01a69d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:47 +0000
Subject: [PATCH 21/35] fix: failing to listen on a port no longer ends the
 proxy

---
 libamqpprox/amqpprox_server.cpp | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/libamqpprox/amqpprox_server.cpp b/libamqpprox/amqpprox_server.cpp
index 2ea96bc..d738c93 100644
--- a/libamqpprox/amqpprox_server.cpp
+++ b/libamqpprox/amqpprox_server.cpp
@@ -118,7 +118,8 @@ int Server::run()
 void Server::closeListeners()
 {
     for (auto &p : d_listeningSockets) {
-        p.second->close();
+        error_code ec;
+        p.second->close(ec);
     }
 }
 
@@ -141,11 +142,25 @@ void Server::startListening(int port, bool secure)
             }
 
             tcp::endpoint local_endpoint(tcp::v4(), port);
-            listener->open(local_endpoint.protocol());
-            listener->set_option(
-                boost::asio::socket_base::reuse_address(true));
-            listener->bind(local_endpoint);
-            listener->listen(boost::asio::socket_base::max_connections);
+            error_code    ec;
+            listener->open(local_endpoint.protocol(), ec);
+            if (!ec) {
+                listener->set_option(
+                    boost::asio::socket_base::reuse_address(true), ec);
+            }
+            if (!ec) {
+                listener->bind(local_endpoint, ec);
+            }
+            if (!ec) {
+                listener->listen(boost::asio::socket_base::max_connections,
+                                 ec);
+            }
+            if (ec) {
+                LOG_ERROR << "Failed to listen on port: " << port
+                          << ", reason: " << ec.message();
+                return;
+            }
+
             d_listeningSockets.emplace(port, listener);
         }
 
-- 
2.43.0


From ed57e642e13753d52ea3406b15552f7c9d39e4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:02:23 +0000
Subject: [PATCH 22/35] fix: bytes read from TLS clients count against their
 data rate limit

---
 libamqpprox/amqpprox_maybesecuresocketadaptor.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libamqpprox/amqpprox_maybesecuresocketadaptor.h b/libamqpprox/amqpprox_maybesecuresocketadaptor.h
index 12a3c64..c745369 100644
--- a/libamqpprox/amqpprox_maybesecuresocketadaptor.h
+++ b/libamqpprox/amqpprox_maybesecuresocketadaptor.h
@@ -354,7 +354,11 @@ class MaybeSecureSocketAdaptor
                 return result;
             }
 
-            return d_socket->read_some(buffers, ec);
+            size_t result = d_socket->read_some(buffers, ec);
+
+            recordReadUsage(result);
+
+            return result;
         }
         else {
             size_t result = d_socket->next_layer().read_some(buffers, ec);
-- 
2.43.0


From 026518ad820088ec7f2d00bb9c5822317e7f8819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:52 +0000
Subject: [PATCH 23/35] fix: STAT SEND to a host that does not resolve is
 answered instead of ending the control thread

---
 libamqpprox/amqpprox_statcontrolcommand.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/libamqpprox/amqpprox_statcontrolcommand.cpp b/libamqpprox/amqpprox_statcontrolcommand.cpp
index a6b72b2..eff6375 100644
--- a/libamqpprox/amqpprox_statcontrolcommand.cpp
+++ b/libamqpprox/amqpprox_statcontrolcommand.cpp
@@ -323,9 +323,19 @@ void StatControlCommand::handleCommand(const std::string   &command,
             return;
         }
 
-        std::shared_ptr<StatsDPublisher> publisher =
-            std::make_shared<StatsDPublisher>(
+        std::shared_ptr<StatsDPublisher> publisher;
+        try {
+            publisher = std::make_shared<StatsDPublisher>(
                 &controlHandle->ioContext(), outputHost, outputPort);
+        }
+        catch (const boost::system::system_error &error) {
+            outputFunctor("Unable to send stats to " + outputHost + ":" +
+                              std::to_string(outputPort) + ": " +
+                              error.what() + "\n",
+                          true);
+            return;
+        }
+
         StatFunctor sf = [publisher](const StatSnapshot &statSnapshot) {
             publisher->publish(statSnapshot);
             return true;
-- 
2.43.0


From 5bd0416c63fe287803e0fb672ad06b7d6f9e01f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:52 +0000
Subject: [PATCH 24/35] fix: keep a metric alive until its asynchronous send
 completes

---
 libamqpprox/amqpprox_statsdpublisher.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/libamqpprox/amqpprox_statsdpublisher.cpp b/libamqpprox/amqpprox_statsdpublisher.cpp
index 28b598a..49565d2 100644
--- a/libamqpprox/amqpprox_statsdpublisher.cpp
+++ b/libamqpprox/amqpprox_statsdpublisher.cpp
@@ -72,15 +72,17 @@ StatsDPublisher::StatsDPublisher(boost::asio::io_context *ioContext,
 
 void StatsDPublisher::sendMetric(const std::string &metric)
 {
-    auto writeHandler = [metric](const boost::system::error_code &ec,
+    // The metric has to outlive this call, until it has been sent
+    auto buffer       = std::make_shared<std::string>(metric);
+    auto writeHandler = [buffer](const boost::system::error_code &ec,
                                  std::size_t bytesTransferred) {
         if (ec) {
-            LOG_WARN << "Failed to send metric: " << metric
+            LOG_WARN << "Failed to send metric: " << *buffer
                      << "error code: " << ec;
         }
     };
     d_socket.async_send_to(
-        boost::asio::buffer(metric), d_statsdEndpoint, writeHandler);
+        boost::asio::buffer(*buffer), d_statsdEndpoint, writeHandler);
 }
 
 void StatsDPublisher::publish(const ConnectionStats &stats,
-- 
2.43.0


From 10c5230a3d04e3ddc214eb02e810342191768bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:48 +0000
Subject: [PATCH 25/35] fix: read the default connection limits under their
 lock

---
 libamqpprox/amqpprox_connectionlimitermanager.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libamqpprox/amqpprox_connectionlimitermanager.cpp b/libamqpprox/amqpprox_connectionlimitermanager.cpp
index 717dad0..175a959 100644
--- a/libamqpprox/amqpprox_connectionlimitermanager.cpp
+++ b/libamqpprox/amqpprox_connectionlimitermanager.cpp
@@ -267,12 +267,14 @@ ConnectionLimiterManager::getAlarmOnlyConnectionRateLimiter(
 std::optional<uint32_t>
 ConnectionLimiterManager::getDefaultConnectionRateLimit() const
 {
+    std::lock_guard<std::mutex> lg(d_mutex);
     return d_defaultConnectionRateLimit;
 }
 
 std::optional<uint32_t>
 ConnectionLimiterManager::getAlarmOnlyDefaultConnectionRateLimit() const
 {
+    std::lock_guard<std::mutex> lg(d_mutex);
     return d_defaultAlarmOnlyConnectionRateLimit;
 }
 
-- 
2.43.0


From 184d554b0a84457afda96b1f2bd344e9f9672e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:48 +0000
Subject: [PATCH 26/35] fix: read the server's shared pointers and listeners
 under the lock

---
 libamqpprox/amqpprox_server.cpp | 14 ++++++++++++--
 libamqpprox/amqpprox_server.h   |  2 +-
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/libamqpprox/amqpprox_server.cpp b/libamqpprox/amqpprox_server.cpp
index d738c93..9536607 100644
--- a/libamqpprox/amqpprox_server.cpp
+++ b/libamqpprox/amqpprox_server.cpp
@@ -117,6 +117,7 @@ int Server::run()
 
 void Server::closeListeners()
 {
+    std::lock_guard<std::mutex> lg(d_mutex);
     for (auto &p : d_listeningSockets) {
         error_code ec;
         p.second->close(ec);
@@ -232,6 +233,14 @@ void Server::doAccept(
                     std::make_shared<MaybeSecureSocketAdaptor<>>(
                         d_ioContext, d_egressTlsContext, false);
 
+                std::shared_ptr<HostnameMapper>         hostnameMapper;
+                std::shared_ptr<AuthInterceptInterface> authIntercept;
+                {
+                    std::lock_guard<std::mutex> lg(d_mutex);
+                    hostnameMapper = d_hostnameMapper;
+                    authIntercept  = d_authIntercept;
+                }
+
                 auto session =
                     std::make_shared<Session>(d_ioContext,
                                               incomingSocket,
@@ -240,9 +249,9 @@ void Server::doAccept(
                                               d_eventSource_p,
                                               d_bufferPool_p,
                                               &d_dnsResolver,
-                                              d_hostnameMapper,
+                                              hostnameMapper,
                                               d_localHostname,
-                                              d_authIntercept,
+                                              authIntercept,
                                               secure,
                                               d_limitManager);
 
@@ -360,6 +369,7 @@ boost::asio::io_context &Server::ioContext()
 
 std::shared_ptr<AuthInterceptInterface> Server::getAuthIntercept() const
 {
+    std::lock_guard<std::mutex> lg(d_mutex);
     return d_authIntercept;
 }
 
diff --git a/libamqpprox/amqpprox_server.h b/libamqpprox/amqpprox_server.h
index 9db4dda..5fccc0a 100644
--- a/libamqpprox/amqpprox_server.h
+++ b/libamqpprox/amqpprox_server.h
@@ -58,7 +58,7 @@ class Server {
     ConnectionSelectorInterface    *d_connectionSelector_p;  // HELD NOT OWNED
     EventSource                    *d_eventSource_p;         // HELD NOT OWNED
     BufferPool                     *d_bufferPool_p;          // HELD NOT OWNED
-    std::mutex                      d_mutex;
+    mutable std::mutex              d_mutex;
     std::shared_ptr<HostnameMapper> d_hostnameMapper;
     std::string                     d_localHostname;
     std::shared_ptr<AuthInterceptInterface> d_authIntercept;
-- 
2.43.0


From cfe5f5ca457f2e7f7d3c4bcf7d867497cd29885a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:48 +0000
Subject: [PATCH 27/35] fix: do not dispatch listener shutdown with the server
 lock held

---
 libamqpprox/amqpprox_server.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/libamqpprox/amqpprox_server.cpp b/libamqpprox/amqpprox_server.cpp
index 9536607..a66f0bb 100644
--- a/libamqpprox/amqpprox_server.cpp
+++ b/libamqpprox/amqpprox_server.cpp
@@ -30,6 +30,7 @@
 
 #include <iostream>
 #include <memory>
+#include <vector>
 
 namespace Bloomberg {
 namespace amqpprox {
@@ -188,9 +189,17 @@ void Server::stopListening(int port)
 
 void Server::stopAllListening()
 {
-    std::lock_guard<std::mutex> lg(d_mutex);
-    for (auto &p : d_listeningSockets) {
-        stopListening(p.first);
+    std::vector<int> ports;
+    {
+        std::lock_guard<std::mutex> lg(d_mutex);
+        for (const auto &p : d_listeningSockets) {
+            ports.push_back(p.first);
+        }
+    }
+
+    // Dispatched work may run here and now, so the lock cannot be held
+    for (int port : ports) {
+        stopListening(port);
     }
 }
 
-- 
2.43.0


From e30a3f4e128e9f7a2025b305a65d5600acda0f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:48 +0000
Subject: [PATCH 28/35] fix: read the session's hostname mapper and virtual
 host under the lock

---
 libamqpprox/amqpprox_sessionstate.cpp | 13 +++++++++----
 libamqpprox/amqpprox_sessionstate.h   |  4 ++--
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/libamqpprox/amqpprox_sessionstate.cpp b/libamqpprox/amqpprox_sessionstate.cpp
index c57e38f..7da88b0 100644
--- a/libamqpprox/amqpprox_sessionstate.cpp
+++ b/libamqpprox/amqpprox_sessionstate.cpp
@@ -59,11 +59,11 @@ void SessionState::setEgress(boost::asio::io_context       &ioContext,
                              boost::asio::ip::tcp::endpoint local,
                              boost::asio::ip::tcp::endpoint remote)
 {
+    std::lock_guard<std::mutex> lg(d_lock);
     if (d_hostnameMapper) {
         d_hostnameMapper->prime(ioContext, {local, remote});
     }
 
-    std::lock_guard<std::mutex> lg(d_lock);
     d_egressLocalEndpoint  = local;
     d_egressRemoteEndpoint = remote;
 }
@@ -72,11 +72,11 @@ void SessionState::setIngress(boost::asio::io_context       &ioContext,
                               boost::asio::ip::tcp::endpoint local,
                               boost::asio::ip::tcp::endpoint remote)
 {
+    std::lock_guard<std::mutex> lg(d_lock);
     if (d_hostnameMapper) {
         d_hostnameMapper->prime(ioContext, {local, remote});
     }
 
-    std::lock_guard<std::mutex> lg(d_lock);
     d_ingressLocalEndpoint  = local;
     d_ingressRemoteEndpoint = remote;
 }
@@ -163,10 +163,15 @@ void SessionState::setLimitedConnection()
 std::string
 SessionState::hostname(const boost::asio::ip::tcp::endpoint &endpoint) const
 {
-    if (!d_hostnameMapper) {
+    std::shared_ptr<HostnameMapper> hostnameMapper;
+    {
+        std::lock_guard<std::mutex> lg(d_lock);
+        hostnameMapper = d_hostnameMapper;
+    }
+    if (!hostnameMapper) {
         return boost::lexical_cast<std::string>(endpoint.address());
     }
-    return d_hostnameMapper->mapToHostname(endpoint);
+    return hostnameMapper->mapToHostname(endpoint);
 }
 
 void SessionState::getTotals(uint64_t *ingressPackets,
diff --git a/libamqpprox/amqpprox_sessionstate.h b/libamqpprox/amqpprox_sessionstate.h
index 683f589..473234e 100644
--- a/libamqpprox/amqpprox_sessionstate.h
+++ b/libamqpprox/amqpprox_sessionstate.h
@@ -207,7 +207,7 @@ class SessionState {
     /**
      * \return the virtual host
      */
-    inline const std::string &getVirtualHost() const;
+    inline std::string getVirtualHost() const;
 
     /**
      * \return the state(paused/unpaused) of the virtual host
@@ -274,7 +274,7 @@ inline SessionState::EndpointPair SessionState::getIngress() const
     return std::make_pair(d_ingressLocalEndpoint, d_ingressRemoteEndpoint);
 }
 
-inline const std::string &SessionState::getVirtualHost() const
+inline std::string SessionState::getVirtualHost() const
 {
     std::lock_guard<std::mutex> lg(d_lock);
     return d_virtualHost;
-- 
2.43.0


From fc8f7c0e51e71ec300d63049f1c71057826b8d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:58:20 +0000
Subject: [PATCH 29/35] fix: keep a removed farm alive for the thread still
 selecting from it

---
 libamqpprox/amqpprox_farmstore.cpp | 21 ++++++++++++++-------
 libamqpprox/amqpprox_farmstore.h   | 14 ++++++++++++--
 2 files changed, 26 insertions(+), 9 deletions(-)

diff --git a/libamqpprox/amqpprox_farmstore.cpp b/libamqpprox/amqpprox_farmstore.cpp
index f90f5b1..65843d3 100644
--- a/libamqpprox/amqpprox_farmstore.cpp
+++ b/libamqpprox/amqpprox_farmstore.cpp
@@ -23,6 +23,7 @@ namespace amqpprox {
 // CREATORS
 FarmStore::FarmStore()
 : d_farms()
+, d_removedFarms()
 {
 }
 
@@ -30,18 +31,24 @@ FarmStore::FarmStore()
 void FarmStore::addFarm(std::unique_ptr<Farm> farm)
 {
     std::lock_guard<std::mutex> lg(d_mutex);
-    if (d_farms.count(farm->name()) > 0) {
-        d_farms[farm->name()] = std::move(farm);
-    }
-    else {
-        d_farms.emplace(std::make_pair(farm->name(), std::move(farm)));
-    }
+    retire(farm->name());
+    d_farms.emplace(std::make_pair(farm->name(), std::move(farm)));
 }
 
 void FarmStore::removeFarmByName(const std::string &farmName)
 {
     std::lock_guard<std::mutex> lg(d_mutex);
-    d_farms.erase(farmName);
+    retire(farmName);
+}
+
+void FarmStore::retire(const std::string &farmName)
+{
+    auto node = d_farms.extract(farmName);
+    if (!node.empty()) {
+        // The other thread may still be using a reference previously returned
+        // by getFarmByName(), so the farm must outlive its removal.
+        d_removedFarms.push_back(std::move(node));
+    }
 }
 
 void FarmStore::repartitionAll()
diff --git a/libamqpprox/amqpprox_farmstore.h b/libamqpprox/amqpprox_farmstore.h
index e1ec2d5..2e33833 100644
--- a/libamqpprox/amqpprox_farmstore.h
+++ b/libamqpprox/amqpprox_farmstore.h
@@ -22,6 +22,7 @@
 #include <memory>
 #include <mutex>
 #include <unordered_map>
+#include <vector>
 
 namespace Bloomberg {
 namespace amqpprox {
@@ -36,8 +37,17 @@ class FarmStore {
     using FarmMap = std::unordered_map<std::string, std::unique_ptr<Farm>>;
 
     // DATA
-    FarmMap            d_farms;
-    mutable std::mutex d_mutex;
+    FarmMap                         d_farms;
+    std::vector<FarmMap::node_type> d_removedFarms;
+    mutable std::mutex              d_mutex;
+
+    // PRIVATE MANIPULATORS
+    /**
+     * \brief Take a farm out of the store, keeping it alive. The lock must be
+     * held
+     * \param farmName the name of the farm to take out
+     */
+    void retire(const std::string &farmName);
 
   public:
     // CREATORS
-- 
2.43.0


From 2ae07f45a9312556fe8c2a9612180e4227b22896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:14:48 +0000
Subject: [PATCH 30/35] fix: do not wait for reverse name resolution with locks
 held

---
 libamqpprox/amqpprox_dnshostnamemapper.cpp | 13 +++---
 libamqpprox/amqpprox_sessionstate.cpp      | 48 ++++++++++++++--------
 2 files changed, 39 insertions(+), 22 deletions(-)

diff --git a/libamqpprox/amqpprox_dnshostnamemapper.cpp b/libamqpprox/amqpprox_dnshostnamemapper.cpp
index 3a75647..14ee1aa 100644
--- a/libamqpprox/amqpprox_dnshostnamemapper.cpp
+++ b/libamqpprox/amqpprox_dnshostnamemapper.cpp
@@ -43,11 +43,14 @@ void DNSHostnameMapper::prime(
     boost::asio::ip::tcp::resolver resolver(ioContext);
     for (const auto &endpoint : endpoints) {
         auto address = boost::lexical_cast<std::string>(endpoint.address());
-        boost::upgrade_lock<boost::shared_mutex> lock(d_lg);
-        auto found = d_hostnameMap.find(address);
-        if (found != d_hostnameMap.end()) {
-            continue;
+        {
+            boost::shared_lock<boost::shared_mutex> lock(d_lg);
+            if (d_hostnameMap.find(address) != d_hostnameMap.end()) {
+                continue;
+            }
         }
+
+        // This waits for the name server, so the lock cannot be held
         boost::system::error_code ec;
         auto                      destination = resolver.resolve(endpoint, ec);
         if (ec) {
@@ -56,13 +59,13 @@ void DNSHostnameMapper::prime(
             continue;
         }
 
+        boost::unique_lock<boost::shared_mutex> lock(d_lg);
         if (d_hostnameMap.size() + 1 > CACHE_SIZE_WARN_LIMIT) {
             LOG_WARN << "The size of the hostname cache is larger than the "
                      << "warning threshold. (" << d_hostnameMap.size() + 1
                      << " > " << CACHE_SIZE_WARN_LIMIT << ")";
         }
 
-        boost::upgrade_to_unique_lock<boost::shared_mutex> uniqueLock(lock);
         d_hostnameMap.insert({address, destination->host_name()});
     }
 }
diff --git a/libamqpprox/amqpprox_sessionstate.cpp b/libamqpprox/amqpprox_sessionstate.cpp
index 7da88b0..e760469 100644
--- a/libamqpprox/amqpprox_sessionstate.cpp
+++ b/libamqpprox/amqpprox_sessionstate.cpp
@@ -59,26 +59,36 @@ void SessionState::setEgress(boost::asio::io_context       &ioContext,
                              boost::asio::ip::tcp::endpoint local,
                              boost::asio::ip::tcp::endpoint remote)
 {
-    std::lock_guard<std::mutex> lg(d_lock);
-    if (d_hostnameMapper) {
-        d_hostnameMapper->prime(ioContext, {local, remote});
+    std::shared_ptr<HostnameMapper> hostnameMapper;
+    {
+        std::lock_guard<std::mutex> lg(d_lock);
+        d_egressLocalEndpoint  = local;
+        d_egressRemoteEndpoint = remote;
+        hostnameMapper         = d_hostnameMapper;
     }
 
-    d_egressLocalEndpoint  = local;
-    d_egressRemoteEndpoint = remote;
+    // Priming may wait for the name server, so the lock cannot be held
+    if (hostnameMapper) {
+        hostnameMapper->prime(ioContext, {local, remote});
+    }
 }
 
 void SessionState::setIngress(boost::asio::io_context       &ioContext,
                               boost::asio::ip::tcp::endpoint local,
                               boost::asio::ip::tcp::endpoint remote)
 {
-    std::lock_guard<std::mutex> lg(d_lock);
-    if (d_hostnameMapper) {
-        d_hostnameMapper->prime(ioContext, {local, remote});
+    std::shared_ptr<HostnameMapper> hostnameMapper;
+    {
+        std::lock_guard<std::mutex> lg(d_lock);
+        d_ingressLocalEndpoint  = local;
+        d_ingressRemoteEndpoint = remote;
+        hostnameMapper          = d_hostnameMapper;
     }
 
-    d_ingressLocalEndpoint  = local;
-    d_ingressRemoteEndpoint = remote;
+    // Priming may wait for the name server, so the lock cannot be held
+    if (hostnameMapper) {
+        hostnameMapper->prime(ioContext, {local, remote});
+    }
 }
 
 void SessionState::setVirtualHost(const std::string &vhost)
@@ -94,13 +104,17 @@ void SessionState::setHostnameMapper(
     if (!hostnameMapper) {
         return;
     }
-    std::lock_guard<std::mutex> lg(d_lock);
-    d_hostnameMapper = hostnameMapper;
-    d_hostnameMapper->prime(ioContext,
-                            {d_ingressLocalEndpoint,
-                             d_ingressRemoteEndpoint,
-                             d_egressLocalEndpoint,
-                             d_egressRemoteEndpoint});
+    {
+        std::lock_guard<std::mutex> lg(d_lock);
+        d_hostnameMapper = hostnameMapper;
+    }
+
+    // Priming may wait for the name server, so the lock cannot be held
+    const EndpointPair ingress = getIngress();
+    const EndpointPair egress  = getEgress();
+    hostnameMapper->prime(
+        ioContext,
+        {ingress.first, ingress.second, egress.first, egress.second});
 }
 
 void SessionState::setPaused(bool paused)
-- 
2.43.0


From cdcd4a1d8326e3b3d2d94d8013290e96f209fb55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:36:42 +0000
Subject: [PATCH 31/35] fix: do not subtract per-source statistics that were
 not collected

With per-source statistics disabled, collect() adds nothing to the source
entries, but deletedSession() still subtracted the totals of an ended session
from one. The entry it created wrapped around and was reported as a source
with counters near 2^64.
---
 libamqpprox/amqpprox_statcollector.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/libamqpprox/amqpprox_statcollector.cpp b/libamqpprox/amqpprox_statcollector.cpp
index bf5fb01..1b098a0 100644
--- a/libamqpprox/amqpprox_statcollector.cpp
+++ b/libamqpprox/amqpprox_statcollector.cpp
@@ -176,12 +176,8 @@ void StatCollector::deletedSession(const SessionState &session)
         session.hostname(session.getEgress().second) + "_" +
         boost::lexical_cast<std::string>(session.getEgress().second.port());
 
-    // For sources we only look at the machine, not the ephemeral port
-    auto source = session.hostname(session.getIngress().second);
-
     auto &vhostStats   = d_current.vhosts()[vhost];
     auto &backendStats = d_current.backends()[backend];
-    auto &sourceStats  = d_current.sources()[source];
 
     uint64_t ingressPackets, ingressFrames, ingressBytes, ingressLatencyCount,
         ingressLatencyTotal, egressPackets, egressFrames, egressBytes,
@@ -222,7 +218,15 @@ void StatCollector::deletedSession(const SessionState &session)
 
     remStats(vhostStats);
     remStats(backendStats);
-    remStats(sourceStats);
+
+    if (d_collectPerSourceStats) {
+        // For sources we only look at the machine, not the ephemeral port
+        auto source = session.hostname(session.getIngress().second);
+
+        auto &sourceStats = d_current.sources()[source];
+        remStats(sourceStats);
+    }
+
     remStats(d_current.overall());
 }
 
-- 
2.43.0


From 0a298a8057a86236b9f8d9752e93cc1bb2582fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:10:49 +0000
Subject: [PATCH 32/35] fix: count a session as ended before removing it

The cleanup counted a session and then asked again whether it had finished. A
session that ended in between had been counted as active and was removed, so
that its end was never reported. collect() now says how it counted the session,
from one reading made before the counters are read.
---
 libamqpprox/amqpprox_sessioncleanup.cpp |  6 ++++--
 libamqpprox/amqpprox_statcollector.cpp  | 11 +++++++----
 libamqpprox/amqpprox_statcollector.h    |  5 ++++-
 3 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/libamqpprox/amqpprox_sessioncleanup.cpp b/libamqpprox/amqpprox_sessioncleanup.cpp
index 0985196..f2cfe24 100644
--- a/libamqpprox/amqpprox_sessioncleanup.cpp
+++ b/libamqpprox/amqpprox_sessioncleanup.cpp
@@ -41,9 +41,11 @@ bool SessionCleanup::cleanup(Control *control, Server *server)
     // sessions that are disconnected to be deleted.
     auto visitor = [this, server, &sessionsDeleted](
                        const std::shared_ptr<Session> &session) {
-        d_statCollector_p->collect(session->state());
+        // A session is removed only after it was counted as ended, even if it
+        // ends right now
+        const bool ended = d_statCollector_p->collect(session->state());
 
-        if (session->finished()) {
+        if (ended) {
             LOG_TRACE << "Cleaning session: " << session->state();
             sessionsDeleted.push_back(session);
         }
diff --git a/libamqpprox/amqpprox_statcollector.cpp b/libamqpprox/amqpprox_statcollector.cpp
index 1b098a0..24e9f76 100644
--- a/libamqpprox/amqpprox_statcollector.cpp
+++ b/libamqpprox/amqpprox_statcollector.cpp
@@ -50,8 +50,12 @@ void StatCollector::setBufferPool(BufferPool *pool)
     d_bufferPool_p = pool;
 }
 
-void StatCollector::collect(const SessionState &session)
+bool StatCollector::collect(const SessionState &session)
 {
+    // The session can end at any time: read this once, and before the counters
+    using DiscoType  = SessionState::DisconnectType;
+    auto discoStatus = session.getDisconnectType();
+
     uint64_t ingressPackets, ingressFrames, ingressBytes, ingressLatencyCount,
         ingressLatencyTotal, egressPackets, egressFrames, egressBytes,
         egressLatencyCount, egressLatencyTotal;
@@ -67,9 +71,6 @@ void StatCollector::collect(const SessionState &session)
                       &egressLatencyTotal,
                       &egressLatencyCount);
 
-    using DiscoType  = SessionState::DisconnectType;
-    auto discoStatus = session.getDisconnectType();
-
     auto addStats = [&egressPackets,
                      &ingressPackets,
                      &egressFrames,
@@ -146,6 +147,8 @@ void StatCollector::collect(const SessionState &session)
     }
 
     addStats(d_current.overall());
+
+    return discoStatus != DiscoType::NOT_DISCONNECTED;
 }
 
 void StatCollector::deletedSession(const SessionState &session)
diff --git a/libamqpprox/amqpprox_statcollector.h b/libamqpprox/amqpprox_statcollector.h
index 3d19a15..ee9d378 100644
--- a/libamqpprox/amqpprox_statcollector.h
+++ b/libamqpprox/amqpprox_statcollector.h
@@ -71,8 +71,11 @@ class StatCollector {
      * \brief Collect and accumulate statistics from the given `session`
      * \param session `SessionState` object, contains a counter of total bytes,
      * packets and frames for each direction
+     * \return `true` if the session was counted as one that has ended, in which
+     * case its counters are final and it has to be removed, or it would be
+     * counted as ended again
      */
-    void collect(const SessionState &session);
+    bool collect(const SessionState &session);
 
     /**
      * \brief Delete the accumulated metrics for deleted specified session
-- 
2.43.0


From c3f4a24eba5d99fa10241b250a3a4bd65628f626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:41 +0000
Subject: [PATCH 33/35] fix: a failing close of a control connection no longer
 stops the control loop

The completion handler of the last write of a control session used the
overload of close() that throws. An exception leaving that handler makes
Control::run() return, after which no control command is served.
---
 libamqpprox/amqpprox_control.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libamqpprox/amqpprox_control.cpp b/libamqpprox/amqpprox_control.cpp
index 1fc52db..6be1b34 100644
--- a/libamqpprox/amqpprox_control.cpp
+++ b/libamqpprox/amqpprox_control.cpp
@@ -125,7 +125,8 @@ class ControlSession : public std::enable_shared_from_this<ControlSession> {
                     error_code shutdownErr;
                     d_socket.shutdown(stream_protocol::socket::shutdown_both,
                                       shutdownErr);
-                    d_socket.close();
+                    error_code closeErr;
+                    d_socket.close(closeErr);
                 }
             });
 
-- 
2.43.0


From 6b239821ef378b8f42622a5d838e125b4bc668a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:17 +0000
Subject: [PATCH 34/35] fix: CONNECTIONS no longer races with the data plane on
 the waiting times

Session::print() runs on the control thread and read the time points that
the data plane writes on every read. They are atomic now.
---
 libamqpprox/amqpprox_session.cpp | 8 ++++----
 libamqpprox/amqpprox_session.h   | 9 +++++----
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/libamqpprox/amqpprox_session.cpp b/libamqpprox/amqpprox_session.cpp
index 73d8d31..c5e0d1f 100644
--- a/libamqpprox/amqpprox_session.cpp
+++ b/libamqpprox/amqpprox_session.cpp
@@ -150,8 +150,8 @@ Session::Session(
 , d_eventSource_p(eventSource)
 , d_bufferPool_p(bufferPool)
 , d_dnsResolver_p(dnsResolver)
-, d_ingressWaitingSince()
-, d_egressWaitingSince()
+, d_ingressWaitingSince(TimePoint())
+, d_egressWaitingSince(TimePoint())
 , d_egressRetryCounter(0)
 , d_ingressCurrentlyReading(false)
 , d_ingressDataHeldByPause(false)
@@ -601,9 +601,9 @@ void Session::print(std::ostream &os)
 {
     TimePoint now = std::chrono::high_resolution_clock::now();
     std::chrono::duration<double> ingressTime =
-        now - timePoint(FlowType::INGRESS);
+        now - timePoint(FlowType::INGRESS).load();
     std::chrono::duration<double> egressTime =
-        now - timePoint(FlowType::EGRESS);
+        now - timePoint(FlowType::EGRESS).load();
     os << d_sessionState << " " << ingressTime.count() << ":"
        << egressTime.count() << std::endl;
 }
diff --git a/libamqpprox/amqpprox_session.h b/libamqpprox/amqpprox_session.h
index 662fd15..e0b6f98 100644
--- a/libamqpprox/amqpprox_session.h
+++ b/libamqpprox/amqpprox_session.h
@@ -32,6 +32,7 @@
 #include <boost/asio.hpp>
 #include <boost/asio/steady_timer.hpp>
 
+#include <atomic>
 #include <chrono>
 #include <iosfwd>
 #include <memory>
@@ -76,8 +77,8 @@ class Session : public std::enable_shared_from_this<Session> {
     EventSource                 *d_eventSource_p;         // HELD NOT OWNED
     BufferPool                  *d_bufferPool_p;          // HELD NOT OWNED
     DNSResolver                 *d_dnsResolver_p;
-    TimePoint                    d_ingressWaitingSince;
-    TimePoint                    d_egressWaitingSince;
+    std::atomic<TimePoint>       d_ingressWaitingSince;
+    std::atomic<TimePoint>       d_egressWaitingSince;
     uint32_t                     d_egressRetryCounter;
     bool                         d_ingressCurrentlyReading;
     bool                         d_ingressDataHeldByPause;
@@ -301,7 +302,7 @@ class Session : public std::enable_shared_from_this<Session> {
      * \param direction specifies direction of the data flow (ingress/egress)
      * \return a mutable reference to the time we last saw traffic
      */
-    inline TimePoint &timePoint(FlowType direction);
+    inline std::atomic<TimePoint> &timePoint(FlowType direction);
 
     /**
      * \param direction specifies direction of the data flow (ingress/egress)
@@ -400,7 +401,7 @@ inline std::size_t &Session::waterMark(FlowType direction)
                                           : d_clientWaterMark;
 }
 
-inline Session::TimePoint &Session::timePoint(FlowType direction)
+inline std::atomic<Session::TimePoint> &Session::timePoint(FlowType direction)
 {
     return direction == FlowType::INGRESS ? d_ingressWaitingSince
                                           : d_egressWaitingSince;
-- 
2.43.0


From 73f78d7d3a453c7a24d2b2dbcd6265274c20b556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:18 +0000
Subject: [PATCH 35/35] fix: a close with a long text is cut to its field
 instead of not being sent

---
 libamqpprox/amqpprox_connector.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libamqpprox/amqpprox_connector.cpp b/libamqpprox/amqpprox_connector.cpp
index 2f95445..89c90ae 100644
--- a/libamqpprox/amqpprox_connector.cpp
+++ b/libamqpprox/amqpprox_connector.cpp
@@ -437,7 +437,12 @@ void Connector::synthesizeMessage(methods::Close  &replyMethod,
                                   uint16_t         methodId)
 {
     d_buffer = Buffer();  // forget inbound buffer
-    replyMethod.setReply(code, std::string(text), classId, methodId);
+    // The text is sent as a short string, a longer one could not be encoded
+    replyMethod.setReply(
+        code,
+        std::string(text.substr(0, Constants::shortStringLimit())),
+        classId,
+        methodId);
     sendResponse(replyMethod, sendToIngressSide);
 }
 
-- 
2.43.0

