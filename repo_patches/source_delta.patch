From 4e80968cbe6a7ff81bfb919afb248309756e527c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:23 +0000
Subject: [PATCH 01/17] fix: pass the unescaped SLIP frame to the tunnel, not
 the raw encoded bytes

---
 libnymea-remoteproxy/tunnelproxy/tunnelproxyclient.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libnymea-remoteproxy/tunnelproxy/tunnelproxyclient.cpp b/libnymea-remoteproxy/tunnelproxy/tunnelproxyclient.cpp
index 81e9e35..9d08a8d 100644
--- a/libnymea-remoteproxy/tunnelproxy/tunnelproxyclient.cpp
+++ b/libnymea-remoteproxy/tunnelproxy/tunnelproxyclient.cpp
@@ -83,7 +83,7 @@ QList<QByteArray> TunnelProxyClient::processData(const QByteArray &data)
                     qCWarning(dcTunnelProxyServerTraffic()) << "Received inconsistant SLIP encoded message. Ignoring data...";
                 } else {
                     qCDebug(dcTunnelProxyServerTraffic()) << "Frame received";
-                    packets.append(m_dataBuffer);
+                    packets.append(frame);
                     m_dataBuffer.clear();
                 }
             } else {
-- 
2.43.0


From 37997deea152a6ca853c6c68d04d329525fb14d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:23 +0000
Subject: [PATCH 02/17] fix: drop an invalid SLIP frame from the buffer so
 following frames are decoded

---
 libnymea-remoteproxy/tunnelproxy/tunnelproxyclient.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libnymea-remoteproxy/tunnelproxy/tunnelproxyclient.cpp b/libnymea-remoteproxy/tunnelproxy/tunnelproxyclient.cpp
index 9d08a8d..561fd05 100644
--- a/libnymea-remoteproxy/tunnelproxy/tunnelproxyclient.cpp
+++ b/libnymea-remoteproxy/tunnelproxy/tunnelproxyclient.cpp
@@ -84,8 +84,8 @@ QList<QByteArray> TunnelProxyClient::processData(const QByteArray &data)
                 } else {
                     qCDebug(dcTunnelProxyServerTraffic()) << "Frame received";
                     packets.append(frame);
-                    m_dataBuffer.clear();
                 }
+                m_dataBuffer.clear();
             } else {
                 m_dataBuffer.append(data.at(i));
             }
-- 
2.43.0


From 933ddfc0e8f412d1e0741d4bb17ee2999757b705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:12 +0000
Subject: [PATCH 03/17] fix: give every client JSON-RPC request its own id

---
 libnymea-remoteproxyclient/jsonreply.cpp          |  1 -
 libnymea-remoteproxyclient/proxyjsonrpcclient.cpp | 10 +++++-----
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/libnymea-remoteproxyclient/jsonreply.cpp b/libnymea-remoteproxyclient/jsonreply.cpp
index 34dbddd..956b8a3 100644
--- a/libnymea-remoteproxyclient/jsonreply.cpp
+++ b/libnymea-remoteproxyclient/jsonreply.cpp
@@ -67,7 +67,6 @@ QVariantMap JsonReply::requestMap()
     if (!m_params.isEmpty())
         request.insert("params", params());
 
-    m_commandId++;
     return request;
 }
 
diff --git a/libnymea-remoteproxyclient/proxyjsonrpcclient.cpp b/libnymea-remoteproxyclient/proxyjsonrpcclient.cpp
index 84ec7f8..8ed1923 100644
--- a/libnymea-remoteproxyclient/proxyjsonrpcclient.cpp
+++ b/libnymea-remoteproxyclient/proxyjsonrpcclient.cpp
@@ -48,7 +48,7 @@ JsonReply *JsonRpcClient::callHello()
     JsonReply *reply = new JsonReply(m_commandId, "RemoteProxy", "Hello", QVariantMap(), this);
     qCDebug(dcRemoteProxyClientJsonRpc()) << "Calling" << QString("%1.%2").arg(reply->nameSpace()).arg(reply->method());
     sendRequest(reply->requestMap());
-    m_replies.insert(m_commandId, reply);
+    m_replies.insert(m_commandId++, reply);
     return reply;
 }
 
@@ -61,7 +61,7 @@ JsonReply *JsonRpcClient::callRegisterServer(const QUuid &serverUuid, const QStr
     JsonReply *reply = new JsonReply(m_commandId, "TunnelProxy", "RegisterServer", params, this);
     qCDebug(dcRemoteProxyClientJsonRpc()) << "Calling" << QString("%1.%2").arg(reply->nameSpace()).arg(reply->method());
     sendRequest(reply->requestMap());
-    m_replies.insert(m_commandId, reply);
+    m_replies.insert(m_commandId++, reply);
     return reply;
 }
 
@@ -75,7 +75,7 @@ JsonReply *JsonRpcClient::callRegisterClient(const QUuid &clientUuid, const QStr
     JsonReply *reply = new JsonReply(m_commandId, "TunnelProxy", "RegisterClient", params, this);
     qCDebug(dcRemoteProxyClientJsonRpc()) << "Calling" << QString("%1.%2").arg(reply->nameSpace()).arg(reply->method());
     sendRequest(reply->requestMap());
-    m_replies.insert(m_commandId, reply);
+    m_replies.insert(m_commandId++, reply);
     return reply;
 }
 
@@ -87,7 +87,7 @@ JsonReply *JsonRpcClient::callDisconnectClient(quint16 socketAddress)
     JsonReply *reply = new JsonReply(m_commandId, "TunnelProxy", "DisconnectClient", params, this);
     qCDebug(dcRemoteProxyClientJsonRpc()) << "Calling" << QString("%1.%2").arg(reply->nameSpace()).arg(reply->method());
     sendRequest(reply->requestMap(), true);
-    m_replies.insert(m_commandId, reply);
+    m_replies.insert(m_commandId++, reply);
     return reply;
 }
 
@@ -99,7 +99,7 @@ JsonReply *JsonRpcClient::callPing(uint timestamp)
     JsonReply *reply = new JsonReply(m_commandId, "TunnelProxy", "Ping", params, this);
     qCDebug(dcRemoteProxyClientJsonRpc()) << "Calling" << QString("%1.%2").arg(reply->nameSpace()).arg(reply->method());
     sendRequest(reply->requestMap(), true);
-    m_replies.insert(m_commandId, reply);
+    m_replies.insert(m_commandId++, reply);
     return reply;
 }
 
-- 
2.43.0


From c7d231d8552d80e5d7b0d7ba9c6ecc14a2bf2c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:12 +0000
Subject: [PATCH 04/17] fix: never take a notification for the reply with the
 same id

---
 libnymea-remoteproxyclient/proxyjsonrpcclient.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libnymea-remoteproxyclient/proxyjsonrpcclient.cpp b/libnymea-remoteproxyclient/proxyjsonrpcclient.cpp
index 8ed1923..b618f05 100644
--- a/libnymea-remoteproxyclient/proxyjsonrpcclient.cpp
+++ b/libnymea-remoteproxyclient/proxyjsonrpcclient.cpp
@@ -133,7 +133,8 @@ void JsonRpcClient::processDataPacket(const QByteArray &data)
 
     // check if this is a reply to a request
     int commandId = dataMap.value("id").toInt();
-    JsonReply *reply = m_replies.take(commandId);
+    // Note: notifications have their own id counter, they are never a reply
+    JsonReply *reply = dataMap.contains("notification") ? nullptr : m_replies.take(commandId);
     if (reply) {
         qCDebug(dcRemoteProxyClientJsonRpcTraffic()) << QString("Got response for %1.%2: %3").arg(reply->nameSpace(), reply->method(), QString::fromUtf8(jsonDoc.toJson(QJsonDocument::Indented)));
 
-- 
2.43.0


From 6230c4e90ceb4725534e766793a8302b27716223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:12 +0000
Subject: [PATCH 05/17] fix: print the client's own traffic counters on the
 monitor's client lines

---
 monitor/noninteractivemonitor.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/monitor/noninteractivemonitor.cpp b/monitor/noninteractivemonitor.cpp
index f149bc7..cf41d42 100644
--- a/monitor/noninteractivemonitor.cpp
+++ b/monitor/noninteractivemonitor.cpp
@@ -97,8 +97,8 @@ void NonInteractiveMonitor::onConnected()
                         .arg(QDateTime::fromMSecsSinceEpoch(clientMap.value("timestamp").toLongLong() * 1000).toString("dd.MM.yyyy hh:mm:ss"))
                         .arg(clientMap.value("clientUuid").toString())
                         .arg(clientMap.value("address").toString(), - 15)
-                        .arg(Utils::humanReadableTraffic(serverMap.value("rxDataCount").toInt()), - 9)
-                        .arg(Utils::humanReadableTraffic(serverMap.value("txDataCount").toInt()), - 9)
+                        .arg(Utils::humanReadableTraffic(clientMap.value("rxDataCount").toInt()), - 9)
+                        .arg(Utils::humanReadableTraffic(clientMap.value("txDataCount").toInt()), - 9)
                         .arg(clientMap.value("name").toString(), -30);
 
                 qStdOut() << clientLinePrint << "\n";
-- 
2.43.0


From ddd812ded714ac530720e704c8725af571b96adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:12 +0000
Subject: [PATCH 06/17] fix: reject out of range socket addresses in
 DisconnectClient instead of truncating them

---
 libnymea-remoteproxy/jsonrpc/tunnelproxyhandler.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libnymea-remoteproxy/jsonrpc/tunnelproxyhandler.cpp b/libnymea-remoteproxy/jsonrpc/tunnelproxyhandler.cpp
index beea4c9..7859384 100644
--- a/libnymea-remoteproxy/jsonrpc/tunnelproxyhandler.cpp
+++ b/libnymea-remoteproxy/jsonrpc/tunnelproxyhandler.cpp
@@ -121,7 +121,9 @@ JsonReply *TunnelProxyHandler::RegisterServer(const QVariantMap &params, Transpo
 JsonReply *TunnelProxyHandler::DisconnectClient(const QVariantMap &params, TransportClient *transportClient)
 {
     qCDebug(dcJsonRpc()) << name() << "disconnect client requested" << params << transportClient;
-    quint16 socketAddress = static_cast<quint16>(params.value("socketAddress").toUInt());
+    // Note: an out of range value must not alias the address of another client, 0xFFFF is never assigned
+    const qulonglong requestedAddress = params.value("socketAddress").toULongLong();
+    quint16 socketAddress = requestedAddress > 0xFFFF ? 0xFFFF : static_cast<quint16>(requestedAddress);
     TunnelProxyServer::TunnelProxyError error = Engine::instance()->tunnelProxyServer()->disconnectClient(transportClient->clientId(), socketAddress);
 
     QVariantMap response;
-- 
2.43.0


From cc2619eb4f6d4a90c633d5d5dc9c89ec0211a9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:49 +0000
Subject: [PATCH 07/17] fix: never hand out a socket address that is reserved
 or already in use

---
 .../tunnelproxy/tunnelproxyserver.cpp              | 12 ++++++++----
 .../tunnelproxy/tunnelproxyserverconnection.cpp    | 14 +++++++++-----
 .../tunnelproxy/tunnelproxyserverconnection.h      |  3 +--
 3 files changed, 18 insertions(+), 11 deletions(-)

diff --git a/libnymea-remoteproxy/tunnelproxy/tunnelproxyserver.cpp b/libnymea-remoteproxy/tunnelproxy/tunnelproxyserver.cpp
index 22737aa..87cc7d7 100644
--- a/libnymea-remoteproxy/tunnelproxy/tunnelproxyserver.cpp
+++ b/libnymea-remoteproxy/tunnelproxy/tunnelproxyserver.cpp
@@ -169,6 +169,14 @@ TunnelProxyServer::TunnelProxyError TunnelProxyServer::registerClient(const QUui
     }
 
 
+    TunnelProxyClientConnection *clientConnection = new TunnelProxyClientConnection(tunnelProxyClient, clientUuid, clientName, this);
+    if (!serverConnection->registerClientConnection(clientConnection)) {
+        qCWarning(dcTunnelProxyServer()) << "There is no free socket address left on server connection" << serverConnection;
+        delete clientConnection;
+        tunnelProxyClient->killConnectionAfterResponse("No free socket address");
+        return TunnelProxyServer::TunnelProxyErrorInternalServerError;
+    }
+
     // Not registered yet, we have a connected server for the requested server uuid
     tunnelProxyClient->setType(TunnelProxyClient::TypeClient);
     tunnelProxyClient->setUuid(clientUuid);
@@ -178,11 +186,7 @@ TunnelProxyServer::TunnelProxyError TunnelProxyServer::registerClient(const QUui
     // Make sure it does not get disconnected any more because due to inactivity.
     tunnelProxyClient->activateClient();
 
-    TunnelProxyClientConnection *clientConnection = new TunnelProxyClientConnection(tunnelProxyClient, clientUuid, clientName, this);
-    clientConnection->setServerConnection(serverConnection);
     m_tunnelProxyClientConnections.insert(clientUuid, clientConnection);
-
-    serverConnection->registerClientConnection(clientConnection);
     qCDebug(dcTunnelProxyServer()) << "New client connection registered successfully" << clientConnection << "-->" << serverConnection;;
 
     // Tell the server a new client want's to connect
diff --git a/libnymea-remoteproxy/tunnelproxy/tunnelproxyserverconnection.cpp b/libnymea-remoteproxy/tunnelproxy/tunnelproxyserverconnection.cpp
index 0eb8690..d28b569 100644
--- a/libnymea-remoteproxy/tunnelproxy/tunnelproxyserverconnection.cpp
+++ b/libnymea-remoteproxy/tunnelproxy/tunnelproxyserverconnection.cpp
@@ -60,13 +60,17 @@ QList<TunnelProxyClientConnection *> TunnelProxyServerConnection::clientConnecti
     return m_clientConnections.values();
 }
 
-void TunnelProxyServerConnection::registerClientConnection(TunnelProxyClientConnection *clientConnection)
+bool TunnelProxyServerConnection::registerClientConnection(TunnelProxyClientConnection *clientConnection)
 {
     quint16 socketAddress = getFreeAddress();
+    if (socketAddress == 0x0000)
+        return false;
+
     clientConnection->setSocketAddress(socketAddress);
     clientConnection->setServerConnection(this);
     m_clientConnectionsAddresses.insert(socketAddress, clientConnection);
     m_clientConnections.insert(clientConnection->clientUuid(), clientConnection);
+    return true;
 }
 
 void TunnelProxyServerConnection::unregisterClientConnection(TunnelProxyClientConnection *clientConnection)
@@ -86,16 +90,16 @@ quint16 TunnelProxyServerConnection::getFreeAddress()
 {
     m_currentAddressCounter += 1;
     quint16 address = m_currentAddressCounter;
-    for (int i = 0; i < m_connectionLimit; i++) {
+    for (int i = 0; i <= 0xFFFF; i++) {
         if (m_clientConnectionsAddresses.contains(address) || address == 0x0000 || address == 0xFFFF) {
             address++;
         } else {
-            break;
+            return address;
         }
     }
 
-    Q_ASSERT_X(!m_clientConnectionsAddresses.contains(address), "TunnelProxyServerConnection", "no free address but the maximum of connections has been reached.");
-    return address;
+    // All addresses are in use
+    return 0x0000;
 }
 
 QDebug operator<<(QDebug debug, TunnelProxyServerConnection *serverConnection)
diff --git a/libnymea-remoteproxy/tunnelproxy/tunnelproxyserverconnection.h b/libnymea-remoteproxy/tunnelproxy/tunnelproxyserverconnection.h
index 17f62cc..8714bd3 100644
--- a/libnymea-remoteproxy/tunnelproxy/tunnelproxyserverconnection.h
+++ b/libnymea-remoteproxy/tunnelproxy/tunnelproxyserverconnection.h
@@ -50,7 +50,7 @@ public:
 
     QList<TunnelProxyClientConnection *> clientConnections() const;
 
-    void registerClientConnection(TunnelProxyClientConnection *clientConnection);
+    bool registerClientConnection(TunnelProxyClientConnection *clientConnection);
     void unregisterClientConnection(TunnelProxyClientConnection *clientConnection);
 
     TunnelProxyClientConnection *getClientConnection(quint16 socketAddress);
@@ -59,7 +59,6 @@ private:
     TransportClient *m_transportClient = nullptr;
     QUuid m_serverUuid;
     QString m_serverName;
-    quint16 m_connectionLimit = 100;
 
     quint16 m_currentAddressCounter = 0;
 
-- 
2.43.0


From 9f52a98995efe02ed4b5825a8756ecea67e594c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:07 +0000
Subject: [PATCH 08/17] fix: reject SLIP data which ends within an escape
 sequence

---
 common/slipdataprocessor.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/common/slipdataprocessor.cpp b/common/slipdataprocessor.cpp
index a2ab18a..352a17f 100644
--- a/common/slipdataprocessor.cpp
+++ b/common/slipdataprocessor.cpp
@@ -62,6 +62,11 @@ QByteArray SlipDataProcessor::deserializeData(const QByteArray &data)
         }
     }
 
+    if (escaped) {
+        qWarning() << "Error while deserializing data. The data ends within an escape sequence.";
+        return QByteArray();
+    }
+
     return deserializedData;
 }
 
-- 
2.43.0


From 12141305f16140e2ac85609cf7688fef189f8caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:06 +0000
Subject: [PATCH 09/17] fix: a status change queued by start() must not report
 running after stop()

---
 libnymea-remoteproxy/engine.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libnymea-remoteproxy/engine.cpp b/libnymea-remoteproxy/engine.cpp
index 8777293..6bd832b 100644
--- a/libnymea-remoteproxy/engine.cpp
+++ b/libnymea-remoteproxy/engine.cpp
@@ -250,6 +250,10 @@ void Engine::setRunning(bool running)
     if (m_running == running)
         return;
 
+    // Note: start() reports running from the event loop, the engine might have been stopped in the meantime
+    if (running && !m_tunnelProxyServer)
+        return;
+
     if (m_tunnelProxyServer)
         m_tunnelProxyServer->setRunning(running);
 
-- 
2.43.0


From 6d0e9f0e2869d3b03aaa64ae2c47133a8fe6bc87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:06 +0000
Subject: [PATCH 10/17] fix: refuse a configuration whose TLS certificate or
 key can not be parsed

---
 libnymea-remoteproxy/proxyconfiguration.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/libnymea-remoteproxy/proxyconfiguration.cpp b/libnymea-remoteproxy/proxyconfiguration.cpp
index 015cc63..28b6423 100644
--- a/libnymea-remoteproxy/proxyconfiguration.cpp
+++ b/libnymea-remoteproxy/proxyconfiguration.cpp
@@ -95,8 +95,12 @@ bool ProxyConfiguration::loadConfiguration(const QString &fileName)
         return false;
     }
     QSslCertificate certificate(&certFile, QSsl::Pem);
-    qCDebug(dcApplication()) << "Loaded successfully certificate" << sslCertificateFileName();
     certFile.close();
+    if (sslEnabled() && certificate.isNull()) {
+        qCWarning(dcApplication()) << "Could not load a certificate from file" << sslCertificateFileName();
+        return false;
+    }
+    qCDebug(dcApplication()) << "Loaded successfully certificate" << sslCertificateFileName();
     sslConfiguration.setLocalCertificate(certificate);
 
     // SSL certificate key
@@ -106,8 +110,12 @@ bool ProxyConfiguration::loadConfiguration(const QString &fileName)
         return false;
     }
     QSslKey sslKey(&certKeyFile, QSsl::Rsa, QSsl::Pem, QSsl::PrivateKey);
-    qCDebug(dcApplication()) << "Loaded successfully certificate key" << sslCertificateKeyFileName();
     certKeyFile.close();
+    if (sslEnabled() && sslKey.isNull()) {
+        qCWarning(dcApplication()) << "Could not load a certificate key from file" << sslCertificateKeyFileName();
+        return false;
+    }
+    qCDebug(dcApplication()) << "Loaded successfully certificate key" << sslCertificateKeyFileName();
     sslConfiguration.setPrivateKey(sslKey);
 
     // SSL certificate chain
-- 
2.43.0


From 6e7a6ebf3489ac9341bf18573c86866fba0c259a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:04 +0000
Subject: [PATCH 11/17] fix: an abandoned client connection must not tear down
 the one that replaced it

---
 .../tunnelproxy/tunnelproxyremoteconnection.cpp                 | 2 ++
 .../tunnelproxy/tunnelproxysocketserver.cpp                     | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxyremoteconnection.cpp b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxyremoteconnection.cpp
index 43274af..84a3183 100644
--- a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxyremoteconnection.cpp
+++ b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxyremoteconnection.cpp
@@ -301,6 +301,8 @@ void TunnelProxyRemoteConnection::cleanUp()
     }
 
     if (m_connection) {
+        // Note: closing the abandoned connection must not affect a new one
+        disconnect(m_connection, nullptr, this, nullptr);
         m_connection->deleteLater();
         m_connection = nullptr;
     }
diff --git a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp
index 8cda6e7..7694ca4 100644
--- a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp
+++ b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp
@@ -457,6 +457,8 @@ void TunnelProxySocketServer::cleanUp()
     }
 
     if (m_connection) {
+        // Note: closing the abandoned connection must not affect a new one
+        disconnect(m_connection, nullptr, this, nullptr);
         m_connection->deleteLater();
         m_connection = nullptr;
     }
-- 
2.43.0


From 4521a96af6305e7c2aa6660471e29c154b3679a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:39 +0000
Subject: [PATCH 12/17] fix: retry to connect also if the first attempt of the
 socket server fails right away

---
 .../tunnelproxy/tunnelproxysocketserver.cpp                   | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp
index 7694ca4..b197216 100644
--- a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp
+++ b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp
@@ -148,8 +148,10 @@ bool TunnelProxySocketServer::startServer(const QUrl &serverUrl)
     connect(m_jsonClient, &JsonRpcClient::tunnelProxyClientDisonnected, this, &TunnelProxySocketServer::onTunnelProxyClientDisconnected);
 
     qCDebug(dcTunnelProxySocketServer()) << "Connecting to" << m_serverUrl.toString();
-    m_connection->connectServer(m_serverUrl);
+    // Note: connecting might fail right away, without any state change
     m_enabled = true;
+    m_reconnectTimer.start();
+    m_connection->connectServer(m_serverUrl);
 
     return true;
 }
-- 
2.43.0


From 1f2cbb7a372a8e6f6977dfbe57510637c4a82a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:39 +0000
Subject: [PATCH 13/17] fix: a packet without id is not a reply to the first
 request

---
 libnymea-remoteproxyclient/proxyjsonrpcclient.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libnymea-remoteproxyclient/proxyjsonrpcclient.cpp b/libnymea-remoteproxyclient/proxyjsonrpcclient.cpp
index b618f05..5dbe7e8 100644
--- a/libnymea-remoteproxyclient/proxyjsonrpcclient.cpp
+++ b/libnymea-remoteproxyclient/proxyjsonrpcclient.cpp
@@ -132,9 +132,10 @@ void JsonRpcClient::processDataPacket(const QByteArray &data)
     qCDebug(dcRemoteProxyClientJsonRpcTraffic()) << "Data received" << qUtf8Printable(data);
 
     // check if this is a reply to a request
-    int commandId = dataMap.value("id").toInt();
+    bool idValid = false;
+    int commandId = dataMap.value("id").toInt(&idValid);
     // Note: notifications have their own id counter, they are never a reply
-    JsonReply *reply = dataMap.contains("notification") ? nullptr : m_replies.take(commandId);
+    JsonReply *reply = !idValid || dataMap.contains("notification") ? nullptr : m_replies.take(commandId);
     if (reply) {
         qCDebug(dcRemoteProxyClientJsonRpcTraffic()) << QString("Got response for %1.%2: %3").arg(reply->nameSpace(), reply->method(), QString::fromUtf8(jsonDoc.toJson(QJsonDocument::Indented)));
 
-- 
2.43.0


From 6db05bfb15ebec9da5618ae6d701f9f70e2cc339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:39 +0000
Subject: [PATCH 14/17] fix: do not lose the data which follows the
 registration response in the same chunk

---
 .../proxyjsonrpcclient.cpp                    | 19 ++++++++++++-------
 .../proxyjsonrpcclient.h                      |  3 +++
 .../tunnelproxyremoteconnection.cpp           |  6 ++++++
 .../tunnelproxy/tunnelproxysocketserver.cpp   | 10 ++++++++--
 4 files changed, 29 insertions(+), 9 deletions(-)

diff --git a/libnymea-remoteproxyclient/proxyjsonrpcclient.cpp b/libnymea-remoteproxyclient/proxyjsonrpcclient.cpp
index 5dbe7e8..b700d5d 100644
--- a/libnymea-remoteproxyclient/proxyjsonrpcclient.cpp
+++ b/libnymea-remoteproxyclient/proxyjsonrpcclient.cpp
@@ -181,16 +181,21 @@ void JsonRpcClient::processData(const QByteArray &data)
 
     // Handle packet fragmentation
     m_dataBuffer.append(data);
-    int splitIndex = m_dataBuffer.indexOf("}\n{");
+    int splitIndex = m_dataBuffer.indexOf("}\n");
     while (splitIndex > -1) {
-        processDataPacket(m_dataBuffer.left(splitIndex + 1));
+        QByteArray packet = m_dataBuffer.left(splitIndex + 1);
         m_dataBuffer = m_dataBuffer.right(m_dataBuffer.length() - splitIndex - 2);
-        splitIndex = m_dataBuffer.indexOf("}\n{");
-    }
-    if (m_dataBuffer.endsWith("}\n") || m_dataBuffer.endsWith("}")) {
-        processDataPacket(m_dataBuffer);
-        m_dataBuffer.clear();
+        // Note: handling the packet might take the remaining data
+        processDataPacket(packet);
+        splitIndex = m_dataBuffer.indexOf("}\n");
     }
 }
 
+QByteArray JsonRpcClient::takeBufferedData()
+{
+    QByteArray data = m_dataBuffer;
+    m_dataBuffer.clear();
+    return data;
+}
+
 }
diff --git a/libnymea-remoteproxyclient/proxyjsonrpcclient.h b/libnymea-remoteproxyclient/proxyjsonrpcclient.h
index 9427349..3d66b83 100644
--- a/libnymea-remoteproxyclient/proxyjsonrpcclient.h
+++ b/libnymea-remoteproxyclient/proxyjsonrpcclient.h
@@ -56,6 +56,9 @@ public:
     JsonReply *callDisconnectClient(quint16 socketAddress);
     JsonReply *callPing(uint timestamp);
 
+    // Data which has been received, but not processed yet
+    QByteArray takeBufferedData();
+
 private:
     ProxyConnection *m_connection = nullptr;
 
diff --git a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxyremoteconnection.cpp b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxyremoteconnection.cpp
index 84a3183..f751866 100644
--- a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxyremoteconnection.cpp
+++ b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxyremoteconnection.cpp
@@ -262,7 +262,13 @@ void TunnelProxyRemoteConnection::onClientRegistrationFinished()
     }
 
     qCDebug(dcTunnelProxyRemoteConnection()) << "Registered successfully as tunnel client on the remote proxy server.";
+
+    // Everything following the response is already data from the tunnel
+    QByteArray tunnelData = m_jsonClient->takeBufferedData();
     setState(StateRemoteConnected);
+    if (!tunnelData.isEmpty() && m_state == StateRemoteConnected) {
+        emit dataReady(tunnelData);
+    }
 }
 
 void TunnelProxyRemoteConnection::setState(State state)
diff --git a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp
index b197216..cc930a8 100644
--- a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp
+++ b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp
@@ -195,8 +195,8 @@ void TunnelProxySocketServer::onConnectionDataAvailable(const QByteArray &data)
     m_keepAliveTimer.start();
 
     if (m_state != StateRunning) {
-        m_jsonClient->processData(data);
         m_dataBuffer.clear();
+        m_jsonClient->processData(data);
         return;
     }
 
@@ -317,8 +317,14 @@ void TunnelProxySocketServer::onServerRegistrationFinished()
     }
 
     qCDebug(dcTunnelProxySocketServer()) << "Registered successfully as tunnel server on the remote proxy server.";
-    setState(StateRunning);
     m_serverError = ErrorNoError;
+
+    // Everything following the response is already SLIP encoded
+    QByteArray slipData = m_jsonClient->takeBufferedData();
+    setState(StateRunning);
+    if (!slipData.isEmpty() && m_state == StateRunning) {
+        onConnectionDataAvailable(slipData);
+    }
 }
 
 void TunnelProxySocketServer::onTunnelProxyClientConnected(const QString &clientName, const QUuid &clientUuid, const QString &clientPeerAddress, quint16 socketAddress)
-- 
2.43.0


From 7f0d06ab6d2b3aeda79929501a2755005c1a300a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:39 +0000
Subject: [PATCH 15/17] fix: do not use the connection any more once a slot of
 the application closed it

---
 .../tunnelproxy/tunnelproxyremoteconnection.cpp    | 10 +++++++++-
 .../tunnelproxy/tunnelproxysocketserver.cpp        | 14 +++++++++++++-
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxyremoteconnection.cpp b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxyremoteconnection.cpp
index f751866..5dfbf03 100644
--- a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxyremoteconnection.cpp
+++ b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxyremoteconnection.cpp
@@ -164,7 +164,13 @@ void TunnelProxyRemoteConnection::onConnectionChanged(bool connected)
     if (connected) {
         qCDebug(dcTunnelProxyRemoteConnection()) << "Connected to remote proxy server.";
         setState(StateConnected);
-        setState(StateInitializing);
+        // Note: a slot connected to stateChanged() might have closed the connection
+        if (m_state == StateConnected)
+            setState(StateInitializing);
+
+        if (m_state != StateInitializing)
+            return;
+
         JsonReply *reply = m_jsonClient->callHello();
         connect(reply, &JsonReply::finished, this, &TunnelProxyRemoteConnection::onHelloFinished);
     } else {
@@ -235,6 +241,8 @@ void TunnelProxyRemoteConnection::onHelloFinished()
     m_remoteProxyApiVersion = responseParams.value("apiVersion").toString();
 
     setState(StateRegister);
+    if (m_state != StateRegister)
+        return;
 
     JsonReply *registerReply = m_jsonClient->callRegisterClient(m_clientUuid, m_clientName, m_serverUuid);
     connect(registerReply, &JsonReply::finished, this, &TunnelProxyRemoteConnection::onClientRegistrationFinished);
diff --git a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp
index cc930a8..550524d 100644
--- a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp
+++ b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp
@@ -176,7 +176,13 @@ void TunnelProxySocketServer::onConnectionChanged(bool connected)
         setState(StateConnected);
         m_serverError = TunnelProxySocketServer::ErrorNoError;
 
-        setState(StateInitializing);
+        // Note: a slot connected to stateChanged() might have closed the connection
+        if (m_state == StateConnected)
+            setState(StateInitializing);
+
+        if (m_state != StateInitializing)
+            return;
+
         JsonReply *reply = m_jsonClient->callHello();
         connect(reply, &JsonReply::finished, this, &TunnelProxySocketServer::onHelloFinished);
     } else {
@@ -228,6 +234,10 @@ void TunnelProxySocketServer::onConnectionDataAvailable(const QByteArray &data)
             }
 
             m_dataBuffer.clear();
+
+            // The server might have been stopped in the meantime
+            if (m_state != StateRunning)
+                return;
         } else {
             m_dataBuffer.append(data.at(i));
         }
@@ -288,6 +298,8 @@ void TunnelProxySocketServer::onHelloFinished()
     m_remoteProxyApiVersion = responseParams.value("apiVersion").toString();
 
     setState(StateRegister);
+    if (m_state != StateRegister)
+        return;
 
     JsonReply *registerReply = m_jsonClient->callRegisterServer(m_serverUuid, m_serverName);
     connect(registerReply, &JsonReply::finished, this, &TunnelProxySocketServer::onServerRegistrationFinished);
-- 
2.43.0


From 11d8d42a21feaf2413b7292786fefaf758953878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:26 +0000
Subject: [PATCH 16/17] fix: do not stop the reconnect timer of a server which
 was restarted by a slot

---
 .../tunnelproxy/tunnelproxysocketserver.cpp                    | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp
index 550524d..72f68b5 100644
--- a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp
+++ b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp
@@ -263,9 +263,10 @@ void TunnelProxySocketServer::onConnectionStateChanged(QAbstractSocket::SocketSt
         setState(StateConnecting);
         break;
     case QAbstractSocket::ConnectedState:
-        setState(StateConnected);
+        // Note: a slot connected to stateChanged() might restart the server, and with it this timer
         qCDebug(dcTunnelProxySocketServer()) << "Stopping reconnect timer.";
         m_reconnectTimer.stop();
+        setState(StateConnected);
         break;
     case QAbstractSocket::ClosingState:
         setState(StateDiconnecting);
-- 
2.43.0


From 721b4c5cda77e2d08186727184ce926e34486633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:03 +0000
Subject: [PATCH 17/17] fix: read every status message in the monitor, however
 it was divided

---
 monitor/monitorclient.cpp | 28 +++++++++++++---------------
 monitor/monitorclient.h   |  2 +-
 2 files changed, 14 insertions(+), 16 deletions(-)

diff --git a/monitor/monitorclient.cpp b/monitor/monitorclient.cpp
index c1ec45b..7a7ca8e 100644
--- a/monitor/monitorclient.cpp
+++ b/monitor/monitorclient.cpp
@@ -50,10 +50,10 @@ void MonitorClient::setPrintAll(bool printAll)
     m_printAll = printAll;
 }
 
-void MonitorClient::processBufferData()
+void MonitorClient::processData(const QByteArray &data)
 {
     QJsonParseError error;
-    QJsonDocument jsonDoc = QJsonDocument::fromJson(m_dataBuffer, &error);
+    QJsonDocument jsonDoc = QJsonDocument::fromJson(data, &error);
     if(error.error != QJsonParseError::NoError) {
         qWarning() << "Failed to parse JSON data:" << error.errorString();
         return;
@@ -73,6 +73,7 @@ void MonitorClient::processBufferData()
 void MonitorClient::onConnected()
 {
     qDebug() << "Monitor connected to" << m_serverName;
+    m_dataBuffer.clear();
     emit connected();
 }
 
@@ -84,19 +85,16 @@ void MonitorClient::onDisconnected()
 
 void MonitorClient::onReadyRead()
 {
-    // Note: the server sends the data compact with "\n" at the end
-    QByteArray data = m_socket->readAll();
-
-    int index = data.indexOf("}\n");
-    if (index < 0) {
-        // Append the entire data and continue
-        m_dataBuffer.append(data);
-        return;
-    } else {
-        m_dataBuffer.append(data.left(index + 1));
-        processBufferData();
-        m_dataBuffer.clear();
-        m_dataBuffer.append(data.right(data.length() - index - 2));
+    // Note: the server sends the data compact with "\n" at the end. A message might arrive in several
+    // parts, and several messages might arrive at once.
+    m_dataBuffer.append(m_socket->readAll());
+
+    int index = m_dataBuffer.indexOf("}\n");
+    while (index >= 0) {
+        QByteArray data = m_dataBuffer.left(index + 1);
+        m_dataBuffer.remove(0, index + 2);
+        processData(data);
+        index = m_dataBuffer.indexOf("}\n");
     }
 }
 
diff --git a/monitor/monitorclient.h b/monitor/monitorclient.h
index 113b3df..1293be7 100644
--- a/monitor/monitorclient.h
+++ b/monitor/monitorclient.h
@@ -48,7 +48,7 @@ private:
     bool m_printAll = false;
     QByteArray m_dataBuffer;
 
-    void processBufferData();
+    void processData(const QByteArray &data);
 
 signals:
     void connected();
-- 
2.43.0

