# a second, independent set of refactorings: members declared in headers, merged conditions, moved code
TPS, TPH = 'libnymea-remoteproxy/tunnelproxy/tunnelproxyserver.cpp', 'libnymea-remoteproxy/tunnelproxy/tunnelproxyserver.h'
TSC, TSCH = 'libnymea-remoteproxy/tunnelproxy/tunnelproxyserverconnection.cpp', 'libnymea-remoteproxy/tunnelproxy/tunnelproxyserverconnection.h'
TC, TCH = 'libnymea-remoteproxy/tunnelproxy/tunnelproxyclient.cpp', 'libnymea-remoteproxy/tunnelproxy/tunnelproxyclient.h'
JS, JH = 'libnymea-remoteproxy/server/jsonrpcserver.cpp', 'libnymea-remoteproxy/server/jsonrpcserver.h'
EN, ENH = 'libnymea-remoteproxy/engine.cpp', 'libnymea-remoteproxy/engine.h'
MS = 'libnymea-remoteproxy/server/monitorserver.cpp'
TS = 'libnymea-remoteproxy/server/tcpsocketserver.cpp'
WS = 'libnymea-remoteproxy/server/websocketserver.cpp'
US = 'libnymea-remoteproxy/server/unixsocketserver.cpp'
RG = ['registerServer', 'registerClient', 'disconnectClient']
PRIV = 'private:\n    JsonRpcServer *m_jsonRpcServer = nullptr;'
r('m-refuse', RG, (TPH, PRIV, 'private:\n    TunnelProxyServer::TunnelProxyError refuse(TunnelProxyClient *client, const QString &reason, TunnelProxyServer::TunnelProxyError error);\n\n    JsonRpcServer *m_jsonRpcServer = nullptr;'),
  (TPS, '''        tunnelProxyClient->killConnectionAfterResponse("UUID cross registeration");
        return TunnelProxyServer::TunnelProxyErrorAlreadyRegistered;''', '''        return refuse(tunnelProxyClient, "UUID cross registeration", TunnelProxyServer::TunnelProxyErrorAlreadyRegistered);'''),
  (TPS, '''        tunnelProxyClient->killConnectionAfterResponse("Unknown server");
        return TunnelProxyServer::TunnelProxyErrorServerNotFound;''', '''        return refuse(tunnelProxyClient, "Unknown server", TunnelProxyServer::TunnelProxyErrorServerNotFound);'''),
  (TPS, 'TunnelProxyServer::TunnelProxyError TunnelProxyServer::disconnectClient', '''TunnelProxyServer::TunnelProxyError TunnelProxyServer::refuse(TunnelProxyClient *client, const QString &reason, TunnelProxyServer::TunnelProxyError error)
{
    client->killConnectionAfterResponse(reason);
    return error;
}

TunnelProxyServer::TunnelProxyError TunnelProxyServer::disconnectClient'''))
r('m-check', RG, (TPH, PRIV, 'private:\n    bool uuidInUse(const QUuid &uuid) const;\n\n    JsonRpcServer *m_jsonRpcServer = nullptr;'),
  (TPS, '''    if (m_tunnelProxyServerConnections.contains(serverUuid)) {
        qCWarning(dcTunnelProxyServer()) << "Client tried to register as server" << tunnelProxyClient << "but there is already a server registered with this server uuid:" << serverUuid.toString();
        tunnelProxyClient->killConnectionAfterResponse("Already registered");
        return TunnelProxyServer::TunnelProxyErrorAlreadyRegistered;
    }

    // Also make sure this uuid has not been alreay used for any client connections...
    if (m_tunnelProxyClientConnections.contains(serverUuid)) {
        qCWarning(dcTunnelProxyServer()) << "Client tried to register as server" << tunnelProxyClient << "but there is already a client connection using this server uuid:" << serverUuid.toString();
        tunnelProxyClient->killConnectionAfterResponse("UUID cross registeration");
        return TunnelProxyServer::TunnelProxyErrorAlreadyRegistered;
    }
''', '''    if (uuidInUse(serverUuid)) {
        tunnelProxyClient->killConnectionAfterResponse("Already registered");
        return TunnelProxyServer::TunnelProxyErrorAlreadyRegistered;
    }
'''),
  (TPS, 'TunnelProxyServer::TunnelProxyError TunnelProxyServer::disconnectClient', '''bool TunnelProxyServer::uuidInUse(const QUuid &uuid) const
{
    return m_tunnelProxyServerConnections.contains(uuid) || m_tunnelProxyClientConnections.contains(uuid);
}

TunnelProxyServer::TunnelProxyError TunnelProxyServer::disconnectClient'''))
r('m-regorder', RG, (TPS, '''    tunnelProxyClient->setType(TunnelProxyClient::TypeServer);
    tunnelProxyClient->setUuid(serverUuid);
    tunnelProxyClient->setName(serverName);
''', '''    tunnelProxyClient->setName(serverName);
    tunnelProxyClient->setUuid(serverUuid);
    tunnelProxyClient->setType(TunnelProxyClient::TypeServer);
'''))
r('m-notify', RG, (TPH, PRIV, 'private:\n    void notifyClientConnected(TunnelProxyClientConnection *clientConnection);\n\n    JsonRpcServer *m_jsonRpcServer = nullptr;'),
  (TPS, '''    QVariantMap params;
    params.insert("clientName", tunnelProxyClient->name());
    params.insert("clientUuid", tunnelProxyClient->uuid().toString());
    params.insert("clientPeerAddress", tunnelProxyClient->peerAddress().toString());
    params.insert("socketAddress", clientConnection->socketAddress());
    m_jsonRpcServer->sendNotification("TunnelProxy", "ClientConnected", params, serverConnection->transportClient());
''', '    notifyClientConnected(clientConnection);\n'),
  (TPS, 'TunnelProxyServer::TunnelProxyError TunnelProxyServer::disconnectClient', '''void TunnelProxyServer::notifyClientConnected(TunnelProxyClientConnection *clientConnection)
{
    TransportClient *client = clientConnection->transportClient();
    QVariantMap params;
    params.insert("clientName", client->name());
    params.insert("clientUuid", client->uuid().toString());
    params.insert("clientPeerAddress", client->peerAddress().toString());
    params.insert("socketAddress", clientConnection->socketAddress());
    m_jsonRpcServer->sendNotification("TunnelProxy", "ClientConnected", params, clientConnection->serverConnection()->transportClient());
}

TunnelProxyServer::TunnelProxyError TunnelProxyServer::disconnectClient'''))
r('m-find', RG, (TPS, '''    TunnelProxyClient *tunnelProxyClient = m_proxyClients.value(clientId);
    if (!tunnelProxyClient) {
        qCWarning(dcTunnelProxyServer()) << "There is no client with client uuid" << clientId.toString();
        return TunnelProxyServer::TunnelProxyErrorInternalServerError;
    }

    if (tunnelProxyClient->type() != TunnelProxyClient::TypeServer) {''', '''    if (!m_proxyClients.contains(clientId)) {
        qCWarning(dcTunnelProxyServer()) << "There is no client with client uuid" << clientId.toString();
        return TunnelProxyServer::TunnelProxyErrorInternalServerError;
    }

    TunnelProxyClient *tunnelProxyClient = m_proxyClients.value(clientId);
    if (tunnelProxyClient->type() != TunnelProxyClient::TypeServer) {'''))
DT = ['onClientDataAvailable']
CBLK_B = '''        // Send the data to the server using slip encoded frame
        TunnelProxyClientConnection *clientConnection = m_tunnelProxyClientConnections.value(tunnelProxyClient->uuid());
        if (!clientConnection) {
            qCWarning(dcTunnelProxyServer()) << "Could not find a client connection for client uuid" << tunnelProxyClient->uuid().toString();
            // FIXME: check what do with this client
            return;
        }

        if (!clientConnection->serverConnection()) {
            qCWarning(dcTunnelProxyServer()) << "Valid client wants to send data to the server, but there is no server registered for this client.";
            Q_ASSERT_X(clientConnection->serverConnection(), "TunnelProxyServer", "The client has not been registered to a server connection");
            return;
        }

        SlipDataProcessor::Frame frame;
        frame.socketAddress = clientConnection->socketAddress();
        frame.data = data;
        qCDebug(dcTunnelProxyServerTraffic()) << "--> Tunnel data to server socket address" << clientConnection->socketAddress() << "to" << clientConnection->serverConnection() << "\\n" << data;
        QByteArray rawData = SlipDataProcessor::serializeData(SlipDataProcessor::buildFrame(frame));
        clientConnection->serverConnection()->transportClient()->sendData(rawData);
        m_troughputCounter += data.count();

    }'''
r('m-data-client', DT, (TPS, CBLK_B, '        forwardClientData(tunnelProxyClient, data);\n    }'),
  (TPH, PRIV, 'private:\n    void forwardClientData(TunnelProxyClient *tunnelProxyClient, const QByteArray &data);\n\n    JsonRpcServer *m_jsonRpcServer = nullptr;'),
  (TPS, 'void TunnelProxyServer::onClientDataAvailable(', '''void TunnelProxyServer::forwardClientData(TunnelProxyClient *tunnelProxyClient, const QByteArray &data)
{
    TunnelProxyClientConnection *clientConnection = m_tunnelProxyClientConnections.value(tunnelProxyClient->uuid());
    if (!clientConnection)
        return;

    TunnelProxyServerConnection *serverConnection = clientConnection->serverConnection();
    if (!serverConnection) {
        qCWarning(dcTunnelProxyServer()) << "No server";
        return;
    }

    SlipDataProcessor::Frame frame;
    frame.data = data;
    frame.socketAddress = clientConnection->socketAddress();
    m_troughputCounter += data.size();
    serverConnection->transportClient()->sendData(SlipDataProcessor::serializeData(SlipDataProcessor::buildFrame(frame)));
}

void TunnelProxyServer::onClientDataAvailable('''))
FRM = '''                    // This data seems to be for a client with the given address
                    TunnelProxyServerConnection *serverConnection = m_tunnelProxyServerConnections.value(tunnelProxyClient->uuid());
                    if (!serverConnection) {
                        qCWarning(dcTunnelProxyServer()) << "Could not find server connection for" << tunnelProxyClient;
                        continue;
                    }

                    // Get the client and send the data to the client
                    TunnelProxyClientConnection *clientConnection = serverConnection->getClientConnection(frame.socketAddress);
                    if (!clientConnection) {
                        qCWarning(dcTunnelProxyServer()) << "The server connection wants to send data to a client connection which has not been registered to the server.";
                        continue;
                    }

                    qCDebug(dcTunnelProxyServerTraffic()) << "--> Tunnel data from server socket" << frame.socketAddress << "to" << clientConnection <<  "\\n" << frame.data;
                    clientConnection->transportClient()->sendData(frame.data);
                    m_troughputCounter += frame.data.count();
'''
r('m-data-server', DT, (TPS, FRM, '                    forwardServerFrame(tunnelProxyClient, frame);\n'),
  (TPH, PRIV, 'private:\n    void forwardServerFrame(TunnelProxyClient *tunnelProxyClient, const SlipDataProcessor::Frame &frame);\n\n    JsonRpcServer *m_jsonRpcServer = nullptr;'),
  (TPH, '#include <QObject>\n', '#include <QObject>\n#include "common/slipdataprocessor.h"\n'),
  (TPS, 'void TunnelProxyServer::onClientDataAvailable(', '''void TunnelProxyServer::forwardServerFrame(TunnelProxyClient *tunnelProxyClient, const SlipDataProcessor::Frame &frame)
{
    TunnelProxyServerConnection *serverConnection = m_tunnelProxyServerConnections.value(tunnelProxyClient->uuid());
    TunnelProxyClientConnection *clientConnection = serverConnection ? serverConnection->getClientConnection(frame.socketAddress) : nullptr;
    if (!clientConnection) {
        qCWarning(dcTunnelProxyServer()) << "No receiver for the frame";
        return;
    }

    clientConnection->transportClient()->sendData(frame.data);
    m_troughputCounter += frame.data.count();
}

void TunnelProxyServer::onClientDataAvailable('''))
r('m-data-switch', DT, (TPS, '    if (tunnelProxyClient->type() == TunnelProxyClient::TypeClient) {\n        // Send the data', '    const TunnelProxyClient::Type type = tunnelProxyClient->type();\n    if (type == TunnelProxyClient::TypeClient) {\n        // Send the data'),
  (TPS, '    } else if (tunnelProxyClient->type() == TunnelProxyClient::TypeServer) {\n        // Data coming', '    } else if (type == TunnelProxyClient::TypeServer) {\n        // Data coming'))
r('m-data-idx', DT, (TPS, '            foreach (const QByteArray &frameData, frames) {\n                SlipDataProcessor::Frame frame = SlipDataProcessor::parseFrame(frameData);', '            for (int i = 0; i < frames.count(); ++i) {\n                const SlipDataProcessor::Frame frame = SlipDataProcessor::parseFrame(frames.at(i));'))
r('m-data-iter', DT, (TPS, '            foreach (const QByteArray &frameData, frames) {\n                SlipDataProcessor::Frame frame = SlipDataProcessor::parseFrame(frameData);', '            for (auto it = frames.constBegin(); it != frames.constEnd(); ++it) {\n                const SlipDataProcessor::Frame frame = SlipDataProcessor::parseFrame(*it);'))
DC = ['onClientDisconnected']
r('m-disc-split', DC, (TPH, PRIV, 'private:\n    void removeServer(TunnelProxyClient *tunnelProxyClient);\n    void removeClient(TunnelProxyClient *tunnelProxyClient);\n\n    JsonRpcServer *m_jsonRpcServer = nullptr;'),
  (TPS, '''    if (tunnelProxyClient->type() == TunnelProxyClient::TypeServer) {
        TunnelProxyServerConnection *serverConnection = m_tunnelProxyServerConnections.take(tunnelProxyClient->uuid());
        if (!serverConnection) {
            qCWarning(dcTunnelProxyServer()) << "Could not find server connection for disconnected tunnel proxy client claiming to be a server.";
        } else {
            qCDebug(dcTunnelProxyServer()) << "Server connection disconnected" << interface->serverName() << clientId.toString();
            foreach (TunnelProxyClientConnection *clientConnection, serverConnection->clientConnections()) {
                serverConnection->unregisterClientConnection(clientConnection);
                clientConnection->transportClient()->killConnection("Server disconnected");
            }

            serverConnection->deleteLater();
        }
    }
''', '''    Q_UNUSED(interface)
    if (tunnelProxyClient->type() == TunnelProxyClient::TypeServer)
        removeServer(tunnelProxyClient);
'''),
  (TPS, '''    if (tunnelProxyClient->type() == TunnelProxyClient::TypeClient) {
        TunnelProxyClientConnection *clientConnection = m_tunnelProxyClientConnections.take(tunnelProxyClient->uuid());
        if (!clientConnection) {
            qCWarning(dcTunnelProxyServer()) << "Could not find client connection for disconnected tunnel proxy client claiming to be a client.";
        } else {
            TunnelProxyServerConnection *serverConnection = clientConnection->serverConnection();
            if (serverConnection) {
                QVariantMap params;
                params.insert("socketAddress", clientConnection->socketAddress());
                serverConnection->unregisterClientConnection(clientConnection);
                m_jsonRpcServer->sendNotification("TunnelProxy", "ClientDisconnected", params, serverConnection->transportClient());
            }

            clientConnection->deleteLater();
        }
    }
''', '''    else if (tunnelProxyClient->type() == TunnelProxyClient::TypeClient)
        removeClient(tunnelProxyClient);
'''),
  (TPS, 'void TunnelProxyServer::onClientDataAvailable(', '''void TunnelProxyServer::removeServer(TunnelProxyClient *tunnelProxyClient)
{
    TunnelProxyServerConnection *serverConnection = m_tunnelProxyServerConnections.take(tunnelProxyClient->uuid());
    if (!serverConnection)
        return;

    const QList<TunnelProxyClientConnection *> connections = serverConnection->clientConnections();
    for (TunnelProxyClientConnection *clientConnection : connections) {
        serverConnection->unregisterClientConnection(clientConnection);
        clientConnection->transportClient()->killConnection("Server disconnected");
    }

    serverConnection->deleteLater();
}

void TunnelProxyServer::removeClient(TunnelProxyClient *tunnelProxyClient)
{
    TunnelProxyClientConnection *clientConnection = m_tunnelProxyClientConnections.take(tunnelProxyClient->uuid());
    if (!clientConnection)
        return;

    if (TunnelProxyServerConnection *serverConnection = clientConnection->serverConnection()) {
        const quint16 socketAddress = clientConnection->socketAddress();
        serverConnection->unregisterClientConnection(clientConnection);
        QVariantMap params;
        params.insert("socketAddress", socketAddress);
        m_jsonRpcServer->sendNotification("TunnelProxy", "ClientDisconnected", params, serverConnection->transportClient());
    }

    clientConnection->deleteLater();
}

void TunnelProxyServer::onClientDataAvailable('''))
r('m-disc-value', DC, (TPS, '''    TunnelProxyClient *tunnelProxyClient = m_proxyClients.take(clientId);
    if (!tunnelProxyClient) {
        qCWarning(dcTunnelProxyServer()) << "Unknown client disconnected from proxy server." << clientId.toString();
        return;
    }
''', '''    TunnelProxyClient *tunnelProxyClient = m_proxyClients.value(clientId);
    if (!tunnelProxyClient) {
        qCWarning(dcTunnelProxyServer()) << "Unknown client disconnected from proxy server." << clientId.toString();
        return;
    }

    m_proxyClients.remove(clientId);
'''))
r('m-disc-rpcfirst', DC, (TPS, '''    // Unregister from json rpc server
    m_jsonRpcServer->unregisterClient(tunnelProxyClient);

''', ''), (TPS, '''    if (tunnelProxyClient->type() == TunnelProxyClient::TypeServer) {
        TunnelProxyServerConnection *serverConnection = m_tunnelProxyServerConnections.take(''', '''    // Unregister from json rpc server
    m_jsonRpcServer->unregisterClient(tunnelProxyClient);

    if (tunnelProxyClient->type() == TunnelProxyClient::TypeServer) {
        TunnelProxyServerConnection *serverConnection = m_tunnelProxyServerConnections.take('''))
r('m-conn', ['onClientConnected'], (TPS, '''    TunnelProxyClient *tunnelProxyClient = new TunnelProxyClient(interface, clientId, address, this);
    m_proxyClients.insert(clientId, tunnelProxyClient);
    m_jsonRpcServer->registerClient(tunnelProxyClient);''', '''    auto client = new TunnelProxyClient(interface, clientId, address, this);
    m_jsonRpcServer->registerClient(client);
    m_proxyClients[clientId] = client;'''))
r('m-free', ['registerClient'], (TSC, '''    m_currentAddressCounter += 1;
    quint16 address = m_currentAddressCounter;
    for (int i = 0; i <= 0xFFFF; i++) {
        if (m_clientConnectionsAddresses.contains(address) || address == 0x0000 || address == 0xFFFF) {
            address++;
        } else {
            return address;
        }
    }
''', '''    quint16 address = ++m_currentAddressCounter;
    for (int i = 0; i <= 0xFFFF; i++, address++) {
        const bool reserved = address == 0x0000 || address == 0xFFFF;
        if (!reserved && !m_clientConnectionsAddresses.contains(address))
            return address;
    }
'''))
r('m-unreg', DC, (TSC, '''    m_clientConnections.remove(clientConnection->clientUuid());
    m_clientConnectionsAddresses.remove(clientConnection->socketAddress());
    clientConnection->setSocketAddress(0xFFFF);
    clientConnection->setServerConnection(nullptr);''', '''    m_clientConnectionsAddresses.remove(clientConnection->socketAddress());
    m_clientConnections.remove(clientConnection->clientUuid());
    clientConnection->setServerConnection(nullptr);
    clientConnection->setSocketAddress(0xFFFF);'''))
PK = ['client_processData_']
r('m-pk-const', PK, (TC, '''                m_dataBuffer.append(data.at(i));''', '''                m_dataBuffer.append(static_cast<char>(byte));'''))
r('m-pk-split', PK, (TCH, 'private:\n', 'private:\n    QList<QByteArray> processSlipData(const QByteArray &data);\n    QList<QByteArray> processJsonData(const QByteArray &data);\n'),
  (TC, '''    QList<QByteArray> packets;

    // Parse packets depending on the encoded
    if (m_slipEnabled) {
        // Read each''', '''    return m_slipEnabled ? processSlipData(data) : processJsonData(data);
}

QList<QByteArray> TunnelProxyClient::processSlipData(const QByteArray &data)
{
    QList<QByteArray> packets;
        // Read each'''),
  (TC, '''            }
        }
    } else {
        // Handle json packet fragmentation''', '''            }
        }
    return packets;
}

QList<QByteArray> TunnelProxyClient::processJsonData(const QByteArray &data)
{
    QList<QByteArray> packets;
        // Handle json packet fragmentation'''),
  (TC, '''            m_dataBuffer.clear();
        }
    }

    return packets;
}

void TunnelProxyClient::activateClient()''', '''            m_dataBuffer.clear();
        }

    return packets;
}

void TunnelProxyClient::activateClient()'''))
r('m-act', ['onClientConnected', 'registerServer', 'registerClient'], (TC, '''    if (m_type != TypeServer)
        return;

    // We must receive data, transmitt does not mean the socket is not dead
    connect(this, &TransportClient::rxDataCountChanged, this, [this](){
        m_inactiveTimer->start();
    });

    m_inactiveTimer->setInterval(60000);
    m_inactiveTimer->setSingleShot(false);
    m_inactiveTimer->start();''', '''    if (m_type == TypeServer) {
        m_inactiveTimer->setSingleShot(false);
        m_inactiveTimer->setInterval(60000);
        connect(this, &TransportClient::rxDataCountChanged, m_inactiveTimer, [this](){
            m_inactiveTimer->start();
        });
        m_inactiveTimer->start();
    }'''))
JT = ['processDataPacket', 'jsonProcessData', 'asyncReplyFinished', 'sendNotification']
SEND = '''    if (client->slipEnabled()) {
        SlipDataProcessor::Frame frame;
        frame.socketAddress = 0x0000;
        frame.data = data + "\\n";
        client->sendData(SlipDataProcessor::serializeData(SlipDataProcessor::buildFrame(frame)));
    } else {
        client->sendData(data + "\\n");
    }'''
r('m-rpc-send', JT + ['registerClient', 'onClientDisconnected'], (JS, SEND, '    sendPacket(client, data);'), (JS, SEND, '    sendPacket(client, data);'),
  (JH, 'private:\n', 'private:\n    void sendPacket(TransportClient *client, const QByteArray &data);\n'),
  (JS, 'void JsonRpcServer::sendErrorResponse(', '''void JsonRpcServer::sendPacket(TransportClient *client, const QByteArray &data)
{
    const QByteArray line = data + '\\n';
    if (!client->slipEnabled()) {
        client->sendData(line);
        return;
    }

    SlipDataProcessor::Frame frame;
    frame.socketAddress = 0x0000;
    frame.data = line;
    client->sendData(SlipDataProcessor::serializeData(SlipDataProcessor::buildFrame(frame)));
}

void JsonRpcServer::sendErrorResponse('''))
r('m-rpc-status', JT, (JS, '''    QStringList commandList = message.value("method").toString().split('.');''', '''    const QString methodString = message.value("method").toString();
    const QStringList commandList = methodString.split('.');'''),
  (JS, '''    QString targetNamespace = commandList.first();
    QString method = commandList.last();''', '''    const QString targetNamespace = commandList.at(0);
    const QString method = commandList.at(1);'''))
r('m-rpc-combined', JT, (JS, '''        // If the server decided to kill the connection after the response, do it now
        if (transportClient->killConnectionRequested()) {
            transportClient->killConnection(transportClient->killConnectionReason());
            return;
        }

        // Enable SLIP from now on since requested
        if (transportClient->slipAfterResponseEnabled()) {
            transportClient->setSlipEnabled(true);
        }''', '''        // If the server decided to kill the connection after the response, do it now
        if (transportClient->killConnectionRequested()) {
            transportClient->killConnection(transportClient->killConnectionReason());
        } else if (transportClient->slipAfterResponseEnabled()) {
            transportClient->setSlipEnabled(true);
        }'''))
r('m-rpc-finish', JT, (JH, 'private:\n', 'private:\n    void finishReply(TransportClient *transportClient, JsonReply *reply, int commandId);\n'),
  (JS, '''        reply->setClientId(transportClient->clientId());
        reply->setCommandId(commandId);
        sendResponse(transportClient, commandId, reply->data());
        reply->deleteLater();

        // If the server decided to kill the connection after the response, do it now
        if (transportClient->killConnectionRequested()) {
            transportClient->killConnection(transportClient->killConnectionReason());
            return;
        }

        // Enable SLIP from now on since requested
        if (transportClient->slipAfterResponseEnabled()) {
            transportClient->setSlipEnabled(true);
        }
''', '        finishReply(transportClient, reply, commandId);\n'),
  (JS, 'void JsonRpcServer::asyncReplyFinished()', '''void JsonRpcServer::finishReply(TransportClient *transportClient, JsonReply *reply, int commandId)
{
    reply->setClientId(transportClient->clientId());
    reply->setCommandId(commandId);
    sendResponse(transportClient, commandId, reply->data());
    reply->deleteLater();

    if (transportClient->killConnectionRequested()) {
        transportClient->killConnection(transportClient->killConnectionReason());
        return;
    }

    if (transportClient->slipAfterResponseEnabled())
        transportClient->setSlipEnabled(true);
}

void JsonRpcServer::asyncReplyFinished()'''))
r('m-intro-insert', ['Introspect'], (JS, '''        QVariantMap handlerMethods = handler->introspect(QMetaMethod::Method);
        foreach (const QString &method, handlerMethods.keys()) {
            methods.insert(method, handlerMethods.value(method));
        }''', '''        const QVariantMap handlerMethods = handler->introspect(QMetaMethod::Method);
        for (auto it = handlerMethods.constBegin(); it != handlerMethods.constEnd(); ++it) {
            methods.insert(it.key(), it.value());
        }'''))
ET = ['engine', 'Engine']
r('m-eng-clean', ET, (EN, '''    if (m_tcpSocketServerTunnelProxy) {
        delete m_tcpSocketServerTunnelProxy;
        m_tcpSocketServerTunnelProxy = nullptr;
    }

    if (m_webSocketServerTunnelProxy) {
        delete m_webSocketServerTunnelProxy;
        m_webSocketServerTunnelProxy = nullptr;
    }

    if (m_unixSocketServerTunnelProxy) {
        delete m_unixSocketServerTunnelProxy;
        m_unixSocketServerTunnelProxy = nullptr;
    }
''', '''    delete m_tcpSocketServerTunnelProxy;
    m_tcpSocketServerTunnelProxy = nullptr;

    delete m_unixSocketServerTunnelProxy;
    m_unixSocketServerTunnelProxy = nullptr;

    delete m_webSocketServerTunnelProxy;
    m_webSocketServerTunnelProxy = nullptr;
'''))
r('m-eng-tmpl', ET, (EN, '''    if (m_tcpSocketServerTunnelProxy) {
        delete m_tcpSocketServerTunnelProxy;
        m_tcpSocketServerTunnelProxy = nullptr;
    }

    if (m_webSocketServerTunnelProxy) {
        delete m_webSocketServerTunnelProxy;
        m_webSocketServerTunnelProxy = nullptr;
    }
''', '''    destroyObject(m_tcpSocketServerTunnelProxy);
    destroyObject(m_webSocketServerTunnelProxy);
'''), (EN, 'void Engine::clean()', '''template <class T>
static void destroyObject(T *&object)
{
    delete object;
    object = nullptr;
}

void Engine::clean()'''))
r('m-eng-start', ET, (ENH, 'private:\n', 'private:\n    void createTransports();\n'),
  (EN, '''    m_webSocketServerTunnelProxy = new WebSocketServer(m_configuration->sslEnabled(), m_configuration->sslConfiguration(), this);
    m_tcpSocketServerTunnelProxy = new TcpSocketServer(m_configuration->sslEnabled(), m_configuration->sslConfiguration(), this);
    m_unixSocketServerTunnelProxy = new UnixSocketServer(m_configuration->unixSocketFileName(), this);
''', '    createTransports();\n'),
  (EN, 'void Engine::stop()', '''void Engine::createTransports()
{
    const bool sslEnabled = m_configuration->sslEnabled();
    const QSslConfiguration sslConfiguration = m_configuration->sslConfiguration();
    m_webSocketServerTunnelProxy = new WebSocketServer(sslEnabled, sslConfiguration, this);
    m_tcpSocketServerTunnelProxy = new TcpSocketServer(sslEnabled, sslConfiguration, this);
    m_unixSocketServerTunnelProxy = new UnixSocketServer(m_configuration->unixSocketFileName(), this);
}

void Engine::stop()'''))
r('m-eng-running', ET, (EN, '''    if (m_running == running)
        return;

    // Note: start() reports running from the event loop, the engine might have been stopped in the meantime
    if (running && !m_tunnelProxyServer)
        return;
''', '''    if (m_running == running || (running && !m_tunnelProxyServer))
        return;
'''))
MT2 = ['monitor', 'Monitor']
r('m-mon-req', MT2, (MS, '''    if (request.contains("method")) {
        if (request.value("method").toString() == "refresh") {
            bool printAll = false;
            if (request.contains("params")) {
                QVariantMap params = request.value("params").toMap();
                if (params.contains("printAll")) {
                    printAll = params.value("printAll").toBool();
                }
            }
''', '''    if (request.value("method").toString() == QLatin1String("refresh")) {
        {
            const bool printAll = request.value("params").toMap().value("printAll").toBool();
'''))
r('m-mon-disc', MT2, (MS, '    m_clients.removeAll(clientConnection);\n    clientConnection->deleteLater();', '    clientConnection->deleteLater();\n    m_clients.removeOne(clientConnection);'))
r('m-mon-qobj', MT2, (MS, 'static_cast<QLocalSocket *>(sender());', 'qobject_cast<QLocalSocket *>(sender());'))
TT2 = ['tcp', 'Tcp', 'ssl', 'Ssl']
r('m-tcp-find', TT2, (TS, '''    QUuid clientId = m_clientList.key(client);
    if (clientId.isNull()) {
        qCWarning(dcTcpSocketServer()) << "Socket sent data but the uuid is null." << client << client->peerAddress().toString() << "Ignoring data...";
        return;
    }
    emit dataAvailable(clientId, data);''', '''    const QUuid clientId = m_clientList.key(client);
    if (!clientId.isNull())
        emit dataAvailable(clientId, data);'''))
r('m-tcp-iter', TT2, (TS, '''    foreach (const QUuid &clientId, m_clientList.keys()) {
        killClientConnection(clientId, "Stop server");
    }''', '''    const QList<QUuid> clientIds = m_clientList.keys();
    for (int i = 0; i < clientIds.count(); i++)
        killClientConnection(clientIds.at(i), "Stop server");'''))
r('m-tcp-new', TT2, (TS, '''            SslClient *sslSocket = qobject_cast<SslClient *>(nextPendingConnection());
            if (!m_sslEnabled) {
                emit socketConnected(sslSocket);
            }''', '''            SslClient *sslSocket = qobject_cast<SslClient *>(nextPendingConnection());
            if (m_sslEnabled)
                continue;

            emit socketConnected(sslSocket);'''))
# ---- client library
SSC, SSH = C + 'tunnelproxy/tunnelproxysocketserver.cpp', C + 'tunnelproxy/tunnelproxysocketserver.h'
RCC, RCH = C + 'tunnelproxy/tunnelproxyremoteconnection.cpp', C + 'tunnelproxy/tunnelproxyremoteconnection.h'
JCC, JCH = C + 'proxyjsonrpcclient.cpp', C + 'proxyjsonrpcclient.h'
ST, RT, JCT = ['TunnelProxySocketServer'], ['TunnelProxyRemoteConnection'], ['rpc_']
FRMC = '''                SlipDataProcessor::Frame frame = SlipDataProcessor::parseFrame(frameData);
                qCDebug(dcTunnelProxySocketServerTraffic()) << "Frame received" << frame.socketAddress << qUtf8Printable(frame.data);
                if (frame.socketAddress == 0x0000) {
                    m_jsonClient->processData(frame.data);
                } else {
                    // Find the socket and emit the data received signal
                    TunnelProxySocket *tunnlProxySocket = m_tunnelProxySockets.value(frame.socketAddress);
                    if (!tunnlProxySocket) {
                        qCWarning(dcTunnelProxySocketServer()) << "Received data from unknown tunnel proxy client with address" << frame.socketAddress << "...ignoring the data";
                    } else {
                        emit tunnlProxySocket->dataReceived(frame.data);
                    }
                }
'''
r('n-frame', ST, (SSC, FRMC, '                processFrame(frameData);\n'), (SSH, 'private:\n', 'private:\n    void processFrame(const QByteArray &frameData);\n'),
  (SSC, 'void TunnelProxySocketServer::onConnectionSocketError(', '''void TunnelProxySocketServer::processFrame(const QByteArray &frameData)
{
    const SlipDataProcessor::Frame frame = SlipDataProcessor::parseFrame(frameData);
    if (frame.socketAddress == 0x0000) {
        m_jsonClient->processData(frame.data);
        return;
    }

    TunnelProxySocket *socket = m_tunnelProxySockets.value(frame.socketAddress, nullptr);
    if (socket) {
        emit socket->dataReceived(frame.data);
        return;
    }

    qCWarning(dcTunnelProxySocketServer()) << "Received data from unknown tunnel proxy client" << frame.socketAddress;
}

void TunnelProxySocketServer::onConnectionSocketError('''))
r('n-connect', ST, (SSC, '''    switch (m_connectionType) {
    case ConnectionTypeWebSocket:
        qCDebug(dcTunnelProxySocketServer()) << "Creating a web socket connection to" << m_serverUrl.toString();
        m_connection = qobject_cast<ProxyConnection *>(new WebSocketConnection(this));
        break;
    case ConnectionTypeTcpSocket:
        qCDebug(dcTunnelProxySocketServer()) << "Creating a TCP socket connection to" << m_serverUrl.toString();
        m_connection = qobject_cast<ProxyConnection *>(new TcpSocketConnection(this));
        break;
    }
''', '''    if (m_connectionType == ConnectionTypeWebSocket) {
        m_connection = new WebSocketConnection(this);
    } else {
        m_connection = new TcpSocketConnection(this);
    }
'''))
r('n-fail', ST, (SSH, 'private:\n', 'private:\n    void abortConnection();\n'),
  (SSC, '''        m_connection->disconnectServer();
        setServerError(ErrorConnectionError);
        return;
    }

    QVariantMap responseParams = response.value("params").toMap();
    if (''', '''        abortConnection();
        return;
    }

    QVariantMap responseParams = response.value("params").toMap();
    if ('''),
  (SSC, '''responseParams.value("tunnelProxyError").toString();
        m_connection->disconnectServer();
        setServerError(ErrorConnectionError);''', '''responseParams.value("tunnelProxyError").toString();
        abortConnection();'''),
  (SSC, 'void TunnelProxySocketServer::setupTimers()', '''void TunnelProxySocketServer::abortConnection()
{
    m_connection->disconnectServer();
    setServerError(ErrorConnectionError);
}

void TunnelProxySocketServer::setupTimers()'''))
r('n-discsock', ST, (SSC, '''    TunnelProxySocket *tunnelProxySocket = m_tunnelProxySockets.take(socketAddress);
    if (!tunnelProxySocket) {
        qCWarning(dcTunnelProxySocketServer()) << "Unknown client disconnected" << socketAddress << ". Ignoring the event.";
        return;
    }
''', '''    if (!m_tunnelProxySockets.contains(socketAddress)) {
        qCWarning(dcTunnelProxySocketServer()) << "Unknown client disconnected" << socketAddress << ". Ignoring the event.";
        return;
    }

    TunnelProxySocket *tunnelProxySocket = m_tunnelProxySockets.take(socketAddress);
'''))
r('n-newsock', ST, (SSC, '''    TunnelProxySocket *tunnelProxySocket = new TunnelProxySocket(m_connection, this, clientName, clientUuid, QHostAddress(clientPeerAddress), socketAddress, this);
    qCDebug(dcTunnelProxySocketServer()) << "--> New client connected" << tunnelProxySocket;
    m_tunnelProxySockets.insert(socketAddress, tunnelProxySocket);''', '''    const QHostAddress peerAddress(clientPeerAddress);
    auto tunnelProxySocket = new TunnelProxySocket(m_connection, this, clientName, clientUuid, peerAddress, socketAddress, this);
    m_tunnelProxySockets[socketAddress] = tunnelProxySocket;'''))
r('n-stop', ST, (SSC, '''    if (m_connection) {
        qCDebug(dcTunnelProxySocketServer()) << "Disconnecting from" << m_connection->serverUrl().toString();
        m_connection->disconnectServer();
    }
}''', '''    if (!m_connection)
        return;

    m_connection->disconnectServer();
}'''))
r('n-tick', ST, (SSC, '''        if (!m_enabled) {
            qCDebug(dcTunnelProxySocketServer()) << "Stopping reconnect timer. The server has been disabled.";
            m_reconnectTimer.stop();
            return;
        }

        if (m_state == StateDisconnected) {
            qCDebug(dcTunnelProxySocketServer()) << "Trying to reconnect to the remote proxy...";
            startServer(m_serverUrl);
        }
''', '''        if (m_enabled) {
            if (m_state == StateDisconnected)
                startServer(m_serverUrl);
        } else {
            m_reconnectTimer.stop();
        }
'''))
r('n-hello', ST + RT, (SSC, '''    QVariantMap responseParams = response.value("params").toMap();
    m_remoteProxyServer = responseParams.value("server").toString();
    m_remoteProxyServerName = responseParams.value("name").toString();''', '''    const QVariantMap responseParams = response["params"].toMap();
    m_remoteProxyServerName = responseParams["name"].toString();
    m_remoteProxyServer = responseParams["server"].toString();'''),
  (RCC, '''    if (response.value("status").toString() != "success") {
        qCWarning(dcTunnelProxyRemoteConnection()) << "Could not get initial''', '''    const bool success = response.value("status").toString() == QLatin1String("success");
    if (!success) {
        qCWarning(dcTunnelProxyRemoteConnection()) << "Could not get initial'''))
r('n-rcdata', RT, (RCC, '''    if (m_state != StateRemoteConnected) {
        m_jsonClient->processData(data);
        return;
    }

    emit dataReady(data);''', '''    if (remoteConnected()) {
        emit dataReady(data);
    } else {
        m_jsonClient->processData(data);
    }'''))
r('n-rcparse', RT, (RCC, '''    if (responseParams.value("tunnelProxyError").toString() != "TunnelProxyErrorNoError") {''', '''    const QString error = responseParams.value("tunnelProxyError").toString();
    const bool registered = error == "TunnelProxyErrorNoError";
    if (!registered) {'''))
r('n-rccreate', RT, (RCH, 'private:\n', 'private:\n    ProxyConnection *createConnection();\n'),
  (RCC, '''    switch (m_connectionType) {
    case ConnectionTypeWebSocket:
        qCDebug(dcTunnelProxyRemoteConnection()) << "Creating a web socket connection to" << url.toString();
        m_connection = qobject_cast<ProxyConnection *>(new WebSocketConnection(this));
        break;
    case ConnectionTypeTcpSocket:
        qCDebug(dcTunnelProxyRemoteConnection()) << "Creating a TCP socket connection to" << url.toString();
        m_connection = qobject_cast<ProxyConnection *>(new TcpSocketConnection(this));
        break;
    }
''', '''    m_connection = createConnection();
'''), (RCC, 'void TunnelProxyRemoteConnection::disconnectServer()', '''ProxyConnection *TunnelProxyRemoteConnection::createConnection()
{
    if (m_connectionType == ConnectionTypeTcpSocket)
        return new TcpSocketConnection(this);

    return new WebSocketConnection(this);
}

void TunnelProxyRemoteConnection::disconnectServer()'''))
r('n-state', RT, (RCC, '''    bool remoteConnected = m_state == StateRemoteConnected;

    m_state = state;''', '''    const bool wasConnected = remoteConnected();

    m_state = state;'''), (RCC, '''    bool stillRemoteConnected = m_state == StateRemoteConnected;
    if (remoteConnected != stillRemoteConnected) {
        emit remoteConnectedChanged(m_state == StateRemoteConnected);
    }''', '''    if (wasConnected != remoteConnected())
        emit remoteConnectedChanged(remoteConnected());'''))
r('n-rpccall', JCT, (JCH, 'private:\n', 'private:\n    JsonReply *call(const QString &nameSpace, const QString &method, const QVariantMap &params, bool slipEnabled = false);\n'),
  (JCC, '''    JsonReply *reply = new JsonReply(m_commandId, "TunnelProxy", "Ping", params, this);
    qCDebug(dcRemoteProxyClientJsonRpc()) << "Calling" << QString("%1.%2").arg(reply->nameSpace()).arg(reply->method());
    sendRequest(reply->requestMap(), true);
    m_replies.insert(m_commandId++, reply);
    return reply;''', '    return call("TunnelProxy", "Ping", params, true);'),
  (JCC, '''    JsonReply *reply = new JsonReply(m_commandId, "RemoteProxy", "Hello", QVariantMap(), this);
    qCDebug(dcRemoteProxyClientJsonRpc()) << "Calling" << QString("%1.%2").arg(reply->nameSpace()).arg(reply->method());
    sendRequest(reply->requestMap());
    m_replies.insert(m_commandId++, reply);
    return reply;''', '    return call("RemoteProxy", "Hello", QVariantMap());'),
  (JCC, 'void JsonRpcClient::sendRequest(', '''JsonReply *JsonRpcClient::call(const QString &nameSpace, const QString &method, const QVariantMap &params, bool slipEnabled)
{
    const int commandId = m_commandId++;
    JsonReply *reply = new JsonReply(commandId, nameSpace, method, params, this);
    m_replies.insert(commandId, reply);
    sendRequest(reply->requestMap(), slipEnabled);
    return reply;
}

void JsonRpcClient::sendRequest('''))
r('n-rpcnote', JCT, (JCH, 'private:\n', 'private:\n    void processNotification(const QVariantMap &dataMap);\n'),
  (JCC, '''    if (dataMap.contains("notification")) {
        QStringList notification''', '''    if (dataMap.contains("notification"))
        processNotification(dataMap);
}

void JsonRpcClient::processNotification(const QVariantMap &dataMap)
{
    {
        QStringList notification'''))
r('n-rpctake', JCT, (JCC, '''    QByteArray data = m_dataBuffer;
    m_dataBuffer.clear();
    return data;''', '''    QByteArray data;
    data.swap(m_dataBuffer);
    return data;'''))
