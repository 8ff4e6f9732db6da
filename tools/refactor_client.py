# behaviour-preserving edits of the client library (exec'd by refactor.py)
SSF, RCF, TSF = C + 'tunnelproxy/tunnelproxysocketserver.cpp', C + 'tunnelproxy/tunnelproxyremoteconnection.cpp', C + 'tunnelproxy/tunnelproxysocket.cpp'
SSH, RCH = SSF[:-3] + 'h', RCF[:-3] + 'h'
RPF, TCF, WSF = C + 'proxyjsonrpcclient.cpp', C + 'tcpsocketconnection.cpp', C + 'websocketconnection.cpp'
SST, RCT = ['TunnelProxySocketServer_', 'TunnelProxySocket_'], ['TunnelProxyRemoteConnection_']

r('ss-frame-helper', SST,
  (SSF, '''            QByteArray frameData = SlipDataProcessor::deserializeData(m_dataBuffer);
            if (frameData.isNull()) {
                qCWarning(dcTunnelProxySocketServerTraffic()) << "Received inconsistant SLIP encoded message. Ignoring data...";
            } else {
                SlipDataProcessor::Frame frame = SlipDataProcessor::parseFrame(frameData);
                qCDebug(dcTunnelProxySocketServerTraffic()) << "Frame received" << frame.socketAddress << qUtf8Printable(frame.data);
                if (frame.socketAddress == 0x0000) {
                    m_jsonClient->processData(frame.data);
                } else {
                    // Find the socket and emit the data received signal
                    TunnelProxySocket *tunnlProxySocket = m_tunnelProxySockets.value(frame.socketAddress);
                    if (!tunnlProxySocket) {
                        qCWarning(dcTunnelProxySocketServer()) << "Received data from unknown tunnel proxy client with address" << frame.socketAddress << "...ignoring the data";
                    } else {
                        emit tunnlProxySocket->dataReceived(frame.data);
                    }
                }
            }
''', '''            processFrame(SlipDataProcessor::deserializeData(m_dataBuffer));
'''),
  (SSF, 'void TunnelProxySocketServer::onConnectionSocketError(', '''void TunnelProxySocketServer::processFrame(const QByteArray &frameData)
{
    if (frameData.isNull()) {
        qCWarning(dcTunnelProxySocketServerTraffic()) << "Received inconsistant SLIP encoded message. Ignoring data...";
        return;
    }

    const SlipDataProcessor::Frame frame = SlipDataProcessor::parseFrame(frameData);
    if (frame.socketAddress == 0x0000) {
        m_jsonClient->processData(frame.data);
        return;
    }

    if (TunnelProxySocket *socket = m_tunnelProxySockets.value(frame.socketAddress))
        emit socket->dataReceived(frame.data);
}

void TunnelProxySocketServer::onConnectionSocketError('''),
  (SSH, '    void cleanUp();\n', '    void cleanUp();\n    void processFrame(const QByteArray &frameData);\n'))
r('ss-data-range', SST,
  (SSF, '''    for (int i = 0; i < data.length(); i++) {
        quint8 byte = static_cast<quint8>(data.at(i));''', '''    for (const char character : data) {
        const quint8 byte = static_cast<quint8>(character);'''),
  (SSF, 'm_dataBuffer.append(data.at(i));', 'm_dataBuffer.append(character);'))
r('ss-data-early', SST,
  (SSF, '''        if (byte == SlipDataProcessor::ProtocolByteEnd) {
            // If there is no data...continue since it might be a starting END byte
            if (m_dataBuffer.isEmpty())
                continue;
''', '''        if (byte != SlipDataProcessor::ProtocolByteEnd) {
            m_dataBuffer.append(data.at(i));
            continue;
        }

        if (!m_dataBuffer.isEmpty()) {
'''),
  (SSF, '''        } else {
            m_dataBuffer.append(data.at(i));
        }
    }
}

void TunnelProxySocketServer::onConnectionSocketError''', '''        }
    }
}

void TunnelProxySocketServer::onConnectionSocketError'''))
r('ss-contains', SST,
  (SSF, '''                    TunnelProxySocket *tunnlProxySocket = m_tunnelProxySockets.value(frame.socketAddress);
                    if (!tunnlProxySocket) {''', '''                    if (!m_tunnelProxySockets.contains(frame.socketAddress)) {'''),
  (SSF, 'emit tunnlProxySocket->dataReceived(frame.data);', '''TunnelProxySocket *tunnlProxySocket = m_tunnelProxySockets[frame.socketAddress];
                        emit tunnlProxySocket->dataReceived(frame.data);'''))
r('ss-cleanup-for', SST,
  (SSF, 'foreach (quint16 socketAddress, m_tunnelProxySockets.keys()) {', '''const QList<quint16> addresses = m_tunnelProxySockets.keys();
    for (quint16 socketAddress : addresses) {'''))
r('ss-cleanup-index', SST,
  (SSF, '''    foreach (quint16 socketAddress, m_tunnelProxySockets.keys()) {
        onTunnelProxyClientDisconnected(socketAddress);
    }''', '''    QList<quint16> addresses = m_tunnelProxySockets.keys();
    for (int i = 0; i < addresses.count(); i++)
        onTunnelProxyClientDisconnected(addresses.at(i));'''))
r('ss-cleanup-while', SST,
  (SSF, '''    foreach (quint16 socketAddress, m_tunnelProxySockets.keys()) {
        onTunnelProxyClientDisconnected(socketAddress);
    }''', '''    QList<quint16> addresses = m_tunnelProxySockets.keys();
    while (!addresses.isEmpty())
        onTunnelProxyClientDisconnected(addresses.takeFirst());'''))
r('ss-state-if', SST,
  (SSF, '''    case QAbstractSocket::ClosingState:
        setState(StateDiconnecting);
        break;
    case QAbstractSocket::BoundState:
    case QAbstractSocket::ListeningState:
        break;
    }
}

void TunnelProxySocketServer::onHello''', '''    case QAbstractSocket::ClosingState:
        setState(StateDiconnecting);
        break;
    default:
        break;
    }
}

void TunnelProxySocketServer::onHello'''))
r('ss-take-value', SST,
  (SSF, '''    TunnelProxySocket *tunnelProxySocket = m_tunnelProxySockets.take(socketAddress);
    if (!tunnelProxySocket) {''', '''    TunnelProxySocket *tunnelProxySocket = m_tunnelProxySockets.value(socketAddress);
    m_tunnelProxySockets.remove(socketAddress);
    if (!tunnelProxySocket) {'''))
r('ss-timer-slot', SST,
  (SSF, '''    connect(&m_reconnectTimer, &QTimer::timeout, this, [this](){
        if (!m_enabled) {
            qCDebug(dcTunnelProxySocketServer()) << "Stopping reconnect timer. The server has been disabled.";
            m_reconnectTimer.stop();
            return;
        }

        if (m_state == StateDisconnected) {
            qCDebug(dcTunnelProxySocketServer()) << "Trying to reconnect to the remote proxy...";
            startServer(m_serverUrl);
        }
    });''', '''    connect(&m_reconnectTimer, &QTimer::timeout, this, &TunnelProxySocketServer::onReconnectTimeout);'''),
  (SSF, 'void TunnelProxySocketServer::setupTimers()', '''void TunnelProxySocketServer::onReconnectTimeout()
{
    if (m_enabled) {
        if (m_state == StateDisconnected)
            startServer(m_serverUrl);
    } else {
        m_reconnectTimer.stop();
    }
}

void TunnelProxySocketServer::setupTimers()'''),
  (SSH, '    void cleanUp();\n', '    void cleanUp();\n    void onReconnectTimeout();\n'))
r('ss-make-connection', SST,
  (SSF, '''    switch (m_connectionType) {
    case ConnectionTypeWebSocket:
        qCDebug(dcTunnelProxySocketServer()) << "Creating a web socket connection to" << m_serverUrl.toString();
        m_connection = qobject_cast<ProxyConnection *>(new WebSocketConnection(this));
        break;
    case ConnectionTypeTcpSocket:
        qCDebug(dcTunnelProxySocketServer()) << "Creating a TCP socket connection to" << m_serverUrl.toString();
        m_connection = qobject_cast<ProxyConnection *>(new TcpSocketConnection(this));
        break;
    }
''', '''    if (m_connectionType == ConnectionTypeWebSocket) {
        m_connection = new WebSocketConnection(this);
    } else {
        m_connection = new TcpSocketConnection(this);
    }
'''))
r('ss-wire-helper', SST,
  (SSF, '''    connect(m_connection, &ProxyConnection::connectedChanged, this, &TunnelProxySocketServer::onConnectionChanged);
    connect(m_connection, &ProxyConnection::dataReceived, this, &TunnelProxySocketServer::onConnectionDataAvailable);
    connect(m_connection, &ProxyConnection::errorOccurred, this, &TunnelProxySocketServer::onConnectionSocketError);
    connect(m_connection, &ProxyConnection::stateChanged, this, &TunnelProxySocketServer::onConnectionStateChanged);
    connect(m_connection, &ProxyConnection::sslErrors, this, &TunnelProxySocketServer::sslErrors);

    m_jsonClient''', '''    setupConnection(m_connection);

    m_jsonClient'''),
  (SSF, 'void TunnelProxySocketServer::setupTimers()', '''void TunnelProxySocketServer::setupConnection(ProxyConnection *connection)
{
    connect(connection, &ProxyConnection::sslErrors, this, &TunnelProxySocketServer::sslErrors);
    connect(connection, &ProxyConnection::stateChanged, this, &TunnelProxySocketServer::onConnectionStateChanged);
    connect(connection, &ProxyConnection::errorOccurred, this, &TunnelProxySocketServer::onConnectionSocketError);
    connect(connection, &ProxyConnection::dataReceived, this, &TunnelProxySocketServer::onConnectionDataAvailable);
    connect(connection, &ProxyConnection::connectedChanged, this, &TunnelProxySocketServer::onConnectionChanged);
}

void TunnelProxySocketServer::setupTimers()'''),
  (SSH, '    void cleanUp();\n', '    void cleanUp();\n    void setupConnection(ProxyConnection *connection);\n'))
r('ss-fail-helper', SST,
  (SSF, '''        qCWarning(dcTunnelProxySocketServer()) << "Could not get initial information from proxy server.";
        m_connection->disconnectServer();
        setServerError(ErrorConnectionError);
        return;''', '''        failConnection("Could not get initial information from proxy server.");
        return;'''),
  (SSF, 'void TunnelProxySocketServer::setupTimers()', '''void TunnelProxySocketServer::failConnection(const QString &reason)
{
    qCWarning(dcTunnelProxySocketServer()) << qUtf8Printable(reason);
    m_connection->disconnectServer();
    setServerError(ErrorConnectionError);
}

void TunnelProxySocketServer::setupTimers()'''),
  (SSH, '    void cleanUp();\n', '    void cleanUp();\n    void failConnection(const QString &reason);\n'))
r('ss-setstate-order', SST,
  (SSF, '''    setRunning(m_state == StateRunning);

    if (m_state == StateDisconnected && m_enabled) {''', '''    const bool running = (m_state == StateRunning);
    setRunning(running);

    if (m_enabled && m_state == StateDisconnected) {'''))
r('ss-lookup', SST,
  (SSF, '''    TunnelProxySocket *socket = m_tunnelProxySockets.value(socketAddress);
    qCDebug(dcTunnelProxySocketServer()) << "Request to disconnect socket" << socket;

''', ''),
  (SSF, '''    connect(reply, &JsonReply::finished, this, [=](){
        reply->deleteLater();
        // TODO: handle errors
        qCDebug(dcTunnelProxySocketServer()) << "Request to disconnect client finished" << reply->response();
    });''', '''    connect(reply, &JsonReply::finished, reply, &JsonReply::deleteLater);'''))
r('ts-braced', SST,
  (TSF, '''    SlipDataProcessor::Frame frame;
    frame.socketAddress = m_socketAddress;
    frame.data = data;
    m_connection->sendData(SlipDataProcessor::serializeData(SlipDataProcessor::buildFrame(frame)));''', '''    SlipDataProcessor::Frame frame;
    frame.data = data;
    frame.socketAddress = socketAddress();
    const QByteArray rawData = SlipDataProcessor::buildFrame(frame);
    m_connection->sendData(SlipDataProcessor::serializeData(rawData));'''))
r('rc-data-if', RCT,
  (RCF, '''    if (m_state != StateRemoteConnected) {
        m_jsonClient->processData(data);
        return;
    }

    emit dataReady(data);''', '''    if (remoteConnected()) {
        emit dataReady(data);
    } else {
        m_jsonClient->processData(data);
    }'''))
r('rc-fail-helper', RCT,
  (RCF, '''        qCWarning(dcTunnelProxyRemoteConnection()) << "JSON RPC error. Failed to register as tunnel client on the remote proxy server.";
        m_connection->disconnectServer();
        return;
    }

    QVariantMap responseParams = response.value("params").toMap();
    if (responseParams.value("tunnelProxyError").toString() != "TunnelProxyErrorNoError") {
        qCWarning(dcTunnelProxyRemoteConnection()) << "Failed to register as tunnel client on the remote proxy server:" << responseParams.value("tunnelProxyError").toString();
        m_connection->disconnectServer();
        return;
    }
''', '''        disconnectServer();
        return;
    }

    const QString tunnelProxyError = response.value("params").toMap().value("tunnelProxyError").toString();
    const bool success = tunnelProxyError == QLatin1String("TunnelProxyErrorNoError");
    if (!success) {
        qCWarning(dcTunnelProxyRemoteConnection()) << "Failed to register as tunnel client on the remote proxy server:" << tunnelProxyError;
        disconnectServer();
        return;
    }
'''))
r('rc-setstate', RCT,
  (RCF, '''    bool stillRemoteConnected = m_state == StateRemoteConnected;
    if (remoteConnected != stillRemoteConnected) {
        emit remoteConnectedChanged(m_state == StateRemoteConnected);
    }''', '''    if (remoteConnected != (m_state == StateRemoteConnected))
        emit remoteConnectedChanged(!remoteConnected);'''))
r('rc-status-helper', RCT,
  (RCF, '''    QVariantMap response = reply->response();
    qCDebug(dcTunnelProxyRemoteConnection()) << "Hello response ready" << reply->commandId() << response;

    if (response.value("status").toString() != "success") {''', '''    QVariantMap response = reply->response();
    qCDebug(dcTunnelProxyRemoteConnection()) << "Hello response ready" << reply->commandId() << response;

    if (!isSuccess(response)) {'''),
  (RCF, 'void TunnelProxyRemoteConnection::onHelloFinished()', '''static bool isSuccess(const QVariantMap &response)
{
    return response.value("status").toString() == "success";
}

void TunnelProxyRemoteConnection::onHelloFinished()'''))
r('rc-clear-assign', RCT,
  (RCF, '''    m_remoteProxyServer.clear();
    m_remoteProxyServerName.clear();''', '''    m_remoteProxyServer = QString();
    m_remoteProxyServerName = "";'''))
r('rc-cleanup-order', RCT,
  (RCF, '''    if (m_jsonClient) {
        m_jsonClient->deleteLater();
        m_jsonClient = nullptr;
    }

    if (m_connection) {
        // Note: closing the abandoned connection must not affect a new one
        disconnect(m_connection, nullptr, this, nullptr);
        m_connection->deleteLater();
        m_connection = nullptr;
    }
''', '''    if (m_connection) {
        // Note: closing the abandoned connection must not affect a new one
        m_connection->disconnect(this);
        m_connection->deleteLater();
    }

    if (m_jsonClient)
        m_jsonClient->deleteLater();

    m_connection = nullptr;
    m_jsonClient = nullptr;
'''))
r('tcp-lambda', ['TcpSocketConnection_', 'client_tls'],
  (TCF, '''    QObject::connect(m_tcpSocket, &QSslSocket::encrypted, this, &TcpSocketConnection::onEncrypted);''', '''    QObject::connect(m_tcpSocket, &QSslSocket::encrypted, this, [this](){
        setConnected(true);
    });'''))
r('tcp-state-if', ['TcpSocketConnection_', 'client_tls'],
  (TCF, '''    switch (state) {
    case QAbstractSocket::ConnectedState:
        qCDebug(dcRemoteProxyClientTcpSocket()) << "Connected with" << serverUrl().toString();
        if (!m_ssl) {
            setConnected(true);
        }
        break;
    default:
        setConnected(false);
        break;
    }
''', '''    if (state != QAbstractSocket::ConnectedState) {
        setConnected(false);
    } else if (!m_ssl) {
        qCDebug(dcRemoteProxyClientTcpSocket()) << "Connected with" << serverUrl().toString();
        setConnected(true);
    }
'''))
r('tcp-connect-ssl', ['TcpSocketConnection_', 'client_tls'],
  (TCF, '''    if (m_serverUrl.scheme() == "tcp") {
        qCDebug(dcRemoteProxyClientTcpSocket()) << "Connecting to" << m_serverUrl.toString();
        m_tcpSocket->connectToHost(QHostAddress(m_serverUrl.host()), static_cast<quint16>(m_serverUrl.port()));
    } else {
        m_ssl = true;
''', '''    const quint16 port = static_cast<quint16>(m_serverUrl.port());
    if (m_serverUrl.scheme() == "tcp") {
        m_tcpSocket->connectToHost(QHostAddress(m_serverUrl.host()), port);
    } else {
        m_ssl = true;
'''))
r('ws-new-syntax', ['WebSocketConnection_', 'client_tls'],
  (WSF, '''    connect(m_webSocket, SIGNAL(stateChanged(QAbstractSocket::SocketState)), this, SLOT(onStateChanged(QAbstractSocket::SocketState)));
    connect(m_webSocket, SIGNAL(sslErrors(QList<QSslError>)), this, SIGNAL(sslErrors(QList<QSslError>)));''', '''    connect(m_webSocket, &QWebSocket::stateChanged, this, &WebSocketConnection::onStateChanged);
    connect(m_webSocket, &QWebSocket::sslErrors, this, &WebSocketConnection::sslErrors);'''))
r('rpc-create', ['rpc_'],
  (RPF, '''    JsonReply *reply = new JsonReply(m_commandId, "RemoteProxy", "Hello", QVariantMap(), this);
    qCDebug(dcRemoteProxyClientJsonRpc()) << "Calling" << QString("%1.%2").arg(reply->nameSpace()).arg(reply->method());
    sendRequest(reply->requestMap());
    m_replies.insert(m_commandId++, reply);
    return reply;''', '''    const int id = m_commandId++;
    JsonReply *reply = new JsonReply(id, "RemoteProxy", "Hello", QVariantMap(), this);
    m_replies[id] = reply;
    sendRequest(reply->requestMap());
    return reply;'''))
r('rpc-reply-if', ['rpc_'],
  (RPF, '''    JsonReply *reply = !idValid || dataMap.contains("notification") ? nullptr : m_replies.take(commandId);
    if (reply) {''', '''    const bool isNotification = dataMap.contains("notification");
    JsonReply *reply = nullptr;
    if (idValid && !isNotification)
        reply = m_replies.take(commandId);

    if (reply) {'''))
r('rpc-split', ['rpc_'],
  (RPF, '''    int splitIndex = m_dataBuffer.indexOf("}\\n");
    while (splitIndex > -1) {
        QByteArray packet = m_dataBuffer.left(splitIndex + 1);
        m_dataBuffer = m_dataBuffer.right(m_dataBuffer.length() - splitIndex - 2);
        // Note: handling the packet might take the remaining data
        processDataPacket(packet);
        splitIndex = m_dataBuffer.indexOf("}\\n");
    }''', '''    int splitIndex;
    while ((splitIndex = m_dataBuffer.indexOf("}\\n")) >= 0) {
        const QByteArray packet = m_dataBuffer.left(splitIndex + 1);
        m_dataBuffer.remove(0, splitIndex + 2);
        // Note: handling the packet might take the remaining data
        processDataPacket(packet);
    }'''))
r('rpc-mid', ['rpc_'],
  (RPF, 'm_dataBuffer = m_dataBuffer.right(m_dataBuffer.length() - splitIndex - 2);', 'm_dataBuffer = m_dataBuffer.mid(splitIndex + 2);'))
r('rpc-notif', ['rpc_'],
  (RPF, '''        if (nameSpace == "RemoteProxy" && notificationName == "TunnelEstablished") {''', '''        if (dataMap.value("notification").toString() == "RemoteProxy.TunnelEstablished") {'''))

MONF = L + 'server/monitorserver.cpp'
ENGF = L + 'engine.cpp'
TSF = L + 'server/tcpsocketserver.cpp'
r('mon-flat', ['MonitorServer_'],
  (MONF, '''    if (request.contains("method")) {
        if (request.value("method").toString() == "refresh") {
            bool printAll = false;
            if (request.contains("params")) {
                QVariantMap params = request.value("params").toMap();
                if (params.contains("printAll")) {
                    printAll = params.value("printAll").toBool();
                }
            }

            sendMonitorData(clientConnection, Engine::instance()->buildMonitorData(printAll));
            return;
        }
    }

    // Not a valid request. Close the connection
    qCWarning(dcMonitorServer()) << "Could not understand the request. Closing connection.";
    clientConnection->close();
''', '''    const QString method = request.value("method").toString();
    if (method != QLatin1String("refresh")) {
        qCWarning(dcMonitorServer()) << "Could not understand the request. Closing connection.";
        clientConnection->close();
        return;
    }

    const bool printAll = request.value("params").toMap().value("printAll").toBool();
    const QVariantMap data = Engine::instance()->buildMonitorData(printAll);
    sendMonitorData(clientConnection, data);
'''),
  (MONF, '''    QByteArray data = QJsonDocument::fromVariant(dataMap).toJson(QJsonDocument::Compact) + "\\n";''', '''    QByteArray data = QJsonDocument::fromVariant(dataMap).toJson(QJsonDocument::Compact);
    data.append('\\n');'''))
r('mon-stop-index', ['MonitorServer_'],
  (MONF, '''    foreach (QLocalSocket *clientConnection, m_clients) {
        clientConnection->close();
    }

    m_server->close();
    delete m_server;
    m_server = nullptr;''', '''    const QList<QLocalSocket *> clients = m_clients;
    for (int i = 0; i < clients.count(); ++i)
        clients.at(i)->close();

    delete m_server;
    m_server = nullptr;'''),
  (MONF, '''    m_clients.removeAll(clientConnection);
    clientConnection->deleteLater();''', '''    clientConnection->deleteLater();
    m_clients.removeAll(clientConnection);'''))
r('engine-url', ['Engine_'],
  (ENGF, '''Engine *Engine::s_instance = nullptr;''', '''static QUrl buildUrl(const QString &scheme, const QHostAddress &host, quint16 port)
{
    QUrl url;
    url.setPort(port);
    url.setHost(host.toString());
    url.setScheme(scheme);
    return url;
}

Engine *Engine::s_instance = nullptr;'''),
  (ENGF, '''    QUrl websocketServerTunnelProxyUrl;
    websocketServerTunnelProxyUrl.setScheme(m_configuration->sslEnabled() ? "wss" : "ws");
    websocketServerTunnelProxyUrl.setHost(m_configuration->webSocketServerTunnelProxyHost().toString());
    websocketServerTunnelProxyUrl.setPort(m_configuration->webSocketServerTunnelProxyPort());
    m_webSocketServerTunnelProxy->setServerUrl(websocketServerTunnelProxyUrl);
''', '''    const bool ssl = m_configuration->sslEnabled();
    m_webSocketServerTunnelProxy->setServerUrl(buildUrl(ssl ? "wss" : "ws", m_configuration->webSocketServerTunnelProxyHost(), m_configuration->webSocketServerTunnelProxyPort()));
'''))
r('engine-monitordata', ['Engine_monitor'],
  (ENGF, '''    QVariantMap monitorData;
    monitorData.insert("serverName", m_configuration->serverName());
    monitorData.insert("serverVersion", SERVER_VERSION_STRING);
    monitorData.insert("apiVersion", API_VERSION_STRING);
    monitorData.insert("tunnelProxyStatistic", tunnelProxyServer()->currentStatistics(printAll));
    return monitorData;''', '''    const QVariantMap statistics = m_tunnelProxyServer->currentStatistics(printAll);
    QVariantMap monitorData;
    monitorData["tunnelProxyStatistic"] = statistics;
    monitorData["apiVersion"] = API_VERSION_STRING;
    monitorData["serverVersion"] = SERVER_VERSION_STRING;
    monitorData["serverName"] = serverName();
    return monitorData;'''))
r('tcp-stop-order', ['TcpSocketServer_', 'Tcp_startServer'],
  (TSF, '''    if (!m_server)
        return true;

    // Clean up client connections
    foreach (const QUuid &clientId, m_clientList.keys()) {
        killClientConnection(clientId, "Stop server");
    }

    m_server->close();
    m_server->deleteLater();
    m_server = nullptr;
    return true;''', '''    if (m_server) {
        m_server->close();

        const QList<QUuid> clientIds = m_clientList.keys();
        for (const QUuid &clientId : clientIds)
            killClientConnection(clientId, QStringLiteral("Stop server"));

        m_server->deleteLater();
        m_server = nullptr;
    }

    return true;'''),
  (TSF, '''    if(!m_server->listen(QHostAddress(m_serverUrl.host()), static_cast<quint16>(m_serverUrl.port()))) {''', '''    const QHostAddress address(m_serverUrl.host());
    const quint16 port = static_cast<quint16>(serverUrl().port());
    if (!m_server->listen(address, port)) {'''))
