#!/usr/bin/env python3
"""refactor.py [ID...]: behaviour-preserving edits on a scratch copy of /repo; every proof task named must
still succeed (quiet), or at worst be undecided.  Not part of any check."""
import json, os, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCR = os.environ.get('RSCR', '/tmp/refacscratch')
L, C = 'libnymea-remoteproxy/', 'libnymea-remoteproxyclient/'
SRV = L + 'tunnelproxy/tunnelproxyserver.cpp'
R = []


def r(id, tasks, *edits):
    R.append((id, tasks, edits))


SLIP = 'common/slipdataprocessor.cpp'
r('slip-decode-switch', ['slip_'],
  (SLIP, '''            if (byte == ProtocolByteTransposedEnd) {
                deserializedData.append(static_cast<char>(ProtocolByteEnd));
            } else if (byte == ProtocolByteTransposedEsc) {
                deserializedData.append(static_cast<char>(ProtocolByteEsc));
            } else {
                qWarning() << "Error while deserializing data. Escape character received but the escaped character was not recognized.";
                return QByteArray();
            }

            escaped = false;
            continue;''', '''            switch (byte) {
            case ProtocolByteTransposedEnd:
                deserializedData.append(static_cast<char>(ProtocolByteEnd));
                break;
            case ProtocolByteTransposedEsc:
                deserializedData.append(static_cast<char>(ProtocolByteEsc));
                break;
            default:
                qWarning() << "Error while deserializing data.";
                return QByteArray();
            }
            escaped = false;
            continue;'''))
r('slip-decode-while', ['slip_'],
  (SLIP, 'for (int i = 0; i < data.length(); i++) {\n        quint8 byte = static_cast<quint8>(data.at(i));\n\n        if (escaped)', 'const int total = data.size();\n    int pos = 0;\n    while (pos < total) {\n        const quint8 byte = static_cast<quint8>(data[pos++]);\n\n        if (escaped)'))
r('slip-decode-helper', ['slip_'],
  (SLIP, 'QByteArray SlipDataProcessor::deserializeData(', 'static bool unescape(quint8 byte, QByteArray *out)\n{\n    if (byte == SlipDataProcessor::ProtocolByteTransposedEnd) {\n        out->append(static_cast<char>(SlipDataProcessor::ProtocolByteEnd));\n        return true;\n    }\n    if (byte == SlipDataProcessor::ProtocolByteTransposedEsc) {\n        out->append(static_cast<char>(SlipDataProcessor::ProtocolByteEsc));\n        return true;\n    }\n    return false;\n}\n\nQByteArray SlipDataProcessor::deserializeData('),
  (SLIP, '''            if (byte == ProtocolByteTransposedEnd) {
                deserializedData.append(static_cast<char>(ProtocolByteEnd));
            } else if (byte == ProtocolByteTransposedEsc) {
                deserializedData.append(static_cast<char>(ProtocolByteEsc));
            } else {''', '''            if (!unescape(byte, &deserializedData)) {'''))
r('slip-encode-if-append', ['slip_'],
  (SLIP, '''        switch (byte) {
        case ProtocolByteEnd:
            stream << static_cast<quint8>(ProtocolByteEsc);
            stream << static_cast<quint8>(ProtocolByteTransposedEnd);
            break;
        case ProtocolByteEsc:
            stream << static_cast<quint8>(ProtocolByteEsc);
            stream << static_cast<quint8>(ProtocolByteTransposedEsc);
            break;
        default:
            stream << byte;
            break;
        }''', '''        if (byte == ProtocolByteEnd)
            stream << static_cast<quint8>(ProtocolByteEsc) << static_cast<quint8>(ProtocolByteTransposedEnd);
        else if (byte == ProtocolByteEsc)
            stream << static_cast<quint8>(ProtocolByteEsc) << static_cast<quint8>(ProtocolByteTransposedEsc);
        else
            stream << byte;'''))
r('slip-encode-rangefor', ['slip_'],
  (SLIP, '''    for (int i = 0; i < data.length(); i++) {
        quint8 byte = static_cast<quint8>(data.at(i));
        switch (byte) {''', '''    for (char c : data) {
        const quint8 byte = static_cast<quint8>(c);
        switch (byte) {'''))
r('slip-encode-append', ['slip_'],
  (SLIP, '''    QByteArray serializedData;
#if QT_VERSION >= QT_VERSION_CHECK(6, 0, 0)
    QDataStream stream(&serializedData, QDataStream::WriteOnly);
#else
    QDataStream stream(&serializedData, QIODevice::WriteOnly);
#endif
''', '''    QByteArray serializedData;
    serializedData.reserve(data.size() + 1);
'''),
  (SLIP, '''            stream << static_cast<quint8>(ProtocolByteEsc);
            stream << static_cast<quint8>(ProtocolByteTransposedEnd);''', '''            serializedData.append(static_cast<char>(ProtocolByteEsc));
            serializedData.append(static_cast<char>(ProtocolByteTransposedEnd));'''),
  (SLIP, '''            stream << static_cast<quint8>(ProtocolByteEsc);
            stream << static_cast<quint8>(ProtocolByteTransposedEsc);''', '''            serializedData.append(static_cast<char>(ProtocolByteEsc));
            serializedData.append(static_cast<char>(ProtocolByteTransposedEsc));'''),
  (SLIP, '            stream << byte;', '            serializedData.append(data.at(i));'),
  (SLIP, '    stream << static_cast<quint8>(ProtocolByteEnd);\n\n    return', '    serializedData.append(static_cast<char>(ProtocolByteEnd));\n    return'))
r('slip-build-append', ['slip_'],
  (SLIP, '''    for (int i = 0; i < frame.data.size(); i++) {
        stream << static_cast<quint8>(frame.data.at(i));
    }
    return data;''', '''    data.append(frame.data);
    return data;'''))
r('slip-build-raw', ['slip_'],
  (SLIP, '''    for (int i = 0; i < frame.data.size(); i++) {
        stream << static_cast<quint8>(frame.data.at(i));
    }
    return data;''', '''    stream.writeRawData(frame.data.constData(), frame.data.size());
    return data;'''))
r('slip-parse-mid', ['slip_'],
  (SLIP, '''    while (!stream.atEnd()) {
        quint8 dataByte;
        stream >> dataByte;
        frame.data.append(dataByte);
    }
    return frame;''', '''    frame.data = data.mid(2);
    return frame;'''))

TPC = L + 'tunnelproxy/tunnelproxyclient.cpp'
r('client-nested-if', ['client_processData', 'stream_'],
  (TPC, '''                // If there is no data...continue since it might be a starting END byte
                if (m_dataBuffer.isEmpty())
                    continue;

                QByteArray frame = SlipDataProcessor::deserializeData(m_dataBuffer);
                if (frame.isNull()) {
                    qCWarning(dcTunnelProxyServerTraffic()) << "Received inconsistant SLIP encoded message. Ignoring data...";
                } else {
                    qCDebug(dcTunnelProxyServerTraffic()) << "Frame received";
                    packets.append(frame);
                }
                m_dataBuffer.clear();''', '''                if (m_dataBuffer.size() > 0) {
                    const QByteArray frame = SlipDataProcessor::deserializeData(m_dataBuffer);
                    m_dataBuffer.clear();
                    if (!frame.isNull())
                        packets << frame;
                    else
                        qCWarning(dcTunnelProxyServerTraffic()) << "Received inconsistant SLIP encoded message. Ignoring data...";
                }'''))
r('client-split', ['client_processData'],
  (TPC, 'QList<QByteArray> TunnelProxyClient::processData(const QByteArray &data)\n{\n    QList<QByteArray> packets;', '''static bool isEnd(char c)
{
    return static_cast<quint8>(c) == SlipDataProcessor::ProtocolByteEnd;
}

QList<QByteArray> TunnelProxyClient::processData(const QByteArray &data)
{
    QList<QByteArray> packets;'''),
  (TPC, 'quint8 byte = static_cast<quint8>(data.at(i));\n            if (byte == SlipDataProcessor::ProtocolByteEnd) {', 'if (isEnd(data.at(i))) {'))
r('client-json-for', ['client_processData'],
  (TPC, '''        int splitIndex = m_dataBuffer.indexOf("}\\n{");
        while (splitIndex > -1) {
            packets.append(m_dataBuffer.left(splitIndex + 1));
            m_dataBuffer = m_dataBuffer.right(m_dataBuffer.length() - splitIndex - 2);
            splitIndex = m_dataBuffer.indexOf("}\\n{");
        }''', '''        for (int splitIndex = m_dataBuffer.indexOf("}\\n{"); splitIndex >= 0; splitIndex = m_dataBuffer.indexOf("}\\n{")) {
            packets.append(m_dataBuffer.left(splitIndex + 1));
            m_dataBuffer.remove(0, splitIndex + 2);
        }'''))
r('client-json-mid', ['client_processData'],
  (TPC, '''        int splitIndex = m_dataBuffer.indexOf("}\\n{");
        while (splitIndex > -1) {
            packets.append(m_dataBuffer.left(splitIndex + 1));
            m_dataBuffer = m_dataBuffer.right(m_dataBuffer.length() - splitIndex - 2);
            splitIndex = m_dataBuffer.indexOf("}\\n{");
        }''', '''        int splitIndex;
        while ((splitIndex = m_dataBuffer.indexOf("}\\n{")) != -1) {
            packets.append(m_dataBuffer.mid(0, splitIndex + 1));
            m_dataBuffer = m_dataBuffer.mid(splitIndex + 2);
        }'''))

r('srv-register-reorder', ['registerServer', 'RegisterServer'],
  (SRV, '''    tunnelProxyClient->setType(TunnelProxyClient::TypeServer);
    tunnelProxyClient->setUuid(serverUuid);
    tunnelProxyClient->setName(serverName);
''', '''    tunnelProxyClient->setName(serverName);
    tunnelProxyClient->setUuid(serverUuid);
    tunnelProxyClient->setType(TunnelProxyClient::TypeServer);
'''),
  (SRV, '''    // Also make sure this uuid has not been alreay used for any client connections...
    if (m_tunnelProxyClientConnections.contains(serverUuid)) {
        qCWarning(dcTunnelProxyServer()) << "Client tried to register as server" ''', '''    const bool usedByClient = m_tunnelProxyClientConnections.value(serverUuid) != nullptr;
    if (usedByClient) {
        qCWarning(dcTunnelProxyServer()) << "Client tried to register as server" '''))
r('srv-register-helper', ['registerServer', 'registerClient'],
  (SRV, 'TunnelProxyServer::TunnelProxyError TunnelProxyServer::registerServer(', '''static TunnelProxyServer::TunnelProxyError refuse(TunnelProxyClient *client, const QString &reason)
{
    client->killConnectionAfterResponse(reason);
    return TunnelProxyServer::TunnelProxyErrorAlreadyRegistered;
}

TunnelProxyServer::TunnelProxyError TunnelProxyServer::registerServer('''),
  (SRV, '''serverUuid.toString();
        tunnelProxyClient->killConnectionAfterResponse("UUID cross registeration");
        return TunnelProxyServer::TunnelProxyErrorAlreadyRegistered;''', '''serverUuid.toString();
        return refuse(tunnelProxyClient, "UUID cross registeration");'''),
  (SRV, '''<< clientUuid.toString();
        tunnelProxyClient->killConnectionAfterResponse("Already registered");
        return TunnelProxyServer::TunnelProxyErrorAlreadyRegistered;''', '''<< clientUuid.toString();
        return refuse(tunnelProxyClient, QStringLiteral("Already registered"));'''))
r('srv-register-iter', ['registerClient'],
  (SRV, '''    TunnelProxyServerConnection *serverConnection = m_tunnelProxyServerConnections.value(serverUuid);
    if (!serverConnection) {
        qCWarning(dcTunnelProxyServer()) << "There is no server registered''', '''    auto it = m_tunnelProxyServerConnections.constFind(serverUuid);
    TunnelProxyServerConnection *serverConnection = it == m_tunnelProxyServerConnections.constEnd() ? nullptr : it.value();
    if (serverConnection == nullptr) {
        qCWarning(dcTunnelProxyServer()) << "There is no server registered'''))
r('srv-register-params', ['registerClient'],
  (SRV, '''    QVariantMap params;
    params.insert("clientName", tunnelProxyClient->name());
    params.insert("clientUuid", tunnelProxyClient->uuid().toString());
    params.insert("clientPeerAddress", tunnelProxyClient->peerAddress().toString());
    params.insert("socketAddress", clientConnection->socketAddress());
''', '''    QVariantMap params;
    params["socketAddress"] = clientConnection->socketAddress();
    params["clientUuid"] = clientUuid.toString();
    params["clientName"] = clientName;
    params["clientPeerAddress"] = tunnelProxyClient->peerAddress().toString();
'''))
SC = L + 'tunnelproxy/tunnelproxyserverconnection.cpp'
r('addr-while', ['registerClient'],
  (SC, '''    m_currentAddressCounter += 1;
    quint16 address = m_currentAddressCounter;
    for (int i = 0; i <= 0xFFFF; i++) {
        if (m_clientConnectionsAddresses.contains(address) || address == 0x0000 || address == 0xFFFF) {
            address++;
        } else {
            return address;
        }
    }
''', '''    quint16 address = ++m_currentAddressCounter;
    int tries = 0x10000;
    while (tries > 0) {
        const bool reserved = (address == 0x0000 || address == 0xFFFF);
        if (!reserved && !m_clientConnectionsAddresses.contains(address))
            return address;

        address++;
        tries--;
    }
'''))
r('addr-isfree', ['registerClient'],
  (SC, 'quint16 TunnelProxyServerConnection::getFreeAddress()', '''static bool isReserved(quint16 address)
{
    return address == 0x0000 || address == 0xFFFF;
}

quint16 TunnelProxyServerConnection::getFreeAddress()'''),
  (SC, 'if (m_clientConnectionsAddresses.contains(address) || address == 0x0000 || address == 0xFFFF) {', 'if (isReserved(address) || m_clientConnectionsAddresses.contains(address)) {'))
r('srv-disc-helper', ['onClientDisconnected'],
  (SRV, 'void TunnelProxyServer::onClientDisconnected(', '''static void closeClients(TunnelProxyServerConnection *serverConnection)
{
    const QList<TunnelProxyClientConnection *> clients = serverConnection->clientConnections();
    for (TunnelProxyClientConnection *clientConnection : clients) {
        serverConnection->unregisterClientConnection(clientConnection);
        clientConnection->transportClient()->killConnection("Server disconnected");
    }
}

void TunnelProxyServer::onClientDisconnected('''),
  (SRV, '''            foreach (TunnelProxyClientConnection *clientConnection, serverConnection->clientConnections()) {
                serverConnection->unregisterClientConnection(clientConnection);
                clientConnection->transportClient()->killConnection("Server disconnected");
            }
''', '''            closeClients(serverConnection);
'''))
r('srv-disc-index', ['onClientDisconnected'],
  (SRV, '''            foreach (TunnelProxyClientConnection *clientConnection, serverConnection->clientConnections()) {
                serverConnection->unregisterClientConnection(clientConnection);
                clientConnection->transportClient()->killConnection("Server disconnected");
            }
''', '''            const QList<TunnelProxyClientConnection *> clients = serverConnection->clientConnections();
            for (int i = 0; i < clients.size(); i++) {
                TunnelProxyClientConnection *attached = clients.at(i);
                serverConnection->unregisterClientConnection(attached);
                attached->transportClient()->killConnection("Server disconnected");
            }
'''))
r('srv-disc-switch', ['onClientDisconnected'],
  (SRV, '''    if (tunnelProxyClient->type() == TunnelProxyClient::TypeClient) {
        TunnelProxyClientConnection *clientConnection = m_tunnelProxyClientConnections.take(tunnelProxyClient->uuid());
        if (!clientConnection) {
            qCWarning(dcTunnelProxyServer()) << "Could not find client connection for disconnected tunnel proxy client claiming to be a client.";
        } else {
            TunnelProxyServerConnection *serverConnection = clientConnection->serverConnection();
            if (serverConnection) {
                QVariantMap params;
                params.insert("socketAddress", clientConnection->socketAddress());
                serverConnection->unregisterClientConnection(clientConnection);
                m_jsonRpcServer''', '''    const bool wasClient = tunnelProxyClient->type() == TunnelProxyClient::TypeClient;
    if (wasClient) {
        TunnelProxyClientConnection *clientConnection = m_tunnelProxyClientConnections.take(tunnelProxyClient->uuid());
        if (!clientConnection) {
            qCWarning(dcTunnelProxyServer()) << "Could not find client connection for disconnected tunnel proxy client claiming to be a client.";
        } else {
            TunnelProxyServerConnection *serverConnection = clientConnection->serverConnection();
            if (serverConnection) {
                const quint16 oldAddress = clientConnection->socketAddress();
                serverConnection->unregisterClientConnection(clientConnection);
                QVariantMap params;
                params.insert("socketAddress", oldAddress);
                m_jsonRpcServer'''))
r('srv-data-early', ['onClientDataAvailable'],
  (SRV, '''    } else if (tunnelProxyClient->type() == TunnelProxyClient::TypeServer) {
        // Data coming from a connected server connection
        if (tunnelProxyClient->slipEnabled()) {''', '''    } else if (tunnelProxyClient->type() == TunnelProxyClient::TypeServer) {
        // Data coming from a connected server connection
        const bool framed = tunnelProxyClient->slipEnabled();
        if (framed) {'''),
  (SRV, '''            foreach (const QByteArray &frameData, frames) {
                SlipDataProcessor::Frame frame = SlipDataProcessor::parseFrame(frameData);

                if (frame.socketAddress == 0x0000) {
                    qCDebug(dcTunnelProxyServerTraffic()) << "Received frame for the JSON server" << tunnelProxyClient;
                    m_jsonRpcServer->processDataPacket(tunnelProxyClient, frame.data);
                } else {''', '''            for (int i = 0; i < frames.count(); i++) {
                const SlipDataProcessor::Frame frame = SlipDataProcessor::parseFrame(frames.at(i));

                if (!frame.socketAddress) {
                    m_jsonRpcServer->processDataPacket(tunnelProxyClient, frame.data);
                    continue;
                }
                {'''))
r('srv-data-helper', ['onClientDataAvailable'],
  (SRV, 'void TunnelProxyServer::onClientDataAvailable(', '''static QByteArray encodeFrame(quint16 address, const QByteArray &payload)
{
    SlipDataProcessor::Frame frame;
    frame.socketAddress = address;
    frame.data = payload;
    return SlipDataProcessor::serializeData(SlipDataProcessor::buildFrame(frame));
}

void TunnelProxyServer::onClientDataAvailable('''),
  (SRV, '''        SlipDataProcessor::Frame frame;
        frame.socketAddress = clientConnection->socketAddress();
        frame.data = data;
        qCDebug''', '''        qCDebug'''),
  (SRV, '''        QByteArray rawData = SlipDataProcessor::serializeData(SlipDataProcessor::buildFrame(frame));
        clientConnection''', '''        TunnelProxyServerConnection *serverConnection = clientConnection->serverConnection();
        serverConnection->transportClient()->sendData(encodeFrame(clientConnection->socketAddress(), data));
        m_troughputCounter += data.size();
        return;
        QByteArray rawData;
        clientConnection'''))
r('srv-data-range', ['onClientDataAvailable'],
  (SRV, '            QList<QByteArray> frames = tunnelProxyClient->processData(data);\n            foreach (const QByteArray &frameData, frames) {', '            const QList<QByteArray> frames = tunnelProxyClient->processData(data);\n            for (const QByteArray &frameData : frames) {'))
r('srv-stats-locals', ['currentStatistics'],
  (SRV, '''        QVariantMap serverMap;
        serverMap.insert("id", serverConnection->transportClient()->clientId().toString());
        serverMap.insert("address", serverConnection->transportClient()->peerAddress().toString());''', '''        TransportClient *server = serverConnection->transportClient();
        QVariantMap serverMap;
        serverMap.insert("id", server->clientId().toString());
        serverMap.insert("address", server->peerAddress().toString());'''),
  (SRV, '''        foreach (TunnelProxyClientConnection *clientConnection, serverConnection->clientConnections()) {
            QVariantMap clientMap;''', '''        const auto attached = serverConnection->clientConnections();
        for (TunnelProxyClientConnection *clientConnection : attached) {
            QVariantMap clientMap;'''))
r('srv-stats-helper', ['currentStatistics'],
  (SRV, 'QVariantMap TunnelProxyServer::currentStatistics(bool printAll)\n{', '''static QVariantMap clientStatistics(TunnelProxyClientConnection *clientConnection)
{
    QVariantMap clientMap;
    clientMap.insert("id", clientConnection->transportClient()->clientId().toString());
    clientMap.insert("address", clientConnection->transportClient()->peerAddress().toString());
    clientMap.insert("timestamp", clientConnection->transportClient()->creationTime());
    clientMap.insert("name", clientConnection->transportClient()->name());
    clientMap.insert("clientUuid", clientConnection->transportClient()->uuid());
    clientMap.insert("rxDataCount", clientConnection->transportClient()->rxDataCount());
    clientMap.insert("txDataCount", clientConnection->transportClient()->txDataCount());
    return clientMap;
}

QVariantMap TunnelProxyServer::currentStatistics(bool printAll)
{'''),
  (SRV, '''            QVariantMap clientMap;
            clientMap.insert("id", clientConnection->transportClient()->clientId().toString());
            clientMap.insert("address", clientConnection->transportClient()->peerAddress().toString());
            clientMap.insert("timestamp", clientConnection->transportClient()->creationTime());
            clientMap.insert("name", clientConnection->transportClient()->name());
            clientMap.insert("clientUuid", clientConnection->transportClient()->uuid());
            clientMap.insert("rxDataCount", clientConnection->transportClient()->rxDataCount());
            clientMap.insert("txDataCount", clientConnection->transportClient()->txDataCount());
            clientList.append(clientMap);''', '''            clientList.append(clientStatistics(clientConnection));'''))

J = L + 'server/jsonrpcserver.cpp'
r('json-reject', ['processDataPacket'],
  (J, 'void JsonRpcServer::processDataPacket(TransportClient *transportClient, const QByteArray &data)\n{', '''static void rejectPacket(JsonRpcServer *server, TransportClient *transportClient, const QString &reason)
{
    Q_UNUSED(server)
    transportClient->killConnection(reason);
}

void JsonRpcServer::processDataPacket(TransportClient *transportClient, const QByteArray &data)
{'''),
  (J, 'transportClient->killConnection("No such method.");', 'rejectPacket(this, transportClient, "No such method.");'),
  (J, 'transportClient->killConnection("Invalid JSON data received.");', 'rejectPacket(this, transportClient, "Invalid JSON data received.");'))
r('json-locals', ['processDataPacket'],
  (J, '''    QStringList commandList = message.value("method").toString().split('.');
    if (commandList.count() != 2) {''', '''    const QString fullMethod = message.value("method").toString();
    const QStringList commandList = fullMethod.split('.');
    if (commandList.size() != 2) {'''),
  (J, 'QString targetNamespace = commandList.first();\n    QString method = commandList.last();', 'const QString targetNamespace = commandList.at(0);\n    const QString method = commandList.at(1);'),
  (J, '''    QVariantMap params = message.value("params").toMap();
    QPair<bool, QString> validationResult''', '''    const QVariantMap params = message["params"].toMap();
    const QPair<bool, QString> validationResult'''))
r('json-handlerfind', ['processDataPacket'],
  (J, '''    JsonHandler *handler = m_handlers.value(targetNamespace);
    if (!handler) {
''', '''    JsonHandler *handler = m_handlers.contains(targetNamespace) ? m_handlers.value(targetNamespace) : nullptr;
    if (handler == nullptr) {
'''))
r('json-sendhelper', ['processDataPacket', 'asyncReply', 'sendNotification'],
  (J, 'void JsonRpcServer::sendResponse(', '''static void sendJson(TransportClient *client, const QVariantMap &message)
{
    QByteArray data = QJsonDocument::fromVariant(message).toJson(QJsonDocument::Compact);
    if (!client->slipEnabled()) {
        client->sendData(data + "\\n");
        return;
    }
    SlipDataProcessor::Frame frame;
    frame.socketAddress = 0x0000;
    frame.data = data + "\\n";
    client->sendData(SlipDataProcessor::serializeData(SlipDataProcessor::buildFrame(frame)));
}

void JsonRpcServer::sendResponse('''),
  (J, '''    response.insert("params", params);

    QByteArray data = QJsonDocument::fromVariant(response).toJson(QJsonDocument::Compact);
    qCDebug(dcJsonRpcTraffic()) << "Sending data:" << data;
    if (client->slipEnabled()) {
        SlipDataProcessor::Frame frame;
        frame.socketAddress = 0x0000;
        frame.data = data + "\\n";
        client->sendData(SlipDataProcessor::serializeData(SlipDataProcessor::buildFrame(frame)));
    } else {
        client->sendData(data + "\\n");
    }''', '''    response.insert("params", params);
    sendJson(client, response);'''))
r('json-proc-index', ['jsonProcessData'],
  (J, '''    foreach (const QByteArray &packet, packets) {
        processDataPacket(transportClient, packet);
    }''', '''    for (int i = 0; i < packets.size(); ++i)
        processDataPacket(transportClient, packets.at(i));'''),
  (J, 'if (transportClient->bufferSize() > 1024 * 10) {', 'const int maxBufferSize = 10240;\n    if (transportClient->bufferSize() > maxBufferSize) {'))
r('json-proc-iter', ['jsonProcessData'],
  (J, '''    foreach (const QByteArray &packet, packets) {
        processDataPacket(transportClient, packet);
    }''', '''    for (auto it = packets.constBegin(); it != packets.constEnd(); ++it)
        processDataPacket(transportClient, *it);'''))
r('json-proc-while', ['jsonProcessData'],
  (J, '''    foreach (const QByteArray &packet, packets) {
        processDataPacket(transportClient, packet);
    }''', '''    while (!packets.isEmpty())
        processDataPacket(transportClient, packets.takeFirst());'''))
H = L + 'jsonrpc/tunnelproxyhandler.cpp'
r('handler-early', ['RegisterServer'],
  (H, '''    TunnelProxyServer::TunnelProxyError error = TunnelProxyServer::TunnelProxyErrorNoError;
    if (serverUuid.isNull()) {
        qCWarning(dcJsonRpc()) << "Invalid uuid received" << params.value("serverUuid").toString() << serverUuid;
        error = TunnelProxyServer::TunnelProxyErrorInvalidUuid;
    } else {
        QString serverName = params.value("serverName").toString();
        error = Engine::instance()->tunnelProxyServer()->registerServer(transportClient->clientId(), serverUuid, serverName);
    }
''', '''    TunnelProxyServer::TunnelProxyError error = TunnelProxyServer::TunnelProxyErrorInvalidUuid;
    if (!serverUuid.isNull()) {
        TunnelProxyServer *proxy = Engine::instance()->tunnelProxyServer();
        error = proxy->registerServer(transportClient->clientId(), serverUuid, params.value("serverName").toString());
    }
'''))
r('handler-switch', ['RegisterClient'],
  (H, '''    if (serverUuid.isNull()) {
        qCWarning(dcJsonRpc()) << "Invalid server uuid received" << params.value("serverUuid").toString() << serverUuid;
        error = TunnelProxyServer::TunnelProxyErrorInvalidUuid;
    } else if (clientUuid.isNull()) {
        qCWarning(dcJsonRpc()) << "Invalid client uuid received" << params.value("clientUuid").toString() << clientUuid;
        error = TunnelProxyServer::TunnelProxyErrorInvalidUuid;
    } else {''', '''    if (clientUuid.isNull() || serverUuid.isNull()) {
        error = TunnelProxyServer::TunnelProxyErrorInvalidUuid;
    } else {'''))
T = L + 'jsonrpc/jsontypes.cpp'
TCP, WEB, UNX = L + 'server/tcpsocketserver.cpp', L + 'server/websocketserver.cpp', L + 'server/unixsocketserver.cpp'
r('tcp-contains', ['Tcp', 'TcpSocketServer'],
  (TCP, '''    QSslSocket *client = m_clientList.value(clientId);
    if (!client) {
        qCWarning(dcTcpSocketServer()) << "Client" << clientId << "unknown to this transport";
        return;
    }
''', '''    if (!m_clientList.contains(clientId)) {
        qCWarning(dcTcpSocketServer()) << "Client" << clientId << "unknown to this transport";
        return;
    }
    QSslSocket *client = m_clientList.value(clientId);
'''),
  (TCP, '''    if (client->write(data) < 0) {
        qCWarning''', '''    const qint64 written = client->write(data);
    if (written < 0) {
        qCWarning'''))
r('tcp-remove', ['Tcp_'],
  (TCP, '    m_clientList.take(clientId);\n    // Note', '    m_clientList.remove(clientId);\n    // Note'),
  (TCP, '''    foreach (const QUuid &clientId, m_clientList.keys()) {
        killClientConnection(clientId, "Stop server");
    }''', '''    const QList<QUuid> clientIds = m_clientList.keys();
    for (int i = 0; i < clientIds.size(); i++)
        killClientConnection(clientIds.at(i), "Stop server");
'''))
r('tcp-lambda', ['SslServer', 'Tcp_'],
  (TCP, '''        if (m_sslEnabled && !sslSocket->isEncrypted())
            return;

        QByteArray data = sslSocket->readAll();
        qCDebug(dcTcpSocketServerTraffic()) << "Data from socket" << sslSocket->peerAddress().toString() << data;
        emit dataAvailable(sslSocket, data);''', '''        if (!m_sslEnabled || sslSocket->isEncrypted()) {
            const QByteArray received = sslSocket->readAll();
            emit dataAvailable(sslSocket, received);
        }'''),
  (TCP, '''        if (m_sslEnabled) {
#if QT_VERSION >= QT_VERSION_CHECK(6, 0, 0)''', '''        if (m_sslEnabled == true) {
#if QT_VERSION >= QT_VERSION_CHECK(6, 0, 0)'''))
r('web-early', ['Web', 'WebSocketServer'],
  (WEB, '''    if (client) {
        qCDebug(dcWebSocketServerTraffic()) << "--> Sending data to client:" << data;
        client->sendTextMessage(data);
    } else {
        qCWarning(dcWebSocketServer()) << "Client" << clientId << "unknown to this transport";
    }''', '''    if (!client) {
        qCWarning(dcWebSocketServer()) << "Client" << clientId << "unknown to this transport";
        return;
    }
    client->sendTextMessage(QString::fromUtf8(data));'''),
  (WEB, '''    m_clientList.take(clientId)->deleteLater();
    emit''', '''    m_clientList.remove(clientId);
    client->deleteLater();
    emit'''))
r('web-start', ['Web_startServer'],
  (WEB, '''    if (m_sslEnabled) {
        m_server = new QWebSocketServer(QCoreApplication::applicationName(), QWebSocketServer::SecureMode, this);
        m_server->setSslConfiguration(sslConfiguration());
    } else {
        m_server = new QWebSocketServer(QCoreApplication::applicationName(), QWebSocketServer::NonSecureMode, this);
    }''', '''    const QWebSocketServer::SslMode mode = m_sslEnabled ? QWebSocketServer::SecureMode : QWebSocketServer::NonSecureMode;
    m_server = new QWebSocketServer(QCoreApplication::applicationName(), mode, this);
    if (m_sslEnabled)
        m_server->setSslConfiguration(m_sslConfiguration);
'''))
r('unix-slot', ['Unix'],
  (UNX, '''    connect(client, &QLocalSocket::readyRead, this, [this, client, clientId](){
        QByteArray data = client->readAll();
        qCDebug(dcUnixSocketServerTraffic()) << "Incomming data from" << clientId.toString() << data;
        emit dataAvailable(clientId, data);
    });''', '''    connect(client, &QLocalSocket::readyRead, this, [=](){
        emit dataAvailable(clientId, client->readAll());
    });'''),
  (UNX, '''        if (m_clientList.take(clientId)) {
            emit clientDisconnected(clientId);
        }''', '''        if (!m_clientList.contains(clientId))
            return;
        m_clientList.remove(clientId);
        emit clientDisconnected(clientId);'''))
EN = L + 'engine.cpp'
r('engine-helper', ['Engine', 'TunnelProxyServer_'],
  (EN, '''    // Configure websocket server
    QUrl websocketServerTunnelProxyUrl;
    websocketServerTunnelProxyUrl.setScheme(m_configuration->sslEnabled() ? "wss" : "ws");''', '''    const bool secure = m_configuration->sslEnabled();
    // Configure websocket server
    QUrl websocketServerTunnelProxyUrl;
    websocketServerTunnelProxyUrl.setScheme(secure ? "wss" : "ws");'''),
  (EN, '''    m_tcpSocketServerTunnelProxy = new TcpSocketServer(m_configuration->sslEnabled(), m_configuration->sslConfiguration(), this);
    m_unixSocketServerTunnelProxy = new UnixSocketServer(m_configuration->unixSocketFileName(), this);
''', '''    m_unixSocketServerTunnelProxy = new UnixSocketServer(configuration->unixSocketFileName(), this);
    m_tcpSocketServerTunnelProxy = new TcpSocketServer(configuration->sslEnabled(), configuration->sslConfiguration(), this);
'''),
  (EN, '''    if (m_webSocketServerTunnelProxy) {
        delete m_webSocketServerTunnelProxy;
        m_webSocketServerTunnelProxy = nullptr;
    }
''', '''    delete m_webSocketServerTunnelProxy;
    m_webSocketServerTunnelProxy = nullptr;
'''))
r('engine-running', ['Engine'],
  (EN, '''    if (running) {
        m_timer->start();
    } else {
        m_timer->stop();
    }

    m_running = running;
    emit runningChanged(m_running);''', '''    m_running = running;
    if (m_running)
        m_timer->start();
    else
        m_timer->stop();

    emit runningChanged(running);'''),
  (EN, 'QMetaObject::invokeMethod(this, QString("setRunning").toLatin1().data(), Qt::QueuedConnection, Q_ARG(bool, true));', 'QMetaObject::invokeMethod(this, "setRunning", Qt::QueuedConnection, Q_ARG(bool, true));'))
CF = L + 'proxyconfiguration.cpp'
r('conf-reorder', ['loadConfiguration'],
  (CF, '''    setJsonRpcTimeout(settings.value("jsonRpcTimeout", 10000).toInt());
    setInactiveTimeout(settings.value("inactiveTimeout", 8000).toInt());''', '''    const int inactive = settings.value("inactiveTimeout", 8000).toInt();
    setInactiveTimeout(inactive);
    m_jsonRpcTimeout = settings.value("jsonRpcTimeout", 10000).toInt();'''),
  (CF, '''    QFileInfo fileInfo(m_fileName);
    if (!fileInfo.exists()) {''', '''    if (!QFileInfo(fileName).exists()) {'''),
  (CF, 'if (!sslCertificateChainFileName().isEmpty()) {', 'const QString chainFileName = sslCertificateChainFileName();\n    if (chainFileName.length() > 0) {'))
r('conf-exists', ['loadConfiguration'],
  (CF, '''    QFileInfo fileInfo(m_fileName);
    if (!fileInfo.exists()) {''', '''    if (!QFile::exists(fileName)) {'''))
r('conf-helper', ['loadConfiguration'],
  (CF, 'bool ProxyConfiguration::loadConfiguration(const QString &fileName)\n{', '''static QString readString(QSettings &settings, const QString &key, const QString &defaultValue)
{
    return settings.value(key, defaultValue).toString();
}

bool ProxyConfiguration::loadConfiguration(const QString &fileName)
{'''),
  (CF, 'setServerName(settings.value("name", "nymea-remoteproxy").toString());', 'setServerName(readString(settings, "name", "nymea-remoteproxy"));'))
for _f in ('refactor_client.py', 'refactor_apps.py', 'refactor_more.py'):
    if os.path.exists(os.path.join(ROOT, 'tools', _f)):
        exec(open(os.path.join(ROOT, 'tools', _f)).read())


def main():
    sys.path[:0] = [ROOT, os.path.join(ROOT, 'vcg')]
    only = [a for a in sys.argv[1:]]
    for id, tasks, edits in R:
        if only and not any(id.startswith(o) for o in only):
            continue
        if os.path.exists(SCR):
            shutil.rmtree(SCR)
        shutil.copytree(os.environ.get('RREPO', '/repo'), SCR, ignore=shutil.ignore_patterns('_build', '.git'))
        ok = True
        for f, o, n in edits:
            p = os.path.join(SCR, f)
            t = open(p).read()
            if t.count(o) < 1:
                print(id, 'NO MATCH in', f, repr(o[:80]))
                ok = False
                break
            open(p, 'w').write(t.replace(o, n, 1))
        if not ok:
            continue
        # must compile
        cpp = sorted(set(f for f, _, _ in edits if f.endswith('.cpp')))
        flags = subprocess.run(['pkg-config', '--cflags', 'Qt5Core', 'Qt5Network', 'Qt5WebSockets'], capture_output=True, text=True).stdout.split()
        for f in cpp:
            lib = C if f.startswith(C) or f.startswith('tunnelclient') else L
            c = subprocess.run(['g++', '-std=gnu++11', '-fsyntax-only', '-w', '-fPIC', '-I' + SCR, '-I' + os.path.join(SCR, lib), '-I' + os.path.join(SCR, 'common'), '-I/repo/_build', '-I/repo/_build/server'] + flags + [os.path.join(SCR, f)],
                               capture_output=True, text=True)
            if c.returncode:
                print(id, 'DOES NOT COMPILE', c.stderr[:600])
                ok = False
        if not ok:
            continue
        code = '''
import sys; sys.setrecursionlimit(20000)
sys.path[:0] = [%r, %r]
import check, task
check.load_specs()
names = [n for n in task.TASKS if any(n.startswith(a) for a in %r)]
res = check.run_tasks(names, 'quick', 400)
bad = []
for n in names:
    x = res[n]
    if x['status'] != 'ok': bad.append((n, x['status'], str(x['error'])[:200]))
    for o in x['obligations']:
        if o['status'] != 'proved' and not any(t.startswith('finding:') for t in o['tags']):
            bad.append((n, o['status'], o['name'], o.get('why'), str(o.get('detail'))[:120]))
print('quiet' if not bad else ('ALARM' if any(b[1] == 'failed' for b in bad) else 'undecided'), len(names))
for b in bad[:4]: print('    ', b)
''' % (ROOT, os.path.join(ROOT, 'vcg'), tasks)
        x = subprocess.run(['python3-vt', '-c', code], capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=SCR))
        print('%-22s %s' % (id, (x.stdout or x.stderr[-800:]).rstrip()))
        sys.stdout.flush()
    shutil.rmtree(SCR, ignore_errors=True)


main()
