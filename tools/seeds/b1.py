CORE = 'libnymea-remoteproxy/'
SRV = CORE + 'tunnelproxy/tunnelproxyserver.cpp'
SETUP = '''
    QUuid s = b.t.connectClient(), su = QUuid::createUuid(), c = b.t.connectClient(), cu = QUuid::createUuid();
    CHECK(b.regServer(s, su) == "TunnelProxyErrorNoError");
    CHECK(b.regClient(c, cu, su) == "TunnelProxyErrorNoError");
    int a = b.addressOf(cu);
    CHECK(a > 0);
    b.t.log.clear();
'''
SEEDS = [
 dict(id='c01-fastpath', prop='C01', needs='a payload containing an escape byte but no terminator byte', breaks='the fast path copies escape bytes unescaped',
      edits=[('common/slipdataprocessor.cpp', '''    QByteArray serializedData;
#if QT''', '''    QByteArray serializedData;
    // Nothing to escape, no need to go through the stream byte by byte
    if (!data.contains(static_cast<char>(ProtocolByteEnd)))
        return data + static_cast<char>(ProtocolByteEnd);

#if QT''')],
      demo=r'''
    for (int x = 0; x < 256; x++) for (int y = 0; y < 256; y += 17) {
        QByteArray d; d.append(char(y)); d.append(char(x)); d.append('z');
        QByteArray e = SlipDataProcessor::serializeData(d);
        CHECK(e.endsWith(char(0xC0)) && e.count(char(0xC0)) == 1);
        CHECK(SlipDataProcessor::deserializeData(e) == d);
    }'''),
 dict(id='c02-signed', prop='C02', needs='a frame whose address has a low byte of 0x80 or more', breaks='sign extension of the low byte destroys the address',
      edits=[('common/slipdataprocessor.cpp', '''    QDataStream stream(data);
    stream >> frame.socketAddress;
    while''', '''    QDataStream stream(data);
    qint8 high = 0, low = 0;
    stream >> high >> low;
    frame.socketAddress = static_cast<quint16>((high << 8) | low);
    while''')],
      demo=r'''
    for (int x = 0; x < 65536; x += 7) {
        SlipDataProcessor::Frame f; f.socketAddress = x; f.data = "pay";
        SlipDataProcessor::Frame g = SlipDataProcessor::parseFrame(SlipDataProcessor::buildFrame(f));
        CHECK(g.socketAddress == x && g.data == "pay");
        if (g_bad) break;
    }'''),
 dict(id='c03-chunkstart', prop='C03', needs='a terminator that arrives as the first byte of a chunk', breaks='the frame before it is not delivered but glued to the next',
      edits=[(CORE + 'tunnelproxy/tunnelproxyclient.cpp', '''                if (m_dataBuffer.isEmpty())
                    continue;''', '''                if (m_dataBuffer.isEmpty() || i == 0)
                    continue;''')],
      demo=SETUP + r'''
    QByteArray f = Bed::frame(a, "one");
    b.t.rx(s, f.left(f.size() - 1));
    b.t.rx(s, f.right(1) + Bed::frame(a, "two"));
    CHECK(b.t.sentTo(c) == (QList<QByteArray>() << "one" << "two"));'''),
 dict(id='c04-limit', prop='C04', needs='an endless packet that arrives in chunks smaller than 10 KiB', breaks='the buffer limit is checked against the chunk, the buffer grows without bound',
      edits=[(CORE + 'server/jsonrpcserver.cpp', 'if (transportClient->bufferSize() > 1024 * 10) {', 'if (data.size() > 1024 * 10) {')],
      demo=r'''
    QUuid c = b.t.connectClient();
    for (int i = 0; i < 30; i++) b.t.rx(c, QByteArray(1000, 'x'));
    CHECK(b.t.kills(c) > 0);'''),
 dict(id='c05-revive', prop='C05', needs='a server that goes away and registers again before its old client is gone', breaks='data of the orphaned client is forwarded to the new server connection',
      edits=[(CORE + 'tunnelproxy/tunnelproxyclientconnection.cpp', '''        m_serverUuid = m_serverConnection->serverUuid();
    } else {
        m_serverUuid = QUuid();
    }
''', '''        m_serverUuid = m_serverConnection->serverUuid();
    }
'''), (SRV, '''        SlipDataProcessor::Frame frame;
        frame.socketAddress = clientConnection->socketAddress();''', '''        SlipDataProcessor::Frame frame;
        frame.socketAddress = clientConnection->socketAddress();'''),
             (SRV, '''        if (!clientConnection->serverConnection()) {
            qCW''', '''        if (!clientConnection->serverConnection())
            clientConnection->setServerConnection(m_tunnelProxyServerConnections.value(clientConnection->serverUuid()));

        if (!clientConnection->serverConnection()) {
            qCW''')],
      demo=SETUP + r'''
    b.t.disconnectClient(s);
    QUuid s2 = b.t.connectClient();
    CHECK(b.regServer(s2, su) == "TunnelProxyErrorNoError");
    b.t.log.clear();
    b.t.rx(c, "late data");
    CHECK(b.t.sentTo(s2).isEmpty());'''),
 dict(id='c06-return', prop='C06', needs='a frame for an unknown address followed by a good one in the same chunk', breaks='the frames behind the unknown address are lost',
      edits=[(SRV, '''to a client connection which has not been registered to the server.";
                        continue;''', '''to a client connection which has not been registered to the server.";
                        return;''')],
      demo=SETUP + r'''
    b.t.rx(s, Bed::frame(a + 7, "lost") + Bed::frame(a, "mine"));
    CHECK(b.t.sentTo(c) == (QList<QByteArray>() << "mine"));
    b.t.rx(s, Bed::frame(a, "mine2"));
    CHECK(b.t.sentTo(c) == (QList<QByteArray>() << "mine" << "mine2"));'''),
 dict(id='c07-signed', prop='C07', needs='an assigned address of 0x8000 or more', breaks='the server is told a negative address',
      edits=[(SRV, '''    params.insert("clientPeerAddress", tunnelProxyClient->peerAddress().toString());
    params.insert("socketAddress", clientConnection->socketAddress());''', '''    params.insert("clientPeerAddress", tunnelProxyClient->peerAddress().toString());
    params.insert("socketAddress", static_cast<qint16>(clientConnection->socketAddress()));''')],
      demo=SETUP + r'''
    b.s->m_tunnelProxyServerConnections.value(su)->m_currentAddressCounter = 0x7fff;
    QUuid c2 = b.t.connectClient(), cu2 = QUuid::createUuid();
    CHECK(b.regClient(c2, cu2, su) == "TunnelProxyErrorNoError");
    QVariantMap n = b.reply(s);
    CHECK(n.value("notification").toString() == "TunnelProxy.ClientConnected");
    CHECK(n.value("params").toMap().value("socketAddress").toInt() == b.addressOf(cu2));'''),
 dict(id='c08-early', prop='C08', needs='a client registration refused because the server is unknown, then the same data again', breaks='the refused connection already has the client role and the UUID',
      edits=[(SRV, '''    // Get the desired server connection
    TunnelProxyServerConnection *serverConnection = m_tunnelProxyServerConnections.value(serverUuid);''', '''    tunnelProxyClient->setUuid(clientUuid);
    tunnelProxyClient->setName(clientName);
    tunnelProxyClient->setType(TunnelProxyClient::TypeClient);

    // Get the desired server connection
    TunnelProxyServerConnection *serverConnection = m_tunnelProxyServerConnections.value(serverUuid);'''),
             (SRV, '''    // Not registered yet, we have a connected server for the requested server uuid
    tunnelProxyClient->setType(TunnelProxyClient::TypeClient);
    tunnelProxyClient->setUuid(clientUuid);
    tunnelProxyClient->setName(clientName);
''', '''    // Not registered yet, we have a connected server for the requested server uuid
''')],
      demo=SETUP + r'''
    QUuid c2 = b.t.connectClient();
    CHECK(b.regClient(c2, QUuid::createUuid(), QUuid::createUuid()) == "TunnelProxyErrorServerNotFound");
    CHECK(b.t.kills(c2) == 1);
    CHECK(b.s->m_proxyClients.value(c2)->type() == TunnelProxyClient::TypeNone);
    CHECK(b.s->m_proxyClients.value(c2)->uuid().isNull());'''),
 dict(id='c09-orphan', prop='C09', needs='a client that disconnects after its server', breaks='the client entry stays in the registry for ever',
      edits=[(SRV, '''TunnelProxyClientConnection *clientConnection = m_tunnelProxyClientConnections.take(tunnelProxyClient->uuid());''', '''TunnelProxyClientConnection *clientConnection = m_tunnelProxyClientConnections.value(tunnelProxyClient->uuid());'''),
             (SRV, '''                params.insert("socketAddress", clientConnection->socketAddress());
                serverConnection->unregister''', '''                params.insert("socketAddress", clientConnection->socketAddress());
                m_tunnelProxyClientConnections.remove(tunnelProxyClient->uuid());
                serverConnection->unregister''')],
      demo=SETUP + r'''
    b.t.disconnectClient(s);
    CHECK(b.t.kills(c) == 1);
    b.t.disconnectClient(c);
    CHECK(b.s->m_tunnelProxyClientConnections.isEmpty());
    QUuid s2 = b.t.connectClient(), c2 = b.t.connectClient();
    CHECK(b.regServer(s2, su) == "TunnelProxyErrorNoError");
    CHECK(b.regClient(c2, cu, su) == "TunnelProxyErrorNoError");'''),
 dict(id='c10-anyserver', prop='C10', needs='two servers whose clients hold the same address', breaks='a server disconnects a client of another server',
      edits=[(SRV, '''    TunnelProxyClientConnection *clientConnection = serverConnection->getClientConnection(socketAddress);
    if (!clientConnection) {
        qCWarning(dcTunnelProxyServer()) << "Could not find client connection for socket''', '''    TunnelProxyClientConnection *clientConnection = serverConnection->getClientConnection(socketAddress);
    foreach (TunnelProxyClientConnection *connection, m_tunnelProxyClientConnections) {
        if (!clientConnection && connection->socketAddress() == socketAddress)
            clientConnection = connection;
    }
    if (!clientConnection) {
        qCWarning(dcTunnelProxyServer()) << "Could not find client connection for socket''')],
      demo=SETUP + r'''
    QUuid s2 = b.t.connectClient(), su2 = QUuid::createUuid();
    CHECK(b.regServer(s2, su2) == "TunnelProxyErrorNoError");
    QVariantMap p; p["socketAddress"] = a;
    CHECK(b.call(s2, "TunnelProxy.DisconnectClient", p) == "TunnelProxyErrorUnknownSocketAddress");
    CHECK(b.t.kills(c) == 0);
    CHECK(b.call(s, "TunnelProxy.DisconnectClient", p) == "TunnelProxyErrorNoError");
    CHECK(b.t.kills(c) == 1);'''),
 dict(id='c11-dots', prop='C11', needs='a method name with more than one dot', breaks='a method that does not exist is executed',
      edits=[(CORE + 'server/jsonrpcserver.cpp', 'if (commandList.count() != 2) {', 'if (commandList.count() < 2) {')],
      demo=r'''
    QUuid c = b.t.connectClient();
    QVariantMap p; p["serverName"] = "n"; p["serverUuid"] = QUuid::createUuid().toString();
    b.t.rx(c, Bed::req(5, "TunnelProxy.v2.RegisterServer", p));
    CHECK(b.s->m_tunnelProxyServerConnections.isEmpty());
    CHECK(b.reply(c).value("status").toString() == "error" && b.reply(c).value("id").toInt() == 5);
    CHECK(b.t.kills(c) == 1);'''),
 dict(id='c12-lastonly', prop='C12', needs='two parameters of which only the first (in key order) has the wrong type', breaks='the type mismatch is forgotten',
      edits=[(CORE + 'jsonrpc/jsontypes.cpp', '''    s_lastError.clear();

    // Make''', '''    s_lastError.clear();
    QPair<bool, QString> result(true, QString());

    // Make'''), (CORE + 'jsonrpc/jsontypes.cpp', '''            QPair<bool, QString> result = validateVariant(templateMap.value(key), map.value(strippedKey));
            if (!result.first) {
                qCWarning(dcJsonRpc()) << "Object not matching template" << templateMap.value(key) << map.value(strippedKey);
                return result;
            }
        }
    }
''', '''            result = validateVariant(templateMap.value(key), map.value(strippedKey));
        }
    }

    if (!result.first) {
        qCWarning(dcJsonRpc()) << "Object not matching template" << templateMap;
        return result;
    }
''')],
      demo=r'''
    QUuid c = b.t.connectClient();
    QVariantMap p; p["serverName"] = QVariantMap(); p["serverUuid"] = QUuid::createUuid().toString();
    b.t.rx(c, Bed::req(5, "TunnelProxy.RegisterServer", p));
    CHECK(b.s->m_tunnelProxyServerConnections.isEmpty());
    CHECK(b.reply(c).value("status").toString() == "error");
    CHECK(b.t.kills(c) == 1);''', pre='#include "jsonrpc/jsontypes.h"'),
 dict(id='c13-tx', prop='C13', needs='a dead server connection to which clients keep sending', breaks='data sent to the server counts as a sign of life',
      edits=[(CORE + 'tunnelproxy/tunnelproxyclient.cpp', '''    m_inactiveTimer->setInterval(60000);''', '''    connect(this, &TransportClient::txDataCountChanged, m_inactiveTimer, static_cast<void (QTimer::*)()>(&QTimer::start));
    m_inactiveTimer->setInterval(60000);''')],
      demo=SETUP + r'''
    QTimer *t = b.s->m_proxyClients.value(s)->m_inactiveTimer;
    CHECK(t->isActive() && t->interval() == 60000);
    t->setTimerType(Qt::PreciseTimer); t->start();
    int before = t->remainingTime();
    QThread::msleep(300);
    b.t.rx(c, "to the dead server");
    CHECK(t->remainingTime() <= before - 250);
    b.t.rx(s, Bed::frame(a, "alive"));
    CHECK(t->remainingTime() > before - 250);'''),
 dict(id='c16-stat', prop='C16', needs='a client whose traffic differs from its server\'s', breaks='the received bytes of the server are reported for each of its clients',
      edits=[(SRV, '''            clientMap.insert("rxDataCount", clientConnection->transportClient()->rxDataCount());''', '''            clientMap.insert("rxDataCount", serverConnection->transportClient()->rxDataCount());''')],
      demo=SETUP + r'''
    b.t.rx(c, QByteArray(1234, 'x'));
    QVariantMap st = b.s->currentStatistics(true);
    QVariantMap cm = st["tunnelConnections"].toList().at(0).toMap()["clientConnections"].toList().at(0).toMap();
    CHECK(cm["rxDataCount"].toULongLong() == b.s->m_proxyClients.value(c)->rxDataCount());
    CHECK(cm["txDataCount"].toULongLong() == b.s->m_proxyClients.value(c)->txDataCount());'''),
]
