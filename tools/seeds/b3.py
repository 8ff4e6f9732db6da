import os
HERE = '/verif/tools/seeds/'
CLI = 'libnymea-remoteproxyclient/'
TUN = CLI + 'tunnelproxy/'
KEY, CRT = (open(HERE + 'cert/' + f).read() for f in ('k.pem', 'c.crt'))
BED = r'''#include <QtCore>
#include <QtNetwork>
#include <functional>
#include "tunnelproxy/tunnelproxyremoteconnection.h"
#include "tunnelproxy/tunnelproxysocketserver.h"
#include "tunnelproxy/tunnelproxysocket.h"
#include "proxyjsonrpcclient.h"
#include "jsonreply.h"
#include "proxyconnection.h"
#include "tcpsocketconnection.h"
#include "../common/slipdataprocessor.h"
using namespace remoteproxyclient;
static int g_bad = 0;
#define CHECK(c) do { if (!(c)) { g_bad = 1; fprintf(stderr, "line %d: %s\n", __LINE__, #c); } } while (0)
static void spin(int ms) { QEventLoop l; QTimer::singleShot(ms, &l, SLOT(quit())); l.exec(); }
static bool until(std::function<bool()> f, int ms = 5000) { QElapsedTimer t; t.start(); while (!f() && t.elapsed() < ms) spin(10); return f(); }
static QByteArray frame(quint16 a, const QByteArray &d) { SlipDataProcessor::Frame f; f.socketAddress = a; f.data = d; return SlipDataProcessor::serializeData(SlipDataProcessor::buildFrame(f)); }
static QByteArray up(quint16 a, const QByteArray &name = "n") { return frame(0, "{\"id\":0,\"notification\":\"TunnelProxy.ClientConnected\",\"params\":{\"clientName\":\"" + name + "\",\"clientUuid\":\"{11111111-1111-1111-1111-111111111111}\",\"clientPeerAddress\":\"1.2.3.4\",\"socketAddress\":" + QByteArray::number(a) + "}}\n"); }
static QByteArray down(quint16 a) { return frame(0, "{\"id\":1,\"notification\":\"TunnelProxy.ClientDisconnected\",\"params\":{\"socketAddress\":" + QByteArray::number(a) + "}}\n"); }
// a proxy that answers every request with success
struct Proxy : QObject {
    QTcpServer s; QList<QTcpSocket *> c; int count = 0;
    std::function<QByteArray(const QVariantMap &)> answer;
    Proxy(quint16 p = 0) {
        s.listen(QHostAddress::LocalHost, p);
        connect(&s, &QTcpServer::newConnection, [this] {
            QTcpSocket *k = s.nextPendingConnection(); c << k; count++;
            connect(k, &QTcpSocket::readyRead, [this, k] {
                for (QByteArray line : k->readAll().split('\n')) {
                    QVariantMap o = QJsonDocument::fromJson(line).toVariant().toMap();
                    if (!o.contains("method")) continue;
                    k->write(answer ? answer(o) : ok(o));
                }
            });
        });
    }
    static QByteArray ok(const QVariantMap &o) { return "{\"id\":" + QByteArray::number(o.value("id").toInt()) + ",\"status\":\"success\",\"params\":{\"tunnelProxyError\":\"TunnelProxyErrorNoError\",\"server\":\"x\"}}\n"; }
    QUrl url() { return QUrl(QString("tcp://127.0.0.1:%1").arg(s.serverPort())); }
};
struct Server {
    Proxy p; TunnelProxySocketServer s; QMap<QString, QByteArray> got; QList<TunnelProxySocket *> opened; int closed = 0;
    Server() : s(QUuid::createUuid(), "s") {
        QObject::connect(&s, &TunnelProxySocketServer::clientConnected, [this](TunnelProxySocket *t) {
            opened << t; QString n = t->clientName();
            QObject::connect(t, &TunnelProxySocket::dataReceived, [this, n](const QByteArray &d) { got[n] += d; });
        });
        QObject::connect(&s, &TunnelProxySocketServer::clientDisconnected, [this](TunnelProxySocket *) { closed++; });
        s.startServer(p.url());
        CHECK(until([this] { return s.running(); }));
    }
    void feed(const QByteArray &d) { p.c.last()->write(d); p.c.last()->flush(); spin(150); }
};
'''
TLS = r'''
struct TlsServer : QTcpServer {
    QList<QSslSocket *> c;
    void incomingConnection(qintptr d) override {
        QSslSocket *k = new QSslSocket(this); c << k; k->setSocketDescriptor(d);
        QFile kf("k.pem"), cf("c.crt"); kf.open(QIODevice::ReadOnly); cf.open(QIODevice::ReadOnly);
        k->setPrivateKey(QSslKey(kf.readAll(), QSsl::Rsa)); k->setLocalCertificate(QSslCertificate(cf.readAll()));
        k->startServerEncryption();
    }
};
'''
DEMO_SH = open(HERE + 'demo_client.sh').read()


def main(pre, body):
    return BED + pre + '\nint main(int argc, char **argv) {\n    QCoreApplication app(argc, argv);\n' + body + '\n    return g_bad;\n}\n'


def seed(id, prop, needs, breaks, edits, demo, pre='', files=None):
    return dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo_sh=DEMO_SH, files=dict({'demo.cpp': main(pre, demo)}, **(files or {})))


SS, RC, RPC, TCP = TUN + 'tunnelproxysocketserver.cpp', TUN + 'tunnelproxyremoteconnection.cpp', CLI + 'proxyjsonrpcclient.cpp', CLI + 'tcpsocketconnection.cpp'
SEEDS = [
 seed('c18-invalid', 'C18', 'a frame from the proxy with an invalid escape sequence', 'the invalid frame stays in the buffer and spoils the frames after it',
      [(SS, '''                        emit tunnlProxySocket->dataReceived(frame.data);
                    }
                }
            }

            m_dataBuffer.clear();
''', '''                        emit tunnlProxySocket->dataReceived(frame.data);
                    }
                }
                m_dataBuffer.clear();
            }
''')],
      '''    Server b; b.feed(up(1, "a")); b.feed(frame(1, "one"));
    CHECK(b.got["a"] == "one");
    b.feed(QByteArray("\\x00\\x01x\\xdb\\x01y\\xc0", 7) + frame(1, "two") + frame(1, "three"));
    CHECK(b.got["a"] == "onetwothree");'''),
 seed('c18-cache', 'C18', 'an address that is given to another client within the chunk in which it was freed', 'the new client\'s data goes to the socket of the old one',
      [(SS, '''                    TunnelProxySocket *tunnlProxySocket = m_tunnelProxySockets.value(frame.socketAddress);
                    if (!tunnlProxySocket) {''', '''                    TunnelProxySocket *tunnlProxySocket = m_lastSocket;
                    if (!tunnlProxySocket || tunnlProxySocket->socketAddress() != frame.socketAddress)
                        tunnlProxySocket = m_tunnelProxySockets.value(frame.socketAddress);

                    m_lastSocket = tunnlProxySocket;
                    if (!tunnlProxySocket) {'''),
       (TUN + 'tunnelproxysocketserver.h', '''    QHash<quint16, TunnelProxySocket *> m_tunnelProxySockets;
''', '''    QHash<quint16, TunnelProxySocket *> m_tunnelProxySockets;
    QPointer<TunnelProxySocket> m_lastSocket; // most frames go to the same socket as the one before
'''),
       (TUN + 'tunnelproxysocketserver.h', '''#include <QTimer>
''', '''#include <QTimer>
#include <QPointer>
''')],
      '''    Server b; b.feed(up(1, "a")); b.feed(frame(1, "one"));
    b.feed(down(1) + up(1, "b") + frame(1, "two"));
    CHECK(b.got["a"] == "one"); CHECK(b.got["b"] == "two");'''),
 seed('c18-short', 'C18', 'a socket address above 32767', 'the socket gets the address 0 and no data',
      [(RPC, '''            quint16 socketAddress = static_cast<quint16>(notificationParams.value("socketAddress").toUInt());
            emit tunnelProxyClientConnected(''', '''            quint16 socketAddress = static_cast<quint16>(notificationParams.value("socketAddress").toString().toShort());
            emit tunnelProxyClientConnected(''')],
      '''    Server b; b.feed(up(0x7fff, "a") + up(0x8001, "b"));
    b.feed(frame(0x7fff, "one") + frame(0x8001, "two"));
    CHECK(b.got["a"] == "one"); CHECK(b.got["b"] == "two");'''),
 seed('c19-closing', 'C19', 'data that arrives after the proxy refused the registration, while the connection closes', 'data of a connection that was never registered is handed to the application',
      [(RC, '''    if (m_state != StateRemoteConnected) {
        m_jsonClient->processData(data);''', '''    if (m_state < StateRemoteConnected) {
        m_jsonClient->processData(data);''')],
      '''    Proxy p; p.answer = [](const QVariantMap &o) { return QByteArray(); };
    TunnelProxyRemoteConnection c(QUuid::createUuid(), "c"); QByteArray got;
    QObject::connect(&c, &TunnelProxyRemoteConnection::dataReady, [&](const QByteArray &d) { got += d; });
    c.connectServer(p.url(), QUuid::createUuid());
    CHECK(until([&] { return p.count == 1; })); spin(200);
    // the socket is closing, what still arrived is delivered
    emit c.m_connection->stateChanged(QAbstractSocket::ClosingState);
    emit c.m_connection->dataReceived("late");
    CHECK(got.isEmpty());'''),
 seed('c19-refused', 'C19', 'a proxy that answers the registration with an error it names otherwise than by TunnelProxyError...', 'a refused registration counts as successful',
      [(RC, '''    if (responseParams.value("tunnelProxyError").toString() != "TunnelProxyErrorNoError") {''', '''    if (responseParams.value("tunnelProxyError", "TunnelProxyErrorNoError").toString() != "TunnelProxyErrorNoError") {''')],
      '''    Proxy p; p.answer = [](const QVariantMap &o) { return o.value("method").toString().contains("Register") ? "{\\"id\\":" + QByteArray::number(o.value("id").toInt()) + ",\\"status\\":\\"success\\",\\"params\\":{}}\\n" : Proxy::ok(o); };
    TunnelProxyRemoteConnection c(QUuid::createUuid(), "c"); int connected = 0;
    QObject::connect(&c, &TunnelProxyRemoteConnection::remoteConnectedChanged, [&](bool x) { connected += x; });
    c.connectServer(p.url(), QUuid::createUuid());
    spin(400);
    CHECK(connected == 0); CHECK(!c.remoteConnected()); CHECK(c.state() == TunnelProxyRemoteConnection::StateDisconnected);'''),
 seed('c20-narrow', 'C20', 'more than 256 requests while the first ones are unanswered', 'two unanswered requests have the same id',
      [(CLI + 'proxyjsonrpcclient.h', '''    int m_commandId = 0;''', '''    quint8 m_commandId = 0;''')],
      '''    Server b; b.p.answer = [](const QVariantMap &) { return QByteArray(); };
    JsonRpcClient *j = b.s.m_jsonClient; QSet<int> ids; QList<JsonReply *> all; int done = 0, first = 0;
    for (int i = 0; i < 300; i++) { JsonReply *r = j->callPing(i); all << r; ids << r->commandId(); QObject::connect(r, &JsonReply::finished, [&, i] { done++; if (i == 0) first++; }); }
    CHECK(ids.count() == 300);
    j->processData("{\\"id\\":" + QByteArray::number(all.first()->commandId()) + ",\\"status\\":\\"success\\"}\\n");
    CHECK(done == 1 && first == 1);'''),
 seed('c20-error', 'C20', 'a reply with the status "error"', 'the request is never finished',
      [(RPC, '''            qCWarning(dcRemoteProxyClientJsonRpc()) << "Api error happend" << dataMap.value("error").toString();
            // FIMXME: handle json layer errors
        }''', '''            qCWarning(dcRemoteProxyClientJsonRpc()) << "Api error happend" << dataMap.value("error").toString();
            if (!dataMap.contains("params")) {
                reply->deleteLater();
                return;
            }
        }''')],
      '''    Server b; JsonRpcClient *j = b.s.m_jsonClient; b.p.answer = [](const QVariantMap &) { return QByteArray(); };
    JsonReply *r = j->callPing(1); int done = 0; QObject::connect(r, &JsonReply::finished, [&] { done++; });
    j->processData("{\\"id\\":" + QByteArray::number(r->commandId()) + ",\\"status\\":\\"error\\",\\"error\\":\\"no\\"}\\n");
    CHECK(done == 1);'''),
 seed('c21-selfsigned', 'C21', 'a proxy with a self-signed certificate and an application that does not ignore the errors', 'the error of a self-signed certificate is ignored silently',
      [(TCP, '''    QObject::connect(m_tcpSocket, static_cast<sslErrorsSignal>(&QSslSocket::sslErrors), this, &TcpSocketConnection::sslErrors);
''', '''    QObject::connect(m_tcpSocket, static_cast<sslErrorsSignal>(&QSslSocket::sslErrors), this, [this](const QList<QSslError> &errors){
        emit sslErrors(errors);
        if (errors.count() == 1 && errors.first().error() == QSslError::SelfSignedCertificate)
            m_tcpSocket->ignoreSslErrors();
    });
''')],
      '''    TlsServer s; s.listen(QHostAddress::LocalHost);
    TcpSocketConnection c; int connected = 0, errors = 0;
    QObject::connect(&c, &ProxyConnection::connectedChanged, [&](bool x) { connected += x; });
    QObject::connect(&c, &ProxyConnection::sslErrors, [&](const QList<QSslError> &) { errors++; });
    c.connectServer(QUrl(QString("ssl://localhost:%1").arg(s.serverPort())));
    spin(1000);
    CHECK(connected == 0); CHECK(errors == 1);''', pre=TLS, files={'k.pem': KEY, 'c.crt': CRT}),
 seed('c21-early', 'C21', 'an encrypted connection whose handshake does not complete', 'the connection is reported as connected before the handshake',
      [(TCP, '''        if (!m_ssl) {
            setConnected(true);''', '''        if (!m_ssl || m_tcpSocket->mode() == QSslSocket::UnencryptedMode) {
            setConnected(true);''')],
      '''    QTcpServer s; s.listen(QHostAddress::LocalHost);
    TcpSocketConnection c; int connected = 0;
    QObject::connect(&c, &ProxyConnection::connectedChanged, [&](bool x) { connected += x; });
    c.connectServer(QUrl(QString("ssl://localhost:%1").arg(s.serverPort())));
    spin(500);
    CHECK(connected == 0);''', pre=TLS),
 seed('c22-contiguous', 'C22', 'two or more sockets whose addresses are not the first ones when the proxy is lost', 'sockets stay open after the connection was lost',
      [(SS, '''    foreach (quint16 socketAddress, m_tunnelProxySockets.keys()) {
        onTunnelProxyClientDisconnected(socketAddress);
    }''', '''    const int count = m_tunnelProxySockets.count();
    for (quint16 socketAddress = 1; socketAddress <= count; socketAddress++) {
        onTunnelProxyClientDisconnected(socketAddress);
    }''')],
      '''    Server b; b.feed(up(1, "a") + up(5, "b") + up(9, "c"));
    CHECK(b.opened.count() == 3);
    b.p.c.last()->abort(); spin(300);
    CHECK(b.closed == 3); CHECK(b.s.m_tunnelProxySockets.isEmpty());'''),
 seed('c22-refused', 'C22', 'a proxy that is away for more than one attempt', 'after a refused attempt the server does not try again',
      [(SS, '''        if (m_state == StateDisconnected) {
            qCDebug(dcTunnelProxySocketServer()) << "Trying to reconnect to the remote proxy...";''', '''        if (m_state == StateDisconnected && m_error != QAbstractSocket::ConnectionRefusedError) {
            qCDebug(dcTunnelProxySocketServer()) << "Trying to reconnect to the remote proxy...";''')],
      '''    quint16 port; TunnelProxySocketServer s(QUuid::createUuid(), "s"); s.m_reconnectTimer.setInterval(100);
    { Proxy p; port = p.s.serverPort(); s.startServer(p.url()); CHECK(until([&] { return s.running(); })); }
    CHECK(until([&] { return !s.running(); }));
    spin(500);
    Proxy q(port);
    CHECK(until([&] { return s.running(); }, 3000));'''),
 seed('c22-enable', 'C22', 'a server that is stopped while it waits for the next attempt', 'the server connects again after the application stopped it',
      [(SS, '''    m_enabled = false;
    m_reconnectTimer.stop();

    qCDebug(dcTunnelProxySocketServer()) << "Stopping the server.";

    if (m_connection) {''', '''    qCDebug(dcTunnelProxySocketServer()) << "Stopping the server.";

    if (m_connection) {
        m_enabled = false;
        m_reconnectTimer.stop();
''')],
      '''    TunnelProxySocketServer s(QUuid::createUuid(), "s"); s.m_reconnectTimer.setInterval(300); quint16 port;
    { Proxy p; port = p.s.serverPort(); s.startServer(p.url()); CHECK(until([&] { return s.running(); })); }
    CHECK(until([&] { return !s.running(); }));
    s.stopServer();
    Proxy q(port);
    spin(1200);
    CHECK(q.count == 0);'''),
]
