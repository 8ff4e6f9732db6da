HERE = '/verif/tools/seeds/'
exec(open(HERE + 'b3.py').read().split('SEEDS =')[0])
APP_SH = open(HERE + 'demo_app.sh').read()
MON = 'monitor/monitorclient.cpp'
MSRV = 'libnymea-remoteproxy/server/monitorserver.cpp'
MPRE = r'''#include <QtCore>
#include <QtNetwork>
#include <functional>
#include "monitorclient.h"
static int g_bad = 0;
#define CHECK(c) do { if (!(c)) { g_bad = 1; fprintf(stderr, "line %d: %s\n", __LINE__, #c); } } while (0)
static void spin(int ms) { QEventLoop l; QTimer::singleShot(ms, &l, SLOT(quit())); l.exec(); }
static bool until(std::function<bool()> f, int ms = 5000) { QElapsedTimer t; t.start(); while (!f() && t.elapsed() < ms) spin(10); return f(); }
struct Bed {
    QLocalServer s; QLocalSocket *k = nullptr; MonitorClient *c; QVariantList got; QByteArray seen; bool up = false;
    Bed() {
        QString n = QDir::currentPath() + "/mon.sock";
        CHECK(s.listen(n));
        QObject::connect(&s, &QLocalServer::newConnection, [this] { k = s.nextPendingConnection(); QObject::connect(k, &QLocalSocket::readyRead, [this] { seen += k->readAll(); }); });
        c = new MonitorClient(n, false);
        QObject::connect(c, &MonitorClient::connected, [this] { up = true; });
        QObject::connect(c, &MonitorClient::dataReady, [this](const QVariantMap &m) { got << m.value("n"); });
        c->connectMonitor();
        CHECK(until([this] { return up && k; }));
    }
    void feed(const QByteArray &d) { k->write(d); k->flush(); spin(100); }
    QVariantList requests() { QVariantList l; for (QByteArray x : seen.split('\n')) if (x.size()) l << QJsonDocument::fromJson(x).toVariant(); return l; }
};
'''


def mseed(id, needs, breaks, edits, demo):
    return dict(id=id, prop='C24', needs=needs, breaks=breaks, edits=edits, demo_sh=APP_SH,
                files={'sources.txt': 'monitor/monitorclient.cpp\n', 'demo.cpp': MPRE + '\nint main(int argc, char **argv) {\n    QCoreApplication app(argc, argv);\n' + demo + '\n    return g_bad;\n}\n'})


TPRE = r'''#include <QtCore>
#include <QtNetwork>
#include <functional>
#include "clientconnection.h"
#include "serverconnection.h"
static int g_bad = 0;
#define CHECK(c) do { if (!(c)) { g_bad = 1; fprintf(stderr, "line %d: %s\n", __LINE__, #c); } } while (0)
static void spin(int ms) { QEventLoop l; QTimer::singleShot(ms, &l, SLOT(quit())); l.exec(); }
static bool until(std::function<bool()> f, int ms = 5000) { QElapsedTimer t; t.start(); while (!f() && t.elapsed() < ms) spin(10); return f(); }
''' + TLS
SEEDS = [
 mseed('c24-invalid', 'a line that is not JSON, followed by a status message in the same chunk', 'the message behind the invalid one is lost',
       [(MON, 'qWarning() << "Failed to parse JSON data:" << error.errorString();', 'qWarning() << "Failed to parse JSON data:" << error.errorString() << m_dataBuffer;\n        m_dataBuffer.clear();')],
       r'''    Bed b; b.feed("{\"n\":1}\n"); b.feed("{broken}\n{\"n\":2}\n"); b.feed("{\"n\":3}\n");
    CHECK(b.got == QVariantList() << 1 << 2 << 3);'''.replace('b.got == QVariantList() << 1 << 2 << 3', 'b.got == (QVariantList() << 1 << 2 << 3)')),
 mseed('c24-sticky', 'the list of all connections was chosen before and is switched off again', 'the monitor keeps asking for the complete list',
       [(MON, '    m_printAll = printAll;', '    m_printAll |= printAll;')],
       r'''    Bed b; b.c->setPrintAll(true); b.c->refresh(); spin(100); b.c->setPrintAll(false); b.c->refresh(); spin(100);
    QVariantList r = b.requests();
    CHECK(r.size() == 2);
    CHECK(r.value(0).toMap().value("params").toMap().value("printAll").toBool());
    CHECK(!r.value(1).toMap().value("params").toMap().value("printAll").toBool());'''),
 mseed('c24-empty', 'a status message without any content', 'a message with an empty map is not reported',
       [(MON, '    emit dataReady(dataMap);', '    if (!dataMap.isEmpty())\n        emit dataReady(dataMap);')],
       r'''    Bed b; int n = 0; QObject::connect(b.c, &MonitorClient::dataReady, [&n](const QVariantMap &) { n++; });
    b.feed("{}\n"); b.feed("{\"n\":1}\n"); CHECK(n == 2);'''),
 dict(id='c21-tunnel', prop='C21', needs='a proxy on the local host whose certificate does not verify', breaks='the tunnel client ignores the errors though the user did not ask for it',
      edits=[('tunnelclient/clientconnection.cpp', '        if (m_insecure) {', '        if (m_insecure || QHostAddress(m_serverUrl.host()).isLoopback()) {'), ('tunnelclient/clientconnection.cpp', '#include "clientconnection.h"', '#include "clientconnection.h"\n#include <QHostAddress>')],
      demo_sh=APP_SH, files={'sources.txt': 'tunnelclient/clientconnection.cpp\ntunnelclient/serverconnection.cpp\n', 'k.pem': KEY, 'c.crt': CRT, 'demo.cpp': TPRE + r'''
int main(int argc, char **argv) {
    QCoreApplication app(argc, argv);
    TlsServer s; CHECK(s.listen(QHostAddress::LocalHost));
    ClientConnection c(QUrl(QString("ssl://127.0.0.1:%1").arg(s.serverPort())), "n", QUuid::createUuid(), QUuid::createUuid(), false, false);
    c.connectToServer();
    CHECK(until([&] { return s.c.size() == 1; }));
    spin(1000);
    CHECK(!s.c.first()->isEncrypted() && s.c.first()->readAll().isEmpty());
    ClientConnection d(QUrl(QString("ssl://127.0.0.1:%1").arg(s.serverPort())), "n", QUuid::createUuid(), QUuid::createUuid(), true, false);
    d.connectToServer();
    CHECK(until([&] { return s.c.size() == 2 && s.c.last()->isEncrypted(); }));
    return g_bad;
}
'''}),
 dict(id='c16-printall', prop='C16', needs='a monitor that names the option printAll with the value false', breaks='it gets the list of all connections',
      edits=[(MSRV, 'printAll = params.value("printAll").toBool();', 'printAll = params.contains("printAll");')],
      pre=r'''
#include "server/monitorserver.h"
#include "engine.h"
#include <QtNetwork>
static bool until(std::function<bool()> f, int ms = 5000) { QElapsedTimer t; t.start(); while (!f() && t.elapsed() < ms) { QCoreApplication::processEvents(QEventLoop::AllEvents, 20); QThread::msleep(2); } return f(); }
''', demo=r'''
    Bed bed;
    QUuid id = bed.t.connectClient();
    CHECK(bed.regServer(id, QUuid::createUuid()) == "TunnelProxyErrorNoError");
    MonitorServer m(QDir::tempPath() + "/m16"); m.startServer();
    QLocalSocket c; c.connectToServer(QDir::tempPath() + "/m16"); QByteArray got;
    QObject::connect(&c, &QLocalSocket::readyRead, [&] { got += c.readAll(); });
    auto ask = [&](const QByteArray &r) { got.clear(); c.write(r); c.flush(); CHECK(until([&] { return got.endsWith("}\n"); })); return QJsonDocument::fromJson(got).toVariant().toMap(); };
    QVariantMap all = ask("{\"method\":\"refresh\",\"params\":{\"printAll\":true}}"), none = ask("{\"method\":\"refresh\"}"), off = ask("{\"method\":\"refresh\",\"params\":{\"printAll\":false}}");
    CHECK(off == none);
    CHECK(all != none);'''),
 dict(id='c17-main', prop='C17', needs='a configuration file that cannot be loaded, TLS disabled, no log file option', breaks='the server starts without its configuration',
      edits=[('server/main.cpp', '    if (!configuration->loadConfiguration(parser.value(configOption))) {', '    if (!configuration->loadConfiguration(parser.value(configOption)) && parser.isSet(logfileOption)) {')],
      demo_sh=r'''#!/bin/bash
# run with cwd /repo after the build: exit 0 if the property holds
W=$(mktemp -d) || exit 2
trap 'rm -r -- "$W"' EXIT
B=$PWD/_build
cat > "$W/r.conf" <<X
[ProxyServer]
monitorSocket=$W/mon.sock
[SSL]
enabled=false
certificate=$W/missing.crt
certificateKey=$W/missing.key
[WebSocketServerTunnelProxy]
port=38123
[TcpServerTunnelProxy]
port=38124
[UnixSocketServerTunnelProxy]
unixSocketFileName=$W/u.sock
X
cd "$W" && LD_LIBRARY_PATH=$B/libnymea-remoteproxy timeout 5 "$B/server/nymea-remoteproxy" -c "$W/r.conf" > "$W/out" 2>&1
rc=$?
[ $rc -ne 124 ] && [ $rc -ne 0 ]
''', files={}),
]
