// Test bed: the real proxy objects driven through a recording transport.
// Build with -fno-access-control (the engine singleton gets a configuration without being started).
#ifndef FAKE_H
#define FAKE_H
#include <QtCore>
#include <QHostAddress>
#include "engine.h"
#include "server/transportinterface.h"
#include "server/transportclient.h"
#include "server/jsonrpcserver.h"
#include "tunnelproxy/tunnelproxyserver.h"
#include "tunnelproxy/tunnelproxyclient.h"
#include "tunnelproxy/tunnelproxyclientconnection.h"
#include "tunnelproxy/tunnelproxyserverconnection.h"
#include "common/slipdataprocessor.h"

using namespace remoteproxy;

struct Ev { QString kind; QUuid id; QByteArray data; };

class Fake : public TransportInterface {
public:
    Fake() { m_serverName = "fake"; }
    QList<Ev> log;
    bool syncKill = false;             // report the disconnect right away, as the TCP server does
    QSet<QUuid> open;
    void sendData(const QUuid &id, const QByteArray &d) override { log << Ev{"send", id, d}; }
    void killClientConnection(const QUuid &id, const QString &) override {
        log << Ev{"kill", id, QByteArray()};
        if (syncKill && open.remove(id)) emit clientDisconnected(id);
    }
    uint connectionsCount() const override { return open.count(); }
    bool running() const override { return true; }
    bool startServer() override { return true; }
    bool stopServer() override { return true; }

    QUuid connectClient() { QUuid id = QUuid::createUuid(); open << id; emit clientConnected(id, QHostAddress("10.0.0.1")); return id; }
    void disconnectClient(const QUuid &id) { open.remove(id); emit clientDisconnected(id); }
    void rx(const QUuid &id, const QByteArray &d) { emit dataAvailable(id, d); }
    QList<QByteArray> sentTo(const QUuid &id) const { QList<QByteArray> l; for (const Ev &e : log) if (e.kind == "send" && e.id == id) l << e.data; return l; }
    int kills(const QUuid &id) const { int n = 0; for (const Ev &e : log) if (e.kind == "kill" && e.id == id) n++; return n; }
};

struct Bed {
    Fake t;
    TunnelProxyServer *s;
    Bed() {
        qputenv("QT_LOGGING_RULES", "*=false");
        QLoggingCategory::setFilterRules("*=false");
        Engine::instance()->m_configuration = new ProxyConfiguration();
        s = new TunnelProxyServer();
        Engine::instance()->m_tunnelProxyServer = s;
        s->registerTransportInterface(&t);
    }
    ~Bed() { Engine::instance()->m_tunnelProxyServer = nullptr; delete s; }

    static QByteArray frame(quint16 a, const QByteArray &d) {     // written down independently of the code under test
        QByteArray raw; raw.append(char(a >> 8)); raw.append(char(a & 0xff)); raw.append(d);
        QByteArray o;
        for (char c : raw) { quint8 b = quint8(c); if (b == 0xC0) o.append("\xDB\xDC", 2); else if (b == 0xDB) o.append("\xDB\xDD", 2); else o.append(c); }
        o.append(char(0xC0));
        return o;
    }
    static QList<QPair<int, QByteArray>> unframe(const QByteArray &s) {
        QList<QPair<int, QByteArray>> l; QByteArray cur; bool esc = false;
        for (char c : s) { quint8 b = quint8(c);
            if (b == 0xC0) { if (cur.size() >= 2) l << qMakePair(int(quint8(cur[0])) << 8 | quint8(cur[1]), cur.mid(2)); else if (cur.size()) l << qMakePair(-1, cur); cur.clear(); esc = false; }
            else if (esc) { cur.append(b == 0xDC ? char(0xC0) : char(0xDB)); esc = false; }
            else if (b == 0xDB) esc = true; else cur.append(c); }
        if (cur.size()) l << qMakePair(-2, cur);
        return l;
    }
    static QByteArray req(int id, const QString &m, const QVariantMap &p) {
        QVariantMap r; r["id"] = id; r["method"] = m; r["params"] = p;
        return QJsonDocument::fromVariant(r).toJson(QJsonDocument::Compact);
    }
    QVariantMap reply(const QUuid &id) const {               // last message sent to a connection
        QList<QByteArray> l = t.sentTo(id);
        if (l.isEmpty()) return QVariantMap();
        QByteArray d = l.last();
        if (d.endsWith(char(0xC0))) { auto f = unframe(d); d = f.last().second; }
        return QJsonDocument::fromJson(d).toVariant().toMap();
    }
    QString call(const QUuid &id, const QString &m, const QVariantMap &p, int rid = 7) {
        TunnelProxyClient *c = s->m_proxyClients.value(id);
        QByteArray d = req(rid, m, p);
        if (c && c->slipEnabled()) d = frame(0, d);
        t.rx(id, d);
        QVariantMap r = reply(id);
        return r.value("params").toMap().value("tunnelProxyError", r.value("error")).toString();
    }
    QString regServer(const QUuid &id, const QUuid &u) { QVariantMap p; p["serverName"] = "srv"; p["serverUuid"] = u.toString(); return call(id, "TunnelProxy.RegisterServer", p); }
    QString regClient(const QUuid &id, const QUuid &u, const QUuid &su) { QVariantMap p; p["clientName"] = "cli"; p["clientUuid"] = u.toString(); p["serverUuid"] = su.toString(); return call(id, "TunnelProxy.RegisterClient", p); }
    int addressOf(const QUuid &u) const { auto c = s->m_tunnelProxyClientConnections.value(u); return c ? c->socketAddress() : -1; }
};

static int g_bad = 0;
#define CHECK(c) do { if (!(c)) { g_bad++; fprintf(stderr, "FAILED %s:%d: %s\n", __FILE__, __LINE__, #c); } } while (0)
#endif
