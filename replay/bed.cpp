// Searches for a failing input of one property by driving the real proxy objects through a
// recording transport and comparing what they do with a reference model, step by step.
//   bed PROPERTY SEED SECONDS      exit 1: failure printed as one JSON line; exit 0: none found
#include "fake.h"
#include "jsonrpc/jsontypes.h"
#include "jsonrpc/tunnelproxyhandler.h"
#include <random>
#include <unistd.h>
#include <functional>
#include <algorithm>

static QString PID;
static quint64 g_runs = 0, g_steps = 0;
typedef std::mt19937 Rng;
static int rnd(Rng &r, int n) { return int(r() % uint(n)); }

static void report(const QString &prop, const QString &what, const QStringList &trace) {
    QJsonObject o; o["property"] = prop; o["what"] = what; o["steps"] = QJsonArray::fromStringList(trace);
    printf("%s\n", QJsonDocument(o).toJson(QJsonDocument::Compact).constData());
    fflush(stdout);
    _exit(1);
}
static QByteArray bytes(Rng &r, int max) {
    static const unsigned char odd[] = {0xC0, 0xDB, 0xDC, 0xDD, 0, 0xff, '}', '{', '\n', 'a', 0x80, 0x7f};
    QByteArray b; int n = rnd(r, max + 1);
    for (int i = 0; i < n; i++) b.append(char(rnd(r, 2) ? odd[rnd(r, sizeof odd)] : rnd(r, 256)));
    return b;
}
static QByteArray slipEnc(const QByteArray &raw) {
    QByteArray o;
    for (char c : raw) { quint8 b = quint8(c); if (b == 0xC0) o.append("\xDB\xDC", 2); else if (b == 0xDB) o.append("\xDB\xDD", 2); else o.append(c); }
    return o;
}
static bool slipDec(const QByteArray &in, QByteArray *out) {
    out->clear(); bool esc = false;
    for (char c : in) { quint8 b = quint8(c);
        if (b == 0xC0) break;
        if (esc) { if (b == 0xDC) out->append(char(0xC0)); else if (b == 0xDD) out->append(char(0xDB)); else return false; esc = false; }
        else if (b == 0xDB) esc = true; else out->append(c); }
    return !esc;
}
static QString hex(const QByteArray &b) { return QString::fromLatin1(b.left(64).toHex()) + (b.size() > 64 ? QString("..(%1 bytes)").arg(b.size()) : QString()); }

// ------------------------------------------------------------------------------ C01, C02
static void codec(Rng &r) {
    QByteArray d = bytes(r, rnd(r, 8) ? 12 : 400);
    if (PID == "C01") {
        QByteArray e = SlipDataProcessor::serializeData(d);
        if (e != slipEnc(d) + char(0xC0)) report("C01", "serializeData is not the escaped bytes and one terminator", {hex(d), hex(e)});
        QByteArray b = SlipDataProcessor::deserializeData(e);
        if (b != d) report("C01", "decoding the encoding does not give the bytes back", {hex(d), hex(e), hex(b)});
        QByteArray x = d; x.replace(char(0xC0), QByteArray());
        QByteArray want; bool ok = slipDec(x, &want);
        for (int end = 0; end < 2; end++) {
            QByteArray in = end ? x + char(0xC0) : x, got = SlipDataProcessor::deserializeData(in);
            if (!ok && !got.isNull()) report("C01", "a bad or unfinished escape sequence is not rejected", {hex(in), hex(got)});
            if (ok && !want.isEmpty() && (got.isNull() || got != want)) report("C01", "a well-formed payload is rejected or changed", {hex(in), hex(got)});
        }
    } else {
        SlipDataProcessor::Frame f; f.socketAddress = quint16(rnd(r, 65536)); f.data = d;
        QByteArray b = SlipDataProcessor::buildFrame(f), w;
        w.append(char(f.socketAddress >> 8)); w.append(char(f.socketAddress & 0xff)); w.append(d);
        if (b != w) report("C02", "buildFrame is not the big endian address and the payload", {QString::number(f.socketAddress), hex(d), hex(b)});
        SlipDataProcessor::Frame g = SlipDataProcessor::parseFrame(b);
        if (g.socketAddress != f.socketAddress || g.data != d) report("C02", "parseFrame does not return what was built", {QString::number(f.socketAddress), hex(d), QString::number(g.socketAddress), hex(g.data)});
        SlipDataProcessor::Frame h = SlipDataProcessor::parseFrame(d);
        int wa = d.size() < 2 ? 0 : (quint8(d[0]) << 8 | quint8(d[1]));
        if (h.socketAddress != wa || h.data != d.mid(2)) report("C02", "parseFrame of received bytes", {hex(d), QString::number(h.socketAddress), hex(h.data)});
    }
}

// ------------------------------------------------------------------------------ C03, C04
static QList<QByteArray> cut(Rng &r, const QByteArray &s, int maxParts) {
    QList<QByteArray> l; int at = 0;
    while (at < s.size()) { int n = 1 + rnd(r, qMax(1, rnd(r, 3) ? 3 : s.size() / qMax(1, maxParts) + 1)); l << s.mid(at, n); at += n; }
    return l;
}
static void stream(Rng &r) {
    static Bed *bed = new Bed();
    Fake &t = bed->t;
    TunnelProxyClient c(&t, QUuid::createUuid(), QHostAddress("10.0.0.1"));
    if (PID == "C03") {
        c.setSlipEnabled(true);
        QByteArray s; QList<QByteArray> want;
        for (int i = rnd(r, 6); i >= 0; i--) {
            int k = rnd(r, 6);
            QByteArray body;
            if (k == 0) body = "";
            else if (k == 1) { body = bytes(r, 8); body.replace(char(0xC0), QByteArray("x")); }
            else body = slipEnc(bytes(r, 10));
            s += body + char(0xC0);
            QByteArray d;
            if (!body.isEmpty() && slipDec(body, &d)) want << d;
        }
        QByteArray tail = bytes(r, 5); tail.replace(char(0xC0), QByteArray());
        s += tail;
        QList<QByteArray> got; QStringList tr;
        for (const QByteArray &p : cut(r, s, 4)) { tr << hex(p); got << c.processData(p); }
        if (got != want) { for (const QByteArray &g : got) tr << "delivered " + hex(g); for (const QByteArray &g : want) tr << "expected " + hex(g); report("C03", "the frames delivered are not those of the byte stream", tr); }
    } else {
        QByteArray buf; QStringList tr;
        for (int i = 0; i < 8; i++) {
            QByteArray p;
            for (int k = rnd(r, 8); k > 0; k--) { static const char *tok[] = {"{\"a\":1", "}", "\n", "{", "}\n{", "}\n", "xx", "\"", "}\r\n{", " "}; p += tok[rnd(r, 10)]; }
            tr << QString::fromLatin1(p);
            buf += p;
            QList<QByteArray> want; int at;
            while ((at = buf.indexOf("}\n{")) >= 0) { want << buf.left(at + 1); buf = buf.mid(at + 2); }
            if (buf.endsWith("}\n") || buf.endsWith("}")) { want << buf; buf.clear(); }
            QList<QByteArray> got = c.processData(p);
            if (got != want || c.bufferSize() != buf.size()) {
                for (const QByteArray &g : got) tr << "delivered " + QString::fromLatin1(g); for (const QByteArray &g : want) tr << "expected " + QString::fromLatin1(g);
                report("C04", QString("the packets delivered are not those of the received bytes (buffer %1, expected %2)").arg(c.bufferSize()).arg(buf.size()), tr);
            }
        }
    }
}
static void limit(Rng &r) {
    Bed b; QUuid c = b.t.connectClient(); int total = 0, step = 1 + rnd(r, 4000); QStringList tr;
    bool packet = rnd(r, 2);
    while (total <= 10240) {
        int n = qMin(step, rnd(r, 4) ? step : 10240 - total); if (n <= 0) n = 1;
        QByteArray p(n, 'x');
        if (packet && rnd(r, 3) == 0) { p = "}\n{" + QByteArray(10241, 'x'); total = 10243; }     // complete packet in front: must not be processed any more
        else total += n;
        tr << QString("%1 bytes").arg(p.size());
        b.t.rx(c, p);
        bool closed = b.t.kills(c) > 0;
        if (total <= 10240 && closed) report("C04", "closed although at most 10 KiB are buffered", tr);
        if (total > 10240 + 2 && !closed) report("C04", "not closed although more than 10 KiB are buffered", tr);
        if (total > 10240 + 2 && packet && !b.t.sentTo(c).isEmpty()) report("C04", "processed a packet of a connection that exceeded the limit", tr);
        if (closed) break;
    }
}

// ------------------------------------------------------------------------------ C12
struct TV { QVariant tmpl, good; QList<QVariant> bad; };
static TV anyType(Rng &r, int depth) {
    QVariantMap m; m["k"] = 1; QVariantList l; l << 1;
    switch (rnd(r, depth > 0 ? 7 : 5)) {
    case 0: return TV{QString("String"), QString("abc"), {m, l}};
    case 1: return TV{QString("Uuid"), QUuid::createUuid().toString(), {m, l, 1.5, true}};
    case 2: return TV{QString("Bool"), true, {m, l}};
    case 3: return TV{QString("Int"), 5, {m, l}};
    case 4: return TV{QString("UInt"), 5u, {m, l}};
    case 5: { TV e = anyType(r, depth - 1); TV t; QVariantList tl; tl << e.tmpl; t.tmpl = tl; QVariantList g; for (int i = rnd(r, 4); i >= 0; i--) g << e.good; t.good = g;
              if (!e.bad.isEmpty()) for (int p = 0; p < g.size(); p++) { QVariantList x = g; x[p] = e.bad[rnd(r, e.bad.size())]; t.bad << QVariant(x); } return t; }
    default: { TV t; QVariantMap tm, gm; for (int i = rnd(r, 3); i >= 0; i--) { TV e = anyType(r, depth - 1); QString k = QString("k%1").arg(i); bool opt = rnd(r, 3) == 0; tm[(opt ? "o:" : "") + k] = e.tmpl; if (!opt || rnd(r, 2)) gm[k] = e.good;
                 }
               t.tmpl = tm; t.good = gm; QVariantMap x = gm; x["zz"] = 1; t.bad << QVariant(x);
               for (const QString &k : gm.keys()) if (tm.contains(k)) { QVariantMap y = gm; y.remove(k); t.bad << QVariant(y); } return t; }
    }
}
static QString js(const QVariant &v) { return QString::fromUtf8(QJsonDocument::fromVariant(QVariantList() << v).toJson(QJsonDocument::Compact)); }
static void validation(Rng &r) {
    JsonTypes::allTypes();
    QVariantMap tm, gm; QMap<QString, TV> ts;
    for (int i = rnd(r, 4); i > 0; i--) { TV t = anyType(r, 2); QString k = QString("p%1").arg(i); bool opt = rnd(r, 4) == 0; tm[(opt ? "o:" : "") + k] = t.tmpl; ts[k] = t; if (!opt || rnd(r, 2)) gm[k] = t.good; }
    auto check = [&](const QVariantMap &m, bool want, const char *what) {
        if (JsonTypes::validateMap(tm, m).first != want) report("C12", what, {"template " + js(tm), "value " + js(m)});
    };
    check(gm, true, "valid parameters are rejected");
    QVariantMap x = gm; x["unknown"] = 1; check(x, false, "an unknown parameter is accepted");
    for (const QString &k : gm.keys()) {
        if (tm.contains(k)) { x = gm; x.remove(k); check(x, false, "a missing parameter is accepted"); }
        for (const QVariant &b : ts[k].bad) { x = gm; x[k] = b; check(x, false, "a value of the wrong type is accepted"); }
    }
    TunnelProxyHandler h;
    struct { const char *m; QMap<QString, QString> p; } pub[] = {
        {"RegisterServer", {{"serverName", "String"}, {"serverUuid", "Uuid"}}}, {"DisconnectClient", {{"socketAddress", "UInt"}}}, {"Ping", {{"timestamp", "UInt"}}},
        {"RegisterClient", {{"clientName", "String"}, {"clientUuid", "Uuid"}, {"serverUuid", "Uuid"}}}};
    for (auto &p : pub) {
        QVariantMap good;
        for (const QString &k : p.p.keys()) good[k] = p.p[k] == "UInt" ? QVariant(7u) : p.p[k] == "Uuid" ? QVariant(QUuid::createUuid().toString()) : QVariant("n");
        auto chk = [&](const QVariantMap &m, bool want, const char *what) { if (h.validateParams(p.m, m).first != want) report("C12", what, {QString("method ") + p.m, "params " + js(m)}); };
        chk(good, true, "valid parameters of a published method are rejected");
        QVariantMap y = good; y["extra"] = 1; chk(y, false, "an unknown parameter is accepted");
        for (const QString &k : good.keys()) { y = good; y.remove(k); chk(y, false, "a missing parameter is accepted"); y = good; y[k] = QVariantMap(); chk(y, false, "a value of the wrong type is accepted"); }
    }
}

// ------------------------------------------------------------------------------ the proxy
struct Op { int k, a, b, c; QByteArray d; };
struct MC { QUuid id; bool open = true, killed = false, slip = false, refused = false; int role = 0; QUuid uuid, suuid; QString name; int server = -1, addr = 0; quint64 rx = 0, tx = 0; };
struct Fail { QString prop, what; };

struct Run {
    Bed b; QList<MC> m; QStringList trace; bool ok = true; Fail f;
    QMap<int, QStringList> exp; QSet<int> expKill; int logAt = 0; QList<bool> modes; int rid = 100;
    QUuid pool[6];
    QString prop;           // property of the running step
    bool lazy, dropped = false, refusing = false;
    Run(int mode) { b.t.syncKill = mode == 1; lazy = mode == 2; for (int i = 0; i < 6; i++) pool[i] = QUuid::createUuid(); }

    void fail(const QString &p, const QString &w) { if (ok) { ok = false; f = Fail{p, w}; } }
    int find(const QUuid &id) const { for (int i = 0; i < m.size(); i++) if (m[i].id == id) return i; return -1; }
    int serverOf(const QUuid &u) const { for (int i = 0; i < m.size(); i++) if (m[i].open && m[i].role == 1 && m[i].uuid == u) return i; return -1; }
    bool used(const QUuid &u) const { for (const MC &c : m) if (c.open && c.role && c.uuid == u) return true; return false; }
    int clientAt(int s, int addr) const { for (int i = 0; i < m.size(); i++) if (m[i].open && m[i].role == 2 && m[i].server == s && m[i].addr == addr) return i; return -1; }
    QUuid uuid(int n) const { n = qAbs(n) % 7; return n == 6 ? QUuid() : pool[n]; }

    // model of one disconnect (without the clients closed by it, which disconnect on their own)
    void mdrop(int i) {
        if (!m[i].open) return;
        m[i].open = false; dropped = true;
        if (m[i].role == 1) { for (int j = 0; j < m.size(); j++) if (m[j].open && m[j].role == 2 && m[j].server == i) { m[j].server = -2; expKill << j; if (b.t.syncKill) mdrop(j); } }
        else if (m[i].role == 2 && m[i].server >= 0) exp[m[i].server] << QString("N:TunnelProxy.ClientDisconnected:%1").arg(m[i].addr);
    }
    void mkill(int i) { expKill << i; if (b.t.syncKill) mdrop(i); }

    static QString norm(const QByteArray &js) {
        QVariantMap v = QJsonDocument::fromJson(js).toVariant().toMap();
        if (v.contains("notification")) {
            QVariantMap p = v["params"].toMap(); QString s = "N:" + v["notification"].toString() + ":" + p["socketAddress"].toString();
            if (p.contains("clientUuid")) s += ":" + p["clientName"].toString() + ":" + p["clientUuid"].toString();
            return s;
        }
        if (v.contains("status")) {
            QString e = v["params"].toMap().value("tunnelProxyError").toString();
            return QString("R:%1:%2").arg(v["id"].toInt()).arg(v["status"].toString() == "success" ? (e.isEmpty() || e == "TunnelProxyErrorNoError" ? "ok" : "refused") : "error");
        }
        return "?" + hex(js);
    }
    // what the transport was given since the step began
    void observe(bool data) {
        QMap<int, QStringList> got; QSet<int> kills;
        for (; logAt < b.t.log.size(); logAt++) {
            const Ev &e = b.t.log[logAt]; int i = find(e.id);
            if (i < 0) { fail(prop, "the transport is asked to touch an unknown connection"); continue; }
            if (e.kind == "kill") { kills << i; continue; }
            m[i].tx += quint64(e.data.size());
            if (i < modes.size() && modes[i]) for (auto &fr : Bed::unframe(e.data)) { if (fr.first == 0) got[i] << norm(fr.second); else got[i] << QString("F:%1:").arg(fr.first) + fr.second.toHex(); }
            else if (m[i].role == 2 && data) { if (got[i].isEmpty()) got[i] << "D:"; got[i].last() += e.data.toHex(); }
            else got[i] << norm(e.data);
        }
        for (QStringList &l : exp) if (data) { QStringList n; for (const QString &s : l) if (s.startsWith("D:") && !n.isEmpty()) n.last() += s.mid(2); else n << s; l = n; }
        for (int i : exp.keys()) if (exp[i] == QStringList("D:")) exp.remove(i);
        for (int i : got.keys()) if (got[i] == QStringList("D:")) got.remove(i);
        // the address a server is told is free to choose: bind it
        for (int i : exp.keys()) for (int n = 0; n < exp[i].size(); n++) if (exp[i][n].startsWith("BIND:")) {
            QStringList q = exp[i][n].split(':'); int ci = q[1].toInt();
            QString g = n < got[i].size() ? got[i][n] : QString();
            QStringList w = g.split(':');
            if (!g.startsWith("N:TunnelProxy.ClientConnected:") || w.size() < 5 || w[3] != m[ci].name || w[4] != m[ci].uuid.toString()) { fail("C07", QString("the server is not told about its new client: %1").arg(g)); return; }
            int a = w[2].toInt(); bool isnum = w[2] == QString::number(a);
            if (!isnum || a <= 0 || a >= 0xFFFF) { fail("C07", "the server is told a reserved or impossible socket address " + w[2]); return; }
            if (clientAt(i, a) >= 0) { fail("C07", QString("socket address %1 is assigned twice").arg(a)); return; }
            m[ci].addr = a; exp[i][n] = g;
        }
        if (got != exp) {
            QStringList d; for (int i : (got.keys() + exp.keys()).toSet()) if (got.value(i) != exp.value(i)) d << QString("connection %1: got [%2], expected [%3]").arg(i).arg(got.value(i).join(", ").left(300)).arg(exp.value(i).join(", ").left(300));
            fail(prop, d.join("; "));
        } else if (kills != expKill) {
            QStringList d; for (int i : kills) if (!expKill.contains(i)) d << QString("connection %1 is closed").arg(i); for (int i : expKill) if (!kills.contains(i)) d << QString("connection %1 is not closed").arg(i);
            fail(prop, d.join("; "));
        }
        exp.clear(); expKill.clear(); modes.clear(); for (const MC &c : m) modes << c.slip;
        // connections the proxy closed go away now
        if (ok) for (int i : kills) if (m[i].open && !b.t.syncKill) { m[i].killed = true; if (!lazy) drop(i); if (!ok) return; }
    }
    void drop(int i) { QString p = prop; begin(m[i].refused && m[i].role == 0 ? "C08" : "C09"); mdrop(i); b.t.disconnectClient(m[i].id); observe(false); prop = p; }
    void begin(const QString &p) { prop = p; exp.clear(); expKill.clear(); logAt = b.t.log.size(); modes.clear(); for (const MC &c : m) modes << c.slip; }
    void rx(int i, const QByteArray &d) { m[i].rx += quint64(d.size()); b.t.rx(m[i].id, d); }
    void request(int i, const QByteArray &json, const QByteArray &chunks) {
        QByteArray d = m[i].slip ? Bed::frame(0, json) : json;
        int at = 0;
        for (char c : chunks) { int n = quint8(c) % 9; if (at + n >= d.size()) break; if (!m[i].slip && d.mid(at, n).contains('}')) continue; if (n) rx(i, d.mid(at, n)); at += n; }
        rx(i, d.mid(at));
    }
    int pick(int n, std::function<bool(const MC &)> p, bool late = false) { QList<int> l; for (int i = 0; i < m.size(); i++) if (m[i].open && (!m[i].killed || late) && p(m[i])) l << i; return l.isEmpty() ? -1 : l[qAbs(n) % l.size()]; }

    bool frameEffect(int i, int addr, const QByteArray &pay) {
        int c = clientAt(i, addr);
        if (c >= 0) exp[c] << "D:" + pay.toHex();
        return true;
    }
    int address(int i, int sel) {
        QList<int> l; for (const MC &c : m) if (c.open && c.role == 2 && c.server >= 0) l << c.addr;
        QList<int> mine; for (const MC &c : m) if (c.open && c.role == 2 && c.server == i) mine << c.addr;
        switch (qAbs(sel) % 8) { case 0: return 0xFFFF; case 1: return l.isEmpty() ? 77 : l[qAbs(sel / 8) % l.size()]; case 2: return 1 + qAbs(sel) % 65534; default: return mine.isEmpty() ? 5 : mine[qAbs(sel / 8) % mine.size()]; }
    }

    void step(const Op &o) {
        g_steps++; dropped = refusing = false;
        switch (o.k) {
        case 0: { MC c; begin("C09"); c.id = b.t.connectClient(); m << c; modes << false; trace << QString("connect %1").arg(m.size() - 1); observe(false); break; }
        case 1: { int i = pick(o.a, [](const MC &) { return true; }, true); if (i < 0) return; trace << QString("disconnect %1").arg(i); begin(m[i].refused && m[i].role == 0 ? "C08" : "C09");
                  bool late = m[i].role == 1 && !b.t.syncKill && o.b % 2;
                  QList<int> mine; if (late) for (int j = 0; j < m.size(); j++) if (m[j].open && m[j].server == i && m[j].role == 2) mine << j;
                  QString pp = prop;
                  mdrop(i); b.t.disconnectClient(m[i].id);
                  for (int j : mine) { prop = "C05"; trace << QString("data of its client %1").arg(j); rx(j, o.d + "x"); }
                  if (mine.isEmpty()) prop = pp;
                  observe(false); break; }
        case 2: { int i = pick(o.a, [](const MC &c) { return c.role != 2; }); if (i < 0) return; QUuid u = uuid(o.b); int id = ++rid;
                  trace << QString("connection %1 registers as server %2").arg(i).arg(qAbs(o.b) % 7); begin("C08");
                  QVariantMap p; p["serverName"] = QString("s%1").arg(o.c); p["serverUuid"] = u.toString();
                  bool good = !u.isNull() && m[i].role == 0 && !used(u);
                  exp[i] << QString("R:%1:%2").arg(id).arg(good ? "ok" : "refused");
                  if (!good) m[i].refused = refusing = true;
                  if (!good && !u.isNull()) mkill(i);
                  request(i, Bed::req(id, "TunnelProxy.RegisterServer", p), o.d);
                  observe(false);
                  if (good && ok) { m[i].role = 1; m[i].uuid = u; m[i].name = p["serverName"].toString(); m[i].slip = true; modes[i] = true; }
                  break; }
        case 3: { int i = pick(o.a, [](const MC &c) { return c.role != 2; }); if (i < 0) return; QUuid u = uuid(o.b), su = uuid(o.c); int id = ++rid, s = serverOf(su);
                  trace << QString("connection %1 registers as client %2 of server %3").arg(i).arg(qAbs(o.b) % 7).arg(qAbs(o.c) % 7); begin("C08");
                  QVariantMap p; p["clientName"] = QString("c%1").arg(o.c); p["clientUuid"] = u.toString(); p["serverUuid"] = su.toString();
                  bool good = !u.isNull() && !su.isNull() && m[i].role == 0 && !used(u) && s >= 0;
                  exp[i] << QString("R:%1:%2").arg(id).arg(good ? "ok" : "refused");
                  if (!good) m[i].refused = refusing = true;
                  if (!good && !u.isNull() && !su.isNull()) mkill(i);
                  if (good) { m[i].uuid = u; m[i].name = p["clientName"].toString(); exp[s] << QString("BIND:%1").arg(i); }
                  request(i, Bed::req(id, "TunnelProxy.RegisterClient", p), o.d);
                  observe(false);
                  if (good && ok) { m[i].role = 2; m[i].server = s; }
                  break; }
        case 4: { int i = pick(o.a, [](const MC &c) { return c.role == 2; }, true); if (i < 0) return; trace << QString("client %1 sends %2").arg(i).arg(hex(o.d)); begin("C05");
                  if (m[i].server >= 0) exp[m[i].server] << QString("F:%1:").arg(m[i].addr) + o.d.toHex();
                  rx(i, o.d); observe(true); break; }
        case 5: { int i = pick(o.a, [](const MC &c) { return c.role == 1; }); if (i < 0) return; int a = address(i, o.b); trace << QString("server %1 sends %2 to address %3").arg(i).arg(hex(o.d)).arg(a); begin("C06");
                  frameEffect(i, a, o.d); rx(i, Bed::frame(quint16(a), o.d)); observe(true); break; }
        case 6: { int i = pick(o.a, [](const MC &c) { return c.role != 2; }); if (i < 0) return; int id = ++rid; qint64 a = address(i, o.b); if (o.c % 5 == 0) a += 65536 * (1 + o.c % 3);
                  trace << QString("connection %1 asks to disconnect address %2").arg(i).arg(a); begin("C10");
                  QVariantMap p; p["socketAddress"] = a; int c = m[i].role == 1 && a <= 0xFFFF ? clientAt(i, int(a)) : -1;
                  if (c >= 0) { mkill(c); exp[i] << QString("R:%1:ok").arg(id); }
                  else { exp[i] << QString("R:%1:refused").arg(id); if (m[i].role != 1) mkill(i); }
                  request(i, Bed::req(id, "TunnelProxy.DisconnectClient", p), o.d); observe(false); break; }
        case 7: { int i = pick(o.a, [](const MC &c) { return c.role != 2; }); if (i < 0) return; int id = ++rid; QVariantMap p; QString mt = "TunnelProxy.Ping";
                  if (o.b % 3 == 0) p["timestamp"] = 17; else if (o.b % 3 == 1) mt = "RemoteProxy.Hello"; else mt = "RemoteProxy.Introspect";
                  trace << QString("connection %1 calls %2").arg(i).arg(mt); begin("C11"); exp[i] << QString("R:%1:ok").arg(id); request(i, Bed::req(id, mt, p), o.d); observe(false); break; }
        case 8: { int i = pick(o.a, [](const MC &c) { return c.role != 2; }); if (i < 0) return; int id = ++rid, want = id; QVariantMap p; QByteArray q;
                  QString cls = "C11";
                  p["serverName"] = "n"; p["serverUuid"] = QUuid::createUuid().toString(); QString mt = "TunnelProxy.RegisterServer";
                  QVariantMap r; 
                  switch (qAbs(o.b) % 11) {
                  case 0: q = "{foo}"; want = -1; break;
                  case 1: r["method"] = mt; r["params"] = p; want = -1; break;
                  case 2: mt = "Nowhere.RegisterServer"; break;
                  case 3: mt = "TunnelProxy.Explode"; break;
                  case 4: mt = "RegisterServer"; break;
                  case 5: mt = o.c % 2 ? "TunnelProxy.RegisterServer.x" : "TunnelProxy.x.RegisterServer"; break;
                  case 6: p.remove("serverName"); break;
                  case 7: p["extra"] = 1; break;
                  case 8: p["serverUuid"] = QVariantMap(); break;
                  case 9: r["id"] = "abc"; r["method"] = mt; r["params"] = p; want = -1; break;
                  case 10: mt = "TunnelProxy.validateParams"; break;
                  }
                  if (q.isEmpty()) q = r.isEmpty() ? Bed::req(id, mt, p) : QJsonDocument::fromVariant(r).toJson(QJsonDocument::Compact);
                  trace << QString("connection %1 sends %2").arg(i).arg(QString::fromLatin1(q)); begin(cls);
                  exp[i] << QString("R:%1:error").arg(want); mkill(i);
                  request(i, q, o.d); observe(false); break; }
        case 9: { int i = pick(o.a, [](const MC &c) { return c.role == 1; }); if (i < 0) return; begin("C06"); QByteArray all; QStringList parts; QList<QPair<int, QByteArray>> fr;
                  bool control = false;
                  for (int n = 0; n < 2 + o.b % 4; n++) {
                      int a = address(i, o.c + n * 13 + o.b); QByteArray pay = o.d.mid(n) + char('0' + n);
                      if (qAbs(o.c + n) % 7 == 3 && !control) { control = true; int id = ++rid; QVariantMap p; p["timestamp"] = 5; pay = Bed::req(id, "TunnelProxy.Ping", p); a = 0; exp[i] << QString("R:%1:ok").arg(id); }
                      else frameEffect(i, a, pay);
                      all += Bed::frame(quint16(a), pay); parts << QString("%1:%2").arg(a).arg(hex(pay)); }
                  trace << QString("server %1 sends at once %2").arg(i).arg(parts.join(" ")); rx(i, all); observe(true); break; }
        case 10: { int i = pick(o.a, [](const MC &c) { return c.role == 1; }); if (i < 0) return; begin("C03"); QByteArray g = o.d; g.replace(char(0xC0), QByteArray("q")); int a = address(i, 3 + 8 * o.b); 
                  QByteArray d; QByteArray bad = g + QByteArray("\xDB\x41", 2);
                  frameEffect(i, a, "after"); QByteArray all = bad + char(0xC0) + char(0xC0) + Bed::frame(quint16(a), "after"); trace << QString("server %1 sends a malformed frame, then a good one to %2").arg(i).arg(a);
                  int at = 0; while (at < all.size()) { int n = 1 + (o.c + at) % 5; rx(i, all.mid(at, n)); at += n; } observe(true); break; }
        }
        if (ok) stats();
    }
    void stats() {
        QVariantMap s = b.s->currentStatistics(true);
        int all = 0, srv = 0, cli = 0; QMap<QString, int> want;
        for (int i = 0; i < m.size(); i++) if (m[i].open) { all++; if (m[i].role == 1) { srv++; want[m[i].id.toString()] = i; } if (m[i].role == 2) cli++; }
        if (s["totalClientCount"].toInt() != all || s["serverConnectionsCount"].toInt() != srv || s["clientConnectionsCount"].toInt() != cli)
            return fail(PID != "C16" && dropped ? "C09" : PID != "C16" && refusing ? "C08" : "C16", QString("counts %1/%2/%3, expected %4/%5/%6").arg(s["totalClientCount"].toInt()).arg(s["serverConnectionsCount"].toInt()).arg(s["clientConnectionsCount"].toInt()).arg(all).arg(srv).arg(cli));
        QVariantList l = s["tunnelConnections"].toList();
        if (l.size() != srv) return fail("C16", "not every server is listed once");
        for (const QVariant &v : l) {
            QVariantMap e = v.toMap(); int i = want.value(e["id"].toString(), -1);
            if (i < 0) return fail("C16", "lists a server that does not exist");
            want.remove(e["id"].toString());
            if (!same(e, m[i], "serverUuid")) return fail("C16", QString("wrong data for server %1: rx %2 tx %3, expected %4 %5").arg(i).arg(e["rxDataCount"].toULongLong()).arg(e["txDataCount"].toULongLong()).arg(m[i].rx).arg(m[i].tx));
            QSet<int> cl; for (int j = 0; j < m.size(); j++) if (m[j].open && m[j].role == 2 && m[j].server == i) cl << j;
            for (const QVariant &cv : e["clientConnections"].toList()) {
                QVariantMap ce = cv.toMap(); int j = find(QUuid(ce["id"].toString()));
                if (!cl.remove(j)) return fail("C16", "lists a client at a server it is not attached to");
                if (!same(ce, m[j], "clientUuid")) return fail("C16", QString("wrong data for client %1: rx %2 tx %3, expected %4 %5").arg(j).arg(ce["rxDataCount"].toULongLong()).arg(ce["txDataCount"].toULongLong()).arg(m[j].rx).arg(m[j].tx));
            }
            if (!cl.isEmpty()) return fail("C16", "a client of a server is not listed");
        }
        if (b.s->currentStatistics(true) != s) return fail("C16", "computing the statistics changes them");
    }
    static bool same(const QVariantMap &e, const MC &c, const char *uk) {
        return e["name"].toString() == c.name && e[uk].toUuid() == c.uuid && e["address"].toString() == "10.0.0.1" && e["rxDataCount"].toULongLong() == c.rx && e["txDataCount"].toULongLong() == c.tx;
    }
};
static bool replay(const QList<Op> &ops, int sync, Fail *f, QStringList *tr) {
    Run r(sync);
    g_runs++;
    for (const Op &o : ops) { r.step(o); if (!r.ok) break; QCoreApplication::sendPostedEvents(nullptr, QEvent::DeferredDelete); }
    if (f) *f = r.f;
    if (tr) *tr = r.trace;
    return !r.ok && r.f.prop == PID;
}
static void proxy(Rng &r) {
    int sync = rnd(r, 3);
    QList<Op> ops;
    static const int mix[] = {0, 0, 0, 2, 2, 3, 3, 3, 3, 4, 4, 5, 5, 6, 6, 7, 8, 9, 9, 10, 1, 1};
    for (int i = 0; i < 3; i++) ops << Op{0, 0, 0, 0, ""};
    ops << Op{2, 0, 0, 0, ""} << Op{3, 1, 1, 0, ""};
    int n = 5 + rnd(r, 60);
    for (int i = 0; i < n; i++) { int k = mix[rnd(r, int(sizeof mix / sizeof *mix))]; ops << Op{k, rnd(r, 1000), rnd(r, 1000), rnd(r, 1000), bytes(r, 10)}; }
    Fail f; QStringList tr;
    if (!replay(ops, sync, &f, &tr)) return;
    for (bool less = true; less;) { less = false; for (int i = ops.size() - 1; i >= 0; i--) { QList<Op> q = ops; q.removeAt(i); if (replay(q, sync, nullptr, nullptr)) { ops = q; less = true; } } }
    replay(ops, sync, &f, &tr);
    tr.prepend(sync == 1 ? "(the transport reports closed connections at once)" : sync == 0 ? "(the transport reports closed connections after the step)" : "(the transport reports closed connections only where the steps say so)");
    report(f.prop, f.what, tr);
}
// every address in use / counter wrapped around: by registrations alone
static void addresses(Rng &r, bool full) {
    Bed b; QUuid s = b.t.connectClient(), su = QUuid::createUuid(); b.regServer(s, su);
    QSet<int> held; QList<QPair<QUuid, int>> open; QHash<QUuid, QUuid> cu;
    int total = full ? 65534 : 66000 + rnd(r, 500); 
    QStringList tr; tr << (full ? "clients register until no address is free" : "clients come and go until the address counter wrapped around, some stay");
    for (int i = 0; i < total; i++) {
        QUuid c = b.t.connectClient(), u = QUuid::createUuid();
        b.t.log.clear();
        QString e = b.regClient(c, u, su);
        int a = -1, notes = 0;
        for (const QByteArray &d : b.t.sentTo(s)) for (auto &f : Bed::unframe(d)) { QVariantMap v = QJsonDocument::fromJson(f.second).toVariant().toMap(); if (v["notification"].toString().endsWith("ClientConnected")) { notes++; a = v["params"].toMap()["socketAddress"].toInt(); } }
        if (e != "TunnelProxyErrorNoError") report("C07", QString("registration %1 refused although addresses are free: %2").arg(i).arg(e), tr);
        if (notes != 1 || a <= 0 || a >= 0xFFFF || held.contains(a)) report("C07", QString("registration %1: the server is told address %2 (%3 notifications, %4)").arg(i).arg(a).arg(notes).arg(held.contains(a) ? "in use" : "reserved or none"), tr);
        held << a; b.t.log.clear();
        if (i % 257 == 0) { b.t.rx(s, Bed::frame(quint16(a), "hi")); if (b.t.sentTo(c) != (QList<QByteArray>() << "hi")) report("C07", QString("data for address %1 does not reach its client").arg(a), tr); }
        if (full || rnd(r, 200) == 0) open << qMakePair(c, a);
        else { b.t.disconnectClient(c); held.remove(a); QCoreApplication::sendPostedEvents(nullptr, QEvent::DeferredDelete); }
    }
    if (full) { QUuid c = b.t.connectClient(); b.t.log.clear(); QString e = b.regClient(c, QUuid::createUuid(), su); if (e == "TunnelProxyErrorNoError") report("C07", "a client is registered although no address is free", tr); }
}
// ------------------------------------------------------------------------------ C13
static QList<QTimer *> timersOf(TunnelProxyServer *s, const QUuid &id) { for (TunnelProxyClient *c : s->findChildren<TunnelProxyClient *>()) if (c->clientId() == id) return c->findChildren<QTimer *>(); return QList<QTimer *>(); }
static void wait(int ms) { QEventLoop l; QTimer::singleShot(ms, &l, &QEventLoop::quit); l.exec(); }
static void timers(Rng &r) {
    Bed b; int cfg = 150 + rnd(r, 100);
    Engine::instance()->configuration()->setInactiveTimeout(cfg);
    QUuid lone = b.t.connectClient(), s = b.t.connectClient(), c = b.t.connectClient(), su = QUuid::createUuid(), chatty = b.t.connectClient();
    for (const QUuid &x : {lone, s, c}) { QList<QTimer *> t = timersOf(b.s, x); if (t.size() == 1 && (!t[0]->isActive() || t[0]->interval() != cfg)) report("C13", QString("a new connection has no running timer of %1 ms (active %2, interval %3)").arg(cfg).arg(t[0]->isActive()).arg(t[0]->interval()), {"connect"}); }
    if (b.regServer(s, su) != "TunnelProxyErrorNoError" || b.regClient(c, QUuid::createUuid(), su) != "TunnelProxyErrorNoError") return;
    QList<QTimer *> ts = timersOf(b.s, s), tc = timersOf(b.s, c);
    if (ts.size() == 1 && (!ts[0]->isActive() || ts[0]->interval() != 60000 || ts[0]->isSingleShot())) report("C13", QString("a registered server has no running 60 s timer (active %1, interval %2)").arg(ts[0]->isActive()).arg(ts[0]->interval()), {"connect", "register server"});
    if (tc.size() == 1 && tc[0]->isActive()) report("C13", "a registered client still has a running timer", {"connect", "register client"});
    wait(60);
    struct { const char *what; QByteArray d; } in[] = {{"a frame for its client", Bed::frame(quint16(1), "x")}, {"part of a frame", "ab"}, {"a ping", QByteArray(1, char(0xC0)) + Bed::frame(0, Bed::req(3, "TunnelProxy.Ping", {{"timestamp", 1}}))}};
    for (auto &i : in) {
        if (ts.size() == 1) { ts[0]->setTimerType(Qt::PreciseTimer); ts[0]->start(); }
        wait(60);
        QElapsedTimer e; e.start();
        b.t.rx(s, i.d);
        int left = ts.size() == 1 ? ts[0]->remainingTime() : 0;
        if (ts.size() == 1 && left < 59990 - e.elapsed()) report("C13", QString("receiving %1 does not restart the 60 s (%2 ms left)").arg(i.what).arg(ts[0]->remainingTime()), {"connect", "register server", i.what});
    }
    if (ts.size() == 1) wait(40);
    {
        int before = ts.size() == 1 ? ts[0]->remainingTime() : 0;
        b.t.rx(c, "data of the client goes to the server");
        int after = ts.size() == 1 ? ts[0]->remainingTime() : 0;
        if (ts.size() == 1 && after > before + 5) report("C13", "sending data to the server restarts its 60 s", {"connect", "register server", "register client", "client sends data"});
    }
    wait(cfg + 60);
    if (b.t.kills(lone) == 0) report("C13", QString("an unregistered connection is not closed after %1 ms").arg(cfg), {"connect", "wait"});
    if (b.t.kills(s) || b.t.kills(c)) report("C13", "a registered connection is closed for inactivity within the inactive timeout", {"connect", "register", "wait"});
    if (ts.size() == 1) { ts[0]->setInterval(20); wait(60); if (b.t.kills(s) == 0) report("C13", "the timer of a server fires without closing it", {"connect", "register server", "(interval set to 20 ms)", "wait"}); }
}

int main(int argc, char **argv) {
    QCoreApplication app(argc, argv);
    qputenv("QT_LOGGING_RULES", "*=false");
    QLoggingCategory::setFilterRules("*=false");
    PID = argv[1]; uint seed = QString(argv[2]).toUInt(); int secs = QString(argv[3]).toInt();
    Rng r(seed);
    QElapsedTimer t; t.start();
    quint64 n = 0;
    while (t.elapsed() < secs * 1000) {
        n++;
        if (PID == "C01" || PID == "C02") codec(r);
        else if (PID == "C03") { stream(r); if (n % 50 == 0) proxy(r); }
        else if (PID == "C04") { stream(r); if (n % 50 == 0) limit(r); }
        else if (PID == "C12") validation(r);
        else if (PID == "C13") timers(r);
        else { proxy(r); if (PID == "C07" && n == 200) addresses(r, false); if (PID == "C07" && n == 400) addresses(r, true); }
    }
    printf("{\"runs\":%llu,\"steps\":%llu}\n", (unsigned long long)n, (unsigned long long)g_steps);
    return 0;
}
