"""Contracts of the monitor (MonitorServer, Engine::buildMonitorData: C16, C23), of the getters of the
configuration (C13, C14, C17), of the set-up of the control plane (C11) and of the engine's tick."""
from vals import *
from ex import *
from task import task, TASKS
from contracts import Fn, Contract
from specs.slip import need_fn
import qt as QT
from specs.core import NS, T_PTR, enter, S, vmap_get
from specs.transports import TCP, WEB, UNX, T_CONF, same_conf, fire, run, tail, calls, emits, sname, qtcall, slot, same_obj
from specs.engine import EN, MON, PC, LOG, EC, conf_getter
from specs.jsonrpc import vmap_of, nl

T16, T23 = ('C16',), ('C23',)
T_CL = ('tmpl', 'QList', (('ptr', ('cls', 'QLocalSocket')),))


def begin_m(ex, fn):
    m = Int('monitor')
    ex.assume(And(m > 0, m < ex.alloc0))
    enter(ex, fn, m)
    ex.ghost['recvcls'] = MON
    return m


def clients(ex, m): return ex.load(ex.getf(m, MON, 'm_clients', T_CL)).s


def server(ex, m): return iv(ex.load(ex.getf(m, MON, 'm_server', T_PTR)))


def closed_(ex, x):
    """x was closed or destroyed"""
    out = [iv(e.obj) == x for e in calls(ex) if e.name in ('close', 'abort')] + [iv(e.obj) == x for e in ex.log if e.kind == 'DeleteLater'] + [iv(e.ref) == x for e in ex.log if e.kind == 'Delete']
    return Or(*out) if out else BoolVal(False)


@task('MonitorServer_start', ['C23'], ['MonitorServer::startServer', 'MonitorServer::MonitorServer', 'MonitorServer::running'])
def t_start(g):
    def body(ex):
        fn = need_fn(g, MON + '::startServer', 0)
        m = begin_m(ex, fn)
        ex.assume(server(ex, m) == 0)
        ex.call_fn(fn, m, argvals=[])
        s = server(ex, m)
        ls = [e for e in calls(ex) if e.name == 'listen']
        ex.oblige('starting listens once', len(ls) == 1, T23, detail=str(calls(ex))[:300])
        if len(ls) != 1:
            return
        ex.oblige('the monitor listens on its configured socket', QT.as_str(ex, ex.load(ls[0].args[0])) == ex.load(ex.getf(m, MON, 'm_serverName', T_STR)), T23)
        ex.oblige('the server that listens is the one that runs', Or(s == 0, s == iv(ls[0].obj)), T23)
        ex.oblige('a monitor that listens runs', s != 0 if not [e for e in ex.log if e.kind == 'Delete'] else s == 0, T23)
        if not ex.branch(s != 0):
            return
        n = len(ex.log)
        fire(ex, s, 'newConnection', [])
        evs = tail(ex, n)
        ex.oblige('a new monitor is accepted once', len(evs) == 1 and evs[0].kind == 'Slot' and iv(evs[0].obj).eq(iv(m)), T23 + T16, detail=str(evs)[:200])
    g.verify(MON + '::startServer', body, {MON + '::onMonitorConnected': slot('onMonitorConnected')}, qtcall=qtcall)


@task('MonitorServer_stop', ['C23'], ['MonitorServer::stopServer'])
def t_stop(g):
    def body(ex):
        fn = need_fn(g, MON + '::stopServer', 0)
        m = begin_m(ex, fn)
        s0, q = server(ex, m), clients(ex, m)
        ex.ghost['monitors'] = q
        ex.assume(And(s0 >= 0, s0 < ex.alloc0))
        ex.call_fn(fn, m, argvals=[])
        ex.oblige('a stopped monitor has no server', server(ex, m) == 0, T23)
        ex.oblige('a stopped monitor does not listen any more', Implies(s0 != 0, closed_(ex, s0)), T23)

    def elem(ex, seq, i):
        # remembered monitors are sockets (onMonitorConnected stores only accepted ones)
        q = ex.ghost['monitors']
        ex.assume(Implies(And(seq == q, i >= 0, i < Length(seq)), seq[i] > 0))
    g.verify(MON + '::stopServer', body, {}, qtcall=qtcall, elem_hook=elem)


@task('MonitorServer_slots', ['C16'], ['MonitorServer::onMonitorConnected', 'MonitorServer::onMonitorDisconnected', 'MonitorServer::onMonitorReadyRead'])
def t_slots(g):
    PR = {MON + '::processRequest': slot('processRequest')}

    def connected(ex):
        fn = need_fn(g, MON + '::onMonitorConnected', 0)
        m = begin_m(ex, fn)
        ex.assume(server(ex, m) > 0)
        c0 = clients(ex, m)
        ex.call_fn(fn, m, argvals=[])
        nx = [e for e in calls(ex) if e.name == 'nextPendingConnection']
        ex.oblige('one pending connection is accepted', len(nx) == 1, T16, detail=str(calls(ex))[:300])
        if len(nx) != 1:
            return
        c = iv(nx[0].res)
        ex.assume(uf('isa_' + tname(('cls', 'QLocalSocket')), [c], BoolSort()))
        ex.assume(Not(QT.mem(ex, c0, c)))       # Qt hands a pending connection out once
        ex.oblige('the monitor is remembered', clients(ex, m) == Concat(c0, Unit(c)), T16)
        if ex.choose(2):
            n = len(ex.log)
            fire(ex, c, 'readyRead', [])
            evs = tail(ex, n)
            rd = [e for e in evs if e.kind == 'QtCall' and e.name == 'readAll']
            ex.oblige('a request is read once, from the monitor that sent it', len(rd) == 1 and iv(rd[0].obj).eq(c), T16, detail=str(evs)[:300])
            pr = [e for e in evs if e.kind == 'Slot']
            ex.oblige('a request is handled at most once', len(pr) <= 1, T16)
            for e in pr:
                ex.oblige('the answer goes to the monitor that asked', iv(ex.load(e.args[0])) == c, T16)
            if not pr:
                ex.oblige('a monitor that sent no JSON is closed', closed_(ex, c), T16)
            bad = [e for e in evs if e.kind == 'QtCall' and e.name in ('write', 'writeData')]
            ex.oblige('nothing is sent without a request', not bad, T16, detail=str(bad))
        else:
            c1 = clients(ex, m)
            n = len(ex.log)
            fire(ex, c, 'disconnected', [])
            gone = [e for e in tail(ex, n) if e.kind == 'DeleteLater']
            ex.oblige('a monitor that disconnected is destroyed once', And(BoolVal(len(gone) == 1), *[iv(e.obj) == c for e in gone]), T16, detail=str(tail(ex, n))[:300])
            ex.oblige('a monitor that disconnected is forgotten', Not(QT.mem(ex, clients(ex, m), c)), T16)
    g.verify(MON + '::onMonitorConnected', connected, PR, qtcall=qtcall)


def c_build(ex, this, args, node):
    a = ex.tobool(ex.load(args[0]))
    r = unpack(ex.fresh('monitorData', zsort(T_MAP)), T_MAP)
    ex.log.append(Event('Build', obj=this, all=a, res=r))
    return r


T_MAP = ('tmpl', 'QMap', (T_STR, ('cls', 'QVariant')))


def same_data(x, y):
    p, q = pack(x, T_MAP), pack(y, T_MAP)
    return p == q


@task('MonitorServer_request', ['C16'], ['MonitorServer::processRequest', 'MonitorServer::sendMonitorData', 'MonitorServer::updateClients'])
def t_request(g):
    def c_send(ex, this, args, node):
        ex.log.append(Event('Send', to=iv(ex.load(args[0])), map=ex.load(args[1])))

    def body(ex):
        fn = need_fn(g, MON + '::processRequest', 2)
        m = begin_m(ex, fn)
        c = Int('client')
        ex.assume(And(c > 0, c < ex.alloc0, c != m))
        req = unpack(Const('request', zsort(T_MAP)), T_MAP)
        ex.call_fn(fn, m, argvals=[c, req])
        d, v = vmap_get(ex, req, 'method')
        refresh = And(d, QT.vout(ex, v, 'String') == StringVal('refresh'))
        dp, vp = vmap_get(ex, req, 'params')
        ps = unpack(QT.vout(ex, vp, 'Map'), T_MAP)
        da, va = vmap_get(ex, ps, 'printAll')
        all_ = And(dp, da, QT.vout(ex, va, 'Bool'))
        sends, builds = [e for e in ex.log if e.kind == 'Send'], [e for e in ex.log if e.kind == 'Build']
        if sends or builds:
            ex.oblige('only a refresh is answered', refresh, T16)
            ex.oblige('a refresh is answered once, to the monitor that asked', And(BoolVal(len(sends) == 1), *[e.to == c for e in sends]), T16, detail=str(sends))
            ex.oblige('the answer is computed once, for the list that was asked for', And(BoolVal(len(builds) == 1), *[e.all == all_ for e in builds]), T16)
            if len(sends) == 1 and len(builds) == 1:
                ex.oblige('the answer is the statistics', same_data(sends[0].map, builds[0].res), T16)
            ex.oblige('answering touches nothing else', not calls(ex), T16, detail=str(calls(ex)))
        else:
            ex.oblige('a refresh is answered', Not(refresh), T16)
            ex.oblige('a request that is not understood closes the monitor', closed_(ex, c), T16)

    def send(ex):
        fn = need_fn(g, MON + '::sendMonitorData', 2)
        m = begin_m(ex, fn)
        c = Int('client')
        ex.assume(And(c > 0, c < ex.alloc0, c != m))
        data = unpack(Const('dataMap', zsort(T_MAP)), T_MAP)
        ex.call_fn(fn, m, argvals=[c, data])
        ws = [e for e in calls(ex) if e.name not in ('flush', 'waitForBytesWritten')]
        ex.oblige('the statistics are written once, to this monitor', And(BoolVal(len(ws) == 1 and ws[0].name == 'write'), *[iv(e.obj) == c for e in calls(ex)]), T16, detail=str(ws))
        if len(ws) == 1 and ws[0].name == 'write':
            b = QT.as_bytes(ex, ex.load(ws[0].args[0]))
            js = ex.ghost.get('json', [])
            ex.oblige('the statistics are sent as one line of JSON', Or(*[And(b == nl(r), same_data(vmap_of(ex, v), data)) for v, r in js]) if js else BoolVal(False), T16)

    E_ = {MON + '::sendMonitorData': Fn(c_send), EN + '::buildMonitorData': Fn(c_build), EN + '::instance': Fn(lambda ex, this, args, node: engine(ex))}
    g.verify(MON + '::processRequest', body, E_, qtcall=qtcall)
    g.verify(MON + '::sendMonitorData', send, {}, qtcall=qtcall)


def engine(ex):
    e = Int('engine')
    ex.assume(And(e > 0, e < ex.alloc0))
    return e


@task('Engine_monitor', ['C16'], ['Engine::buildMonitorData', 'Engine::tunnelProxyServer'])
def t_build(g):
    def c_stat(ex, this, args, node):
        r = unpack(ex.fresh('statistics', zsort(T_MAP)), T_MAP)
        ex.log.append(Event('Stat', obj=this, all=ex.tobool(ex.load(args[0])), res=r))
        return r

    def body(ex):
        fn = need_fn(g, EN + '::buildMonitorData', 1)
        e = engine(ex)
        enter(ex, fn, e)
        srv, c = iv(ex.load(ex.getf(e, EN, 'm_tunnelProxyServer', T_PTR))), iv(ex.load(ex.getf(e, EN, 'm_configuration', T_PTR)))
        ex.assume(And(srv > 0, c > 0))
        all_ = z3.Bool('printAll')
        r = ex.load(ex.call_fn(fn, e, argvals=[all_]))
        st = [x for x in ex.log if x.kind == 'Stat']
        ex.oblige('the statistics of the running server are taken once', And(BoolVal(len(st) == 1), *[And(iv(x.obj) == srv, x.all == all_) for x in st]), T16, detail=str(st))
        if len(st) != 1:
            return
        d, v = vmap_get(ex, r, 'tunnelProxyStatistic')
        ex.oblige('the monitor shows these statistics', And(d, v == vinj('Map')(pack(st[0].res, T_MAP))), T16)
        d, v = vmap_get(ex, r, 'serverName')
        ex.oblige('the monitor shows the configured name', And(d, v == vinj('String')(uf('conf_serverName', [c], Str))), T16)
        ex.oblige('building the data changes nothing', not [x for x in ex.log if x.kind != 'Stat'], T16, detail=str(ex.log)[:300])
    g.verify(EN + '::buildMonitorData', body, {**EC, S + '::currentStatistics': Fn(c_stat)})


# ---------------------------------------------------------------- getters of the configuration
H, P16, I32_ = ('cls', 'QHostAddress'), ('int', 16, False), ('int', 32, True)
GETTERS = (('serverName', 'm_serverName', T_STR), ('writeLogFile', 'm_writeLogFile', T_BOOL), ('logFileName', 'm_logFileName', T_STR), ('logEngineEnabled', 'm_logEngineEnabled', T_BOOL),
           ('monitorSocketFileName', 'm_monitorSocketFileName', T_STR), ('jsonRpcTimeout', 'm_jsonRpcTimeout', I32_), ('inactiveTimeout', 'm_inactiveTimeout', I32_),
           ('sslEnabled', 'm_sslEnabled', T_BOOL), ('sslCertificateFileName', 'm_sslCertificateFileName', T_STR), ('sslCertificateKeyFileName', 'm_sslCertificateKeyFileName', T_STR),
           ('sslCertificateChainFileName', 'm_sslCertificateChainFileName', T_STR), ('sslConfiguration', 'm_sslConfiguration', T_CONF), ('unixSocketFileName', 'm_unixSocketFileName', T_STR),
           ('webSocketServerTunnelProxyHost', 'm_webSocketServerTunnelProxyHost', H), ('webSocketServerTunnelProxyPort', 'm_webSocketServerTunnelProxyPort', P16),
           ('tcpServerTunnelProxyHost', 'm_tcpServerTunnelProxyHost', H), ('tcpServerTunnelProxyPort', 'm_tcpServerTunnelProxyPort', P16))


@task('ProxyConfiguration_getters', ['C17', 'C14', 'C13'], ['ProxyConfiguration::' + a for a, _, _ in GETTERS])
def t_getters(g):
    for name, field, t in GETTERS:
        def body(ex, name=name, field=field, t=t):
            fn = need_fn(g, PC + '::' + name, 0)
            c = Int('configuration')
            ex.assume(And(c > 0, c < ex.alloc0))
            enter(ex, fn, c)
            x = ex.load(ex.getf(c, PC, field, t))
            r = ex.load(ex.call_fn(fn, c, argvals=[]))
            T = ('C17',) + {'sslEnabled': ('C14',), 'sslConfiguration': ('C14',), 'inactiveTimeout': ('C13',)}.get(name, ())
            e = lambda y: y.e if isinstance(y, Opaque) else (iv(y) if t[0] == 'int' else (ex.tobool(y) if t == T_BOOL else y))
            ex.oblige('the value in use is the value that was loaded', e(r) == e(x), T, detail=name)
        g.verify(PC + '::' + name, body, {})


# ---------------------------------------------------------------- set-up of the control plane
@task('TunnelProxyServer_setup', ['C11'], ['TunnelProxyServer::TunnelProxyServer', 'JsonRpcServer::registerHandler', 'JsonRpcServer::name', 'TunnelProxyHandler::name'])
def t_setup(g):
    JR, JH, TH = NS + 'JsonRpcServer', NS + 'JsonHandler', NS + 'TunnelProxyHandler'

    def body(ex):
        fn = g.prog.find_fn(S + '::TunnelProxyServer', 1)
        s = Int('server')
        ex.assume(And(s > 0, s < ex.alloc0))
        ex.call_fn(fn, s, argvals=[Int('parent')], is_ctor=True)
        j = iv(ex.load(ex.getf(s, S, 'm_jsonRpcServer', T_PTR)))
        made = {e.cls: e.ref for e in ex.log if e.kind == 'New'}
        ex.oblige('the control plane is built', JR in made and TH in made, ('C11',), detail=str(made))
        if not (JR in made and TH in made):
            return
        ex.oblige('the control plane is the one that was built', j == made[JR], ('C11',))
        h = ex.load(ex.getf(j, JR, 'm_handlers', ('tmpl', 'QHash', (T_STR, ('ptr', ('cls', JH))))))
        for nm, cls in (('RemoteProxy', JR), ('TunnelProxy', TH)):
            k = StringVal(nm)
            ex.oblige('every published namespace has its handler', And(ex.sel(h.dom, k), iv(ex.sel(h.val, k)) == made[cls]), ('C11',), detail=nm)
    def c_name(ex, this, args, node):
        # dynamic dispatch on an object that was made here
        for e in ex.log:
            if e.kind == 'New' and same_obj(e.ref, this):
                return ex.call_fn(need_fn(g, e.cls + '::name', 0), this, argvals=[])
        raise ToolLimit('name of an unknown handler')
    g.verify(S + '::TunnelProxyServer', body, {JH + '::name': Fn(c_name), JR + '::JsonRpcServer': Fn(lambda ex, this, args, node: None), TH + '::TunnelProxyHandler': Fn(lambda ex, this, args, node: None)})


# ---------------------------------------------------------------- destruction stops
def stopped(name, void):
    def f(ex, this, args, node):
        ex.log.append(Event('Slot', name=name, obj=this, args=args))
        return None if void else ex.fresh('ok', BoolSort())
    return Fn(f)


def make_dtor(cls, stop):
    short = cls.split('::')[-1]

    @task(short + '_destroy', ['C23'], [short + '::~' + short])
    def t(g):
        def body(ex):
            fn = g.prog.find_fn(cls + '::~' + short, 0)
            o = Int('object')
            ex.assume(And(o > 0, o < ex.alloc0))
            enter(ex, fn, o)
            ex.call_fn(fn, o, argvals=[])
            st = [e for e in ex.log if e.kind == 'Slot']
            ex.oblige('destroying stops', And(BoolVal(len(st) >= 1), *[iv(e.obj) == o for e in st]), T23, detail=str(ex.log)[:200])
        g.verify(cls + '::~' + short, body, {cls + '::' + stop: stopped(stop, cls in (MON, EN))})


for _c, _s in ((TCP, 'stopServer'), (WEB, 'stopServer'), (UNX, 'stopServer'), (MON, 'stopServer'), (EN, 'stop')):
    make_dtor(_c, _s)


@task('Engine_tick', ['C16', 'C23'], ['Engine::onTimerTick', 'Engine::Engine'])
def t_tick(g):
    def body(ex):
        fn = g.prog.find_fn(EN + '::Engine', 1)
        e = engine(ex)
        ex.call_fn(fn, e, argvals=[Int('parent')], is_ctor=True)
        t = iv(ex.load(ex.getf(e, EN, 'm_timer', T_PTR)))
        ex.oblige('a new engine has its timer and its log', And(t > 0, iv(ex.load(ex.getf(e, EN, 'm_logEngine', T_PTR))) > 0), T23)
        ex.oblige('a new engine is not running', Not(ex.tobool(ex.getf(e, EN, 'm_running', T_BOOL))), T23)
        for f in ('m_tunnelProxyServer', 'm_webSocketServerTunnelProxy', 'm_tcpSocketServerTunnelProxy', 'm_unixSocketServerTunnelProxy', 'm_monitorServer', 'm_configuration'):
            ex.oblige('a new engine has no servers', iv(ex.load(ex.getf(e, EN, f, T_PTR))) == 0, T23, detail=f)
        ex.oblige('the timer of the engine repeats', Not(b2(QT.timer_get(ex, t, 'single'))), T16)
        srv = Int('running_server')
        ex.assume(And(srv > 0, srv < ex.alloc0))
        ex.setf(e, EN, 'm_tunnelProxyServer', T_PTR, srv)
        cnt = ex.fresh('counter', IntSort())
        ex.assume(And(cnt >= 0, cnt < 1000))
        ex.setf(e, EN, 'm_currentTimeCounter', ('int', 64, True) if False else ('int', 32, True), cnt)
        n = len(ex.log)
        fire(ex, t, 'timeout', [])
        tk = [x for x in tail(ex, n) if x.kind == 'Step' and x.name == 'tick']
        ex.oblige('the statistics tick at most once, and only for the running server', And(BoolVal(len(tk) <= 1), *[iv(x.obj) == srv for x in tk]), T16, detail=str(tail(ex, n))[:200])
    g.verify(EN + '::Engine', body, {**EC, LOG + '::LogEngine': Fn(lambda ex, this, args, node: None)})
