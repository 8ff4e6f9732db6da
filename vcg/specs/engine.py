"""Contracts of the engine's life cycle (C23) and of the TLS setting it hands to the transports (C14);
TunnelProxyServer's start/stop and its registration of transports (C15, C23)."""
from vals import *
from ex import *
from task import task, TASKS
from contracts import Fn, Contract
from specs.slip import need_fn
import qt as QT
from specs.core import NS, T_PTR, enter, S
from specs.transports import TCP, WEB, UNX, T_CONF, same_conf, fire, run, txt, sigkey, tail, calls, emits, sname, same_obj, iv_

EN, MON, PC, LOG = NS + 'Engine', NS + 'MonitorServer', NS + 'ProxyConfiguration', NS + 'LogEngine'
T23 = ('C23',)
PARTS = (('m_tunnelProxyServer', S), ('m_webSocketServerTunnelProxy', WEB), ('m_tcpSocketServerTunnelProxy', TCP), ('m_unixSocketServerTunnelProxy', UNX), ('m_monitorServer', MON))
OWNED = tuple(f for f, _ in PARTS) + ('m_configuration',)


def ev(name, **kw):
    def f(ex, this, args, node):
        ex.log.append(Event('Step', name=name, obj=this, args=args))
        if name == 'setRunning':
            ex.setf(this, S, 'm_running', T_BOOL, ex.tobool(args[0]))
    return Fn(f)


def conf_getter(name, t):
    def f(ex, this, args, node):
        if t == T_BOOL:
            return uf('conf_' + name, [iv(this)], BoolSort())
        if t == T_STR:
            return uf('conf_' + name, [iv(this)], Str)
        if t == T_CONF:
            return Opaque(T_CONF, uf('conf_' + name, [iv(this)], IntSort()))
        r = uf('conf_' + name, [iv(this)], IntSort())
        if t[0] == 'int':
            ex.assume(And(r >= 0, r < 65536))
            return r
        return Opaque(t, r)
    return Fn(f)


GET = (('sslEnabled', T_BOOL), ('sslConfiguration', T_CONF), ('unixSocketFileName', T_STR), ('monitorSocketFileName', T_STR), ('logEngineEnabled', T_BOOL),
       ('webSocketServerTunnelProxyHost', ('cls', 'QHostAddress')), ('webSocketServerTunnelProxyPort', ('int', 16, False)), ('tcpServerTunnelProxyHost', ('cls', 'QHostAddress')),
       ('tcpServerTunnelProxyPort', ('int', 16, False)), ('serverName', T_STR))
EC = {PC + '::' + n: conf_getter(n, t) for n, t in GET}
EC.update({S + '::registerTransportInterface': ev('register'), S + '::startServer': ev('startServer'), S + '::stopServer': ev('stopServer'), S + '::setRunning': ev('setRunning'),
           MON + '::startServer': ev('monitor start'), MON + '::stopServer': ev('monitor stop'), LOG + '::enable': ev('log'), LOG + '::disable': ev('log'), S + '::tick': ev('tick'), S + '::TunnelProxyServer': Fn(lambda ex, this, args, node: None)})


def ptrf(ex, e, f):
    return iv(ex.load(ex.getf(e, EN, f, T_PTR)))


def arbitrary_engine(ex, fn):
    e = Int('engine')
    ex.assume(And(e > 0, e < ex.alloc0))
    ps = [ptrf(ex, e, f) for f in OWNED]
    for i, p in enumerate(ps):
        ex.assume(And(p >= 0, p < ex.alloc0, p != e))
        for q in ps[:i]:
            ex.assume(Or(p == 0, p != q))
    ex.assume(ptrf(ex, e, 'm_timer') > 0)
    ex.assume(ptrf(ex, e, 'm_logEngine') > 0)
    running = ex.tobool(ex.getf(e, EN, 'm_running', T_BOOL))
    ex.assume(Implies(running, ptrf(ex, e, 'm_tunnelProxyServer') != 0))
    # all parts exist together
    for f in OWNED:
        ex.assume((ptrf(ex, e, f) != 0) == (ptrf(ex, e, 'm_tunnelProxyServer') != 0))
    enter(ex, fn, e)
    return e, {f: ptrf(ex, e, f) for f in OWNED}


def url_set(e, name):
    """argument of the last call of a setter of a URL"""
    while z3.is_app(e) and e.decl().name().startswith('qtm_QUrl_set'):
        m = e.decl().name()[len('qtm_QUrl_'):]
        if m == name:
            return e.arg(1)
        if m not in ('setScheme', 'setHost', 'setPort', 'setPath', 'setQuery', 'setFragment'):
            break
        e = e.arg(0)
    raise ToolLimit('URL that is not built by ' + name)


def deleted(ex, p):
    return [e for e in ex.log if e.kind == 'Delete' and iv(e.ref).eq(p)]


def inv23(ex, e, what):
    ex.oblige(what + ' keeps: an engine reports running only with its servers built', Implies(ex.tobool(ex.getf(e, EN, 'm_running', T_BOOL)), ptrf(ex, e, 'm_tunnelProxyServer') != 0), T23)
    for f in OWNED:
        ex.oblige(what + ' keeps: the parts of the engine exist together', (ptrf(ex, e, f) != 0) == (ptrf(ex, e, 'm_tunnelProxyServer') != 0), T23, detail=f)


def torn_down(ex, old, what):
    """every old part was destroyed exactly once, the users of the transports before the transports"""
    order = [iv(e.ref) for e in ex.log if e.kind == 'Delete']
    for f in OWNED:
        p = old[f]
        n = sum([If(q == p, IntVal(1), IntVal(0)) for q in order], IntVal(0))
        ex.oblige('what ran before is destroyed exactly once', Implies(p != 0, n == 1), T23, detail=f + ' ' + what)
    for q in order:
        ex.oblige('nothing else is destroyed', Or(q == 0, *[q == old[f] for f in OWNED]), T23, detail=what)
    # TunnelProxyServer uses its transports when it is stopped
    stop = [i for i, e in enumerate(ex.log) if e.kind == 'Step' and e.name == 'stopServer']
    for i, e in enumerate(ex.log):
        if e.kind == 'Delete' and stop and i < stop[-1]:
            ex.oblige('transports outlive the server that uses them', And(*[iv(e.ref) != old[f] for f in ('m_webSocketServerTunnelProxy', 'm_tcpSocketServerTunnelProxy', 'm_unixSocketServerTunnelProxy')]), T23)
        if e.kind == 'Step' and e.name in ('stopServer', 'monitor stop'):
            for d in ex.log[:i]:
                if d.kind == 'Delete':
                    ex.oblige('nothing is used after it was destroyed', iv(d.ref) != iv(e.obj), T23)


@task('Engine_start', ['C23', 'C14'], ['Engine::start', 'Engine::clean'])
def t_start(g):
    def body(ex):
        fn = need_fn(g, EN + '::start', 1)
        e, old = arbitrary_engine(ex, fn)
        c = Int('configuration')
        ex.assume(And(c > 0, c < ex.alloc0, c != old['m_configuration'], c != e, *[c != old[f] for f in OWNED]))
        was = ex.tobool(ex.getf(e, EN, 'm_running', T_BOOL))
        ex.call_fn(fn, e, argvals=[c])
        torn_down(ex, old, 'start')
        new = {f: ptrf(ex, e, f) for f in OWNED}
        ex.oblige('the engine uses the given configuration', new['m_configuration'] == c, T23)
        made = {}
        for f, cls in PARTS:
            nw = [x for x in ex.log if x.kind == 'New' and x.cls == cls]
            ex.oblige('starting builds one new part of each kind', len(nw) == 1, T23, detail=f)
            if len(nw) != 1:
                return
            made[f] = nw[0].ref
            ex.oblige('the engine holds the part it built', new[f] == nw[0].ref, T23, detail=f)
        for f, cls in (('m_webSocketServerTunnelProxy', WEB), ('m_tcpSocketServerTunnelProxy', TCP)):
            ex.oblige('each network transport gets the TLS setting and the certificate of the configuration',
                      And(ex.tobool(ex.getf(made[f], cls, 'm_sslEnabled', T_BOOL)) == uf('conf_sslEnabled', [c], BoolSort()),
                          iv(ex.getf(made[f], cls, 'm_sslConfiguration', T_CONF).e) == uf('conf_sslConfiguration', [c], IntSort())), ('C14',), detail=f)
        for f, g_ in (('m_webSocketServerTunnelProxy', 'webSocketServerTunnelProxy'), ('m_tcpSocketServerTunnelProxy', 'tcpServerTunnelProxy')):
            u = ex.load(ex.getf(made[f], NS + 'TransportInterface', 'm_serverUrl', ('cls', 'QUrl'))).e
            h, p = url_set(u, 'setHost'), url_set(u, 'setPort')
            ex.oblige('each network transport gets the configured address and port', And(h == uf('qt_QHostAddress_toString', [uf('conf_%sHost' % g_, [c], IntSort())], Str), iv(p) == uf('conf_%sPort' % g_, [c], IntSort())), T23, detail=f)
        ex.oblige('the unix transport uses the configured socket', ex.load(ex.getf(made['m_unixSocketServerTunnelProxy'], UNX, 'm_socketFileName', T_STR)) == uf('conf_unixSocketFileName', [c], Str), T23)
        ex.oblige('the monitor uses the configured socket', ex.load(ex.getf(made['m_monitorServer'], MON, 'm_serverName', T_STR)) == uf('conf_monitorSocketFileName', [c], Str), T23)
        steps = [x for x in ex.log if x.kind == 'Step']
        st = [i for i, x in enumerate(steps) if x.name == 'startServer']
        ex.oblige('the tunnel server is started once', len(st) == 1 and iv(steps[st[0]].obj).eq(iv(made['m_tunnelProxyServer'])), T23, detail=str(steps)[:200])
        ex.oblige('the monitor is started once', len([x for x in steps if x.name == 'monitor start' and iv(x.obj).eq(iv(made['m_monitorServer']))]) == 1, T23)
        if len(st) == 1:
            reg = [iv(x.args[0]) for i, x in enumerate(steps) if x.name == 'register' and i < st[0] and iv(x.obj).eq(iv(made['m_tunnelProxyServer']))]
            for f in ('m_webSocketServerTunnelProxy', 'm_tcpSocketServerTunnelProxy', 'm_unixSocketServerTunnelProxy'):
                ex.oblige('every transport is registered before the tunnel server starts', any(x.eq(iv(made[f])) for x in reg), T23, detail=f)
        last = [i for i, x in enumerate(ex.log) if x.kind == 'Step' and x.name in ('startServer', 'monitor start')]
        q = queued(ex)
        ex.oblige('the engine is reported running later, once everything is up', len(q) >= 1, T23, detail=str(ex.log)[:300])
        ex.oblige('starting itself does not report running', ex.tobool(ex.getf(e, EN, 'm_running', T_BOOL)) == was, T23)
        inv23(ex, e, 'start')
        # the event loop: the queued call runs after start() has returned
        n = len(ex.log)
        for x in q:
            deliver(ex, x, e)
        ex.oblige('after the event loop ran the started engine is running', ex.tobool(ex.getf(e, EN, 'm_running', T_BOOL)), T23)
        ex.oblige('the timer of a running engine runs', Or(was, b2(QT.timer_get(ex, ptrf(ex, e, 'm_timer'), 'active'))), T23)
        inv23(ex, e, 'running')
    g.verify(EN + '::start', body, EC)


def queued(ex):
    return [x for x in ex.log if x.kind in ('Invoke', 'SingleShot')]


def deliver(ex, x, e):
    """the event loop makes a queued call"""
    if x.kind == 'SingleShot':
        raise ToolLimit('queued by a timer')
    if isinstance(x.handler, str) and ex.prog.find_fn(EN + '::' + x.handler) is None:
        ex.oblige('the queued method exists', False, T23, detail=x.handler)
        return
    QT.run_invoked(ex, x)


@task('Engine_stop', ['C23'], ['Engine::stop', 'Engine::clean', 'Engine::setRunning'])
def t_stop(g):
    def body(ex):
        fn = need_fn(g, EN + '::stop', 0)
        e, old = arbitrary_engine(ex, fn)
        ex.call_fn(fn, e, argvals=[])
        torn_down(ex, old, 'stop')
        for f in OWNED:
            ex.oblige('a stopped engine has no servers', ptrf(ex, e, f) == 0, T23, detail=f)
        ex.oblige('a stopped engine is not running', Not(ex.tobool(ex.getf(e, EN, 'm_running', T_BOOL))), T23)
        ex.oblige('stopping queues nothing', not queued(ex), T23)
        inv23(ex, e, 'stop')
    g.verify(EN + '::stop', body, EC)


@task('Engine_setRunning', ['C23'], ['Engine::setRunning'])
def t_setRunning(g):
    def body(ex):
        fn = need_fn(g, EN + '::setRunning', 1)
        e, old = arbitrary_engine(ex, fn)
        b = z3.Bool('running')
        was = ex.tobool(ex.getf(e, EN, 'm_running', T_BOOL))
        ta = b2(QT.timer_get(ex, ptrf(ex, e, 'm_timer'), 'active'))
        ex.assume(Implies(was, ta))
        ex.call_fn(fn, e, argvals=[b])
        now = ex.tobool(ex.getf(e, EN, 'm_running', T_BOOL))
        ex.oblige('an engine with its servers built takes the reported state', Implies(old['m_tunnelProxyServer'] != 0, now == b), T23)
        ex.oblige('a late report of a start that was stopped in the meantime is ignored', Implies(old['m_tunnelProxyServer'] == 0, Not(now)), T23)
        es = [x for x in emits(ex) if sname(x) == 'runningChanged']
        ex.oblige('a change of the running state is signalled once', Implies(now != was, BoolVal(len(es) == 1)), T23)
        ex.oblige('only changes are signalled', Implies(now == was, BoolVal(not es)), T23)
        for x in es:
            ex.oblige('the signal names the state in effect', ex.tobool(ex.load(x.args[0])) == now, T23)
        ex.oblige('the timer of a running engine runs', Implies(now, b2(QT.timer_get(ex, ptrf(ex, e, 'm_timer'), 'active'))), T23)
        inv23(ex, e, 'reporting the state')
        for f in OWNED:
            ex.oblige('reporting the state changes nothing else', ptrf(ex, e, f) == old[f], T23, detail=f)
    g.verify(EN + '::setRunning', body, EC)


@task('TunnelProxyServer_start', ['C23', 'C15'], ['TunnelProxyServer::startServer', 'TunnelProxyServer::stopServer', 'TunnelProxyServer::setRunning'])
def t_tps(g):
    TI = NS + 'TransportInterface'

    def make(fnname, step, state):
        def on_iter(ex, L, k, seqinfo, log, post):
            q = ex.ghost['tis']
            xs = [x for x in log if x.kind == 'Step']
            ex.oblige('every transport is started or stopped once', And(BoolVal(len(xs) == 1 and xs[0].name == step), iv(xs[0].obj) == q[k] if xs else BoolVal(False)), T23, detail=str(log)[:200])

        def on_begin(ex, L, k, seqinfo):
            q = ex.ghost['tis']
            ex.assume(Implies(And(k >= 0, k < Length(q)), q[k] > 0))

        def body(ex):
            fn = need_fn(g, S + '::' + fnname, 0)
            srv = Int('server')
            ex.assume(And(srv > 0, srv < ex.alloc0))
            enter(ex, fn, srv)
            ex.ghost['tis'] = ex.load(ex.getf(srv, S, 'm_transportInterfaces', ('tmpl', 'QList', (('ptr', ('cls', TI)),)))).s
            was = ex.tobool(ex.getf(srv, S, 'm_running', T_BOOL))
            ex.call_fn(fn, srv, argvals=[])
            segs = [x for x in ex.log if x.kind == 'LoopSeg']
            if segs:
                ex.oblige('all transports are started or stopped', And(BoolVal(not segs[0].broken), segs[0].k == Length(ex.ghost['tis'])), T23)
            else:
                ex.oblige('all transports are started or stopped', Length(ex.ghost['tis']) == 0, T23)
            now = ex.tobool(ex.getf(srv, S, 'm_running', T_BOOL))
            ex.oblige('the server reports that it was started or stopped', now == BoolVal(state), T23)
            es = [x for x in emits(ex) if sname(x) == 'runningChanged']
            ex.oblige('a change of the running state is signalled once', If(now != was, BoolVal(len(es) == 1), BoolVal(not es)), T23)
        C = {TI + '::startServer': Fn(step_bool('startServer')), TI + '::stopServer': Fn(step_bool('stopServer'))}
        g.verify(S + '::' + fnname, body, C, on_iter=on_iter, on_iter_begin=on_begin)
    make('startServer', 'startServer', True)
    make('stopServer', 'stopServer', False)


def step_bool(name):
    def f(ex, this, args, node):
        ex.log.append(Event('Step', name=name, obj=this, args=args))
        return ex.fresh('ok', BoolSort())
    return f


@task('TunnelProxyServer_register', ['C15', 'C23'], ['TunnelProxyServer::registerTransportInterface'])
def t_reg(g):
    TI = NS + 'TransportInterface'

    def slot(n):
        def f(ex, this, args, node):
            ex.log.append(Event('Slot', name=n, obj=this, args=args))
        return Fn(f)
    SL = {S + '::' + n: slot(n) for n in ('onClientConnected', 'onClientDisconnected', 'onClientDataAvailable')}
    SL[TI + '::serverName'] = Fn(lambda ex, this, args, node: uf('name_of', [iv(this)], Str))

    def body(ex):
        fn = need_fn(g, S + '::registerTransportInterface', 1)
        srv, i = Int('server'), Int('interface')
        ex.assume(And(srv > 0, srv < ex.alloc0, i > 0, i < ex.alloc0, i != srv))
        enter(ex, fn, srv)
        tt = ('tmpl', 'QList', (('ptr', ('cls', TI)),))
        q0 = ex.load(ex.getf(srv, S, 'm_transportInterfaces', tt))
        had = QT.mem(ex, q0.s, i)
        ex.call_fn(fn, srv, argvals=[i])
        q1 = ex.load(ex.getf(srv, S, 'm_transportInterfaces', tt))
        if not ex.conns:
            ex.oblige('a new transport is connected', had, ('C15', 'C23'))
            ex.oblige('registering twice changes nothing', q1.s == q0.s, ('C15', 'C23'))
            return
        ex.oblige('a transport is registered only once', Not(had), ('C15', 'C23'))
        ex.oblige('the transport is added to the list', q1.s == Concat(q0.s, Unit(i)), ('C23',))
        id_, d = Int('clientId'), unpack(Const('data', zsort(T_BA)), T_BA)
        ad = Opaque(('cls', 'QHostAddress'), Int('address'))
        for sig, sl, a in (('clientConnected', 'onClientConnected', [id_, ad]), ('clientDisconnected', 'onClientDisconnected', [id_]), ('dataAvailable', 'onClientDataAvailable', [id_, d])):
            n = len(ex.log)
            fire(ex, i, sig, a)
            evs = tail(ex, n)
            ok = len(evs) == 1 and evs[0].kind == 'Slot' and evs[0].name == sl and iv(evs[0].obj).eq(srv) and iv(ex.load(evs[0].args[0])).eq(id_)
            if ok and sl == 'onClientDataAvailable':
                ok = QT.as_bytes(ex, ex.load(evs[0].args[1])).eq(d.s)
            ex.oblige('what a transport reports reaches the proxy exactly once', ok, ('C15',), detail='%s: %s' % (sig, str(evs)[:200]))
    g.verify(S + '::registerTransportInterface', body, SL)
