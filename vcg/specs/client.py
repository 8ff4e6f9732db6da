"""Contracts of the client library: TunnelProxyRemoteConnection (C19), TunnelProxySocketServer and
TunnelProxySocket (C18, C22), and what both assume about ProxyConnection and JsonRpcClient.

The application's slots run inside every emitted signal.  They may use the API of the object that
emits, so at each emission (and while the transport is asked to connect or disconnect) the connection
may be gone afterwards: `rely` is that assumption, everything is proved for both outcomes."""
from vals import *
from ex import *
from task import task, TASKS
from contracts import Fn, Contract
from specs.slip import need_fn, enc, dec, SLIP, END
from specs.packets import rs, payload_ok, mk, PKTS
import qt as QT
import specs.core as core
from specs.core import enter, T_PTR, be16
from specs.transports import fire, fire_timer, emits, sname, sigkey, tail, same_obj

CN = 'remoteproxyclient::'
RC, SS, TS, PC, JC, JR = (CN + x for x in ('TunnelProxyRemoteConnection', 'TunnelProxySocketServer', 'TunnelProxySocket', 'ProxyConnection', 'JsonRpcClient', 'JsonReply'))
TCPC, WSC = CN + 'TcpSocketConnection', CN + 'WebSocketConnection'
I32 = ('int', 32, True)
U16 = ('int', 16, False)
CONNECTING, LOOKUP, CONNECTED, INIT, REGISTER, UP, CLOSING, DOWN = range(8)
STRS = ('m_remoteProxyServer', 'm_remoteProxyServerName', 'm_remoteProxyServerVersion', 'm_remoteProxyApiVersion')
T_SOCKS = ('tmpl', 'QHash', (U16, ('ptr', ('cls', TS))))
OWN = {RC: ('C19',), SS: ('C22',)}


def st(ex, o, cls): return iv(ex.load(ex.getf(o, cls, 'm_state', I32)))
def conn(ex, o, cls): return iv(ex.load(ex.getf(o, cls, 'm_connection', T_PTR)))
def jc(ex, o, cls): return iv(ex.load(ex.getf(o, cls, 'm_jsonClient', T_PTR)))
def enabled(ex, o): return ex.tobool(ex.getf(o, SS, 'm_enabled', T_BOOL))
def running(ex, o): return ex.tobool(ex.getf(o, SS, 'm_running', T_BOOL))
def timer(ex, o, f): return ex.subref(o, SS, f)
def ticking(ex, o, f='m_reconnectTimer'): return b2(QT.timer_get(ex, timer(ex, o, f), 'active'))
def socks(ex, o): return ex.load(ex.getf(o, SS, 'm_tunnelProxySockets', T_SOCKS))
def buf(ex, o): return ex.load(ex.getf(o, SS, 'm_dataBuffer', T_BA)).s
def saddr(ex, s): return iv(ex.load(ex.getf(s, TS, 'm_socketAddress', U16)))


def sinv(ex, o, cls):
    """what holds whenever no function of the object runs, and whenever the application is called"""
    s, c, j = st(ex, o, cls), conn(ex, o, cls), jc(ex, o, cls)
    out = [('the state is one of the declared ones', And(s >= 0, s <= 7)),
           ('the connection and its JSON client exist together', (c == 0) == (j == 0)),
           ('a registered object has its connection', Implies(Or(s == INIT, s == REGISTER, s == UP), c != 0))]
    if cls == SS:
        m = socks(ex, o)
        out += [('a server that lost its connection while it is enabled has its reconnect timer running', Implies(And(s == DOWN, enabled(ex, o)), ticking(ex, o))),
                ('the reconnect timer repeats', Not(b2(QT.timer_get(ex, timer(ex, o, 'm_reconnectTimer'), 'single')))),
                ('while it is running, the buffer holds the start of a frame', Implies(s == UP, payload_ok(buf(ex, o)))),
                ('sockets are kept under their address', lambda k: Implies(ex.sel(m.dom, k), And(ex.sel(m.val, k) > 0, saddr(ex, ex.sel(m.val, k)) == k)))]
    return out


TRANSIENT = 'a server that lost its connection while it is enabled has its reconnect timer running'


def prove_sinv(ex, o, cls, what, skip=()):
    for n, f in sinv(ex, o, cls):
        if n in skip:
            continue
        tags = ('C22',) if 'timer' in n else ('C18',) if 'sockets' in n or 'buffer' in n else OWN[cls]
        if callable(f) and not z3.is_expr(f):
            f = f(ex.fresh('any', IntSort()))
        ex.oblige('%s keeps: %s' % (what, n), f, tags)


def assume_sinv(ex, o, cls):
    for n, f in sinv(ex, o, cls):
        if z3.is_expr(f):
            ex.assume(f)
        else:
            k = Int('sk')
            d = ex.sel(socks(ex, o).dom, k)
            ex.assume(ForAll([k], f(k), patterns=[d]) if z3.is_app(d) and d.decl().kind() == z3.Z3_OP_SELECT and not core.has_ite(d) else ForAll([k], f(k)), quant=True)


def arbitrary(ex, cls, fn):
    o = Int('object')
    ex.assume(And(o > 0, o < ex.alloc0))
    for f in ('m_connection', 'm_jsonClient'):
        p = iv(ex.load(ex.getf(o, cls, f, T_PTR)))
        ex.assume(And(p >= 0, p < ex.alloc0, p != o))
    ex.assume(Implies(conn(ex, o, cls) != 0, conn(ex, o, cls) != jc(ex, o, cls)))
    if cls == SS:
        m = HashV(Const('K_dom', ArraySort(IntSort(), BoolSort())), Const('K_val', ArraySort(IntSort(), IntSort())), Int('K_cnt'), U16, T_SOCKS[2][1])
        ex.assume(Int('K_cnt') >= 0)
        ex.setf(o, SS, 'm_tunnelProxySockets', T_SOCKS, m)
    assume_sinv(ex, o, cls)
    if fn is not None:
        enter(ex, fn, o)
    ex.ghost['o'], ex.ghost['cls'] = o, cls
    ex.setf(o, 'ghost', 'undisturbed', T_BOOL, BoolVal(True))
    if cls == SS:
        m = socks(ex, o)
        ex.setf(o, 'ghost', 'closed', T_SOCKS, HashV(z3.K(IntSort(), BoolVal(False)), m.val, IntVal(0), m.kt, m.vt))
    if cls == SS:
        ex.assume(timer(ex, o, 'm_reconnectTimer') != timer(ex, o, 'm_keepAliveTimer'))
        for a in dec.base_ax():
            ex.assume(a)
    return o


def rely(ex):
    """the application or the transport acted: nothing relevant happened, or the connection is gone
    (and a new one may be on its way)"""
    o, cls = ex.ghost.get('o'), ex.ghost.get('cls')
    if o is None:
        return BoolVal(True)
    b = ex.fresh('undisturbed', BoolSort())
    ex.setf(o, 'ghost', 'undisturbed', T_BOOL, And(undist_of(ex, o), b))
    for f, t in (('m_state', I32), ('m_connection', T_PTR), ('m_jsonClient', T_PTR)):
        old = iv(ex.load(ex.getf(o, cls, f, t)))
        new = ex.fresh('later_' + f, IntSort())
        if t == T_PTR:
            ex.assume(And(new >= 0, new < ex.alloc0 + ex.nalloc, new != o))
        else:
            ex.assume(Or(new == CONNECTING, new == LOOKUP, new == CLOSING, new == DOWN))
        ex.setf(o, cls, f, t, If(b, old, new))
    for f in STRS:
        old = ex.load(ex.getf(o, cls, f, T_STR))
        ex.setf(o, cls, f, T_STR, If(b, old, ex.fresh('later_' + f, Str)))
    if cls == SS:
        m = socks(ex, o)
        d, n = ex.fresh('later_socks', m.dom.sort()), ex.fresh('later_nsocks', IntSort())
        ex.assume(And(d == If(b, m.dom, z3.K(IntSort(), BoolVal(False))), n == If(b, iv(m.cnt), IntVal(0))))
        ex.setf(o, SS, 'm_tunnelProxySockets', T_SOCKS, HashV(d, m.val, n, m.kt, m.vt))
        for f in ('m_enabled', 'm_running'):
            old = ex.tobool(ex.getf(o, SS, f, T_BOOL))
            new = ex.fresh('later_' + f, BoolSort()) if f == 'm_enabled' else BoolVal(False)
            ex.setf(o, SS, f, T_BOOL, If(b, old, new))
        for f in ('m_reconnectTimer', 'm_keepAliveTimer'):
            t = timer(ex, o, f)
            QT.timer_set(ex, t, 'active', If(b, b2(QT.timer_get(ex, t, 'active')), ex.fresh('later_timer', BoolSort())))
        old = buf(ex, o)
        ex.setf(o, SS, 'm_dataBuffer', T_BA, BA(If(b, old, ex.fresh('later_buffer', Bytes))))
        s = st(ex, o, cls)
        ex.assume(Implies(Not(b), Implies(And(s == DOWN, enabled(ex, o)), ticking(ex, o))))
    ex.assume((conn(ex, o, cls) == 0) == (jc(ex, o, cls) == 0))
    return b


def on_emit(ex, q, this, vals):
    o, cls = ex.ghost.get('o'), ex.ghost.get('cls')
    if o is None:
        return
    e = ex.log[-1]
    nm = sname(e)
    e.a['state'] = st(ex, o, cls)
    e.a['conn'] = conn(ex, o, cls)
    if cls == SS:
        e.a['socks'] = socks(ex, o)
    tags = ('C19',) if cls == RC else ('C22',)
    if same_obj(this, o):
        if nm == 'stateChanged':
            ex.oblige('a reported state is the state in effect', iv(ex.load(vals[0])) == st(ex, o, cls), tags)
        elif nm == 'remoteConnectedChanged':
            ex.oblige('a reported connection change names the state in effect', ex.tobool(ex.load(vals[0])) == (st(ex, o, cls) == UP), tags)
        elif nm == 'runningChanged':
            ex.oblige('a reported running state is the one in effect', ex.tobool(ex.load(vals[0])) == (st(ex, o, cls) == UP), tags)
        e.a['same'] = rely(ex)
    elif nm in ('dataReceived', 'connectedChanged', 'disconnected'):
        e.a['same'] = rely(ex)


def step(name, effect=True, res=None):
    """operation of the connection or of the JSON client; it may run slots of the object and the application"""
    def f(ex, this, args, node):
        e = Event('Step', name=name, obj=this, args=[ex.load(a) for a in args])
        if ex.ghost.get('o') is not None:
            e.a['state'] = st(ex, ex.ghost['o'], ex.ghost['cls'])
            if ex.ghost['cls'] == SS:
                e.a.update(enabled=enabled(ex, ex.ghost['o']), ticking=ticking(ex, ex.ghost['o']))
        ex.log.append(e)
        if effect:
            e.a['same'] = rely(ex)
        if res is not None:
            return res(ex)
        return None
    return Fn(f)


def new_reply(ex):
    r = ex.fresh('reply', IntSort())
    ex.assume(And(r > 0, r < ex.alloc0 + ex.nalloc))
    return r


def c_response(ex, this, args, node):
    return unpack(uf('response_of', [iv(this)], zsort(T_MAP)), T_MAP)


def ctor_of(cls):
    def f(ex, this, args, node):
        ex.log.append(Event('Step', name='create ' + cls.split('::')[-1], obj=this, args=[ex.load(a) for a in args]))
    return Fn(f)


CON = {PC + '::connectServer': step('connectServer'), PC + '::disconnectServer': step('disconnectServer'), PC + '::sendData': step('sendData', effect=False),
       PC + '::ignoreSslErrors': step('ignoreSslErrors', effect=False), PC + '::serverUrl': Fn(lambda ex, this, args, node: Opaque(('cls', 'QUrl'), uf('url_of', [iv(this)], IntSort()))),
       JC + '::callHello': step('callHello', effect=False, res=new_reply), JC + '::callRegisterClient': step('callRegisterClient', effect=False, res=new_reply),
       JC + '::callRegisterServer': step('callRegisterServer', effect=False, res=new_reply), JC + '::callDisconnectClient': step('callDisconnectClient', effect=False, res=new_reply),
       JC + '::callPing': step('callPing', effect=False, res=new_reply),
       JR + '::response': Fn(c_response), JR + '::commandId': Fn(lambda ex, this, args, node: uf('id_of', [iv(this)], IntSort())),
       TCPC + '::TcpSocketConnection': ctor_of(TCPC), WSC + '::WebSocketConnection': ctor_of(WSC), JC + '::JsonRpcClient': ctor_of(JC)}


def c_take(ex, this, args, node):
    d = unpack(ex.fresh('buffered', zsort(T_BA)), T_BA)
    ex.log.append(Event('Step', name='takeBufferedData', obj=this, args=[], res=d))
    return d


CON[JC + '::takeBufferedData'] = Fn(c_take)


def c_handled(name):
    def f(ex, this, args, node):
        """JsonRpcClient::processData, or the data slot itself: any reply may finish in there, so the
        registration may get on; a connection that was lost is not back at once: still up means never down"""
        o, cls = ex.ghost.get('o'), ex.ghost.get('cls')
        e = Event('Step', name=name, obj=this, args=[ex.load(a) for a in args])
        ex.log.append(e)
        if o is None:
            return None
        s0, c0, j0 = st(ex, o, cls), conn(ex, o, cls), jc(ex, o, cls)
        e.a['state'] = s0
        if cls == SS:
            b0, en0 = buf(ex, o), enabled(ex, o)
            e.a['socks'] = socks(ex, o)
            e.a['buf'] = b0
        for f, t in (('m_state', I32), ('m_connection', T_PTR), ('m_jsonClient', T_PTR)):
            new = ex.fresh('later_' + f, IntSort())
            if t == T_PTR:
                ex.assume(And(new >= 0, new < ex.alloc0 + ex.nalloc, new != o))
            ex.setf(o, cls, f, t, new)
        for f in STRS:
            ex.setf(o, cls, f, T_STR, ex.fresh('later_' + f, Str))
        if cls == SS:
            ex.setf(o, SS, 'm_tunnelProxySockets', T_SOCKS, ex.havoc_value(T_SOCKS, 'socks'))
            ex.harr(TS, 'm_socketAddress', U16)
            ex.heap[(TS, 'm_socketAddress')] = ex.fresh('addrs', ArraySort(IntSort(), IntSort()))
            for f in ('m_enabled', 'm_running'):
                ex.setf(o, SS, f, T_BOOL, ex.fresh('later_' + f, BoolSort()))
            for f in ('m_reconnectTimer', 'm_keepAliveTimer'):
                QT.timer_set(ex, timer(ex, o, f), 'active', ex.fresh('later_timer', BoolSort()))
            b1 = ex.fresh('later_buffer', Bytes)
            ex.setf(o, SS, 'm_dataBuffer', T_BA, BA(b1))
            b = ex.fresh('undisturbed', BoolSort())
            ex.setf(o, 'ghost', 'undisturbed', T_BOOL, And(undist_of(ex, o), b))
            ex.assume(Implies(And(b, s0 == UP), And(st(ex, o, cls) == UP, enabled(ex, o) == en0)))
            still = And(s0 == UP, st(ex, o, cls) == UP)
            ex.assume(Implies(still, And(jc(ex, o, cls) == j0, conn(ex, o, cls) == c0)))
            if name == 'processData':
                ex.assume(Implies(still, b1 == b0))
        assume_sinv(ex, o, cls)
        return None
    return Fn(f)


CON[JC + '::processData'] = c_handled('processData')


def steps(ex, *names):
    return [e for e in ex.log if e.kind == 'Step' and (not names or e.name in names)]


def own_emits(ex, o, *names):
    return [e for e in ex.log if e.kind == 'Emit' and same_obj(e.obj, o) and (not names or sname(e) in names)]


def cut_off(ex, c, o):
    """no signal of c reaches o any more"""
    def none(x):
        return isinstance(x, (int, str)) and not x or z3.is_expr(x) and z3.is_int_value(z3.simplify(x)) and z3.simplify(x).as_long() == 0 or isinstance(x, CStr) and not x.b
    out = []
    for e in ex.log:
        a = [ex.load(x) for x in e.args] if e.kind in ('Disconnect', 'QtCall') else []
        if e.kind == 'Disconnect' and len(a) == 4 and all(none(x) for x in (a[1], a[3])):
            out.append(And(iv(a[0]) == c, Or(iv(a[2]) == o, iv(a[2]) == 0)))
        elif e.kind == 'QtCall' and e.name == 'blockSignals':
            out.append(And(iv(e.obj) == c, b2(ex.tobool(a[0]))))
        elif e.kind == 'Delete':
            out.append(iv(e.ref) == c)
    return Or(*out) if out else BoolVal(False)


def undist_of(ex, o): return ex.tobool(ex.getf(o, 'ghost', 'undisturbed', T_BOOL))


def undisturbed(ex):
    """so far nothing that the application or the transport did closed the connection"""
    return undist_of(ex, ex.ghost['o'])


def never_up(ex, o, cls, s0, what):
    ex.oblige(what + ' does not make the connection usable', Implies(s0 != UP, st(ex, o, cls) != UP), OWN[cls])
    for e in own_emits(ex, o, 'stateChanged'):
        ex.oblige(what + ' does not report the connection as usable', Implies(s0 != UP, iv(ex.load(e.args[0])) != UP), OWN[cls])
    for e in ex.log:
        if e.kind == 'SetState':
            ex.oblige(what + ' does not report the connection as usable', Implies(s0 != UP, e.to != UP), OWN[cls])
    for e in own_emits(ex, o, 'dataReady'):
        ex.oblige(what + ' hands no data to the application', False, ('C19',), detail=str(e)[:200])


def vget(ex, m, key):
    return core.vmap_get(ex, m, key)


def text_is(ex, var, s):
    return QT.as_str(ex, QT.vout(ex, var, 'String')) == StringVal(s) if False else core.str_is(var, s)


def success(ex, resp):
    """the reply carries status "success" """
    d, v = vget(ex, resp, 'status')
    return d, v


def verify(g, q, body, contracts=None, **opt):
    c = dict(CON)
    c.update(contracts or {})
    g.verify(q, body, c, on_emit=on_emit, **opt)


def both(name, fns, props_rc, props_ss):
    """the same contract for both classes"""
    def deco(f):
        def mk_(cls, short, props):
            @task(short + '_' + name, props, [short + '::' + x for x in fns], prog='client')
            def t(g):
                f(g, cls, short)
        mk_(RC, 'TunnelProxyRemoteConnection', props_rc)
        mk_(SS, 'TunnelProxySocketServer', props_ss)
    return deco


@both('onConnectionChanged', ['onConnectionChanged', 'cleanUp', 'setState'], ['C19'], ['C22', 'C18'])
def t_changed(g, cls, short):
    def lost(ex):
        fn = need_fn(g, cls + '::onConnectionChanged', 1)
        o = arbitrary(ex, cls, fn)
        c0, j0, s0 = conn(ex, o, cls), jc(ex, o, cls), st(ex, o, cls)
        ex.assume(c0 != 0)          # called by the connection in use
        en0 = enabled(ex, o) if cls == SS else None
        m0 = socks(ex, o) if cls == SS else None
        ex.call_fn(fn, o, argvals=[BoolVal(False)])
        u = undisturbed(ex)
        T = OWN[cls]
        ex.oblige('a lost connection leads back to the initial state', Implies(u, And(st(ex, o, cls) == DOWN, conn(ex, o, cls) == 0, jc(ex, o, cls) == 0)), T)
        for f in STRS:
            ex.oblige('a lost connection forgets the server it was connected to', Implies(u, ex.load(ex.getf(o, cls, f, T_STR)) == StringVal('')), T, detail=f)
        never_up(ex, o, cls, s0, 'losing the connection')
        es = own_emits(ex, o, 'stateChanged') if cls == RC else [e for e in ex.log if e.kind == 'SetState']
        ex.oblige('the loss is reported', Implies(And(u, s0 != DOWN), BoolVal(len(es) >= 1)), T)
        gone = [e for e in ex.log if e.kind == 'DeleteLater']
        ex.oblige('an abandoned connection is destroyed', Implies(u, Or(*[iv(e.obj) == c0 for e in gone]) if gone else BoolVal(False)), T)
        ex.oblige('an abandoned connection can not disturb its successor', Implies(u, cut_off(ex, c0, o)), T + ('C22',))
        ex.oblige('nothing is asked of the lost connection', not steps(ex), T, detail=str(steps(ex))[:200])
        if cls == SS:
            ex.oblige('losing the connection does not disable the server', Implies(u, enabled(ex, o) == en0), T)
            all_gone(ex, o, m0, 'losing the connection')
        prove_sinv(ex, o, cls, 'losing the connection')

    def up(ex):
        fn = need_fn(g, cls + '::onConnectionChanged', 1)
        o = arbitrary(ex, cls, fn)
        c0, j0, s0 = conn(ex, o, cls), jc(ex, o, cls), st(ex, o, cls)
        ex.assume(And(c0 != 0, s0 != UP))
        ex.call_fn(fn, o, argvals=[BoolVal(True)])
        u = undisturbed(ex)
        T = OWN[cls]
        never_up(ex, o, cls, s0, 'an established connection')
        ss = steps(ex)
        ex.oblige('an established connection starts the handshake', Implies(u, And(BoolVal(len(ss) == 1 and ss[0].name == 'callHello'), iv(ss[0].obj) == j0 if ss else BoolVal(False), st(ex, o, cls) == INIT)), T, detail=str(ss)[:200])
        ex.oblige('the handshake is the only thing sent', all(x.name == 'callHello' for x in ss) and len(ss) <= 1, T)
        if ss:
            n = len(ex.conns)
            h = [e for e in ex.conns if sigkey(e.sig) == 'finished' and isinstance(e.handler, FnRef)]
            ex.oblige('the answer to the handshake is handled', len(h) == 1 and h[0].handler.q.endswith('onHelloFinished'), T, detail=str(ex.conns)[:200])
        prove_sinv(ex, o, cls, 'an established connection')
    verify(g, cls + '::onConnectionChanged', lost, LOOPC if cls == SS else {}, **(LOOPO if cls == SS else {}))
    verify(g, cls + '::onConnectionChanged', up, SETSTATE if cls == SS else {})


CT = {'WebSocket': 0, 'TcpSocket': 1}


def c_setState(ex, this, args, node):
    """setState of the socket server (proved in TunnelProxySocketServer_setState)"""
    o = ex.ghost['o']
    if not ex.prove(iv(this) == o):
        raise ToolLimit('setState of another object')
    to, old = iv(ex.load(args[0])), st(ex, o, SS)
    ex.ghost['n_set'] = ex.ghost.get('n_set', 0) + 1
    ch = old != to
    ex.setf(o, SS, 'm_state', I32, to)
    ex.log.append(Event('SetState', to=to, changed=ch))
    snap = {}
    en = enabled(ex, o)
    b = rely(ex)
    ex.assume(Implies(Not(ch), b))
    on = lambda new, oldv: If(And(b, ch), new, oldv)
    ex.setf(o, SS, 'm_running', T_BOOL, on(to == UP, running(ex, o)))
    r, k = timer(ex, o, 'm_reconnectTimer'), timer(ex, o, 'm_keepAliveTimer')
    QT.timer_set(ex, r, 'active', on(Or(And(to == DOWN, en), ticking(ex, o)), ticking(ex, o)))
    QT.timer_set(ex, k, 'active', on(ex.fresh('keepalive', BoolSort()), ticking(ex, o, 'm_keepAliveTimer')))
    return None


def c_gone(ex, this, args, node):
    """onTunnelProxyClientDisconnected (proved in TunnelProxySocketServer_sockets)"""
    o = ex.ghost['o']
    a = iv(ex.load(args[0]))
    m = socks(ex, o)
    ex.log.append(Event('SocketGone', addr=a, known=ex.sel(m.dom, a)))
    g = closed(ex, o)
    ex.setf(o, 'ghost', 'closed', T_SOCKS, HashV(Store(g.dom, a, BoolVal(True)), g.val, g.cnt, g.kt, g.vt))
    ex.setf(o, SS, 'm_tunnelProxySockets', T_SOCKS, HashV(Store(m.dom, a, BoolVal(False)), m.val, iv(m.cnt) - If(ex.sel(m.dom, a), IntVal(1), IntVal(0)), m.kt, m.vt))
    rely(ex)


def server_fields(ex, o):
    return [st(ex, o, SS), conn(ex, o, SS), jc(ex, o, SS), enabled(ex, o), running(ex, o), ticking(ex, o), socks(ex, o).val]


def loop_cands(ex, L, snap, views):
    o = ex.ghost['o']
    f0 = server_fields(ex, o)
    d0, u0 = socks(ex, o).dom, undist_of(ex, o)
    k0 = Int('lk')
    out = [('undisturbed before, too', lambda e, k: Implies(undist_of(e, o), u0)),
           ('disturbed: not usable', lambda e, k: Or(undist_of(e, o) == u0, Or(*[st(e, o, SS) == x for x in (CONNECTING, LOOKUP, CLOSING, DOWN)]))),
           ('disturbed: timer', lambda e, k: Or(undist_of(e, o) == u0, Implies(And(st(e, o, SS) == DOWN, enabled(e, o)), ticking(e, o)))),
           ('timer', lambda e, k: Implies(And(st(e, o, SS) == DOWN, enabled(e, o)), ticking(e, o))),
           ('not usable', lambda e, k: And(st(e, o, SS) >= 0, st(e, o, SS) <= 7, st(e, o, SS) != UP, st(e, o, SS) != INIT, st(e, o, SS) != REGISTER)),
           ('not disturbed by now', lambda e, k: undist_of(e, o) == u0),
           ('connection and JSON client together', lambda e, k: (conn(e, o, SS) == 0) == (jc(e, o, SS) == 0)),
           ('pointers', lambda e, k: And(conn(e, o, SS) >= 0, jc(e, o, SS) >= 0, conn(e, o, SS) != o, jc(e, o, SS) != o)),
           ('only sockets of before', lambda e, k: ForAll([k0], Implies(e.sel(socks(e, o).dom, k0), e.sel(d0, k0))), True),
           ('sockets unchanged', lambda e, k: socks(e, o).val == f0[-1])]
    g0 = closed(ex, o).dom
    out.append(('every socket is closed or still known', lambda e, k: ForAll([k0], Implies(undist_of(e, o), Implies(Or(e.sel(d0, k0), e.sel(g0, k0)), Or(e.sel(closed(e, o).dom, k0), e.sel(socks(e, o).dom, k0))))), True))
    for f in list(ex.ghost.get('seqfacts', {}).values()):
        if f[0] == 'keys' and f[1].dom.sort() == d0.sort():
            ks = f[2]
            out.append(('the first k sockets are closed', lambda e, k, ks=ks: ForAll([k0], Implies(And(undist_of(e, o), k0 >= 0, k0 < k, k0 < Length(ks)), e.sel(closed(e, o).dom, ks[k0]))), True))
    for n, nm in enumerate(('state', 'connection', 'json client', 'enabled', 'running', 'reconnect timer')):
        out.append(('undisturbed: same ' + nm, lambda e, k, n=n: Implies(undist_of(e, o), server_fields(e, o)[n] == f0[n])))
    return out


def closed(ex, o):
    """ghost: the addresses that were handed to onTunnelProxyClientDisconnected so far"""
    return ex.load(ex.getf(o, 'ghost', 'closed', T_SOCKS))


def on_iter_gone(ex, L, k, seqinfo, log, post):
    evs = [e for e in log if e.kind not in ('New', 'Connect')]
    ex.oblige('closing the sockets does nothing else', all(e.kind in ('SocketGone', 'LoopSeg') for e in evs), ('C22', 'C18'), detail=str(evs)[:200])


def all_gone(ex, o, m0, what):
    """every socket of before was closed"""
    a = ex.fresh('any', IntSort())
    here = ex.sel(m0.dom, a)
    for f in list(ex.ghost.get('seqfacts', {}).values()):
        if f[0] == 'keys' and f[1].dom.sort() == m0.dom.sort():
            QT.key_fact(ex, f[1], a)
    ex.oblige(what + ' closes all sockets', Implies(And(undisturbed(ex), here), ex.sel(closed(ex, o).dom, a)), ('C22',))


LOOPC = {}
LOOPO = dict(loop_cands=loop_cands, on_iter=on_iter_gone)
SETSTATE = {SS + '::setState': Fn(c_setState)}
LOOPC = {**SETSTATE, SS + '::onTunnelProxyClientDisconnected': Fn(c_gone)}


# ---------------------------------------------------------------- replies
def vtext(ex, m, key):
    d, v = vget(ex, m, key)
    return QT.vout(ex, If(d, v, VNULL), 'String')


def vsub(ex, m, key):
    d, v = vget(ex, m, key)
    return unpack(QT.vout(ex, If(d, v, VNULL), 'Map'), T_MAP)


def reply_in(ex, o):
    """the reply whose finished() runs the slot: it belongs to the connection in use (a JSON client only
    handles packets of its own connection, and an abandoned connection is cut off)"""
    r = Int('reply')
    ex.assume(And(r > 0, r < ex.alloc0, r != o))
    ex.sender = r
    return r, unpack(uf('response_of', [r], zsort(T_MAP)), T_MAP)


def closes(ex, c0, what, T):
    d = steps(ex, 'disconnectServer')
    ex.oblige(what + ' closes the connection', And(BoolVal(len(d) >= 1), *[iv(e.obj) == c0 for e in d]), T, detail=str(steps(ex))[:200])


def no_relaxing(ex):
    ex.oblige('TLS errors are not ignored by the library itself', not steps(ex, 'ignoreSslErrors'), ('C21',))


@both('onHelloFinished', ['onHelloFinished', 'setState'], ['C19', 'C21'], ['C22', 'C21'])
def t_hello(g, cls, short):
    T = OWN[cls]

    def body(ex):
        fn = need_fn(g, cls + '::onHelloFinished', 0)
        o = arbitrary(ex, cls, fn)
        c0, j0, s0 = conn(ex, o, cls), jc(ex, o, cls), st(ex, o, cls)
        ex.assume(And(c0 != 0, s0 != UP))
        en0 = enabled(ex, o) if cls == SS else None
        r, resp = reply_in(ex, o)
        ok = vtext(ex, resp, 'status') == StringVal('success')
        ex.call_fn(fn, o, argvals=[])
        u = undisturbed(ex)
        never_up(ex, o, cls, s0, 'the answer to the handshake')
        no_relaxing(ex)
        ss = steps(ex)
        reg = 'callRegisterClient' if cls == RC else 'callRegisterServer'
        names = [e.name for e in ss]
        ex.oblige('after a failed handshake nothing is registered', Implies(Not(ok), BoolVal(reg not in names)), T, detail=str(names))
        if 'disconnectServer' in names:
            ex.oblige('only a failed handshake closes the connection', Not(ok), T)
        else:
            ex.oblige('a failed handshake closes the connection', ok, T)
        for e in ss:
            ex.oblige('the connection in use is closed or used', And(Or(*[BoolVal(e.name == n) for n in ('disconnectServer', reg)]), Implies(BoolVal(e.name == 'disconnectServer'), iv(e.obj) == c0)), T, detail=str(e)[:200])
        if ok is not None:
            rg = [e for e in ss if e.name == reg]
            ex.oblige('a successful handshake is followed by the registration, once', Implies(And(ok, u), And(BoolVal(len(rg) == 1), iv(rg[0].obj) == j0, st(ex, o, cls) == REGISTER) if rg else BoolVal(False)), T, detail=str(names))
            if rg:
                p = vsub(ex, resp, 'params')
                for f, k in zip(STRS, ('server', 'name', 'version', 'apiVersion')):
                    ex.oblige('the proxy is described as it described itself', Implies(u, ex.load(ex.getf(o, cls, f, T_STR)) == vtext(ex, p, k)), T, detail=f)
                a = rg[0].args
                own = [('m_clientUuid', T_UUID), ('m_clientName', T_STR), ('m_serverUuid', T_UUID)] if cls == RC else [('m_serverUuid', T_UUID), ('m_serverName', T_STR)]
                for x, (f, t) in zip(a, own):
                    ex.oblige('the registration carries the own name and id', (iv(x) if t == T_UUID else x) == (iv(ex.load(ex.getf(o, cls, f, t))) if t == T_UUID else ex.load(ex.getf(o, cls, f, t))), T, detail=f)
                h = [e for e in ex.conns if sigkey(e.sig) == 'finished' and isinstance(e.handler, FnRef)]
                ex.oblige('the answer to the registration is handled', len(h) == 1 and h[0].handler.q.endswith('RegistrationFinished'), T, detail=str(ex.conns)[:200])
        if cls == SS:
            ex.oblige('the handshake does not enable or disable the server', Implies(u, enabled(ex, o) == en0), T)
        prove_sinv(ex, o, cls, 'the answer to the handshake')
    verify(g, cls + '::onHelloFinished', body, SETSTATE if cls == SS else {})


def t_registered(g, cls, short, slot):
    T = OWN[cls]

    def body(ex):
        fn = need_fn(g, cls + '::' + slot, 0)
        o = arbitrary(ex, cls, fn)
        c0, j0, s0 = conn(ex, o, cls), jc(ex, o, cls), st(ex, o, cls)
        ex.assume(And(c0 != 0, s0 != UP))
        en0 = enabled(ex, o) if cls == SS else None
        if cls == SS:
            # replies only finish while JSON data is handled, and the data slot starts that with an empty buffer
            ex.assume(Length(buf(ex, o)) == 0)
        r, resp = reply_in(ex, o)
        ok = And(vtext(ex, resp, 'status') == StringVal('success'), vtext(ex, vsub(ex, resp, 'params'), 'tunnelProxyError') == StringVal('TunnelProxyErrorNoError'))
        ex.call_fn(fn, o, argvals=[])
        u = undisturbed(ex)
        no_relaxing(ex)
        ss = steps(ex)
        names = [e.name for e in ss]
        ex.oblige('only a successful registration makes the connection usable', Implies(st(ex, o, cls) == UP, ok), T)
        for e in own_emits(ex, o, 'stateChanged') + [x for x in ex.log if x.kind == 'SetState']:
            v = iv(ex.load(e.args[0])) if e.kind == 'Emit' else e.to
            ex.oblige('only a successful registration is reported as usable', Implies(v == UP, ok), T)
        ex.oblige('a successful registration makes the connection usable', Implies(And(ok, u), st(ex, o, cls) == UP), T)
        if 'disconnectServer' in names:
            ex.oblige('only a failed registration closes the connection', Not(ok), T)
        else:
            ex.oblige('a failed registration closes the connection', ok, T)
        for e in ss:
            ex.oblige('the connection in use is closed or used', Or(And(BoolVal(e.name == 'disconnectServer'), iv(e.obj) == c0), And(BoolVal(e.name == 'takeBufferedData'), iv(e.obj) == j0), BoolVal(e.name == 'onConnectionDataAvailable')), T, detail=str(e)[:200])
        tk = [e for e in ss if e.name == 'takeBufferedData']
        if cls == RC:
            dr = own_emits(ex, o, 'dataReady')
            pass_on = [(e.a['state'], ex.load(e.args[0]).s) for e in dr]
        else:
            pass_on = [(e.a['state'], e.args[0].s) for e in ss if e.name == 'onConnectionDataAvailable']
        D = ('C19',) if cls == RC else ('C18',)
        ex.oblige('data that followed the answer is passed on at most once', len(pass_on) <= 1, D)
        for s_, d in pass_on:
            ex.oblige('data that followed the answer is passed on once the registration succeeded', And(ok, s_ == UP), D)
            ex.oblige('data that followed the answer is passed on unchanged', d == tk[0].res.s if len(tk) == 1 else False, D)
        if not pass_on:
            ex.oblige('data that followed the answer is not lost', Implies(And(ok, u), And(BoolVal(len(tk) == 1), Length(tk[0].res.s) == 0) if tk else BoolVal(False)), D)
        if cls == SS:
            ex.oblige('the registration does not enable or disable the server', Implies(u, enabled(ex, o) == en0), T)
        prove_sinv(ex, o, cls, 'the answer to the registration')
    c = {} if cls == RC else dict(SETSTATE)
    if cls == SS:
        c[SS + '::onConnectionDataAvailable'] = c_handled('onConnectionDataAvailable')
    verify(g, cls + '::' + slot, body, c)


@task('TunnelProxyRemoteConnection_registered', ['C19', 'C21'], ['TunnelProxyRemoteConnection::onClientRegistrationFinished', 'TunnelProxyRemoteConnection::setState'], prog='client')
def t_rc_registered(g):
    t_registered(g, RC, 'TunnelProxyRemoteConnection', 'onClientRegistrationFinished')


@task('TunnelProxyRemoteConnection_data', ['C19', 'C21'], ['TunnelProxyRemoteConnection::onConnectionDataAvailable'], prog='client')
def t_rc_data(g):
    def body(ex):
        fn = need_fn(g, RC + '::onConnectionDataAvailable', 1)
        o = arbitrary(ex, RC, fn)
        c0, j0, s0 = conn(ex, o, RC), jc(ex, o, RC), st(ex, o, RC)
        ex.assume(c0 != 0)
        data = unpack(Const('data', zsort(T_BA)), T_BA)
        ex.call_fn(fn, o, argvals=[data])
        T = ('C19',)
        ss, dr = steps(ex), own_emits(ex, o, 'dataReady')
        ex.oblige('received data is used once', len(ss) + len(dr) == 1 and all(e.name == 'processData' for e in ss), T, detail=str(ss + dr)[:200])
        no_relaxing(ex)
        for e in dr:
            ex.oblige('data is handed to the application only after a successful registration', s0 == UP, T)
            ex.oblige('data is handed to the application unchanged', ex.load(e.args[0]).s == data.s, T)
        for e in ss:
            ex.oblige('data of the registered connection goes to the application', s0 != UP, T)
            ex.oblige('data before the registration goes to the JSON client, unchanged', And(iv(e.obj) == j0, e.args[0].s == data.s) if e.args else False, T)
        ex.oblige('nothing else is reported', len(own_emits(ex, o)) == len(dr), T)
        prove_sinv(ex, o, RC, 'received data')
    verify(g, RC + '::onConnectionDataAvailable', body)


@both('socketState', ['onConnectionStateChanged', 'onConnectionSocketError', 'setState', 'setError'], ['C19', 'C21'], ['C22', 'C21'])
def t_socket_state(g, cls, short):
    T = OWN[cls]

    def change(ex):
        fn = need_fn(g, cls + '::onConnectionStateChanged', 1)
        o = arbitrary(ex, cls, fn)
        c0, j0, s0 = conn(ex, o, cls), jc(ex, o, cls), st(ex, o, cls)
        ex.assume(c0 != 0)
        state = Int('socket_state')
        ex.assume(And(state >= 0, state <= 6))
        # a registered connection is not reported as connected once more
        ex.assume(Implies(state == 3, s0 != UP))
        en0 = enabled(ex, o) if cls == SS else None
        ex.call_fn(fn, o, argvals=[state])
        u = undisturbed(ex)
        never_up(ex, o, cls, s0, 'a change of the socket')
        no_relaxing(ex)
        ex.oblige('a lost connection leads back to the initial state', Implies(And(u, state == 0), st(ex, o, cls) == DOWN), T)
        ex.oblige('only a lost connection leads to the initial state', Implies(And(u, state != 0, s0 != DOWN), st(ex, o, cls) != DOWN), T)
        ex.oblige('a change of the socket asks nothing of the connection', not steps(ex), T, detail=str(steps(ex))[:200])
        if cls == SS:
            ex.oblige('a change of the socket does not enable or disable the server', Implies(u, enabled(ex, o) == en0), T)
        prove_sinv(ex, o, cls, 'a change of the socket')

    def error(ex):
        fn = need_fn(g, cls + '::onConnectionSocketError', 1)
        o = arbitrary(ex, cls, fn)
        s0 = st(ex, o, cls)
        ex.assume(conn(ex, o, cls) != 0)
        code = Int('code')
        ex.call_fn(fn, o, argvals=[code])
        never_up(ex, o, cls, s0, 'an error of the socket')
        no_relaxing(ex)
        es = own_emits(ex, o)
        for e in es:
            ex.oblige('an error is reported as it is', And(BoolVal(sname(e) == 'errorOccurred'), iv(ex.load(e.args[0])) == code), T, detail=str(e)[:200])
        ex.oblige('an error is reported at most once', len(es) <= 1, T)
        ex.oblige('an error asks nothing of the connection', not steps(ex), T)
        prove_sinv(ex, o, cls, 'an error of the socket')
    verify(g, cls + '::onConnectionStateChanged', change, SETSTATE if cls == SS else {})
    verify(g, cls + '::onConnectionSocketError', error, SETSTATE if cls == SS else {})


# ---------------------------------------------------------------- API
WIRES = {'connectedChanged': 'onConnectionChanged', 'dataReceived': 'onConnectionDataAvailable', 'errorOccurred': 'onConnectionSocketError',
         'stateChanged': 'onConnectionStateChanged', 'sslErrors': 'sslErrors'}


def check_wiring(ex, o, cls, c, j):
    T = OWN[cls]
    for sig, slot in WIRES.items():
        h = [e for e in ex.conns if sigkey(e.sig) == sig and same_obj(e.sender, c)]
        tags = ('C21',) if sig == 'sslErrors' else T + (('C18',) if cls == SS else ())
        ok = len(h) == 1 and isinstance(h[0].handler, FnRef) and h[0].handler.q.split('::')[-1] == slot and same_obj(h[0].recv, o)
        if not ok and len(h) == 1 and isinstance(h[0].handler, Closure):
            ok = runs_slot(ex, h[0], o, cls, slot)
        ex.oblige('%s of the connection is handled by %s, once' % (sig, slot), ok, tags, detail=str([(e.sig, txt(e.handler)) for e in h])[:200])
    if cls == SS:
        for sig, slot in (('tunnelProxyClientConnected', 'onTunnelProxyClientConnected'), ('tunnelProxyClientDisonnected', 'onTunnelProxyClientDisconnected')):
            h = [e for e in ex.conns if sigkey(e.sig) == sig and same_obj(e.sender, j)]
            ok = len(h) == 1 and isinstance(h[0].handler, FnRef) and h[0].handler.q.split('::')[-1] == slot and same_obj(h[0].recv, o)
            ex.oblige('%s is handled by %s, once' % (sig, slot), ok, ('C18',), detail=str(h)[:200])


def runs_slot(ex, e, o, cls, slot):
    raise ToolLimit('handler of the connection is a lambda')


from specs.transports import txt


@task('TunnelProxyRemoteConnection_api', ['C19', 'C21'], ['TunnelProxyRemoteConnection::' + x for x in ('TunnelProxyRemoteConnection', 'connectServer', 'cleanUp', 'disconnectServer', 'sendData', 'ignoreSslErrors', 'remoteConnected', 'state')], prog='client')
def t_rc_api(g):
    T = ('C19',)

    def ctor(np):
        def f(ex):
            fn = g.prog.find_fn(RC + '::TunnelProxyRemoteConnection', np)
            if fn is None or fn.nparams != np:
                raise ToolLimit('constructor')
            o = Int('object')
            ex.assume(And(o > 0, o < ex.alloc0))
            ex.this_cls = RC
            ex.call_fn(fn, o, argvals=[Int('uuid'), z3.String('name')] + [Int('type')] * (np - 3) + [Int('parent')], is_ctor=True)
            ex.oblige('a new connection is in the initial state', And(st(ex, o, RC) == DOWN, conn(ex, o, RC) == 0, jc(ex, o, RC) == 0), T)
        return f

    def connect(ex):
        fn = need_fn(g, RC + '::connectServer', 2)
        o = arbitrary(ex, RC, fn)
        c0, s0 = conn(ex, o, RC), st(ex, o, RC)
        ct = iv(ex.load(ex.getf(o, RC, 'm_connectionType', I32)))
        ex.assume(Or(ct == 0, ct == 1))
        url, su = Opaque(('cls', 'QUrl'), Int('url')), Int('serverUuid')
        n = len(ex.conns)
        r = ex.call_fn(fn, o, argvals=[url, su])
        u = undisturbed(ex)
        never_up(ex, o, RC, s0, 'connecting')
        no_relaxing(ex)
        ex.oblige('connecting is started', ex.tobool(ex.load(r)), T)
        ss = [e for e in steps(ex) if e.name.split()[0] != 'create']
        ex.oblige('the proxy is asked for a connection, once', len(ss) == 1 and ss[0].name == 'connectServer', T, detail=str(ss)[:200])
        ex.oblige('an abandoned connection can not disturb its successor', Implies(And(c0 != 0), cut_off(ex, c0, o)), T)
        prove_sinv(ex, o, RC, 'connecting')
        ex.oblige('the id of the wanted server is kept', iv(ex.load(ex.getf(o, RC, 'm_serverUuid', T_UUID))) == su, T)
        if len(ss) == 1 and ss[0].name == 'connectServer':
            e = ss[0]
            ex.oblige('the connection goes to the given address', e.args[0].e == url.e if isinstance(e.args[0], Opaque) else False, T)
            ex.oblige('the connection is a new one', Implies(c0 != 0, iv(e.obj) != c0), T)
            made = [x for x in ex.log if x.kind == 'New' and x.cls in (TCPC, WSC)]
            ok = [x for x in made if ex.prove(iv(e.obj) == x.ref)]
            ex.oblige('the connection is of the chosen type', And(*[BoolVal(x.cls == TCPC) == (ct == CT['TcpSocket']) for x in ok]) if len(ok) == 1 else False, T, detail=str(made)[:200])
            if len(ok) == 1:
                check_wiring(ex, o, RC, ok[0].ref, None)
                j = [x for x in ex.log if x.kind == 'Step' and x.name == 'create JsonRpcClient']
                ex.oblige('requests are sent on the new connection', And(BoolVal(len(j) == 1), iv(j[0].args[0]) == ok[0].ref) if j else False, T)
                ex.oblige('the new connection is the one in use', Implies(u, And(conn(ex, o, RC) == ok[0].ref, jc(ex, o, RC) == iv(j[0].obj) if j else BoolVal(False))), T)

    def disconnect(ex):
        fn = need_fn(g, RC + '::disconnectServer', 0)
        o = arbitrary(ex, RC, fn)
        c0, s0 = conn(ex, o, RC), st(ex, o, RC)
        ex.call_fn(fn, o, argvals=[])
        ss = steps(ex)
        ex.oblige('disconnecting closes the connection', Implies(c0 != 0, And(BoolVal(len(ss) >= 1 and all(e.name == 'disconnectServer' for e in ss)), *[iv(e.obj) == c0 for e in ss])), T)
        never_up(ex, o, RC, s0, 'disconnecting')
        prove_sinv(ex, o, RC, 'disconnecting')

    def send(ex):
        fn = need_fn(g, RC + '::sendData', 1)
        o = arbitrary(ex, RC, fn)
        c0, s0 = conn(ex, o, RC), st(ex, o, RC)
        data = unpack(Const('data', zsort(T_BA)), T_BA)
        r = ex.tobool(ex.load(ex.call_fn(fn, o, argvals=[data])))
        ss = steps(ex)
        ex.oblige('data is sent exactly if the connection is usable', And(r == (s0 == UP), BoolVal(len(ss) == 1 and ss[0].name == 'sendData') == r, BoolVal(len(ss) <= 1)), T, detail=str(ss)[:200])
        for e in ss:
            ex.oblige('data is sent unchanged on the connection', And(iv(e.obj) == c0, e.args[0].s == data.s) if e.args and isinstance(e.args[0], BA) else False, T)
        prove_sinv(ex, o, RC, 'sending')

    def queries(ex):
        o = arbitrary(ex, RC, None)
        s0 = st(ex, o, RC)
        fn = need_fn(g, RC + '::remoteConnected', 0)
        r = ex.tobool(ex.load(ex.call_fn(fn, o, argvals=[])))
        ex.oblige('the connection counts as usable exactly after a successful registration', r == (s0 == UP), T)
        fn = need_fn(g, RC + '::state', 0)
        ex.oblige('the state in effect is the one that is returned', iv(ex.load(ex.call_fn(fn, o, argvals=[]))) == s0, T)
    for np in (3, 4):
        verify(g, RC + '::TunnelProxyRemoteConnection', ctor(np))
    verify(g, RC + '::connectServer', connect)
    verify(g, RC + '::disconnectServer', disconnect)
    verify(g, RC + '::sendData', send)
    verify(g, RC + '::state', queries)


# ---------------------------------------------------------------- the socket server
def UNUSABLE(ex, url):
    return Or(Not(uf('qt_QUrl_isValid', [url.e], BoolSort())), uf('qt_QUrl_isEmpty', [url.e], BoolSort()))


def served(ex):
    """what happened, without bookkeeping"""
    return [e for e in ex.log if e.kind in ('Step', 'Emit', 'SocketGone', 'SetState', 'Delete', 'DeleteLater', 'LoopSeg')]


@task('TunnelProxySocketServer_setState', ['C22'], ['TunnelProxySocketServer::setState', 'TunnelProxySocketServer::setRunning'], prog='client')
def t_ss_set(g):
    T = ('C22',)

    def body(ex):
        fn = need_fn(g, SS + '::setState', 1)
        o = arbitrary(ex, SS, fn)
        s0, c0, j0, en0, run0, tick0, m0, b0 = st(ex, o, SS), conn(ex, o, SS), jc(ex, o, SS), enabled(ex, o), running(ex, o), ticking(ex, o), socks(ex, o), buf(ex, o)
        ex.assume(run0 == (s0 == UP))
        to = Int('to')
        ex.assume(And(to >= 0, to <= 7))
        ex.call_fn(fn, o, argvals=[to])
        u = undisturbed(ex)
        s1, m1 = st(ex, o, SS), socks(ex, o)
        ch = s0 != to
        sc = own_emits(ex, o, 'stateChanged')
        ex.oblige('a change of the state is reported exactly once', And(BoolVal(len(sc) == 1) == ch, BoolVal(len(sc) <= 1)), T, detail=str(ex.log)[:200])
        for e in sc:
            ex.oblige('the new state is reported', iv(ex.load(e.args[0])) == to, T)
        ex.oblige('no change is no event', Implies(Not(ch), And(BoolVal(not served(ex)), ticking(ex, o) == tick0, running(ex, o) == run0)), T, detail=str(served(ex))[:200])
        ex.oblige('the state is the requested one', Implies(u, s1 == to), T)
        ex.oblige('the server runs exactly in the running state', Implies(And(u, ch), running(ex, o) == (to == UP)), T)
        ex.oblige('losing the connection starts the reconnect timer of an enabled server', Implies(And(u, ch), ticking(ex, o) == Or(And(to == DOWN, en0), tick0)), T)
        ex.oblige('a change of the state leaves everything else as it is', Implies(u, And(conn(ex, o, SS) == c0, jc(ex, o, SS) == j0, enabled(ex, o) == en0, m1.dom == m0.dom, m1.val == m0.val, buf(ex, o) == b0)), T)
        ex.oblige('a restarted or stopped server is not usable', Implies(Not(u), And(Or(*[s1 == x for x in (CONNECTING, LOOKUP, CLOSING, DOWN)]), Not(running(ex, o)))), T)
        ex.oblige('a server that lost its connection while it is enabled has its reconnect timer running', Implies(And(s1 == DOWN, enabled(ex, o), Or(ch, Not(u))), ticking(ex, o)), T)
        ex.oblige('a change of the state asks nothing of the connection', not [e for e in served(ex) if e.kind != 'Emit'], T, detail=str(served(ex))[:200])
        ex.oblige('only changes of the state are reported', all(sname(e) in ('stateChanged', 'runningChanged') and same_obj(e.obj, o) for e in ex.log if e.kind == 'Emit'), T)
    verify(g, SS + '::setState', body)


@task('TunnelProxySocketServer_registered', ['C22', 'C18', 'C21'], ['TunnelProxySocketServer::onServerRegistrationFinished'], prog='client')
def t_ss_registered(g):
    t_registered(g, SS, 'TunnelProxySocketServer', 'onServerRegistrationFinished')


@task('TunnelProxySocketServer_sockets', ['C18', 'C22'], ['TunnelProxySocketServer::onTunnelProxyClientConnected', 'TunnelProxySocketServer::onTunnelProxyClientDisconnected', 'TunnelProxySocket::TunnelProxySocket', 'TunnelProxySocket::setDisconnected'], prog='client')
def t_ss_sockets(g):
    T = ('C18',)

    def frame(ex, o, m0, a, what):
        m1 = socks(ex, o)
        k = ex.fresh('any', IntSort())
        ex.oblige(what + ' touches no other socket', Implies(And(undisturbed(ex), k != a), And(ex.sel(m1.dom, k) == ex.sel(m0.dom, k), Implies(ex.sel(m0.dom, k), And(ex.sel(m1.val, k) == ex.sel(m0.val, k), saddr(ex, ex.sel(m1.val, k)) == k)))), T)

    def appear(ex):
        fn = need_fn(g, SS + '::onTunnelProxyClientConnected', 4)
        o = arbitrary(ex, SS, fn)
        c0, m0 = conn(ex, o, SS), socks(ex, o)
        ex.assume(c0 != 0)
        name, uuid, peer, a = z3.String('clientName'), Int('clientUuid'), z3.String('peer'), Int('addr')
        ex.assume(And(a > 0, a < 65536, Not(ex.sel(m0.dom, a))))
        k = Int('sk2')
        ex.assume(ForAll([k], Implies(ex.sel(m0.dom, k), ex.sel(m0.val, k) < ex.alloc0), patterns=[ex.sel(m0.dom, k)]), quant=True)
        ex.call_fn(fn, o, argvals=[name, uuid, peer, a])
        es = [e for e in ex.log if e.kind == 'Emit']
        ok = len(es) == 1 and sname(es[0]) == 'clientConnected' and same_obj(es[0].obj, o)
        ex.oblige('a new socket is announced, once', ok, T, detail=str(es)[:200])
        ex.oblige('announcing a socket asks nothing of the connection', not steps(ex), T, detail=str(steps(ex))[:200])
        if ok:
            s, m = iv(ex.load(es[0].args[0])), es[0].a['socks']
            ex.oblige('the announced socket is the one with the announced address', And(ex.sel(m.dom, a), ex.sel(m.val, a) == s, saddr(ex, s) == a), T)
            ex.oblige('every client gets a socket of its own', s >= ex.alloc0, T)
            f = lambda n, t: ex.load(ex.getf(s, TS, n, t))
            ex.oblige('the socket knows its client, its connection and its server', And(f('m_clientName', T_STR) == name, iv(f('m_clientUuid', T_UUID)) == uuid, iv(f('m_connection', T_PTR)) == c0, iv(f('m_socketServer', T_PTR)) == o, ex.tobool(ex.getf(s, TS, 'm_connected', T_BOOL))), T)
            m1 = socks(ex, o)
            ex.oblige('the socket stays until its client or the connection is gone', Implies(undisturbed(ex), And(ex.sel(m1.dom, a), ex.sel(m1.val, a) == s)), T)
        frame(ex, o, m0, a, 'a new client')
        prove_sinv(ex, o, SS, 'a new client')

    def gone(ex):
        fn = need_fn(g, SS + '::onTunnelProxyClientDisconnected', 1)
        o = arbitrary(ex, SS, fn)
        f0, m0 = server_fields(ex, o)[:-1], socks(ex, o)
        a = Int('addr')
        ex.assume(And(a >= 0, a < 65536))
        s, known = ex.sel(m0.val, a), ex.sel(m0.dom, a)
        ex.call_fn(fn, o, argvals=[a])
        evs = served(ex)
        ex.oblige('an unknown client is ignored', Implies(Not(known), BoolVal(not evs)), T, detail=str(evs)[:300])
        es = [e for e in evs if e.kind == 'Emit']
        names = sorted(sname(e) for e in es)
        ex.oblige('a socket that disappeared is reported once', Implies(known, BoolVal(names == ['clientDisconnected', 'connectedChanged', 'disconnected'])), T, detail=str(es)[:200])
        for e in es:
            if sname(e) == 'clientDisconnected':
                ex.oblige('the reported socket is that of the client', And(BoolVal(same_obj(e.obj, o)), iv(ex.load(e.args[0])) == s), T)
                ex.oblige('a socket reported as gone is gone', Not(ex.sel(e.a['socks'].dom, a)), T)
            else:
                ex.oblige('only the socket of the client is disconnected', iv(e.obj) == s, T)
                if sname(e) == 'connectedChanged':
                    ex.oblige('a disconnected socket says so', Not(ex.tobool(ex.load(e.args[0]))), T)
                ex.oblige('data for a disconnected socket is not delivered any more', Not(ex.sel(e.a['socks'].dom, a)), T)
        m1 = socks(ex, o)
        ex.oblige('the socket of the client is gone, no other', Implies(undisturbed(ex), And(m1.dom == Store(m0.dom, a, BoolVal(False)), m1.val == m0.val, iv(m1.cnt) == iv(m0.cnt) - If(known, IntVal(1), IntVal(0)))), T)
        ex.oblige('the socket counts as disconnected', Implies(And(known, undisturbed(ex)), Not(ex.tobool(ex.getf(s, TS, 'm_connected', T_BOOL)))), T)
        dl = [e for e in evs if e.kind == 'DeleteLater']
        ex.oblige('a socket is destroyed once it disappeared', And(BoolVal(len(dl) <= 1), Implies(known, BoolVal(len(dl) == 1)), *[iv(e.obj) == s for e in dl]), T, detail=str(dl)[:200])
        ex.oblige('a client that disappears asks nothing of the connection', not [e for e in evs if e.kind not in ('Emit', 'DeleteLater')], T, detail=str(evs)[:200])
        ex.oblige('a client that disappears does not change the server', Implies(undisturbed(ex), And(*[x == y for x, y in zip(server_fields(ex, o)[:-1], f0)])), T)
        prove_sinv(ex, o, SS, 'a client that disappeared')
    verify(g, SS + '::onTunnelProxyClientConnected', appear)
    verify(g, SS + '::onTunnelProxyClientDisconnected', gone)


@task('TunnelProxySocketServer_data', ['C18', 'C22', 'C21'], ['TunnelProxySocketServer::onConnectionDataAvailable'], prog='client', heavy=4)
def t_ss_data(g):
    T = ('C18',)

    def check(ex, k, evs):
        it, data = ex.ghost['it'], ex.ghost['data']
        b, m = it['buf'], it['socks']
        x = data[k]
        st_, pay = dec(b)
        keep = And(x == END, Length(b) > 0, Or(st_ == 0, st_ == 3))
        n = Length(pay)
        a = If(n >= 2, pay[0] * 256 + pay[1], IntVal(0))
        body = If(n >= 2, Extract(pay, IntVal(2), n - 2), Empty(Bytes))
        hit = And(a != 0, ex.sel(m.dom, a))
        ex.oblige('one byte completes at most one frame', len(evs) <= 1, T, detail=str(evs)[:300])
        if not evs:
            ex.oblige('a frame for an open socket or for the JSON client is delivered', Not(And(keep, Or(a == 0, hit))), T)
            return
        e = evs[0]
        if e.kind == 'Step' and e.name == 'processData':
            ex.oblige('only complete frames with address 0 go to the JSON client', And(keep, a == 0, iv(e.obj) == it['jc']), T)
            ex.oblige('the JSON client gets the payload unchanged', e.args[0].s == body, T)
        elif e.kind == 'Emit' and sname(e) == 'dataReceived':
            ex.oblige('a frame is delivered only to the open socket with its address', And(keep, hit, iv(e.obj) == ex.sel(m.val, a)), T)
            ex.oblige('a socket gets the payload unchanged', ex.load(e.args[0]).s == body, T)
        else:
            ex.oblige('a frame has no other effect', False, T, detail=str(evs)[:200])

    def on_iter_begin(ex, L, k, *a):
        o = ex.ghost['o']
        ex.ghost['it'] = dict(buf=buf(ex, o), socks=socks(ex, o), jc=jc(ex, o, SS))
        # octets; the addresses of a frame are 16 bit
        pay = dec(buf(ex, o))[1]
        for i in (0, 1):
            ex.assume(Implies(Length(pay) > i, And(pay[i] >= 0, pay[i] <= 255)))

    def on_iter(ex, L, k, seqinfo, log, post):
        if 'data' in ex.ghost:
            check(ex, k, served(ex))

    def cands(ex, L, snap, views):
        o = ex.ghost['o']
        c0, j0 = conn(ex, o, SS), jc(ex, o, SS)
        k0 = Int('lk')

        def q(e, k):
            m = socks(e, o)
            return ForAll([k0], Implies(e.sel(m.dom, k0), And(e.sel(m.val, k0) > 0, saddr(e, e.sel(m.val, k0)) == k0)))
        en0 = enabled(ex, o)
        out = [('running', lambda e, k: st(e, o, SS) == UP), ('enabled', lambda e, k: Implies(undist_of(e, o), enabled(e, o) == en0)), ('same connection', lambda e, k: And(conn(e, o, SS) == c0, jc(e, o, SS) == j0)),
               ('buffer', lambda e, k: payload_ok(buf(e, o))), ('sockets under their address', q, True),
               ('timer', lambda e, k: Not(b2(QT.timer_get(e, timer(e, o, 'm_reconnectTimer'), 'single'))))]
        return out

    def body(ex):
        fn = need_fn(g, SS + '::onConnectionDataAvailable', 1)
        o = arbitrary(ex, SS, fn)
        c0, j0, s0, b0, en0 = conn(ex, o, SS), jc(ex, o, SS), st(ex, o, SS), buf(ex, o), enabled(ex, o)
        ex.assume(c0 != 0)
        data = unpack(Const('data', zsort(T_BA)), T_BA)
        ex.ghost['data'] = data.s
        ex.call_fn(fn, o, argvals=[data])
        no_relaxing(ex)
        evs = served(ex)
        segs = [e for e in evs if e.kind == 'LoopSeg']
        if segs:
            ex.oblige('only a running server takes frames apart', s0 == UP, T)
            i = ex.log.index(segs[0])
            rest = [e for e in ex.log[i + 1:] if e in evs]
            ex.oblige('nothing happens before the first frame', len(segs) == 1 and evs[0] is segs[0], T, detail=str(evs)[:200])
            if segs[0].broken:
                check(ex, segs[0].k, rest)
                ex.oblige('the remaining frames are dropped only if the server is not running any more', st(ex, o, SS) != UP, T)
            else:
                ex.oblige('the frames are handled to the end', And(segs[0].k == Length(data.s), BoolVal(not rest)), T)
        else:
            ex.oblige('data of a running server is taken apart', Or(s0 != UP, Length(data.s) == 0), T)
            if evs:
                e = evs[0]
                ex.oblige('data before the registration goes to the JSON client, unchanged', And(BoolVal(len(evs) == 1 and e.kind == 'Step' and e.name == 'processData'), iv(e.obj) == j0, e.args[0].s == data.s) if e.kind == 'Step' and e.args else False, T, detail=str(evs)[:200])
                ex.oblige('data before the registration goes to the JSON client, unchanged', s0 != UP, T)
                if e.kind == 'Step' and 'buf' in e.a:
                    ex.oblige('a registration starts with an empty buffer', Length(e.a['buf']) == 0, T)
            else:
                ex.oblige('data before the registration is not lost', s0 == UP, T)
        if not (evs and not segs):
            ex.oblige('an incomplete frame waits for the rest', Implies(And(s0 == UP, st(ex, o, SS) == UP), buf(ex, o) == rs(data.s, b0)[0]), T)
        ex.oblige('received data alone does not stop a running server', Implies(And(s0 == UP, undisturbed(ex)), And(st(ex, o, SS) == UP, enabled(ex, o) == en0)), T + ('C22',))
        prove_sinv(ex, o, SS, 'received data')
    verify(g, SS + '::onConnectionDataAvailable', body, SLIP, folds=[rs], loop_cands=cands, on_iter=on_iter, on_iter_begin=on_iter_begin)


@task('TunnelProxySocketServer_api', ['C22', 'C21', 'C18'], ['TunnelProxySocketServer::' + x for x in ('startServer', 'stopServer', 'cleanUp', 'requestSocketDisconnect', 'running', 'state')], prog='client', heavy=3)
def t_ss_api(g):
    T = ('C22',)

    def start(ex):
        fn = need_fn(g, SS + '::startServer', 1)
        o = arbitrary(ex, SS, fn)
        c0, s0, m0 = conn(ex, o, SS), st(ex, o, SS), socks(ex, o)
        f0 = server_fields(ex, o)
        ct = iv(ex.load(ex.getf(o, SS, 'm_connectionType', I32)))
        ex.assume(Or(ct == 0, ct == 1))
        url = Opaque(('cls', 'QUrl'), Int('url'))
        n = len(ex.conns)
        r = ex.tobool(ex.load(ex.call_fn(fn, o, argvals=[url])))
        u = undisturbed(ex)
        no_relaxing(ex)
        if not ex.branch(r):
            ex.oblige('a refused start changes nothing', And(BoolVal(not served(ex)), *[x == y for x, y in zip(server_fields(ex, o), f0)]), T, detail=str(served(ex))[:200])
            ex.oblige('only an invalid address is refused', UNUSABLE(ex, url), T)
            prove_sinv(ex, o, SS, 'a refused start')
            return
        ss = [e for e in steps(ex) if e.name.split()[0] != 'create']
        ex.oblige('the proxy is asked for a connection, once', len(ss) == 1 and ss[0].name == 'connectServer', T, detail=str(ss)[:200])
        ex.oblige('an abandoned connection can not disturb its successor', Implies(And(c0 != 0), Or(Not(u), cut_off(ex, c0, o))), T)
        all_gone(ex, o, m0, 'starting again')
        never_up(ex, o, SS, s0, 'starting')
        prove_sinv(ex, o, SS, 'starting')
        ex.oblige('the address is kept for the next attempt', ex.load(ex.getf(o, SS, 'm_serverUrl', ('cls', 'QUrl'))).e == url.e, T)
        ex.oblige('a started server is enabled', Implies(u, enabled(ex, o)), T)
        if len(ss) == 1 and ss[0].name == 'connectServer':
            e = ss[0]
            ex.oblige('an attempt that fails right away is repeated: the server is enabled and its timer runs before it connects', And(e.a['enabled'], e.a['ticking']), T)
            ex.oblige('the connection goes to the given address', e.args[0].e == url.e if isinstance(e.args[0], Opaque) else False, T)
            made = [x for x in ex.log if x.kind == 'New' and x.cls in (TCPC, WSC)]
            ok = [x for x in made if ex.prove(iv(e.obj) == x.ref)]
            ex.oblige('the connection is a new one of the chosen type', And(*[BoolVal(x.cls == TCPC) == (ct == CT['TcpSocket']) for x in ok]) if len(ok) == 1 else False, T, detail=str(made)[:200])
            if len(ok) == 1:
                j = [x for x in ex.log if x.kind == 'Step' and x.name == 'create JsonRpcClient']
                ex.oblige('requests are sent on the new connection', And(BoolVal(len(j) == 1), iv(j[0].args[0]) == ok[0].ref) if j else False, T + ('C18',))
                check_wiring(ex, o, SS, ok[0].ref, iv(j[0].obj) if j else None)
                ex.oblige('the new connection is the one in use', Implies(u, And(conn(ex, o, SS) == ok[0].ref, jc(ex, o, SS) == iv(j[0].obj) if j else BoolVal(False))), T)

    def stop(ex):
        fn = need_fn(g, SS + '::stopServer', 0)
        o = arbitrary(ex, SS, fn)
        c0, s0 = conn(ex, o, SS), st(ex, o, SS)
        ex.call_fn(fn, o, argvals=[])
        ss = steps(ex)
        ex.oblige('stopping closes the connection', And(BoolVal(len(ss) <= 1 and all(e.name == 'disconnectServer' for e in ss)), BoolVal(len(ss) == 1) == (c0 != 0), *[iv(e.obj) == c0 for e in ss]), T, detail=str(ss)[:200])
        for e in ss:
            ex.oblige('a server that is stopped does not reconnect', And(Not(e.a['enabled']), Not(e.a['ticking'])), T)
        ex.oblige('a server that is stopped does not reconnect', Implies(undisturbed(ex), And(Not(enabled(ex, o)), Not(ticking(ex, o)))), T)
        never_up(ex, o, SS, s0, 'stopping')
        prove_sinv(ex, o, SS, 'stopping')

    def drop(ex):
        fn = need_fn(g, SS + '::requestSocketDisconnect', 1)
        o = arbitrary(ex, SS, fn)
        j0, m0 = jc(ex, o, SS), socks(ex, o)
        ex.assume(j0 != 0)
        a = Int('addr')
        ex.assume(And(a > 0, a < 65536))
        ex.call_fn(fn, o, argvals=[a])
        ss = steps(ex)
        ok = len(ss) == 1 and ss[0].name == 'callDisconnectClient'
        ex.oblige('the proxy is asked to disconnect exactly that client', And(BoolVal(ok), iv(ss[0].obj) == j0, iv(ss[0].args[0]) == a) if ok else False, ('C18',), detail=str(ss)[:200])
        m1 = socks(ex, o)
        ex.oblige('the socket stays until the proxy reports its client as gone', And(m1.dom == m0.dom, m1.val == m0.val), ('C18',))
        ex.oblige('asking to disconnect a client reports nothing', not own_emits(ex, o), ('C18',))
        prove_sinv(ex, o, SS, 'disconnecting a client')

    def queries(ex):
        o = arbitrary(ex, SS, None)
        s0, r0 = st(ex, o, SS), running(ex, o)
        ex.oblige('the running state in effect is returned', ex.tobool(ex.load(ex.call_fn(need_fn(g, SS + '::running', 0), o, argvals=[]))) == r0, T)
        ex.oblige('the state in effect is the one that is returned', iv(ex.load(ex.call_fn(need_fn(g, SS + '::state', 0), o, argvals=[]))) == s0, T)
    verify(g, SS + '::startServer', start, LOOPC, **LOOPO)
    verify(g, SS + '::stopServer', stop, SETSTATE)
    verify(g, SS + '::requestSocketDisconnect', drop)
    verify(g, SS + '::state', queries)


def t_start(ex, this, args, node):
    o = ex.ghost['o']
    ex.log.append(Event('Restart', obj=iv(this), url=ex.load(args[0])))
    rely(ex)
    return ex.fresh('started', BoolSort())


@task('TunnelProxySocketServer_timers', ['C22'], ['TunnelProxySocketServer::TunnelProxySocketServer', 'TunnelProxySocketServer::setupTimers'], prog='client')
def t_ss_timers(g):
    T = ('C22',)

    def body(np):
        def f(ex):
            fn = g.prog.find_fn(SS + '::TunnelProxySocketServer', np)
            if fn is None or fn.nparams != np:
                raise ToolLimit('constructor')
            o = Int('object')
            ex.assume(And(o > 0, o < ex.alloc0))
            ex.this_cls = SS
            uuid, name, ct = Int('uuid'), z3.String('name'), Int('type')
            ex.call_fn(fn, o, argvals=[uuid, name] + [ct] * (np - 3) + [Int('parent')], is_ctor=True)
            R, K = timer(ex, o, 'm_reconnectTimer'), timer(ex, o, 'm_keepAliveTimer')
            ex.assume(R != K)
            ex.oblige('a new server is stopped', And(st(ex, o, SS) == DOWN, conn(ex, o, SS) == 0, jc(ex, o, SS) == 0, Not(enabled(ex, o)), Not(running(ex, o)), Not(ticking(ex, o))), T)
            a = ex.fresh('any', IntSort())
            ex.oblige('a new server has no sockets', Not(ex.sel(socks(ex, o).dom, a)), T)
            ex.oblige('a server keeps its id and name', And(iv(ex.load(ex.getf(o, SS, 'm_serverUuid', T_UUID))) == uuid, ex.load(ex.getf(o, SS, 'm_serverName', T_STR)) == name), T)
            if np == 4:
                ex.oblige('a server keeps its type of connection', iv(ex.load(ex.getf(o, SS, 'm_connectionType', I32))) == ct, T)
            i = iv(QT.timer_get(ex, R, 'interval'))
            ex.oblige('the reconnect timer waits and repeats', And(i > 0, Not(b2(QT.timer_get(ex, R, 'single')))), T)
            # later, in any state
            prove_sinv(ex, o, SS, 'a new server')
            conns = list(ex.conns)
            n = len(ex.log)
            ex.ghost['o'], ex.ghost['cls'] = o, SS
            url = Opaque(('cls', 'QUrl'), Int('url'))
            for fl, t, v in (('m_state', I32, Int('state')), ('m_enabled', T_BOOL, z3.Bool('enabled')), ('m_running', T_BOOL, z3.Bool('running')), ('m_connection', T_PTR, Int('conn')),
                             ('m_jsonClient', T_PTR, Int('json')), ('m_serverUrl', ('cls', 'QUrl'), url)):
                ex.setf(o, SS, fl, t, v)
            ex.assume(And(Int('conn') >= 0, Int('json') >= 0, Int('conn') != o, Int('json') != o))
            for tm in (R, K):
                QT.timer_set(ex, tm, 'active', ex.fresh('ticking', BoolSort()))
            ex.setf(o, SS, 'm_dataBuffer', T_BA, BA(Const('buffer', Bytes)))
            ex.setf(o, 'ghost', 'undisturbed', T_BOOL, BoolVal(True))
            assume_sinv(ex, o, SS)
            s0, en0, k0 = st(ex, o, SS), enabled(ex, o), ticking(ex, o)
            which = R if ex.choose(2) else K
            ex.assume(b2(QT.timer_get(ex, which, 'active')))
            fire_timer(ex, which)
            again = [e for e in ex.log[n:] if e.kind == 'Restart']
            if which is R:
                ex.oblige('a stopped server does not connect again', Implies(Not(en0), BoolVal(not again)), T, detail=str(ex.log[n:])[:200])
                ex.oblige('an enabled server without a connection tries again', Implies(And(en0, s0 == DOWN), BoolVal(len(again) == 1)), T, detail=str(ex.log[n:])[:200])
                for e in again:
                    ex.oblige('a connection that is there is not replaced', s0 == DOWN, T)
                    ex.oblige('the server connects to the same address again', And(e.obj == o, e.url.e == url.e), T)
                if not again:
                    ex.oblige('the reconnect timer runs until the connection is there', Implies(en0, ticking(ex, o)), T)
            else:
                ex.oblige('the keep alive timer does not restart the server', And(BoolVal(not again), ticking(ex, o) == k0), T)
            prove_sinv(ex, o, SS, 'a timer')
        return f
    for np in (3, 4):
        verify(g, SS + '::TunnelProxySocketServer', body(np), {SS + '::startServer': Fn(t_start), **SETSTATE})


@task('TunnelProxySocket_write', ['C18'], ['TunnelProxySocket::writeData', 'TunnelProxySocket::disconnectSocket', 'TunnelProxySocket::connected', 'TunnelProxySocket::socketAddress'], prog='client')
def t_ts(g):
    T = ('C18',)

    def sock(ex, fn):
        s = Int('socket')
        ex.assume(And(s > 0, s < ex.alloc0))
        a, c, o = saddr(ex, s), iv(ex.load(ex.getf(s, TS, 'm_connection', T_PTR))), iv(ex.load(ex.getf(s, TS, 'm_socketServer', T_PTR)))
        ex.assume(And(a >= 0, a < 65536, c > 0, c < ex.alloc0, o > 0, o < ex.alloc0))
        if fn is not None:
            enter(ex, fn, s)
        return s, a, c, o

    def write(ex):
        fn = need_fn(g, TS + '::writeData', 1)
        s, a, c, o = sock(ex, fn)
        data = unpack(Const('data', zsort(T_BA)), T_BA)
        ex.call_fn(fn, s, argvals=[data])
        ss = steps(ex)
        ex.oblige('data is sent once, on the connection of the socket', And(BoolVal(len(ss) == 1 and ss[0].name == 'sendData' and len(served(ex)) == 1), iv(ss[0].obj) == c) if ss else False, T, detail=str(served(ex))[:200])
        if len(ss) == 1 and ss[0].name == 'sendData':
            ex.oblige('data is sent as one frame with the address of the socket', ss[0].args[0].s == Concat(enc(Concat(be16(a), data.s))[0], Unit(IntVal(END))), T)

    def drop(ex):
        fn = need_fn(g, TS + '::disconnectSocket', 0)
        s, a, c, o = sock(ex, fn)
        ex.call_fn(fn, s, argvals=[])
        ss = served(ex)
        ex.oblige('disconnecting a socket asks its server to disconnect its client', And(BoolVal(len(ss) == 1 and ss[0].kind == 'Step' and ss[0].name == 'requestSocketDisconnect'), iv(ss[0].obj) == o, iv(ss[0].args[0]) == a) if ss and ss[0].kind == 'Step' else False, T, detail=str(ss)[:200])

    def queries(ex):
        s, a, c, o = sock(ex, None)
        ex.oblige('a socket names its address', iv(ex.load(ex.call_fn(need_fn(g, TS + '::socketAddress', 0), s, argvals=[]))) == a, T)
        ex.oblige('a socket tells whether it is connected', ex.tobool(ex.load(ex.call_fn(need_fn(g, TS + '::connected', 0), s, argvals=[]))) == ex.tobool(ex.getf(s, TS, 'm_connected', T_BOOL)), T)
    verify(g, TS + '::writeData', write, SLIP)
    verify(g, TS + '::disconnectSocket', drop, {SS + '::requestSocketDisconnect': step('requestSocketDisconnect', effect=False)})
    verify(g, TS + '::socketAddress', queries)
