"""Contracts of the three transports (TcpSocketServer with SslServer/SslClient, WebSocketServer,
UnixSocketServer): what TunnelProxyServer assumes about a transport (C15) and TLS (C14)."""
from vals import *
from ex import *
from task import task, TASKS
from contracts import Fn, Contract
from specs.slip import need_fn
import qt as QT
import re
import frontend as F
from specs.core import NS, T_PTR, hmap, enter, run_handler, FT

TCP, WEB, UNX = NS + 'TcpSocketServer', NS + 'WebSocketServer', NS + 'UnixSocketServer'
SSV, SCL = NS + 'SslServer', NS + 'SslClient'
SOCK = {TCP: 'QSslSocket', WEB: 'QWebSocket', UNX: 'QLocalSocket'}
T14, T15 = ('C14',), ('C15',)
OUT = ('write', 'sendTextMessage', 'sendBinaryMessage', 'writeData', 'putChar', 'writeDatagram', 'ping')
CLOSE = ('close', 'abort', 'disconnectFromHost', 'disconnectFromServer')
HARMLESS = ('flush',)


class TV:
    """the sockets of a transport at one moment"""

    def __init__(self, ex, t, cls):
        self.ex, self.t, self.cls = ex, t, cls
        self.m = ex.getf(t, cls, 'm_clientList', hmap(T_UUID, SOCK[cls]))

    def known(self, id_): return self.ex.sel(self.m.dom, iv(id_))
    def sock(self, id_): return self.ex.sel(self.m.val, iv(id_))


def tinv(v):
    k, l = Int('tk'), Int('tl')
    d, s = v.known(k), v.sock(k)
    return [('every connection has a non-null id and a socket', [k], Implies(d, And(k > 0, s > 0))),
            ('no two connections share a socket', [k, l], Implies(And(d, v.known(l), v.sock(l) == s), k == l))]


def prove_tinv(ex, v, what):
    for nm, vs, b in tinv(v):
        cs = [ex.fresh('any', IntSort()) for _ in vs]
        ex.oblige('%s keeps: %s' % (what, nm), z3.substitute(b, *zip(vs, cs)), T15)


def begin_t(ex, cls, fn, t=None):
    t = Int('transport') if t is None else t
    ex.assume(And(t > 0, t < ex.alloc0))
    m = HashV(Const('L_dom', ArraySort(IntSort(), BoolSort())), Const('L_val', ArraySort(IntSort(), IntSort())), Int('L_cnt'), T_UUID, ('ptr', ('cls', SOCK[cls])))
    ex.assume(Int('L_cnt') >= 0)
    ex.setf(t, cls, 'm_clientList', hmap(T_UUID, SOCK[cls]), m)
    v = TV(ex, t, cls)
    (n1, v1, b1), (n2, v2, b2) = tinv(v)
    ex.assume(ForAll(v1, b1, patterns=[v.known(v1[0])]), quant=True)
    ex.assume(ForAll(v2, b2, patterns=[z3.MultiPattern(v.known(v2[0]), v.known(v2[1]))]), quant=True)
    if fn is not None:
        enter(ex, fn, t)
    ex.pre = v
    return t, v


def calls(ex, log=None):
    return [e for e in (ex.log if log is None else log) if e.kind == 'QtCall']


def emits(ex, log=None):
    return [e for e in (ex.log if log is None else log) if e.kind == 'Emit']


def sname(e):
    return str(e.sig).split('::')[-1]


def bytes_of(ex, cls, e):
    """the bytes that a write operation puts on the wire"""
    x = e.args[0]
    if e.name == 'sendTextMessage':
        r = QT.to_utf8(ex, QT.as_str(ex, x))
        return r.s if isinstance(r, BA) else r
    return QT.as_bytes(ex, x)


def quiet(ex, tags, what):
    bad = [e for e in ex.log if e.kind not in ('New', 'Connect', 'LoopSeg')]
    ex.oblige(what, not bad, tags, detail=str(bad)[:300])


def same_map(ex, v, w, what):
    ex.oblige(what, And(w.m.dom == v.m.dom, w.m.val == v.m.val), T15)


def fresh_ids(ex, r):
    """QUuid::createUuid never repeats an id"""
    v = getattr(ex, 'pre', None)
    if v is not None:
        ex.assume(Not(v.known(r)))


def at_emit(ex, q, this, vals):
    cls = ex.ghost.get('tcls')
    if cls:
        ex.log[-1].a['view'] = TV(ex, ex.ghost['t'], cls)


OPT = dict(create_uuid=fresh_ids, on_emit=at_emit)


def verify(g, q, cls, body, contracts=None, **opt):
    o = dict(OPT)
    o.update(opt)

    def b(ex):
        ex.ghost['tcls'] = cls
        ex.ghost['t'] = Int('transport')
        body(ex)
    g.verify(q, b, contracts or {}, **o)


# ---------------------------------------------------------------- sending and closing
def make_send(cls):
    short = cls.split('::')[-1]

    @task(short + '_sendData', ['C15'], [short + '::sendData'])
    def t(g):
        def body(ex):
            fn = need_fn(g, cls + '::sendData', 2)
            t, v = begin_t(ex, cls, fn)
            id_ = Int('clientId')
            data = unpack(Const('data', zsort(T_BA)), T_BA)
            s = v.sock(id_)
            if cls == WEB:
                ex.ghost['ws'] = data.s
            ex.call_fn(fn, t, argvals=[id_, data])
            w = TV(ex, t, cls)
            cs = [e for e in calls(ex) if e.name not in HARMLESS]
            for e in calls(ex):
                ex.oblige('only the socket of the addressed connection is touched', And(v.known(id_), iv(e.obj) == s), T15, detail=str(e)[:200])
            ex.oblige('sending writes and does nothing else', all(e.name in OUT for e in cs), T15, detail=str(cs)[:300])
            ex.oblige('the data is written once', Implies(v.known(id_), BoolVal(len(cs) == 1)), T15, detail=str(cs)[:300])
            if len(cs) == 1 and cs[0].name in OUT:
                e = cs[0]
                out = bytes_of(ex, cls, e)
                if e.name == 'sendTextMessage':
                    ex.oblige('the data is written unchanged (WebSocket text: data that is valid UTF-8)', Implies(is_text(ex, data.s), out == data.s), T15)
                    ex.oblige('the data is written unchanged (WebSocket text: any data)', out == data.s, T15 + ('finding:websocket-text',))
                else:
                    ex.oblige('the data is written unchanged', out == data.s, T15)
            same_map(ex, v, w, 'sending neither adds nor removes a connection')
            ex.oblige('sending reports nothing', not emits(ex), T15, detail=str(emits(ex)))
        verify(g, cls + '::sendData', cls, body)

    @task(short + '_kill', ['C15'], [short + '::killClientConnection'])
    def t2(g):
        def body(ex):
            fn = need_fn(g, cls + '::killClientConnection', 2)
            t, v = begin_t(ex, cls, fn)
            id_ = Int('clientId')
            s = v.sock(id_)
            ep = ex.qtepoch
            ex.call_fn(fn, t, argvals=[id_, z3.String('reason')])
            cs = [e for e in calls(ex) if e.name not in HARMLESS]
            for e in calls(ex):
                ex.oblige('only the socket of the addressed connection is touched', And(v.known(id_), iv(e.obj) == s), T15, detail=str(e)[:200])
            ex.oblige('closing closes and does nothing else', all(e.name in CLOSE for e in cs), T15, detail=str(cs)[:300])
            if not cs:
                open_ = BoolVal(True)
                if cls == UNX:
                    open_ = connected(ex, s, ep)
                ex.oblige('an open connection is closed', Not(And(v.known(id_), open_)), T15)
            ex.oblige('closing reports nothing itself', not emits(ex), T15, detail=str(emits(ex)))
            same_map(ex, v, TV(ex, t, cls), 'closing leaves the list of connections to the disconnect')
        verify(g, cls + '::killClientConnection', cls, body)


def is_text(ex, b):
    """b is the UTF-8 encoding of some string"""
    s = z3.String('some_text')
    ex.assume(QT.from_utf8(QT.utf8(s)) == s)
    return b == QT.utf8(s)


def connected(ex, s, ep):
    """QLocalSocket::state() == ConnectedState"""
    return uf('obs_state', [iv(s), ep], IntSort()) == 3


for _c in (TCP, WEB, UNX):
    make_send(_c)


# ---------------------------------------------------------------- slots
def qtcall(ex, cls, ref, name, a, n, const):
    """socket operations with a result the contracts talk about"""
    r = None
    if name == 'readAll' or name == 'read' and a and z3.is_expr(a[0]) and a[0].eq(uf('obs_bytesAvailable', [iv(ref), ex.qtepoch], IntSort())):
        r = unpack(ex.fresh('received', zsort(T_BA)), T_BA)
    elif name in ('read', 'readLine', 'peek'):
        r = unpack(ex.fresh('partial', zsort(T_BA)), T_BA)
    elif name == 'nextPendingConnection':
        r = ex.fresh('pending', IntSort())
        ex.assume(r >= 0 if ex.xp.opt.get('pending_null') else r > 0)
        ex.assume(r < ex.alloc0 + ex.nalloc)
        p = getattr(ex, 'pre', None)
        if p is not None:
            k = Int('tk')
            ex.assume(ForAll([k], Implies(p.known(k), p.sock(k) != r), patterns=[p.known(k)]), quant=True)
    if r is None:
        return NotImplemented
    ex.qtepoch = ex.fresh('epoch', IntSort())
    ex.log.append(Event('QtCall', cls=cls, name=name, obj=ref, args=a, res=r, epoch=ex.qtepoch))
    return r


OPT['qtcall'] = qtcall


def arg_of(ex, t):
    if t[0] == 'cls' and ex.is_object_class(t[1]):
        raise ToolLimit('object argument')
    return ex.havoc_value(t, 'arg')


def fire(ex, sender, sig, args=None):
    """emit signal `sig` of `sender`: every handler connected to it so far runs, in order"""
    n = 0
    for e in list(ex.conns):
        if sigkey(e.sig) != sig or not same_obj(e.sender, sender):
            continue
        n += 1
        run(ex, e, args)
    return n


def same_obj(a, b):
    return not isinstance(a, PtrTo) and z3.simplify(iv(a)).eq(z3.simplify(iv(b)))


def txt(x):
    """text of a SIGNAL()/SLOT() argument or name of a method"""
    if isinstance(x, CStr):
        return bytes(x.b).split(b'\0')[0].decode()
    return x.q if isinstance(x, FnRef) else str(x)


def sigkey(sig):
    s = txt(sig)
    m = re.match(r'^"?[12](\w+)\(', s)
    return m.group(1) if m else s.split('::')[-1]


def params_of(ex, h):
    op = None
    for x in h.node['inner']:
        if x.get('kind') == 'CXXRecordDecl':
            for m in x.get('inner', []):
                if m.get('kind') == 'CXXMethodDecl' and m.get('name') == 'operator()':
                    op = m
    return [ex.norm(parse_type(F._qt(q['type']))) for q in op.get('inner', []) if q.get('kind') == 'ParmVarDecl']


def run(ex, e, args):
    h = e.handler
    snd, ex.sender = ex.sender, e.sender
    s = txt(h)
    m = re.match(r'^"?1(\w+)\(', s) if not isinstance(h, (FnRef, Closure)) else None
    m2 = re.match(r'^"?2(\w+)\(', s) if not isinstance(h, (FnRef, Closure)) else None
    if m2:
        ex.emit(ex.ghost['recvcls'] + '::' + m2.group(1), e.recv, list(args), None)
    elif isinstance(h, FnRef) and not h.q.startswith('Q') and ex.contract(h.q) is None and ex.prog.find_fn(h.q) is None and args is not None:
        ex.emit(h.q, e.recv, list(args), None)      # signal to signal
    elif m:
        fn = ex.prog.find_fn(ex.ghost['recvcls'] + '::' + m.group(1))
        if fn is None:
            raise ToolLimit('slot ' + s)
        a = list(args) if args is not None else [arg_of(ex, ex.norm(parse_type(F._qt(q['type'])))) for q in fn.params]
        con = ex.contract(fn.q)
        if con is not None:
            ex.apply_contract(con, e.recv, None, None, fn.q, argvals=a[:fn.nparams])
        else:
            ex.call_fn(fn, e.recv, argvals=a[:fn.nparams])
    elif isinstance(h, Closure):
        ps = params_of(ex, h)
        a = list(args)[:len(ps)] if args is not None else [arg_of(ex, t) for t in ps]
        ex.call_closure(h, a, None)
    elif isinstance(h, FnRef) and not h.q.startswith('QTimer::') and ex.contract(h.q) is not None:
        ex.apply_contract(ex.contract(h.q), e.recv, None, None, h.q, argvals=list(args))
    elif isinstance(h, FnRef) and h.q.startswith('QTimer::'):
        r = e.recv
        e2 = Event('Connect', sender=e.sender, sig=e.sig, recv=ex.load(r.loc) if isinstance(r, PtrTo) else r, handler=h)
        run_handler(ex, e2, args or ())
    else:
        run_handler(ex, e, args or ())
    ex.sender = snd


def tail(ex, n):
    return ex.log[n:]


def unknown_sock(ex, v, s):
    k = Int('tk')
    ex.assume(ForAll([k], Implies(v.known(k), v.sock(k) != s), patterns=[v.known(k)]), quant=True)


def arbitrary_later(ex, cls, t, tag):
    """the list of connections at some later moment"""
    m = HashV(Const(tag + '_dom', ArraySort(IntSort(), BoolSort())), Const(tag + '_val', ArraySort(IntSort(), IntSort())), Int(tag + '_cnt'), T_UUID, ('ptr', ('cls', SOCK[cls])))
    ex.assume(Int(tag + '_cnt') >= 0)
    ex.setf(t, cls, 'm_clientList', hmap(T_UUID, SOCK[cls]), m)
    v = TV(ex, t, cls)
    (n1, v1, b1), (n2, v2, b2) = tinv(v)
    ex.assume(ForAll(v1, b1, patterns=[v.known(v1[0])]), quant=True)
    ex.assume(ForAll(v2, b2, patterns=[z3.MultiPattern(v.known(v2[0]), v.known(v2[1]))]), quant=True)
    ex.pre = v
    return v


def check_data(ex, log, id_, data, what, tags=T15):
    es = emits(ex, log)
    ex.oblige(what + ' are announced exactly once', len(es) == 1 and sname(es[0]) == 'dataAvailable', tags, detail=str(es)[:300])
    if len(es) == 1 and sname(es[0]) == 'dataAvailable':
        ex.oblige(what + ' are announced under the id of their connection', iv(ex.load(es[0].args[0])) == id_, tags)
        ex.oblige(what + ' are handed on unchanged', QT.as_bytes(ex, ex.load(es[0].args[1])) == data, tags)


def check_connected(ex, log, t, cls, s, v):
    """connection with socket s was announced once, under a new id, after it was stored"""
    es = emits(ex, log)
    ex.oblige('an accepted connection is announced exactly once', len(es) == 1 and sname(es[0]) == 'clientConnected', T15, detail=str(es)[:300])
    w = TV(ex, t, cls)
    if len(es) == 1 and sname(es[0]) == 'clientConnected':
        id_ = iv(ex.load(es[0].args[0]))
        at = es[0].a['view']
        ex.oblige('the connection gets an id of its own', And(id_ > 0, Not(v.known(id_))), T15)
        ex.oblige('the connection is known when it is announced', And(at.known(id_), at.sock(id_) == s), T15)
        ex.oblige('exactly this connection is added to the list', And(w.m.dom == Store(v.m.dom, id_, BoolVal(True)), w.m.val == Store(v.m.val, id_, s)), T15)
        return id_
    return None


def check_disconnected(ex, log, t, cls, id_, v):
    es = emits(ex, log)
    ex.oblige('a disconnect is reported exactly once', len(es) == 1 and sname(es[0]) == 'clientDisconnected', T15, detail=str(es)[:300])
    if len(es) == 1 and sname(es[0]) == 'clientDisconnected':
        ex.oblige('the disconnect names the connection', iv(ex.load(es[0].args[0])) == id_, T15)
    w = TV(ex, t, cls)
    ex.oblige('exactly the disconnected connection is forgotten', w.m.dom == Store(v.m.dom, id_, BoolVal(False)), T15)
    k = ex.fresh('any', IntSort())
    ex.oblige('all other connections keep their socket', Implies(w.known(k), w.sock(k) == v.sock(k)), T15)


def no_foreign_calls(ex, log, s, what):
    for e in calls(ex, log):
        ex.oblige(what + ' touches no other socket', iv(e.obj) == s, T15, detail=str(e)[:200])


@task('Tcp_slots', ['C15', 'C16'], ['TcpSocketServer::onDataAvailable', 'TcpSocketServer::onSocketConnected', 'TcpSocketServer::onSocketDisconnected', 'TcpSocketServer::connectionsCount'])
def t_tcp_slots(g):
    def known_or_not(ex, v, s):
        id_ = Int('clientId')
        if ex.choose(2):
            ex.assume(And(v.known(id_), v.sock(id_) == s))
            return id_
        unknown_sock(ex, v, s)
        return None

    def data(ex):
        fn = need_fn(g, TCP + '::onDataAvailable', 2)
        t, v = begin_t(ex, TCP, fn)
        s = Int('socket')
        ex.assume(s > 0)
        id_ = known_or_not(ex, v, s)
        d = unpack(Const('data', zsort(T_BA)), T_BA)
        ex.call_fn(fn, t, argvals=[s, d])
        if id_ is not None:
            check_data(ex, ex.log, id_, d.s, 'received bytes')
        else:
            ex.oblige('data of an unknown socket is not announced', not emits(ex), T15, detail=str(emits(ex)))
        same_map(ex, v, TV(ex, t, TCP), 'receiving neither adds nor removes a connection')
        no_foreign_calls(ex, ex.log, s, 'receiving')

    def conn(ex):
        fn = need_fn(g, TCP + '::onSocketConnected', 1)
        t, v = begin_t(ex, TCP, fn)
        s = Int('socket')
        ex.assume(s > 0)
        unknown_sock(ex, v, s)
        ex.call_fn(fn, t, argvals=[s])
        check_connected(ex, ex.log, t, TCP, s, v)
        prove_tinv(ex, TV(ex, t, TCP), 'a new connection')
        no_foreign_calls(ex, ex.log, s, 'accepting')

    def disc(ex):
        fn = need_fn(g, TCP + '::onSocketDisconnected', 1)
        t, v = begin_t(ex, TCP, fn)
        s = Int('socket')
        ex.assume(s > 0)
        id_ = known_or_not(ex, v, s)
        ex.call_fn(fn, t, argvals=[s])
        if id_ is not None:
            check_disconnected(ex, ex.log, t, TCP, id_, v)
        else:
            ex.oblige('a socket that was never announced disconnects silently', not emits(ex), T15, detail=str(emits(ex)))
            same_map(ex, v, TV(ex, t, TCP), 'the disconnect of an unknown socket changes nothing')
        prove_tinv(ex, TV(ex, t, TCP), 'a disconnect')
        no_foreign_calls(ex, ex.log, s, 'a disconnect')
    verify(g, TCP + '::onDataAvailable', TCP, data)
    verify(g, TCP + '::onSocketConnected', TCP, conn)
    verify(g, TCP + '::onSocketDisconnected', TCP, disc)


def make_count(cls):
    short = cls.split('::')[-1]

    @task(short + '_count', ['C16'], [short + '::connectionsCount'])
    def t(g):
        def body(ex):
            fn = need_fn(g, cls + '::connectionsCount', 0)
            t, v = begin_t(ex, cls, fn)
            ex.assume(iv(v.m.cnt) < 2 ** 31)
            r = iv(ex.load(ex.call_fn(fn, t, argvals=[])))
            ex.oblige('a transport counts its connections', r == iv(v.m.cnt), ('C16',))
            quiet(ex, ('C16',), 'counting has no effect')
        verify(g, cls + '::connectionsCount', cls, body)


for _c in (TCP, WEB, UNX):
    make_count(_c)


@task('Web_slots', ['C15'], ['WebSocketServer::onClientConnected', 'WebSocketServer::onClientDisconnected', 'WebSocketServer::onTextMessageReceived',
                             'WebSocketServer::onBinaryMessageReceived', 'WebSocketServer::onClientError'])
def t_web_slots(g):
    def body(ex):
        ex.ghost['recvcls'] = WEB
        fn = need_fn(g, WEB + '::onClientConnected', 0)
        t, v = begin_t(ex, WEB, fn)
        srv = ex.havoc_value(T_PTR, 'wsserver')
        ex.assume(srv > 0)
        ex.setf(t, WEB, 'm_server', T_PTR, srv)
        ex.call_fn(fn, t, argvals=[])
        nx = [e for e in calls(ex) if e.name == 'nextPendingConnection']
        ex.oblige('one pending connection is accepted at a time', len(nx) == 1, T15, detail=str(calls(ex))[:200])
        if len(nx) != 1:
            return
        s = nx[0].res
        es = emits(ex)
        if not es:
            closed = [e for e in calls(ex) if e.name in CLOSE and iv(e.obj).eq(s)]
            ex.oblige('only a vanished connection or one with an unsupported protocol version is not announced', Or(s == 0, And(uf('obs_version', [s, ex_epoch(nx)], IntSort()) != 13, BoolVal(bool(closed)))), T15)
            same_map(ex, v, TV(ex, t, WEB), 'a refused connection is not added')
            return
        id_ = check_connected(ex, ex.log, t, WEB, s, v)
        prove_tinv(ex, TV(ex, t, WEB), 'a new connection')
        if id_ is None:
            return
        # later, while the connection is still known
        v2 = arbitrary_later(ex, WEB, t, 'later')
        ex.assume(And(v2.known(id_), v2.sock(id_) == s))
        n = len(ex.log)
        c = ex.choose(4)
        if c == 0:
            msg = z3.String('message')
            fire(ex, s, 'textMessageReceived', [msg])
            check_data(ex, tail(ex, n), id_, QT.utf8(msg), 'received bytes')
            same_map(ex, v2, TV(ex, t, WEB), 'receiving neither adds nor removes a connection')
        elif c == 1:
            d = unpack(Const('data', zsort(T_BA)), T_BA)
            k = fire(ex, s, 'binaryMessageReceived', [d])
            es = emits(ex, tail(ex, n))
            if es:
                check_data(ex, tail(ex, n), id_, d.s, 'received bytes')
            else:
                cl = [e for e in calls(ex, tail(ex, n)) if e.name in CLOSE]
                ex.oblige('a binary message is handed on or its connection closed', k > 0 and bool(cl), T15)
            same_map(ex, v2, TV(ex, t, WEB), 'receiving neither adds nor removes a connection')
        elif c == 2:
            fire(ex, s, 'disconnected', [])
            check_disconnected(ex, tail(ex, n), t, WEB, id_, v2)
            prove_tinv(ex, TV(ex, t, WEB), 'a disconnect')
        else:
            for e in list(ex.conns):
                if sigkey(e.sig) in ('textMessageReceived', 'binaryMessageReceived', 'disconnected') or not same_obj(e.sender, s):
                    continue
                run(ex, e, None)
            ex.oblige('nothing else of a socket is announced', not emits(ex, tail(ex, n)), T15, detail=str(emits(ex, tail(ex, n)))[:300])
            same_map(ex, v2, TV(ex, t, WEB), 'other events neither add nor remove a connection')
        no_foreign_calls(ex, tail(ex, n), s, 'handling a socket')
    verify(g, WEB + '::onClientConnected', WEB, body, pending_null=True)


def ex_epoch(nx):
    return nx[0].a['epoch']


@task('Unix_slots', ['C15'], ['UnixSocketServer::onClientConnected'])
def t_unix_slots(g):
    def body(ex):
        ex.ghost['recvcls'] = UNX
        fn = need_fn(g, UNX + '::onClientConnected', 0)
        t, v = begin_t(ex, UNX, fn)
        srv = ex.havoc_value(T_PTR, 'lserver')
        ex.assume(srv > 0)
        ex.setf(t, UNX, 'm_server', T_PTR, srv)
        ex.call_fn(fn, t, argvals=[])
        nx = [e for e in calls(ex) if e.name == 'nextPendingConnection']
        ex.oblige('one pending connection is accepted at a time', len(nx) == 1, T15, detail=str(calls(ex))[:200])
        if len(nx) != 1:
            return
        s = nx[0].res
        id_ = check_connected(ex, ex.log, t, UNX, s, v)
        prove_tinv(ex, TV(ex, t, UNX), 'a new connection')
        if id_ is None:
            return
        v2 = arbitrary_later(ex, UNX, t, 'later')
        ex.assume(And(v2.known(id_), v2.sock(id_) == s))
        n = len(ex.log)
        c = ex.choose(3)
        if c == 0:
            fire(ex, s, 'readyRead', [])
            received(ex, tail(ex, n), id_)
            same_map(ex, v2, TV(ex, t, UNX), 'receiving neither adds nor removes a connection')
        elif c == 1:
            fire(ex, s, 'disconnected', [])
            check_disconnected(ex, tail(ex, n), t, UNX, id_, v2)
            prove_tinv(ex, TV(ex, t, UNX), 'a disconnect')
        else:
            for e in list(ex.conns):
                if sigkey(e.sig) in ('readyRead', 'disconnected') or not same_obj(e.sender, s):
                    continue
                run(ex, e, None)
            ex.oblige('nothing else of a socket is announced', not emits(ex, tail(ex, n)), T15, detail=str(emits(ex, tail(ex, n)))[:300])
            same_map(ex, v2, TV(ex, t, UNX), 'other events neither add nor remove a connection')
        no_foreign_calls(ex, tail(ex, n), s, 'handling a socket')
    verify(g, UNX + '::onClientConnected', UNX, body)


def received(ex, log, id_, tags=T15):
    rd = [e for e in calls(ex, log) if e.name in ('readAll', 'read', 'readLine', 'peek')]
    ok = len(rd) == 1 and (rd[0].name in ('readAll', 'read')) and str(rd[0].res.s if hasattr(rd[0].res, 's') else rd[0].res).find('received') >= 0
    ex.oblige('everything that arrived is read once', ok, tags, detail=str(rd)[:300])
    if ok:
        check_data(ex, log, id_, rd[0].res.s, 'received bytes', tags)


# ---------------------------------------------------------------- TLS
T_CONF = ('cls', 'QSslConfiguration')
TB = ('C14', 'C15')


def same_conf(a, b):
    return iv(a.e) == iv(b.e)


@task('SslServer_newConnection', ['C14', 'C15'], ['SslServer::SslServer'])
def t_ssl_new(g):
    """pending connections: announced right away, each once, exactly if TLS is off"""
    def check(ex, log, ssl, where):
        nx = [e for e in calls(ex, log) if e.name == 'nextPendingConnection']
        es = emits(ex, log)
        ex.oblige('with TLS a connection is not announced when it is accepted', Or(Not(ssl), BoolVal(not es)), TB, detail=str(es)[:300])
        ex.oblige('nothing but the connection is announced', all(sname(e) == 'socketConnected' for e in es), TB, detail=str(es)[:300])
        ann = [iv(e.args[0]) for e in es]
        for e in nx:
            m = sum([If(a == e.res, IntVal(1), IntVal(0)) for a in ann], IntVal(0))
            ex.oblige('without TLS each accepted connection is announced once, right away', Implies(And(Not(ssl), *[x.res != e.res for x in nx if x is not e]), m == 1), TB, detail=str(es)[:300])
        for a in ann:
            ex.oblige('only accepted connections are announced', Or(*[a == e.res for e in nx]), TB)

    def on_iter(ex, L, k, seqinfo, log, post):
        check(ex, log, ex.ghost['ssl'], L.where)

    def isa(ex, v, t, is_a):
        ex.assume(is_a)         # only SslClient objects are handed to addPendingConnection (incomingConnection)

    def body(ex):
        s = Int('sslserver')
        ex.assume(And(s > 0, s < ex.alloc0))
        fn = g.prog.find_fn(SSV + '::SslServer', 3)
        if fn is None:
            raise ToolLimit('constructor of SslServer')
        ssl = z3.Bool('sslEnabled')
        conf = Opaque(T_CONF, Int('sslConfiguration'))
        ex.ghost['ssl'] = ssl
        ex.call_fn(fn, s, argvals=[ssl, conf, Int('parent')], is_ctor=True)
        ex.oblige('the server keeps the TLS setting and the certificate', And(ex.tobool(ex.getf(s, SSV, 'm_sslEnabled', T_BOOL)) == ssl, same_conf(ex.getf(s, SSV, 'm_config', T_CONF), conf)), T14)
        ex.ghost['ssl'] = ssl
        n = len(ex.log)
        ep = ex.qtepoch
        had = uf('obs_hasPendingConnections', [s, ep], BoolSort())
        fire(ex, s, 'newConnection', [])
        log = tail(ex, n)
        if not [e for e in log if e.kind == 'LoopSeg']:
            check(ex, log, ssl, 'end')
            ex.oblige('an accepted connection is taken from the queue', Or(Not(had), BoolVal(bool([e for e in calls(ex, log) if e.name == 'nextPendingConnection']))), TB)
        else:
            for e in log:
                ex.oblige('nothing is announced outside the loop', e.kind != 'Emit', TB, detail=str(e)[:200])
            ex.oblige('every accepted connection is taken from the queue', Not(uf('obs_hasPendingConnections', [s, ex.qtepoch], BoolSort())), TB)
        for e in list(ex.conns):
            if sigkey(e.sig) != 'newConnection' and not same_obj(e.sender, s):
                continue
    g.verify(SSV + '::SslServer', body, {}, on_iter=on_iter, isa=isa, qtcall=qtcall)


@task('SslServer_incoming', ['C14', 'C15'], ['SslServer::incomingConnection', 'SslClient::SslClient', 'SslClient::startWaitingForEncrypted'])
def t_ssl_incoming(g):
    def body(ex):
        fn = need_fn(g, SSV + '::incomingConnection', 1)
        s = Int('sslserver')
        ex.assume(And(s > 0, s < ex.alloc0))
        enter(ex, fn, s)
        ssl = ex.tobool(ex.getf(s, SSV, 'm_sslEnabled', T_BOOL))
        conf = ex.getf(s, SSV, 'm_config', T_CONF)
        ex.call_fn(fn, s, argvals=[Int('descriptor')])
        w = [e for e in ex.log if e.kind == 'New' and e.cls == SCL]
        ex.oblige('one socket is made per incoming connection', len(w) == 1, TB, detail=str(ex.log)[:300])
        if len(w) != 1:
            return
        c = w[0].ref
        cs = [e for e in calls(ex)]
        names = [e.name for e in cs]
        for e in cs:
            ex.oblige('accepting a connection touches no other socket', Or(iv(e.obj) == c, iv(e.obj) == s), T15, detail=str(e)[:200])
        ex.oblige('nothing is announced while a connection is accepted', not emits(ex), TB, detail=str(emits(ex))[:200])
        if [e for e in ex.log if e.kind == 'Delete']:
            ex.oblige('a discarded connection is not offered to the proxy', 'addPendingConnection' not in names, TB)
            return
        ad = [e for e in cs if e.name == 'addPendingConnection']
        ex.oblige('the connection is offered to the proxy once', len(ad) == 1 and iv(ad[0].args[0]).eq(c), T15, detail=str(ad)[:200])
        st = [i for i, e in enumerate(cs) if e.name == 'startServerEncryption']
        sc = [i for i, e in enumerate(cs) if e.name == 'setSslConfiguration']
        if not st:
            ex.oblige('with TLS the handshake is started', Not(ssl), T14)
        else:
            ex.oblige('the handshake is started only with TLS', ssl, TB)
            ex.oblige('the handshake uses the configured certificate', BoolVal(len(sc) >= 1 and sc[-1] < st[0]), T14, detail=str(names))
            if sc:
                ex.oblige('the handshake uses the configured certificate', same_conf(ex.load(cs[sc[-1]].args[0]), conf), T14)
            ts = [e for e in ex.log if e.kind == 'TimerStart']
            ex.oblige('a connection that does not finish its handshake is closed', len(ts) >= 1, T14, detail=str(ex.log)[:200])
            if ts:
                tm = ts[-1].obj
                ex.oblige('the handshake has a time limit', And(QT.timer_get(ex, tm, 'active'), iv(QT.timer_get(ex, tm, 'interval')) > 0), T14)
                n = len(ex.log)
                if ex.choose(2):
                    fire_timer(ex, tm)
                    ex.oblige('a connection that does not finish its handshake is closed', bool([e for e in calls(ex, tail(ex, n)) if e.name in CLOSE and iv(e.obj).eq(c)]), T14, detail=str(tail(ex, n))[:200])
                    return
        # later
        for h in ex.conns:
            ex.oblige('handlers of a socket do not outlive it or its server', Or(iv_(ex, h.sender) == c, iv_(ex, h.sender) == s, BoolVal(sigkey(h.sig) == 'timeout')), TB)
        n = len(ex.log)
        ex.qtepoch = ex.fresh('epoch', IntSort())
        enc_ = uf('obs_isEncrypted', [c, ex.qtepoch], BoolSort())
        k = ex.choose(4)
        log = lambda: tail(ex, n)
        if k == 0:
            fire(ex, c, 'readyRead', [])
            es = emits(ex, log())
            if not es:
                ex.oblige('received data is handed on once the connection is established', And(ssl, Not(enc_)), T15)
            else:
                ex.oblige('with TLS no data is handed on before the handshake finished', Implies(ssl, enc_), T14, detail=str(es)[:200])
                rd = [e for e in calls(ex, log()) if e.name in ('readAll', 'read', 'readLine', 'peek')]
                ok = len(rd) == 1 and rd[0].name in ('readAll', 'read') and str(rd[0].res.s).find('received') >= 0
                ex.oblige('everything that arrived is read once', ok, T15, detail=str(rd)[:200])
                ex.oblige('received bytes are announced exactly once', len(es) == 1 and sname(es[0]) == 'dataAvailable', TB, detail=str(es)[:200])
                if ok and len(es) == 1 and sname(es[0]) == 'dataAvailable':
                    ex.oblige('received bytes are handed on unchanged', And(iv(ex.load(es[0].args[0])) == c, QT.as_bytes(ex, ex.load(es[0].args[1])) == rd[0].res.s), T15)
        elif k == 1:
            fire(ex, c, 'encrypted', [])
            es = emits(ex, log())
            ex.oblige('with TLS a connection is announced once when the handshake finished', Implies(ssl, BoolVal(len(es) == 1 and sname(es[0]) == 'socketConnected' and iv(es[0].args[0]).eq(c))), TB, detail=str(es)[:200])
            tm = [e.obj for e in ex.log if e.kind == 'TimerStart']
            for t_ in tm[-1:]:
                ex.oblige('the time limit ends with the handshake', Not(b2(QT.timer_get(ex, t_, 'active'))), TB)
        elif k == 2:
            fire(ex, c, 'disconnected', [])
            es = emits(ex, log())
            ex.oblige('the disconnect of an established connection is reported once', Implies(Or(Not(ssl), enc_), BoolVal(len(es) == 1)), T15, detail=str(es)[:200])
            ex.oblige('a disconnect is reported at most once and as that', len(es) <= 1 and all(sname(e) == 'socketDisconnected' and iv(e.args[0]).eq(c) for e in es), TB, detail=str(es)[:200])
        else:
            for e in list(ex.conns):
                if sigkey(e.sig) in ('readyRead', 'encrypted', 'disconnected', 'timeout') or not same_obj(e.sender, c):
                    continue
                run(ex, e, None)
            ex.oblige('no other event of a socket announces anything', not emits(ex, log()), TB, detail=str(emits(ex, log()))[:200])
    g.verify(SSV + '::incomingConnection', body, {}, qtcall=qtcall)


def iv_(ex, x):
    if isinstance(x, PtrTo):
        x = ex.load(x.loc)
    return iv(x)


def fire_timer(ex, t):
    for e in list(ex.conns):
        if sigkey(e.sig) == 'timeout' and z3.simplify(iv_(ex, e.sender)).eq(z3.simplify(iv(t))):
            run(ex, e, [])


def slot(name):
    def f(ex, this, args, node):
        ex.log.append(Event('Slot', name=name, obj=this, args=args))
    return Fn(f)


@task('Tcp_startServer', ['C14', 'C15', 'C23'], ['TcpSocketServer::startServer', 'TcpSocketServer::TcpSocketServer'])
def t_tcp_start(g):
    SL = {TCP + '::' + n: slot(n) for n in ('onSocketConnected', 'onSocketDisconnected', 'onDataAvailable')}

    def ctor(ex):
        t = Int('transport')
        ex.assume(And(t > 0, t < ex.alloc0))
        fn = g.prog.find_fn(TCP + '::TcpSocketServer', 3)
        ssl, conf = z3.Bool('sslEnabled'), Opaque(T_CONF, Int('sslConfiguration'))
        ex.call_fn(fn, t, argvals=[ssl, conf, Int('parent')], is_ctor=True)
        ex.oblige('the transport keeps the TLS setting and the certificate', And(ex.tobool(ex.getf(t, TCP, 'm_sslEnabled', T_BOOL)) == ssl, same_conf(ex.getf(t, TCP, 'm_sslConfiguration', T_CONF), conf)), T14)
        ex.oblige('a new transport has no server', iv(ex.getf(t, TCP, 'm_server', T_PTR)) == 0, ('C23',))

    def body(ex):
        fn = need_fn(g, TCP + '::startServer', 0)
        t, v = begin_t(ex, TCP, fn)
        ex.assume(iv(ex.getf(t, TCP, 'm_server', T_PTR)) == 0)
        ssl, conf = ex.tobool(ex.getf(t, TCP, 'm_sslEnabled', T_BOOL)), ex.getf(t, TCP, 'm_sslConfiguration', T_CONF)
        r = ex.tobool(ex.load(ex.call_fn(fn, t, argvals=[])))
        nw = [e for e in ex.log if e.kind == 'New' and e.cls == SSV]
        m = iv(ex.getf(t, TCP, 'm_server', T_PTR))
        ls = [e for e in calls(ex) if e.name == 'listen']
        ex.oblige('starting reports success exactly if the server listens', r == (m != 0), ('C23',))
        ex.oblige('starting listens once', len(ls) == 1, ('C23',), detail=str(calls(ex))[:300])
        if not nw:
            ex.oblige('a server is made', False, TB)
            return
        s = nw[-1].ref
        ex.oblige('the server that was made is the one that runs', Implies(r, m == s), TB)
        ex.oblige('the server gets the TLS setting and the certificate of the transport', And(ex.tobool(ex.getf(s, SSV, 'm_sslEnabled', T_BOOL)) == ssl, same_conf(ex.getf(s, SSV, 'm_config', T_CONF), conf)), T14)
        if ls:
            listens_at(ex, t, TCP, ls[0])
        same_map(ex, v, TV(ex, t, TCP), 'starting adds no connection')
        if not ex.branch(r):
            return
        x, d = Int('socket'), unpack(Const('data', zsort(T_BA)), T_BA)
        for sig, sl, a in (('socketConnected', 'onSocketConnected', [x]), ('socketDisconnected', 'onSocketDisconnected', [x]), ('dataAvailable', 'onDataAvailable', [x, d])):
            n = len(ex.log)
            fire(ex, s, sig, a)
            evs = [e for e in tail(ex, n)]
            ok = len(evs) == 1 and evs[0].kind == 'Slot' and evs[0].name == sl and iv(evs[0].obj).eq(iv(t)) and iv(ex.load(evs[0].args[0])).eq(x)
            if ok and len(a) > 1:
                ok = QT.as_bytes(ex, ex.load(evs[0].args[1])).eq(d.s)
            ex.oblige('what the server reports reaches the transport once', ok, T15, detail='%s: %s' % (sig, str(evs)[:200]))
    verify(g, TCP + '::TcpSocketServer', TCP, ctor)
    verify(g, TCP + '::startServer', TCP, body, SL)


@task('Web_startServer', ['C14', 'C15', 'C23'], ['WebSocketServer::startServer', 'WebSocketServer::WebSocketServer', 'WebSocketServer::sslConfiguration'])
def t_web_start(g):
    SL = {WEB + '::' + n: slot(n) for n in ('onClientConnected',)}

    def ctor(ex):
        t = Int('transport')
        ex.assume(And(t > 0, t < ex.alloc0))
        fn = g.prog.find_fn(WEB + '::WebSocketServer', 3)
        ssl, conf = z3.Bool('sslEnabled'), Opaque(T_CONF, Int('sslConfiguration'))
        ex.call_fn(fn, t, argvals=[ssl, conf, Int('parent')], is_ctor=True)
        ex.oblige('the transport keeps the TLS setting and the certificate', And(ex.tobool(ex.getf(t, WEB, 'm_sslEnabled', T_BOOL)) == ssl, same_conf(ex.getf(t, WEB, 'm_sslConfiguration', T_CONF), conf)), T14)
        ex.oblige('a new transport has no server', iv(ex.getf(t, WEB, 'm_server', T_PTR)) == 0, ('C23',))

    def body(ex):
        fn = need_fn(g, WEB + '::startServer', 0)
        t, v = begin_t(ex, WEB, fn)
        ex.assume(iv(ex.getf(t, WEB, 'm_server', T_PTR)) == 0)
        ssl, conf = ex.tobool(ex.getf(t, WEB, 'm_sslEnabled', T_BOOL)), ex.getf(t, WEB, 'm_sslConfiguration', T_CONF)
        r = ex.tobool(ex.load(ex.call_fn(fn, t, argvals=[])))
        m = iv(ex.getf(t, WEB, 'm_server', T_PTR))
        nw = [x for x in ex.ghost.get('ctorargs', []) if x[0] == 'QWebSocketServer']
        cs = calls(ex)
        ls = [i for i, e in enumerate(cs) if e.name == 'listen']
        ex.oblige('starting reports success exactly if the server listens', r == (m != 0), ('C23',))
        ex.oblige('starting listens once', len(ls) == 1, ('C23',), detail=str(cs)[:300])
        if not nw or len(ls) != 1:
            ex.oblige('one server is made', False, TB)
            return
        _, s, a = nw[-1]
        ex.oblige('the server that was made is the one that runs', Implies(r, m == s), TB)
        secure = iv(a[1]) == QT.enum_value('SecureMode', ('cls', 'QWebSocketServer::SslMode'))
        ex.oblige('the WebSocket server runs in secure mode exactly if TLS is on', secure == ssl, T14, detail=str(a))
        sc = [i for i, e in enumerate(cs) if e.name == 'setSslConfiguration']
        ex.oblige('with TLS the WebSocket server has the configured certificate before it listens', Implies(ssl, BoolVal(bool(sc) and sc[-1] < ls[0])), T14, detail=str(cs)[:200])
        if sc:
            ex.oblige('with TLS the WebSocket server has the configured certificate before it listens', And(same_conf(ex.load(cs[sc[-1]].args[0]), conf), iv(cs[sc[-1]].obj) == s), T14)
        listens_at(ex, t, WEB, cs[ls[0]])
        same_map(ex, v, TV(ex, t, WEB), 'starting adds no connection')
        if not ex.branch(r):
            return
        n = len(ex.log)
        fire(ex, s, 'newConnection', [])
        evs = tail(ex, n)
        ex.oblige('a new connection is accepted once', len(evs) == 1 and evs[0].kind == 'Slot' and iv(evs[0].obj).eq(iv(t)), T15, detail=str(evs)[:200])
    verify(g, WEB + '::WebSocketServer', WEB, ctor)
    verify(g, WEB + '::startServer', WEB, body, SL)


@task('Unix_startServer', ['C15', 'C23'], ['UnixSocketServer::startServer'])
def t_unix_start(g):
    SL = {UNX + '::' + n: slot(n) for n in ('onClientConnected',)}

    def body(ex):
        fn = need_fn(g, UNX + '::startServer', 0)
        t, v = begin_t(ex, UNX, fn)
        ex.assume(iv(ex.getf(t, UNX, 'm_server', T_PTR)) == 0)
        r = ex.tobool(ex.load(ex.call_fn(fn, t, argvals=[])))
        m = iv(ex.getf(t, UNX, 'm_server', T_PTR))
        ls = [e for e in calls(ex) if e.name == 'listen']
        ex.oblige('starting reports success exactly if the server listens', r == (m != 0), ('C23',))
        ex.oblige('starting listens once', len(ls) == 1, ('C23',), detail=str(calls(ex))[:300])
        if ls:
            ex.oblige('it listens on the configured socket', And(iv(ls[0].obj) == m if False else True, QT.as_str(ex, ex.load(ls[0].args[0])) == ex.load(ex.getf(t, UNX, 'm_socketFileName', T_STR))), ('C23',))
        same_map(ex, v, TV(ex, t, UNX), 'starting adds no connection')
        if not ex.branch(r):
            return
        n = len(ex.log)
        fire(ex, m, 'newConnection', [])
        evs = tail(ex, n)
        ex.oblige('a new connection is accepted once', len(evs) == 1 and evs[0].kind == 'Slot' and iv(evs[0].obj).eq(iv(t)), T15, detail=str(evs)[:200])
    verify(g, UNX + '::startServer', UNX, body, SL)


def listens_at(ex, t, cls, e, T=('C23',)):
    """the server listens at host and port of the transport's URL"""
    u = ex.load(ex.getf(t, NS + 'TransportInterface', 'm_serverUrl', ('cls', 'QUrl')))
    a = [ex.load(x) for x in e.args]
    port = uf('qt_QUrl_port', [u.e], IntSort())
    want = QT.construct(ex, ('cls', 'QHostAddress'), [uf('qt_QUrl_host', [u.e], Str)], None, [T_STR])
    ex.oblige('the transport listens at the configured address', iv(a[0].e) == iv(want.e) if isinstance(a[0], Opaque) else False, T, detail=str(a)[:200])
    ex.oblige('the transport listens at the configured port', Implies(And(port >= 0, port < 65536), iv(a[1]) == port), T, detail=str(a)[:200])


def make_stop(cls):
    short = cls.split('::')[-1]

    @task(short + '_stop', ['C15', 'C23'], [short + '::stopServer'])
    def t(g):
        def body(ex):
            fn = need_fn(g, cls + '::stopServer', 0)
            t, v = begin_t(ex, cls, fn)
            s0 = iv(ex.load(ex.getf(t, cls, 'm_server', T_PTR)))
            r = ex.tobool(ex.load(ex.call_fn(fn, t, argvals=[])))
            ex.oblige('stopping succeeds', r, ('C23',))
            ex.oblige('a stopped transport has no server', iv(ex.getf(t, cls, 'm_server', T_PTR)) == 0, ('C23',))
            down = [iv(e.obj) == s0 for e in ex.log if e.kind == 'DeleteLater' or e.kind == 'QtCall' and e.name == 'close'] + [iv(e.ref) == s0 for e in ex.log if e.kind == 'Delete']
            ex.oblige('a stopped transport does not listen any more', Implies(s0 != 0, Or(*down) if down else BoolVal(False)), ('C23',), detail=str(ex.log)[:200])
            ex.oblige('stopping leaves reporting the disconnects to the sockets', not emits(ex), T15)
            same_map(ex, v, TV(ex, t, cls), 'stopping forgets no connection by itself')
        verify(g, cls + '::stopServer', cls, body, {cls + '::killClientConnection': slot('kill')})


for _c in (TCP, WEB, UNX):
    make_stop(_c)
