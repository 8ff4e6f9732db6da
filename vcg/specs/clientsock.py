"""Contracts of the client's transports (C21): TcpSocketConnection, WebSocketConnection, ProxyConnection."""
import re
from vals import *
from ex import *
from task import task, TASKS
from contracts import Fn, Contract
from specs.slip import need_fn
import qt as QT
import frontend as F
from specs.core import enter, T_PTR
from specs.transports import fire, emits, sname, sigkey, tail, same_obj, run, txt, calls

CN = 'remoteproxyclient::'
PC, TCPC, WSC = CN + 'ProxyConnection', CN + 'TcpSocketConnection', CN + 'WebSocketConnection'
SOCK = {TCPC: ('m_tcpSocket', 'QSslSocket'), WSC: ('m_webSocket', 'QWebSocket')}
T = ('C21',)
# operations that make a TLS socket accept what it would refuse
RELAX = ('ignoreSslErrors', 'setPeerVerifyMode', 'setPeerVerifyName', 'setPeerVerifyDepth', 'setSslConfiguration', 'addCaCertificate', 'addCaCertificates', 'setCaCertificates',
         'setDefaultConfiguration', 'setDefaultCaCertificates', 'addDefaultCaCertificate', 'addDefaultCaCertificates', 'setProtocol', 'setCiphers', 'setSslOption',
         'connectToHostEncrypted_relaxed', 'startClientEncryption_relaxed', 'continueInterruptedHandshake', 'setPauseMode')
OPENS = ('connectToHost', 'connectToHostEncrypted', 'open', 'startClientEncryption', 'setSocketDescriptor', 'startServerEncryption')
CONNECTED_STATE = 3


def b(ex, o, f, cls): return ex.tobool(ex.getf(o, cls, f, T_BOOL))
def sock(ex, o, cls): return iv(ex.load(ex.getf(o, cls, SOCK[cls][0], T_PTR)))


def no_relax(ex, log, what):
    bad = [e for e in log if e.kind == 'QtCall' and e.name in RELAX]
    ex.oblige(what + ' does not make the connection accept TLS errors', not bad, T, detail=str(bad)[:200])


def qtcall(ex, cls, ref, name, a, n, const):
    o = ex.ghost.get('o')
    if o is not None and name in OPENS:
        ex.ghost['ssl_at'] = b(ex, o, 'm_ssl', TCPC) if ex.ghost['cls'] == TCPC else None
    return NotImplemented


def created(ex, g, cls):
    """a new connection object, its sockets and handlers set up by the constructor of the class"""
    o = Int('connection')
    ex.assume(And(o > 0, o < ex.alloc0))
    fn = g.prog.find_fn(cls + '::' + cls.split('::')[-1], 1)
    if fn is None:
        raise ToolLimit('constructor of ' + cls)
    ex.ghost['recvcls'] = cls
    ex.ghost['o'], ex.ghost['cls'] = o, cls
    ex.this_cls = cls
    ex.call_fn(fn, o, argvals=[Int('parent')], is_ctor=True)
    return o


def later(ex, o, cls):
    """the object at any later moment: an encrypted connection has been requested or not, it is reported as connected or not"""
    s = sock(ex, o, cls)
    ex.setf(o, PC, 'm_connected', T_BOOL, z3.Bool('was_connected'))
    if cls == TCPC:
        ex.setf(o, TCPC, 'm_ssl', T_BOOL, z3.Bool('ssl'))
    ex.qtepoch = ex.fresh('epoch', IntSort())
    return s


def changes(ex, log): return [e for e in log if e.kind == 'Emit' and sname(e) == 'connectedChanged']


def check_events(g, cls):
    short = cls.split('::')[-1]

    def wiring(ex):
        o = created(ex, g, cls)
        no_relax(ex, ex.log, 'creating a connection')
        s = sock(ex, o, cls)
        ex.oblige('a new connection is not connected', Not(b(ex, o, 'm_connected', PC)), T)
        sigs = sorted({sigkey(e.sig) for e in ex.conns if same_obj(e.sender, s)})
        other = [e for e in ex.conns if not same_obj(e.sender, s)]
        ex.oblige('the handlers belong to the socket of the connection', not other, T, detail=str(other)[:200])
        later(ex, o, cls)
        was = z3.Bool('was_connected')
        ssl = z3.Bool('ssl') if cls == TCPC else BoolVal(False)
        cand = sorted(set(sigs) | {'sslErrors', 'stateChanged', 'disconnected'} | ({'encrypted'} if cls == TCPC else set()))
        sig = cand[ex.choose(len(cand))]
        n = len(ex.log)
        up = BoolVal(False)      # the connection is established, encrypted if encryption was asked for
        if sig == 'sslErrors':
            errs = ex.fresh('errors', IntSort())
            m = fire(ex, s, sig, [Opaque(('tmpl', 'QList', (('cls', 'QSslError'),)), errs)])
            es = emits(ex, tail(ex, n))
            ex.oblige('TLS errors are handed to the application, once', len(es) == 1 and sname(es[0]) == 'sslErrors' and same_obj(es[0].obj, o), T, detail=str(es)[:200])
            if len(es) == 1 and sname(es[0]) == 'sslErrors':
                x = ex.load(es[0].args[0])
                ex.oblige('the application gets the TLS errors that occurred', (x.e if isinstance(x, Opaque) else iv(x)) == errs, T)
        elif sig == 'stateChanged':
            state = Int('socket_state')
            ex.assume(And(state >= 0, state <= 6))
            fire(ex, s, sig, [state])
            up = And(state == CONNECTED_STATE, Not(ssl))
            cs = changes(ex, tail(ex, n))
            ex.oblige('an established connection is reported', Implies(And(up, Not(was)), BoolVal(len(cs) >= 1)), T)
            ex.oblige('a lost connection is reported', Implies(And(state == 0, was), BoolVal(len(cs) >= 1)), T)
            es = [e for e in emits(ex, tail(ex, n)) if sname(e) == 'stateChanged']
            ex.oblige('the state of the socket is passed on', And(BoolVal(len(es) == 1), iv(ex.load(es[0].args[0])) == state) if es else False, ('C19', 'C22'))
        elif sig == 'disconnected':
            fire(ex, s, sig, [])
            cs = changes(ex, tail(ex, n))
            ex.oblige('a lost connection is reported', Implies(was, BoolVal(len(cs) >= 1)), T + ('C19', 'C22'))
        elif sig == 'encrypted':
            fire(ex, s, sig, [])
            up = BoolVal(True)
            cs = changes(ex, tail(ex, n))
            ex.oblige('an encrypted connection is reported', Implies(Not(was), BoolVal(len(cs) >= 1)), T)
        elif sig in ('error', 'errorOccurred'):
            fire(ex, s, sig, [Int('code')])
        elif sig == 'connected':
            fire(ex, s, sig, [])
            up = Not(ssl)
        elif sig == 'readyRead':
            fire(ex, s, sig, [])
            check_read(ex, tail(ex, n))
        elif sig in ('textMessageReceived', 'binaryMessageReceived'):
            x = z3.String('message') if sig[0] == 't' else unpack(Const('message', zsort(T_BA)), T_BA)
            fire(ex, s, sig, [x])
            es = emits(ex, tail(ex, n))
            ex.oblige('a received message is handed on once', len(es) == 1 and sname(es[0]) == 'dataReceived', ('C18', 'C19'), detail=str(es)[:200])
            if len(es) == 1 and sname(es[0]) == 'dataReceived':
                ex.oblige('a received message is handed on unchanged', QT.as_bytes(ex, ex.load(es[0].args[0])) == (QT.utf8(x) if sig[0] == 't' else x.s), ('C18', 'C19'))
        else:
            for e in list(ex.conns):
                if sigkey(e.sig) == sig:
                    run(ex, e, None)
        log = tail(ex, n)
        no_relax(ex, log, 'an event of the socket')
        op = [e for e in log if e.kind == 'QtCall' and e.name in OPENS]
        ex.oblige('an event of the socket opens no connection', not op, T, detail=str(op)[:200])
        now = b(ex, o, 'm_connected', PC)
        for e in changes(ex, log):
            ex.oblige('a connection is reported as connected only once it is established, and encrypted if that was asked for', Implies(ex.tobool(ex.load(e.args[0])), up), T)
        ex.oblige('a connection counts as connected only once it is established, and encrypted if that was asked for', Implies(And(now, Not(was)), up), T)
        ex.oblige('a change is reported, each once', And(BoolVal(len(changes(ex, log)) <= 1), Implies(now != was, BoolVal(len(changes(ex, log)) == 1))), T, detail=str(changes(ex, log))[:200])
        for e in changes(ex, log):
            ex.oblige('the reported connection state is the one in effect', ex.tobool(ex.load(e.args[0])) == now, T + ('C19', 'C22'))
    g.verify(cls + '::' + short, wiring, {}, qtcall=qtread)


def qtread(ex, cls, ref, name, a, n, const):
    if name in ('readAll', 'read', 'readLine', 'peek'):
        r = unpack(ex.fresh('received' if name == 'readAll' else 'partial', zsort(T_BA)), T_BA)
        ex.qtepoch = ex.fresh('epoch', IntSort())
        ex.log.append(Event('QtCall', cls=cls, name=name, obj=ref, args=a, res=r, epoch=ex.qtepoch))
        return r
    return qtcall(ex, cls, ref, name, a, n, const)


def check_read(ex, log):
    D = ('C18', 'C19')
    rd = [e for e in log if e.kind == 'QtCall' and e.name in ('readAll', 'read', 'readLine', 'peek')]
    es = [e for e in log if e.kind == 'Emit']
    ok = len(rd) == 1 and rd[0].name == 'readAll'
    ex.oblige('everything that arrived is read once', ok, D, detail=str(rd)[:200])
    ex.oblige('received data is handed on once', len(es) == 1 and sname(es[0]) == 'dataReceived', D, detail=str(es)[:200])
    if ok and len(es) == 1 and sname(es[0]) == 'dataReceived':
        ex.oblige('received data is handed on unchanged', QT.as_bytes(ex, ex.load(es[0].args[0])) == rd[0].res.s, D)


def check_calls(g, cls):
    short = cls.split('::')[-1]

    def begin(ex, name, np):
        fn = need_fn(g, cls + '::' + name, np)
        o = Int('connection')
        ex.assume(And(o > 0, o < ex.alloc0))
        s = sock(ex, o, cls)
        ex.assume(And(s > 0, s < ex.alloc0, s != o))
        enter(ex, fn, o)
        ex.ghost['o'], ex.ghost['cls'] = o, cls
        return fn, o, s

    def connect(ex):
        fn, o, s = begin(ex, 'connectServer', 1)
        url = Opaque(('cls', 'QUrl'), Int('url'))
        ex.call_fn(fn, o, argvals=[url])
        no_relax(ex, ex.log, 'connecting')
        cs = calls(ex)
        for e in cs:
            ex.oblige('connecting touches only the socket of the connection', iv(e.obj) == s, T, detail=str(e)[:200])
        op = [e for e in cs if e.name in OPENS]
        ex.oblige('one connection is opened', len(op) == 1, T + ('C22',), detail=str(op)[:200])
        u = ex.load(ex.getf(o, PC, 'm_serverUrl', ('cls', 'QUrl')))
        ex.oblige('the address of the proxy is remembered', u.e == url.e, T + ('C22',))
        for e in changes(ex, ex.log):
            ex.oblige('connecting does not report a connection', Not(ex.tobool(ex.load(e.args[0]))), T)
        if len(op) != 1:
            return
        a = [ex.load(x) for x in op[0].args]
        if cls == TCPC:
            if op[0].name == 'connectToHost':
                ex.oblige('an unencrypted connection is made only if the address asks for one', scheme(ex, url) == StringVal('tcp'), T)
            else:
                ex.oblige('a connection is encrypted unless the address asks for an unencrypted one', op[0].name == 'connectToHostEncrypted', T, detail=op[0].name)
                ex.oblige('an encrypted connection is marked as such before it is opened', ex.ghost['ssl_at'], T)
                ex.oblige('the certificate is verified for the host of the address', And(QT.as_str(ex, a[0]) == urlpart(ex, url, 'host'), BoolVal(all(not z3.is_expr(x) or x.sort() != Str for x in a[2:]))), T, detail=str(a)[:200])
        else:
            ex.oblige('the connection is opened to the given address', a[0].e == url.e if isinstance(a[0], Opaque) else False, T, detail=str(a)[:200])

    def urlpart(ex, u, m): return uf('qt_QUrl_' + m, [u.e], Str)

    def scheme(ex, u): return urlpart(ex, u, 'scheme')

    def disconnect(ex):
        fn, o, s = begin(ex, 'disconnectServer', 0)
        ex.call_fn(fn, o, argvals=[])
        no_relax(ex, ex.log, 'disconnecting')
        cs = calls(ex)
        for e in cs:
            ex.oblige('disconnecting touches only the socket of the connection', iv(e.obj) == s, T, detail=str(e)[:200])
        ex.oblige('disconnecting closes the socket', bool([e for e in cs if e.name in ('close', 'abort', 'disconnectFromHost')]), T + ('C19', 'C22'))
        ex.oblige('disconnecting opens nothing', not [e for e in cs if e.name in OPENS], T + ('C22',))

    def send(ex):
        fn, o, s = begin(ex, 'sendData', 1)
        data = unpack(Const('data', zsort(T_BA)), T_BA)
        ex.call_fn(fn, o, argvals=[data])
        no_relax(ex, ex.log, 'sending')
        D = ('C18', 'C19')
        cs = [e for e in calls(ex) if e.name not in ('flush',)]
        ex.oblige('data is written once, to the socket of the connection', And(BoolVal(len(cs) == 1 and cs[0].name in ('write', 'sendTextMessage', 'sendBinaryMessage')), iv(cs[0].obj) == s) if cs else False, D, detail=str(cs)[:200])
        if len(cs) == 1 and cs[0].name in ('write', 'sendTextMessage', 'sendBinaryMessage'):
            x = cs[0].args[0]
            if cs[0].name == 'sendTextMessage':
                r = QT.to_utf8(ex, QT.as_str(ex, x))
                out = r.s if isinstance(r, BA) else r
                t = z3.String('some_text')
                ex.assume(QT.from_utf8(QT.utf8(t)) == t)
                ex.oblige('the data is written unchanged (WebSocket text: data that is valid UTF-8)', Implies(data.s == QT.utf8(t), out == data.s), D)
                ex.oblige('the data is written unchanged (WebSocket text: any data)', out == data.s, D + ('finding:websocket-text',))
            else:
                ex.oblige('the data is written unchanged', QT.as_bytes(ex, x) == data.s, D)

    def ignore(np):
        def f(ex):
            fn, o, s = begin(ex, 'ignoreSslErrors', np)
            errs = Int('errors')
            ex.call_fn(fn, o, argvals=[Opaque(('tmpl', 'QList', (('cls', 'QSslError'),)), errs)] if np else [])
            cs = calls(ex)
            ex.oblige('the choice of the application reaches the socket', And(BoolVal(len(cs) == 1 and cs[0].name == 'ignoreSslErrors' and len([x for x in cs[0].args if x is not None]) == np), iv(cs[0].obj) == s) if cs else False, T, detail=str(cs)[:200])
            if np and len(cs) == 1 and cs[0].args:
                x = ex.load(cs[0].args[0])
                ex.oblige('only the chosen errors are ignored', (x.e if isinstance(x, Opaque) else iv(x)) == errs, T, detail=str(x))
        return f
    g.verify(cls + '::connectServer', connect, {}, qtcall=qtcall)
    g.verify(cls + '::disconnectServer', disconnect, {}, qtcall=qtcall)
    g.verify(cls + '::sendData', send, {}, qtcall=qtcall)
    for np in (0, 1):
        g.verify(cls + '::ignoreSslErrors', ignore(np), {}, qtcall=qtcall)


for _c in (TCPC, WSC):
    def _mk(cls):
        short = cls.split('::')[-1]

        @task(short + '_events', ['C21', 'C18', 'C19', 'C22'], [short + '::' + x for x in (short, 'onDisconnected', 'onError', 'onStateChanged')] + ['ProxyConnection::setConnected'], prog='client')
        def t(g):
            check_events(g, cls)

        @task(short + '_calls', ['C21', 'C18', 'C19', 'C22'], [short + '::' + x for x in ('connectServer', 'disconnectServer', 'sendData', 'ignoreSslErrors')], prog='client')
        def t2(g):
            check_calls(g, cls)
    _mk(_c)


# ---------------------------------------------------------------- frame condition of the whole library
def names_in(node, tu, out):
    """names of the functions and methods a piece of code refers to"""
    k = node.get('kind')
    if k == 'MemberExpr':
        out.add(node.get('name', ''))
    elif k in ('DeclRefExpr', 'UnresolvedLookupExpr', 'UnresolvedMemberExpr', 'CXXDependentScopeMemberExpr'):
        r = node.get('referencedDecl') or node
        out.add(r.get('name', ''))
    elif k == 'StringLiteral':
        m = re.match(r'^"?[12](\w+)\(', node.get('value', ''))
        if m:
            out.add(m.group(1))
        for x in re.findall(r'\w+', node.get('value', '')):
            if x in RELAX:
                out.add(x)
    for c in node.get('inner', []):
        if isinstance(c, dict):
            names_in(c, tu, out)


@task('client_tls_frame', ['C21'], ['(all functions of the client library)'], prog='client')
def t_frame(g):
    """no function of the library but ignoreSslErrors, called by the application only, relaxes TLS"""
    fns = {}
    for f in g.prog.files:
        tu = g.prog.tu(f)
        for q, l in tu.fns.items():
            if q.startswith(CN) or '/libnymea-remoteproxyclient/' in f and not q.startswith('Q'):
                for fn in l:
                    s = set()
                    names_in(fn.node, tu, s)
                    fns.setdefault(q, set()).update(s)
    short = lambda q: q.split('::')[-1]
    if len(fns) < 40:
        raise ToolLimit('functions of the client library: %d' % len(fns))
    bad = {q for q, s in fns.items() if s & set(RELAX)}
    while True:
        nm = {short(q) for q in bad}
        new = {q for q, s in fns.items() if q not in bad and s & nm}
        if not new:
            break
        bad |= new
    good = {q for q in fns if short(q) == 'ignoreSslErrors'}
    while True:
        callers = {q: [p for p, x in fns.items() if p != q and p in bad and short(q) in x] for q in bad}
        new = {q for q in bad - good if callers[q] and all(p in good for p in callers[q])}
        if not new:
            break
        good |= new
    for q in sorted(fns):
        g.lemma('%s does not make a connection accept TLS errors on its own' % q.replace(CN, ''), [], BoolVal(q not in bad or q in good), T)
