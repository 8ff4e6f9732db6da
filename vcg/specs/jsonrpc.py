"""Contracts of the control plane: JsonRpcServer (requests, responses, notifications)."""
from vals import *
from ex import *
from task import task, TASKS
from contracts import Fn, Contract
from specs.slip import enc, END, SLIP, need_fn
import qt as QT
from specs.core import *
import specs.core as core

JH, RP, TPH, JT = NS + 'JsonHandler', NS + 'JsonReply', NS + 'TunnelProxyHandler', NS + 'JsonTypes'
T_SS = ('tmpl', 'QHash', (T_STR, T_STR))
T_SM = ('tmpl', 'QHash', (T_STR, T_MAP))
T_HANDLERS = ('tmpl', 'QHash', (T_STR, ('ptr', ('cls', JH))))
T_VRES = ('tmpl', 'QPair', (T_BOOL, T_STR))


def valid(t, m):
    """the parameter map m conforms to the template t (defined in the validation tasks)"""
    return uf('valid_map', [pack(t, T_MAP), pack(m, T_MAP)], BoolSort())


def c_validateMap(ex, this, args, node):
    t, m = args
    return StructV(pair_name(T_VRES), {'first': valid(t, m), 'second': ex.fresh('msg', Str)})


def live(v, c):
    """precondition of control plane calls: c is a connection object; if its id is registered, then to it"""
    P = v.P
    return And(c > 0, c < v.bound, v.iface(c) > 0, Implies(v.ex.sel(P.dom, v.cid(c)), v.ex.sel(P.val, v.cid(c)) == c))


def framed(w, c, payload):
    """the bytes a control packet is sent as"""
    f = Concat(enc(Concat(Unit(IntVal(0)), Unit(IntVal(0)), payload))[0], Unit(IntVal(END)))
    return If(w.f(TC, 'm_slipEnabled', c), f, payload)


def nl(x):
    return Concat(x, Unit(IntVal(10)))


def vmap_of(ex, v):
    return unpack(QT.vout(ex, v, 'Map'), T_MAP)


def json_of(ex, data, w, c):
    """the JSON object that was sent as `data` to c (the one whose serialisation it is)"""
    for v, r in ex.ghost.get('json', []):
        if ex.prove(data == framed(w, c, nl(r))):
            return vmap_of(ex, v)
    return None


def tx_counted(ex, v, w, sends, tags):
    o = ex.fresh('any', IntSort())
    k = (TC, 'm_txDataCount')
    if not sends:
        ex.oblige('nothing sent, nothing counted', Implies(And(o > 0, o < v.bound), w.f(*k, o) == v.f(*k, o)), tags)


@task('sendNotification', ['C07', 'C09', 'C16'], ['JsonRpcServer::sendNotification', 'TransportClient::sendData', 'TransportClient::addTxDataCount'])
def t_notify(g):
    def body(ex):
        fn = need_fn(g, JR + '::sendNotification', 4)
        srv, v = begin(ex)
        jr = v.jr
        enter(ex, fn, jr)
        c = Int('client')
        ex.assume(And(c > 0, c < v.bound, v.iface(c) > 0))
        ns, m = z3.String('nameSpace'), z3.String('method')
        params = unpack(Const('params', zsort(T_MAP)), T_MAP)
        tx = v.f(TC, 'm_txDataCount', c)
        ex.call_fn(fn, jr, argvals=[ns, m, params, c])
        w = V(ex, srv)
        evs = quiet_but(ex)
        T = ('C07', 'C09')
        ex.oblige('a notification is one message', len(evs) == 1 and evs[0].kind == 'SendData', T, detail=str(evs)[:200])
        if len(evs) == 1 and evs[0].kind == 'SendData':
            x = evs[0]
            ex.oblige('the notification goes to the given connection', And(iv(x.iface) == v.iface(c), iv(x.id) == v.cid(c)), T)
            j = json_of(ex, x.data.s, v, c)
            ex.oblige('the notification is sent as one packet in the framing of the connection, address 0', j is not None, T)
            if j is not None:
                dn, n = vmap_get(ex, j, 'notification')
                dp, p = vmap_get(ex, j, 'params')
                ex.oblige('the notification carries the given name', And(dn, n == vinj('String')(Concat(ns, z3.StringVal('.'), m))), T)
                ex.oblige('the notification carries the given parameters', And(dp, vmap_of(ex, p).dom == params.dom, vmap_of(ex, p).val == params.val), T)
            n = Length(x.data.s)
            ex.oblige('sent bytes are counted exactly once', And(w.f(TC, 'm_txDataCount', c) == (tx + n) % M64,
                      w.arr('ghost', 'sent') == Store(v.arr('ghost', 'sent'), v.cid(c), (v.f('ghost', 'sent', v.cid(c)) + n) % M64)), ('C16',))
        o = ex.fresh('any', IntSort())
        for key in FT:
            a, b = v.arr(*key), w.arr(*key)
            if a.eq(b) or key in ((JR, 'm_notificationId'), ('ghost', 'sent')):
                continue
            if key == (TC, 'm_txDataCount'):
                ex.oblige('no other connection is charged', Implies(o != c, ex.sel(b, o) == ex.sel(a, o)), ('C16',))
            else:
                ex.oblige('a notification leaves %s alone' % key[1], Implies(And(o > 0, o < v.bound), ex.sel(b, o) == ex.sel(a, o)), T)
    g.verify('JsonRpcServer::sendNotification', body, {k: x for k, x in CORE.items() if k != JR + '::sendNotification'})


# ---------------------------------------------------------------- requests
def handler_maps(ex, h):
    g = lambda f, t: ex.getf(h, JH, f, t)
    return g('m_descriptions', T_SS), g('m_params', T_SM), g('m_returns', T_SM)


def has_method(ex, h, name):
    return And(*[ex.sel(m.dom, name) for m in handler_maps(ex, h)])


def c_invoke(ex, this, vals, node):
    """QMetaObject::invokeMethod of a published method (each of them is verified in the handler tasks)"""
    h, name = vals[0], vals[1]
    from ex import Loc
    name = ex.load(name) if isinstance(name, Loc) else name
    h = ex.load(h) if isinstance(h, Loc) else h
    s = name.s if isinstance(name, Py) and hasattr(name, 's') else name.s if isinstance(name, BA) else None
    if s is not None and z3.is_app(s) and s.num_args() == 1 and s.arg(0).sort() == zsort(T_BA):
        s = s.arg(0)
    if s is None or not z3.is_app(s) or s.num_args() != 1 or s.arg(0).sort() != Str:
        raise ToolLimit('name of the invoked method: %s %s' % (name, s))
    mname = s.arg(0)
    rets = [x for x in vals if isinstance(x, Py) and x.kind == 'qret']
    args = [ex.load(x.v) if isinstance(x.v, Loc) else x.v for x in vals if isinstance(x, Py) and x.kind == 'qarg']
    if len(rets) != 1 or len(args) != 2 or not isinstance(args[0], HashV):
        raise ToolLimit('arguments of invokeMethod')
    params, client = args
    direct = [x for x in vals[2:3] if isinstance(x, int)]
    srv = ex.pre.srv
    v = V(ex, srv)
    ex.log.append(Event('Invoke', handler=iv(h), method=mname, params=params, client=iv(client)))
    ex.oblige('methods are invoked directly', direct == [1], ('C11',))
    ex.oblige('only an existing method is executed', has_method(ex, iv(h), mname), ('C11',))
    ex.oblige('only validated parameters are executed', valid(unpack(ex.sel(handler_maps(ex, iv(h))[1].val, mname), T_MAP), params), ('C11', 'C12'))
    ex.oblige('the method acts for the connection that sent the request', live(v, iv(client)), ('C11',))
    registry_effect(ex, srv, iv(client), 'executing a request')
    r = ex.alloc()
    w = V(ex, srv)
    ty = Int('reply_type')
    ex.assume(Or(ty == 0, ty == 1))
    ex.setf(r, RP, 'm_type', T_INT, ty)
    data = ex.havoc_value(T_MAP, 'reply_data')
    ex.setf(r, RP, 'm_data', T_MAP, data)
    ex.ghost['reply'] = (r, ty, data, w)
    rets[0].loc.write(ex, r)
    return True


JSON = {k: x for k, x in CORE.items()}
JSON.update({JT + '::validateMap': Fn(c_validateMap), 'qt::invokeMethod': Fn(c_invoke)})
del JSON[JR + '::sendNotification']


def request(ex, data):
    """what a control packet asks for: (valid JSON, id usable, id, method text, params)"""
    v = QT.jval(data)
    ok = QT.jerr(data) == 0
    m = vmap_of(ex, v)

    def get(k):
        d, x = vmap_get(ex, m, k)
        return If(d, x, VNULL)
    idv = get('id')
    idok = uf('v_conv_ok_Int', [idv], BoolSort())
    return ok, idok, QT.vout(ex, idv, 'Int'), QT.vout(ex, get('method'), 'String'), vmap_of(ex, get('params')), get


@task('processDataPacket', ['C11', 'C08', 'C12', 'C13', 'C16', 'C09'], ['JsonRpcServer::processDataPacket', 'JsonRpcServer::sendResponse', 'JsonRpcServer::sendErrorResponse', 'JsonHandler::hasMethod', 'JsonHandler::validateParams'], heavy=6)
def t_packet(g):
    def body(ex):
        fn = need_fn(g, JR + '::processDataPacket', 2)
        srv, v = begin(ex)
        jr = v.jr
        enter(ex, fn, jr)
        any_iface(ex)
        c = Int('client')
        ex.assume(live(v, c))
        data = unpack(Const('data', zsort(T_BA)), T_BA)
        H = ex.getf(jr, JR, 'm_handlers', T_HANDLERS)
        ex.call_fn(fn, jr, argvals=[c, data])
        settle(ex)
        w = V(ex, srv)
        T = ('C11',)
        ok, idok, id_, mtext, params, get = request(ex, data.s)
        one, nsp, mname = QT.one_sep(mtext, '.')
        h = ex.sel(H.val, nsp)
        exists = And(ok, idok, one, ex.sel(H.dom, nsp), h != 0)
        evs = quiet_but(ex)
        kinds = [e.kind for e in evs]
        inv_ = [e for e in evs if e.kind == 'Invoke']
        sends = [e for e in evs if e.kind == 'SendData']
        kills = [e for e in evs if e.kind == 'Kill']
        wantid = If(And(ok, idok), id_, IntVal(-1))
        ex.oblige('a packet executes at most one method', len(inv_) <= 1, T)
        asyn = inv_ and 'reply' in ex.ghost and not sends
        if not asyn:
            ex.oblige('every control packet is answered exactly once', len(sends) == 1, T, detail=str(kinds))
        else:
            r, ty, rd, wr = ex.ghost['reply']
            ex.oblige('only a pending reply is answered later', ty == 1, T)
            ar = unpack(w.f(JR, 'm_asyncReplies', jr), FT[(JR, 'm_asyncReplies')])
            ex.oblige('a pending reply is kept with its connection and request id', And(ex.sel(ar.dom, r), ex.sel(ar.val, r) == c, iv(ex.getf(r, RP, 'm_commandId', T_INT)) == id_), T)
            cs = [e for e in ex.conns if ex.prove(iv(e.sender) == r)]
            ex.oblige('a pending reply is answered when it finishes', len(cs) == 1 and str(cs[0].sig).endswith('finished') and isinstance(cs[0].handler, FnRef) and cs[0].handler.q == JR + '::asyncReplyFinished', T)
            ex.oblige('a pending reply does not close the connection', not kills, T)
        ex.oblige('a packet closes at most one connection', len(kills) <= 1, T)
        for e in sends[:1]:
            ws = v if not inv_ else ex.ghost['reply'][3]
            ex.oblige('the answer goes to the connection that sent the request', And(iv(e.id) == v.cid(c), iv(e.iface) == v.iface(c)), T)
            j = json_of(ex, e.data.s, ws, c)
            ex.oblige('the answer is sent as one packet in the framing of the connection, address 0', j is not None, T)
            if j is not None:
                d, x = vmap_get(ex, j, 'id')
                ds, st = vmap_get(ex, j, 'status')
                ex.oblige('the answer carries the id of the request, or -1 if it has none', And(d, num_is(x, wantid)), T)
                if inv_:
                    dp, p = vmap_get(ex, j, 'params')
                    rd = ex.ghost['reply'][2]
                    ex.oblige('an executed request is answered with success and its result', And(ds, st == vinj('String')(z3.StringVal('success')), dp, vmap_of(ex, p).dom == rd.dom, vmap_of(ex, p).val == rd.val), T)
                else:
                    de, er = vmap_get(ex, j, 'error')
                    ex.oblige('a refused request is answered with an error', And(ds, st == vinj('String')(z3.StringVal('error')), de), T)
        for e in kills:
            ex.oblige('only the connection that sent the request is closed', And(iv(e.id) == v.cid(c), iv(e.iface) == v.iface(c)), T)
        if inv_:
            e = inv_[0]
            ex.oblige('the executed method is the requested one', And(exists, e.handler == h, e.method == mname, e.client == c), T)
            ex.oblige('the executed method gets the parameters of the request', And(e.params.dom == params.dom, e.params.val == params.val), T)
            r, ty, rd, wr = ex.ghost['reply']
            kreq = wr.f(TC, 'm_killConnectionRequested', c)
            if not asyn:
                ex.oblige('a finished reply is answered at once', ty == 0, T)
                ex.oblige('the connection is closed after the answer exactly if the method asked for it', BoolVal(len(kills) == 1) == kreq, ('C11', 'C08'))
                ex.oblige('first the answer, then the close', kinds == ['Invoke', 'SendData'] + ['Kill'] * len(kills), ('C11', 'C08'), detail=str(kinds))
                slip0, slip1 = wr.f(TC, 'm_slipEnabled', c), w.f(TC, 'm_slipEnabled', c)
                if not kills:
                    ex.oblige('framed mode starts right after the answer if it was requested', slip1 == Or(slip0, wr.f(TC, 'm_slipAfterResponseEnabled', c)), ('C08', 'C11'))
        else:
            bad = has_method(ex, h, mname)
            tm = unpack(ex.sel(handler_maps(ex, h)[1].val, mname), T_MAP)
            ex.oblige('only an invalid request is refused', Not(And(exists, bad, valid(tm, params))), T)
            ex.oblige('a refused request is answered, then the connection is closed', kinds == ['SendData', 'Kill'], T, detail=str(kinds))
        prove_inv(ex, w, 'a control packet', ('C08', 'C09'))
        prove_R(ex, v, w, c, 'a control packet', ('C08',))
    g.verify('JsonRpcServer::processDataPacket', body, JSON, on_kill=kill_generic)


# ---------------------------------------------------------------- data in JSON mode
def c_packet(ex, this, args, node):
    """processDataPacket (proved above): one Packet event, effect R"""
    c, data = args
    ex.log.append(Event('Packet', client=iv(c), data=data.s))
    srv = ex.pre.srv
    ex.oblige('packets are processed for the connection that sent them', live(V(ex, srv), iv(c)), ('C11', 'C04'))
    registry_effect(ex, srv, iv(c), 'a control packet')


PDATA = dict(JSON)
PDATA.update({JR + '::processDataPacket': Fn(c_packet), TPC + '::processData': Fn(c_frames), TC + '::processData': Fn(c_frames)})


@task('jsonProcessData', ['C04', 'C11', 'C08', 'C13', 'C16'], ['JsonRpcServer::processData', 'TransportClient::bufferSize'], heavy=4)
def t_processData(g):
    def cands(ex, L, snap, views):
        d = ex.ghost.get('data')
        return reg_cands(ex, L, d[0], d[1]) if d else []

    def on_iter(ex, L, k, seqinfo, log, post):
        v, c = ex.ghost['data']
        evs = [e for e in log if e.kind not in ('New', 'Emit', 'Connect', 'Delete', 'LoopSeg', 'DeleteLater')]
        frames = ex.ghost.get('frames')
        if frames is None:
            return
        ex.oblige('no more packets are handled than were received', k < Length(frames), ('C04', 'C11'))
        pk = unpack(frames[k], T_BA).s
        ex.oblige('every packet is processed once', len(evs) == 1 and evs[0].kind == 'Packet', ('C04', 'C11'), detail=str(evs)[:300])
        if len(evs) == 1 and evs[0].kind == 'Packet':
            ex.oblige('the packet is processed unchanged for its sender', And(evs[0].client == c, evs[0].data == pk), ('C04', 'C11'))

    def body(ex):
        fn = need_fn(g, JR + '::processData', 2)
        srv, v = begin(ex)
        jr = v.jr
        enter(ex, fn, jr)
        any_iface(ex)
        c = Int('client')
        ex.assume(live(v, c))
        data = unpack(Const('data', zsort(T_BA)), T_BA)
        ex.ghost['data'] = (v, c)
        ex.call_fn(fn, jr, argvals=[c, data])
        w = V(ex, srv)
        T = ('C04',)
        evs = [e for e in ex.log if e.kind not in ('New', 'Emit', 'Connect', 'Delete', 'DeleteLater')]
        kinds = [e.kind for e in evs]
        member = QT.mem(ex, v.clients, c)
        re_ = [e for e in evs if e.kind == 'Reassemble']
        if not re_:
            ex.oblige('only data of unknown connections is ignored', And(Not(member), BoolVal(not evs)), T, detail=str(kinds))
        else:
            x = re_[0]
            ex.oblige('received data is taken apart once, unchanged', And(iv(x.client) == c, x.data == data.s, BoolVal(len(re_) == 1)), T)
            rest = Length(x.buf.s)
            if 'Kill' in kinds:
                ex.oblige('only a connection with more than 10 KiB of undelivered data is closed here', rest > 10 * 1024, T)
                ex.oblige('a connection with too much undelivered data is closed without processing anything', kinds == ['Reassemble', 'Kill'], T, detail=str(kinds))
                k = [e for e in evs if e.kind == 'Kill'][0]
                ex.oblige('the connection that sent the data is closed', And(iv(k.id) == v.cid(c), iv(k.iface) == v.iface(c)), T)
            else:
                ex.oblige('a connection with more than 10 KiB of undelivered data is closed', rest <= 10 * 1024, T)
                if kinds == ['Reassemble']:
                    ex.oblige('all packets are processed', Length(x.frames) == 0, T)
                else:
                    ex.oblige('all packets are processed', evs[-1].k == Length(x.frames) if kinds == ['Reassemble', 'LoopSeg'] and not evs[-1].broken else False, T, detail=str(kinds))
        prove_inv(ex, w, 'control data', ('C08', 'C09'))
        prove_R(ex, v, w, c, 'control data', ('C08',))
    g.verify('JsonRpcServer::processData', body, PDATA, loop_cands=cands, on_iter=on_iter, on_kill=kill_generic)


@task('asyncReplyFinished', ['C11', 'C16', 'C08', 'C09', 'C13'], ['JsonRpcServer::asyncReplyFinished'])
def t_async(g):
    def body(ex):
        fn = need_fn(g, JR + '::asyncReplyFinished', 0)
        srv, v = begin(ex)
        jr = v.jr
        enter(ex, fn, jr)
        r = Int('reply')
        ex.assume(And(r > 0, r < ex.alloc0))
        ex.sender = r
        ar = unpack(v.f(JR, 'm_asyncReplies', jr), FT[(JR, 'm_asyncReplies')])
        c = ex.sel(ar.val, r)
        pending = And(ex.sel(ar.dom, r), c != 0)
        ex.assume(Implies(ex.sel(ar.dom, r), live(v, c)))
        ex.assume(iv(ex.getf(r, RP, 'm_handler', T_PTR)) > 0)
        cid_ = iv(ex.getf(r, RP, 'm_commandId', T_INT))
        rd = ex.getf(r, RP, 'm_data', T_MAP)
        to = ex.getf(r, RP, 'm_timedOut', T_BOOL)
        ok = ex.getf(r, RP, 'm_success', T_BOOL)
        ex.call_fn(fn, jr, argvals=[])
        settle(ex)
        w = V(ex, srv)
        T = ('C11',)
        evs = quiet_but(ex)
        sends = [e for e in evs if e.kind == 'SendData']
        kills = [e for e in evs if e.kind == 'Kill']
        ex.oblige('a finished reply is answered at most once', len(sends) <= 1 and len(evs) <= 2, T)
        if not sends:
            ex.oblige('only a reply whose connection is gone is not answered', And(Not(pending), BoolVal(not evs)), T)
        else:
            e = sends[0]
            ex.oblige('the answer goes to the connection that sent the request', And(pending, iv(e.id) == v.cid(c), iv(e.iface) == v.iface(c)), T)
            j = json_of(ex, e.data.s, v, c)
            ex.oblige('the answer is sent as one packet in the framing of the connection, address 0', j is not None, T)
            if j is not None:
                d, x = vmap_get(ex, j, 'id')
                ds, st = vmap_get(ex, j, 'status')
                ex.oblige('the answer carries the id of the request', And(d, num_is(x, cid_)), T)
                ex.oblige('a timed out request is answered with an error', And(ds, st == vinj('String')(If(to, z3.StringVal('error'), z3.StringVal('success')))), T)
                dp, p = vmap_get(ex, j, 'params')
                ex.oblige('a successful request is answered with its result', Implies(Not(to), And(dp, vmap_of(ex, p).dom == rd.dom, vmap_of(ex, p).val == rd.val)), T)
            ex.oblige('the connection of a failed request is closed after the answer', Implies(Or(to, Not(ok)), BoolVal([x.kind for x in evs] == ['SendData', 'Kill'])), T)
        for e in kills:
            ex.oblige('only the connection that sent the request is closed', And(pending, iv(e.id) == v.cid(c), iv(e.iface) == v.iface(c)), T)
            ex.oblige('only a failed request costs the connection', Or(to, Not(ok), v.f(TC, 'm_killConnectionRequested', c)), T)
        aw = unpack(w.f(JR, 'm_asyncReplies', jr), FT[(JR, 'm_asyncReplies')])
        if not kills:
            ex.oblige('a finished reply is not pending any more', Not(ex.sel(aw.dom, r)), T)
        prove_inv(ex, w, 'a finished reply', ('C08', 'C09'))
    g.verify('JsonRpcServer::asyncReplyFinished', body, JSON)
