"""Contracts of the JSON-RPC client (C20): JsonRpcClient and JsonReply."""
from vals import *
from ex import *
from task import task, TASKS
from contracts import Fn, Contract
from specs.slip import need_fn, enc, dec, SLIP, END
import qt as QT
import specs.core as core
from specs.core import enter, T_PTR, vmap_get, num_is, str_is
from specs.transports import emits, sname, sigkey, same_obj

CN = 'remoteproxyclient::'
PC, JC, JR = CN + 'ProxyConnection', CN + 'JsonRpcClient', CN + 'JsonReply'
I32 = ('int', 32, True)
T_REPLIES = ('tmpl', 'QHash', (I32, ('ptr', ('cls', JR))))
T = ('C20',)
ASSUME = 'fewer than 2^31 requests are made on one connection'


def table(ex, o): return ex.load(ex.getf(o, JC, 'm_replies', T_REPLIES))
def nextid(ex, o): return iv(ex.load(ex.getf(o, JC, 'm_commandId', I32)))
def rid(ex, r): return iv(ex.load(ex.getf(r, JR, 'm_commandId', I32)))
def buf(ex, o): return ex.load(ex.getf(o, JC, 'm_dataBuffer', T_BA)).s


def jinv(ex, o, k):
    m = table(ex, o)
    r = ex.sel(m.val, k)
    return [('an unanswered request has an id that was given out', Implies(ex.sel(m.dom, k), And(k >= 0, k < nextid(ex, o)))),
            ('an unanswered request is kept under its own id', Implies(ex.sel(m.dom, k), And(r > 0, rid(ex, r) == k)))]


def prove_jinv(ex, o, what):
    k = ex.fresh('any', IntSort())
    for n, f in jinv(ex, o, k):
        ex.oblige('%s keeps: %s' % (what, n), f, T)
    ex.oblige('%s keeps: ids count up from 0' % what, nextid(ex, o) >= 0, T)


def begin(ex, fn):
    o = Int('client')
    ex.assume(And(o > 0, o < ex.alloc0))
    m = HashV(Const('R_dom', ArraySort(IntSort(), BoolSort())), Const('R_val', ArraySort(IntSort(), IntSort())), Int('R_cnt'), I32, T_REPLIES[2][1])
    ex.assume(Int('R_cnt') >= 0)
    ex.setf(o, JC, 'm_replies', T_REPLIES, m)
    c = iv(ex.load(ex.getf(o, JC, 'm_connection', T_PTR)))
    ex.assume(And(c > 0, c < ex.alloc0, c != o))
    k = Int('jk')
    for n, f in jinv(ex, o, k):
        ex.assume(ForAll([k], f, patterns=[ex.sel(m.dom, k)]), quant=True)
    # every reply of the table exists already
    ex.assume(ForAll([k], Implies(ex.sel(m.dom, k), ex.sel(m.val, k) < ex.alloc0), patterns=[ex.sel(m.dom, k)]), quant=True)
    ex.assume(And(nextid(ex, o) >= 0, nextid(ex, o) < 2 ** 31 - 1))
    enter(ex, fn, o)
    ex.ghost['o'] = o
    return o, c, m


def c_send(ex, this, args, node):
    ex.log.append(Event('Sent', obj=iv(this), data=ex.load(args[0]).s))


def on_emit(ex, q, this, vals):
    o = ex.ghost.get('o')
    if o is None:
        return
    e = ex.log[-1]
    e.a['table'] = table(ex, o)
    e.a['args'] = [ex.load(v) for v in vals]
    e.a['response'] = ex.load(ex.getf(this, JR, 'm_response', T_MAP)) if sname(e) == 'finished' else None


CON = {PC + '::sendData': Fn(c_send), **SLIP}
NAMES = {'callHello': ('RemoteProxy', 'Hello'), 'callRegisterServer': ('TunnelProxy', 'RegisterServer'), 'callRegisterClient': ('TunnelProxy', 'RegisterClient'),
         'callDisconnectClient': ('TunnelProxy', 'DisconnectClient'), 'callPing': ('TunnelProxy', 'Ping')}


def vstr(s):
    return vinj('String')(s)


def par(ex, p, k, want):
    """the parameter k of the request is the text / the number `want`"""
    d, v = vmap_get(ex, p, k)
    if want.sort() == Str:
        return And(d, v == vstr(want))
    return And(d, num_is(v, want))


def uuid_text(ex, v, u):
    return Or(v == vstr(QT.uuid_str(u)), v == vinj('Uuid')(u))


def make(name):
    ns, method = NAMES[name]
    slip = name in ('callDisconnectClient', 'callPing')

    @task('rpc_' + name, ['C20'], ['JsonRpcClient::' + name, 'JsonRpcClient::sendRequest', 'JsonReply::JsonReply', 'JsonReply::requestMap'], prog='client')
    def t(g):
        def body(ex):
            fn = [f for f in g.P.tu.fns(JC + '::' + name)][0] if False else need_fn(g, JC + '::' + name, {'callHello': 0, 'callRegisterServer': 2, 'callRegisterClient': 3}.get(name, 1))
            o, c, m = begin(ex, fn)
            n0 = nextid(ex, o)
            s, u, s2 = z3.String('name'), Int('uuid'), Int('uuid2')
            args = {'callHello': [], 'callRegisterServer': [u, s], 'callRegisterClient': [u, s, s2], 'callDisconnectClient': [Int('addr')], 'callPing': [Int('stamp')]}[name]
            if name == 'callDisconnectClient':
                ex.assume(And(Int('addr') >= 0, Int('addr') < 65536))
            if name == 'callPing':
                ex.assume(And(Int('stamp') >= 0, Int('stamp') < 2 ** 32))
            r = iv(ex.call_fn(fn, o, argvals=args))
            w = table(ex, o)
            k = ex.fresh('any', IntSort())
            ex.oblige('a request is kept until it is answered', And(ex.sel(w.dom, n0), ex.sel(w.val, n0) == r), T)
            ex.oblige('other requests are not touched', Implies(k != n0, And(ex.sel(w.dom, k) == ex.sel(m.dom, k), Implies(ex.sel(m.dom, k), ex.sel(w.val, k) == ex.sel(m.val, k)))), T)
            ex.oblige('a request is an object of its own', And(r >= ex.alloc0, rid(ex, r) == n0), T)
            ex.oblige('no id is given out twice', nextid(ex, o) > n0, T)
            sent = [e for e in ex.log if e.kind == 'Sent']
            ex.oblige('a request is sent once', len(sent) == 1 and not emits(ex), T, detail=str(sent)[:200])
            prove_jinv(ex, o, 'a request')
            if len(sent) != 1:
                return
            ex.oblige('a request is sent on the connection', sent[0].obj == c, T)
            j = None
            for v, b in ex.ghost.get('json', []):
                p = Concat(b, Unit(IntVal(10)))
                if slip:
                    p = Concat(enc(Concat(Unit(IntVal(0)), Unit(IntVal(0)), p))[0], Unit(IntVal(END)))
                if ex.prove(sent[0].data == p):
                    j = vmap_of(ex, v)
            ex.oblige('a request is one packet' + (', a frame with address 0' if slip else ''), j is not None, T)
            if j is None:
                return
            d, i = vmap_get(ex, j, 'id')
            dm, mv = vmap_get(ex, j, 'method')
            ex.oblige('the sent request carries its id', And(d, num_is(i, n0)), T)
            ex.oblige('the sent request names the method', And(dm, mv == vstr(StringVal(ns + '.' + method))), T)
            if name != 'callHello':
                dp, pv = vmap_get(ex, j, 'params')
                ex.oblige('the sent request has parameters', dp, T)
                p = vmap_of(ex, pv)
                if name == 'callRegisterServer':
                    ex.oblige('the server announces its own name and id', And(par(ex, p, 'serverName', s), vmap_get(ex, p, 'serverUuid')[0], uuid_text(ex, vmap_get(ex, p, 'serverUuid')[1], u)), T)
                elif name == 'callRegisterClient':
                    ex.oblige('the client announces its own name and id and the id of the server', And(par(ex, p, 'clientName', s), vmap_get(ex, p, 'clientUuid')[0], uuid_text(ex, vmap_get(ex, p, 'clientUuid')[1], u),
                              vmap_get(ex, p, 'serverUuid')[0], uuid_text(ex, vmap_get(ex, p, 'serverUuid')[1], s2)), T)
                elif name == 'callDisconnectClient':
                    ex.oblige('the client to disconnect is named by its address', par(ex, p, 'socketAddress', Int('addr')), T)
                else:
                    ex.oblige('a ping carries the given time', par(ex, p, 'timestamp', Int('stamp')), T)
        g.verify(JC + '::' + name, body, CON, on_emit=on_emit)


for _n in NAMES:
    make(_n)


def vmap_of(ex, v):
    return unpack(QT.vout(ex, v, 'Map'), T_MAP)


def packet(ex, data):
    """(is JSON, has a usable id, the id, is a notification, the text of the notification, getter)"""
    v = QT.jval(data)
    m = vmap_of(ex, v)

    def get(k):
        d, x = vmap_get(ex, m, k)
        return d, If(d, x, VNULL)
    idv = get('id')[1]
    return QT.jerr(data) == 0, uf('v_conv_ok_Int', [idv], BoolSort()), QT.vout(ex, idv, 'Int'), m, get


@task('rpc_processDataPacket', ['C20', 'C18'], ['JsonRpcClient::processDataPacket', 'JsonReply::setResponse'], prog='client')
def t_packet(g):
    def body(ex):
        fn = need_fn(g, JC + '::processDataPacket', 1)
        o, c, m = begin(ex, fn)
        n0 = nextid(ex, o)
        data = unpack(Const('data', zsort(T_BA)), T_BA)
        ex.call_fn(fn, o, argvals=[data])
        ok, idok, id_, jm, get = packet(ex, data.s)
        note = get('notification')[0]
        mine = And(ok, idok, Not(note), ex.sel(m.dom, id_))
        es = emits(ex)
        fin = [e for e in es if sname(e) == 'finished']
        w = table(ex, o)
        k = ex.fresh('any', IntSort())
        ex.oblige('a packet finishes at most one request', len(fin) <= 1, T)
        if not fin:
            ex.oblige('a reply to an unanswered request finishes it', Not(mine), T)
            ex.oblige('a packet that is no reply answers no request', Implies(ex.sel(m.dom, k), And(ex.sel(w.dom, k), ex.sel(w.val, k) == ex.sel(m.val, k))), T)
        else:
            e = fin[0]
            ex.oblige('only a reply to an unanswered request finishes one', mine, T)
            ex.oblige('a reply finishes exactly the request with its id', And(iv(e.obj) == ex.sel(m.val, id_), rid(ex, iv(e.obj)) == id_), T)
            ex.oblige('a finished request is not pending any more', Not(ex.sel(e.a['table'].dom, id_)), T)
            ex.oblige('other requests stay pending', Implies(And(k != id_, ex.sel(m.dom, k)), And(ex.sel(e.a['table'].dom, k), ex.sel(e.a['table'].val, k) == ex.sel(m.val, k))), T)
            x = e.a['response']
            ex.oblige('the request has its reply when it finishes', And(x.dom == jm.dom, x.val == jm.val), T)
            ex.oblige('a reply does nothing else', len(es) == 1, T, detail=str(es)[:200])
        ex.oblige('no request is added by a packet', Implies(ex.sel(w.dom, k), ex.sel(m.dom, k)), T)
        ex.oblige('a packet gives out no id', nextid(ex, o) == n0, T)
        ex.oblige('a packet sends nothing', not [e for e in ex.log if e.kind == 'Sent'], T)
        sig = [e for e in es if e not in fin]
        ex.oblige('a packet is reported at most once', len(sig) <= 1, T, detail=str(sig)[:200])
        for e in sig:
            ex.oblige('only a notification is reported', And(ok, note), T)
        nt = QT.vout(ex, get('notification')[1], 'String')
        p = vmap_of(ex, get('params')[1])

        def pget(kk):
            d, x = vmap_get(ex, p, kk)
            return If(d, x, VNULL)
        addr = QT.vout(ex, pget('socketAddress'), 'UInt')
        # an address is a JSON number of 16 bits; anything else is no address
        isaddr = And(QT.vt_of(pget('socketAddress')) == 6, addr >= 0, addr < 65536)
        ex.assume(Implies(isaddr, addr == QT.vout(ex, pget('socketAddress'), 'Int') % 2 ** 32))
        r = uf('str_split_46', [nt], SeqSort(Str))
        for a, b in (('TunnelProxy', 'ClientConnected'), ('TunnelProxy', 'ClientDisconnected')):
            # the definition of split() for these texts
            ex.assume(Implies(nt == StringVal(a + '.' + b), And(Length(r) == 2, r[0] == StringVal(a), r[1] == StringVal(b))))
        con = And(ok, note, nt == StringVal('TunnelProxy.ClientConnected'))
        dis = And(ok, note, nt == StringVal('TunnelProxy.ClientDisconnected'))
        N = T + ('C18',)
        if not sig:
            ex.oblige('a notification about a new client is reported', Not(con), N)
            ex.oblige('a notification about a lost client is reported', Not(dis), N)
        for e in sig:
            a, nm = e.a['args'], sname(e)
            if nm == 'tunnelProxyClientConnected':
                ex.oblige('only a connect notification reports a new client', Not(dis), N)
                ex.oblige('a new client is reported with its address', Implies(isaddr, iv(a[3]) == addr), N)
                for what, i, key, kind, ty in (('name', 0, 'clientName', 'String', T_STR), ('UUID', 1, 'clientUuid', 'Uuid', T_UUID), ('peer address', 2, 'clientPeerAddress', 'String', T_STR)):
                    ex.oblige('a new client is reported with its ' + what, pack(ex.load(a[i]), ty) == QT.vout(ex, pget(key), kind), N)
            elif nm == 'tunnelProxyClientDisonnected':
                ex.oblige('only a disconnect notification reports a lost client', Not(con), N)
                ex.oblige('a lost client is reported with its address', Implies(isaddr, iv(a[0]) == addr), N)
            else:
                ex.oblige('a notification about a client is reported as such', And(Not(con), Not(dis)), N)
        prove_jinv(ex, o, 'a packet')
    g.verify(JC + '::processDataPacket', body, CON, on_emit=on_emit)


def c_packet(ex, this, args, node):
    """processDataPacket: slots of the application run inside; they may make requests, take the
    buffered data and feed further data"""
    o = ex.ghost['o']
    ex.log.append(Event('Packet', data=ex.load(args[0]).s, rest=buf(ex, o), obj=iv(this)))
    ex.setf(o, JC, 'm_dataBuffer', T_BA, unpack(ex.fresh('buf', zsort(T_BA)), T_BA))


SEP = b'}\n'


@task('rpc_processData', ['C20', 'C18', 'C19'], ['JsonRpcClient::processData', 'JsonRpcClient::takeBufferedData'], prog='client')
def t_data(g):
    def on_iter_begin(ex, L, k, *a):
        ex.ghost['ib'] = buf(ex, ex.ghost['o'])

    def on_iter(ex, L, k, seqinfo, log, post):
        b = ex.ghost['ib']
        evs = [e for e in log if e.kind in ('Packet', 'Emit', 'Sent')]
        ex.oblige('every packet is handled once', len(evs) == 1 and evs[0].kind == 'Packet', T, detail=str(evs)[:200])
        if len(evs) == 1 and evs[0].kind == 'Packet':
            e = evs[0]
            j = ex.fresh('any', IntSort())
            QT.index_inst(ex, b, SEP, j)
            ex.oblige('a packet ends at a separator', QT.match_at(b, Length(e.data) - 1, SEP), T)
            ex.oblige('no earlier separator is part of a packet', Implies(And(j >= 0, j < Length(e.data) - 1), Not(QT.match_at(b, j, SEP))), T)
            ex.oblige('what follows a packet is kept, nothing else', b == Concat(e.data, Unit(IntVal(10)), e.rest), T + ('C18', 'C19'))

    def body(ex):
        fn = need_fn(g, JC + '::processData', 1)
        o, c, m = begin(ex, fn)
        data = unpack(Const('data', zsort(T_BA)), T_BA)
        b0 = buf(ex, o)
        ex.ghost['start'] = Concat(b0, data.s)
        ex.call_fn(fn, o, argvals=[data])
        j = ex.fresh('any', IntSort())
        QT.index_inst(ex, buf(ex, o), SEP, j)
        ex.oblige('no complete packet is left behind', Implies(j >= 0, Not(QT.match_at(buf(ex, o), j, SEP))), T)
        n = [e for e in ex.log if e.kind in ('Packet', 'LoopSeg')]
        if not n:
            ex.oblige('incomplete data waits for the rest of the packet', buf(ex, o) == Concat(b0, data.s), T + ('C18', 'C19'))

    def cands(ex, L, snap, views):
        o = ex.ghost['o']
        out = []
        if not views and False:
            return out
        return [('nothing is lost before the first packet', lambda e, k: Implies(k == 0, buf(e, o) == e.ghost['start']))]
    g.verify(JC + '::processData', body, {**CON, JC + '::processDataPacket': Fn(c_packet)}, on_emit=on_emit, on_iter=on_iter, on_iter_begin=on_iter_begin, loop_cands=cands)

    def take(ex):
        fn = need_fn(g, JC + '::takeBufferedData', 0)
        o, c, m = begin(ex, fn)
        b0 = buf(ex, o)
        r = ex.call_fn(fn, o, argvals=[])
        ex.oblige('taking the buffered data hands over all of it', ex.load(r).s == b0, ('C18', 'C19'))
        ex.oblige('buffered data is handed over once', Length(buf(ex, o)) == 0, ('C18', 'C19'))
        ex.oblige('taking the buffered data does nothing else', not [e for e in ex.log if e.kind not in ('New', 'Connect')], ('C18', 'C19'))
    g.verify(JC + '::takeBufferedData', take, CON, on_emit=on_emit)
