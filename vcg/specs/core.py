"""Contracts: TunnelProxyServer and the objects it keeps (registry invariant, registration,
forwarding, teardown)."""
from vals import *
from ex import *
from loops import Fold
from task import task, TASKS
from contracts import Fn, Contract
from specs.slip import enc, dec, END, ESC, SLIP, need_fn
from specs.packets import rs, payload_ok, PKTS, QBA, heap_frame, mk
import qt as QT

NS = 'remoteproxy::'
S, TC, TPC = NS + 'TunnelProxyServer', NS + 'TransportClient', NS + 'TunnelProxyClient'
SCN, CCN, JR = NS + 'TunnelProxyServerConnection', NS + 'TunnelProxyClientConnection', NS + 'JsonRpcServer'
T_PTR = ('ptr', ('void',))
U16, U64, I32 = ('int', 16, False), ('int', 64, False), ('int', 32, True)


def hmap(kt, c):
    return ('tmpl', 'QHash', (kt, ('ptr', ('cls', c))))


FT = {
    (S, 'm_proxyClients'): hmap(T_UUID, TPC), (S, 'm_tunnelProxyServerConnections'): hmap(T_UUID, SCN), (S, 'm_tunnelProxyClientConnections'): hmap(T_UUID, CCN),
    (S, 'm_troughput'): I32, (S, 'm_troughputCounter'): I32, (S, 'm_jsonRpcServer'): T_PTR, (S, 'm_running'): T_BOOL,
    (TC, 'm_clientId'): T_UUID, (TC, 'm_uuid'): T_UUID, (TC, 'm_interface'): T_PTR, (TC, 'm_name'): T_STR, (TC, 'm_slipEnabled'): T_BOOL,
    (TC, 'm_slipAfterResponseEnabled'): T_BOOL, (TC, 'm_killConnectionRequested'): T_BOOL, (TC, 'm_killConnectionReason'): T_STR,
    (TC, 'm_rxDataCount'): U64, (TC, 'm_txDataCount'): U64, (TC, 'm_dataBuffer'): T_BA,
    (TPC, 'm_type'): I32, (TPC, 'm_inactiveTimer'): T_PTR,
    (SCN, 'm_transportClient'): T_PTR, (SCN, 'm_serverUuid'): T_UUID, (SCN, 'm_serverName'): T_STR, (SCN, 'm_currentAddressCounter'): U16,
    (SCN, 'm_clientConnections'): hmap(T_UUID, CCN), (SCN, 'm_clientConnectionsAddresses'): hmap(U16, CCN),
    (CCN, 'm_transportClient'): T_PTR, (CCN, 'm_serverConnection'): T_PTR, (CCN, 'm_clientUuid'): T_UUID, (CCN, 'm_serverUuid'): T_UUID, (CCN, 'm_clientName'): T_STR,
    (CCN, 'm_socketAddress'): U16,
    (JR, 'm_clients'): ('tmpl', 'QList', (('ptr', ('cls', TC)),)),
    (JR, 'm_asyncReplies'): ('tmpl', 'QHash', (('ptr', ('cls', NS + 'JsonReply')), ('ptr', ('cls', TC)))),
    (JR, 'm_notificationId'): I32,
    ('QTimer', 'active'): T_BOOL, ('QTimer', 'single'): T_BOOL, ('QTimer', 'interval'): I32,
    ('ghost', 'rxrestart'): T_BOOL,      # received data of this connection is connected to a handler
    ('ghost', 'sent'): U64,              # bytes handed to a transport so far, by connection id
}
NONE, SERVER, CLIENT = 0, 1, 2
C13_CLIENT = 'a registered client has no running inactivity timer'
C13_SERVER = 'a registered server has a running 60 s timer that received data restarts'
C13_OTHER = 'leaves the timers of all other connections alone'
C13_MODE, C13_TIME = C13_OTHER + ' (mode)', C13_OTHER + ' (interval)'
C13_INV = (C13_CLIENT, C13_SERVER, C13_OTHER, C13_MODE, C13_TIME)
C16_TX = 'the bytes handed to the transport are the bytes counted as sent'
M64 = 2 ** 64


def own_tag(nm, tags):
    """clauses that belong to a property of their own"""
    return ('C13',) if nm in C13_INV else ('C16',) if nm == C16_TX else tags


class V:
    """the heap at one moment, seen through the registry"""

    def __init__(self, ex, srv, heap=None):
        self.ex, self.srv = ex, srv
        for (c, f), t in FT.items():
            ex.harr(c, f, t)
        self.h = dict(ex.heap if heap is None else heap)
        self.bound = ex.alloc0 + ex.nalloc

    def arr(self, c, f):
        return self.h.get((c, f), self.ex.heap0[(c, f)])

    def f(self, c, f, r):
        return self.ex.sel(self.arr(c, f), r)

    def map(self, c, f, r):
        return unpack(self.f(c, f, r), FT[(c, f)])

    P = property(lambda s: s.map(S, 'm_proxyClients', s.srv))
    SC = property(lambda s: s.map(S, 'm_tunnelProxyServerConnections', s.srv))
    CC = property(lambda s: s.map(S, 'm_tunnelProxyClientConnections', s.srv))

    def cid(self, c): return self.f(TC, 'm_clientId', c)
    def uuid(self, c): return self.f(TC, 'm_uuid', c)
    def iface(self, c): return self.f(TC, 'm_interface', c)
    def type(self, c): return self.f(TPC, 'm_type', c)
    def timer(self, c): return self.f(TPC, 'm_inactiveTimer', c)
    def owner(self, t): return uf('qparent', [t], IntSort())
    def active(self, t): return self.f('QTimer', 'active', t)
    def single(self, t): return self.f('QTimer', 'single', t)
    def interval(self, t): return self.f('QTimer', 'interval', t)
    def s_tc(self, s): return self.f(SCN, 'm_transportClient', s)
    def s_uuid(self, s): return self.f(SCN, 'm_serverUuid', s)
    def addr(self, s): return self.map(SCN, 'm_clientConnectionsAddresses', s)
    def ccm(self, s): return self.map(SCN, 'm_clientConnections', s)
    def c_tc(self, c): return self.f(CCN, 'm_transportClient', c)
    def c_sc(self, c): return self.f(CCN, 'm_serverConnection', c)
    def c_uuid(self, c): return self.f(CCN, 'm_clientUuid', c)
    def c_addr(self, c): return self.f(CCN, 'm_socketAddress', c)
    jr = property(lambda s: s.f(S, 'm_jsonRpcServer', s.srv))
    clients = property(lambda s: s.f(JR, 'm_clients', s.jr))

    def inP(self, c):
        P = self.P
        return And(self.ex.sel(P.dom, self.cid(c)), self.ex.sel(P.val, self.cid(c)) == c)

    def inSC(self, s):
        M = self.SC
        return And(self.ex.sel(M.dom, self.s_uuid(s)), self.ex.sel(M.val, self.s_uuid(s)) == s)

    def inCC(self, c):
        M = self.CC
        return And(self.ex.sel(M.dom, self.c_uuid(c)), self.ex.sel(M.val, self.c_uuid(c)) == c)


def inv(v, td=None, leaving=None):
    """the registry invariant, as [(name, variables, body, patterns)].

    td: server connection that is being torn down right now (already removed from the
    registry, its clients not yet all detached), or None"""
    ex = v.ex
    k, u, w, a, x = Int('ik'), Int('iu'), Int('iw'), Int('ia'), Int('ix')
    P, SC, CC = v.P, v.SC, v.CC
    sel = ex.sel
    c = sel(P.val, k)
    s = sel(SC.val, u)
    cc = sel(CC.val, u)
    out = []

    def att(cc):
        """cc is attached to the server connection it names"""
        z = v.c_sc(cc)
        A, M = v.addr(z), v.ccm(z)
        known = v.inSC(z) if td is None else Or(v.inSC(z), z == td)
        return And(known, sel(A.dom, v.c_addr(cc)), sel(A.val, v.c_addr(cc)) == cc, sel(M.dom, v.c_uuid(cc)), sel(M.val, v.c_uuid(cc)) == cc)
    dk, du, dcu = sel(P.dom, k), sel(SC.dom, u), sel(CC.dom, u)
    out.append(('every registered connection is a live object under its own id', [k],
                Implies(dk, And(c > 0, c < v.bound, v.cid(c) == k, v.type(c) >= 0, v.type(c) <= 2, v.iface(c) > 0, v.timer(c) > 0)), [dk]))
    t = v.timer(c)
    out.append(('every connection has a timer of its own', [k], Implies(dk, And(t < v.bound, v.owner(t) == c)), [dk]))
    out.append((C13_CLIENT, [k], Implies(And(dk, v.type(c) == CLIENT), Not(v.active(t))), [dk]))
    out.append((C13_SERVER, [k], Implies(And(dk, v.type(c) == SERVER), And(v.active(t), Not(v.single(t)), v.interval(t) == 60000, v.f('ghost', 'rxrestart', c))), [dk]))
    out.append((C16_TX, [k], Implies(dk, v.f(TC, 'm_txDataCount', c) == v.f('ghost', 'sent', k)), [dk]))
    out.append(('every server entry belongs to a registered server connection', [u],
                Implies(du, And(s > 0, s < v.bound, v.s_uuid(s) == u, v.inP(v.s_tc(s)), v.type(v.s_tc(s)) == SERVER, v.uuid(v.s_tc(s)) == u)), [du]))
    out.append(('every connection registered as server has its server entry', [k],
                Implies(And(dk, v.type(c) == SERVER), And(sel(SC.dom, v.uuid(c)), v.s_tc(sel(SC.val, v.uuid(c))) == c)), [dk]))
    out.append(('every client entry belongs to a registered client connection', [u],
                Implies(dcu, And(cc > 0, cc < v.bound, v.c_uuid(cc) == u, v.inP(v.c_tc(cc)), v.type(v.c_tc(cc)) == CLIENT, v.uuid(v.c_tc(cc)) == u,
                                 Or(v.c_sc(cc) == 0, att(cc)))), [dcu]))
    out.append(('every connection registered as client has its client entry', [k],
                Implies(And(dk, v.type(c) == CLIENT), And(sel(CC.dom, v.uuid(c)), v.c_tc(sel(CC.val, v.uuid(c))) == c)), [dk]))
    out.append(('no UUID is used by a server and a client', [u], Not(And(du, dcu)), [du]))

    def addresses(s, guard):
        A, M = v.addr(s), v.ccm(s)
        e, m = sel(A.val, a), sel(M.val, w)
        return [('addresses are unique per server, never reserved, and name an attached client', [a],
                 Implies(And(guard, sel(A.dom, a)), And(a > 0, a < 0xFFFF, v.inCC(e), v.c_addr(e) == a, v.c_sc(e) == s)), [sel(A.dom, a)]),
                ('the clients of a server are registered clients attached to it', [w],
                 Implies(And(guard, sel(M.dom, w)), And(v.inCC(m), v.c_uuid(m) == w, v.c_sc(m) == s)), [sel(M.dom, w)])]
    for nm, vs, b, pat in addresses(s, du):
        out.append((nm, [u] + vs, b, [z3.MultiPattern(du, pat[0])]))
    if leaving is not None:
        out.append(('the leaving connection is off the registry', [], And(leaving > 0, leaving < v.bound, Not(v.inP(leaving)), v.type(leaving) == SERVER)))
        out[-1] += (None,)
    if td is not None:
        out.append(('torn down server is off the registry', [], And(td > 0, td < v.bound, Not(v.inSC(td))), []))
        out += [(nm + ' (torn down server)', vs, b, pat) for nm, vs, b, pat in addresses(td, BoolVal(True))]
    jc = v.clients
    out.append(('the control plane knows every registered connection', [k], Implies(dk, QT.mem(ex, jc, c)), [dk]))
    out.append(('the control plane knows no other connection', [x], Implies(QT.mem(ex, jc, x), v.inP(x) if leaving is None else Or(v.inP(x), x == leaving)), None))
    return out


def memo(ex, tag, v, make):
    """make() for the heap of v, computed once per heap"""
    cache = ex.xp.__dict__.setdefault('icache', {})
    arrs = [v.arr(*k) for k in FT]
    key = tag + tuple(a.get_id() for a in arrs) + (z3.simplify(v.bound).get_id(),)
    if key not in cache:
        cache[key] = (make(), arrs, z3.simplify(v.bound))
        ex.xp.keep.append(cache[key])
    return cache[key][0]


def vid(ex, v):
    ex.xp.keep.append(v)
    return tuple(v.arr(*k).get_id() for k in FT) + (v.bound.get_id() if z3.is_expr(v.bound) else v.bound,)


def inv_cand(v0, n, td=None, leaving=None):
    """the n-th clause of the invariant as loop invariant candidate"""
    def f(e, k):
        w = V(e, v0.srv)
        ids = tuple(x.get_id() if x is not None else 0 for x in (td, leaving))

        def make():
            m = mem_pat(e, w)
            return [(ForAll(it[1], it[2], patterns=[m(it[1][0])]) if m else ForAll(it[1], it[2])) if it[3] is None and it[1] else close(it) for it in inv(w, td, leaving)]
        return memo(e, ('inv',) + ids, w, make)[n]
    return f


def reg_cands(ex, L, v, c):
    """registry invariant and R (relative to state v) as loop invariant candidates"""
    dummy = V(ex, v.srv)
    out = [(it[0], inv_cand(v, n), True) for n, it in enumerate(inv(dummy))]
    for n, it in enumerate(R(v, dummy, c)):
        out.append((it[0], lambda e, k, n=n: memo(e, ('R', vid(e, v), c.get_id()), V(e, v.srv), lambda: [close(x) for x in R(v, V(e, v.srv), c)])[n], True))
    return out


def close(item):
    nm, vs, b, pat = item
    if not vs:
        return b
    if pat and not any(has_ite(p) for p in pat):
        return ForAll(vs, b, patterns=pat)
    return ForAll(vs, b)


def has_ite(e):
    if isinstance(e, z3.PatternRef):
        return any(has_ite(c) for c in e.children())
    return (z3.is_app(e) and e.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT)) or any(has_ite(c) for c in e.children())


def assume_inv(ex, v, td=None, leaving=None):
    for it in inv(v, td, leaving):
        if it[3] is None and it[1]:
            m = mem_pat(ex, v)
            if m is not None:
                ex.assume(ForAll(it[1], it[2], patterns=[m(it[1][0])]), quant='inv')
            continue
        ex.assume(close(it), quant='inv' if it[1] else False)


def mem_pat(ex, v):
    s = v.clients
    if z3.is_app(s) and s.decl().kind() in (z3.Z3_OP_SEQ_CONCAT, z3.Z3_OP_SEQ_UNIT, z3.Z3_OP_SEQ_EMPTY):
        return None
    return lambda x: uf('mem', [s, x], BoolSort())


def prove_inv(ex, v, what, tags, td=None, leaving=None):
    for nm, vs, b, pat in inv(v, td, leaving):
        # a counterexample would be some key: name it
        cs = [ex.fresh('any', IntSort()) for _ in vs]
        ex.oblige('%s keeps: %s' % (what, nm), z3.substitute(b, *[(a, c) for a, c in zip(vs, cs)]) if vs else b, own_tag(nm, tags))


def begin(ex, srv=None, td=None, leaving=None):
    """arbitrary reachable state: the registry invariant holds"""
    srv = Int('server') if srv is None else srv
    ex.assume(srv > 0)
    ex.assume(srv < ex.alloc0)
    for (c, f), t in FT.items():
        ex.harr(c, f, t)
    for f, nm in (('m_proxyClients', 'P'), ('m_tunnelProxyServerConnections', 'SC'), ('m_tunnelProxyClientConnections', 'CC')):
        t = FT[(S, f)]
        ex.setf(srv, S, f, t, HashV(Const(nm + '_dom', ArraySort(IntSort(), BoolSort())), Const(nm + '_val', ArraySort(IntSort(), IntSort())), Int(nm + '_cnt'), t[2][0], t[2][1]))
        ex.assume(Int(nm + '_cnt') >= 0)
    jr = Int('jsonrpc')
    ex.setf(srv, S, 'm_jsonRpcServer', T_PTR, jr)
    ex.assume(And(jr > 0, jr < ex.alloc0, jr != srv))
    v = V(ex, srv)
    assume_inv(ex, v, td, leaving)
    ex.pre = v
    return srv, v


# ---------------------------------------------------------------- boundary contracts
def settle(ex):
    """remember the traffic counters as they are now for what was sent before this point"""
    for e in ex.log:
        if e.kind == 'SendData' and 'tx' not in e.a:
            e.a['tx'] = ex.harr(TC, 'm_txDataCount', U64)


def count_sent(ex, id_, n):
    a = ex.harr('ghost', 'sent', U64)
    ex.heap[('ghost', 'sent')] = Store(a, iv(id_), (ex.sel(a, iv(id_)) + n) % M64)


def c_send(ex, this, args, node):
    settle(ex)
    count_sent(ex, args[0], Length(args[1].s))
    ex.log.append(Event('SendData', iface=this, id=args[0], data=args[1]))


def c_client_send(ex, this, args, node):
    """TransportClient::sendData (proved in task TransportClient_sendData)"""
    settle(ex)
    this = iv(this)
    iface = iv(ex.getf(this, TC, 'm_interface', T_PTR))
    ex.oblige('data is sent to connections with a transport', iface > 0, ('C05', 'C06', 'C11', 'C16'))
    ex.assume(iface > 0)
    d = ex.load(args[0]) if isinstance(args[0], Loc) else args[0]
    n = ex.fresh('sent', IntSort())
    ex.assume(And(n >= 0, n == Length(d.s)))
    id_ = iv(ex.getf(this, TC, 'm_clientId', T_UUID))
    ex.log.append(Event('SendData', iface=iface, id=id_, data=d))
    ex.setf(this, TC, 'm_txDataCount', U64, (iv(ex.getf(this, TC, 'm_txDataCount', U64)) + n) % M64)
    count_sent(ex, id_, n)


def c_kill(ex, this, args, node):
    settle(ex)
    ex.log.append(Event('Kill', iface=this, id=args[0]))
    h = ex.xp.opt.get('on_kill')
    if h:
        h(ex, this, args[0])


def c_notify(ex, this, args, node):
    """JsonRpcServer::sendNotification (proved in task notify)"""
    ns, m, params, client = args
    ex.nonnull(client, node)
    ex.log.append(Event('Notify', ns=ns, method=m, params=params, client=client, this=this))
    n = ex.fresh('tx', IntSort())
    ex.assume(n >= 1)
    ex.setf(client, TC, 'm_txDataCount', U64, (iv(ex.getf(client, TC, 'm_txDataCount', U64)) + n) % M64)
    count_sent(ex, ex.getf(client, TC, 'm_clientId', T_UUID), n)
    ex.setf(this, JR, 'm_notificationId', I32, ex.havoc_value(I32, 'nid'))


def c_engine(ex, this, args, node):
    e = Int('the_engine')
    ex.assume(e > 0)
    return e


def c_conf(ex, this, args, node):
    e = Int('the_configuration')
    ex.assume(e > 0)
    return e


def c_timeout(ex, this, args, node):
    e = Int('inactive_timeout')
    ex.assume(And(e >= -2 ** 31, e < 2 ** 31))
    return e


CORE = dict(SLIP)
CORE.update({TC + '::sendData': Fn(c_client_send), NS + 'TransportInterface::sendData': Fn(c_send), NS + 'TransportInterface::killClientConnection': Fn(c_kill),
             JR + '::sendNotification': Fn(c_notify), NS + 'Engine::instance': Fn(c_engine), NS + 'Engine::configuration': Fn(c_conf),
             NS + 'ProxyConfiguration::inactiveTimeout': Fn(c_timeout)})


def quiet_but(ex, kinds=('New', 'Emit', 'Connect', 'Delete', 'LoopSeg', 'TimerStart', 'TimerStop', 'TimerSet', 'DeleteLater')):
    return [e for e in ex.log if e.kind not in kinds]


def enter(ex, fn, this):
    ex.frames.append(Frame(fn, this, fn.tu, fn.cls))


def same(ex, v, w, what, tags, keys=None):
    for key in (keys or FT):
        a, b = v.arr(*key), w.arr(*key)
        if not a.eq(b):
            ex.oblige('%s: %s unchanged' % (what, key[1]), a == b, tags)


ERR = {'NoError': 0, 'InvalidUuid': 1, 'InternalServerError': 2, 'ServerNotFound': 3, 'ForbiddenCall': 4, 'AlreadyRegistered': 5, 'NotRegistered': 6, 'UnknownSocketAddress': 7}


def R(v, w, c):
    """what a call made on behalf of connection c may do to the registry (both states satisfy inv)"""
    k, u, o = Int('rk'), Int('ru'), Int('ro')
    sel = v.ex.sel
    P, Q, M, N, C, D = v.P, w.P, v.SC, w.SC, v.CC, w.CC
    old = And(o > 0, o < v.bound)
    new_role = BoolVal(False) if is_int_value(c) else And(c != 0, v.type(c) == NONE)
    return [
        ('adds or replaces no connection', [k], Implies(sel(Q.dom, k), And(sel(P.dom, k), sel(Q.val, k) == sel(P.val, k))), [sel(Q.dom, k)]),
        ('leaves role and UUID of every other connection alone', [o], Implies(And(old, Or(o != c, Not(new_role))), And(w.type(o) == v.type(o), w.uuid(o) == v.uuid(o))), [w.type(o)]),
        ('leaves role and UUID of every other connection alone (UUID)', [o], Implies(And(old, Or(o != c, Not(new_role))), w.uuid(o) == v.uuid(o)), [w.uuid(o)]),
        ('adds at most the server of the calling connection', [u], Implies(sel(N.dom, u), Or(And(sel(M.dom, u), sel(N.val, u) == sel(M.val, u)), And(new_role, w.s_tc(sel(N.val, u)) == c, sel(N.val, u) >= v.bound))), [sel(N.dom, u)]),
        ('adds at most the client entry of the calling connection', [u], Implies(sel(D.dom, u), Or(And(sel(C.dom, u), sel(D.val, u) == sel(C.val, u)), And(new_role, w.c_tc(sel(D.val, u)) == c, sel(D.val, u) >= v.bound))), [sel(D.dom, u)]),
        ('leaves the id of every connection alone', [o], Implies(old, w.cid(o) == v.cid(o)), [w.cid(o)]),
        ('leaves the transport of every connection alone', [o], Implies(old, w.iface(o) == v.iface(o)), [w.iface(o)]),
        ('leaves the timer of every connection alone', [o], Implies(old, w.timer(o) == v.timer(o)), [w.timer(o)]),
        ('leaves the owner of every server entry alone', [o], Implies(old, w.s_tc(o) == v.s_tc(o)), [w.s_tc(o)]),
        ('leaves the owner of every client entry alone', [o], Implies(old, w.c_tc(o) == v.c_tc(o)), [w.c_tc(o)]),
        ('moves no client to another server', [o], Implies(And(old, w.c_sc(o) != 0), w.c_sc(o) == v.c_sc(o)), [w.c_sc(o)]),
        ('changes the address of no attached client', [o], Implies(And(old, w.inCC(o), w.c_sc(o) != 0), w.c_addr(o) == v.c_addr(o)), [w.c_addr(o)]),
        ('counts no received data', [o], Implies(old, w.f(TC, 'm_rxDataCount', o) == v.f(TC, 'm_rxDataCount', o)), [w.f(TC, 'm_rxDataCount', o)]),
        (C13_OTHER, [o], Implies(And(old, Or(v.owner(o) != c, Not(new_role))), w.active(o) == v.active(o)), [w.active(o)]),
        (C13_MODE, [o], Implies(And(old, Or(v.owner(o) != c, Not(new_role))), w.single(o) == v.single(o)), [w.single(o)]),
        (C13_TIME, [o], Implies(And(old, Or(v.owner(o) != c, Not(new_role))), w.interval(o) == v.interval(o)), [w.interval(o)]),
        ('changes nobody else\'s framing', [o], Implies(And(old, o != c), w.f(TC, 'm_slipEnabled', o) == v.f(TC, 'm_slipEnabled', o)), [w.f(TC, 'm_slipEnabled', o)]),
    ]


def prove_R(ex, v, w, c, what, tags):
    for nm, vs, b, pat in R(v, w, c):
        cs = [ex.fresh('any', IntSort()) for _ in vs]
        ex.oblige('%s %s' % (what, nm), z3.substitute(b, *zip(vs, cs)), own_tag(nm, tags))


def note_rx(ex, e):
    if str(e.sig).endswith('rxDataCountChanged') and not isinstance(e.sender, PtrTo):
        ex.setf(iv(e.sender), 'ghost', 'rxrestart', T_BOOL, BoolVal(True))


def run_handler(ex, e, args=()):
    """what happens when the connected signal is emitted"""
    h = e.handler
    if isinstance(h, Closure):
        ex.call_closure(h, list(args), None)
    elif isinstance(h, FnRef) and h.q.startswith('QTimer::'):
        if h.q.split('::')[-1] not in ('start', 'stop'):
            raise ToolLimit('handler ' + h.q)
        QT.timer_set(ex, e.recv, 'active', BoolVal(h.q.endswith('start')))
        ex.log.append(Event('TimerStart' if h.q.endswith('start') else 'TimerStop', obj=e.recv, interval=QT.timer_get(ex, e.recv, 'interval')))
    elif isinstance(h, FnRef):
        fn = ex.prog.find_fn(h.q, len(args))
        if fn is None:
            raise ToolLimit('handler ' + h.q)
        ex.call_fn(fn, e.recv, argvals=list(args)[:fn.nparams])
    else:
        raise ToolLimit('handler of a connection %r %r' % (e.sig, h))


def timers_after_registration(ex, w, c, role):
    """the handlers that registration connected, run one after another"""
    t = w.timer(c)
    for e in list(ex.conns):
        n = len(ex.log)
        before = ex.heap.get(('QTimer', 'active'))
        run_handler(ex, e)
        now = V(ex, w.srv)
        evs = [x for x in ex.log[n:] if x.kind not in ('New', 'LoopSeg', 'TimerSet')]
        if role == CLIENT:
            ex.oblige('nothing starts the timer of a registered client again', And(iv(e.sender) == c, Not(now.active(t)), BoolVal(not [x for x in evs if x.kind != 'TimerStart' and x.kind != 'TimerStop'])), ('C13',), detail=str(evs)[:300])
        else:
            ok = [x for x in evs if x.kind == 'TimerStart']
            if str(e.sig).endswith('rxDataCountChanged'):
                ex.oblige('received data restarts the 60 s of a server and does nothing else',
                          And(iv(e.sender) == c, BoolVal(len(ok) >= 1 and not [x for x in evs if x.kind not in ('TimerStart', 'TimerStop')]), *[iv(x.obj) == t for x in ok], now.active(t), Not(now.single(t)), now.interval(t) == 60000),
                          ('C13',), detail=str(evs)[:300])
            else:
                ex.oblige('only received data restarts the timer of a server', not evs, ('C13',), detail='%s: %s' % (e.sig, str(evs)[:200]))


def registry_effect(ex, srv, c, what):
    """the state after a call that satisfies R"""
    settle(ex)
    v = V(ex, srv)
    prove_inv(ex, v, what + ' (its precondition)', ('C08', 'C09'))
    for key, t in FT.items():
        if key[0] in (S,) and key[1] not in ('m_proxyClients', 'm_tunnelProxyServerConnections', 'm_tunnelProxyClientConnections', 'm_troughput', 'm_troughputCounter', 'm_running'):
            continue
        arr = ex.harr(key[0], key[1], t)
        ex.heap[key] = ex.fresh('R_' + key[1], arr.sort())
    old = ex.alloc0 + ex.nalloc
    ex.alloc0 = ex.fresh('alloc', IntSort())
    ex.assume(ex.alloc0 >= old)
    ex.nalloc = 0
    w = V(ex, srv)
    assume_inv(ex, w)
    for it in R(v, w, c):
        ex.assume(close(it), quant='inv')
    return v, w


def failed_untouched(ex, v, w, r, c, known, tags):
    """a refused registration: only the refused connection is marked for closing"""
    fail = r != 0
    kr, krr = (TC, 'm_killConnectionRequested'), (TC, 'm_killConnectionReason')
    o = Int('ro')
    for key in FT:
        a, b = v.arr(*key), w.arr(*key)
        if a.eq(b) or key == (SCN, 'm_currentAddressCounter'):
            continue
        if key in (kr, krr):
            ex.oblige('only the refused connection is marked for closing', Implies(o != c, ex.sel(b, o) == ex.sel(a, o)), tags)
        else:
            ex.oblige('refused registration: %s unchanged' % key[1], Implies(And(fail, o > 0, o < v.bound), ex.sel(b, o) == ex.sel(a, o)), tags)
    ex.oblige('a refused connection is closed after the answer', Implies(And(fail, known), ex.sel(w.arr(*kr), c)), tags)
    ex.oblige('a registered connection is not marked for closing by its registration', Implies(Not(fail), ex.sel(w.arr(*kr), c) == ex.sel(v.arr(*kr), c)), tags)


@task('TransportClient_sendData', ['C05', 'C06', 'C07', 'C09', 'C11', 'C13', 'C16'], ['TransportClient::sendData', 'TransportClient::addTxDataCount'])
def t_client_send(g):
    def body(ex):
        fn = need_fn(g, TC + '::sendData', 1)
        srv, v = begin(ex)
        c = Int('client')
        ex.assume(And(c > 0, c < v.bound, v.iface(c) > 0))
        enter(ex, fn, c)
        data = unpack(Const('data', zsort(T_BA)), T_BA)
        ex.call_fn(fn, c, argvals=[data])
        w = V(ex, srv)
        evs = quiet_but(ex)
        T = ('C05', 'C06', 'C07', 'C09', 'C11')
        ex.oblige('sending hands the data to the transport once', len(evs) == 1 and evs[0].kind == 'SendData', T, detail=str(evs)[:200])
        if len(evs) == 1 and evs[0].kind == 'SendData':
            e = evs[0]
            ex.oblige('the data is sent unchanged by the transport of the connection under its id', And(iv(e.iface) == v.iface(c), iv(e.id) == v.cid(c), e.data.s == data.s), T)
        n = Length(data.s)
        id_ = v.cid(c)
        ex.oblige('sent bytes are counted exactly once', And(w.arr(TC, 'm_txDataCount') == Store(v.arr(TC, 'm_txDataCount'), c, (v.f(TC, 'm_txDataCount', c) + n) % M64),
                  w.arr('ghost', 'sent') == Store(v.arr('ghost', 'sent'), id_, (v.f('ghost', 'sent', id_) + n) % M64)), ('C16',))
        ems = [str(e.sig).split('::')[-1] for e in ex.log if e.kind == 'Emit']
        ex.oblige('sending signals at most that data was sent', all(x == 'txDataCountChanged' for x in ems), ('C13',), detail=str(ems))
        same(ex, v, w, 'sending', T, [k for k in FT if k not in ((TC, 'm_txDataCount'), ('ghost', 'sent'))])
    g.verify('TransportClient::sendData', body, {k: x for k, x in CORE.items() if k != TC + '::sendData'})


@task('registerServer', ['C08', 'C09', 'C13', 'C16'], ['TunnelProxyServer::registerServer'], heavy=5)
def t_registerServer(g):
    def body(ex):
        fn = need_fn(g, S + '::registerServer', 3)
        srv, v = begin(ex)
        enter(ex, fn, srv)
        id_, u, nm = Int('clientId'), Int('serverUuid'), z3.String('serverName')
        r = iv(ex.load(ex.call_fn(fn, srv, argvals=[id_, u, nm])))
        w = V(ex, srv)
        known = ex.sel(v.P.dom, id_)
        c = ex.sel(v.P.val, id_)
        T8 = ('C08',)
        ok = And(known, v.type(c) == NONE, Not(ex.sel(v.SC.dom, u)), Not(ex.sel(v.CC.dom, u)))
        ex.oblige('a server is registered exactly if the connection has no role yet and nobody uses the UUID', (r == ERR['NoError']) == ok, T8)
        ex.oblige('a second registration or a UUID in use is refused as already registered', Implies(And(known, Not(ok)), r == ERR['AlreadyRegistered']), T8)
        ex.oblige('an unknown connection cannot register', Implies(Not(known), r == ERR['InternalServerError']), T8)
        s = ex.sel(w.SC.val, u)
        ex.oblige('the registered server is in the registry under its UUID',
                  Implies(r == 0, And(w.SC.dom == Store(v.SC.dom, u, BoolVal(True)), w.s_tc(s) == c, w.s_uuid(s) == u, w.type(c) == SERVER, w.uuid(c) == u,
                                      w.f(TC, 'm_name', c) == nm)), T8)
        ex.oblige('a new server starts without clients', Implies(r == 0, And(w.addr(s).dom == z3.K(IntSort(), BoolVal(False)), w.ccm(s).dom == z3.K(IntSort(), BoolVal(False)))), T8)
        ex.oblige('a registered server is switched to framed mode after the answer', Implies(r == 0, w.f(TC, 'm_slipAfterResponseEnabled', c)), T8)
        failed_untouched(ex, v, w, r, c, known, T8)
        ex.oblige('registering a server sends or closes nothing itself', not quiet_but(ex), T8, detail=str(quiet_but(ex))[:200])
        prove_inv(ex, w, 'registerServer', ('C08', 'C09'))
        prove_R(ex, v, w, If(known, c, Int('anyone')), 'registerServer', ('C08',))
        timers_after_registration(ex, w, c, SERVER)
    g.verify('TunnelProxyServer::registerServer', body, CORE, on_connect=note_rx)


def free_address_cands(ex, L, snap, views):
    """search loops over the socket addresses: what was skipped so far is in use or reserved"""
    out = []
    sc = ex.ghost.get('search')
    if sc is None:
        return out
    dom = sc
    for v, v0 in L.views[0]:
        if v.t and v.t[0] == 'int':
            for off in (0, 1):
                def f(e, k, v0=v0, off=off):
                    j = Int('jj')
                    a = (v0 + off + j) % 65536
                    return ForAll([j], Implies(And(j >= 0, j < k), Or(Select(dom, a), a == 0, a == 0xFFFF)), patterns=[Select(dom, a)])
                out.append(('everything from %s+%d to k is in use or reserved' % (v.name, off), f))
    return out


def free_address_exit(ex, L, k, seqinfo):
    fa = ex.ghost.get('free')
    if fa is not None and L.cands:
        ts = []
        for v, v0 in L.views[0]:
            for off in (0, 1):
                ts.append((fa - v0 - off) % 65536)
        ex.instantiate(*ts)


@task('registerClient', ['C07', 'C08', 'C09', 'C13', 'C16'], ['TunnelProxyServer::registerClient', 'TunnelProxyServerConnection::registerClientConnection', 'TunnelProxyServerConnection::getFreeAddress'], heavy=8)
def t_registerClient(g):
    def body(ex):
        fn = need_fn(g, S + '::registerClient', 4)
        srv, v = begin(ex)
        enter(ex, fn, srv)
        id_, u, nm, su = Int('clientId'), Int('clientUuid'), z3.String('clientName'), Int('serverUuid')
        known = ex.sel(v.P.dom, id_)
        c = ex.sel(v.P.val, id_)
        s = ex.sel(v.SC.val, su)
        A = v.addr(s)
        free = Int('some_free_address')
        ex.assume(And(free > 0, free < 0xFFFF))
        ex.ghost['search'] = A.dom
        ex.ghost['free'] = free
        r = iv(ex.load(ex.call_fn(fn, srv, argvals=[id_, u, nm, su])))
        w = V(ex, srv)
        T7, T8 = ('C07',), ('C08',)
        pre = And(known, v.type(c) == NONE, Not(ex.sel(v.SC.dom, u)), Not(ex.sel(v.CC.dom, u)), ex.sel(v.SC.dom, su))
        ex.oblige('a client is registered only if the connection has no role yet, nobody uses the UUID and the server exists', Implies(r == ERR['NoError'], pre), T8)
        ex.oblige('a client is registered if some address is free', Implies(And(pre, Not(ex.sel(A.dom, free))), r == ERR['NoError']), ('C07', 'C08'))
        ex.oblige('a second registration or a UUID in use is refused as already registered',
                  Implies(And(known, Or(v.type(c) != NONE, ex.sel(v.SC.dom, u), ex.sel(v.CC.dom, u))), r == ERR['AlreadyRegistered']), T8)
        ex.oblige('an unknown server is reported as such', Implies(And(known, v.type(c) == NONE, Not(ex.sel(v.SC.dom, u)), Not(ex.sel(v.CC.dom, u)), Not(ex.sel(v.SC.dom, su))), r == ERR['ServerNotFound']), T8)
        ex.oblige('an unknown connection cannot register', Implies(Not(known), r == ERR['InternalServerError']), T8)
        cc = ex.sel(w.CC.val, u)
        a = w.c_addr(cc)
        ex.oblige('the registered client is in the registry under its UUID, attached to its server',
                  Implies(r == 0, And(w.CC.dom == Store(v.CC.dom, u, BoolVal(True)), w.c_tc(cc) == c, w.c_uuid(cc) == u, w.type(c) == CLIENT, w.uuid(c) == u, w.c_sc(cc) == s,
                                      w.f(TC, 'm_name', c) == nm)), T8)
        ex.oblige('the assigned address is not reserved', Implies(r == 0, And(a != 0, a != 0xFFFF, a > 0, a < 65536)), T7)
        ex.oblige('the assigned address was free on this server', Implies(r == 0, Not(ex.sel(A.dom, a))), T7)
        ex.oblige('the address routes to the new client, all others as before',
                  Implies(r == 0, And(w.addr(s).dom == Store(A.dom, a, BoolVal(True)), w.addr(s).val == Store(A.val, a, cc))), T7)
        evs = quiet_but(ex)
        if len(evs) == 0:
            ex.oblige('registering a client tells its server', r != 0, T7)
        else:
            ex.oblige('registering a client sends exactly one notification', len(evs) == 1 and evs[0].kind == 'Notify', T7, detail=str(evs)[:200])
            e = evs[0]
            if e.kind == 'Notify':
                want = (('clientName', z3.StringVal), ('clientUuid', None), ('clientPeerAddress', None), ('socketAddress', None))
                ex.oblige('the server of the client is notified that a client connected', And(r == 0, iv(e.client) == v.s_tc(s), str_is(e.ns, 'TunnelProxy'), str_is(e.method, 'ClientConnected')), T7)
                ex.oblige('the notification names the assigned address', vmap_int_is(ex, e.params, 'socketAddress', a), T7)
        failed_untouched(ex, v, w, r, c, known, T8)
        prove_inv(ex, w, 'registerClient', ('C08', 'C09', 'C07'))
        prove_R(ex, v, w, If(known, c, Int('anyone')), 'registerClient', ('C08',))
        timers_after_registration(ex, w, c, CLIENT)
    g.verify('TunnelProxyServer::registerClient', body, CORE, on_connect=note_rx, loop_cands=free_address_cands, on_loop_exit=free_address_exit)


def str_is(s, lit):
    return s == z3.StringVal(lit)



def vmap_get(ex, m, key):
    k = z3.StringVal(key)
    return ex.sel(m.dom, k), ex.sel(m.val, k)


def num_is(var, x):
    return Or(*[var == vinj(k)(x) for k in ('Int', 'UInt', 'LongLong', 'ULongLong')])


def vmap_int_is(ex, m, key, x):
    d, val = vmap_get(ex, m, key)
    return And(d, num_is(val, x))


# ---------------------------------------------------------------- disconnects
@task('disconnectClient', ['C10', 'C08', 'C13', 'C16'], ['TunnelProxyServer::disconnectClient'], heavy=3)
def t_disconnectClient(g):
    def body(ex):
        fn = need_fn(g, S + '::disconnectClient', 2)
        srv, v = begin(ex)
        enter(ex, fn, srv)
        id_, a = Int('clientId'), Int('socketAddress')
        ex.assume(And(a >= 0, a < 65536))
        r = iv(ex.load(ex.call_fn(fn, srv, argvals=[id_, a])))
        w = V(ex, srv)
        T = ('C10',)
        known = ex.sel(v.P.dom, id_)
        c = ex.sel(v.P.val, id_)
        s = ex.sel(v.SC.val, v.uuid(c))
        A = v.addr(s)
        e = ex.sel(A.val, a)
        hit = And(known, v.type(c) == SERVER, ex.sel(A.dom, a))
        ex.oblige('the request succeeds exactly if the requester is a server with a client at this address', (r == 0) == hit, T)
        ex.oblige('an address without client is reported as unknown', Implies(And(known, v.type(c) == SERVER, Not(ex.sel(A.dom, a))), r == ERR['UnknownSocketAddress']), T)
        evs = quiet_but(ex)
        if evs:
            ex.oblige('exactly one connection is closed', len(evs) == 1 and evs[0].kind == 'Kill', T, detail=str(evs)[:200])
            if evs[0].kind == 'Kill':
                ex.oblige('it is the client that holds the address on the requesting server', And(hit, iv(evs[0].id) == v.cid(v.c_tc(e)), iv(evs[0].iface) == v.iface(v.c_tc(e))), T)
        else:
            ex.oblige('the named client is closed', Not(hit), T)
        kr = (TC, 'm_killConnectionRequested')
        o = Int('ro')
        ex.oblige('at most the requester is marked for closing', Implies(And(o > 0, o < v.bound, o != c), ex.sel(w.arr(*kr), o) == ex.sel(v.arr(*kr), o)), T)
        prove_inv(ex, w, 'disconnectClient', ('C08', 'C09'))
        prove_R(ex, v, w, If(known, c, Int('anyone')), 'disconnectClient', ('C08',))
    g.verify('TunnelProxyServer::disconnectClient', body, CORE, on_kill=kill_generic)


def kill_generic(ex, iface, id_):
    """closing a connection may report its disconnect right away (onClientDisconnected, same contract R)"""
    if ex.choose(2):
        srv = ex.pre.srv
        kr = (TC, 'm_killConnectionRequested')
        keep = ex.harr(kr[0], kr[1], T_BOOL)
        registry_effect(ex, srv, IntVal(0), 'closing a connection')
        ex.heap[kr] = keep


def any_iface(ex):
    i = Int('interface')
    ex.assume(i > 0)
    ex.sender = i
    return i


@task('onClientConnected', ['C08', 'C09', 'C13', 'C15', 'C16'], ['TunnelProxyServer::onClientConnected', 'TunnelProxyClient::TunnelProxyClient'], heavy=3)
def t_onClientConnected(g):
    def body(ex):
        fn = need_fn(g, S + '::onClientConnected', 2)
        srv, v = begin(ex)
        enter(ex, fn, srv)
        i = any_iface(ex)
        id_, ad = Int('clientId'), Opaque(('cls', 'QHostAddress'), Int('address'))
        known = ex.sel(v.P.dom, id_)
        ex.call_fn(fn, srv, argvals=[id_, ad])
        w = V(ex, srv)
        T = ('C08',)
        # ids of new connections are fresh (QUuid::createUuid; C15)
        ex.assume(Implies(Not(known), v.f('ghost', 'sent', id_) == 0))
        kills = [e for e in ex.log if e.kind == 'Kill']
        ex.oblige('a connection is refused exactly if its id is in use', BoolVal(len(kills) > 0) == known, T)
        ex.oblige('accepting a connection sends nothing', not [e for e in ex.log if e.kind in ('SendData', 'Notify')], T)
        if kills:
            ex.oblige('only the new connection is closed', And(len(kills) == 1, iv(kills[0].id) == id_, iv(kills[0].iface) == i), T)
            same(ex, v, w, 'refused connection', T)
        c = ex.sel(w.P.val, id_)
        ex.oblige('the new connection is registered under its id', Implies(Not(known), And(w.P.dom == Store(v.P.dom, id_, BoolVal(True)), w.cid(c) == id_, w.iface(c) == i)), T)
        ex.oblige('a new connection has no role, counted no traffic and is in JSON mode',
                  Implies(Not(known), And(w.type(c) == NONE, w.f(TC, 'm_rxDataCount', c) == 0, w.f(TC, 'm_txDataCount', c) == 0, Not(w.f(TC, 'm_slipEnabled', c)),
                                          Not(w.f(TC, 'm_slipAfterResponseEnabled', c)), Not(w.f(TC, 'm_killConnectionRequested', c)))), ('C08', 'C16'))
        tm = w.timer(c)
        ex.oblige('a new connection has a running single shot inactivity timer of the configured length',
                  Implies(Not(known), And(QT.timer_get(ex, tm, 'active'), QT.timer_get(ex, tm, 'single'), iv(QT.timer_get(ex, tm, 'interval')) == Int('inactive_timeout'))), ('C13',))
        if not kills:
            tos = [e for e in ex.conns if iv(e.sender).eq(z3.simplify(tm)) or ex.prove(iv(e.sender) == tm)]
            ex.oblige('the inactivity timer is connected to one handler', len(tos) == 1 and str(tos[0].sig).endswith('timeout'), ('C13',), detail=str(ex.conns)[:300])
            if len(tos) == 1:
                n = len(ex.log)
                ex.call_closure(tos[0].handler, [], None)
                evs = [e for e in ex.log[n:] if e.kind not in ('New', 'LoopSeg')]
                ex.oblige('the inactivity timer closes exactly its own connection', len(evs) == 1 and evs[0].kind == 'Kill' and And(iv(evs[0].id) == id_, iv(evs[0].iface) == i), ('C13',), detail=str(evs)[:200])
        prove_inv(ex, w, 'onClientConnected', ('C08', 'C09'))
        prove_R_grow(ex, v, w, id_)
    g.verify('TunnelProxyServer::onClientConnected', body, CORE)


def prove_R_grow(ex, v, w, id_):
    k, o = ex.fresh('any', IntSort()), ex.fresh('any', IntSort())
    ex.oblige('a new connection replaces no other', Implies(ex.sel(v.P.dom, k), And(ex.sel(w.P.dom, k), ex.sel(w.P.val, k) == ex.sel(v.P.val, k))), ('C08',))
    for key in FT:
        if key[0] in (S, JR):
            continue
        a, b = v.arr(*key), w.arr(*key)
        if not a.eq(b):
            ex.oblige('a new connection leaves %s of all others alone' % key[1], Implies(And(o > 0, o < v.bound), ex.sel(a, o) == ex.sel(b, o)), ('C08', 'C16'))


GK = ('ghost', 'kills')       # how often each connection id was closed


def ghost_kills(ex):
    t = hmap(T_UUID, TC)
    a = ex.harr('ghost', 'kills', I32)
    return a


def count_kill(ex, iface, id_):
    a = ghost_kills(ex)
    ex.heap[GK] = Store(a, iv(id_), ex.sel(a, iv(id_)) + 1)


def att_to(v, x, s):
    """registered connection under id x is a client attached to server connection s"""
    ex = v.ex
    c = ex.sel(v.P.val, x)
    u = v.uuid(c)
    cc = ex.sel(v.CC.val, u)
    return And(ex.sel(v.P.dom, x), v.type(c) == CLIENT, v.c_sc(cc) == s)


def teardown_rel(v, now, s, c, id_, kills, k=None):
    """progress of tearing down server connection s (state v: before, now: some clients gone)"""
    ex = v.ex
    x, u, o, w = Int('tx'), Int('tu'), Int('to'), Int('tw')
    sel = ex.sel
    M0, M = v.ccm(s), now.ccm(s)
    old = And(o > 0, o < v.bound)
    P0, P1, C0, C1 = v.P, now.P, v.CC, now.CC
    out = [
        ('only clients of the server are detached', [w], Implies(sel(M.dom, w), And(sel(M0.dom, w), sel(M.val, w) == sel(M0.val, w))), [sel(M.dom, w)]),
        ('clients of other servers stay attached', [o], Implies(And(old, v.c_sc(o) != s), And(now.c_sc(o) == v.c_sc(o), now.c_addr(o) == v.c_addr(o))), [now.c_sc(o)]),
        ('clients of other servers keep their address', [o], Implies(And(old, v.c_sc(o) != s), now.c_addr(o) == v.c_addr(o)), [now.c_addr(o)]),
        ('clients of the server are attached to it or to none', [o], Implies(And(old, v.c_sc(o) == s), Or(now.c_sc(o) == s, now.c_sc(o) == 0)), [now.c_sc(o)]),
        ('no connection appears', [x], Implies(sel(P1.dom, x), And(sel(P0.dom, x), x != id_, sel(P1.val, x) == sel(P0.val, x))), [sel(P1.dom, x)]),
        ('connections that did not depend on the server stay', [x], Implies(And(sel(P0.dom, x), x != id_, Not(att_to(v, x, s))), sel(P1.dom, x)), [sel(P0.dom, x)]),
        ('attached clients are still registered', [x], Implies(And(sel(P0.dom, x), att_to(v, x, s), sel(M.dom, v.uuid(sel(P0.val, x)))), sel(P1.dom, x)), [sel(P0.dom, x)]),
        ('no client entry appears', [u], Implies(sel(C1.dom, u), And(sel(C0.dom, u), sel(C1.val, u) == sel(C0.val, u))), [sel(C1.dom, u)]),
        ('client entries of other servers stay', [u], Implies(And(sel(C0.dom, u), v.c_sc(sel(C0.val, u)) != s), sel(C1.dom, u)), [sel(C0.dom, u)]),
        ('each detached client was closed once, nobody else', [x],
         Select(kills, x) == If(And(att_to(v, x, s), Not(sel(M.dom, v.uuid(sel(P0.val, x))))), IntVal(1), IntVal(0)), [Select(kills, x)]),
    ]
    if k is not None:
        h = M0
        out.append(('the first k clients are detached', [w], sel(M.dom, w) == And(sel(M0.dom, w), QT.kidx(h, w) >= k), [sel(M.dom, w)]))
    return out


def teardown_cands(ex, L, snap, views):
    td = ex.ghost.get('td')
    if td is None:
        return []
    v, s, c, id_ = td
    dummy = V(ex, v.srv)
    out = [(it[0], inv_cand(v, n, s, c), True) for n, it in enumerate(inv(dummy, s, c))]
    # where the control plane forgets the server connection before its clients are closed
    out.append(('the control plane forgot the leaving connection', lambda e, k: Not(QT.mem(e, V(e, v.srv).clients, c)), True))
    ghost_kills(ex)
    for n, it in enumerate(teardown_rel(v, dummy, s, c, id_, ex.heap[GK], IntVal(0))):
        out.append((it[0], lambda e, k, n=n: memo(e, ('td', vid(e, v), s.get_id(), c.get_id(), id_.get_id(), e.heap[GK].get_id(), k.get_id()), V(e, v.srv), lambda: [close(x) for x in teardown_rel(v, V(e, v.srv), s, c, id_, e.heap[GK], k)] + [e.heap[GK], k])[n], True))
    return out


def kill_in_teardown(ex, iface, id_):
    v, s, c, idc = ex.ghost['td']
    now = V(ex, v.srv)
    id_ = iv(id_)
    x = ex.sel(now.P.val, id_)
    ex.oblige('closing goes to the transport of that connection', Implies(ex.sel(now.P.dom, id_), iv(iface) == now.iface(x)), ('C09', 'C15'))
    count_kill(ex, iface, id_)
    if ex.choose(2):
        # the transport may report the disconnect right away
        ex.oblige('only a registered, already detached client is closed while its server is torn down',
                  And(ex.sel(now.P.dom, id_), now.type(x) == CLIENT, now.c_sc(ex.sel(now.CC.val, now.uuid(x))) == 0), ('C09',))
        prove_inv(ex, now, 'closing a client of the torn down server (precondition)', ('C09',), s, c)
        detached_gone(ex, now, id_)


def detached_gone(ex, now, id_):
    """contract of onClientDisconnected for a detached client"""
    srv = now.srv
    x = ex.sel(now.P.val, id_)
    u = now.uuid(x)
    for f, key in (('m_proxyClients', id_), ('m_tunnelProxyClientConnections', u)):
        t = FT[(S, f)]
        m = now.map(S, f, srv)
        ex.setf(srv, S, f, t, HashV(Store(m.dom, key, BoolVal(False)), m.val, iv(m.cnt) - 1, t[2][0], t[2][1]))
    jr = now.jr
    t = FT[(JR, 'm_clients')]
    ex.setf(jr, JR, 'm_clients', t, ListV(uf('remall', [now.clients, x], now.clients.sort()), t[2][0]))
    t = FT[(JR, 'm_asyncReplies')]
    ex.setf(jr, JR, 'm_asyncReplies', t, ex.havoc_value(t, 'asyncReplies'))


@task('onClientDisconnected', ['C08', 'C09', 'C13', 'C16'], ['TunnelProxyServer::onClientDisconnected', 'TunnelProxyServerConnection::unregisterClientConnection', 'JsonRpcServer::unregisterClient'], heavy=9)
def t_onClientDisconnected(g):
    T = ('C09',)

    def unchanged(ex, v, w, keys, what):
        o = ex.fresh('any', IntSort())
        for key in keys:
            a, b = v.arr(*key), w.arr(*key)
            if not a.eq(b):
                ex.oblige('%s: %s unchanged' % (what, key[1]), Implies(And(o > 0, o < v.bound), ex.sel(a, o) == ex.sel(b, o)), T)

    def body(ex):
        fn = need_fn(g, S + '::onClientDisconnected', 1)
        srv, v = begin(ex)
        enter(ex, fn, srv)
        any_iface(ex)
        id_ = Int('clientId')
        known = ex.sel(v.P.dom, id_)
        c = ex.sel(v.P.val, id_)
        s = ex.sel(v.SC.val, v.uuid(c))
        ex.ghost['td'] = (v, s, c, id_)
        ex.setf(IntVal(0), 'ghost', 'kills', I32, IntVal(0))
        ex.heap[GK] = z3.K(IntSort(), IntVal(0))
        ex.heap0[GK] = ex.heap[GK]
        ex.call_fn(fn, srv, argvals=[id_])
        w = V(ex, srv)
        kills = ex.heap[GK]
        sel = ex.sel
        notes = [e for e in ex.log if e.kind == 'Notify']
        ex.oblige('a disconnect sends at most one notification and no data', len(notes) <= 1 and not [e for e in ex.log if e.kind == 'SendData'], T)
        isC, isS = And(known, v.type(c) == CLIENT), And(known, v.type(c) == SERVER)
        cc = sel(v.CC.val, v.uuid(c))
        sc = v.c_sc(cc)
        # a client
        if notes:
            n = notes[0]
            ex.oblige('only the disconnect of an attached client is notified', And(isC, sc != 0), T)
            ex.oblige('its server is notified that a client disconnected', And(iv(n.client) == v.s_tc(sc), str_is(n.ns, 'TunnelProxy'), str_is(n.method, 'ClientDisconnected')), T)
            ex.oblige('the notification names the address of the client', vmap_int_is(ex, n.params, 'socketAddress', v.c_addr(cc)), T)
        else:
            ex.oblige('the disconnect of an attached client is notified to its server', Not(And(isC, sc != 0)), T)
        ex.oblige('the entry of a disconnected client is removed, no other', Implies(isC, And(w.CC.dom == Store(v.CC.dom, v.uuid(c), BoolVal(False)), w.SC.dom == v.SC.dom)), T)
        y = ex.fresh('any', IntSort())
        ex.oblige('the address of a disconnected client is free again', Implies(And(isC, sc != 0), And(w.addr(sc).dom == Store(v.addr(sc).dom, v.c_addr(cc), BoolVal(False)),
                  w.ccm(sc).dom == Store(v.ccm(sc).dom, v.uuid(c), BoolVal(False)))), T)
        ex.oblige('the disconnect of a client leaves every other server alone',
                  Implies(And(isC, y > 0, y < v.bound, y != sc), And(sel(w.arr(SCN, 'm_clientConnectionsAddresses'), y) == sel(v.arr(SCN, 'm_clientConnectionsAddresses'), y),
                                                                    sel(w.arr(SCN, 'm_clientConnections'), y) == sel(v.arr(SCN, 'm_clientConnections'), y))), T)
        ex.oblige('the disconnect of a client leaves every other client attached as it was',
                  Implies(And(isC, y > 0, y < v.bound, y != cc), And(w.c_sc(y) == v.c_sc(y), w.c_addr(y) == v.c_addr(y))), T)
        ex.oblige('only a disconnecting server closes other connections', Implies(Not(isS), sel(kills, y) == 0), T)
        ex.oblige('a connection without role leaves servers and clients alone', Implies(And(known, v.type(c) == NONE), And(w.SC.dom == v.SC.dom, w.CC.dom == v.CC.dom)), T)
        ex.oblige('a disconnected connection leaves the registry, no other does (no server)', Implies(And(known, Not(isS)), w.P.dom == Store(v.P.dom, id_, BoolVal(False))), T)
        # a server
        ex.oblige('a disconnected server leaves the registry', Implies(isS, w.SC.dom == Store(v.SC.dom, v.uuid(c), BoolVal(False))), T)
        at = att_to(v, y, s)
        ex.oblige('every client of a disconnected server is closed exactly once and nobody else', Implies(isS, sel(kills, y) == If(at, IntVal(1), IntVal(0))), T)
        o = ex.fresh('any', IntSort())
        ex.oblige('every client of a disconnected server is detached', Implies(And(isS, o > 0, o < v.bound, v.c_sc(o) == s, sel(w.CC.dom, v.c_uuid(o)), sel(w.CC.val, v.c_uuid(o)) == o), w.c_sc(o) == 0), T)
        ex.oblige('clients of other servers are left alone', Implies(And(isS, o > 0, o < v.bound, v.c_sc(o) != s), And(w.c_sc(o) == v.c_sc(o), w.c_addr(o) == v.c_addr(o))), T)
        z = ex.fresh('any', IntSort())
        ex.oblige('addresses at other servers are left alone', Implies(And(isS, z > 0, z < v.bound, z != s), And(sel(w.arr(SCN, 'm_clientConnectionsAddresses'), z) == sel(v.arr(SCN, 'm_clientConnectionsAddresses'), z),
                  sel(w.arr(SCN, 'm_clientConnections'), z) == sel(v.arr(SCN, 'm_clientConnections'), z))), T)
        ex.oblige('a disconnected server leaves the connections that do not depend on it registered', Implies(And(isS, sel(v.P.dom, y), y != id_, Not(at)), And(sel(w.P.dom, y), sel(w.P.val, y) == sel(v.P.val, y))), T)
        ex.oblige('the disconnected server connection is gone', Implies(isS, Not(sel(w.P.dom, id_))), T)
        ex.oblige('entries of other servers\' clients stay', Implies(And(isS, sel(v.CC.dom, y), v.c_sc(sel(v.CC.val, y)) != s), And(sel(w.CC.dom, y), sel(w.CC.val, y) == sel(v.CC.val, y))), T)
        same_if(ex, v, w, Not(known), 'an unknown connection')
        unchanged(ex, v, w, [(TC, 'm_clientId'), (TC, 'm_uuid'), (TC, 'm_interface'), (TPC, 'm_type'), (TPC, 'm_inactiveTimer'), (SCN, 'm_transportClient'), (CCN, 'm_transportClient'),
                             (SCN, 'm_serverUuid'), (CCN, 'm_clientUuid'), (TC, 'm_rxDataCount')], 'disconnect')
        prove_inv(ex, w, 'onClientDisconnected', ('C08', 'C09'))
        prove_R(ex, v, w, IntVal(0), 'onClientDisconnected', ('C08', 'C09'))
    g.verify('TunnelProxyServer::onClientDisconnected', body, CORE, loop_cands=teardown_cands, on_kill=kill_in_teardown, on_iter=lambda *a: None)

    def nested(ex):
        """called while the server of this client is being torn down"""
        fn = need_fn(g, S + '::onClientDisconnected', 1)
        srv = Int('server')
        s, lc = Int('torn_down'), Int('leaving')
        _, v = begin(ex, srv, td=s, leaving=lc)
        enter(ex, fn, srv)
        any_iface(ex)
        id_ = Int('clientId')
        c = ex.sel(v.P.val, id_)
        cc = ex.sel(v.CC.val, v.uuid(c))
        ex.assume(And(ex.sel(v.P.dom, id_), v.type(c) == CLIENT, v.c_sc(cc) == 0))
        ex.call_fn(fn, srv, argvals=[id_])
        w = V(ex, srv)
        ex.oblige('the disconnect of a detached client sends and closes nothing', not quiet_but(ex), T, detail=str(quiet_but(ex))[:300])
        unchanged(ex, v, w, [k for k in FT if k not in ((S, 'm_proxyClients'), (S, 'm_tunnelProxyClientConnections'), (JR, 'm_clients'), (JR, 'm_asyncReplies'))], 'disconnect of a detached client')
        ex.oblige('the disconnect of a detached client removes exactly its entries', And(w.P.dom == Store(v.P.dom, id_, BoolVal(False)), w.CC.dom == Store(v.CC.dom, v.uuid(c), BoolVal(False)),
                  w.SC.dom == v.SC.dom, w.SC.val == v.SC.val), T)
        y = ex.fresh('any', IntSort())
        ex.oblige('the disconnect of a detached client keeps the other entries', And(Implies(ex.sel(w.P.dom, y), ex.sel(w.P.val, y) == ex.sel(v.P.val, y)), Implies(ex.sel(w.CC.dom, y), ex.sel(w.CC.val, y) == ex.sel(v.CC.val, y))), T)
        ex.oblige('the control plane forgets exactly the detached client', QT.mem(ex, w.clients, y) == And(QT.mem(ex, v.clients, y), y != c), T)
        prove_inv(ex, w, 'disconnect of a detached client', ('C09',), s, lc)
    g.verify('TunnelProxyServer::onClientDisconnected (detached client)', nested, CORE)


def same_if(ex, v, w, cond, what):
    o = ex.fresh('any', IntSort())
    for key in FT:
        a, b = v.arr(*key), w.arr(*key)
        if not a.eq(b):
            ex.oblige('%s: %s unchanged' % (what, key[1]), Implies(And(cond, o > 0, o < v.bound), ex.sel(a, o) == ex.sel(b, o)), ('C09',))


# ---------------------------------------------------------------- data
def be16(a):
    return Concat(Unit(iv(a) / 256), Unit(iv(a) % 256))


def c_ctl(name):
    def f(ex, this, args, node):
        c, data = args
        ex.log.append(Event(name, client=c, data=data.s if isinstance(data, BA) else data, this=this))
        registry_effect(ex, ex.pre.srv, iv(c), 'control data')
    return f


def c_frames(ex, this, args, node):
    """TunnelProxyClient::processData (proved in the packet tasks): touches nothing but the buffer"""
    t = FT[(TC, 'm_dataBuffer')]
    buf = ex.havoc_value(t, 'buf')
    ex.setf(this, TC, 'm_dataBuffer', t, buf)
    fr = ex.fresh('frames', zsort(('tmpl', 'QList', (T_BA,))))
    ex.ghost['frames'] = fr
    ex.log.append(Event('Reassemble', client=this, data=args[0].s, buf=buf, frames=fr))
    return ListV(fr, T_BA)


DATA = dict(CORE)
DATA.update({JR + '::processData': Fn(c_ctl('CtlData')), JR + '::processDataPacket': Fn(c_ctl('CtlPacket')), TPC + '::processData': Fn(c_frames), TC + '::processData': Fn(c_frames)})


@task('onClientDataAvailable', ['C05', 'C06', 'C16', 'C11', 'C08', 'C13'], ['TunnelProxyServer::onClientDataAvailable', 'TransportClient::sendData', 'TransportClient::addRxDataCount'], heavy=8)
def t_data(g):
    def own(v, u, c):
        """server connection registered for connection c under UUID u"""
        s = v.ex.sel(v.SC.val, u)
        return And(v.ex.sel(v.SC.dom, u), v.s_tc(s) == c), s

    def cands(ex, L, snap, views):
        d = ex.ghost.get('data')
        if d is None:
            return []
        v, c = d
        return reg_cands(ex, L, ex.ghost['rx'], c)

    def on_iter(ex, L, k, seqinfo, log, post):
        v, c = ex.ghost['data']
        now = V(ex, v.srv, heap=post[1])
        evs = [e for e in log if e.kind not in ('New', 'Emit', 'Connect', 'Delete', 'LoopSeg', 'DeleteLater')]
        T = ('C06',)
        frames = ex.ghost.get('frames')
        if frames is None:
            return
        if ex.ghost.get('thr') is not None:
            sent = [e for e in evs if e.kind == 'SendData']
            if not [e for e in evs if e.kind != 'SendData']:
                ex.oblige('the throughput grows by the payload that is forwarded', ex.sel(ex.harr(S, 'm_troughputCounter', I32), v.srv) == ex.ghost['thr'] + sum([Length(e.data.s) for e in sent], IntVal(0)), ('C16',))
        ex.oblige('no more frames are handled than were received', k < Length(frames), T)
        fr = unpack(frames[k], T_BA).s
        n = Length(fr)
        addr = If(n >= 2, fr[0] * 256 + fr[1], IntVal(0))
        pay = If(n >= 2, Extract(fr, IntVal(2), n - 2), Empty(Bytes))
        u = now.uuid(c)
        reg, s = own(now, u, c)
        A = now.addr(s)
        e = ex.sel(A.val, addr)
        hit = And(addr != 0, reg, ex.sel(A.dom, addr))
        ex.oblige('one frame causes at most one delivery', len(evs) <= 1, T, detail=str(evs)[:300])
        if not evs:
            ex.oblige('a frame for a client of this server or for the control plane is delivered', And(addr != 0, Not(hit)), T)
        elif evs[0].kind == 'SendData':
            x = evs[0]
            ex.oblige('a frame goes only to the client of this server that holds its address', And(hit, iv(x.id) == now.cid(now.c_tc(e)), iv(x.iface) == now.iface(now.c_tc(e))), T)
            ex.oblige('the client is attached to this very server', Implies(hit, And(now.c_sc(e) == s, now.inP(now.c_tc(e)))), T)
            ex.oblige('the payload is delivered unchanged', x.data.s == pay, T)
        elif evs[0].kind == 'CtlPacket':
            x = evs[0]
            ex.oblige('only a frame with address 0 goes to the control plane', And(addr == 0, iv(x.client) == c), T)
            ex.oblige('the control plane gets the payload unchanged', x.data == pay, T)
        else:
            ex.oblige('a frame causes no other effect', False, T, detail=str(evs)[:300])

    def on_begin(ex, L, k, seqinfo):
        frames = ex.ghost.get('frames')
        if frames is not None:
            ex.assume(Implies(And(k >= 0, k < Length(frames)), Length(unpack(frames[k], T_BA).s) >= 0))
            thr = ex.sel(ex.harr(S, 'm_troughputCounter', I32), ex.ghost['data'][0].srv)
            ex.ghost['thr'] = thr
            # less than 2 GiB are forwarded between two ticks
            ex.assume(Implies(And(k >= 0, k < Length(frames)), thr + Length(unpack(frames[k], T_BA).s) < 2 ** 31))

    def body(ex):
        fn = need_fn(g, S + '::onClientDataAvailable', 2)
        srv, v = begin(ex)
        enter(ex, fn, srv)
        any_iface(ex)
        id_ = Int('clientId')
        data = unpack(Const('data', zsort(T_BA)), T_BA)
        known = ex.sel(v.P.dom, id_)
        c = ex.sel(v.P.val, id_)
        # the state right after counting the received bytes
        rxk = (TC, 'm_rxDataCount')
        h = dict(ex.heap)
        rx0 = ex.harr(rxk[0], rxk[1], U64)
        n = Length(data.s)
        ex.assume(ex.sel(rx0, c) + n < 2 ** 64)
        ex.assume(v.f(S, 'm_troughputCounter', srv) + n < 2 ** 31)
        h[rxk] = Store(rx0, c, ex.sel(rx0, c) + n)
        rx = V(ex, srv, heap=h)
        ex.ghost['rx'] = rx
        ex.ghost['data'] = (v, c)
        ex.call_fn(fn, srv, argvals=[id_, data])
        w = V(ex, srv)
        o = ex.fresh('any', IntSort())
        ex.oblige('received bytes are counted exactly once for the connection they came from',
                  Implies(And(o > 0, o < v.bound), w.f(TC, 'm_rxDataCount', o) == If(And(known, o == c), v.f(TC, 'm_rxDataCount', c) + n, v.f(TC, 'm_rxDataCount', o))), ('C16',))
        ems = [e for e in ex.log if e.kind == 'Emit' and str(e.sig).endswith('rxDataCountChanged')]
        ex.oblige('every received chunk restarts the activity timer', Implies(And(known, n > 0), BoolVal(len(ems) == 1 and iv(ems[0].obj).eq(c))), ('C13',))
        evs = [e for e in ex.log if e.kind not in ('New', 'Emit', 'Connect', 'Delete', 'DeleteLater')]
        T = ('C05',)
        isC, isS = And(known, v.type(c) == CLIENT), And(known, v.type(c) == SERVER)
        slip = v.f(TC, 'm_slipEnabled', c)
        cc = ex.sel(v.CC.val, v.uuid(c))
        s = v.c_sc(cc)
        kinds = [e.kind for e in evs]
        if kinds in ([], ['SendData']):
            ex.oblige('the throughput grows by the payload that is forwarded', w.f(S, 'm_troughputCounter', srv) == v.f(S, 'm_troughputCounter', srv) + (n if kinds == ['SendData'] else 0), ('C16',))
        if not evs:
            ex.oblige('data is dropped only if the connection is unknown or its server is gone', Not(And(known, Or(v.type(c) != CLIENT, s != 0))), ('C05', 'C06'))
        elif kinds == ['SendData']:
            x = evs[0]
            st = v.s_tc(s)
            ex.oblige('client data is forwarded only to the server the client is attached to', And(isC, s != 0, iv(x.id) == v.cid(st), iv(x.iface) == v.iface(st)), T)
            ex.oblige('the server is a registered one and this client is the holder of the address there', And(v.inSC(s), v.inP(st), ex.sel(v.addr(s).dom, v.c_addr(cc)), ex.sel(v.addr(s).val, v.c_addr(cc)) == cc), T)
            ex.oblige('the data is sent as one frame with the address of the client', x.data.s == Concat(enc(Concat(be16(v.c_addr(cc)), data.s))[0], Unit(IntVal(END))), T)
        elif kinds == ['CtlData']:
            x = evs[0]
            ex.oblige('only data of connections that are not in framed mode goes to the JSON control plane', And(known, Or(v.type(c) == NONE, And(isS, Not(slip)))), ('C05', 'C11'))
            ex.oblige('the control plane gets the data unchanged', And(iv(x.client) == c, x.data == data.s), ('C05', 'C11'))
        elif kinds in (['Reassemble', 'LoopSeg'], ['Reassemble']):
            x = evs[0]
            ex.oblige('only data of servers in framed mode is taken apart', And(isS, slip, iv(x.client) == c, x.data == data.s), ('C05', 'C06'))
            ex.oblige('the frames are handled to the end', evs[-1].k == Length(x.frames) if kinds[-1] == 'LoopSeg' and not evs[-1].broken else Length(x.frames) == 0, ('C06',))
        else:
            ex.oblige('received data has no other effect', False, ('C05', 'C06'), detail=str(evs)[:300])
        prove_inv(ex, w, 'received data', ('C08', 'C09'))
        prove_R(ex, v if w.arr(*rxk).eq(v.arr(*rxk)) else rx, w, c, 'received data', ('C08',))
    g.verify('TunnelProxyServer::onClientDataAvailable', body, DATA, loop_cands=cands, on_iter=on_iter, on_iter_begin=on_begin)
