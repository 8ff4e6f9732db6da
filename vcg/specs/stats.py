"""Contracts of the statistics (TunnelProxyServer::currentStatistics, tick)."""
from vals import *
from ex import *
from loops import Fold
from task import task, TASKS
from contracts import Fn, Contract
from specs.slip import need_fn
import qt as QT
from specs.core import *
from specs.jsonrpc import vmap_of

T = ('C16',)
TI = NS + 'TransportInterface'


def c_count(ex, this, args, node):
    n = uf('connections_of', [iv(this)], IntSort())
    ex.assume(And(n >= 0, n < 2 ** 32))
    return n


STATS = dict(CORE)
STATS.update({TI + '::connectionsCount': Fn(c_count), TI + '::serverName': Fn(lambda ex, this, args, node: uf('name_of', [iv(this)], Str))})



def conn_fields(ex, v, m, c, uuidkey):
    """map m describes connection c"""
    out = []
    for k, x in (('rxDataCount', v.f(TC, 'm_rxDataCount', c)), ('txDataCount', v.f(TC, 'm_txDataCount', c))):
        d, val = vmap_get(ex, m, k)
        out.append(And(d, num_is(val, x)))
    d, val = vmap_get(ex, m, 'name')
    out.append(And(d, val == vinj('String')(v.f(TC, 'm_name', c))))
    d, val = vmap_get(ex, m, uuidkey)
    out.append(And(d, val == vinj('Uuid')(v.uuid(c))))
    d, val = vmap_get(ex, m, 'id')
    out.append(And(d, val == vinj('String')(QT.uuid_str(v.cid(c)))))
    d, val = vmap_get(ex, m, 'timestamp')
    out.append(And(d, num_is(val, ex.sel(ex.harr(TC, 'm_creationTimeStamp', U64), c))))
    d, val = vmap_get(ex, m, 'address')
    out.append(And(d, val == vinj('String')(uf('qt_QHostAddress_toString', [ex.sel(ex.harr(TC, 'm_peerAddress', ('cls', 'QHostAddress')), c)], Str))))
    return out


@task('currentStatistics', ['C16'], ['TunnelProxyServer::currentStatistics', 'TunnelProxyServerConnection::clientConnections'], heavy=3)
def t_stats(g):
    def setup(ex, v):
        """i: an arbitrary server, j: an arbitrary client of it"""
        d = {}
        d['i'], d['j'] = Int('some_server'), Int('some_client')
        d['all'] = z3.Bool('printAll')
        d['servers'] = QT.hash_values(ex, v.SC).s
        d['v'] = v
        shown = lambda s: Or(d['all'], iv(v.ccm(s).cnt) != 0)
        d['shown'] = shown
        d['count'] = Fold('shown', IntSort(), [('n', IntSort(), lambda: IntVal(0))], lambda ps, prev, x: (prev[0] + If(shown(x), IntVal(1), IntVal(0)),),
                          inv=lambda ps, c: c[0] >= 0, octets=False)
        return d

    def client_ok(ex, x, cc):
        v = ex.ghost['st']['v']
        return And(QT.vt_of(x) == 8, *conn_fields(ex, v, vmap_of(ex, x), v.c_tc(cc), 'clientUuid'))

    def server_ok(ex, x, s):
        st = ex.ghost['st']
        v, j = st['v'], st['j']
        m = vmap_of(ex, x)
        d, cl = vmap_get(ex, m, 'clientConnections')
        lst = QT.vout(ex, cl, 'List')
        cs = QT.hash_values(ex, v.ccm(s)).s
        return [QT.vt_of(x) == 8] + conn_fields(ex, v, m, v.s_tc(s), 'serverUuid') + [d, QT.vt_of(cl) == 9, Length(lst) == Length(cs), Implies(And(j >= 0, j < Length(cs)), client_ok(ex, lst[j], cs[j]))]

    def cands(ex, L, snap, views):
        st = ex.ghost['st']
        i, j, S0, cnt = st['i'], st['j'], st['servers'], st['count']
        n = lambda k: cnt(Extract(S0, IntVal(0), k))[0]
        out = []
        for w in views:
            v0 = w.get0(snap)
            if not isinstance(v0, ListV) or v0.s.sort() != SeqSort(Var):
                continue
            outer = any(q.eq(S0) for _, q in L.srcs)
            if outer:
                out.append(('one entry per shown server', lambda e, k, w=w: Length(w.get(e).s) == n(k)))
                out.append(('entries describe their server', lambda e, k, w=w: Implies(And(i >= 0, i < k, st['shown'](S0[i])), And(n(i) < n(k), *server_ok(e, w.get(e).s[n(i)], S0[i])))))
            else:
                for _, q in L.srcs:
                    if q.sort() == Bytes:
                        out.append(('one entry per client', lambda e, k, w=w: Length(w.get(e).s) == k))
                        out.append(('entries describe their client', lambda e, k, w=w, q=q: Implies(And(j >= 0, j < k), client_ok(e, w.get(e).s[j], q[j]))))
        return out

    def on_begin(ex, L, k, seqinfo):
        st = ex.ghost['st']
        S0, i, cnt = st['servers'], st['i'], st['count']
        q = ex.ghost['tis']
        ex.assume(Implies(And(k >= 0, k < Length(q)), q[k] > 0))
        ex.assume(Implies(And(i >= 0, i < Length(S0), i + 1 <= k), cnt(Extract(S0, IntVal(0), i + 1))[0] <= cnt(Extract(S0, IntVal(0), k))[0]))

    def body(ex):
        fn = need_fn(g, S + '::currentStatistics', 1)
        srv, v = begin(ex)
        enter(ex, fn, srv)
        any_iface(ex)
        tis = ex.getf(srv, S, 'm_transportInterfaces', ('tmpl', 'QList', (('ptr', ('cls', TI)),)))
        ex.ghost['tis'] = tis.s
        st = ex.ghost['st'] = setup(ex, v)
        ex.xp.opt['folds'] = [st['count']]
        i, j, S0 = st['i'], st['j'], st['servers']
        # unfolding at the chosen server
        cnt = st['count']
        ex.assume(Implies(And(i >= 0, i < Length(S0)), cnt(Extract(S0, IntVal(0), i + 1))[0] == cnt(Extract(S0, IntVal(0), i))[0] + If(st['shown'](S0[i]), IntVal(1), IntVal(0))))
        ex.assume(cnt(Extract(S0, IntVal(0), i))[0] >= 0)
        m = ex.load(ex.call_fn(fn, srv, argvals=[st['all']]))
        w = V(ex, srv)
        for k, x in (('totalClientCount', iv(v.P.cnt)), ('serverConnectionsCount', iv(v.SC.cnt)), ('clientConnectionsCount', iv(v.CC.cnt)), ('troughput', v.f(S, 'm_troughput', srv))):
            d, val = vmap_get(ex, m, k)
            ex.oblige('the statistics report the true numbers', And(d, num_is(val, x)), T, detail=k)
        d, tc = vmap_get(ex, m, 'tunnelConnections')
        lst = QT.vout(ex, tc, 'List')
        n = cnt(S0)[0]
        ex.assume(n == cnt(Extract(S0, IntVal(0), Length(S0)))[0])
        ex.oblige('there is one entry per server', And(d, QT.vt_of(tc) == 9, Length(lst) == n), T)
        pos = cnt(Extract(S0, IntVal(0), i))[0]
        for x in [pos < n] + server_ok(ex, lst[pos], S0[i]):
            ex.oblige('each server is listed with its own identity, counters and clients', Implies(And(i >= 0, i < Length(S0), st['shown'](S0[i])), x), T)
        same(ex, v, w, 'computing the statistics', T)
        ex.oblige('computing the statistics has no effect', not quiet_but(ex, ('New', 'LoopSeg')), T, detail=str(quiet_but(ex))[:200])
    g.verify('TunnelProxyServer::currentStatistics', body, STATS, loop_cands=cands, on_iter_begin=on_begin)


@task('tick', ['C16'], ['TunnelProxyServer::tick'])
def t_tick(g):
    def body(ex):
        fn = need_fn(g, S + '::tick', 0)
        srv, v = begin(ex)
        enter(ex, fn, srv)
        ex.call_fn(fn, srv, argvals=[])
        w = V(ex, srv)
        ex.oblige('the throughput is what was counted since the last tick', And(w.f(S, 'm_troughput', srv) == v.f(S, 'm_troughputCounter', srv), w.f(S, 'm_troughputCounter', srv) == 0), T)
        same(ex, v, w, 'tick', T, [k for k in FT if k not in ((S, 'm_troughput'), (S, 'm_troughputCounter'))])
        ex.oblige('a tick has no other effect', not quiet_but(ex), T)
    g.verify('TunnelProxyServer::tick', body, CORE)
