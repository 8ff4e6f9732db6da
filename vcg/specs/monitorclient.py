"""Contracts of the monitor program (C24): MonitorClient."""
from vals import *
from ex import *
from task import task, TASKS
from contracts import Fn, Contract
from specs.slip import need_fn
import qt as QT
from specs.core import T_PTR, enter, vmap_get
from specs.transports import calls, emits, sname, same_obj, fire, tail, qtcall
from specs.jsonrpc import vmap_of, nl

MC = 'MonitorClient'
T = ('C24',)
SEP = b'}\n'
T_MAP = ('tmpl', 'QMap', (T_STR, ('cls', 'QVariant')))
SOCK = ('cls', 'QLocalSocket')


def buf(ex, o): return ex.load(ex.getf(o, MC, 'm_dataBuffer', T_BA)).s
def flag(ex, o, f): return ex.tobool(ex.getf(o, MC, f, T_BOOL))
def sock(ex, o): return iv(ex.load(ex.getf(o, MC, 'm_socket', T_PTR)))
def name(ex, o): return ex.load(ex.getf(o, MC, 'm_serverName', T_STR))


def created(ex, g):
    """a new client, connected to its socket by its constructor, at any later moment"""
    o = Int('client')
    ex.assume(And(o > 0, o < ex.alloc0))
    fn = g.prog.find_fn(MC + '::' + MC, 3)
    if fn is None:
        raise ToolLimit('constructor of ' + MC)
    ex.ghost['recvcls'], ex.ghost['o'] = MC, o
    ex.this_cls = MC
    nm, js = z3.String('serverName'), z3.Bool('jsonMode')
    ex.call_fn(fn, o, argvals=[nm, js, Int('parent')], is_ctor=True)
    s = sock(ex, o)
    ex.oblige('a new monitor client has its socket', s > 0, T)
    ex.oblige('a new monitor client has received nothing', Length(buf(ex, o)) == 0, T)
    ex.oblige('a new monitor client keeps its settings', And(name(ex, o) == nm, flag(ex, o, 'm_jsonMode') == js), T)
    ex.oblige('a new monitor client does nothing on its own', not [e for e in ex.log if e.kind in ('QtCall', 'Emit')], T, detail=str(ex.log)[:200])
    ex.setf(o, MC, 'm_dataBuffer', T_BA, unpack(Const('buffered', zsort(T_BA)), T_BA))
    ex.setf(o, MC, 'm_printAll', T_BOOL, z3.Bool('printAll'))
    ex.qtepoch = ex.fresh('epoch', IntSort())
    return o, s


def prints(log): return [e for e in log if e.kind == 'Print']


OUT = {'qStdOut': lambda ex, vals: Py('debug', out=True)}


def within(x, r):
    """x is made from the text r"""
    return x.eq(r) or any(within(c, r) for c in x.children())


def printed(ex, log, v):
    """how often the JSON text of value v was printed"""
    n = 0
    for e in prints(log):
        for x in e.args:
            x = ex.load(x)
            x = getattr(x, 'b', x) if isinstance(x, CStr) else getattr(x, 's', x)
            if not z3.is_expr(x):
                continue
            for w, r in ex.ghost.get('json', []):
                if w is v or z3.is_expr(w) and z3.simplify(w).eq(z3.simplify(v)):
                    n += within(x, r)
    return n


@task('MonitorClient_data', ['C24'], ['MonitorClient::MonitorClient', 'MonitorClient::onReadyRead', 'MonitorClient::processData'], prog='monitor')
def t_data(g):
    def begun(ex, L, k, *a):
        b = buf(ex, ex.ghost['o'])
        ex.ghost['ib'], ex.ghost['in'] = b, len(ex.log)
        ex.oblige('nothing is lost before the first message', Implies(k == 0, b == ex.ghost['start']), T)

    def message(ex, log, b, rest):
        """b: what was buffered; rest: what is buffered afterwards; one message in between"""
        evs = [e for e in log if e.kind == 'Emit']
        n = Length(b) - Length(rest) - 1
        data = Extract(b, IntVal(0), n)
        j = ex.fresh('any', IntSort())
        QT.index_inst(ex, b, SEP, j)
        ex.oblige('a message ends at a separator', QT.match_at(b, n - 1, SEP), T)
        ex.oblige('no earlier separator is part of a message', Implies(And(j >= 0, j < n - 1), Not(QT.match_at(b, j, SEP))), T)
        ex.oblige('a message and its end are taken off', And(n >= 1, n < Length(b), b[n] == 10), T)
        ex.oblige('what follows a message is kept, nothing else', rest == Extract(b, n + 1, Length(rest)), T)
        ok = QT.jerr(data) == 0
        js = flag(ex, ex.ghost['o'], 'm_jsonMode')
        ex.oblige('a message is reported at most once', len(evs) <= 1 and all(sname(e) == 'dataReady' for e in evs), T, detail=str(evs)[:200])
        if evs:
            ex.oblige('only a JSON message is reported', And(ok, Not(js)), T)
            m = ex.load(evs[0].args[0])
            w = unpack(QT.vout(ex, QT.jval(data), 'Map'), T_MAP)
            ex.oblige('a message is reported with its content', pack(m, T_MAP) == pack(w, T_MAP), T)
        else:
            ex.oblige('a JSON message is reported', Or(Not(ok), js), T)
        ex.oblige('reading a message does nothing else', not calls(ex, log) if False else not [e for e in log if e.kind == 'QtCall'], T, detail=str(log)[:200])

    def on_iter(ex, L, k, seqinfo, log, post):
        message(ex, log, ex.ghost['ib'], buf(ex, ex.ghost['o']))

    def body(ex):
        o, s = created(ex, g)
        b0 = buf(ex, o)
        n = len(ex.log)
        ex.ghost['n'] = n

        def q(*a):
            r = qtcall(*a)
            if a[3] == 'readAll':
                ex.ghost['start'] = Concat(b0, r.s)
            return r
        ex.ghost['q'] = q
        k = fire(ex, s, 'readyRead', [])
        ex.oblige('data of the server is handled once', k == 1, T)
        evs = tail(ex, n)
        rd = [e for e in evs if e.kind == 'QtCall']
        ex.oblige('everything that arrived is read once, from the socket', And(BoolVal(len(rd) == 1 and rd[0].name == 'readAll'), *[iv(e.obj) == s for e in rd]), T, detail=str(rd)[:200])
        j = ex.fresh('any', IntSort())
        QT.index_inst(ex, buf(ex, o), SEP, j)
        ex.oblige('no complete message is left behind', Implies(j >= 0, Not(QT.match_at(buf(ex, o), j, SEP))), T)
        if not [e for e in evs if e.kind in ('LoopSeg', 'Emit')]:
            ex.oblige('incomplete data waits for the rest of the message', buf(ex, o) == ex.ghost['start'], T)

    def on_exit(ex):
        js = flag(ex, ex.ghost['o'], 'm_jsonMode')
        ex.oblige('only the JSON mode ends after a message', js, T)
        evs = ex.log
        ex.oblige('the JSON mode prints one message', printed(ex, evs, ex.ghost['json'][-1][0]) == 1 if ex.ghost.get('json') else BoolVal(False), T, detail=str([(str(getattr(ex.load(x), "b", x))) for e in prints(evs) for x in e.args] + [str(x) for x in ex.ghost.get("json", [])])[:600])
    g.verify(MC + '::onReadyRead', body, {}, funcs=OUT, on_iter=on_iter, on_iter_begin=begun, on_exit=on_exit, qtcall=lambda ex, *a: ex.ghost['q'](ex, *a) if 'q' in ex.ghost else qtcall(ex, *a),
             loop_cands=lambda ex, L, snap, views: [('nothing is lost before the first message', lambda e, k: Implies(k == 0, buf(e, e.ghost['o']) == e.ghost['start']))])


# ---------------------------------------------------------------- requests and the connection
@task('MonitorClient_calls', ['C24'], ['MonitorClient::' + x for x in ('MonitorClient', 'onConnected', 'onDisconnected', 'connectMonitor', 'disconnectMonitor', 'refresh', 'setPrintAll', 'printAll')], prog='monitor')
def t_calls(g):
    def connected(ex):
        o, s = created(ex, g)
        n = len(ex.log)
        sig = 'connected' if ex.choose(2) else 'disconnected'
        fire(ex, s, sig, [])
        evs = tail(ex, n)
        es = emits(ex, evs)
        ex.oblige('a change of the connection is reported once', And(BoolVal(len(es) == 1 and len(evs) == 1 and sname(es[0]) == sig), *[iv(e.obj) == o for e in es]), T, detail=str(evs)[:200])
        if sig == 'connected':
            ex.oblige('a new connection starts with a new message', Length(buf(ex, o)) == 0, T)

    def api(nm, np, what):
        def f(ex):
            o, s = created(ex, g)
            ex.log[:] = []
            fn = need_fn(g, MC + '::' + nm, np)
            b0 = buf(ex, o)
            ex.call_fn(fn, o, argvals=[z3.Bool('value')] if np else [])
            what(ex, o, s, [e for e in calls(ex) if e.name not in ('flush',)])
            ex.oblige('the received data is not touched', buf(ex, o) == b0, T, detail=nm)
        return f

    def c_connect(ex, o, s, cs):
        ok = len(cs) == 1 and cs[0].name in ('connectToServer', 'open') and bool(cs[0].args)
        ex.oblige('connecting opens the configured socket once', And(BoolVal(ok), iv(cs[0].obj) == s, QT.as_str(ex, ex.load(cs[0].args[0])) == name(ex, o)) if ok else BoolVal(False), T, detail=str(cs)[:200])

    def c_disconnect(ex, o, s, cs):
        ex.oblige('disconnecting closes the socket', And(BoolVal(len(cs) >= 1 and all(e.name in ('close', 'abort', 'disconnectFromServer') for e in cs)), *[iv(e.obj) == s for e in cs]), T, detail=str(cs)[:200])

    def c_print(ex, o, s, cs):
        ex.oblige('the list asked for is the one that was chosen', flag(ex, o, 'm_printAll') == z3.Bool('value'), T)
        ex.oblige('choosing does nothing else', not cs, T)

    def c_refresh(ex, o, s, cs):
        up = uf('obs_state', [s, ex.ghost['epoch0']], IntSort()) == 3
        if not cs:
            ex.oblige('a connected monitor asks for the status', Not(up), T)
            return
        ok = len(cs) == 1 and cs[0].name == 'write'
        ex.oblige('only a connected monitor asks for the status', up, T)
        ex.oblige('the status is asked for once, on the socket', And(BoolVal(ok), *[iv(e.obj) == s for e in cs]), T, detail=str(cs)[:200])
        if not ok:
            return
        b = QT.as_bytes(ex, ex.load(cs[0].args[0]))
        all_ = flag(ex, o, 'm_printAll')

        def good(m):
            d, v = vmap_get(ex, m, 'method')
            p, w = vmap_get(ex, m, 'params')
            a, x = vmap_get(ex, unpack(QT.vout(ex, w, 'Map'), T_MAP), 'printAll')
            return And(d, QT.vout(ex, v, 'String') == StringVal('refresh'), And(p, a, QT.vout(ex, x, 'Bool')) == all_)
        js = ex.ghost.get('json', [])
        ex.oblige('the request is one line of JSON', Or(*[b == nl(r) for v, r in js]) if js else BoolVal(False), T)
        ex.oblige('the request names the chosen list', Or(*[And(b == nl(r), good(vmap_of(ex, v))) for v, r in js]) if js else BoolVal(False), T)

    def refresh(ex):
        o, s = created(ex, g)
        ex.log[:] = []
        ex.ghost['epoch0'] = ex.qtepoch
        b0 = buf(ex, o)
        ex.call_fn(need_fn(g, MC + '::refresh', 0), o, argvals=[])
        c_refresh(ex, o, s, [e for e in calls(ex) if e.name != 'flush'])
        ex.oblige('the received data is not touched', buf(ex, o) == b0, T, detail='refresh')
    g.verify(MC + '::onConnected', connected, {}, qtcall=qtcall)
    g.verify(MC + '::connectMonitor', api('connectMonitor', 0, c_connect), {}, qtcall=qtcall)
    g.verify(MC + '::disconnectMonitor', api('disconnectMonitor', 0, c_disconnect), {}, qtcall=qtcall)
    g.verify(MC + '::setPrintAll', api('setPrintAll', 1, c_print), {}, qtcall=qtcall)
    g.verify(MC + '::refresh', refresh, {}, qtcall=qtcall)


@task('Monitor_refresh', ['C24'], ['Monitor::' + x for x in ('Monitor', 'onConnected', 'onDisconnected')], prog='monitor')
def t_monitor(g):
    MO, TW = 'Monitor', 'TerminalWindow'

    def did(name):
        def f(ex, this, args, node):
            ex.log.append(Event('Did', name=name, obj=iv(this), args=[ex.load(a) for a in args]))
        return Fn(f)

    def body(ex):
        o = Int('monitor')
        ex.assume(And(o > 0, o < ex.alloc0))
        fn = g.prog.find_fn(MO + '::' + MO, 3)
        if fn is None:
            raise ToolLimit('constructor of Monitor')
        ex.ghost['recvcls'] = MO
        ex.this_cls = MO
        nm, js = z3.String('serverName'), z3.Bool('jsonMode')
        ex.call_fn(fn, o, argvals=[nm, js, Int('parent')], is_ctor=True)
        c = iv(ex.load(ex.getf(o, MO, 'm_monitorClient', T_PTR)))
        made = [e for e in ex.log if e.kind == 'Did' and e.name == 'new']
        ex.oblige('the monitor has its client, for the given socket', And(BoolVal(len(made) == 1), *[And(e.obj == c, e.args[0] == nm, ex.tobool(e.args[1]) == js) for e in made]), T, detail=str(made))
        up = [e for e in ex.log if e.kind == 'Did' and e.name == 'connectMonitor']
        ex.oblige('the monitor connects once', And(BoolVal(len(up) == 1), *[e.obj == c for e in up]), T)
        tm = ex.objfield(o, MO, 'm_timer') if hasattr(ex, 'objfield') else None
        ex.ghost['tm'] = tm
        n = len(ex.log)
        ex.ghost['n'] = n
        fire(ex, c, 'connected', [])
        t = timer(ex)
        ex.oblige('a connected monitor asks regularly', And(b2(QT.timer_get(ex, t, 'active')), Not(b2(QT.timer_get(ex, t, 'single'))), iv(QT.timer_get(ex, t, 'interval')) <= 1000, iv(QT.timer_get(ex, t, 'interval')) > 0), T)
        n = len(ex.log)
        fire(ex, t, 'timeout', [])
        ask = [e for e in tail(ex, n) if e.kind == 'Did']
        ex.oblige('the timer asks for the status once', And(BoolVal(len(ask) == 1 and ask[0].name == 'refresh'), *[e.obj == c for e in ask]), T, detail=str(ask))
        n = len(ex.log)
        data = unpack(Const('dataMap', zsort(T_MAP)), T_MAP)
        fire(ex, c, 'dataReady', [data])
        sh = [e for e in tail(ex, n) if e.kind == 'Did']
        if ex.branch(js):
            ex.oblige('the JSON mode has no window', not sh, T, detail=str(sh))
        else:
            ex.oblige('a message is shown once, unchanged', And(BoolVal(len(sh) == 1 and sh[0].name == 'refreshWindow'), *[pack(e.args[0], T_MAP) == pack(data, T_MAP) for e in sh if e.args]), T, detail=str(sh))
        fire(ex, c, 'disconnected', [])
        ex.oblige('a monitor that lost its connection stops asking', Not(b2(QT.timer_get(ex, t, 'active'))), T)

    def timer(ex):
        for e in ex.conns:
            if str(e.sig).endswith('timeout'):
                return e.sender
        raise ToolLimit('timer of the monitor')

    def on_exit(ex):
        ex.oblige('the monitor ends only after it lost its connection', not b2(QT.timer_get(ex, timer(ex), 'active')) if False else Not(b2(QT.timer_get(ex, timer(ex), 'active'))), T)
    con = {MC + '::' + x: did(x) for x in ('connectMonitor', 'refresh', 'disconnectMonitor', 'setPrintAll')}
    con.update({MC + '::' + MC: did('new'), TW + '::' + TW: did('window'), TW + '::refreshWindow': did('refreshWindow'), TW + '::~' + TW: did('closed')})
    g.verify(MO + '::Monitor', body, con, qtcall=qtcall, on_exit=on_exit, funcs={'refresh': lambda ex, vals: 0, 'wrefresh': lambda ex, vals: 0})


@task('NonInteractiveMonitor', ['C24'], ['NonInteractiveMonitor::' + x for x in ('NonInteractiveMonitor', 'onConnected')], prog='monitor')
def t_once(g):
    NI = 'NonInteractiveMonitor'

    def did(name):
        return Fn(lambda ex, this, args, node: ex.log.append(Event('Did', name=name, obj=iv(this), args=[ex.load(a) for a in args])))

    def body(ex):
        o = Int('monitor')
        ex.assume(And(o > 0, o < ex.alloc0))
        fn = g.prog.find_fn(NI + '::' + NI, 4)
        if fn is None:
            raise ToolLimit('constructor of ' + NI)
        ex.ghost['recvcls'] = NI
        ex.this_cls = NI
        nm, js, al = z3.String('serverName'), z3.Bool('jsonMode'), z3.Bool('printAll')
        ex.call_fn(fn, o, argvals=[nm, js, al, Int('parent')], is_ctor=True)
        c = iv(ex.load(ex.getf(o, NI, 'm_monitorClient', T_PTR)))
        ds = {n: [e for e in ex.log if e.kind == 'Did' and e.name == n] for n in ('new', 'connectMonitor', 'setPrintAll', 'refresh')}
        ex.oblige('the monitor has its client, for the given socket', And(BoolVal(len(ds['new']) == 1), *[And(e.obj == c, e.args[0] == nm, ex.tobool(e.args[1]) == js) for e in ds['new']]), T)
        ex.oblige('the chosen list is asked for', And(BoolVal(len(ds['setPrintAll']) >= 1), *[And(e.obj == c, ex.tobool(e.args[0]) == al) for e in ds['setPrintAll'][-1:]]) if ds['setPrintAll'] else Not(al), T)
        ex.oblige('the monitor connects once', And(BoolVal(len(ds['connectMonitor']) == 1), *[e.obj == c for e in ds['connectMonitor']]), T)
        ex.oblige('the monitor connects with its settings made', [e.name for e in ex.log if e.kind == 'Did'][-1:] == ['connectMonitor'], T)
        n = len(ex.log)
        fire(ex, c, 'connected', [])
        ask = [e for e in tail(ex, n) if e.kind == 'Did']
        ex.oblige('a connected monitor asks for the status once', And(BoolVal(len(ask) == 1 and ask[0].name == 'refresh'), *[e.obj == c for e in ask]), T, detail=str(ask))
        ex.oblige('the answer is shown', len([e for e in ex.conns if str(e.sig).endswith('dataReady') and same_obj(e.sender, c)]) == 1, T)
    con = {MC + '::' + x: did(x) for x in ('connectMonitor', 'refresh', 'disconnectMonitor', 'setPrintAll')}
    con[MC + '::' + MC] = did('new')
    g.verify(NI + '::' + NI, body, con, qtcall=qtcall)
