"""Contracts of the command line client (C21): ClientConnection, ServerConnection of tunnelclient."""
from vals import *
from ex import *
from task import task, TASKS
from contracts import Fn, Contract
import qt as QT
from specs.core import T_PTR
from specs.transports import sname, fire, tail, qtcall

CN = 'remoteproxyclient::'
T = ('C21',)
APPS = (('ClientConnection', 7, 'm_remoteConnection', CN + 'TunnelProxyRemoteConnection', 'connectToServer', 'connectServer'),
        ('ServerConnection', 6, 'm_socketServer', CN + 'TunnelProxySocketServer', 'startServer', 'startServer'))
RELAX = ('ignoreSslErrors', 'setPeerVerifyMode', 'setPeerVerifyName')
ERRS = ('tmpl', 'QList', (('cls', 'QSslError'),))


def mk(cls, np, field, lib, start, open_):
    @task(cls + '_tls', ['C21'], [cls + '::' + cls, cls + '::' + start], prog='tunnelclient')
    def t(g):
        def did(name):
            return Fn(lambda ex, this, args, node: ex.log.append(Event('Did', name=name, obj=iv(this), args=[ex.load(a) for a in args])))

        def opened(ex, this, args, node):
            ex.log.append(Event('Did', name=open_, obj=iv(this), args=[ex.load(a) for a in args]))
            return ex.fresh('ok', BoolSort())

        def body(ex):
            o = Int('connection')
            ex.assume(And(o > 0, o < ex.alloc0))
            fn = g.prog.find_fn(cls + '::' + cls, np)
            if fn is None:
                raise ToolLimit('constructor of ' + cls)
            ex.ghost['recvcls'] = cls
            ex.this_cls = cls
            ins = z3.Bool('insecure')
            url = Opaque(('cls', 'QUrl'), Int('url'))
            a = [url, z3.String('name'), unpack(Int('uuid'), T_UUID)]
            a += [unpack(Int('serverUuid'), T_UUID), ins, z3.Bool('random')] if np == 7 else [ins, z3.Bool('echo')]
            ex.call_fn(fn, o, argvals=a + [Int('parent')], is_ctor=True)
            c = iv(ex.load(ex.getf(o, cls, field, T_PTR)))
            relax = lambda log: [e for e in log if e.kind in ('Did', 'QtCall') and e.name in RELAX]
            ex.oblige('nothing is ignored before an error occurs', not relax(ex.log), T, detail=str(relax(ex.log)))
            n = len(ex.log)
            ex.call_fn(g.prog.find_fn(cls + '::' + start, 0), o, argvals=[])
            op = [e for e in tail(ex, n) if e.kind in ('Did', 'QtCall') and e.name == open_]
            ex.oblige('the proxy given by the user is contacted once', And(BoolVal(len(op) == 1), *[And(iv(e.obj) == c, ex.load(e.args[0]).e == url.e) for e in op]), T, detail=str(ex.log))
            ex.oblige('nothing is ignored before an error occurs', not relax(tail(ex, n)), T)
            n = len(ex.log)
            errs = Opaque(ERRS, Int('errors')) if False else unpack(Const('errors', zsort(ERRS)), ERRS)
            fire(ex, c, 'sslErrors', [errs])
            r = relax(tail(ex, n))
            ex.oblige('errors of the encryption are ignored only if the user asked for it', Or(BoolVal(not r), ins), T, detail=str(r))
            ex.oblige('only the errors that occurred are ignored', And(*[And(BoolVal(e.name == 'ignoreSslErrors' and len(e.args) == 1), iv(e.obj) == c, pack(ex.load(e.args[0]), ERRS) == pack(errs, ERRS)) if len(e.args) == 1 else BoolVal(False) for e in r]) if r else BoolVal(True), T, detail=str(r))
        con = {lib + '::' + open_: Fn(opened), lib + '::ignoreSslErrors': did('ignoreSslErrors'), lib + '::' + lib.split('::')[-1]: did('new')}
        con[lib + '::' + lib.split('::')[-1]].keep_defaults = True      # the parent of the object
        g.verify(cls + '::' + cls, body, con, qtcall=qtcall)


for _a in APPS:
    mk(*_a)


# ---------------------------------------------------------------- the server program
FREE = {'qInstallMessageHandler': lambda ex, vals: 0, 'catchUnixSignals': lambda ex, vals: 0, 'signal': lambda ex, vals: 0}
PCF, ENG = 'remoteproxy::ProxyConfiguration', 'remoteproxy::Engine'
CT = ('C17', 'C14', 'C23')


@task('server_main', list(CT), ['main (server/main.cpp)'], prog='serverapp')
def t_server(g):
    main = next((f for f in g.prog.files if f.endswith('/main.cpp')), None)
    if main is None:
        raise ToolLimit('server/main.cpp')
    tu = g.prog.tu(main)
    for flt in ('main', 's_log', 'consoleLogHandler'):
        tu.load(flt)
    fns = [f for f in tu.fns.get('main', []) if f.body is not None]
    if not fns:
        raise ToolLimit('main of the server')

    def did(name, ret=None):
        def f(ex, this, args, node):
            r = ret(ex) if ret else None
            ex.log.append(Event('Did', name=name, obj=this if this is None else iv(this), args=[ex.load(a) for a in args], res=r))
            return r
        return Fn(f)
    fresh_b = lambda n: (lambda ex: ex.fresh(n, BoolSort()))

    def eng(ex):
        ex.assume(And(Int('engine') > 0, Int('engine') < ex.alloc0))
        return Int('engine')

    def check(ex):
        """every way the program can end"""
        ds = [e for e in ex.log if e.kind == 'Did']
        st = [e for e in ds if e.name == 'start']
        ld = [e for e in ds if e.name == 'load']
        ex.oblige('the server is started at most once', len(st) <= 1, CT, detail=str(st))
        if not st:
            l = ld[-1] if ld else None
            c = l and l.obj
            ex.oblige('a usable configuration is not refused', Or(Not(l.res), uf('conf_writeLogFile', [c], BoolSort()), And(uf('conf_sslEnabled', [c], BoolSort()), uf('qt_QSslConfiguration_isNull', [uf('conf_sslConfiguration', [c], IntSort())], BoolSort()))) if ld else BoolVal(False), CT)
        for e in st:
            before = ex.log[:ex.log.index(e)]
            ok = [l for l in before if l.kind == 'Did' and l.name == 'load']
            ex.oblige('the server starts only with a configuration that was loaded', Or(*[And(l.res, l.obj == iv(e.args[0])) for l in ok]) if ok else BoolVal(False), CT, detail=str(ok))
            ex.oblige('an encrypted server starts only with a certificate', Implies(uf('conf_sslEnabled', [iv(e.args[0])], BoolSort()), Not(uf('qt_QSslConfiguration_isNull', [uf('conf_sslConfiguration', [iv(e.args[0])], IntSort())], BoolSort()))), CT)

    def body(ex):
        ex.call_fn(fns[0], None, argvals=[Int('argc'), Int('argv')])
        check(ex)
        order = [e.name for e in ex.log if e.kind in ('QtCall', 'Did') and e.name in ('start', 'exec')]
        ex.oblige('a server that runs was started', order in ([], ['start', 'exec']), CT, detail=str(order))
    con = {PCF + '::loadConfiguration': did('load', fresh_b('loaded')), ENG + '::start': did('start'), ENG + '::instance': did('instance', eng), 'qt::instance': did('instance', eng),
           PCF + '::ProxyConfiguration': did('conf'), 'catchUnixSignals': did('signals'), 'remoteproxy::catchUnixSignals': did('signals'), PCF + '::setWriteLogFile': did('set'), PCF + '::setLogFileName': did('set')}
    for c in con.values():
        c.keep_defaults = True
    for n, t, s in (('sslEnabled', T_BOOL, BoolSort()), ('writeLogFile', T_BOOL, BoolSort()), ('logFileName', T_STR, Str)):
        con[PCF + '::' + n] = Fn(lambda ex, this, args, node, n=n, s=s: uf('conf_' + n, [iv(this)], s))
    con[PCF + '::sslConfiguration'] = Fn(lambda ex, this, args, node: Opaque(('cls', 'QSslConfiguration'), uf('conf_sslConfiguration', [iv(this)], IntSort())))
    g.verify('main', body, con, qtcall=qtcall, on_exit=check, funcs=FREE)
