"""Contracts of the control plane methods (JsonHandler and its subclasses) and of what they publish."""
from vals import *
from ex import *
from task import task, TASKS
from contracts import Fn, Contract
from specs.slip import need_fn
import qt as QT
from specs.core import *
from specs.jsonrpc import JH, RP, TPH, JT, T_SS, T_SM, T_HANDLERS, live, valid, c_invoke, JSON, num_is


# ---------------------------------------------------------------- contracts of the callees
def err_name(e):
    """the published name of an error code"""
    return uf('error_name', [iv(e)], Str)


def c_errname(ex, this, args, node):
    return err_name(args[0])


def c_server(ex, this, args, node):
    return ex.pre.srv


def c_registry(name):
    """TunnelProxyServer::registerServer / registerClient / disconnectClient (proved in their own tasks)"""
    def f(ex, this, args, node):
        srv = ex.pre.srv
        v = V(ex, srv)
        ex.oblige('%s is called on the tunnel proxy server' % name, iv(this) == srv, ('C08', 'C10'))
        r = ex.fresh('error', IntSort())
        ex.assume(And(r >= 0, r <= 7))
        ex.log.append(Event('Registry', call=name, args=[a for a in args], result=r, pre=v))
        c = ex.ghost['caller']
        known = ex.sel(v.P.dom, iv(args[0]))
        ex.oblige('the registry is asked on behalf of the connection that sent the request', iv(args[0]) == v.cid(c), ('C08', 'C10'))
        if name == 'disconnectClient':
            ex.oblige('an address is a 16 bit number', And(iv(args[1]) >= 0, iv(args[1]) < 65536), ('C10',))
        a, w = registry_effect(ex, srv, c, name)
        return r
    return f


HANDLER = dict(CORE)
del HANDLER[JR + '::sendNotification']
HANDLER.update({NS + 'Engine::tunnelProxyServer': Fn(c_server), JT + '::tunnelProxyErrorToString': Fn(c_errname)})
for n in ('registerServer', 'registerClient', 'disconnectClient'):
    HANDLER[S + '::' + n] = Fn(c_registry(n))


def arg_of(ex, params, key):
    d, x = vmap_get(ex, params, key)
    return If(d, x, VNULL)


def conv(ex, v, k):
    return QT.vout(ex, v, k)


def method_task(g, cls, name, spec, contracts=HANDLER, setup=None, **opt):
    def body(ex):
        fn = need_fn(g, cls + '::' + name, 2)
        srv, v = begin(ex)
        this = Int('handler') if cls != JR else v.jr
        ex.assume(And(this > 0, this < v.bound))
        enter(ex, fn, this)
        any_iface(ex)
        if setup:
            setup(ex)
        c = Int('client')
        ex.ghost['caller'] = c
        ex.assume(live(v, c))
        params = unpack(Const('params', zsort(T_MAP)), T_MAP)
        r = iv(ex.load(ex.call_fn(fn, this, argvals=[params, c])))
        w = V(ex, srv)
        T = ('C11',)
        evs = quiet_but(ex)
        ex.oblige('a method sends, closes and notifies nothing itself', not [e for e in evs if e.kind in ('SendData', 'Kill', 'Notify')], T, detail=str(evs)[:200])
        ex.oblige('a method returns a new reply object', And(r >= v.bound, r > 0), T)
        ty = iv(ex.getf(r, RP, 'm_type', T_INT))
        ex.oblige('a reply is a finished one or a pending one', Or(ty == 0, ty == 1), T)
        prove_inv(ex, w, name, ('C08', 'C09'))
        prove_R(ex, v, w, c, name, ('C08',))
        spec(ex, v, w, c, params, r, [e for e in evs if e.kind == 'Registry'], ex.getf(r, RP, 'm_data', T_MAP), ty)
    g.verify('%s::%s' % (cls.split('::')[-1], name), body, contracts, **opt)


def answers_error(ex, data, err, what, tags):
    d, x = vmap_get(ex, data, 'tunnelProxyError')
    ex.oblige('the answer reports what the %s resulted in' % what, And(d, x == vinj('String')(err_name(err))), tags)


@task('RegisterServer', ['C08', 'C09', 'C11', 'C13'], ['TunnelProxyHandler::RegisterServer', 'JsonHandler::createReply', 'JsonReply::createReply'])
def t_RegisterServer(g):
    def spec(ex, v, w, c, params, r, regs, data, ty):
        T = ('C08',)
        u = conv(ex, arg_of(ex, params, 'serverUuid'), 'Uuid')
        nm = conv(ex, arg_of(ex, params, 'serverName'), 'String')
        ex.oblige('the request is answered at once', ty == 0, ('C11',))
        if regs:
            e = regs[0]
            ex.oblige('a server registration registers exactly one server', len(regs) == 1 and e.call == 'registerServer', T)
            ex.oblige('no server is registered without UUID', u != 0, T)
            ex.oblige('the server is registered under the given UUID and name', And(iv(e.args[1]) == u, e.args[2] == nm), T)
            answers_error(ex, data, e.result, 'registration', T)
            err = e.result
        else:
            ex.oblige('only a registration without UUID is refused here', u == 0, T)
            err = IntVal(ERR['InvalidUuid'])
            answers_error(ex, data, err, 'registration', T)
        d, x = vmap_get(ex, data, 'slipEnabled')
        ex.oblige('framed mode is announced exactly to a registered server', And(d, x == vinj('Bool')(err == 0)), T)
    method_task(g, TPH, 'RegisterServer', spec)


@task('RegisterClient', ['C08', 'C09', 'C11', 'C13'], ['TunnelProxyHandler::RegisterClient'])
def t_RegisterClient(g):
    def spec(ex, v, w, c, params, r, regs, data, ty):
        T = ('C08',)
        su = conv(ex, arg_of(ex, params, 'serverUuid'), 'Uuid')
        u = conv(ex, arg_of(ex, params, 'clientUuid'), 'Uuid')
        nm = conv(ex, arg_of(ex, params, 'clientName'), 'String')
        ex.oblige('the request is answered at once', ty == 0, ('C11',))
        if regs:
            e = regs[0]
            ex.oblige('a client registration registers exactly one client', len(regs) == 1 and e.call == 'registerClient', T)
            ex.oblige('no client is registered without UUID', And(u != 0, su != 0), T)
            ex.oblige('the client is registered with the given UUID, name and server', And(iv(e.args[1]) == u, e.args[2] == nm, iv(e.args[3]) == su), T)
            answers_error(ex, data, e.result, 'registration', T)
        else:
            ex.oblige('only a registration without UUID is refused here', Or(u == 0, su == 0), T)
            answers_error(ex, data, IntVal(ERR['InvalidUuid']), 'registration', T)
    method_task(g, TPH, 'RegisterClient', spec)


@task('DisconnectClient', ['C10', 'C08', 'C09', 'C11', 'C13'], ['TunnelProxyHandler::DisconnectClient'])
def t_DisconnectClient(g):
    def spec(ex, v, w, c, params, r, regs, data, ty):
        T = ('C10',)
        n = conv(ex, arg_of(ex, params, 'socketAddress'), 'ULongLong')
        ex.oblige('the request is answered at once', ty == 0, ('C11',))
        if regs:
            e = regs[0]
            a = iv(e.args[1])
            ex.oblige('at most one client is asked to be closed', len(regs) == 1 and e.call == 'disconnectClient', T)
            ex.oblige('the named address is meant, an address outside 16 bits names no client', If(n <= 0xFFFF, a == n, Or(a == 0, a == 0xFFFF)), T)
            answers_error(ex, data, e.result, 'request', T)
        else:
            d, x = vmap_get(ex, data, 'tunnelProxyError')
            ex.oblige('only an address that no client can have is refused here', Or(n > 0xFFFF, n == 0, n == 0xFFFF), T)
            some = Int('some_error')
            ex.oblige('a request that names no client is answered with an error', And(d, Or(*[x == vinj('String')(err_name(IntVal(i))) for i in range(1, 8)])), T)
    method_task(g, TPH, 'DisconnectClient', spec)


def no_registry(what):
    def spec(ex, v, w, c, params, r, regs, data, ty):
        ex.oblige('%s does not touch the registry' % what, not regs, ('C11',))
        ex.oblige('the request is answered at once', ty == 0, ('C11',))
    return spec


@task('Ping', ['C11', 'C08', 'C09'], ['TunnelProxyHandler::Ping'])
def t_Ping(g):
    def spec(ex, v, w, c, params, r, regs, data, ty):
        no_registry('Ping')(ex, v, w, c, params, r, regs, data, ty)
        d, x = vmap_get(ex, data, 'timestamp')
        ex.oblige('the timestamp is returned as it was sent', And(d, x == arg_of(ex, params, 'timestamp')), ('C11',))
    method_task(g, TPH, 'Ping', spec)


def configured(ex):
    """requests arrive only through transports, which exist only after the engine was started with a configuration"""
    e = uf('the_engine', [], IntSort())
    ex.assume(iv(ex.getf(e, NS + 'Engine', 'm_configuration', ('ptr', ('cls', NS + 'ProxyConfiguration')))) > 0)


@task('Hello', ['C11', 'C08', 'C09'], ['JsonRpcServer::Hello', 'Engine::serverName'])
def t_Hello(g):
    method_task(g, JR, 'Hello', no_registry('Hello'), setup=configured)


def c_fresh_map(nm):
    def f(ex, this, args, node):
        return unpack(ex.fresh(nm, zsort(T_MAP)), T_MAP)
    return Fn(f)


@task('Introspect', ['C11', 'C08', 'C09'], ['JsonRpcServer::Introspect'])
def t_Introspect(g):
    def spec(ex, v, w, c, params, r, regs, data, ty):
        no_registry('Introspect')(ex, v, w, c, params, r, regs, data, ty)
        for k in ('types', 'methods', 'notifications'):
            d, x = vmap_get(ex, data, k)
            ex.oblige('the description has the documented parts', d, ('C11',), detail=k)
    def setup(ex):
        # registered handlers are objects
        jr = uf('jsonrpc', [], IntSort()) if False else Int('jsonrpc')
        H = ex.getf(jr, JR, 'm_handlers', T_HANDLERS)
        w = z3.String('some_handler')
        ex.assume(ForAll([w], Implies(Select(H.dom, w), Select(H.val, w) > 0), patterns=[Select(H.val, w)]), quant=True)
    cs = dict(HANDLER)
    cs[JH + '::introspect'] = c_fresh_map('introspection')
    cs[JT + '::allTypes'] = c_fresh_map('types')
    method_task(g, JR, 'Introspect', spec, cs, setup=setup)


@task('introspect', ['C11'], ['JsonHandler::introspect'])
def t_introspect(g):
    """describing a handler changes nothing"""
    def body(ex):
        fn = need_fn(g, JH + '::introspect', 1)
        srv, v = begin(ex)
        this = Int('handler')
        ex.assume(And(this > 0, this < v.bound))
        enter(ex, fn, this)
        ex.call_fn(fn, this, argvals=[Int('kind')])
        evs = quiet_but(ex)
        ex.oblige('describing a handler has no effect on a connection', not [e for e in evs if e.kind in ('SendData', 'Kill', 'Notify', 'Registry')], ('C11',))
        w = V(ex, srv)
        for a, b in ((v.P, w.P), (v.SC, w.SC), (v.CC, w.CC)):
            ex.oblige('describing a handler leaves the registry as it was', And(a.dom == b.dom, a.val == b.val), ('C11',))
    g.verify('JsonHandler::introspect', body, dict(HANDLER, **{JH + '::name': Fn(lambda ex, this, args, node: uf('handler_name', [iv(this)], Str))}))
