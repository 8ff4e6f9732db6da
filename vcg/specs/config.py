"""Contracts of ProxyConfiguration (C17)."""
from vals import *
from ex import *
from task import task, TASKS
from contracts import Fn, Contract
from specs.slip import need_fn
import qt as QT
from specs.core import NS, enter
from specs.transports import T_CONF

PC = NS + 'ProxyConfiguration'
T17 = ('C17',)
T_U16, T_I32 = ('int', 16, False), ('int', 32, True)
# member, documented group, key, default (README.md / nymea-remoteproxy.conf / proxyconfiguration.h), type
KEYS = [('m_serverName', 'ProxyServer', 'name', 'nymea-remoteproxy', 'String'), ('m_writeLogFile', 'ProxyServer', 'writeLogs', False, 'Bool'),
        ('m_logFileName', 'ProxyServer', 'logFile', '/var/log/nymea-remoteproxy.log', 'String'), ('m_logEngineEnabled', 'ProxyServer', 'logEngineEnabled', False, 'Bool'),
        ('m_monitorSocketFileName', 'ProxyServer', 'monitorSocket', '/tmp/nymea-remoteproxy.monitor', 'String'), ('m_jsonRpcTimeout', 'ProxyServer', 'jsonRpcTimeout', 10000, 'Int'),
        ('m_inactiveTimeout', 'ProxyServer', 'inactiveTimeout', 8000, 'Int'), ('m_sslEnabled', 'SSL', 'enabled', True, 'Bool'),
        ('m_sslCertificateFileName', 'SSL', 'certificate', '/etc/ssl/certs/ssl-cert-snakeoil.pem', 'String'),
        ('m_sslCertificateKeyFileName', 'SSL', 'certificateKey', '/etc/ssl/private/ssl-cert-snakeoil.key', 'String'), ('m_sslCertificateChainFileName', 'SSL', 'certificateChain', '', 'String'),
        ('m_unixSocketFileName', 'UnixSocketServerTunnelProxy', 'unixSocketFileName', '/run/nymea-remoteproxy.socket', 'String'),
        ('m_webSocketServerTunnelProxyHost', 'WebSocketServerTunnelProxy', 'host', '127.0.0.1', 'Host'), ('m_webSocketServerTunnelProxyPort', 'WebSocketServerTunnelProxy', 'port', 2212, 'Port'),
        ('m_tcpServerTunnelProxyHost', 'TcpServerTunnelProxy', 'host', '127.0.0.1', 'Host'), ('m_tcpServerTunnelProxyPort', 'TcpServerTunnelProxy', 'port', 2213, 'Port')]
KT = {'String': T_STR, 'Bool': T_BOOL, 'Int': T_I32, 'Port': T_U16, 'Host': ('cls', 'QHostAddress')}


def has(path): return uf('ini_has', [z3.StringVal(path)], BoolSort())
def raw(path): return uf('ini_value', [z3.StringVal(path)], Var)
def readable(name): return uf('readable', [name], BoolSort())


def qtcall(ex, cls, ref, name, a, n, const):
    st = ex.ghost.setdefault('ini', {})
    r = z3.simplify(iv(ref)).get_id()
    if cls == 'QSettings':
        if name == 'beginGroup':
            st.setdefault(r, []).append(lit(a[0]))
            return None
        if name == 'endGroup':
            if st.get(r):
                st[r].pop()
            return None
        if name in ('value', 'contains'):
            path = '/'.join(st.get(r, []) + [lit(a[0])])
            if name == 'contains':
                return has(path)
            d = a[1] if len(a) > 1 and not QT.isdef(a[1]) else None
            dv = VNULL if d is None else d
            return If(has(path), raw(path), dv)
        if name in ('group',):
            return z3.StringVal('/'.join(st.get(r, [])))
    if cls in ('QFile', 'QIODevice', 'QFileDevice') and name == 'open':
        fn_ = [x[2] for x in ex.ghost.get('ctorargs', []) if z3.simplify(iv(x[1])).get_id() == r]
        if fn_ and fn_[-1]:
            ex.log.append(Event('Open', obj=ref, file=QT.as_str(ex, fn_[-1][0])))
            return readable(QT.as_str(ex, fn_[-1][0]))
    if cls in ('QFile', 'QIODevice', 'QFileDevice') and name == 'close':
        ex.log.append(Event('Close', obj=ref))
        return None
    return NotImplemented


def opened(ex, dev):
    """name of the file that an open QFile object refers to"""
    if not (z3.is_expr(dev) and dev.sort() == IntSort()):
        return None
    r = z3.simplify(dev).get_id()
    name = None
    for e in ex.log:
        if e.kind == 'Open' and z3.simplify(iv(e.obj)).get_id() == r:
            name = e.file
        if e.kind == 'Close' and z3.simplify(iv(e.obj)).get_id() == r:
            name = None
    return name


def qtctor(ex, cls, vals):
    if cls in ('QSslCertificate', 'QSslKey') and vals and z3.is_expr(vals[0]) and vals[0].sort() == IntSort():
        f = opened(ex, vals[0])
        if f is not None:
            return uf('parsed_' + cls, [f], IntSort())
    if cls == 'QFileInfo' and len(vals) == 1 and z3.is_expr(vals[0]) and vals[0].sort() == Str:
        return uf('fileinfo', [vals[0]], IntSort())
    return NotImplemented


def qtval(ex, cls, v, name, a):
    if cls == 'QFileInfo' and name == 'exists' and v.e.decl().name() == 'fileinfo':
        return uf('file_exists', [v.e.arg(0)], BoolSort())
    if cls in ('QSslCertificate', 'QSslKey') and name == 'isNull':
        return uf('null_' + cls, [v.e], BoolSort())
    return NotImplemented


def good(cls, f): return And(readable(f), Not(uf('null_' + cls, [uf('parsed_' + cls, [f], IntSort())], BoolSort())))


def lit(s):
    s = z3.simplify(s) if z3.is_expr(s) else s
    if not (z3.is_expr(s) and z3.is_string_value(s)):
        raise ToolLimit('computed key of a setting')
    return s.as_string()


def default_of(v):
    if isinstance(v, bool):
        return vinj('Bool')(BoolVal(v))
    if isinstance(v, int):
        return vinj('Int')(IntVal(v))
    return vinj('String')(z3.StringVal(v))


@task('loadConfiguration', ['C17'], ['ProxyConfiguration::loadConfiguration'] + ['ProxyConfiguration::set*'])
def t_load(g):
    def body(ex):
        fn = need_fn(g, PC + '::loadConfiguration', 1)
        c = Int('configuration')
        ex.assume(And(c > 0, c < ex.alloc0))
        enter(ex, fn, c)
        f = z3.String('fileName')
        r = ex.tobool(ex.load(ex.call_fn(fn, c, argvals=[f])))
        exists = uf('file_exists', [f], BoolSort())
        ex.oblige('a missing file is refused', Implies(r, exists), T17)
        want = {}
        for m, grp, key, d, k in KEYS:
            p = grp + '/' + key
            x = If(has(p), raw(p), default_of(d))
            if k in ('String', 'Host'):
                e = QT.vout(ex, x, 'String')
            elif k == 'Bool':
                e = QT.vout(ex, x, 'Bool')
            else:
                e = QT.vout(ex, x, 'Int')
            got = ex.load(ex.getf(c, PC, m, KT[k]))
            want[m] = e
            if k == 'Host':
                ex.oblige('each documented key is stored, or its documented default', Implies(r, iv(got.e) == host(ex, e)), T17, detail=p)
            elif k == 'Port':
                ex.oblige('each documented key is stored, or its documented default', Implies(And(r, iv(e) >= 0, iv(e) < 65536), iv(got) == iv(e)), T17, detail=p)
            elif k == 'Bool':
                ex.oblige('each documented key is stored, or its documented default', Implies(r, ex.tobool(got) == e), T17, detail=p)
            else:
                ex.oblige('each documented key is stored, or its documented default', Implies(r, (iv(got) if k == 'Int' else got) == e), T17, detail=p)
        ssl = want['m_sslEnabled']
        fc, fk, fch = (want[x] for x in ('m_sslCertificateFileName', 'm_sslCertificateKeyFileName', 'm_sslCertificateChainFileName'))
        chain = Or(Length(fch) == 0, readable(fch))
        ex.oblige('with TLS a certificate that cannot be loaded is refused', Implies(And(r, ssl), good('QSslCertificate', fc)), T17)
        ex.oblige('with TLS a key that cannot be loaded is refused', Implies(And(r, ssl), good('QSslKey', fk)), T17)
        ex.oblige('with TLS a configured chain that cannot be read is refused', Implies(And(r, ssl), chain), T17)
        ex.oblige('a usable configuration is accepted', Implies(And(exists, good('QSslCertificate', fc), good('QSslKey', fk), chain), r), T17)
        if ex.branch(And(r, ssl)):
            conf = ex.load(ex.getf(c, PC, 'm_sslConfiguration', T_CONF))
            for what, setter, cls, f in (('certificate', 'setLocalCertificate', 'QSslCertificate', fc), ('key', 'setPrivateKey', 'QSslKey', fk)):
                x = last_set(conf.e, setter)
                ex.oblige('the TLS configuration carries what was read from the configured file',
                          BoolVal(False) if x is None else iv(x) == uf('parsed_' + cls, [f], IntSort()), T17, detail=what)
    g.verify(PC + '::loadConfiguration', body, {}, qtcall=qtcall, qtctor=qtctor, qtval=qtval)


def host(ex, s):
    t = ('cls', 'QHostAddress')
    r = QT.construct(ex, t, [s], None, [T_STR])
    return iv(r.e)


HARMLESS = {'setPeerVerifyMode', 'setProtocol', 'setCaCertificates', 'addCaCertificate', 'addCaCertificates', 'setCiphers', 'setPeerVerifyDepth', 'setSslOption',
            'setEllipticCurves', 'setAllowedNextProtocols', 'setSessionTicket', 'setDiffieHellmanParameters', 'setPreSharedKeyIdentityHint', 'setBackendConfigurationOption',
            'setOcspStaplingEnabled', 'setDtlsCookieVerificationEnabled', 'setLocalCertificate', 'setPrivateKey', 'setLocalCertificateChain'}


def last_set(e, name):
    """argument of the last call of a setter in a chain of mutations of a TLS configuration"""
    while z3.is_app(e) and e.decl().name().startswith('qtm_QSslConfiguration_'):
        m = e.decl().name()[len('qtm_QSslConfiguration_'):]
        if m == name:
            return e.arg(1)
        if m == 'setLocalCertificateChain' and name == 'setLocalCertificate':
            c = e.arg(1)
            return If(Length(c) > 0, c[0], IntVal(0)) if z3.is_seq(c) and c.sort().basis() == IntSort() else None
        if m not in HARMLESS:
            raise ToolLimit('QSslConfiguration::' + m)
        e = e.arg(0)
    return None
