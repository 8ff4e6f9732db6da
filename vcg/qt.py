"""Trusted contracts of the Qt API: what each Qt call used by the code means.

Everything in this file is an *assumed* contract on a dependency (Qt 5.15);
the evidence lists the calls that were used by the proof of each function."""
import re
import z3
from vals import *
import vals as V
import frontend as F
from frontend import strip_cv, callee_text

QOBJECT_CLASSES = {
    'QObject', 'QTimer', 'QTcpServer', 'QTcpSocket', 'QSslSocket', 'QAbstractSocket', 'QWebSocket', 'QWebSocketServer',
    'QLocalServer', 'QLocalSocket', 'QIODevice', 'QFile', 'QFileDevice', 'QSettings', 'QCoreApplication', 'QThread',
    'QSocketNotifier', 'QProcess', 'QNetworkAccessManager'}
PYKINDS = {'QDataStream', 'QJsonDocument', 'QJsonParseError', 'QDebug', 'QTextStream'}
T_PTR = ('ptr', ('cls', 'QObject'))

QT_ENUM = {
    # name -> value (Qt 5.15 headers)
    'QVariant::Invalid': 0, 'Invalid': 0, 'Bool': 1, 'Int': 2, 'UInt': 3, 'LongLong': 4, 'ULongLong': 5, 'Double': 6, 'Char': 7,
    'Map': 8, 'List': 9, 'String': 10, 'StringList': 11, 'ByteArray': 12, 'BitArray': 13, 'Date': 14, 'Time': 15, 'DateTime': 16,
    'Url': 17, 'Uuid': 30, 'NoError': 0, 'Compact': 1, 'Indented': 0,
    'DirectConnection': 1, 'QueuedConnection': 2, 'AutoConnection': 0, 'BlockingQueuedConnection': 3, 'UniqueConnection': 0x80,
    'BigEndian': 0, 'LittleEndian': 1, 'Ok': 0, 'ReadPastEnd': 1, 'ReadCorruptData': 2, 'WriteFailed': 3,
    'ReadOnly': 1, 'WriteOnly': 2, 'ReadWrite': 3, 'Append': 4, 'Truncate': 8, 'Text': 16, 'Unbuffered': 32, 'NotOpen': 0,
    'SingleShotConnection': 0x100, 'VerifyNone': 0, 'QueryPeer': 1, 'VerifyPeer': 2, 'AutoVerifyPeer': 3,
    'NonSecureMode': 1, 'SecureMode': 0, 'Pem': 0, 'Der': 1, 'PrivateKey': 0, 'PublicKey': 1, 'Opaque': 0, 'Rsa': 1, 'Dsa': 2, 'Ec': 3,
    'UnconnectedState': 0, 'HostLookupState': 1, 'ConnectingState': 2, 'ConnectedState': 3, 'BoundState': 4, 'ListeningState': 5,
    'ClosingState': 6, 'TlsV1_2OrLater': 12, 'TlsV1_2': 2, 'AnyProtocol': 5, 'SecureProtocols': 11, 'TlsV1_0OrLater': 10,
    'NoOptions': 0, 'UserAccessOption': 1, 'GroupAccessOption': 2, 'OtherAccessOption': 4, 'WorldAccessOption': 7,
    'Null': 0, 'Broadcast': 1, 'LocalHost': 2, 'LocalHostIPv6': 3, 'Any': 4, 'AnyIPv6': 5, 'AnyIPv4': 6,
    'CloseCodeNormal': 1000, 'CloseCodeGoingAway': 1001, 'CloseCodeProtocolError': 1002, 'CloseCodeDatatypeNotSupported': 1003,
    'CloseCodeAbnormalDisconnection': 1006, 'CloseCodeBadOperation': 1011, 'CloseCodePolicyViolated': 1008,
    'CaseSensitive': 1, 'CaseInsensitive': 0, 'KeepEmptyParts': 0, 'SkipEmptyParts': 1,
    'Method': 0, 'Signal': 1, 'Slot': 2, 'Constructor': 3, 'Latest': 13, 'Version13': 13, 'IniFormat': 1, 'NativeFormat': 0,
    'WithoutBraces': 1, 'WithBraces': 0, 'Id128': 3, 'ISODate': 1, 'SslHandshakeFailedError': 13, 'RemoteHostClosedError': 1,
    'KeepAliveOption': 1, 'LowDelayOption': 0, 'StrictlyNumeric': 1, 'ParsingModeDummy': 0, 'PrettyDecoded': 0, 'FullyDecoded': 0x7f00000,
    'DecodedMode': 2, 'TolerantMode': 0, 'StrictMode': 1, 'IPv4Protocol': 0, 'AnyIPProtocol': 2, 'VeryCoarseTimer': 2, 'PreciseTimer': 0, 'CoarseTimer': 1,
}
QT_ENUM_TYPES = re.compile(r'^(QAbstractSocket|QSslSocket|QSsl|QIODevice|QVariant|QMetaType|QMetaMethod|QJsonDocument|QJsonParseError|QHostAddress|QDataStream|QWebSocketProtocol|'
                           r'QWebSocketServer|QLocalServer|QLocalSocket|QSettings|QUuid|Qt|QString|QUrl|QLocale|QFileDevice|QTimer)::(\w+)$')
QT_CLASSLIKE = {'QString::SplitBehavior'}


def is_qt_enum(n):
    m = QT_ENUM_TYPES.match(n)
    if not m:
        return False
    return not m.group(2) in ('const_iterator', 'iterator', 'DataPtr', 'Data', 'Private')


def enum_value(name, t):
    if name in QT_ENUM:
        return QT_ENUM[name]
    return uf('qtenum_' + name, [], IntSort())


def L(msg):
    raise ToolLimit(msg)


# --------------------------------------------------------------------------- bytes
def u8(v):
    from ex import unschar
    if isinstance(v, int):
        return IntVal(v & 255)
    u = unschar(v)
    if u is not None:
        return u
    if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_SELECT:
        return v
    return If(v < 0, v + 256, v)


def ba_at(ex, b, i):
    from ex import schar
    i = iv(i)
    ex.oblige('index-in-range', And(i >= 0, i < Length(b.s)), ('safety',))
    ex.assume(And(i >= 0, i < Length(b.s)))
    return schar(ex.byte(b.s[i]))


def charptr_at(ex, p, i):
    from ex import schar
    i = iv(i)
    ex.oblige('index-in-range', And(i >= 0, i <= Length(p.s)), ('safety',))
    if ex.branch(i == Length(p.s)):
        return 0
    return schar(ex.byte(p.s[i]))


utf8 = Function('utf8', Str, Bytes)
from_utf8 = Function('from_utf8', Bytes, Str)


def to_utf8(ex, s):
    if z3.is_string_value(s):
        return seq_of(s.as_string().encode('utf-8'))
    if z3.is_app(s) and s.decl().eq(from_utf8) and False:
        return s.arg(0)
    r = utf8(s)
    ex.assume(from_utf8(r) == s)
    return r


def fromutf8(ex, b):
    if z3.is_app(b) and b.decl().eq(utf8):
        return b.arg(0)
    bs = lit_bytes(b)
    if bs is not None:
        return StringVal(bs.decode('utf-8', 'replace'))
    return from_utf8(b)


def lit_bytes(s):
    s = z3.simplify(s)
    k = s.decl().kind()
    if k == z3.Z3_OP_SEQ_EMPTY:
        return b''
    out = bytearray()
    if k == z3.Z3_OP_SEQ_CONCAT:
        for c in s.children():
            b = lit_bytes(c)
            if b is None:
                return None
            out += b
        return bytes(out)
    for p in [s]:
        if p.decl().kind() != z3.Z3_OP_SEQ_UNIT or not is_int_value(p.arg(0)):
            return None
        out.append(p.arg(0).as_long() & 255)
    return bytes(out)


def as_bytes(ex, v):
    """BA / char* / char / QString -> byte sequence"""
    if isinstance(v, BA):
        return v.s
    if isinstance(v, CStr):
        return seq_of(v.b)
    if isinstance(v, Py) and v.kind == 'charptr':
        return v.s
    if isinstance(v, int) or (z3.is_expr(v) and v.sort() == IntSort()):
        return Unit(u8(v))
    if z3.is_expr(v) and v.sort() == Str:
        return to_utf8(ex, v)
    if z3.is_expr(v) and v.sort() == Bytes:
        return v
    L('bytes of %r' % (v,))


def as_str(ex, v):
    if isinstance(v, CStr):
        return StringVal(v.b.decode('utf-8', 'replace'))
    if isinstance(v, BA):
        return fromutf8(ex, v.s)
    if z3.is_expr(v) and v.sort() == Str:
        return v
    if isinstance(v, Opaque):
        return uf('str_of_' + tname(v.t), [v.e], Str)
    if isinstance(v, int) or (z3.is_expr(v) and v.sort() == IntSort()):
        return uf('str_of_char', [v], Str)
    if isinstance(v, Py) and v.kind == 'charptr':
        return fromutf8(ex, v.s)
    L('string of %r' % (v,))


def sub(s, i, n):
    """s[i..i+n) with i, n already in range"""
    return Extract(s, iv(i), iv(n))


def clampsub(ex, s, pos, n):
    """QByteArray::mid / QString::mid semantics"""
    ln = Length(s)
    pos, n = iv(pos), None if n is None else iv(n)
    if ex.branch(pos > ln):
        return Empty(s.sort()) if s.sort() != Str else StringVal('')
    if ex.branch(pos < 0):
        if n is None:
            return s
        n2 = n + pos
        if ex.branch(n < 0):
            return s
        if ex.branch(n2 <= 0):
            return Empty(s.sort()) if s.sort() != Str else StringVal('')
        return Extract(s, IntVal(0), If(n2 > ln, ln, n2))
    if n is None or ex.branch(Or(n < 0, n > ln - pos)):
        return Extract(s, pos, ln - pos)
    return Extract(s, pos, n)


def sameba(a):
    return BA(a)


MUT_BA = {}


def m_bytearray(ex, bl, name, a, n):
    from ex import Loc
    b = ex.load(bl)
    s = b.s
    ln = Length(s)

    def put(x, null=None):
        if not isinstance(bl, Loc):
            return
        bl.write(ex, BA(x, null))
    if name in ('size', 'count', 'length') and not a:
        return ln
    if name == 'isEmpty':
        return ln == 0
    if name == 'isNull':
        return b.null
    if name == 'capacity':
        return ex.fresh('cap', IntSort())
    if name in ('reserve', 'squeeze', 'detach'):
        return None
    if name == 'swap' and len(a) == 1 and isinstance(a[0], Loc):
        o = ex.load(a[0])
        a[0].write(ex, b)
        put(o.s, o.null)
        return None
    if name in ('append', 'push_back', 'prepend', 'push_front'):
        if len(a) == 2:
            if isinstance(a[0], (CStr, Py)):
                x = as_bytes(ex, a[0])
                k = iv(a[1])
                if isinstance(a[0], CStr):
                    x = clamp(x, a[1], a[0].b)
                else:
                    ex.oblige('index-in-range', And(k >= 0, k <= Length(x)), ('safety',))
                    x = Extract(x, IntVal(0), k)
            else:
                if isinstance(a[0], int) and a[0] < 64:
                    x = seq_of([]) if a[0] <= 0 else cat(*[Unit(u8(a[1]))] * a[0])
                else:
                    L('append(count,char)')
        else:
            if isinstance(a[0], BA) and name in ('append', 'prepend'):
                # appending a null/empty array to a null one keeps it null
                x = a[0].s
                nn = And(b2(b.null), b2(a[0].null))
                put(cat(s, x) if name == 'append' else cat(x, s), z3.simplify(nn))
                return bl
            x = as_bytes(ex, a[0])
        put(cat(s, x) if name in ('append', 'push_back') else cat(x, s))
        return bl
    if name in ('at', 'operator[]'):
        return ba_at(ex, b, a[0])
    if name in ('front', 'back', 'first', 'last') and not a:
        return ba_at(ex, b, IntVal(0) if name in ('front', 'first') else ln - 1)
    if name == 'clear':
        put(Empty(Bytes), BoolVal(True))
        return None
    if name in ('left', 'right', 'first', 'last'):
        k = iv(a[0])
        if name in ('left', 'first'):
            if ex.branch(k >= ln):
                return b
            if ex.branch(k < 0):
                return BA(Empty(Bytes))
            return BA(Extract(s, IntVal(0), k))
        if ex.branch(k >= ln):
            return b
        if ex.branch(k < 0):
            return BA(Empty(Bytes))
        return BA(Extract(s, ln - k, k))
    if name in ('mid', 'sliced'):
        return BA(clampsub(ex, s, a[0], a[1] if len(a) > 1 and not isdef(a[1]) else None))
    if name in ('truncate', 'resize'):
        k = iv(a[0])
        if name == 'truncate' and ex.branch(k >= ln):
            return None
        if name == 'resize':
            if ex.branch(k > ln):
                L('resize growing')
        if ex.branch(k <= 0):
            put(Empty(Bytes), BoolVal(True) if name == 'resize' else None)
        else:
            put(Extract(s, IntVal(0), k))
        return None
    if name in ('chop', 'chopped'):
        k = iv(a[0])
        if ex.branch(k <= 0):
            r = s
        elif ex.branch(k >= ln):
            r = Empty(Bytes)
        else:
            r = Extract(s, IntVal(0), ln - k)
        if name == 'chopped':
            return BA(r)
        put(r)
        return None
    if name == 'remove':
        p, k = iv(a[0]), iv(a[1])
        if ex.branch(Or(p < 0, p >= ln, k <= 0)):
            return bl
        if ex.branch(k >= ln - p):
            put(Extract(s, IntVal(0), p))
        else:
            put(cat(Extract(s, IntVal(0), p), Extract(s, p + k, ln - p - k)))
        return bl
    if name == 'insert' and len(a) == 2:
        p = iv(a[0])
        x = as_bytes(ex, a[1])
        ex.oblige('index-in-range', And(p >= 0, p <= ln), ('safety',))
        put(cat(Extract(s, IntVal(0), p), x, Extract(s, p, ln - p)))
        return bl
    if name in ('startsWith', 'endsWith'):
        x = as_bytes(ex, a[0])
        return starts(ex, s, x) if name == 'startsWith' else ends(ex, s, x)
    if name == 'contains':
        return index_of(ex, s, as_bytes(ex, a[0]), 0) >= 0
    if name == 'indexOf':
        f = 0 if len(a) < 2 or isdef(a[1]) else a[1]
        return index_of(ex, s, as_bytes(ex, a[0]), f)
    if name == 'lastIndexOf':
        r = uf('lastindexof', [s, as_bytes(ex, a[0])], IntSort())
        ex.assume(And(r >= -1, r < ln))
        return r
    if name in ('data', 'constData', 'begin', 'cbegin', 'constBegin'):
        if name in ('data', 'constData'):
            return Py('charptr', s=s)
        return IterV(bl, b, IntVal(0))
    if name in ('end', 'cend', 'constEnd'):
        return IterV(bl, b, ln)
    if name == 'swap':
        o = a[0]
        L('QByteArray::swap')
    # anything else: an unspecified function of the value
    return uf_method(ex, 'QByteArray', name, [s], a, n)


def isdef(x):
    return isinstance(x, Py) and x.kind == 'default'


def clamp(x, k, lit):
    if isinstance(k, int):
        return seq_of(lit[:k])
    return Extract(x, IntVal(0), k)


def starts(ex, s, x):
    bs = lit_bytes(x)
    if bs is not None and len(bs) <= 8:
        return And(Length(s) >= len(bs), *[s[i] == bs[i] for i in range(len(bs))])
    return z3.PrefixOf(x, s)


def ends(ex, s, x):
    bs = lit_bytes(x)
    if bs is not None and len(bs) <= 8:
        n = len(bs)
        return And(Length(s) >= n, *[s[Length(s) - n + i] == bs[i] for i in range(n)])
    return z3.SuffixOf(x, s)


def match_at(s, i, bs):
    return And(i >= 0, i + len(bs) <= Length(s), *[s[i + j] == bs[j] for j in range(len(bs))])


def index_of(ex, s, x, frm):
    """first occurrence at or after frm; -1 if none.  For literal needles the
    definition is given by quantified facts instead of the sequence theory."""
    bs = lit_bytes(x)
    if isinstance(frm, int) and frm < 0:
        frm = If(Length(s) + frm < 0, IntVal(0), Length(s) + frm)
    frm = iv(frm)
    if bs is None or not bs:
        r = z3.IndexOf(s, x, frm)
        ex.assume(And(r >= -1, r < Length(s) + 1))
        return r
    if z3.is_int_value(frm) and frm.as_long() == 0:
        ex.xp.needles.add(bs)
    r = uf('indexof_%s' % bs.hex(), [s, frm], IntSort())
    key = ('ixof', r.get_id())
    if key not in ex.ranged:
        ex.ranged.add(key)
        ex.xp.keep.append(r)
        j = Int('j')
        ex.assume(Or(r == -1, And(r >= frm, match_at(s, r, bs))))
        ex.assume(ForAll([j], Implies(And(j >= frm, j >= 0, Or(r == -1, j < r)), Not(match_at(s, j, bs))), patterns=[s[j]]), quant=True)
    return r


def index_inst(ex, s, bs, j):
    """instance of the definition of index_of(s, bs, 0) for position j"""
    r = uf('indexof_%s' % bs.hex(), [s, IntVal(0)], IntSort())
    ex.assume(Or(r == -1, And(r >= 0, match_at(s, r, bs))))
    ex.assume(Implies(And(j >= 0, Or(r == -1, j < r)), Not(match_at(s, j, bs))))


# --------------------------------------------------------------------------- lists
def mem(ex, s, v):
    """membership in a sequence, by structure"""
    k = s.decl().kind() if z3.is_app(s) else None
    if k == z3.Z3_OP_SEQ_CONCAT:
        return Or(*[mem(ex, c, v) for c in s.children()])
    if k == z3.Z3_OP_SEQ_UNIT:
        return s.arg(0) == v
    if k == z3.Z3_OP_SEQ_EMPTY:
        return BoolVal(False)
    if s.decl().name().startswith('remall'):
        return And(v != s.arg(1), mem(ex, s.arg(0), v))
    r = uf('mem', [s, v], BoolSort())
    key = ('mem', r.get_id())
    if key not in ex.ranged:
        ex.ranged.add(key)
        ex.xp.keep.append(r)
        ex.assume(Implies(r, Length(s) >= 1))
        si = ex.ghost.get('seqfacts', {}).get(s.get_id())
        if si and si[0] == 'keys':
            ex.assume(r == ex.sel(si[1].dom, v))
    return r


def set_list(ex, loc, s, et):
    loc.write(ex, ListV(s, et))


def m_list(ex, bl, name, a, n, t):
    from ex import Loc, LListElem
    l = ex.load(bl)
    s, et = l.s, l.et
    ln = Length(s)

    def arg(i=0):
        return pack(ex.conv(a[i], et), et)

    tmp = []

    def put(x):
        if hasattr(bl, 'write'):
            bl.write(ex, ListV(x, et))
        else:
            tmp.append(ListV(x, et))
    if name in ('size', 'count', 'length') and not a:
        return ln
    if name in ('isEmpty', 'empty'):
        return ln == 0
    if name in ('append', 'push_back', 'enqueue', 'push', 'operator<<', 'operator+='):
        if isinstance(a[0], ListV):
            put(cat(s, a[0].s))
        else:
            el = arg()
            nw = cat(s, Unit(el))
            h = ex.xp.opt.get('on_append')
            if h:
                h(ex, s, el, nw)
            put(nw)
        return tmp[-1] if tmp else bl
    if name in ('prepend', 'push_front'):
        put(cat(Unit(arg()), s))
        return None
    if name in ('at', 'operator[]', 'value', 'first', 'front', 'last', 'back', 'constFirst', 'constLast'):
        i = iv(a[0]) if name in ('at', 'operator[]', 'value') else (IntVal(0) if name in ('first', 'front', 'constFirst') else ln - 1)
        if name == 'value':
            if not ex.branch(And(i >= 0, i < ln)):
                return unpack(default_z(et), et)
        else:
            ex.oblige('index-in-range', And(i >= 0, i < ln), ('safety',))
            ex.assume(And(i >= 0, i < ln))
        if name == 'operator[]' and isinstance(bl, Loc) and not isconst_node(n):
            return LListElem(bl, i, et)
        v = unpack(s[i], et)
        ex.type_inv(v, et)
        ex.elem_fact(s, et, i, v)
        return v
    if name == 'contains':
        return mem(ex, s, arg())
    if name == 'indexOf':
        r = uf('list_indexof', [s, arg()], IntSort())
        m = mem(ex, s, arg())
        ex.assume(And(r >= -1, r < ln, m == (r >= 0)))
        ex.assume(Implies(r >= 0, s[r] == arg()))
        return r
    if name in ('removeAll', 'removeOne'):
        x = arg()
        m = mem(ex, s, x)
        if name == 'removeOne':
            # the first occurrence is removed, the others stay
            parts = list(s.children()) if z3.is_app(s) and s.decl().kind() == z3.Z3_OP_SEQ_CONCAT else [s]
            for k, part in enumerate(parts):
                if not ex.branch(mem(ex, part, x)):
                    continue
                if z3.is_app(part) and part.decl().kind() == z3.Z3_OP_SEQ_UNIT:
                    mid = []
                else:
                    p, q = uf('remone_pre', [part, x], s.sort()), uf('remone_post', [part, x], s.sort())
                    ex.assume(part == Concat(p, Unit(x), q))
                    ex.assume(Not(mem(ex, p, x)))
                    mid = [p, q]
                rest = parts[:k] + mid + parts[k + 1:]
                put(Concat(*rest) if len(rest) > 1 else rest[0] if rest else Empty(s.sort()))
                return True
            return False
        if ex.branch(m):
            r = uf('remall', [s, x], s.sort())
            ex.assume(And(Length(r) < ln, Length(r) >= 0))
            put(r)
            return ln - Length(r)
        return 0
    if name in ('clear',):
        put(Empty(s.sort()))
        return None
    if name in ('takeFirst', 'dequeue', 'takeLast', 'pop', 'takeAt', 'removeFirst', 'removeLast', 'pop_front', 'pop_back', 'removeAt'):
        i = iv(a[0]) if a else (IntVal(0) if name in ('takeFirst', 'dequeue', 'removeFirst', 'pop_front') else ln - 1)
        ex.oblige('index-in-range', And(i >= 0, i < ln), ('safety',))
        ex.assume(And(i >= 0, i < ln))
        v = unpack(s[i], et)
        ex.elem_fact(s, et, i, v)
        put(z3.simplify(cat(Extract(s, IntVal(0), i), Extract(s, i + 1, ln - i - 1))) if not is_int_value(i) else Extract(s, IntVal(1), ln - 1))
        return v
    if name in ('begin', 'cbegin', 'constBegin'):
        return IterV(bl, l, IntVal(0))
    if name in ('end', 'cend', 'constEnd'):
        return IterV(bl, l, ln)
    if name == 'reserve':
        return None
    if name == 'insert' and len(a) == 2:
        i = iv(a[0])
        ex.oblige('index-in-range', And(i >= 0, i <= ln), ('safety',))
        put(cat(Extract(s, IntVal(0), i), Unit(arg(1)), Extract(s, i, ln - i)))
        return None
    return uf_method(ex, tname(t), name, [s], a, n)


def isconst_node(n):
    """operator[] on a const object"""
    try:
        b = n['inner'][1]
        return 'const' in b['type'].get('qualType', '')
    except (KeyError, IndexError):
        return False


# --------------------------------------------------------------------------- hashes
def hkey(ex, h, k):
    v = ex.conv(k, h.kt)
    if isinstance(v, Loc_()):
        v = v.read(ex)
    if h.kt == T_STR and not (z3.is_expr(v) and v.sort() == Str):
        v = as_str(ex, v)
    v = pack(v, h.kt)
    return v


def Loc_():
    from ex import Loc
    return Loc


def hash_touch(ex, loc, h, k):
    for hk in ex.hooks:
        hk(ex, 'hash', loc, h, k)
    d = ex.sel(h.dom, k)
    if not is_int_value(iv(h.cnt)) and not (is_false(d)):
        ex.assume(Implies(d, h.cnt >= 1))
    return d


def hash_insert(ex, h, k, vz):
    d = ex.sel(h.dom, k)
    if is_true(z3.simplify(d)):
        cnt = iv(h.cnt)
    elif is_false(z3.simplify(d)):
        cnt = iv(h.cnt) + 1
    else:
        cnt = If(d, iv(h.cnt), iv(h.cnt) + 1)
    return HashV(Store(h.dom, k, BoolVal(True)), Store(h.val, k, vz), cnt, h.kt, h.vt)


def hash_remove(ex, h, k):
    d = ex.sel(h.dom, k)
    return HashV(Store(h.dom, k, BoolVal(False)), h.val, If(d, iv(h.cnt) - 1, iv(h.cnt)), h.kt, h.vt)


def hash_get(ex, loc, h, k, dflt=None):
    d = hash_touch(ex, loc, h, k)
    d = z3.simplify(d)
    dz = default_z(h.vt) if dflt is None else pack(ex.conv(dflt, h.vt), h.vt)
    if is_true(d):
        v = unpack(ex.sel(h.val, k), h.vt)
        ex.type_inv(v, h.vt)
        return v
    if is_false(d):
        return unpack(dz, h.vt)
    if h.vt[0] == 'ptr' or h.vt[0] == 'tmpl' or is_struct(h.vt):
        if ex.branch(d):
            v = unpack(ex.sel(h.val, k), h.vt)
            ex.type_inv(v, h.vt)
            for hk in ex.hooks:
                hk(ex, 'got', loc, h, k, v)
            return v
        return unpack(dz, h.vt)
    v = unpack(If(d, ex.sel(h.val, k), dz), h.vt)
    ex.type_inv(v, h.vt)
    return v


def _hsort(h):
    return pack(h, ('tmpl', 'QHash', (h.kt, h.vt)))


def hash_keys(ex, h):
    e = z3.simplify(iv(h.cnt))
    if is_int_value(e) and e.as_long() == 0:
        return ListV(Empty(SeqSort(zsort(h.kt))), h.kt)
    s = uf('hkeys_%s' % tname(h.kt), [h.dom], SeqSort(zsort(h.kt)))
    ex.assume(Length(s) == iv(h.cnt))
    ex.xp.keep.append(s)
    ex.ghost.setdefault('seqfacts', {})[s.get_id()] = ('keys', h, s)
    return ListV(s, h.kt)


def hash_values(ex, h):
    e = z3.simplify(iv(h.cnt))
    if is_int_value(e) and e.as_long() == 0:
        return ListV(Empty(SeqSort(zsort(h.vt))), h.vt)
    s = uf('hvals_%s_%s' % (tname(h.kt), tname(h.vt)), [h.dom, h.val], SeqSort(zsort(h.vt)))
    ks = uf('hkeys_%s' % tname(h.kt), [h.dom], SeqSort(zsort(h.kt)))
    ex.assume(Length(s) == iv(h.cnt))
    ex.assume(Length(ks) == iv(h.cnt))
    ex.xp.keep.append((s, ks))
    ex.ghost.setdefault('seqfacts', {})[s.get_id()] = ('values', h, ks)
    ex.ghost['seqfacts'][ks.get_id()] = ('keys', h, ks)
    if ('enum', s.get_id()) not in ex.ranged:
        ex.ranged.add(('enum', s.get_id()))
        w = Const('w_' + tname(h.kt), zsort(h.kt))
        j = kidx(h, w)
        # every key is enumerated
        ex.assume(ForAll([w], Implies(Select(h.dom, w), And(j >= 0, j < iv(h.cnt), ks[j] == w)), patterns=[j]), quant=True)
    return ListV(s, h.vt)


def kidx(h, k):
    return uf('kidx_%s' % tname(h.kt), [h.dom, k], IntSort())


def elem_fact(ex, seq, et, i, v):
    """facts about element i (0 <= i < len) of keys()/values() of a hash"""
    f = ex.ghost.get('seqfacts', {}).get(seq.get_id())
    eh = ex.xp.opt.get('elem_hook')
    if eh:
        eh(ex, seq, i)
    if f is None:
        if z3.is_app(seq) and seq.sort() != Bytes and seq.decl().kind() == z3.Z3_OP_UNINTERPRETED and et[0] in ('ptr',):
            ex.assume(mem(ex, seq, seq[i]))
        return
    kind, h, ks = f
    k = ks[i]
    ex.assume(ex.sel(h.dom, k))
    ex.assume(kidx(h, k) == i)
    if kind == 'values':
        ex.assume(seq[i] == ex.sel(h.val, k))
    for hk in ex.hooks:
        hk(ex, 'hash', None, h, k)


def key_fact(ex, h, k):
    """k in dom  ->  it is enumerated by keys()/values()"""
    ks = uf('hkeys_%s' % tname(h.kt), [h.dom], SeqSort(zsort(h.kt)))
    j = kidx(h, k)
    ex.assume(Implies(ex.sel(h.dom, k), And(j >= 0, j < iv(h.cnt), Length(ks) == iv(h.cnt), ks[j] == k)))
    return j


def m_hash(ex, bl, name, a, n, t):
    from ex import Loc, LHashElem
    h = ex.load(bl)

    def put(x):
        if isinstance(bl, Loc):
            bl.write(ex, x)
    if name in ('size', 'count', 'length') and not a:
        return iv(h.cnt)
    if name in ('isEmpty', 'empty'):
        return iv(h.cnt) == 0
    if name in ('contains',) or (name == 'count' and a):
        k = hkey(ex, h, a[0])
        d = hash_touch(ex, bl, h, k)
        return d if name == 'contains' else If(d, IntVal(1), IntVal(0))
    if name == 'insert':
        k = hkey(ex, h, a[0])
        hash_touch(ex, bl, h, k)
        put(hash_insert(ex, h, k, pack(ex.conv(a[1], h.vt), h.vt)))
        return Py('iterator')
    if name in ('value', 'operator[]', 'at'):
        k = hkey(ex, h, a[0])
        if name == 'operator[]' and isinstance(bl, Loc) and not isconst_node(n):
            d = hash_touch(ex, bl, h, k)
            if not ex.branch(d):
                put(hash_insert(ex, h, k, default_z(h.vt)))
            else:
                for hk in ex.hooks:
                    hk(ex, 'got', bl, h, k, unpack(ex.sel(h.val, k), h.vt))
            return LHashElem(bl, k, h.vt)
        return hash_get(ex, bl, h, k, a[1] if len(a) > 1 and not isdef(a[1]) else None)
    if name in ('remove',):
        k = hkey(ex, h, a[0])
        d = hash_touch(ex, bl, h, k)
        put(hash_remove(ex, h, k))
        return If(d, IntVal(1), IntVal(0)) if not isinstance(d, bool) else int(d)
    if name == 'take':
        k = hkey(ex, h, a[0])
        v = hash_get(ex, bl, h, k)
        h = ex.load(bl)
        put(hash_remove(ex, h, k))
        return v
    if name == 'clear':
        put(empty_map(('tmpl', 'QHash', (h.kt, h.vt))))
        return None
    if name == 'key':
        v = pack(ex.conv(a[0], h.vt), h.vt)
        r = uf('hkeyof_%s_%s' % (tname(h.kt), tname(h.vt)), [h.dom, h.val, v], zsort(h.kt))
        d = And(ex.sel(h.dom, r), ex.sel(h.val, r) == v)
        q = Const('kk', zsort(h.kt))
        ex.xp.keep.append(r)
        key = ('keyof', r.get_id())
        if key not in ex.ranged:
            ex.ranged.add(key)
            df = default_z(h.kt) if len(a) < 2 or isdef(a[1]) else pack(ex.conv(a[1], h.kt), h.kt)
            ex.assume(Or(d, r == df))
            ex.assume(ForAll([q], Implies(And(ex.sel(h.dom, q), ex.sel(h.val, q) == v), d), patterns=[ex.sel(h.dom, q)]), quant=True)
            ex.ghost.setdefault('keyof', []).append((h, v, r, d))
        for hk in ex.hooks:
            hk(ex, 'hash', bl, h, r)
            hk(ex, 'keyof', bl, h, v, r)
        return unpack(r, h.kt)
    if name == 'keys' and not a:
        return hash_keys(ex, h)
    if name == 'uniqueKeys':
        return hash_keys(ex, h)
    if name == 'values' and not a:
        return hash_values(ex, h)
    if name in ('first', 'last', 'firstKey', 'lastKey') and not a:
        ex.oblige('index-in-range', iv(h.cnt) >= 1, ('safety',))
        ks = hash_keys(ex, h).s
        i = uf('sortidx_' + name[:5], [h.dom], IntSort())
        ex.assume(And(i >= 0, i < iv(h.cnt)))
        k = ks[i]
        elem_fact(ex, ks, h.kt, i, k)
        return unpack(k, h.kt) if 'Key' in name else unpack(ex.sel(h.val, k), h.vt)
    if name in ('begin', 'cbegin', 'constBegin', 'keyBegin'):
        ks = hash_keys(ex, h)
        return IterV(bl, h, IntVal(0), ks)
    if name in ('end', 'cend', 'constEnd', 'keyEnd'):
        ks = hash_keys(ex, h)
        return IterV(bl, h, iv(h.cnt), ks)
    if name in ('find', 'constFind'):
        k = hkey(ex, h, a[0])
        d = hash_touch(ex, bl, h, k)
        ks = hash_keys(ex, h)
        if ex.branch(d):
            j = key_fact(ex, h, k)
            for hk in ex.hooks:
                hk(ex, 'got', bl, h, k, unpack(ex.sel(h.val, k), h.vt))
            it = IterV(bl, h, j, ks)
            ex.ghost.setdefault('iterkey', {})[(j.get_id())] = k
            ex.xp.keep.append(j)
            return it
        return IterV(bl, h, iv(h.cnt), ks)
    if name == 'erase' and isinstance(a[0], IterV):
        k = iter_key(ex, a[0])
        put(hash_remove(ex, h, k))
        return IterV(bl, h, a[0].idx + 1, a[0].keys)
    if name in ('reserve', 'squeeze', 'detach'):
        return None
    if name == 'unite':
        L('hash unite')
    return uf_method(ex, tname(t), name, [h.dom, h.val], a, n)


def iter_key(ex, it):
    i = iv(it.idx)
    k = ex.ghost.get('iterkey', {}).get(i.get_id())
    if k is not None:
        return k
    ks = it.keys.s
    ex.oblige('iterator-valid', And(i >= 0, i < Length(ks)), ('safety',))
    ex.assume(And(i >= 0, i < Length(ks)))
    h = it.cont
    k = ks[i]
    ex.assume(ex.sel(h.dom, k))
    ex.assume(kidx(h, k) == i)
    for hk in ex.hooks:
        hk(ex, 'hash', it.loc, h, k)
        hk(ex, 'got', it.loc, h, k, unpack(ex.sel(h.val, k), h.vt))
    return k


def iter_deref(ex, it):
    c = it.cont
    if isinstance(c, HashV):
        k = iter_key(ex, it)
        v = unpack(ex.sel(c.val, k), c.vt)
        ex.type_inv(v, c.vt)
        return v
    if isinstance(c, BA):
        return ba_at(ex, c, it.idx)
    i = iv(it.idx)
    ex.oblige('iterator-valid', And(i >= 0, i < Length(c.s)), ('safety',))
    ex.assume(And(i >= 0, i < Length(c.s)))
    v = unpack(c.s[i], c.et)
    ex.type_inv(v, c.et)
    ex.elem_fact(c.s, c.et, i, v)
    return v


def iter_step(ex, it, d):
    return IterV(it.loc, it.cont, iv(it.idx) + d, it.keys)


def iter_cmp(ex, op, a, b):
    return ex.compare(op, iv(a.idx), iv(b.idx))


# --------------------------------------------------------------------------- QVariant
PRIMS = {'QString': 'String', 'QByteArray': 'ByteArray', 'QUuid': 'Uuid', 'QUrl': 'Url', 'QDateTime': 'DateTime'}


def mkvar(ex, v, t):
    if isinstance(v, (bool,)) or t[0] == 'bool':
        return vin(ex, 'Bool', b2(v) if isinstance(v, bool) else v)
    if isinstance(v, CStr):
        return vin(ex, 'String', as_str(ex, v))
    if z3.is_expr(v) and v.sort() == Var:
        return v
    if z3.is_expr(v) and v.sort() == Str:
        return vin(ex, 'String', v)
    if t[0] == 'int' or isinstance(v, int):
        k = {(32, True): 'Int', (32, False): 'UInt', (64, True): 'LongLong', (64, False): 'ULongLong'}.get(t[1:], 'Int') if t[0] == 'int' else 'Int'
        return vin(ex, k, iv(v))
    if t[0] == 'float':
        return vin(ex, 'Double', v)
    if isinstance(v, BA):
        return vin(ex, 'ByteArray', pack(v, T_BA))
    if isinstance(v, HashV):
        return vin(ex, 'Map', pack(v, T_MAP))
    if isinstance(v, ListV):
        if v.et == T_VAR:
            return vin(ex, 'List', v.s)
        if v.et == T_STR:
            return vin(ex, 'StringList', v.s)
        return uf('var_of_list', [v.s], Var)
    if isinstance(v, Opaque):
        if v.t[0] == 'cls' and v.t[1] in PRIMS:
            return vin(ex, PRIMS[v.t[1]], iv(v.e))
        return uf('var_of_' + tname(v.t), [v.e], Var)
    if t == T_UUID:
        return vin(ex, 'Uuid', v)
    L('QVariant of %r' % (t,))


def vin(ex, kind, e):
    r = vinj(kind)(e)
    key = ('vin', r.get_id())
    if key not in ex.ranged:
        ex.ranged.add(key)
        ex.xp.keep.append(r)
        ex.assume(vproj(kind)(r) == e)
        ex.assume(vt_of(r) == VKIND[kind])
    return r


def vout(ex, v, kind):
    if z3.is_app(v) and v.decl().name() == 'v_' + kind:
        return v.arg(0)
    if v.eq(VNULL):
        ex.assume(vt_of(VNULL) == 0)
        if kind == 'String':
            return StringVal('')
        if kind in ('Int', 'UInt', 'LongLong', 'ULongLong', 'Uuid'):
            return IntVal(0)
        if kind == 'Bool':
            return BoolVal(False)
        if kind == 'Map':
            return pack(empty_map(T_MAP), T_MAP)
        if kind in ('List', 'StringList'):
            return Empty(vsort(kind))
        if kind == 'ByteArray':
            return default_z(T_BA)
    if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE:
        # push into ite
        return If(v.arg(0), vout(ex, v.arg(1), kind), vout(ex, v.arg(2), kind))
    r = vproj(kind)(v)
    rng = {'Int': (32, True), 'UInt': (32, False), 'LongLong': (64, True), 'ULongLong': (64, False)}.get(kind)
    if rng:
        ex.type_inv(r, ('int',) + rng)
    if kind == 'Uuid':
        ex.assume(r >= 0)
        if z3.is_app(v) and v.decl().name() == 'v_String':
            ex.assume(r == uuid_parse(v.arg(0)))
    return r


uuid_parse = Function('uuid_parse', Str, IntSort())
uuid_str = Function('uuid_str', IntSort(), Str)
VTO = {'toString': ('String', T_STR), 'toInt': ('Int', T_INT), 'toUInt': ('UInt', ('int', 32, False)), 'toBool': ('Bool', T_BOOL),
       'toLongLong': ('LongLong', ('int', 64, True)), 'toULongLong': ('ULongLong', ('int', 64, False)), 'toDouble': ('Double', ('float',)),
       'toMap': ('Map', T_MAP), 'toList': ('List', T_LIST), 'toStringList': ('StringList', ('tmpl', 'QList', (T_STR,))),
       'toByteArray': ('ByteArray', T_BA), 'toUuid': ('Uuid', T_UUID), 'toUrl': ('Url', ('cls', 'QUrl')), 'toDateTime': ('DateTime', ('cls', 'QDateTime'))}


def m_variant(ex, bl, name, a, n):
    v = ex.load(bl)
    if name in VTO:
        kind, t = VTO[name]
        r = vout(ex, v, kind)
        if kind in ('Int', 'UInt'):
            # a JSON number (QMetaType::Double): both conversions round to 64 bits and then truncate
            ex.assume(Implies(vt_of(v) == 6, vout(ex, v, 'UInt') == vout(ex, v, 'Int') % 2 ** 32))
        if a and isinstance(a[0], PtrTo):
            ok = uf('v_conv_ok_' + kind, [v], BoolSort())
            a[0].loc.write(ex, ok)
            if z3.is_app(v) and v.decl().name() == 'v_' + kind:
                ex.assume(ok)
            else:
                ex.assume(Implies(Not(ok), r == default_z(t)) if kind in ('Int', 'UInt', 'LongLong', 'ULongLong') else BoolVal(True))
        u = unpack(r, t)
        ex.type_inv(u, t)
        return u
    if name in ('type', 'userType'):
        ex.assume(And(vt_of(v) >= 0, vt_of(v) < 2 ** 31))
        return vt_of(v)
    if name in ('isNull', 'isValid'):
        ex.assume(vt_of(VNULL) == 0)
        if name == 'isValid':
            return vt_of(v) != 0
        return uf('v_isnull', [v], BoolSort())
    if name == 'canConvert':
        return uf('v_canconvert', [v, a[0] if a else 0], BoolSort())
    if name == 'convert':
        ok = uf('v_convert_ok', [v, a[0]], BoolSort())
        nv = uf('v_converted', [v, a[0]], Var)
        from ex import Loc
        if isinstance(bl, Loc):
            bl.write(ex, nv)
        ex.assume(Implies(ok, vt_of(nv) == iv(a[0])))
        return ok
    if name == 'typeName':
        return Py('charptr', s=uf('v_typename', [v], Bytes))
    if name == 'clear':
        bl.write(ex, VNULL)
        return None
    return uf_method(ex, 'QVariant', name, [v], a, n)


# --------------------------------------------------------------------------- JSON
jser = Function('json_serialize', Var, IntSort(), Bytes)
jval = Function('json_value', Bytes, Var)
jerr = Function('json_error', Bytes, IntSort())


# --------------------------------------------------------------------------- generic
def zargs(ex, a):
    """z3 terms of an argument list (for unspecified functions)"""
    out = []
    for x in a:
        if isdef(x):
            continue
        if isinstance(x, (bool,)):
            out.append(BoolVal(x))
        elif isinstance(x, int):
            out.append(IntVal(x))
        elif z3.is_expr(x):
            out.append(x)
        elif isinstance(x, BA):
            out.append(x.s)
        elif isinstance(x, CStr):
            out.append(seq_of(x.b))
        elif isinstance(x, ListV):
            out.append(x.s)
        elif isinstance(x, HashV):
            out += [x.dom, x.val]
        elif isinstance(x, Opaque):
            out.append(iv(x.e))
        elif isinstance(x, StructV):
            out.append(pack(x, ('cls', x.name)))
        elif isinstance(x, Py) and x.kind == 'charptr':
            out.append(x.s)
        elif isinstance(x, Py) and x.kind == 'jsondoc':
            out.append(x.v)
        elif isinstance(x, IterV):
            out.append(iv(x.idx))
        else:
            L('argument %r of an unspecified Qt function' % (x,))
    return out


def uf_value(ex, name, zs, t):
    """unspecified function of the given arguments with a result of type t"""
    if t[0] == 'void':
        return None
    if t[0] == 'cls' and t[1] in PYKINDS:
        L('result of ' + name)
    v = unpack(uf(name, zs, zsort(t)), t)
    if isinstance(v, BA):
        v = BA(v.s, v.null)
    ex.type_inv(v, t)
    return v


def uf_method(ex, cls, name, zself, a, n):
    t = ex.ty(n)
    ex.xp.models.add(cls + '::' + name)
    return uf_value(ex, 'qt_%s_%s' % (cls, name), list(zself) + zargs(ex, a), t)


def is_const_base(base):
    """implicit object argument converted to const: a const method is called"""
    b = base
    while b.get('kind') in ('ParenExpr', 'MaterializeTemporaryExpr', 'ExprWithCleanups'):
        b = b['inner'][0]
    if b.get('kind') == 'ImplicitCastExpr' and b.get('castKind') == 'NoOp' and 'const' in b['type'].get('qualType', ''):
        return True
    qt = base['type'].get('qualType', '')
    return qt.startswith('const ')


# --------------------------------------------------------------------------- QObjects
TIMER_F = {'interval': ('int', 32, True), 'single': ('bool',), 'active': ('bool',)}


def timer_set(ex, ref, f, v):
    ex.setf(ref, 'QTimer', f, TIMER_F[f], v)


def timer_get(ex, ref, f):
    return ex.getf(ref, 'QTimer', f, TIMER_F[f])


def ev_mod():
    from ex import Event
    return Event


def do_disconnect(ex, vals):
    vals = [0 if isdef(x) else x for x in vals]
    ex.log.append(ev_mod()('Disconnect', args=vals))
    if len(vals) == 4:
        none = lambda x: isinstance(x, (int, str)) and not x or isinstance(x, CStr) and not x.b or z3.is_expr(x) and is_int_value(z3.simplify(x)) and z3.simplify(x).as_long() == 0
        same = lambda x, y: none(x) or z3.is_expr(x) and z3.is_expr(y) and z3.simplify(x).eq(z3.simplify(y)) or x is y
        sg = vals[1].q if isinstance(vals[1], FnRef) else vals[1]
        ex.conns[:] = [e for e in ex.conns if not (same(vals[0], e.sender) and (none(sg) or str(sg) == str(e.sig)) and same(vals[2], e.recv)
                                                   and (none(vals[3]) or isinstance(vals[3], FnRef) and isinstance(e.handler, FnRef) and vals[3].q == e.handler.q))]


def m_object(ex, cls, ref, name, a, n, const):
    Event = ev_mod()
    if name == 'deleteLater':
        ex.log.append(Event('DeleteLater', obj=ref))
        ex.setf(ref, 'QObject', 'deleteLater', T_BOOL, BoolVal(True))
        return None
    if name == 'sender':
        if ex.sender is None:
            ex.sender = ex.fresh('sender', IntSort())
        return ex.sender
    if name in ('setParent', 'setObjectName', 'moveToThread', 'installEventFilter', 'blockSignals'):
        if name == 'blockSignals':
            ex.log.append(Event('QtCall', cls=cls, name=name, obj=ref, args=a))
        return False if name == 'blockSignals' else None
    if name == 'disconnect' and len(a) in (2, 3):
        # QObject::disconnect(receiver, member = nullptr) or (signal = nullptr, receiver = nullptr, member = nullptr)
        v = [ex.load(x) for x in a]
        do_disconnect(ex, [ref, 0] + v if len(a) == 2 else [ref] + v)
        return True
    if name in ('metaObject',):
        r = uf('metaobject', [ref], IntSort())
        ex.assume(r > 0)
        return r
    if name in ('parent',):
        return uf('qparent', [ref], IntSort())
    if cls == 'QTimer':
        if name == 'setInterval':
            timer_set(ex, ref, 'interval', a[0])
            return None
        if name == 'setSingleShot':
            timer_set(ex, ref, 'single', a[0] if not isinstance(a[0], int) or isinstance(a[0], bool) else bool(a[0]))
            return None
        if name == 'start':
            if a and not isdef(a[0]):
                timer_set(ex, ref, 'interval', a[0])
            timer_set(ex, ref, 'active', BoolVal(True))
            ex.log.append(Event('TimerStart', obj=ref, interval=timer_get(ex, ref, 'interval')))
            return None
        if name == 'stop':
            timer_set(ex, ref, 'active', BoolVal(False))
            ex.log.append(Event('TimerStop', obj=ref))
            return None
        if name == 'isActive':
            return timer_get(ex, ref, 'active')
        if name == 'interval':
            return timer_get(ex, ref, 'interval')
        if name in ('setTimerType',):
            return None
    h = ex.xp.opt.get('qtcall')
    if h:
        r = h(ex, cls, ref, name, a, n, const)
        if r is not NotImplemented:
            return r
    t = ex.ty(n)
    ex.xp.models.add(cls + '::' + name)
    if const or name in ('isOpen', 'isListening', 'isEncrypted', 'hasPendingConnections', 'errorString', 'error', 'state', 'peerAddress', 'localAddress',
                         'bytesAvailable', 'isValid', 'serverPort', 'isRunning'):
        # unspecified observer of the object's (external) state: stable until something is done to it
        return uf_value(ex, 'obs_%s' % name, [iv(ref), ex.qtepoch] + zargs(ex, a), t)
    ex.log.append(Event('QtCall', cls=cls, name=name, obj=ref, args=a))
    if t[0] == 'void':
        ex.qtepoch = ex.fresh('epoch', IntSort())
        return None
    if t[0] == 'cls' and t[1] in PYKINDS:
        L('result of %s::%s' % (cls, name))
    ex.qtepoch = ex.fresh('epoch', IntSort())
    v = ex.havoc_value(t, name)
    ex.log[-1].a['ret'] = v
    return v


# --------------------------------------------------------------------------- strings
def m_string(ex, bl, name, a, n):
    from ex import Loc
    s = ex.load(bl)

    def put(x):
        if isinstance(bl, Loc):
            bl.write(ex, x)
        return bl
    if isinstance(s, CStr):
        s = as_str(ex, s)
    if name in ('isEmpty',):
        return Length(s) == 0
    if name == 'isNull':
        return uf('str_isnull', [s], BoolSort())
    if name in ('size', 'length', 'count') and not a:
        return Length(s)
    if name in ('toUtf8',):
        return BA(to_utf8(ex, s))
    if name == 'clear':
        put(StringVal(''))
        return None
    if name in ('append', 'push_back') and len(a) == 1:
        return put(Concat(s, as_str(ex, a[0])))
    if name == 'prepend' and len(a) == 1:
        return put(Concat(as_str(ex, a[0]), s))
    if name in ('startsWith', 'endsWith', 'contains') and isinstance(a[0], (CStr,)) or name in ('startsWith', 'endsWith', 'contains') and z3.is_expr(a[0]) and a[0].sort() == Str:
        x = as_str(ex, a[0])
        if len(a) > 1 and not isdef(a[1]) and not (isinstance(a[1], int) and a[1] == 1):
            return uf('str_%s_ci' % name, [s, x], BoolSort())
        return {'startsWith': z3.PrefixOf(x, s), 'endsWith': z3.SuffixOf(x, s), 'contains': z3.Contains(s, x)}[name]
    if name == 'split':
        sep = char_lit(a[0])
        if sep is not None and all(isdef(x) or isinstance(x, int) and x == 0 for x in a[1:]):
            return split_model(ex, s, sep)
    t = ex.ty(n)
    if name == 'remove' and len(a) == 1 and isinstance(a[0], Opaque):
        # remove(QRegularExpression("^literal"))
        lit = regex_prefix(a[0])
        if lit is not None:
            return put(strip_prefix(s, lit))
    if t == T_STR and isinstance(bl, Loc) and name in ('remove', 'replace', 'insert', 'fill', 'setNum'):
        r = uf('qt_QString_' + name, [s] + zargs(ex, a), Str)
        put(r)
        return bl
    return uf_method(ex, 'QString', name, [s], [as_str(ex, x) if isinstance(x, CStr) else x for x in a], n)


def regex_prefix(o):
    """the literal of a regular expression object that was built from "^literal" """
    e = o.e
    if z3.is_app(e) and e.num_args() >= 1 and z3.is_string_value(e.arg(0)):
        m = re.match(r'\^([A-Za-z0-9:_ -]*)$', e.arg(0).as_string())
        return m.group(1) if m else None
    return None


def strip_prefix(s, lit):
    return If(z3.PrefixOf(StringVal(lit), s), z3.SubString(s, IntVal(len(lit)), Length(s) - len(lit)), s)


def char_lit(a):
    """one character string of a literal separator"""
    if isinstance(a, int) and not isinstance(a, bool) and 0 < a < 128:
        return chr(a)
    if isinstance(a, Opaque) and z3.is_app(a.e) and a.e.decl().name().startswith('qchar') and a.e.num_args() == 1:
        x = a.e.arg(0)
        if is_int_value(x):
            return chr(x.as_long())
        if z3.is_string_value(x):
            return x.as_string()
        x = z3.simplify(x)
        if is_int_value(x):
            return chr(x.as_long())
    if isinstance(a, CStr) and len(a.b) == 1:
        return a.b.decode('latin1')
    if z3.is_expr(a) and z3.is_string_value(a) and len(a.as_string()) == 1:
        return a.as_string()
    return None


def one_sep(s, sep):
    """(exactly one separator in s, part before it, part after it)"""
    d = StringVal(sep)
    i = z3.IndexOf(s, d, IntVal(0))
    return And(i >= 0, z3.IndexOf(s, d, i + 1) < 0), z3.SubString(s, IntVal(0), i), z3.SubString(s, i + 1, Length(s))


def split_model(ex, s, sep):
    r = uf('str_split_%d' % ord(sep), [s], SeqSort(Str))
    key = ('split', r.get_id())
    if key not in ex.ranged:
        ex.ranged.add(key)
        ex.xp.keep.append(r)
        one, p0, p1 = one_sep(s, sep)
        i = z3.IndexOf(s, StringVal(sep), IntVal(0))
        ex.assume(Length(r) >= 1)
        ex.assume((Length(r) == 1) == (i < 0))
        ex.assume((Length(r) == 2) == one)
        ex.assume(Implies(Length(r) == 1, r[0] == s))
        ex.assume(Implies(Length(r) == 2, And(r[0] == p0, r[1] == p1)))
        ex.assume(Implies(Length(r) >= 2, r[0] == p0))
    return ListV(r, T_STR)


# --------------------------------------------------------------------------- streams
def ds_write(ex, ds, v, t):
    tgt = ds.target
    b = tgt.read(ex)
    if isinstance(v, BA):
        L('QDataStream << QByteArray')
    if t[0] == 'bool':
        bs = [ex.b2i(v)]
    elif t[0] == 'int':
        nb = t[1] // 8
        w = ex.wrap(v, t[1], False, t[1], t[2])
        if isinstance(w, int):
            bs = [(w >> (8 * i)) & 255 for i in reversed(range(nb))]
        elif nb == 1:
            bs = [u8(w)]
        else:
            bs = [(w / (256 ** i)) % 256 for i in reversed(range(nb))]
        if not ds.be:
            bs.reverse()
    else:
        L('QDataStream << %r' % (t,))
    tgt.write(ex, BA(cat(b.s, *[Unit(iv(x)) for x in bs])))


def ds_read(ex, loc, ds, dst, t):
    if t[0] != 'int':
        L('QDataStream >> %r' % (t,))
    nb = t[1] // 8
    ln = Length(ds.s)
    pos = iv(ds.pos)
    if ex.branch(pos + nb <= ln):
        bs = [ex.byte(ds.s[pos + i]) for i in range(nb)]
        if not ds.be:
            bs.reverse()
        v = IntVal(0)
        for x in bs:
            v = v * 256 + x
        v = z3.simplify(v) if nb > 1 else bs[0]
        if t[2]:
            v = ex.wrap(v, t[1], True, t[1], False)
        loc.write(ex, ds.with_(pos=pos + nb))
    else:
        v = 0
        loc.write(ex, ds.with_(pos=ln, status=IntVal(1)))
    dst.write(ex, v)


def m_stream(ex, bl, name, a, n):
    ds = ex.load(bl)
    if name == 'atEnd' and ds.kind == 'dsr':
        return iv(ds.pos) >= Length(ds.s)
    if name == 'setByteOrder':
        bl.write(ex, ds.with_(be=(ex_const(a[0]) == 0)))
        return None
    if name == 'status':
        return getattr(ds, 'status', 0)
    if name in ('setVersion', 'setFloatingPointPrecision'):
        return None
    if name == 'writeRawData' and ds.kind == 'dsw':
        x = as_bytes(ex, a[0])
        k = iv(a[1])
        ex.oblige('index-in-range', And(k >= 0, k <= Length(x)), ('safety',))
        b = ds.target.read(ex)
        ds.target.write(ex, BA(cat(b.s, Extract(x, IntVal(0), k))))
        return k
    if name == 'skipRawData' and ds.kind == 'dsr':
        k = iv(a[0])
        rest = Length(ds.s) - iv(ds.pos)
        d = If(k > rest, rest, k)
        bl.write(ex, ds.with_(pos=iv(ds.pos) + d))
        return d
    L('QDataStream::' + name)


def is_seq_empty(s):
    return z3.is_app(s) and s.decl().kind() == z3.Z3_OP_SEQ_EMPTY


def ex_const(v):
    if isinstance(v, int):
        return v
    v = z3.simplify(v)
    if is_int_value(v):
        return v.as_long()
    L('constant expected')


def havoc_py(ex, t, name):
    if t[1] == 'QDebug':
        return Py('debug')
    L('havoc of ' + t[1])


# --------------------------------------------------------------------------- entry points
def base_type(ex, base):
    return ex.norm(parse_type(F._qt(base['type'])))


IGNORED = {('QSslSocket', 'flush'), ('QLocalSocket', 'flush'), ('QWebSocket', 'flush')}


def call_method(ex, base, cal, name, args, n):
    from ex import Loc, Event
    bt = base_type(ex, base)
    const = is_const_base(base)
    # a static method called through an object, or QObject method on this
    bv = ex.ev(base)
    if cal.get('isArrow'):
        p = ex.load(bv)
        pt = bt[1] if bt[0] == 'ptr' else bt
        if isinstance(p, PtrTo):
            bv = p.loc
            bt = pt
        elif isinstance(p, IterV):
            c = p.cont
            if name == 'key':
                return unpack(iter_key(ex, p), c.kt)
            if name == 'value':
                return iter_deref(ex, p)
            L('iterator ->' + name)
        elif isinstance(p, Py):
            bv = p
            bt = pt
        else:
            if name == 'sender' or name == 'deleteLater' and False:
                pass
            ex.nonnull(p, n)
            cls = pt[1] if pt[0] == 'cls' else tname(pt)
            vals = [ex.rv(a) for a in args]
            if cls == 'QListSpecialMethods':
                L(cls + '::' + name)
            if not (pt[0] == 'cls' and ex.is_object_class(pt[1])):
                return uf_value(ex, 'qt_%s_%s' % (tname(pt), name), [iv(p)] + zargs(ex, vals), ex.ty(n))
            c = objclass(ex, cal, cls)
            # QIODevice methods etc. on a derived pointer: use the static class of the expression
            return m_object(ex, c, p, name, vals, n, const)
    v = ex.load(bv)
    if isinstance(v, IterV):
        if name == 'key':
            return unpack(iter_key(ex, v), v.cont.kt)
        if name == 'value':
            return iter_deref(ex, v)
        if name in ('operator!=', 'operator==') :
            L('iterator op')
    if isinstance(v, BA):
        return m_bytearray(ex, bv, name, [ex.rv(a) for a in args], n)
    if isinstance(v, HashV):
        return m_hash(ex, bv, name, [ex.rv(a) for a in args], n, bt)
    if isinstance(v, ListV):
        if name == 'join':
            vals = [ex.rv(a) for a in args]
            return uf_value(ex, 'qt_join', [v.s] + zargs(ex, vals), ex.ty(n))
        return m_list(ex, bv, name, [ex.rv(a) for a in args], n, bt)
    if isinstance(v, Py):
        vals = [ex.rv(a) for a in args]
        if v.kind in ('dsr', 'dsw'):
            return m_stream(ex, bv, name, vals, n)
        if v.kind == 'jsondoc':
            if name in ('toVariant',):
                return v.v
            if name == 'toJson':
                f = vals[0] if vals and not isdef(vals[0]) else 0
                r = jser(v.v, iv(f))
                ex.ghost.setdefault('json', []).append((v.v, r))
                return BA(r)
            if name in ('isNull', 'isEmpty', 'isObject', 'isArray'):
                return uf('json_' + name, [v.v], BoolSort())
            L('QJsonDocument::' + name)
        if v.kind == 'jsonerr':
            if name == 'errorString':
                return uf('json_errstr', [iv(v.error)], Str)
        if v.kind == 'debug':
            return v
        L('method %s of %s' % (name, v.kind))
    if isinstance(v, StructV) and v.name.startswith('QPair'):
        L('QPair::' + name)
    if z3.is_expr(v):
        vals = [ex.rv(a) for a in args]
        if v.sort() == Str:
            return m_string(ex, bv, name, vals, n)
        if v.sort() == Var:
            return m_variant(ex, bv, name, vals, n)
        t = bt[1] if bt[0] == 'ptr' else bt
        if t == T_UUID:
            if name == 'isNull':
                return v == 0
            if name == 'toString':
                fmt = ex_const(vals[0]) if vals and not isdef(vals[0]) else 0
                if fmt == 0:
                    ex.assume(uuid_parse(uuid_str(v)) == v)
                    return uuid_str(v)
                return uf('uuid_str_fmt', [v, fmt], Str)
            return uf_value(ex, 'qt_QUuid_' + name, [v] + zargs(ex, vals), ex.ty(n))
        if t[0] == 'cls' and ex.is_object_class(t[1]):
            return m_object(ex, objclass(ex, cal, t[1]), v, name, vals, n, const)
    if isinstance(v, Opaque):
        vals = [ex.rv(a) for a in args]
        t = ex.ty(n)
        cls = tname(v.t)
        ex.xp.models.add('%s::%s' % (cls, name))
        h = ex.xp.opt.get('qtval')
        if h:
            r = h(ex, cls, v, name, vals)
            if r is not NotImplemented:
                return r
        zs = [iv(v.e)] + zargs(ex, vals)
        if not const and isinstance(bv, Loc):
            bv.write(ex, Opaque(v.t, uf('qtm_%s_%s' % (cls, name), zs, IntSort())))
        return uf_value(ex, 'qt_%s_%s' % (cls, name), zs, t) if t[0] != 'void' else None
    L('method %s on %r' % (name, bt))


def objclass(ex, cal, cls):
    """most specific static class of the object expression (casts to the declaring base removed)"""
    b = cal['inner'][0]
    while b.get('kind') in ('ImplicitCastExpr', 'ParenExpr') and b.get('castKind', 'NoOp') in ('UncheckedDerivedToBase', 'DerivedToBase', 'NoOp', 'LValueToRValue'):
        t = base_type(ex, b)
        b2_ = b['inner'][0]
        b = b2_
    t = base_type(ex, b)
    if t[0] == 'ptr':
        t = t[1]
    if t[0] == 'cls':
        return t[1]
    return cls


FUNCS = {'qMakeForeachContainer', 'connect', 'disconnect', 'qobject_cast', 'move', 'qMin', 'qMax', 'qBound', 'qAbs', 'min', 'max'}


def has_func(q, name):
    return False


def derives(ex, c, base):
    t = base[1] if base[0] == 'cls' else str(base)
    k = lambda x: x.split('::')[-1]
    if k(c) == k(t):
        return True
    cl = ex.lookup_cls(c)
    return cl is not None and any(b != c and derives(ex, b, base) for b in cl.bases)


def m_connect(ex, args, n):
    Event = ev_mod()
    ct = n['inner'][0]
    vals = [ex.rv(a) for a in args]
    vals = [v for v in vals if not isdef(v)]
    sig = vals[1] if len(vals) > 1 else None
    recv, hd = (vals[2], vals[3]) if len(vals) >= 4 else (None, vals[2] if len(vals) > 2 else None)
    ctype = vals[4] if len(vals) > 4 else 0
    if isinstance(sig, FnRef):
        sig = sig.q
    e = Event('Connect', sender=vals[0], sig=sig, recv=recv, handler=hd, ctype=ctype)
    ex.conns.append(e)
    h = ex.xp.opt.get('on_connect')
    if h:
        h(ex, e)
    return Py('connection')


def overload_sig(ex, node):
    return None


def call_func(ex, q, args, n):
    Event = ev_mod()
    c = n['inner'][0]
    while c['kind'] in ('ImplicitCastExpr', 'ParenExpr'):
        c = c['inner'][0]
    txt = callee_text(ex.frames[-1].tu, c)
    name = q.split('::')[-1] if q else c['referencedDecl']['name']
    name = name or c['referencedDecl']['name']
    if name == 'connect':
        return m_connect(ex, args, n)
    if name == 'disconnect':
        do_disconnect(ex, [ex.rv(a) for a in args])
        return True
    if name == 'tr':
        return ex.conv(ex.rv(args[0]), T_STR)
    if name == 'invokeMethod' and ex.contract('qt::invokeMethod') is None:
        return invoke_method(ex, args, n)
    con = ex.contract('qt::' + name)
    if con is not None:
        vals = [ex.ev(a) for a in args]
        vals = [v for v in vals if not isdev(v)]
        return con.apply(ex, None, vals, n)
    if name == 'qobject_cast':
        v = ex.rv(args[0])
        t = ex.ty(n)
        if isinstance(v, int):
            return v
        is_a = uf('isa_' + tname(t[1]), [v], BoolSort())
        made = [e for e in ex.log if e.kind == 'New' and z3.is_expr(v) and e.ref.eq(v)]
        if made:
            # an object of known class
            if derives(ex, made[-1].cls, t[1]):
                return v
            ex.assume(Not(is_a)) if made[-1].cls.startswith(ex.prog.ns) else None
        h = ex.xp.opt.get('isa')
        if h:
            h(ex, v, t[1], is_a)
        if ex.branch(And(v != 0, is_a)):
            return v
        return 0
    if name in ('move', 'forward', 'as_const', 'qAsConst', 'addressof'):
        return ex.ev(args[0])
    vals = [ex.rv(a) for a in args]
    t = ex.ty(n)
    if name == 'asString' and len(vals) == 1:      # qPrintable, qUtf8Printable
        return vals[0]
    h = ex.xp.opt.get('funcs', {}).get(name)
    if h:
        return h(ex, vals)
    if name in ('qMin', 'min', 'qMax', 'max') and len(vals) == 2:
        c_ = ex.compare('<', vals[0], vals[1])
        lt = ex.branch(c_)
        return vals[0] if lt == (name in ('qMin', 'min')) else vals[1]
    if name == 'qBound':
        lo, x, hi = vals
        if ex.branch(ex.compare('<', hi, x)):
            x = hi
        if ex.branch(ex.compare('<', x, lo)):
            return lo
        return x
    if name == 'qAbs':
        return If(iv(vals[0]) < 0, -iv(vals[0]), iv(vals[0]))
    if name in ('qFromBigEndian', 'qToBigEndian', 'qFromLittleEndian', 'qToLittleEndian'):
        L(name)
    if name == 'exists' and len(vals) == 1 and z3.is_expr(vals[0]) and vals[0].sort() == Str:
        return uf('file_exists', [vals[0]], BoolSort())     # QFile::exists, QFileInfo::exists
    if name == 'createUuid':
        r = ex.fresh('uuid', IntSort())
        ex.assume(r > 0)
        ex.log.append(Event('CreateUuid', id=r))
        h = ex.xp.opt.get('create_uuid')
        if h:
            h(ex, r)
        return r
    if name in ('currentMSecsSinceEpoch', 'currentSecsSinceEpoch'):
        r = ex.fresh('now', IntSort())
        ex.assume(r >= 0)
        p = ex.ghost.get('now')
        if p is not None:
            ex.assume(r >= p)
        ex.ghost['now'] = r
        return r
    if name in ('currentDateTime', 'currentDateTimeUtc', 'currentDate', 'currentTime'):
        return Opaque(t, ex.fresh('now', IntSort()))
    if name == 'fromVariant' and t == ('cls', 'QJsonDocument'):
        return Py('jsondoc', v=vals[0])
    if name == 'fromJson':
        b = vals[0]
        v = jval(b.s)
        ok = jerr(b.s)
        ex.assume(ok >= 0)
        if len(vals) > 1 and isinstance(vals[1], PtrTo):
            vals[1].loc.write(ex, Py('jsonerr', error=ok))
        ex.assume(Implies(ok != 0, v == VNULL))
        ex.assume(vt_of(VNULL) == 0)
        return Py('jsondoc', v=v)
    if name in ('fromUtf8', 'fromLocal8Bit', 'fromLatin1', 'fromRawData') and t == T_STR:
        s = as_bytes(ex, vals[0])
        if name == 'fromUtf8':
            return fromutf8(ex, s)
        return uf('str_' + name, [s], Str)
    if name == 'fromRawData' and t == T_BA:
        x = as_bytes(ex, vals[0])
        return BA(Extract(x, IntVal(0), iv(vals[1])))
    if name == 'fromString' or name == 'fromStdString':
        return uf_value(ex, 'qt_' + name + '_' + tname(t), zargs(ex, vals), t)
    if name == 'singleShot':
        ex.log.append(Event('SingleShot', args=vals))
        return None
    if name in ('qDebug', 'qWarning', 'qCritical', 'qInfo'):
        ex.xp.dropped.add('debug output')
        return Py('debug')
    if name == 'exit' or name == 'quit' or name == 'abort':
        ex.log.append(Event('Exit', args=vals))
        if name == 'abort' or re.match(r'(std::|::)?exit$', txt or ''):
            from ex import PathEnd
            h = ex.xp.opt.get('on_exit')
            if h:
                h(ex)
            raise PathEnd()
        return None
    if name in ('qt_noop', 'qt_assert', 'Q_UNUSED', 'qt_assert_x'):
        return None
    # a pure static/free function: unspecified function of its arguments
    PURE = {'number', 'arg', 'applicationName', 'applicationVersion', 'exists', 'fromMSecsSinceEpoch', 'fromSecsSinceEpoch', 'typeToName', 'nameToType',
            'qVersion', 'errorString', 'fromUserInput', 'supportsSsl', 'sslLibraryVersionString', 'fromHex', 'toPercentEncoding', 'fromPercentEncoding',
            'fromBase64', 'qHash', 'organizationName', 'isUtf8', 'nativeSeparator', 'cleanPath', 'separator', 'staticMetaObject', 'qstrlen', 'strlen', 'systemCaCertificates', 'defaultConfiguration', 'qEnvironmentVariable', 'qgetenv', 'tempPath', 'homePath', 'fromPath'}
    if name in PURE:
        ex.xp.models.add(name)
        if name in ('strlen', 'qstrlen'):
            return Length(as_bytes(ex, vals[0]))
        return uf_value(ex, 'qt_' + name, zargs(ex, vals), t)
    if name in ('remove', 'rename', 'mkpath', 'copy') and 'QFile' in txt or 'QDir' in txt:
        ex.log.append(Event('QtCall', cls='QFile', name=name, obj=0, args=vals))
        return ex.havoc_value(t, name) if t[0] != 'void' else None
    L('function ' + (txt or name))


def strip(a):
    while a.get('kind') in ('ExprWithCleanups', 'MaterializeTemporaryExpr', 'ImplicitCastExpr', 'CXXFunctionalCastExpr', 'CXXBindTemporaryExpr', 'ParenExpr') or \
            a.get('kind') in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') and len([x for x in a.get('inner', []) if x.get('kind') != 'CXXDefaultArgExpr']) == 1:
        a = [x for x in a['inner'] if x.get('kind') != 'CXXDefaultArgExpr'][0]
    return a


def find_str(a):
    if a.get('kind') == 'StringLiteral':
        return a.get('value', '').strip('"')
    for c in a.get('inner', []):
        if isinstance(c, dict):
            r = find_str(c)
            if r is not None:
                return r
    return None


def invoke_method(ex, args, n):
    """QMetaObject::invokeMethod: a named slot or a functor, called now or from the event loop"""
    Event = ev_mod()
    args = [a for a in args if a.get('kind') != 'CXXDefaultArgExpr']
    obj = ex.rv(args[0])
    h = strip(args[1])
    if h.get('kind') == 'LambdaExpr':
        handler = ex.rv(h)
    elif h.get('kind') == 'UnaryOperator':
        handler = ex.rv(h)
    else:
        handler = find_str(h)
        if handler is None:
            L('invokeMethod of a computed name')
    ctype, vals = 0, []
    for a in args[2:]:
        b = strip(a)
        t = ex.ty(b)
        if t[0] == 'int' or 'ConnectionType' in str(t):
            ctype = ex_const(ex.rv(a))
        elif 'Argument' in str(t) and b.get('kind') in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
            vals.append(ex.rv([x for x in b['inner'] if x.get('kind') != 'CXXDefaultArgExpr'][1]))
        else:
            L('argument of invokeMethod: %s %r' % (b.get('kind'), t))
    bt = ex.ty(strip(args[0]))
    cls = bt[1][1] if bt[0] == 'ptr' and bt[1][0] == 'cls' else None
    e = Event('Invoke', obj=obj, handler=handler, ctype=ctype, args=vals, cls=cls)
    if ctype == 2:          # Qt::QueuedConnection
        ex.log.append(e)
        return True
    if ctype not in (0, 1):
        L('connection type %r' % ctype)
    run_invoked(ex, e)
    return True


def run_invoked(ex, e):
    from ex import Closure, FnRef
    if isinstance(e.handler, Closure):
        ex.call_closure(e.handler, [], None)
        return
    q = e.handler.q if isinstance(e.handler, FnRef) else None
    fn = ex.prog.find_fn(q) if q else next((f for f in (ex.prog.find_fn(c + '::' + e.handler) for c in (ex.prog.ns + '::' + e.cls.split('::')[-1],)) if f is not None), None)
    if fn is None:
        L('invoked method %s' % (q or e.handler))
    ex.call_fn(fn, e.obj, argvals=list(e.args)[:fn.nparams])


def isdev(v):
    return isdef(v)


def construct(ex, t, vals, n, argtypes):
    if t[0] == 'lambda' or (len(vals) == 1 and isinstance(vals[0], Closure)):
        return vals[0]
    if len(vals) == 1 and isinstance(vals[0], IterV) and ('iterator' in str(t[1])):
        return vals[0]
    if t[0] == 'tmpl' and t[1] in ('QFlags',):
        return vals[0] if vals else 0
    if t == ('int', 32, True):
        # QFlags normalised to int
        if not vals:
            return 0
        return vals[0] if not isinstance(vals[0], Py) else 0
    k = t[1] if t[0] in ('cls', 'tmpl') else None
    if t[0] == 'cls':
        if k == 'QString':
            if not vals:
                return StringVal('')
            if len(vals) == 1:
                if isinstance(vals[0], Py) and vals[0].kind == 'strdata':
                    return vals[0].s
                if isinstance(vals[0], int) and vals[0] == 0:
                    return StringVal('')
                return as_str(ex, vals[0])
            return uf('qt_QString_ctor', zargs(ex, vals), Str)
        if k == 'QStringDataPtr':
            return vals[0] if vals else Py('strdata', s=StringVal(''))
        if k == 'QByteArray':
            if not vals:
                return BA(Empty(Bytes), BoolVal(True))
            if len(vals) == 1:
                if isinstance(vals[0], BA):
                    return vals[0]
                if isinstance(vals[0], int) and vals[0] == 0:
                    return BA(Empty(Bytes), BoolVal(True))
                return BA(as_bytes(ex, vals[0]))
            if len(vals) == 2 and isinstance(vals[0], CStr):
                kk = ex_const(vals[1])
                return BA(seq_of(vals[0].b if kk < 0 else (vals[0].b + b'\0')[:kk]))
            if len(vals) == 2 and isinstance(vals[0], Py) and vals[0].kind == 'charptr':
                x = vals[0].s
                kk = iv(vals[1])
                ex.oblige('index-in-range', And(kk >= 0, kk <= Length(x)), ('safety',))
                return BA(Extract(x, IntVal(0), kk))
            if len(vals) == 2 and isinstance(vals[0], int) and 0 <= vals[0] <= 64:
                return BA(cat(*[Unit(u8(vals[1]))] * vals[0]) if vals[0] else Empty(Bytes))
            L('QByteArray constructor')
        if k == 'QVariant':
            if not vals:
                return VNULL
            return mkvar(ex, vals[0], argtypes[0])
        if k == 'QUuid':
            if not vals:
                return IntVal(0)
            v = vals[0]
            if z3.is_expr(v) and v.sort() == IntSort():
                return v
            s = as_str(ex, v)
            r = uuid_parse(s)
            ex.assume(r >= 0)
            return r
        if k == 'QDataStream':
            if isinstance(vals[0], PtrTo):
                mode = ex_const(vals[1])
                if mode & 1:
                    L('QDataStream ReadWrite')
                if not mode & 4:
                    # WriteOnly implies Truncate
                    old = vals[0].loc.read(ex)
                    if not is_seq_empty(old.s):
                        vals[0].loc.write(ex, BA(Empty(Bytes)))
                return Py('dsw', target=vals[0].loc, be=True)
            if isinstance(vals[0], BA):
                return Py('dsr', s=vals[0].s, pos=IntVal(0), be=True, status=IntVal(0))
            L('QDataStream constructor')
        if k == 'QJsonDocument':
            if not vals:
                return Py('jsondoc', v=VNULL)
            return vals[0]
        if k == 'QJsonParseError':
            return Py('jsonerr', error=0)
        if k in ('QDebug', 'QDebugStateSaver', 'QMessageLogger'):
            return Py('debug')
        if k == 'QTextStream':
            return Py('debug')
        if k in ('QGenericReturnArgument', 'QGenericArgument'):
            if not vals or isdef(vals[0]):
                return Py('default')
            return vals[0] if isinstance(vals[0], Py) else Py('qarg', v=vals[0])
        if k == 'QLatin1String' or k == 'QLatin1Char' or k == 'QChar' or k == 'QStringLiteral':
            if len(vals) == 1 and isinstance(vals[0], CStr):
                return as_str(ex, vals[0])
            if len(vals) == 1 and z3.is_expr(vals[0]) and vals[0].sort() == Str:
                return vals[0]
            if len(vals) == 1:
                return Opaque(t, uf('qchar', zargs(ex, vals), IntSort())) if not isinstance(vals[0], Opaque) else vals[0]
        if len(vals) == 1 and isinstance(vals[0], Opaque) and vals[0].t == t:
            return vals[0]
        if ex.is_object_class(k):
            L('construction of object value ' + k)
        # opaque value class
        h = ex.xp.opt.get('qtctor')
        if h:
            r = h(ex, k, vals)
            if r is not NotImplemented:
                return Opaque(t, r)
        zs = zargs(ex, vals)
        ex.xp.models.add(k + '()')
        return Opaque(t, uf('new_' + tname(t), zs, IntSort()) if zs else default_z(t))
    if t[0] == 'tmpl':
        if t[1] == 'QReturnArgument':
            loc = ex.ev(n['inner'][1])
            return Py('qret', loc=loc)
        if t[1] == 'QArgument':
            return Py('qarg', v=vals[1])
        if is_map_type(t):
            if not vals:
                return empty_map(t)
            if isinstance(vals[0], HashV):
                return vals[0]
            items = vals[0].items if isinstance(vals[0], Py) and vals[0].kind == 'initlist' else vals
            if len(vals) == 1 and all(isinstance(x, StructV) and set(x.f) == {'first', 'second'} for x in items):
                h = empty_map(t)        # { {key, value}, ... }: inserted in this order
                for x in items:
                    h = hash_insert(ex, h, hkey(ex, h, x.f['first']), pack(ex.conv(x.f['second'], h.vt), h.vt))
                return h
            L('map constructor')
        if is_list_type(t):
            if not vals:
                return ListV(Empty(zsort(t)), t[2][0])
            if isinstance(vals[0], ListV):
                return vals[0]
            return ex.conv(vals[0], t)
        if t[1] in ('QPair', 'std::pair'):
            nm = pair_name(t)
            if not vals:
                return unpack(default_z(t), t)
            if len(vals) == 1 and isinstance(vals[0], StructV):
                return vals[0]
            cv = lambda v, at, ty: mkvar(ex, v, at) if ty == T_VAR else as_str(ex, v) if ty == T_STR else ex.conv(v, ty)
            return StructV(nm, {'first': cv(vals[0], argtypes[0], t[2][0]), 'second': cv(vals[1], argtypes[1], t[2][1])})
        if len(vals) == 1 and isinstance(vals[0], IterV):
            return vals[0]
        return Opaque(t, uf('new_' + tname(t), zargs(ex, vals), IntSort()) if vals else default_z(t))
    if t[0] in ('int', 'bool', 'ptr') and vals:
        return vals[0]
    if vals and isinstance(vals[0], IterV):
        return vals[0]
    L('construct %r' % (t,))


def construct_object(ex, cls, ref, args, n):
    Event = ev_mod()
    if cls == 'QTimer':
        if len(args) == 1 and (z3.is_expr(args[0]) and args[0].sort() == IntSort() or isinstance(args[0], int)):
            ex.assume(uf('qparent', [iv(ref)], IntSort()) == iv(args[0]))
        timer_set(ex, ref, 'interval', 0)
        timer_set(ex, ref, 'single', BoolVal(False))
        timer_set(ex, ref, 'active', BoolVal(False))
    ex.log.append(Event('New', cls=cls, ref=ref))
    ex.ghost.setdefault('ctorargs', []).append((cls, ref, args))


def operator(ex, name, args, n):
    from ex import Loc
    a0 = ex.ev(args[0])
    v0 = ex.load(a0)
    t = ex.ty(n)
    if name == 'operator=' and len(args) == 2:
        v1 = ex.rv(args[1])
        t0 = ex.ty(args[0])
        a0.write(ex, ex.conv(v1, t0))
        return a0
    if isinstance(v0, Py) and v0.kind in ('dsw', 'dsr'):
        if name == 'operator<<':
            ds_write(ex, v0, ex.rv(args[1]), ex.ty(args[1]))
            return a0
        if name == 'operator>>':
            dst = ex.ev(args[1])
            ds_read(ex, a0, v0, dst, ex.ty(args[1]))
            return a0
    if isinstance(v0, Py) and v0.kind == 'debug':
        if getattr(v0, 'out', None):
            ex.log.append(ev_mod()('Print', args=[ex.rv(a) for a in args[1:]]))
            return v0
        ex.check_pure(n)
        return v0
    if isinstance(v0, IterV):
        if name == 'operator*':
            return iter_deref(ex, v0)
        if name in ('operator++', 'operator--'):
            new = iter_step(ex, v0, 1 if name == 'operator++' else -1)
            a0.write(ex, new)
            return v0 if len(args) == 2 else a0
        if name in ('operator!=', 'operator=='):
            return iter_cmp(ex, name[8:], v0, ex.rv(args[1]))
        if name == 'operator->':
            return v0
    if name == 'operator[]':
        i = ex.rv(args[1])
        if isinstance(v0, BA):
            from ex import LListElem
            ex.oblige('index-in-range', And(iv(i) >= 0, iv(i) < Length(v0.s)), ('safety',))
            if isinstance(a0, Loc) and not isconst_node(n):
                return LListElem(a0, iv(i), ('int', 8, True))
            return ba_at(ex, v0, i)
        if isinstance(v0, HashV):
            return m_hash(ex, a0, 'operator[]', [i], n, ex.ty(args[0]))
        if isinstance(v0, ListV):
            return m_list(ex, a0, 'operator[]', [i], n, ex.ty(args[0]))
    if name in ('operator+=', 'operator<<') and isinstance(v0, (BA, ListV)) :
        v1 = ex.rv(args[1])
        if isinstance(v0, BA):
            return m_bytearray(ex, a0, 'append', [v1], n)
        return m_list(ex, a0, 'append', [v1], n, ex.ty(args[0]))
    if len(args) == 2:
        v1 = ex.rv(args[1])
        if name == 'operator+=' and z3.is_expr(v0) and v0.sort() == Str:
            a0.write(ex, Concat(v0, as_str(ex, v1)))
            return a0
        if name == 'operator+':
            if t == T_STR or t[0] == 'tmpl' and t[1] == 'QStringBuilder':
                return Concat(as_str(ex, v0), as_str(ex, v1))
            if t == T_BA:
                return BA(cat(as_bytes(ex, v0), as_bytes(ex, v1)))
            if isinstance(v0, ListV):
                return ListV(cat(v0.s, v1.s if isinstance(v1, ListV) else Unit(pack(v1, v0.et))), v0.et)
        if name in ('operator==', 'operator!='):
            r = equal(ex, v0, v1)
            if name == 'operator!=':
                return (not r) if isinstance(r, bool) else Not(r)
            return r
        if name in ('operator|', 'operator&', 'operator|=', 'operator&='):
            r = ex.arith(name[8], v0, v1, ('int', 32, True))
            if name.endswith('=') and len(name) == 10:
                a0.write(ex, r)
                return a0
            return r
        if name in ('operator<', 'operator>', 'operator<=', 'operator>='):
            r = uf('cmp_' + {'<': 'lt', '>': 'gt', '<=': 'le', '>=': 'ge'}[name[8:]], zargs(ex, [v0, v1]), BoolSort())
            return r
    if name == 'operator!' and len(args) == 1:
        r = ex.tobool(v0)
        return Not(r) if not isinstance(r, bool) else not r
    if name == 'operator->' and isinstance(v0, (PtrTo,)):
        return v0
    L('operator ' + name)


def equal(ex, a, b):
    if isinstance(a, BA) or isinstance(b, BA):
        if isinstance(a, BA) and isinstance(b, BA):
            return a.s == b.s
        x, y = (a, b) if isinstance(a, BA) else (b, a)
        if z3.is_expr(y) and y.sort() == Str:
            return fromutf8(ex, x.s) == y
        return x.s == as_bytes(ex, y)
    if z3.is_expr(a) and a.sort() == Str or z3.is_expr(b) and b.sort() == Str:
        return as_str(ex, a) == as_str(ex, b)
    if isinstance(a, CStr) and isinstance(b, CStr):
        return a.b == b.b
    if z3.is_expr(a) and z3.is_expr(b) and a.sort() != b.sort():
        return uf('qt_eq', [a, b], BoolSort())
    if isinstance(a, StructV) and isinstance(b, StructV):
        return eqv(a, b)
    return eqv(a, b)
