"""Types, sorts and values of the symbolic semantics."""
import re
import z3
from z3 import (And, Or, Not, Implies, If, IntVal, BoolVal, IntSort, BoolSort, StringSort, SeqSort, ArraySort,
                Function, Const, Datatype, Select, Store, K, Length, Concat, Unit, Empty, Extract, StringVal,
                is_true, is_false, is_int_value, DeclareSort, ForAll, Exists, Int, Bool, Array)
from frontend import strip_cv

Bytes = SeqSort(IntSort())
Var = DeclareSort('QVariant')
Str = StringSort()

INTS = {
    'char': (8, True), 'signed char': (8, True), 'unsigned char': (8, False), 'short': (16, True),
    'unsigned short': (16, False), 'int': (32, True), 'unsigned int': (32, False), 'unsigned': (32, False),
    'long': (64, True), 'unsigned long': (64, False), 'long long': (64, True), 'unsigned long long': (64, False),
    'quint8': (8, False), 'qint8': (8, True), 'quint16': (16, False), 'qint16': (16, True), 'quint32': (32, False),
    'qint32': (32, True), 'quint64': (64, False), 'qint64': (64, True), 'uint': (32, False), 'ushort': (16, False),
    'uchar': (8, False), 'ulong': (64, False), 'qulonglong': (64, False), 'qlonglong': (64, True),
    'size_t': (64, False), 'std::size_t': (64, False), 'qsizetype': (64, True), 'qintptr': (64, True),
    'uint8_t': (8, False), 'uint16_t': (16, False), 'uint32_t': (32, False), 'uint64_t': (64, False),
    'int8_t': (8, True), 'int16_t': (16, True), 'int32_t': (32, True), 'int64_t': (64, True), 'qreal': None,
}

ALIAS = {'QVariantMap': 'QMap<QString, QVariant>', 'QVariantList': 'QList<QVariant>', 'QVariantHash': 'QHash<QString, QVariant>',
         'QByteArrayList': 'QList<QByteArray>', 'QStringList': 'QList<QString>', 'QObjectList': 'QList<QObject *>'}


class ToolLimit(Exception):
    """The code uses something the verifier has no semantics for (never a violation)."""


def split_targs(s):
    out, d, cur = [], 0, ''
    for ch in s:
        if ch in '<(':
            d += 1
        if ch in '>)':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


_tcache = {}


def parse_type(s):
    """-> canonical tuple: ('void',) ('bool',) ('int',bits,signed) ('float',) ('ptr',T) ('tmpl',name,[..]) ('cls',name)"""
    if s in _tcache:
        return _tcache[s]
    t = strip_cv(s)
    r = None
    if t.endswith('*const'):
        t = t[:-5].strip()
    if t.endswith('*'):
        r = ('ptr', parse_type(t[:-1]))
    elif t == 'void':
        r = ('void',)
    elif t == 'bool':
        r = ('bool',)
    elif t in ('double', 'float', 'qreal', 'long double'):
        r = ('float',)
    elif t in INTS and INTS[t]:
        r = ('int',) + INTS[t]
    elif t in ALIAS:
        r = parse_type(ALIAS[t])
    elif '(lambda' in t:
        r = ('lambda',)
    elif t.endswith(')') or '(*)' in t:
        r = ('fn', t)
    elif t.startswith('std::nullptr_t') or t == 'nullptr_t':
        r = ('ptr', ('void',))
    elif t.endswith('>'):
        i = t.index('<')
        name = t[:i]
        r = ('tmpl', name, tuple(parse_type(x) for x in split_targs(t[i + 1:-1])))
    else:
        r = ('cls', t)
    _tcache[s] = r
    return r


def is_map_type(t):
    return t[0] == 'tmpl' and t[1] in ('QHash', 'QMap', 'std::map', 'std::unordered_map')


def is_list_type(t):
    return t[0] == 'tmpl' and t[1] in ('QList', 'QVector', 'std::vector', 'std::list', 'QQueue', 'QLinkedList', 'QStack', 'std::deque')


# --- composite values ---------------------------------------------------------
class BA:
    __slots__ = ('s', 'null')

    def __init__(self, s, null=None):
        self.s = s
        self.null = BoolVal(False) if null is None else null


class HashV:
    __slots__ = ('dom', 'val', 'cnt', 'kt', 'vt')

    def __init__(self, dom, val, cnt, kt, vt):
        self.dom, self.val, self.cnt, self.kt, self.vt = dom, val, cnt, kt, vt


class ListV:
    __slots__ = ('s', 'et')

    def __init__(self, s, et):
        self.s, self.et = s, et


class StructV:
    __slots__ = ('name', 'f')

    def __init__(self, name, f):
        self.name, self.f = name, dict(f)


class PtrTo:
    __slots__ = ('loc',)

    def __init__(self, loc):
        self.loc = loc


class CStr:
    __slots__ = ('b',)

    def __init__(self, b):
        self.b = b


class Closure:
    def __init__(self, node, env, this, tu, cls):
        self.node, self.env, self.this, self.tu, self.cls = node, env, this, tu, cls


class FnRef:
    """pointer to (member) function"""

    def __init__(self, q, decl=None):
        self.q, self.decl = q, decl


class IterV:
    __slots__ = ('loc', 'cont', 'idx', 'keys')

    def __init__(self, loc, cont, idx, keys=None):
        self.loc, self.cont, self.idx, self.keys = loc, cont, idx, keys


class Py:
    """Python side value with attributes (QDataStream, json docs, ...)"""

    def __init__(self, kind, **kw):
        self.kind = kind
        self.__dict__.update(kw)

    def with_(self, **kw):
        d = dict(self.__dict__)
        d.update(kw)
        k = d.pop('kind')
        return Py(k, **d)


class Opaque:
    """value of an unmodelled (Qt) value class: an element of an uninterpreted carrier"""
    __slots__ = ('t', 'e')

    def __init__(self, t, e):
        self.t, self.e = t, e


# --- sorts ---------------------------------------------------------------------
_dt = {}


def tname(t):
    if t[0] == 'ptr':
        return 'P'
    if t[0] == 'int':
        return 'I'
    if t[0] == 'tmpl':
        return t[1].replace('::', '_') + '_' + '_'.join(tname(x) for x in t[2])
    if t[0] == 'cls':
        return t[1].replace('::', '_')
    return t[0]


def ba_sort():
    if 'BA' not in _dt:
        d = Datatype('QBA')
        d.declare('mkBA', ('ba_s', Bytes), ('ba_null', BoolSort()))
        _dt['BA'] = d.create()
    return _dt['BA']


def map_sort(kt, vt):
    ks, vs = zsort(kt), zsort(vt)
    key = 'H_%s_%s' % (ks, vs)
    key = re.sub(r'[^A-Za-z0-9_]', '_', key)
    if key not in _dt:
        d = Datatype(key)
        d.declare('mk' + key, ('dom_' + key, ArraySort(ks, BoolSort())), ('val_' + key, ArraySort(ks, vs)), ('cnt_' + key, IntSort()))
        _dt[key] = d.create()
    return _dt[key]


STRUCTS = {}   # struct type name -> [(field, type)]


def struct_sort(name):
    key = 'S_' + name.replace('::', '_')
    key = re.sub(r'[^A-Za-z0-9_]', '_', key)
    if key not in _dt:
        d = Datatype(key)
        d.declare('mk' + key, *[(key + '_' + f, zsort(t)) for f, t in STRUCTS[name]])
        _dt[key] = d.create()
    return _dt[key]


def is_struct(t):
    return t[0] == 'cls' and t[1] in STRUCTS


def pair_name(t):
    n = 'QPair_' + '_'.join(tname(x) for x in t[2])
    if n not in STRUCTS:
        STRUCTS[n] = [('first', t[2][0]), ('second', t[2][1])]
    return n


def zsort(t):
    k = t[0]
    if k == 'bool':
        return BoolSort()
    if k in ('int', 'ptr', 'enum'):
        return IntSort()
    if k == 'float':
        return z3.RealSort()
    if k == 'cls':
        n = t[1]
        if n == 'QByteArray':
            return ba_sort()
        if n == 'QString':
            return Str
        if n == 'QVariant':
            return Var
        if n in STRUCTS:
            return struct_sort(n)
        return IntSort()
    if k == 'tmpl':
        if is_map_type(t):
            return map_sort(t[2][0], t[2][1])
        if is_list_type(t):
            return SeqSort(zsort(t[2][0]))
        if t[1] in ('QPair', 'std::pair'):
            return struct_sort(pair_name(t))
        return IntSort()
    raise ToolLimit('no sort for type %r' % (t,))


def b2(x):
    """lift python bool"""
    return BoolVal(x) if isinstance(x, bool) else x


def iv(x):
    if isinstance(x, bool):
        return IntVal(1 if x else 0)
    return IntVal(x) if isinstance(x, int) else x


def pack(v, t):
    """value -> single z3 expression of zsort(t)"""
    if isinstance(v, BA):
        S = ba_sort()
        return S.constructor(0)(v.s, b2(v.null))
    if isinstance(v, HashV):
        S = map_sort(v.kt, v.vt)
        return S.constructor(0)(v.dom, v.val, iv(v.cnt))
    if isinstance(v, ListV):
        return v.s
    if isinstance(v, StructV):
        S = struct_sort(v.name)
        return S.constructor(0)(*[pack(v.f[f], ft) for f, ft in STRUCTS[v.name]])
    if isinstance(v, Opaque):
        return iv(v.e)
    if isinstance(v, bool):
        return BoolVal(v)
    if isinstance(v, int):
        return IntVal(v)
    if z3.is_expr(v):
        return v
    if isinstance(v, (PtrTo, Closure, FnRef, Py, CStr, IterV)):
        raise ToolLimit('cannot store %s into a %r' % (type(v).__name__, t))
    raise ToolLimit('pack %r' % (v,))


def _proj(e, S, i):
    # constructor application: take the component
    if z3.is_app(e) and e.decl().eq(S.constructor(0)):
        return e.arg(i)
    return S.accessor(0, i)(e)


def unpack(e, t):
    """z3 expression of zsort(t) -> value"""
    k = t[0]
    if k in ('bool', 'int', 'ptr', 'enum', 'float'):
        return e
    if k == 'cls':
        n = t[1]
        if n == 'QByteArray':
            S = ba_sort()
            return BA(_proj(e, S, 0), _proj(e, S, 1))
        if n in ('QString', 'QVariant', 'QUuid'):
            return e
        if n in STRUCTS:
            S = struct_sort(n)
            return StructV(n, {f: unpack(_proj(e, S, i), ft) for i, (f, ft) in enumerate(STRUCTS[n])})
        return Opaque(t, e)
    if k == 'tmpl':
        if is_map_type(t):
            S = map_sort(t[2][0], t[2][1])
            return HashV(_proj(e, S, 0), _proj(e, S, 1), _proj(e, S, 2), t[2][0], t[2][1])
        if is_list_type(t):
            return ListV(e, t[2][0])
        if t[1] in ('QPair', 'std::pair'):
            n = pair_name(t)
            S = struct_sort(n)
            return StructV(n, {f: unpack(_proj(e, S, i), ft) for i, (f, ft) in enumerate(STRUCTS[n])})
        return Opaque(t, e)
    raise ToolLimit('unpack %r' % (t,))


def default_z(t):
    """default z3 element used as the 'value()' default"""
    k = t[0]
    if k == 'bool':
        return BoolVal(False)
    if k in ('int', 'ptr', 'enum'):
        return IntVal(0)
    if k == 'float':
        return z3.RealVal(0)
    if k == 'cls':
        n = t[1]
        if n == 'QByteArray':
            return pack(BA(Empty(Bytes), BoolVal(True)), t)
        if n == 'QString':
            return StringVal('')
        if n == 'QVariant':
            return VNULL
        if n == 'QUuid':
            return IntVal(0)
        if n in STRUCTS:
            return pack(StructV(n, {f: unpack(default_z(ft), ft) for f, ft in STRUCTS[n]}), t)
        return z3.Int('default_' + n.replace('::', '_'))
    if k == 'tmpl':
        if is_map_type(t):
            return pack(empty_map(t), t)
        if is_list_type(t):
            return Empty(zsort(t))
        if t[1] in ('QPair', 'std::pair'):
            n = pair_name(t)
            return pack(StructV(n, {f: unpack(default_z(ft), ft) for f, ft in STRUCTS[n]}), t)
        return z3.Int('default_' + tname(t))
    raise ToolLimit('default %r' % (t,))


def empty_map(t):
    kt, vt = t[2][0], t[2][1]
    return HashV(z3.K(zsort(kt), BoolVal(False)), z3.K(zsort(kt), default_z(vt)), IntVal(0), kt, vt)


def eqv(a, b):
    """z3 equality of two values of the same type"""
    if isinstance(a, BA) and isinstance(b, BA):
        return a.s == b.s
    if isinstance(a, ListV):
        return a.s == b.s
    if isinstance(a, HashV):
        return And(a.dom == b.dom, a.val == b.val)
    if isinstance(a, StructV):
        return And(*[eqv(a.f[k], b.f[k]) for k in a.f])
    if isinstance(a, Opaque):
        return iv(a.e) == iv(b.e)
    if isinstance(a, PtrTo) or isinstance(b, PtrTo):
        if isinstance(a, PtrTo) and isinstance(b, PtrTo):
            return BoolVal(a.loc is b.loc)
        return BoolVal(False)
    if isinstance(a, (int, bool)) and isinstance(b, (int, bool)):
        return BoolVal(a == b)
    return (b2(a) if isinstance(a, bool) else iv(a)) == (b2(b) if isinstance(b, bool) else iv(b))


# --- QVariant -------------------------------------------------------------------
VNULL = Const('vnull', Var)
T_STR, T_VAR = ('cls', 'QString'), ('cls', 'QVariant')
T_MAP = ('tmpl', 'QMap', (T_STR, T_VAR))
T_LIST = ('tmpl', 'QList', (T_VAR,))
T_BA = ('cls', 'QByteArray')
T_UUID = ('cls', 'QUuid')
T_INT = ('int', 32, True)
T_BOOL = ('bool',)
vt_of = Function('vt_of', Var, IntSort())
_vinj, _vproj, _vok = {}, {}, {}
VKIND = {'Bool': 1, 'Int': 2, 'UInt': 3, 'LongLong': 4, 'ULongLong': 5, 'Double': 6, 'Map': 8, 'List': 9,
         'String': 10, 'StringList': 11, 'ByteArray': 12, 'Url': 17, 'Uuid': 30, 'DateTime': 16}
VSORT = {'Bool': BoolSort(), 'Int': IntSort(), 'UInt': IntSort(), 'LongLong': IntSort(), 'ULongLong': IntSort(),
         'Double': z3.RealSort(), 'String': Str, 'Uuid': IntSort(), 'Url': IntSort(), 'DateTime': IntSort()}


def vsort(kind):
    if kind in VSORT:
        return VSORT[kind]
    if kind == 'Map':
        return zsort(T_MAP)
    if kind == 'List':
        return zsort(T_LIST)
    if kind == 'StringList':
        return SeqSort(Str)
    if kind == 'ByteArray':
        return ba_sort()
    raise ToolLimit('variant kind ' + kind)


def vinj(kind):
    if kind not in _vinj:
        _vinj[kind] = Function('v_' + kind, vsort(kind), Var)
    return _vinj[kind]


def vproj(kind):
    if kind not in _vproj:
        _vproj[kind] = Function('v_to' + kind, Var, vsort(kind))
    return _vproj[kind]


def vok(kind):
    if kind not in _vok:
        _vok[kind] = Function('v_ok' + kind, Var, BoolSort())
    return _vok[kind]


def seq_of(bs):
    if len(bs) == 0:
        return Empty(Bytes)
    us = [Unit(IntVal(b)) for b in bs]
    return us[0] if len(us) == 1 else Concat(*us)


def cat(*xs):
    out = []
    for x in xs:
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
            out.extend(x.children())
        elif z3.is_app(x) and x.decl().kind() == z3.Z3_OP_SEQ_EMPTY:
            continue
        else:
            out.append(x)
    if not out:
        return xs[0]
    return out[0] if len(out) == 1 else Concat(*out)


_uf = {}


def uf(name, args, ret):
    """uninterpreted function applied to z3 args"""
    args = [b2(a) if isinstance(a, bool) else iv(a) if isinstance(a, int) else a for a in args]
    key = (name, tuple(a.sort().sexpr() for a in args), ret.sexpr())
    if key not in _uf:
        nm = name if not any(k[0] == name for k in _uf) else name + '!%d' % len(_uf)
        _uf[key] = Function(nm, *([a.sort() for a in args] + [ret])) if args else Const(nm, ret)
    f = _uf[key]
    return f(*args) if args else f
