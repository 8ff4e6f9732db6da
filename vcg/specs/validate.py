"""Contracts of the parameter validation (JsonTypes) and of what the handlers publish."""
from vals import *
from ex import *
from task import task, TASKS
from contracts import Fn, Contract
from specs.slip import need_fn
import qt as QT
from specs.core import *
from specs.jsonrpc import JH, RP, TPH, JT, T_SS, T_SM, T_VRES, valid
from specs.handlers import *

T_VL = T_LIST


def valid_var(t, v): return uf('valid_var', [t, v], BoolSort())
def valid_list(t, l): return uf('valid_list', [t, l], BoolSort())
def valid_enum(l, v): return uf('valid_enum', [l, v], BoolSort())
def valid_prop(t, v): return uf('valid_prop', [t, v], BoolSort())


def verdict(name):
    """a validation function: its result says what the predicate `name` says (proved in its own task)"""
    def f(ex, this, args, node):
        zs = [pack(a, t) for a, t in zip(args, {'map': (T_MAP, T_MAP), 'list': (T_VL, T_VL), 'enum': (T_VL, T_VAR), 'var': (T_VAR, T_VAR), 'prop': (T_VAR, T_VAR), 'basic': (T_VAR,)}[name])]
        return StructV(pair_name(T_VRES), {'first': uf('valid_' + name, zs, BoolSort()), 'second': ex.fresh('msg', Str)})
    return Fn(f)


def type_names(g):
    """the published names of the basic types, from the enum declaration"""
    t = g.prog.tu([f for f in g.prog.files if f.endswith('jsontypes.cpp')][0])
    pre = JT + '::BasicType::'
    return {v: k[len(pre):] for k, v in t.enumname.items() if k.startswith(pre)}


def c_typename(names):
    def f(ex, this, args, node):
        v = args[0]
        v = z3.simplify(v).as_long() if z3.is_expr(v) else v
        return StringVal(names[v])
    return Fn(f)


VALID = {JT + '::validateMap': verdict('map'), JT + '::validateVariant': verdict('var'), JT + '::validateList': verdict('list'),
         JT + '::validateEnum': verdict('enum'), JT + '::validateProperty': verdict('prop'), JT + '::validateBasicType': verdict('basic')}


def contracts(g, without):
    d = {k: v for k, v in VALID.items() if k != JT + '::' + without}
    d[JT + '::basicTypeToString|BasicType'] = c_typename(type_names(g))
    return d


OPT = 'o:'


def plain(k):
    """name of the parameter that a template key describes"""
    return QT.strip_prefix(k, OPT)


def opt_key(k):
    return Concat(StringVal(OPT), k)


def first(r):
    return b2(r.f['first'])


@task('validateMap', ['C12', 'C11'], ['JsonTypes::validateMap', 'JsonTypes::report'])
def t_validateMap(g):
    T = ('C12', 'C11')

    def key_ok(ex, t, m, w):
        """the parameter described by template key w is present unless optional, and of its type"""
        p = plain(w)
        has = ex.sel(m.dom, p)
        return And(Or(z3.PrefixOf(StringVal(OPT), w), has), Implies(has, valid_var(ex.sel(t.val, w), ex.sel(m.val, p))))

    def known(ex, t, w):
        return Or(ex.sel(t.dom, w), ex.sel(t.dom, opt_key(w)))

    def cands(ex, L, snap, views):
        t, m, a, b = ex.ghost['vm']
        w = z3.String('w')

        def c1(e, k): return ForAll([w], Implies(And(Select(t.dom, w), QT.kidx(t, w) < k), key_ok(e, t, m, w)), patterns=[Select(t.dom, w)])
        def c2(e, k): return ForAll([w], Implies(And(Select(m.dom, w), QT.kidx(m, w) < k), known(e, t, w)), patterns=[Select(m.dom, w)])
        def d1(e, k): return Implies(And(Select(t.dom, a), QT.kidx(t, a) < k), key_ok(e, t, m, a))
        def d2(e, k): return Implies(And(Select(m.dom, b), QT.kidx(m, b) < k), known(e, t, b))
        return [('template keys so far are satisfied', d1), ('parameters so far are known', d2)]

    def body(ex):
        fn = need_fn(g, JT + '::validateMap', 2)
        enter(ex, fn, None)
        t = unpack(Const('template', zsort(T_MAP)), T_MAP)
        m = unpack(Const('params', zsort(T_MAP)), T_MAP)
        # an arbitrary template key and an arbitrary parameter
        a, b = z3.String('some_key'), z3.String('some_param')
        ex.ghost['vm'] = (t, m, a, b)
        ex.assume(And(t.cnt >= 0, m.cnt >= 0))
        QT.key_fact(ex, t, a)
        QT.key_fact(ex, m, b)
        r = ex.load(ex.call_fn(fn, None, argvals=[t, m]))
        ok = first(r)
        ex.oblige('accepted parameters include every required one, each of its declared type', Implies(And(ok, ex.sel(t.dom, a)), key_ok(ex, t, m, a)), T)
        ex.oblige('accepted parameters are all known', Implies(And(ok, ex.sel(m.dom, b)), known(ex, t, b)), T)
        if not ex.prove(ok):
            # rejected: some key is to blame
            x = ex.ghost.get('lastkey')
            ws = [ks for ks in ex.ghost.get('blame', [])]
            ex.oblige('parameters are rejected only for a missing, mistyped or unknown one',
                      Or(ok, *[Or(And(ex.sel(t.dom, w), Not(key_ok(ex, t, m, w))), And(ex.sel(m.dom, w), Not(known(ex, t, w)))) for w in ws]), T)

    def on_begin(ex, L, k, seqinfo):
        if seqinfo is not None:
            s = seqinfo[0] if isinstance(seqinfo, tuple) else seqinfo
            try:
                if s.sort() == SeqSort(Str):
                    ex.ghost.setdefault('blame', []).append(s[k])
            except (AttributeError, z3.Z3Exception):
                pass
    g.verify('JsonTypes::validateMap', body, contracts(g, 'validateMap'), loop_cands=cands, on_iter_begin=on_begin)


def prop_type(ex, t, v):
    """what each published type name accepts"""
    s = QT.vout(ex, t, 'String')
    conv = lambda k: uf('v_canconvert', [v, IntVal(k)], BoolSort())
    kinds = {'Uuid': 30, 'String': 10, 'Bool': 1, 'Int': 2, 'UInt': 3}
    out = Or(s == StringVal('Variant'), s == StringVal('Object'))
    for nm, k in kinds.items():
        out = Or(out, And(s == StringVal(nm), conv(k)))
    return out


@task('validateProperty', ['C12', 'C11'], ['JsonTypes::validateProperty', 'JsonTypes::basicTypeToString'])
def t_validateProperty(g):
    def body(ex):
        fn = need_fn(g, JT + '::validateProperty', 2)
        enter(ex, fn, None)
        t, v = Const('template', Var), Const('value', Var)
        r = ex.load(ex.call_fn(fn, None, argvals=[t, v]))
        ex.oblige('a value is accepted exactly if it can be converted to its declared type', first(r) == prop_type(ex, t, v), ('C12', 'C11'))
    g.verify('JsonTypes::validateProperty', body, contracts(g, 'validateProperty'))


@task('validateVariant', ['C12', 'C11'], ['JsonTypes::validateVariant'])
def t_validateVariant(g):
    def body(ex):
        fn = need_fn(g, JT + '::validateVariant', 2)
        enter(ex, fn, None)
        t, v = Const('template', Var), Const('value', Var)
        ty = QT.vt_of(t) if hasattr(QT, 'vt_of') else vt_of(t)
        s = QT.vout(ex, t, 'String')
        ref = z3.PrefixOf(StringVal('$ref:'), s)
        basic, err = s == StringVal('$ref:BasicType'), s == StringVal('$ref:TunnelProxyError')
        ex.assume(Implies(And(ty == 10, ref), Or(basic, err)))      # the only references that are published
        ex.assume(Implies(ty == 9, Length(QT.vout(ex, t, 'List')) == 1))
        r = ex.load(ex.call_fn(fn, None, argvals=[t, v]))
        ok = first(r)
        T = ('C12', 'C11')
        ex.oblige('a value of basic type is judged by its declared type', Implies(And(ty == 10, Not(ref)), ok == valid_prop(t, v)), T)
        ex.oblige('a nested object is judged by its template', Implies(ty == 8, ok == uf('valid_map', [QT.vout(ex, t, 'Map'), QT.vout(ex, v, 'Map')], BoolSort())), T)
        ex.oblige('a list is judged by its template', Implies(ty == 9, ok == valid_list(QT.vout(ex, t, 'List'), QT.vout(ex, v, 'List'))), T)
        ex.oblige('a template of another kind accepts nothing', Implies(And(ty != 10, ty != 8, ty != 9), Not(ok)), T)
        ex.oblige('a reference to the basic types is judged by them', Implies(And(ty == 10, basic), ok == uf('valid_basic', [v], BoolSort())), T)
        tl = uf('the_errors', [], SeqSort(Var))
        en = ex.ghost.get('enumlist')
        if en is not None:
            ex.oblige('a reference to an enum is judged by its values', Implies(And(ty == 10, err), ok == valid_enum(en, v)), T)
        else:
            ex.oblige('a reference to an enum is judged', Not(And(ty == 10, err)), T)
    def c_enum(ex, this, args, node):
        l = pack(args[0], T_VL)
        ex.ghost['enumlist'] = l
        return StructV(pair_name(T_VRES), {'first': valid_enum(l, pack(args[1], T_VAR)), 'second': ex.fresh('msg', Str)})
    cs = contracts(g, 'validateVariant')
    cs[JT + '::validateEnum'] = Fn(c_enum)
    g.verify('JsonTypes::validateVariant', body, cs)


@task('validateList', ['C12', 'C11'], ['JsonTypes::validateList', 'JsonTypes::validateEnum'])
def t_validateList(g):
    T = ('C12', 'C11')

    def body(ex):
        fn = need_fn(g, JT + '::validateList', 2)
        enter(ex, fn, None)
        t, l = unpack(Const('template', zsort(T_VL)), T_VL), unpack(Const('list', zsort(T_VL)), T_VL)
        ex.assume(Length(t.s) == 1)
        i = Int('some_index')
        ex.ghost['vl'] = (t, l, i)
        r = ex.load(ex.call_fn(fn, None, argvals=[t, l]))
        ok = first(r)
        ex.oblige('every entry of an accepted list matches', Implies(And(ok, i >= 0, i < Length(l.s)), valid_var(t.s[0], l.s[i])), T)
        if not ex.prove(ok):
            ks = ex.ghost.get('blame', [])
            ex.oblige('a list is rejected only for an entry that does not match', Or(ok, *[And(k >= 0, k < Length(l.s), Not(valid_var(t.s[0], l.s[k]))) for k in ks]), T)

    def cands(ex, L, snap, views):
        t, l, i = ex.ghost['vl']
        return [('entries so far match', lambda e, k: Implies(And(i >= 0, i < k), valid_var(t.s[0], l.s[i])))]

    def on_begin(ex, L, k, seqinfo):
        ex.ghost.setdefault('blame', []).append(k)
    g.verify('JsonTypes::validateList', body, contracts(g, 'validateList'), loop_cands=cands, on_iter_begin=on_begin)


def text(ex, v):
    return QT.vout(ex, v, 'String')


@task('validateEnum', ['C12', 'C11'], ['JsonTypes::validateEnum'])
def t_validateEnum(g):
    def any_(k, l, x):
        """one of the first k values of the enum has the name x"""
        return uf('any_name', [iv(k), l, x], BoolSort())

    def unfold(ex, L, k):
        l, x = ex.ghost['ve']
        ex.assume(Not(any_(IntVal(0), l, x)))
        ex.assume(Implies(And(k >= 0, k < Length(l)), any_(k + 1, l, x) == Or(any_(k, l, x), text(ex, l[k]) == x)))

    def cands(ex, L, snap, views):
        l, x = ex.ghost['ve']
        ex.assume(Not(any_(IntVal(0), l, x)))
        out = []
        for v in views:
            v0 = v.get0(snap)
            if isinstance(v0, ListV) and v0.s.sort() == SeqSort(Str):
                out.append(('the strings are the names so far', lambda e, k, v=v: QT.mem(e, v.get(e).s, x) == any_(k, l, x)))
        return out

    def body(ex):
        fn = need_fn(g, JT + '::validateEnum', 2)
        enter(ex, fn, None)
        l, v = unpack(Const('values', zsort(T_VL)), T_VL), Const('value', Var)
        x = text(ex, v)
        ex.ghost['ve'] = (l.s, x)
        ex.assume(Not(any_(IntVal(0), l.s, x)))
        r = ex.load(ex.call_fn(fn, None, argvals=[l, v]))
        ex.oblige('a value is accepted exactly if it is the name of one of the enum values', first(r) == any_(Length(l.s), l.s, x), ('C12', 'C11'))
    g.verify('JsonTypes::validateEnum', body, contracts(g, 'validateEnum'), loop_cands=cands, loop_assume=unfold)


# ---------------------------------------------------------------- publishing
def meta_name(ex, this, i):
    mo = uf('metaobject', [this], IntSort())
    return mo, QT.fromutf8(ex, uf('qt_QMetaMethod_name', [uf('qt_QMetaObject_method', [mo, i], IntSort())], zsort(T_BA)))


SETTERS = {'setDescription': ('m_descriptions', T_SS, T_STR), 'setParams': ('m_params', T_SM, T_MAP), 'setReturns': ('m_returns', T_SM, T_MAP)}


@task('publish', ['C12', 'C11'], ['JsonHandler::setDescription', 'JsonHandler::setParams', 'JsonHandler::setReturns'])
def t_publish(g):
    T = ('C12', 'C11')
    for name, (field, ft, vt) in SETTERS.items():
        def body(ex, name=name, field=field, ft=ft, vt=vt):
            fn = need_fn(g, JH + '::' + name, 2)
            this = Int('handler')
            ex.assume(And(this > 0, this < ex.alloc0))
            enter(ex, fn, this)
            before = {f: ex.getf(this, JH, f, t) for f, t, _ in SETTERS.values()}
            mname, val = z3.String('method'), unpack(Const('value', zsort(vt)), vt)
            ex.call_fn(fn, this, argvals=[mname, val])
            after = {f: ex.getf(this, JH, f, t) for f, t, _ in SETTERS.values()}
            vz = pack(val, vt)
            for f in before:
                a, b = before[f], after[f]
                if f != field:
                    ex.oblige('%s changes only what it sets' % name, And(a.dom == b.dom, a.val == b.val), T)
                else:
                    ex.oblige('%s publishes the given value under the given name or nothing' % name,
                              Or(And(b.dom == a.dom, b.val == a.val), And(b.dom == Store(a.dom, mname, BoolVal(True)), b.val == Store(a.val, mname, vz))), T)
        g.verify('JsonHandler::' + name, body, {})


def c_set(name):
    """setDescription / setParams / setReturns for a name that the class declares (a name it does not declare is not published)"""
    field, ft, vt = SETTERS[name]

    def f(ex, this, args, node):
        h = ex.getf(this, JH, field, ft)
        k = args[0]
        k = StringVal(k.b.decode()) if isinstance(k, CStr) else k
        ex.log.append(Event('Publish', what=name, name=z3.simplify(k), value=args[1]))
        ex.setf(this, JH, field, ft, QT.hash_insert(ex, h, k, pack(ex.conv(args[1], vt), vt)))
    return Fn(f)


PUBLISHED = {
    TPH: {'RegisterServer': {'serverName': 'String', 'serverUuid': 'Uuid'}, 'DisconnectClient': {'socketAddress': 'UInt'}, 'Ping': {'timestamp': 'UInt'},
          'RegisterClient': {'clientName': 'String', 'clientUuid': 'Uuid', 'serverUuid': 'Uuid'}},
    JR: {'Hello': {}, 'Introspect': {}},
}


@task('published', ['C12', 'C11'], ['TunnelProxyHandler::TunnelProxyHandler', 'JsonRpcServer::JsonRpcServer'])
def t_published(g):
    T = ('C12', 'C11')
    for cls, methods in PUBLISHED.items():
        def body(ex, cls=cls, methods=methods):
            fn = need_fn(g, cls + '::' + cls.split('::')[-1], 1)
            this = Int('handler')
            ex.assume(And(this > 0, this < ex.alloc0))
            enter(ex, fn, this)
            for f, t, _ in SETTERS.values():
                ex.setf(this, JH, f, t, unpack(default_z(t), t))
            ex.call_fn(fn, this, argvals=[IntVal(0)], is_ctor=True)
            pub = {}
            for e in ex.log:
                if e.kind == 'Publish':
                    nm = e.name.as_string() if z3.is_string_value(e.name) else None
                    ex.oblige('the published names are known', nm is not None, T)
                    pub.setdefault(nm, {})[e.what] = e.value
            full = sorted(n for n, d in pub.items() if len(d) == 3)
            ex.oblige('every executable method is one that is verified', set(full) <= set(methods), T, detail=str(full))
            ex.oblige('every documented method is published', set(methods) <= set(full), T, detail=str(full))
            dom = [ex.getf(this, JH, f, t) for f, t, _ in SETTERS.values()]
            any_ = z3.String('any_name')
            ex.oblige('nothing else is executable', Implies(And(*[ex.sel(d.dom, any_) for d in dom]), Or(*[any_ == StringVal(m) for m in full])), T)
            pm = ex.getf(this, JH, 'm_params', T_SM)
            for m, tmpl in methods.items():
                if m not in full:
                    continue
                got = unpack(ex.sel(pm.val, StringVal(m)), T_MAP)
                for k, ty in tmpl.items():
                    d, x = vmap_get(ex, got, k)
                    ex.oblige('%s requires the parameter %s of its type' % (m, k), And(d, x == vinj('String')(StringVal(ty))), T)
                k = z3.String('any_key')
                ex.oblige('%s takes no other parameter' % m, Implies(ex.sel(got.dom, k), Or(*[k == StringVal(x) for x in tmpl])), T)
        cs = {JH + '::' + n: c_set(n) for n in SETTERS}
        cs[JT + '::basicTypeToString|BasicType'] = c_typename(type_names(g))
        cs[JT + '::tunnelProxyErrorRef'] = Fn(lambda ex, this, args, node: StringVal('$ref:TunnelProxyError'))
        g.verify(cls.split('::')[-1] + '::' + cls.split('::')[-1], body, cs)
