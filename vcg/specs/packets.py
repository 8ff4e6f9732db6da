"""Contracts: TunnelProxyClient::processData  (stream reassembly)"""
from vals import *
from ex import *
from loops import Fold
from task import task, TASKS
from specs.slip import enc, dec, END, ESC, SLIP, need_fn
import qt as QT

QBA = ba_sort()
PKTS = SeqSort(QBA)
CL = 'TunnelProxyClient'


def mk(s):
    return QBA.constructor(0)(s, BoolVal(False))


def payload_ok(b):
    """representation invariant of the SLIP buffer: data that already ended carries a payload"""
    return And(dec.inv((), dec(b)), Or(dec(b)[0] != 3, Length(dec(b)[1]) > 0))


def _rs_step(ps, prev, x):
    buf, pk = prev
    st, out = dec(buf)
    keep = And(Length(buf) > 0, Or(st == 0, st == 3))
    return [If(x == END, Empty(Bytes), Concat(buf, Unit(x))), If(And(x == END, keep), Concat(pk, Unit(mk(out))), pk)]


def _rs_hyps(ps, prev, x):
    n = dec.step((), dec(prev[0]), x)
    u = Concat(prev[0], Unit(x))
    return dec.base_ax() + [dec(u)[0] == n[0], dec(u)[1] == n[1]]


# stream reassembly: (bytes buffered so far, frames delivered), starting from buffer b0
rs = Fold('rs', IntSort(), [('buf', Bytes, lambda b0: b0), ('pkts', PKTS, lambda b0: Empty(PKTS))], _rs_step, params=[('b0', Bytes)],
          inv=lambda ps, c: Implies(payload_ok(ps[0]), payload_ok(c[0])), inv_hyps=_rs_hyps)

OPEN, CLOSE, NL = 123, 125, 10


def ends_obj(s):
    n = Length(s)
    return And(n >= 1, s[n - 1] == CLOSE)


def splits_at(s, j):
    return And(j >= 0, j + 2 < Length(s), s[j] == CLOSE, s[j + 1] == NL, s[j + 2] == OPEN)


def no_split(s):
    j = Int('js')
    return ForAll([j], Not(splits_at(s, j)), patterns=[s[j]])


def _join_step(ps, prev, x):
    return [Concat(prev[0], QBA.accessor(0, 0)(x), Unit(IntVal(NL))), And(prev[1], ends_obj(QBA.accessor(0, 0)(x)))]


# join: the packets, each followed by the newline it was split at; all of them end in '}'
join = Fold('join', QBA, [('out', Bytes, lambda: Empty(Bytes)), ('ok', BoolSort(), lambda: BoolVal(True))], _join_step)


def concat_ends(a, t, whole):
    n, m = Length(t), Length(whole)
    return Implies(whole == Concat(a, t), And(m == Length(a) + n, Implies(n >= 1, whole[m - 1] == t[n - 1]), Implies(n >= 2, whole[m - 2] == t[n - 2])))


@task('json_lemmas', ['C04'])
def json_lemmas(g):
    a, t = Const('a', Bytes), Const('t', Bytes)
    w = Const('w', Bytes)
    g.lemma('concat-ends', [], concat_ends(a, t, w), ('C04',))


@task('stream_lemmas', ['C03'])
def stream_lemmas(g):
    b, s, t, p = (Const(n, Bytes) for n in ('b', 's', 't', 'p'))
    x = Int('x')
    g.fold(rs)

    def step(b0, u, c):
        n = rs.step((b0,), rs(u, b0), c)
        return [rs(Concat(u, Unit(c)), b0)[0] == n[0], rs(Concat(u, Unit(c)), b0)[1] == n[1]]
    # chunk independence, by induction on t:
    #   rs(b; s.t) = (rs(rs(b;s).buf; t).buf,  rs(b;s).pkts . rs(rs(b;s).buf; t).pkts)
    m = rs(s, b)[0]

    def claim(t_):
        return And(rs(cat(s, t_), b)[0] == rs(t_, m)[0], rs(cat(s, t_), b)[1] == Concat(rs(s, b)[1], rs(t_, m)[1]))
    e = Empty(Bytes)
    g.lemma('chunk-independence-base', rs.base_ax((m,)), And(rs(s, b)[0] == rs(e, m)[0], rs(s, b)[1] == Concat(rs(s, b)[1], rs(e, m)[1])), ('C03',))
    st = Concat(s, t)
    g.lemma('chunk-independence-step', [rs(st, b)[0] == rs(t, m)[0], rs(st, b)[1] == Concat(rs(s, b)[1], rs(t, m)[1])] + step(b, st, x) + step(m, t, x),
            And(rs(Concat(st, Unit(x)), b)[0] == rs(Concat(t, Unit(x)), m)[0],
                rs(Concat(st, Unit(x)), b)[1] == Concat(rs(s, b)[1], rs(Concat(t, Unit(x)), m)[1])), ('C03',))
    # an encoded payload without its terminator is only buffered
    en = enc(p)[0]

    def only_buffered(u):
        return And(rs(u, e)[0] == u, rs(u, e)[1] == Empty(PKTS))
    g.lemma('encoded-is-buffered-base', rs.base_ax((e,)) + enc.base_ax(), only_buffered(e), ('C03',))
    for nm, cond, extra in (('plain', And(x != END, x != ESC), [x]), ('end', x == END, [IntVal(ESC), IntVal(0xDC)]), ('esc', x == ESC, [IntVal(ESC), IntVal(0xDD)])):
        u, ax = en, []
        for c in extra:
            ax += step(e, u, c)
            u = Concat(u, Unit(c))
        g.lemma('encoded-is-buffered-step-' + nm, [only_buffered(en), cond, And(x >= 0, x <= 255), enc(Concat(p, Unit(x)))[0] == enc.step((), enc(p), x)[0],
                                                   u == Concat(en, *[Unit(c) for c in extra])] + ax, only_buffered(enc(Concat(p, Unit(x)))[0]), ('C03',))
    # END delivers exactly the payload and leaves nothing behind
    g.lemma('frame-delivered', [only_buffered(en), dec(en)[0] == 0, dec(en)[1] == p, Length(p) > 0, Implies(Length(en) == 0, Length(p) == 0)] + step(e, en, IntVal(END)),
            And(rs(Concat(en, Unit(IntVal(END))), e)[0] == e, rs(Concat(en, Unit(IntVal(END))), e)[1] == Unit(mk(p))), ('C03',))
    g.lemma('empty-encoding-base', enc.base_ax(), Implies(Length(enc(e)[0]) == 0, Length(e) == 0), ('C03',))
    g.lemma('empty-encoding-step', [enc(Concat(p, Unit(x)))[0] == enc.step((), enc(p), x)[0]], Length(enc(Concat(p, Unit(x)))[0]) > 0, ('C03',))
    # whatever was buffered, the byte END empties the buffer: a bad frame cannot affect later ones
    g.lemma('end-resynchronises', step(b, s, IntVal(END)), rs(Concat(s, Unit(IntVal(END))), b)[0] == e, ('C03',))


def client_pre(ex, this):
    ex.assume(this > 0)


def heap_frame(ex, allowed, tags, what):
    """only the listed (class, field) cells of the listed objects changed"""
    for key, arr in ex.heap.items():
        a0 = ex.heap0.get(key)
        if a0 is None or arr.eq(a0):
            continue
        refs = allowed.get(key)
        if refs is None:
            ex.oblige('%s: %s.%s unchanged' % (what, key[0].split('::')[-1], key[1]), arr == a0, tags)
        elif refs != 'any':
            o = Int('o_frame')
            ex.oblige('%s: %s.%s changed only where allowed' % (what, key[0].split('::')[-1], key[1]),
                      Implies(And(*[o != r for r in refs]), ex.sel(arr, o) == ex.sel(a0, o)), tags)


BUF = ('remoteproxy::TransportClient', 'm_dataBuffer')


def quiet(ex, what, tags):
    bad = [e for e in ex.log if getattr(e, 'kind', '') not in ('New',)]
    ex.oblige(what + ': no other effect', not bad, tags, detail=str(bad)[:200])


@task('client_processData_slip', ['C03'], ['TunnelProxyClient::processData'], heavy=5)
def pd_slip(g):
    def body(ex):
        fn = need_fn(g, 'remoteproxy::TunnelProxyClient::processData', 1)
        this = Int('client')
        client_pre(ex, this)
        ex.frames.append(Frame(fn, this, fn.tu, fn.cls))
        b0 = ex.getf(this, BUF[0], BUF[1], T_BA)
        slip = ex.getf(this, BUF[0], 'm_slipEnabled', T_BOOL)
        ex.assume(slip)
        ex.assume(payload_ok(b0.s))
        for a in dec.base_ax():
            ex.assume(a)
        d = Const('data', Bytes)
        r = ex.load(ex.call_fn(fn, this, argvals=[BA(d)]))
        b1 = ex.getf(this, BUF[0], BUF[1], T_BA)
        ex.oblige('stream: the delivered frames are exactly the decoded well-formed frames', r.s == rs(d, b0.s)[1], ('C03',))
        ex.oblige('stream: the buffer holds exactly the bytes after the last END', b1.s == rs(d, b0.s)[0], ('C03',))
        ex.oblige('stream: the buffer invariant is kept', payload_ok(b1.s), ('C03',))
        heap_frame(ex, {BUF: [this]}, ('C03',), 'processData')
        quiet(ex, 'processData', ('C03',))
    g.verify('TunnelProxyClient::processData', body, SLIP, folds=[rs])


@task('client_processData_json', ['C03', 'C04'], ['TunnelProxyClient::processData'], heavy=5)
def pd_json(g):
    def cands(ex, L, snap, views):
        out = []
        lists = [(v, v.get0(snap)) for v in views if isinstance(v.get0(snap), ListV) and v.get0(snap).s.sort() == PKTS]
        bufs = [(v, v.get0(snap)) for v in views if isinstance(v.get0(snap), BA)]
        for v, v0 in lists:
            out.append(('join.ok(%s)' % v.name, lambda e, k, v=v: join(v.get(e).s)[1]))
            for w, w0 in bufs:
                out.append(('%s empty or %s starts an object' % (v.name, w.name),
                            lambda e, k, v=v, w=w: Or(Length(v.get(e).s) == 0, And(Length(w.get(e).s) > 0, w.get(e).s[0] == OPEN))))
                out.append(('join(%s) ++ %s == entry' % (v.name, w.name),
                            lambda e, k, v=v, w=w, v0=v0, w0=w0: Concat(join(v.get(e).s)[0], w.get(e).s) == Concat(join(v0.s)[0], w0.s)))
        return out

    def hook_append(ex, old, elem, new):
        # unfold join for every list append
        n = join.step((), join(old), elem)
        ex.assume(And(join(new)[0] == n[0], join(new)[1] == n[1]))

    def body(ex):
        fn = need_fn(g, 'remoteproxy::TunnelProxyClient::processData', 1)
        this = Int('client')
        client_pre(ex, this)
        ex.frames.append(Frame(fn, this, fn.tu, fn.cls))
        for a in join.base_ax():
            ex.assume(a)
        b0 = ex.getf(this, BUF[0], BUF[1], T_BA)
        slip = ex.getf(this, BUF[0], 'm_slipEnabled', T_BOOL)
        ex.assume(Not(slip))
        d = Const('data', Bytes)
        r = ex.load(ex.call_fn(fn, this, argvals=[BA(d)]))
        b1 = ex.getf(this, BUF[0], BUF[1], T_BA).s
        R, B = r.s, Concat(b0.s, d)
        n = Length(R)
        head = Extract(R, IntVal(0), n - 1)
        last = R[n - 1]
        ls = QBA.accessor(0, 0)(last)
        # unfold join on the last element of the result
        ex.assume(Implies(n > 0, And(R == Concat(head, Unit(last)), join(R)[0] == join.step((), join(head), last)[0], join(R)[1] == join.step((), join(head), last)[1])))
        tail_open = And(Concat(join(R)[0], b1) == B, join(R)[1])
        tail_done = And(n > 0, Length(b1) == 0, Concat(join(head)[0], ls) == B, join(head)[1])
        m = Length(B)
        for J, t in ((join(R)[0], b1), (join(head)[0], ls)):
            ex.assume(concat_ends(J, t, B))
        complete = Or(And(m >= 1, B[m - 1] == CLOSE), And(m >= 2, B[m - 2] == CLOSE, B[m - 1] == NL))
        ex.oblige('json: packets and buffer together are exactly the received bytes, cut only at newlines after a closing brace', Or(tail_open, tail_done), ('C04',))
        ex.oblige('json: data ending in a closing brace is delivered completely', Implies(complete, tail_done), ('C04',))
        ex.oblige('json: data not ending in a closing brace stays buffered from the last cut', Implies(Not(complete), tail_open), ('C04',))
        ex.oblige('json: after a delivered packet the buffer is empty or starts the next object', Implies(n > 0, Or(Length(b1) == 0, b1[0] == OPEN)), ('C03', 'C04'))
        j = Int('js')
        ex.instantiate(j)
        ex.oblige('json: no cut point is left in the buffer', Not(splits_at(b1, j)), ('C04',))
        heap_frame(ex, {BUF: [this]}, ('C04',), 'processData')
        quiet(ex, 'processData', ('C04',))
    g.verify('TunnelProxyClient::processData', body, SLIP, loop_cands=cands, on_append=hook_append)
