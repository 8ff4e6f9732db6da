"""Contracts: common/slipdataprocessor.cpp  (SLIP codec, frame codec)"""
from vals import *
from ex import *
from loops import Fold
from task import task, TASKS

END, ESC, TEND, TESC = 0xC0, 0xDB, 0xDC, 0xDD


def _enc_step(ps, prev, x):
    e = If(x == END, seq_of([ESC, TEND]), If(x == ESC, seq_of([ESC, TESC]), Unit(x)))
    return [Concat(prev[0], e)]


enc = Fold('enc', IntSort(), [('out', Bytes, lambda *p: Empty(Bytes))], _enc_step)


def _dec_step(ps, prev, x):
    st, out = prev
    n_st = If(st == 1, If(Or(x == TEND, x == TESC), IntVal(0), IntVal(2)),
              If(st == 0, If(x == ESC, IntVal(1), If(x == END, IntVal(3), IntVal(0))), st))
    n_out = If(st == 1, If(x == TEND, Concat(out, Unit(IntVal(END))), If(x == TESC, Concat(out, Unit(IntVal(ESC))), out)),
               If(And(st == 0, x != ESC, x != END), Concat(out, Unit(x)), out))
    return [n_st, n_out]


dec = Fold('dec', IntSort(), [('st', IntSort(), lambda *p: IntVal(0)), ('out', Bytes, lambda *p: Empty(Bytes))], _dec_step,
           inv=lambda ps, c: And(c[0] >= 0, c[0] <= 3))

FRAME = 'SlipDataProcessor::Frame'


def prefix_lemma(d):
    """error (2) and finished (3) are absorbing: what a prefix decided stays decided
    (instance of lemma 'decoder-absorbing', proved in task slip_lemmas)"""
    j = Int('j')
    p = Extract(d, IntVal(0), j)
    return ForAll([j], Implies(And(j >= 0, j <= Length(d), dec(p)[0] >= 2), And(dec(d)[0] == dec(p)[0], dec(d)[1] == dec(p)[1])), patterns=[dec(p)[0]])


def dec_ax(s):
    return []


def nxt_s(s, x):
    return dec.step((), dec(s), x)


@task('slip_lemmas', ['C01', 'C02'])
def slip_lemmas(g):
    g.fold(dec)
    s, t = Const('s', Bytes), Const('t', Bytes)
    x = Int('x')
    # decoder-absorbing, by induction on t:  dst(s)>=2 -> dst(s.t)==dst(s) and dout(s.t)==dout(s)
    st = Concat(s, t)
    nxt = dec.step((), dec(st), x)
    g.lemma('decoder-absorbing-base', [dec(s)[0] >= 2], And(dec(Concat(s, Empty(Bytes)))[0] == dec(s)[0], dec(Concat(s, Empty(Bytes)))[1] == dec(s)[1]))
    g.lemma('decoder-absorbing-step', [dec(s)[0] >= 2, dec(st)[0] == dec(s)[0], dec(st)[1] == dec(s)[1]], And(nxt[0] == dec(s)[0], nxt[1] == dec(s)[1]))
    # round trip, by induction on s:  dec(enc(s)) == (0, s)
    g.lemma('slip-round-trip-base', dec.base_ax() + enc.base_ax(), And(dec(enc(Empty(Bytes))[0])[0] == 0, dec(enc(Empty(Bytes))[0])[1] == Empty(Bytes)))
    e = enc(s)[0]
    hyp = [And(dec(e)[0] == 0, dec(e)[1] == s), And(x >= 0, x <= 255)]

    def dstep(u, c):
        n = dec.step((), dec(u), c)
        return [dec(Concat(u, Unit(c)))[0] == n[0], dec(Concat(u, Unit(c)))[1] == n[1]]
    for nm, cond, extra in (('plain', And(x != END, x != ESC), [x]), ('end', x == END, [IntVal(ESC), IntVal(TEND)]), ('esc', x == ESC, [IntVal(ESC), IntVal(TESC)])):
        ax, u = [], e
        for c in extra:
            ax += dstep(u, c)
            u = Concat(u, Unit(c))
        g.lemma('slip-round-trip-step-' + nm, hyp + [cond] + ax + [enc(Concat(s, Unit(x)))[0] == enc.step((), enc(s), x)[0], u == Concat(e, *[Unit(c) for c in extra])],
                And(dec(enc(Concat(s, Unit(x)))[0])[0] == 0, dec(enc(Concat(s, Unit(x)))[0])[1] == Concat(s, Unit(x))))
    # decoder-payload: well-formed, non-empty, unterminated data carries at least one payload byte
    g.lemma('decoder-payload', [And(x >= 0, x <= 255), nxt_s(s, x)[0] == 0, Implies(And(dec(s)[0] == 0, Length(s) > 0), Length(dec(s)[1]) > 0), dec.inv((), dec(s))],
            Length(nxt_s(s, x)[1]) > 0)
    # with the terminator the decoder finishes with exactly the payload
    g.lemma('slip-round-trip', hyp[:1] + dstep(e, IntVal(END)), And(dec(Concat(e, Unit(IntVal(END))))[0] == 3, dec(Concat(e, Unit(IntVal(END))))[1] == s))
    # the encoding of a payload contains no terminator: the only END is the last byte
    g.lemma('slip-no-inner-end-base', enc.base_ax(), Not(z3.Contains(enc(Empty(Bytes))[0], Unit(IntVal(END)))))
    g.lemma('slip-no-inner-end-step', [Not(z3.Contains(e, Unit(IntVal(END))))], Not(z3.Contains(enc.step((), enc(s), x)[0], Unit(IntVal(END)))))


@task('slip_serialize', ['C01'], ['SlipDataProcessor::serializeData'])
def slip_serialize(g):
    def body(ex):
        fn = need_fn(g, 'SlipDataProcessor::serializeData', 1)
        d = Const('data', Bytes)
        r = ex.load(ex.call_fn(fn, None, argvals=[BA(d)]))
        ex.oblige('serialize: output is the escaped payload followed by END', r.s == Concat(enc(d)[0], Unit(IntVal(END))), ('C01',))
    g.verify('SlipDataProcessor::serializeData', body, folds=[enc])


@task('slip_deserialize', ['C01'], ['SlipDataProcessor::deserializeData'])
def slip_deserialize(g):
    def body(ex):
        fn = need_fn(g, 'SlipDataProcessor::deserializeData', 1)
        d = Const('data', Bytes)
        r = ex.load(ex.call_fn(fn, None, argvals=[BA(d)]))
        ex.assume(prefix_lemma(d), quant=True)
        ex.oblige('deserialize: a malformed escape sequence is rejected (null result)', Implies(Or(dec(d)[0] == 1, dec(d)[0] == 2), b2(r.null)), ('C01',))
        ex.oblige('deserialize: a non-empty well-formed payload is not rejected', Implies(And(Or(dec(d)[0] == 0, dec(d)[0] == 3), Length(dec(d)[1]) > 0), Not(b2(r.null))), ('C01',))
        ex.oblige('deserialize: well-formed data decodes to the payload before the first END', Implies(Or(dec(d)[0] == 0, dec(d)[0] == 3), r.s == dec(d)[1]), ('C01',))
    g.verify('SlipDataProcessor::deserializeData', body, folds=[dec], fold_preds=[(dec, 0, 1), (dec, 0, 2), (dec, 0, 3)])


def need_fn(g, q, n=None):
    fn = g.prog.find_fn(q, n)
    if fn is None:
        raise ToolLimit('contract binding: no function %s/%s in the current sources' % (q, n))
    return fn


def frame_value(ex, fn, addr, data):
    ex.frames.append(Frame(fn, None, fn.tu, fn.cls))
    ex.norm(parse_type(FRAME))
    if FRAME not in STRUCTS or set(f for f, _ in STRUCTS[FRAME]) != {'socketAddress', 'data'}:
        raise ToolLimit('contract binding: layout of ' + FRAME)
    return StructV(FRAME, {'socketAddress': addr, 'data': BA(data)})


@task('slip_buildFrame', ['C02'], ['SlipDataProcessor::buildFrame'])
def slip_build(g):
    def body(ex):
        fn = need_fn(g, 'SlipDataProcessor::buildFrame', 1)
        d, a = Const('data', Bytes), Int('addr')
        ex.assume(And(a >= 0, a < 65536))
        r = ex.load(ex.call_fn(fn, None, argvals=[frame_value(ex, fn, a, d)]))
        ex.oblige('buildFrame: two big-endian address bytes followed by the payload', r.s == Concat(Unit(a / 256), Unit(a % 256), d), ('C02',))
    g.verify('SlipDataProcessor::buildFrame', body)


@task('slip_parseFrame', ['C02'], ['SlipDataProcessor::parseFrame'])
def slip_parse(g):
    def body(ex):
        fn = need_fn(g, 'SlipDataProcessor::parseFrame', 1)
        d = Const('data', Bytes)
        r = ex.load(ex.call_fn(fn, None, argvals=[BA(d)]))
        ex.oblige('parseFrame: address', Implies(Length(d) >= 2, r.f['socketAddress'] == ex.byte(d[0]) * 256 + ex.byte(d[1])), ('C02',))
        ex.oblige('parseFrame: payload', Implies(Length(d) >= 2, r.f['data'].s == Extract(d, IntVal(2), Length(d) - 2)), ('C02',))
        ex.oblige('parseFrame: too short for an address', Implies(Length(d) < 2, And(r.f['socketAddress'] == 0, Length(r.f['data'].s) == 0)), ('C02',))
        a, p = Int('addr'), Const('payload', Bytes)
        ex.oblige('parseFrame inverts buildFrame', Implies(And(a >= 0, a < 65536, d == Concat(Unit(a / 256), Unit(a % 256), p)),
                                                           And(r.f['socketAddress'] == a, r.f['data'].s == p)), ('C02',))
    g.verify('SlipDataProcessor::parseFrame', body)


# ---------------------------------------------------------------- contracts at call sites
from contracts import Fn
import qt as QT


def _c_serialize(ex, this, args, node):
    d = QT.as_bytes(ex, args[0])
    return BA(Concat(enc(d)[0], Unit(IntVal(END))))


def _c_deserialize(ex, this, args, node):
    d = QT.as_bytes(ex, args[0])
    r = ex.havoc_value(T_BA, 'deser')
    st, out = dec(d)
    ex.assume(Implies(Or(st == 0, st == 3), r.s == out))
    ex.assume(Implies(Or(st == 1, st == 2), b2(r.null)))
    ex.assume(Implies(And(Or(st == 0, st == 3), Length(out) > 0), Not(b2(r.null))))
    ex.assume(And(st >= 0, st <= 3))
    # well-formed, non-empty and unterminated data carries a payload (lemma decoder-payload)
    ex.assume(Implies(And(st == 0, Length(d) > 0), Length(out) > 0))
    return r


def _c_build(ex, this, args, node):
    f = args[0]
    a = f.f['socketAddress']
    a = iv(a)
    return BA(cat(Unit(a / 256), Unit(a % 256), f.f['data'].s))


def _c_parse(ex, this, args, node):
    d = QT.as_bytes(ex, args[0])
    fn = ex.prog.find_fn('SlipDataProcessor::parseFrame', 1)
    if FRAME not in STRUCTS:
        ex.norm(parse_type(FRAME))
    if FRAME not in STRUCTS:
        raise ToolLimit('contract binding: layout of ' + FRAME)
    a = ex.havoc_value(('int', 16, False), 'addr')
    p = ex.havoc_value(T_BA, 'payload')
    ex.assume(Implies(Length(d) >= 2, And(a == ex.byte(d[0]) * 256 + ex.byte(d[1]), p.s == Extract(d, IntVal(2), Length(d) - 2))))
    ex.assume(Implies(Length(d) < 2, And(a == 0, Length(p.s) == 0)))
    return StructV(FRAME, {'socketAddress': a, 'data': p})


SLIP = {'SlipDataProcessor::serializeData': Fn(_c_serialize), 'SlipDataProcessor::deserializeData': Fn(_c_deserialize),
        'SlipDataProcessor::buildFrame': Fn(_c_build), 'SlipDataProcessor::parseFrame': Fn(_c_parse)}
