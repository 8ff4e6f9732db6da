"""Loops: inductive invariants found by Houdini over a template pool.

A loop is cut at its head.  The modified state is havocked, the surviving
candidate invariants are assumed, and two kinds of path continue: an arbitrary
iteration (which must re-establish every candidate) and the exit.  A candidate
that is not established on entry or not preserved is dropped and generation
restarts, so what remains is a conjunction of inductive invariants."""
import z3
from vals import *
from ex import *


import os
DEBUG = os.environ.get('VCG_DEBUG')


class Fold:
    """spec function defined by recursion on the last element of a sequence:
       f(e) = base,  f(s.[x]) = step(f(s), x)."""

    def __init__(self, name, esort, comps, step, params=(), inv=None, inv_hyps=None, octets=True):
        self.octets = octets                # elements of an integer sequence are bytes
        self.name, self.esort = name, esort
        self.inv_hyps = inv_hyps or (lambda ps, prev, x: [])
        self.inv = inv                      # inv(params, comps): proved by induction, assumed at instances
        self.src = SeqSort(esort)
        self.params = list(params)          # [(name, sort)]
        self.comps = comps                  # [(name, sort, base(params))]
        self.fs = [Function('%s_%s' % (name, c), *([p[1] for p in self.params] + [self.src, s])) for c, s, _ in comps]
        self.step = step                    # step(params, prev comps, elem) -> comps

    def __call__(self, s, *params):
        return [f(*(list(params) + [s])) for f in self.fs]

    def inv_obligations(self):
        """base and step case of the fold's own invariant"""
        if self.inv is None:
            return []
        ps = [Const('p_' + n, s) for n, s in self.params]
        x = Const('x_el', self.esort)
        prev = [Const('prev_%d' % i, c[1]) for i, c in enumerate(self.comps)]
        return [('%s-invariant-base' % self.name, [], self.inv(ps, [c[2](*ps) for c in self.comps])),
                ('%s-invariant-step' % self.name, [self.inv(ps, prev)] + self.inv_hyps(ps, prev, x), self.inv(ps, self.step(ps, prev, x)))]

    def base_ax(self, params=()):
        e = Empty(self.src)
        return [f(*(list(params) + [e])) == c[2](*params) for f, c in zip(self.fs, self.comps)]

    def step_ax(self, s, x, params=()):
        prev = self(s, *params)
        nxt = self.step(params, prev, x)
        return [f(*(list(params) + [Concat(s, Unit(x))])) == v for f, v in zip(self.fs, nxt)]


class LoopSeg:
    kind = 'LoopSeg'

    def __init__(self, L, k, broken, seq=None):
        self.L, self.k, self.broken, self.seq = L, k, broken, seq

    def __repr__(self):
        return 'LoopSeg(k=%s%s)' % (self.k, ', left early' if self.broken else '')


def _has_local(e, n0):
    """does e mention a symbol created after symbol counter n0?"""
    seen, st = set(), [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            st.append(x.body())
            continue
        if z3.is_app(x):
            if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                nm = x.decl().name()
                if '!' in nm:
                    try:
                        if int(nm.rsplit('!', 1)[1]) > n0:
                            return True
                    except ValueError:
                        pass
            st.extend(x.children())
    return False


def _envval(fr, vid):
    v = fr.env.get(vid)
    if isinstance(v, LTemp):
        return v.v
    return v


def _same(a, b):
    if a is b:
        return True
    if z3.is_expr(a) and z3.is_expr(b):
        return a.eq(b)
    if isinstance(a, BA) and isinstance(b, BA):
        return a.s.eq(b.s) and b2(a.null).eq(b2(b.null))
    if isinstance(a, ListV) and isinstance(b, ListV):
        return a.s.eq(b.s)
    if isinstance(a, (int, bool)) and isinstance(b, (int, bool)):
        return a == b and type(a) == type(b)
    if isinstance(a, HashV) and isinstance(b, HashV):
        return a.dom.eq(b.dom) and a.val.eq(b.val) and iv(a.cnt).eq(iv(b.cnt))
    if isinstance(a, StructV) and isinstance(b, StructV):
        return a.f.keys() == b.f.keys() and all(_same(a.f[k], b.f[k]) for k in a.f)
    if isinstance(a, Opaque) and isinstance(b, Opaque):
        return iv(a.e).eq(iv(b.e))
    if isinstance(a, Py) and isinstance(b, Py):
        return a.kind == b.kind and a.__dict__.keys() == b.__dict__.keys() and \
            all(_same(a.__dict__[k], b.__dict__[k]) or a.__dict__[k] is b.__dict__[k] for k in a.__dict__)
    if isinstance(a, IterV) and isinstance(b, IterV):
        return _same(a.idx, b.idx) and a.loc is b.loc
    if isinstance(a, LField) and isinstance(b, LField):
        return a.cls == b.cls and a.field == b.field and iv(a.ref).eq(iv(b.ref))
    return False


def _snapshot(ex):
    envs = []
    for fr in ex.frames:
        envs.append({vid: _envval(fr, vid) for vid in fr.env})
    return envs, dict(ex.heap)


class View:
    """access to modified scalars/sequences, uniformly"""

    def __init__(self, kind, depth=None, vid=None, key=None, ref=None, t=None, comp=None, name=''):
        self.kind, self.depth, self.vid, self.key, self.ref, self.t, self.comp, self.name = kind, depth, vid, key, ref, t, comp, name

    def get(self, ex):
        if self.kind == 'env':
            v = _envval(ex.frames[self.depth], self.vid)
        else:
            v = unpack(ex.sel(ex.heap[self.key], self.ref), self.t)
        return self.pick(v)

    def pick(self, v):
        if self.comp == 'pos':
            return v.pos
        if self.comp == 'idx':
            return v.idx
        if self.comp is not None and isinstance(v, StructV):
            return v.f[self.comp]
        return v

    def get0(self, snap):
        envs, heap = snap
        if self.kind == 'env':
            return self.pick(envs[self.depth].get(self.vid))
        if self.key not in heap:
            return None
        return unpack(self._sel(heap[self.key]), self.t)

    def _sel(self, arr):
        return z3.simplify(Select(arr, self.ref)) if False else _rsel(arr, self.ref)


def _rsel(arr, idx):
    while z3.is_app(arr) and arr.decl().kind() == z3.Z3_OP_STORE:
        a, i, v = arr.children()
        if i.eq(idx):
            return v
        break
    return Select(arr, idx)


def mod_views(ex, L):
    out = []
    for (depth, vid) in sorted(L.mod_env, key=str):
        if depth >= len(ex.frames):
            continue
        fr = ex.frames[depth]
        v = _envval(fr, vid)
        t = fr.types.get(vid)
        nm = fr.names.get(vid, str(vid))
        if isinstance(v, IterV):
            out.append(View('env', depth, vid, t=('int', 32, True), comp='idx', name=nm))
        elif isinstance(v, Py):
            if hasattr(v, 'pos'):
                out.append(View('env', depth, vid, t=('int', 32, True), comp='pos', name=nm))
        elif isinstance(v, StructV):
            for f, ft in STRUCTS[v.name]:
                out.append(View('env', depth, vid, t=ft, comp=f, name=nm + '.' + f))
        else:
            out.append(View('env', depth, vid, t=t, name=nm))
    for key, refs in sorted(L.mod_heap.items(), key=str):
        if refs is None:
            continue
        t = ex.ghost.get('types', {}).get(key)
        for r in refs:
            if t is not None:
                out.append(View('heap', key=key, ref=r, t=t, name=key[1]))
    return out


def _is_int(v):
    return (isinstance(v, int) and not isinstance(v, bool)) or (z3.is_expr(v) and v.sort() == IntSort())


def _is_bool(v):
    return isinstance(v, bool) or (z3.is_expr(v) and v.sort() == BoolSort())


def seq_terms(ex, L, snap):
    """loop-invariant sequence terms usable as sources: [(name, seq, elem sort)]"""
    out, seen = [], set()

    def add(nm, s):
        if s is None or not z3.is_expr(s) or not z3.is_seq(s):
            return
        if s.sort() == Str or z3.is_string(s):
            return
        if s.get_id() in seen:
            return
        if z3.is_app(s) and s.decl().kind() in (z3.Z3_OP_SEQ_EMPTY,):
            return
        seen.add(s.get_id())
        out.append((nm, s))
    envs, heap = snap
    for d, env in enumerate(envs):
        fr = ex.frames[d]
        for vid, v in env.items():
            nm = fr.names.get(vid, '')
            if isinstance(v, Loc):
                try:
                    v = v.read(ex) if not (d, vid) in L.mod_env else v
                except Exception:
                    continue
            if isinstance(v, (BA, ListV)):
                add(nm, v.s)
            elif isinstance(v, StructV):
                for f, x in v.f.items():
                    if isinstance(x, (BA, ListV)):
                        add(nm + '.' + f, x.s)
            elif isinstance(v, Py):
                for f, x in v.__dict__.items():
                    if isinstance(x, (BA, ListV)):
                        add(nm + '.' + f, x.s)
            elif isinstance(v, IterV) and isinstance(v.cont, (BA, ListV)):
                add(nm, v.cont.s)
            elif isinstance(v, IterV) and getattr(v.keys, 's', None) is not None:
                add(nm, v.keys.s)
    for key, refs in L.mod_heap.items():
        if refs is None or key not in heap:
            continue
        t = ex.ghost.get('types', {}).get(key)
        if t == T_BA or (t and is_list_type(t)):
            for r in refs:
                v = unpack(_rsel(heap[key], r), t)
                add(key[1], v.s)
    return out


def int_terms(ex, L, snap):
    out = []
    envs, _ = snap
    for d, env in enumerate(envs):
        if d < len(envs) - 2:
            continue
        for vid, v in env.items():
            if (d, vid) in L.mod_env:
                continue
            if isinstance(v, Loc):
                continue
            if _is_int(v):
                out.append(v)
    return out


def gen_candidates(ex, L, snap, seqinfo):
    cands = []   # (desc, fn(ex,k) -> z3 Bool)
    views = mod_views(ex, L)
    ints, seqs, bools = [], [], []
    for v in views:
        v0 = v.get0(snap)
        if v0 is None:
            continue
        if v.t and v.t[0] == 'ptr' and v.comp is None:
            # pointer variables: may become null / stay the same
            continue
        if isinstance(v0, BA):
            seqs.append((v, v0.s, lambda x: x.s))
        elif isinstance(v0, ListV):
            seqs.append((v, v0.s, lambda x: x.s))
        elif _is_bool(v0):
            bools.append((v, b2(v0)))
        elif _is_int(v0):
            ints.append((v, iv(v0)))
    srcs = seq_terms(ex, L, snap)
    if seqinfo:
        s = seqinfo[0]
        if not any(s.eq(x) for _, x in srcs):
            srcs.append(('range', s))
    consts = int_terms(ex, L, snap)
    folds = ex.xp.opt.get('folds', [])
    preds = ex.xp.opt.get('fold_preds', [])     # (fold, comp idx, const) -> bool equality
    ctype = {}
    for v, v0 in ints:
        nm = v.name
        cands.append(('%s == entry + k' % nm, lambda e, k, v=v, v0=v0: iv(v.get(e)) == v0 + k))
        cands.append(('%s == entry - k' % nm, lambda e, k, v=v, v0=v0: iv(v.get(e)) == v0 - k))
        cands.append(('%s >= entry' % nm, lambda e, k, v=v, v0=v0: iv(v.get(e)) >= v0))
        cands.append(('%s <= entry' % nm, lambda e, k, v=v, v0=v0: iv(v.get(e)) <= v0))
        cands.append(('%s >= 0' % nm, lambda e, k, v=v: iv(v.get(e)) >= 0))
        if v.t and v.t[0] == 'int' and not v.t[2]:
            cands.append(('%s in range' % nm, lambda e, k, v=v: iv(v.get(e)) < (1 << v.t[1])))
        for sn, s in srcs:
            cands.append(('%s <= len(%s)' % (nm, sn), lambda e, k, v=v, s=s: iv(v.get(e)) <= Length(s)))
            cands.append(('%s == len(%s) - k' % (nm, sn), lambda e, k, v=v, s=s: iv(v.get(e)) == Length(s) - k))
        for c in consts:
            cands.append(('%s <= const' % nm, lambda e, k, v=v, c=c: iv(v.get(e)) <= iv(c)))
        if v.t and v.t[0] == 'int' and not v.t[2] and v.t[1] <= 32:
            m = 1 << v.t[1]
            cands.append(('%s == entry + k mod' % nm, lambda e, k, v=v, v0=v0, m=m: iv(v.get(e)) == (v0 + k) % m))
    for i, (v, v0) in enumerate(ints):
        for w, w0 in ints[i + 1:]:
            cands.append(('%s-%s const' % (v.name, w.name), lambda e, k, v=v, w=w, v0=v0, w0=w0: iv(v.get(e)) - iv(w.get(e)) == v0 - w0))
            cands.append(('%s+%s const' % (v.name, w.name), lambda e, k, v=v, w=w, v0=v0, w0=w0: iv(v.get(e)) + iv(w.get(e)) == v0 + w0))
    for sn, s in srcs:
        cands.append(('k <= len(%s)' % sn, lambda e, k, s=s: k <= Length(s)))
    for v, v0 in bools:
        cands.append(('%s unchanged' % v.name, lambda e, k, v=v, v0=v0: b2(v.get(e)) == v0))
        for (f, ci, cval) in preds:
            for sn, s in srcs:
                if s.sort() == f.src and not f.params:
                    cands.append(('%s == (%s.%d(%s[0..k])==%s)' % (v.name, f.name, ci, sn, cval),
                                  lambda e, k, v=v, f=f, s=s, ci=ci, cval=cval: b2(v.get(e)) == (f(Extract(s, IntVal(0), k))[ci] == cval)))
    for (f, ci, cval) in preds:
        for sn, s in srcs:
            if s.sort() == f.src and not f.params:
                cands.append(('%s.%d(%s[0..k])!=%s' % (f.name, ci, sn, cval),
                              lambda e, k, f=f, s=s, ci=ci, cval=cval: f(Extract(s, IntVal(0), k))[ci] != cval))
    offs = [IntVal(0)]
    for v, v0 in ints:
        if not any(v0.eq(o) for o in offs) and (z3.is_int_value(v0) or len(offs) < 4):
            offs.append(v0)
    for v, v0, g in seqs:
        cands.append(('len(%s) == entry + k' % v.name, lambda e, k, v=v, v0=v0, g=g: Length(g(v.get(e))) == Length(v0) + k))
        cands.append(('len(%s) <= entry' % v.name, lambda e, k, v=v, v0=v0, g=g: Length(g(v.get(e))) <= Length(v0)))
        cands.append(('len(%s) >= entry' % v.name, lambda e, k, v=v, v0=v0, g=g: Length(g(v.get(e))) >= Length(v0)))
        cands.append(('%s is suffix of entry' % v.name, lambda e, k, v=v, v0=v0, g=g: And(k <= Length(v0), g(v.get(e)) == Extract(v0, k, Length(v0) - k))))
        for sn, s in srcs:
            if s.sort() == v0.sort():
                for o in offs:
                    cands.append(('%s == entry ++ %s[%s..+k]' % (v.name, sn, o),
                                  lambda e, k, v=v, v0=v0, g=g, s=s, o=o: And(o + k <= Length(s), g(v.get(e)) == cat(v0, Extract(s, o, k)))))
            for f in folds:
                if s.sort() != f.src or f.params:
                    continue
                for ci, (cn, cs, _) in enumerate(f.comps):
                    if cs != v0.sort():
                        continue
                    for o in offs:
                        cands.append(('%s == entry ++ %s.%s(%s[%s..+k])' % (v.name, f.name, cn, sn, o),
                                      lambda e, k, v=v, v0=v0, g=g, s=s, f=f, ci=ci, o=o: g(v.get(e)) == cat(v0, f(Extract(s, o, k))[ci])))
    # folds with parameters instantiated by entry values (e.g. initial buffer)
    for f in folds:
        if not f.params:
            continue
        for sn, s in srcs:
            if s.sort() != f.src:
                continue
            for pv, pv0, pg in seqs:
                if len(f.params) == 1 and pv0.sort() == f.params[0][1]:
                    for v, v0, g in seqs:
                        for ci, (cn, cs, _) in enumerate(f.comps):
                            if cs == v0.sort():
                                cands.append(('%s == %s.%s(%s0; %s[0..k])' % (v.name, f.name, cn, pv.name, sn),
                                              lambda e, k, v=v, g=g, s=s, f=f, ci=ci, p=pv0: g(v.get(e)) == f(Extract(s, IntVal(0), k), p)[ci]))
                                cands.append(('%s == entry ++ %s.%s(%s0; %s[0..k])' % (v.name, f.name, cn, pv.name, sn),
                                              lambda e, k, v=v, v0=v0, g=g, s=s, f=f, ci=ci, p=pv0: g(v.get(e)) == cat(v0, f(Extract(s, IntVal(0), k), p)[ci])))
    for bs in sorted(ex.xp.needles):
        for v, v0 in ints:
            for w, w0, g in seqs:
                if w0.sort() == Bytes:
                    cands.append(('%s == indexOf(%s, %r)' % (v.name, w.name, bs),
                                  lambda e, k, v=v, w=w, g=g, bs=bs: iv(v.get(e)) == _index_of(e, g(w.get(e)), bs)))
    L.fold_insts = []
    for f in folds:
        for sn, s in srcs:
            if s.sort() == f.src:
                if not f.params:
                    for o in offs:
                        L.fold_insts.append((f, s, o, ()))
                else:
                    for pv, pv0, pg in seqs:
                        if len(f.params) == 1 and pv0.sort() == f.params[0][1]:
                            L.fold_insts.append((f, s, IntVal(0), (pv0,)))
    L.views = (ints, seqs, bools)
    L.srcs = srcs
    more = ex.xp.opt.get('loop_cands')
    if more:
        cands += more(ex, L, snap, views)
    return cands


def _index_of(ex, s, bs):
    import qt
    return qt.index_of(ex, s, seq_of(bs), 0)


def fold_axioms(ex, L, k):
    for (f, s, o, ps) in getattr(L, 'fold_insts', []):
        for fn_, c in zip(f.fs, f.comps):
            ex.assume(fn_(*(list(ps) + [Extract(s, o, IntVal(0))])) == c[2](*ps))
        if f.inv is not None:
            ex.assume(f.inv(ps, f(Extract(s, o, k), *ps)))
        g = And(k >= 0, o >= 0, o + k < Length(s))
        prev = f(Extract(s, o, k), *ps)
        x = s[o + k]
        if f.octets and f.esort == IntSort() and s.sort() == Bytes:
            ex.assume(Implies(g, And(x >= 0, x <= 255)))
        nxt = f.step(ps, prev, x)
        for fn_, v in zip(f.fs, nxt):
            ex.assume(Implies(g, fn_(*(list(ps) + [Extract(s, o, k + 1)])) == v))
        ex.assume(Implies(And(o + k == Length(s), o >= 0), Extract(s, o, k) == Extract(s, o, Length(s) - o)))
        if z3.is_int_value(o) and o.as_long() == 0:
            ex.assume(Implies(k == Length(s), Extract(s, o, k) == s))


def run_loop(ex, n, cond, body, inc, seqinfo=None):
    xp = ex.xp
    prefix = tuple(ex.decisions[:ex.pos])
    key = (tuple(ex.callstack), n['id'], len(ex.frames), prefix)
    L = xp.loops.get(key)
    if L is None:
        L = xp.loops[key] = Loop(key)
        L.effects = False
        L.allocs = False
    L.node = n
    L.where = ex.where(n)
    snap = _snapshot(ex)
    n0 = ex.nfresh
    k = ex.fresh('k', IntSort())
    if L.mod_env or L.mod_heap or L.allocs or L.stable:
        if L.cands is None:
            L.cands = gen_candidates(ex, L, snap, seqinfo)
            L.entry_ok = set()
            L.step_ok = set()
        # establish
        zero = IntVal(0)
        fold_axioms(ex, L, zero)
        gs = []
        for c in L.cands:
            gs.append(_cand(c, ex, zero))
        res = ex.prove_many(gs, full=[len(c) > 2 for c in L.cands])
        bad = [c for c, r in zip(L.cands, res) if r is False] or [c for c, r in zip(L.cands, res) if not r]
        if bad:
            if DEBUG:
                print('   drop@entry', L.where, [(c[0], res[L.cands.index(c)]) for c in bad])
            note_shaky(xp, L, res, bad)
            L.cands = [c for c in L.cands if c not in bad]
            raise Restart(prefix)
    cands = L.cands or []
    mode = ex.choose(2)
    havoc_mods(ex, L)
    ex.assume(k >= 0)
    fold_axioms(ex, L, k)
    for c in cands:
        g = _cand(c, ex, k)
        ex.assume(g, quant='cand' if not isinstance(g, bool) and z3.is_quantifier(g) else False)
    hook = xp.opt.get('loop_assume')
    if hook:
        hook(ex, L, k)
    post = _snapshot(ex)
    nalloc0 = ex.nalloc
    if mode == 1:
        if L.effects:
            ex.log.append(LoopSeg(L, k, False, seqinfo))
        c = cond()
        if ex.branch(c):
            raise PathEnd()
        h = xp.opt.get('on_loop_exit')
        if h:
            h(ex, L, k, seqinfo)
        return
    # the condition belongs to the iteration: it may cut a message off the buffer, or emit
    outer = ex.log
    ex.log = []
    L.iter_pre = post
    ex.loopstack.append((L, k, seqinfo))
    h = xp.opt.get('on_iter_begin')
    if h:
        h(ex, L, k, seqinfo)
    c = cond()
    if not ex.branch(c):
        raise PathEnd()
    try:
        try:
            body()
        except ContinueE:
            pass
        inc()
    except BreakE:
        ex.loopstack.pop()
        sub = ex.log
        ex.log = outer + ([LoopSeg(L, k, True, seqinfo)] if (L.effects or sub) else []) + sub
        return
    except ReturnE:
        ex.loopstack.pop()
        sub = ex.log
        ex.log = outer + ([LoopSeg(L, k, True, seqinfo)] if (L.effects or sub) else []) + sub
        raise
    ex.loopstack.pop()
    # what did this iteration modify?
    grown = diff_mods(ex, L, post, n0)
    if ex.nalloc != nalloc0 and not L.allocs:
        L.allocs = True
        grown = True
    if ex.log and not L.effects:
        L.effects = True
        grown = True
    if grown:
        L.cands = None
        # what follows on these paths sees other symbols now
        for k2, M in xp.loops.items():
            if M is not L and len(k2[3]) > len(prefix) and k2[3][:len(prefix)] == prefix:
                M.cands = None
        raise Restart(prefix)
    if L.cands is None:
        # nothing is modified: first visit
        if not L.stable:
            L.stable = True
            raise Restart(prefix)
    k1 = k + 1
    gs = [_cand(c, ex, k1) for c in L.cands]
    res = ex.prove_many(gs, full=[len(c) > 2 for c in L.cands])
    bad = [c for c, r in zip(L.cands, res) if r is False] or [c for c, r in zip(L.cands, res) if not r]
    if bad:
        if DEBUG:
            print('   drop@step', L.where, [(c[0], res[L.cands.index(c)]) for c in bad])
        note_shaky(xp, L, res, bad)
        L.cands = [c for c in L.cands if c not in bad]
        raise Restart(prefix)
    h = xp.opt.get('on_iter')
    if h:
        h(ex, L, k, seqinfo, ex.log, post)
    elif any(getattr(e, 'kind', None) in xp.opt.get('loud', ('SendData', 'Kill')) for e in ex.log):
        ex.oblige('loop-effects-specified', False, ('spec',), L.where)
    raise PathEnd()


def note_shaky(xp, L, res, bad):
    """a specified invariant was given up for lack of time: what fails later is not conclusive"""
    if any(len(c) > 2 and res[L.cands.index(c)] is None for c in bad):
        xp.shaky = True


def _cand(c, ex, k):
    try:
        g = c[1](ex, k)
    except (AttributeError, KeyError, z3.Z3Exception):
        return False
    if isinstance(g, bool):
        return g
    return g


def havoc_mods(ex, L):
    for (depth, vid) in sorted(L.mod_env, key=str):
        if depth >= len(ex.frames):
            continue
        fr = ex.frames[depth]
        v = fr.env.get(vid)
        t = fr.types.get(vid)
        nm = fr.names.get(vid, 'v') or 'v'
        nv = havoc_like(ex, _envval(fr, vid), t, nm)
        if isinstance(v, LTemp):
            v.v = nv
        else:
            fr.env[vid] = nv
    for key, refs in sorted(L.mod_heap.items(), key=str):
        t = ex.ghost.get('types', {}).get(key)
        if t is None:
            continue
        arr = ex.harr(key[0], key[1], t)
        if refs is None:
            ex.heap[key] = ex.fresh('H_' + key[1], arr.sort())
        else:
            for r in refs:
                fv = ex.fresh('h_' + key[1], zsort(t))
                arr = Store(arr, r, fv)
            ex.heap[key] = arr
            for r in refs:
                ex.type_inv(unpack(_rsel(arr, r), t), t)
    if L.allocs:
        old = ex.alloc0 + ex.nalloc
        ex.alloc0 = ex.fresh('alloc', IntSort())
        ex.assume(ex.alloc0 >= old)
        ex.nalloc = 0


def havoc_like(ex, v, t, nm):
    if isinstance(v, IterV):
        i = ex.fresh(nm + '_it', IntSort())
        ex.assume(i >= 0)
        return IterV(v.loc, v.cont, i, v.keys)
    if isinstance(v, Py):
        if hasattr(v, 'pos'):
            p = ex.fresh(nm + '_pos', IntSort())
            ex.assume(p >= 0)
            kw = {'pos': p}
            if hasattr(v, 'status'):
                kw['status'] = ex.fresh(nm + '_status', IntSort())
            return v.with_(**kw)
        raise ToolLimit('loop modifies ' + v.kind)
    if isinstance(v, StructV):
        return StructV(v.name, {f: havoc_like(ex, v.f[f], ft, nm + '_' + f) for f, ft in STRUCTS[v.name]})
    if isinstance(v, (Closure, FnRef, PtrTo, CStr)):
        raise ToolLimit('loop modifies a function/pointer variable')
    if t is None:
        raise ToolLimit('loop modifies untyped variable')
    return ex.havoc_value(t, nm)


def diff_mods(ex, L, post, n0):
    envs, heap = post
    grown = False
    for d, env in enumerate(envs):
        fr = ex.frames[d]
        for vid, old in env.items():
            if (d, vid) in L.mod_env:
                continue
            if vid not in fr.env:
                continue
            new = _envval(fr, vid)
            if not _same(old, new):
                L.mod_env.add((d, vid))
                grown = True
    for key, arr in ex.heap.items():
        old = heap.get(key)
        if old is None:
            old = ex.heap0.get(key)
            # array first touched inside the loop: base array
            if old is None or arr.eq(old):
                continue
        if arr.eq(old):
            continue
        cur = L.mod_heap.get(key, 'no')
        if cur is None:
            continue
        refs, a, whole = [], arr, False
        while not a.eq(old):
            if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_STORE:
                refs.append(a.arg(1))
                a = a.arg(0)
            else:
                # strip the havocked stores of `old` as well
                whole = True
                break
        if whole:
            # setf collapses stores on the same ref; compare modulo that
            ok, refs = _store_refs(arr, old)
            whole = not ok
        if whole or any(_has_local(r, n0) for r in refs):
            L.mod_heap[key] = None
            grown = True
            continue
        have = [] if cur == 'no' else list(cur)
        for r in refs:
            if not any(r.eq(x) for x in have):
                have.append(r)
                grown = True
        if cur == 'no':
            grown = True
        L.mod_heap[key] = have
    return grown


def _store_refs(new, old):
    def chain(a):
        m = []
        while z3.is_app(a) and a.decl().kind() == z3.Z3_OP_STORE:
            m.append((a.arg(1), a.arg(2)))
            a = a.arg(0)
        return a, m
    b1, m1 = chain(new)
    b2_, m2 = chain(old)
    if not b1.eq(b2_):
        return False, []
    refs = []
    for r, v in m1:
        if not any(r.eq(x) for x in refs):
            refs.append(r)
    for r, v in m2:
        if not any(r.eq(x) for x in refs):
            refs.append(r)
    # drop those whose value is unchanged
    def top(m, r):
        for x, v in m:
            if x.eq(r):
                return v
        return None
    out = []
    for r in refs:
        a, b = top(m1, r), top(m2, r)
        if a is not None and b is not None and a.eq(b):
            continue
        out.append(r)
    return True, out
