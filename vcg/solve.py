"""Discharging obligations: z3 (python API, in process), then cvc5 on what is left."""
import os, pickle, subprocess, tempfile, time
import z3

TOKENS = None        # shared between the tasks of one check: one token per busy core
NCPU = max(1, min(8, os.cpu_count() or 4))


def par_map(f, items):
    """[f(x) for x in items], in forked children as far as cores are idle"""
    items = list(items)
    extra = 0
    if len(items) > 3:
        want = min(NCPU, (len(items) + 1) // 2) - 1
        if TOKENS is None:
            extra = want if os.environ.get('VCG_SOLO') else 0
        else:
            while extra < want and TOKENS.acquire(block=False):
                extra += 1
    if not extra:
        return [f(x) for x in items]
    n = extra + 1
    kids = []
    for w in range(n):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                out = [f(x) for x in items[w::n]]
                with os.fdopen(wr, 'wb') as fh:
                    pickle.dump(out, fh)
                code = 0
            except BaseException:      # noqa
                pass
            finally:
                os._exit(code)
        os.close(wr)
        kids.append((pid, r))
    res = [None] * len(items)
    lost = []
    for w, (pid, r) in enumerate(kids):
        with os.fdopen(r, 'rb') as fh:
            data = fh.read()
        os.waitpid(pid, 0)
        if w and TOKENS is not None:
            TOKENS.release()
        try:
            res[w::n] = pickle.loads(data)
        except Exception:              # noqa
            lost.append(w)
    for w in lost:
        res[w::n] = [f(x) for x in items[w::n]]
    return res

RLIMIT_PER_MS = int(os.environ.get('VCG_RLIMIT', '3000'))
Z3_MS = int(os.environ.get('VCG_Z3_MS', '12000'))
CVC5 = '/usr/bin/cvc5' if os.path.exists('/usr/bin/cvc5') else 'cvc5'


def _check(assumptions, goal, ms, seed=0, mbqi=True, last=False):
    s = z3.Solver()
    if last:
        s.set('timeout', 4 * ms)                 # a loaded machine gets more time ...
        s.set('rlimit', RLIMIT_PER_MS * ms)      # ... for the same amount of work
    else:
        s.set('timeout', ms)
    if seed:
        s.set('random_seed', seed)
    if not mbqi:
        s.set('smt.mbqi', False)
    for a in assumptions:
        s.add(a)
    s.add(z3.Not(goal))
    c0 = time.process_time()
    r = s.check()
    if r == z3.unknown and not last and out_of_time(s.reason_unknown()) and (time.process_time() - c0) * 1000 < 0.8 * ms:
        s.set('timeout', 3 * ms)                 # starved: the machine is loaded
        r = s.check()
    return r, s


def model_text(m, limit=60):
    out = []
    for d in sorted(m.decls(), key=lambda d: d.name()):
        t = '%s = %s' % (d.name(), str(m[d]).replace('\n', ' '))
        out.append(t[:300])
        if len(out) >= limit:
            break
    return '\n'.join(out)


def cvc5_check(s, secs):
    txt = '(set-logic ALL)\n' + s.to_smt2().replace('(set-info :status unknown)', '')
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(txt)
    try:
        r = subprocess.run([CVC5, '--strings-exp', '--tlimit=%d' % (secs * 1000), f.name], capture_output=True, text=True, timeout=secs + 5)
        o = r.stdout.strip().split('\n')[0] if r.stdout else ''
        return o
    except (subprocess.TimeoutExpired, OSError):
        return 'timeout'
    finally:
        os.unlink(f.name)


def out_of_time(why):
    return any(w in why for w in ('timeout', 'cancel', 'resource'))


_strc = {}
_keep = []


def stringy(e):
    """does the term use the theory of sequences or strings beyond naming such values?"""
    todo, seen = [e], set()
    while todo:
        x = todo.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if i in _strc:
            if _strc[i]:
                return True
            continue
        if z3.is_quantifier(x):
            todo.append(x.body())
            continue
        if z3.is_app(x):
            if x.num_args() and (any(z3.is_seq(c) or z3.is_string(c) for c in x.children()) or z3.is_seq(x)) and x.decl().kind() not in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_SELECT, z3.Z3_OP_STORE, z3.Z3_OP_ITE, z3.Z3_OP_DT_ACCESSOR, z3.Z3_OP_DT_CONSTRUCTOR, z3.Z3_OP_EQ):
                _strc[e.get_id()] = True
                _keep.append(e)
                return True
            todo.extend(x.children())
    _strc[e.get_id()] = False
    _keep.append(e)
    return False


def discharge(o, ms=None, deep=False, quick=False):
    """-> dict(status proved|failed|undecided, solver, seconds, model)"""
    t0 = time.time()
    ms = ms or (Z3_MS // 2 if quick else Z3_MS)
    g = z3.simplify(o.goal) if False else o.goal
    quant = any(z3.is_quantifier(a) for a in o.assumptions)
    if not stringy(g):
        few = [a for a in o.assumptions if not stringy(a)]
        if len(few) < len(o.assumptions):
            for t, mbqi in ((ms // 6, False),) if quant else ((ms // 6, True),):
                r, s = _check(few, g, t, 0, mbqi)
                if r == z3.unsat:
                    return dict(status='proved', solver='z3', seconds=time.time() - t0)
    tries = [(ms // 4, 0, True)]
    if quant:
        r, s = _check([a for a in o.assumptions if not z3.is_quantifier(a)], g, ms // 4, 0)
        if r == z3.unsat:
            return dict(status='proved', solver='z3', seconds=time.time() - t0)
        tries = [(ms // 4, 0, False), (ms, 0, True)]
    else:
        tries.append((ms, 7, True))
    last = None
    saturated = None
    for t, seed, mbqi in tries:
        r, s = _check(o.assumptions, g, t, seed, mbqi, t == ms)
        if r == z3.unknown and not mbqi:
            w = s.reason_unknown()
            if not out_of_time(w):
                saturated = s       # every instance by pattern was tried: no proof exists within them
        if r == z3.unsat:
            return dict(status='proved', solver='z3', seconds=time.time() - t0)
        if r == z3.sat:
            return dict(status='failed', solver='z3', seconds=time.time() - t0, model=model_text(s.model()), why='sat')
        last = s
    why = last.reason_unknown()
    c = cvc5_check(last, 60 if deep else 6 if quick else 20)
    if c == 'unsat':
        return dict(status='proved', solver='cvc5', seconds=time.time() - t0)
    if c == 'sat':
        return dict(status='failed', solver='cvc5', seconds=time.time() - t0, model='(cvc5 reports sat)', why='sat')
    # z3 saturated (quantifiers instantiated, candidate model) versus ran out of time
    if saturated is not None:
        last, why = saturated, 'incomplete quantifiers (instances exhausted)'
    if out_of_time(why):
        return dict(status='failed', solver='z3+cvc5', seconds=time.time() - t0, why='not accepted by any back end within %.0f s' % (time.time() - t0))
    m = ''
    try:
        m = model_text(last.model())
    except z3.Z3Exception:
        pass
    return dict(status='failed', solver='z3', seconds=time.time() - t0, why='unknown: ' + why, model=m)
