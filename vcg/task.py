"""Proof tasks: one contracted function (or lemma) each."""
import time, traceback, os
import z3
from vals import *
from ex import *
import ex as EX
import frontend as F
import solve

TASKS = {}


class Task:
    def __init__(self, name, props, gen, fns=(), heavy=1, prog='server'):
        self.prog = prog
        self.name, self.props, self.gen, self.fns, self.heavy = name, tuple(props), gen, tuple(fns), heavy


def task(name, props, fns=(), heavy=1, prog='server'):
    def deco(f):
        TASKS[name] = Task(name, props, f, fns, heavy, prog)
        return f
    return deco


class Gen:
    """what a task's generator works with"""

    def __init__(self, t, prog):
        self.t, self.prog = t, prog
        self.obls = []
        self.xps = []

    def lemma(self, name, assumptions, goal, tags=()):
        o = Obl(name, list(assumptions), goal, tuple(tags), self.t.name)
        o.path = ()
        self.obls.append(o)

    def fold(self, f):
        for n, a, g in f.inv_obligations():
            self.lemma(n, a, g)

    def verify(self, q, body, contracts=None, **opt):
        xp = Explorer(self.prog, q, contracts or {}, opt)
        xp.ends = []

        def wrapped(ex):
            body(ex)
            xp.ends.append(list(ex.pc) + list(ex.qpc))
        t0 = time.time()
        xp.explore(wrapped)
        xp.gen_s = time.time() - t0
        self.xps.append(xp)
        for o in xp.obls:
            o.shaky = getattr(xp, 'shaky', False)
            self.obls.append(o)
        return xp


def run_task(name, tier='quick', budget=600):
    """executed in a worker process -> plain dict"""
    t = TASKS[name]
    t0 = time.time()
    res = dict(task=name, props=list(t.props), obligations=[], status='ok', error=None, loops=[], inlined=[], applied=[], dropped=[], models=[],
               files=[], paths=0, runs=0, restarts=0)
    g = None
    try:
        prog = PROGRAMS[t.prog]()
        g = Gen(t, prog)
        t.gen(g)
    except ToolLimit as e:
        res['status'], res['error'] = 'toollimit', str(e)
        if os.environ.get('VCG_TRACE'):
            traceback.print_exc()
    except F.FrontendError as e:
        res['status'], res['error'] = 'frontend', str(e)
    except z3.Z3Exception as e:
        res['status'], res['error'] = 'toollimit', 'z3: ' + str(e)
        if os.environ.get('VCG_TRACE'):
            traceback.print_exc()
    except (KeyError, AttributeError, TypeError, IndexError, AssertionError, ValueError, StopIteration) as e:
        res['status'], res['error'] = 'toollimit', 'internal: %s: %s' % (type(e).__name__, e)
        if os.environ.get('VCG_TRACE'):
            traceback.print_exc()
    res['gen_s'] = round(time.time() - t0, 2)
    if g is None:
        return res
    for xp in g.xps:
        res['paths'] += xp.paths
        res['runs'] += xp.nruns
        res['restarts'] += xp.restarts
        for L in xp.loops.values():
            if L.cands:
                res['loops'].append([L.where, sorted(set(c[0] for c in L.cands))])
        for k in ('inlined', 'applied', 'dropped', 'models'):
            res[k] = sorted(set(res[k]) | set(getattr(xp, k)))
    res['files'] = sorted(os.path.relpath(p, F.REPO) for p in g.prog.tus)
    if res['status'] != 'ok':
        return res
    # vacuity: some path to the end must be satisfiable
    for xp in g.xps:
        alive = 0
        for pcs in xp.ends[:60]:
            s = z3.Solver()
            s.set('timeout', 3000)
            s.add(pcs)
            if s.check() != z3.unsat:
                alive += 1
                break
        if not alive:
            res['obligations'].append(dict(name='vacuity:' + xp.fname, detail='no feasible path reaches the end', tags=['vacuity'], status='failed', solver='z3',
                                           seconds=0, model='', why='vacuous', goal=''))
    lost = [0]

    def one(o):
        goal = b2(o.goal)
        if is_true(z3.simplify(goal)):
            r = dict(status='proved', solver='simplifier', seconds=0.0)
        elif time.time() - t0 > budget:
            r = dict(status='undecided', solver='', seconds=0, why='task budget')
        else:
            r = solve.discharge(o, deep=(tier == 'thorough' and not lost[0]), quick=lost[0] > 2)
            lost[0] += r['status'] != 'proved'
        r.update(name=o.name, detail=o.detail, tags=list(o.tags), fn=o.fn)
        if r['status'] != 'proved':
            r['goal'] = str(goal)[:1500]
            r['path'] = [str(x) for x in getattr(o, 'path', ())]
            if getattr(o, 'shaky', False) and r['status'] == 'failed' and r.get('why') != 'sat':
                r['status'], r['why'] = 'undecided', 'loop invariant inference ran out of time'
        return r
    res['obligations'] += solve.par_map(one, g.obls)
    res['wall_s'] = round(time.time() - t0, 2)
    return res


def _server():
    return Program(['common', 'libnymea-remoteproxy'], ns='remoteproxy')


def _client():
    return Program(['common', 'libnymea-remoteproxyclient'], ns='remoteproxyclient')


def _monitor():
    return Program(['monitor'], ns='Monitor')


def _tunnelclient():
    return Program(['tunnelclient'], ns='remoteproxyclient')


def _serverapp():
    return Program(['server'], ns='remoteproxy')


PROGRAMS = {'server': _server, 'client': _client, 'monitor': _monitor, 'tunnelclient': _tunnelclient, 'serverapp': _serverapp}
