#!/usr/bin/env python3
"""check.py --property ID [--tier quick|thorough]

Generates the proof obligations of the property's contracts from /repo's current
sources, discharges them, and reports.  Exit 0: every obligation was discharged (or
what could not be handled was covered by the bounded stand-in, which found nothing).
Exit 1 with a VIOLATION line: an obligation failed."""
import argparse, json, os, subprocess, sys, time, multiprocessing as mp, shutil

VERIF = os.path.dirname(os.path.abspath(__file__))
VENV = '/opt/veriftools/pyvenv/bin/python'
if 'z3' not in sys.modules:
    try:
        import z3  # noqa
    except ImportError:
        os.execv(shutil.which('python3-vt') or VENV, ['python3-vt'] + sys.argv)
sys.path.insert(0, os.path.join(VERIF, 'vcg'))
sys.path.insert(0, os.path.join(VERIF, 'replay'))
sys.setrecursionlimit(20000)

SUPPORT = ('safety', 'inv', 'spec', 'vacuity', 'frame')


def load_specs():
    import importlib
    d = os.path.join(VERIF, 'vcg', 'specs')
    for f in sorted(os.listdir(d)):
        if f.endswith('.py') and not f.startswith('_'):
            importlib.import_module('specs.' + f[:-3])


def worker(name, tier, out):
    import task
    os.setpgid(0, 0)
    try:
        r = task.run_task(name, tier, budget=240 if tier == 'quick' else 700)
    except BaseException as e:   # noqa
        r = dict(task=name, status='toollimit', error='%s: %s' % (type(e).__name__, e), obligations=[], loops=[], inlined=[], applied=[], dropped=[], models=[],
                 files=[], paths=0, runs=0, restarts=0, props=[])
    with open(out, 'w') as f:
        json.dump(r, f)


def run_tasks(names, tier, limit):
    """one process per task: results do not depend on what else runs"""
    import tempfile
    tmp = tempfile.mkdtemp(prefix='vcg')
    import solve
    ctx = mp.get_context('fork')
    todo, running, res = list(names), {}, {}
    ncpu = solve.NCPU
    solve.TOKENS = ctx.Semaphore(ncpu)
    try:
        while todo or running:
            while todo and (solve.TOKENS.acquire(block=False) if running else solve.TOKENS.acquire()):
                n = todo.pop(0)
                out = os.path.join(tmp, '%d.json' % len(res) + n.replace('/', '_'))
                p = ctx.Process(target=worker, args=(n, tier, out))
                p.start()
                running[n] = (p, out, time.time())
            time.sleep(0.05)
            for n, (p, out, t0) in list(running.items()):
                if p.is_alive() and time.time() - t0 < limit:
                    continue
                if p.is_alive():
                    try:
                        os.killpg(p.pid, 9)
                    except OSError:
                        p.kill()
                p.join()
                solve.TOKENS.release()
                try:
                    res[n] = json.load(open(out))
                except (OSError, ValueError):
                    res[n] = dict(task=n, status='timeout', error='no result within %ds' % limit, obligations=[], loops=[], inlined=[], applied=[], dropped=[],
                                  models=[], files=[], paths=0, runs=0, restarts=0, props=[])
                del running[n]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--property', required=True)
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    pid = a.property
    load_specs()
    import task
    names = [n for n, t in task.TASKS.items() if pid in t.props]
    names.sort(key=lambda n: -task.TASKS[n].heavy)
    if not names:
        print('no tasks for', pid)
        return 2
    res = run_tasks(names, a.tier, 330 if a.tier == 'quick' else 750)
    total = proved = 0
    import findings
    seen_findings = {}
    bad, undecided, backend, secs, solved = [], [], {}, 0.0, 0
    for n in names:
        r = res[n]
        if r['status'] != 'ok':
            undecided.append(dict(task=n, why=r['status'], detail=r['error']))
        for o in r['obligations']:
            ps = [t for t in o['tags'] if t[:1] == 'C' and t[1:].isdigit()]
            if ps and pid not in ps:
                continue
            fid = [t[8:] for t in o['tags'] if t.startswith('finding:')]
            if fid and o['status'] != 'proved' and findings.text(pid, fid[0]):
                seen_findings.setdefault(fid[0], (findings.text(pid, fid[0]), o['name'], o.get('model')))
                continue
            total += 1
            secs += o.get('seconds') or 0
            if o['status'] == 'proved':
                proved += 1
                backend[o['solver']] = backend.get(o['solver'], 0) + 1
            else:
                e = dict(task=n, obligation=o['name'], detail=o.get('detail'), function=o.get('fn'), why=o.get('why'), goal=o.get('goal'), path=o.get('path'),
                         model=o.get('model'), solver=o.get('solver'))
                (bad if o['status'] == 'failed' else undecided).append(e)
    if a.v:
        for n in names:
            r = res[n]
            print('%-32s %-9s %s obls=%d paths=%d %.1fs' % (n, r['status'], r['error'] or '', len(r['obligations']), r['paths'], r.get('wall_s') or 0))
        for e in bad + undecided:
            print('  !!', json.dumps(e)[:900])
    viol, known, bounded = 0, [], None
    replay_path = None
    lines = []
    need_native = bool(bad or undecided or total == 0 or a.tier == 'thorough')
    if need_native:
        import native
        left = 840 - (time.time() - t0)
        bounded = native.search(pid, a.tier, seed, max(60, min(left - 60, 240 if a.tier == 'quick' else 420)))
        if bounded.get('known'):
            known = bounded['known']
    rdir = os.path.join(VERIF, 'evidence', 'replays')
    os.makedirs(rdir, exist_ok=True)
    if bounded and bounded.get('failure'):
        viol = 1
        replay_path = os.path.join(rdir, '%s.json' % pid)
        json.dump(dict(property=pid, kind='failing-input', failing_input=bounded['failure'], failed_obligations=bad, undecided=undecided,
                       how=bounded.get('how')), open(replay_path, 'w'), indent=1)
        lines.append('VIOLATION property=%s replay=%s' % (pid, replay_path))
    elif bad:
        viol = 1
        replay_path = os.path.join(rdir, '%s.json' % pid)
        json.dump(dict(property=pid, kind='failed-obligation', failed_obligations=bad, undecided=undecided,
                       native_search={k: v for k, v in (bounded or {}).items() if k != 'failure'}), open(replay_path, 'w'), indent=1)
        lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, replay_path))
    for e in bad[:8]:
        print('failed obligation: %s [%s] in %s (%s)' % (e['obligation'], e['detail'] or '', e['function'], e['why']))
    for e in undecided[:8]:
        print('not decided: %s' % (e.get('obligation') or e['task'] + ': ' + str(e.get('detail'))))
    for k, (txt, _, _) in sorted(seen_findings.items()):
        print('KNOWN-FINDING: property=%s %s' % (pid, txt))
    fully = not bad and not undecided and total > 0
    fns = sorted(set(f for n in names for f in task.TASKS[n].fns))
    ev = dict(property=pid, tier=a.tier, seed=seed, level='proof', wall_s=round(time.time() - t0, 2), violations=viol,
              assumptions=sorted(set(x for n in names for x in trusted(res[n]))) + TRUST,
              coverage=dict(obligations=total, discharged=proved, checker_cmd='check.py --property %s --tier %s (z3 %s in process, cvc5 for what z3 leaves open)' % (pid, a.tier, z3.get_version_string()),
                            trusted_base=TRUST, backends=backend, solver_seconds=round(secs, 2), generation_seconds=round(sum(r.get('gen_s') or 0 for r in res.values()), 2),
                            functions_under_contract=fns, functions_inlined=sorted(set(x for r in res.values() for x in r['inlined'])),
                            contracts_applied_at_calls=sorted(set(x for r in res.values() for x in r['applied'])),
                            statements_dropped=sorted(set(x for r in res.values() for x in r['dropped'])),
                            qt_operations_modelled=sorted(set(x for r in res.values() for x in r['models'])),
                            loops=[dict(at=w, invariants=c) for r in res.values() for w, c in dedup(r['loops'])],
                            paths=sum(r['paths'] for r in res.values()), tasks={n: dict(status=res[n]['status'], obligations=len(res[n]['obligations']), seconds=res[n].get('wall_s')) for n in names},
                            sources_read=sorted(set(x for r in res.values() for x in r['files'])),
                            fully_proved=fully, known_findings={k: dict(finding=t, obligation=o) for k, (t, o, _) in seen_findings.items()}, failed=[e['obligation'] for e in bad], not_decided=undecided,
                            bounded_stand_in=({k: v for k, v in bounded.items() if k != 'failure'} if bounded else 'not needed: every obligation was discharged')))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
    if fully:
        print('property %s: %d obligations discharged (%s), %.1f s' % (pid, proved, ', '.join('%s %d' % kv for kv in sorted(backend.items())), time.time() - t0))
    elif not viol:
        print('property %s: %d of %d obligations discharged; the rest is covered by the bounded stand-in only (%s)' % (pid, proved, total, (bounded or {}).get('what')))
    for l in lines:
        print(l)
    return 1 if viol else 0


def dedup(ls):
    seen, out = set(), []
    for w, c in ls:
        k = (w, tuple(c))
        if k not in seen:
            seen.add(k)
            out.append((w, c))
    return out


def trusted(r):
    return ['assumed contract at calls: ' + x for x in r['applied'] if x.startswith('qt::')]


TRUST = ["clang 18's AST of the sources (front end, template instantiation, overload resolution)",
         'the obligation generator in /verif/vcg (executor, loop rule, Qt container/string/variant models written from the Qt 5.15 documentation)',
         'z3 and cvc5',
         'Qt 5.15 itself (event loop, moc dispatch, sockets, JSON parser/serialiser)',
         'debug/log statements are dropped (they are checked to be free of calls that could change state)',
         'one thread: every slot runs to completion on the event loop thread',
         'allocation never fails']

if __name__ == '__main__':
    try:
        rc = main()
    except SystemExit:
        raise
    sys.stdout.flush()
    sys.exit(rc)
