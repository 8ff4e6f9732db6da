"""Bounded native search: the real sources, compiled from /repo's working tree, driven with random
operation sequences and compared with a reference model.  Used to look for a concrete failing input
when an obligation fails, as bounded stand-in where an obligation could not be generated or decided,
and in the thorough tier as a cross check of the generator."""
import glob, json, os, re, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
CORE = {'C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C13', 'C16'}
PROGS = {p: ('bed.cpp', 'libnymea-remoteproxy') for p in CORE}
PROGS.update({p: ('client.cpp', 'libnymea-remoteproxyclient') for p in ('C18', 'C19', 'C20', 'C21', 'C22')})


def pkg(*a):
    return subprocess.run(['pkg-config'] + list(a) + ['Qt5Core', 'Qt5Network', 'Qt5WebSockets'], capture_output=True, text=True).stdout.split()


def build(prog, lib, tmp, defs=()):
    """compile the library's sources and the test bed; -> path or error text"""
    src = os.path.join(REPO, lib)
    cpps = [f for f in glob.glob(src + '/**/*.cpp', recursive=True)] + glob.glob(REPO + '/common/*.cpp')
    hs = [f for f in glob.glob(src + '/**/*.h', recursive=True)] + glob.glob(REPO + '/common/*.h')
    os.makedirs(os.path.join(tmp, 'sub'), exist_ok=True)
    with open(os.path.join(tmp, 'version.h'), 'w') as f:      # generated by qmake otherwise
        try:
            f.write(re.sub(r"'\"\$\$[^']*\"'", '"0"', open(os.path.join(REPO, 'version.h.in')).read()))
        except OSError:
            pass
    inc = ['-I' + src, '-I' + REPO, '-I' + os.path.join(REPO, 'common'), '-I' + HERE, '-I' + os.path.join(tmp, 'sub'), '-I' + tmp] + pkg('--cflags')
    flags = ['-std=gnu++11', '-O1', '-fPIC', '-w', '-fno-access-control', '-DQT_NO_DEBUG', '-DQT_DISABLE_DEPRECATED_UP_TO=0x050F00'] + list(defs) + inc
    jobs = []
    for h in hs:
        if re.search(r'Q_OBJECT|Q_GADGET|Q_NAMESPACE', open(h, errors='replace').read()):
            o = os.path.join(tmp, 'moc_' + os.path.relpath(h, REPO).replace('/', '_') + '.cpp')
            r = subprocess.run(['moc'] + [f for f in inc if f.startswith('-I')] + [h, '-o', o], capture_output=True, text=True)
            if r.returncode:
                return None, 'moc: ' + r.stderr[-400:]
            cpps.append(o)
    # the test bed itself takes longest: first
    for n, c in enumerate([os.path.join(HERE, prog)] + cpps):
        jobs.append((c, os.path.join(tmp, 'o%d.o' % n)))

    def cc(j):
        return subprocess.run(['g++'] + flags + ['-c', j[0], '-o', j[1]], capture_output=True, text=True)
    with ThreadPoolExecutor(max_workers=min(8, os.cpu_count() or 4)) as ex:
        for j, r in zip(jobs, ex.map(cc, jobs)):
            if r.returncode:
                return None, 'compiling %s: %s' % (os.path.basename(j[0]), r.stderr[-600:])
    out = os.path.join(tmp, 'prog')
    r = subprocess.run(['g++', '-o', out] + [j[1] for j in jobs] + pkg('--libs'), capture_output=True, text=True)
    if r.returncode:
        return None, 'linking: ' + r.stderr[-600:]
    return out, None


def search(pid, tier, seed, secs):
    if pid not in PROGS:
        return dict(what='no native test bed for this property')
    prog, lib = PROGS[pid]
    tmp = tempfile.mkdtemp(prefix='native')
    try:
        exe, err = build(prog, lib, tmp)
        if not exe:
            return dict(what='the native test bed could not be built', error=err)
        workers = min(8, os.cpu_count() or 4)
        run = int(min(secs - 60, 40 if tier == 'quick' else 240))
        if run < 5:
            run = 5
        procs = [subprocess.Popen([exe, pid, str(seed * 1000 + w), str(run)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, cwd=tmp,
                                  env=dict(os.environ, QT_LOGGING_RULES='*=false', QT_QPA_PLATFORM='offscreen')) for w in range(workers)]
        fails, steps = [], 0
        for w, p in enumerate(procs):
            try:
                out, _ = p.communicate(timeout=run + 120)
            except subprocess.TimeoutExpired:
                p.kill()
                out, _ = p.communicate()
                continue
            line = (out.strip().split('\n') or [''])[-1]
            if p.returncode == 1:
                try:
                    d = json.loads(line)
                    d['seed'] = seed * 1000 + w
                    fails.append(d)
                except ValueError:
                    pass
            elif p.returncode == 0:
                try:
                    steps += json.loads(line).get('runs', 0)
                except ValueError:
                    pass
            elif p.returncode < 0:
                fails.append(dict(property=pid, what='the code under test crashed (signal %d)' % -p.returncode, steps=[], seed=seed * 1000 + w, crash=True))
        r = dict(what='bounded native search: %d random runs by %d processes in %d s, seeds %d..%d' % (steps, workers, run, seed * 1000, seed * 1000 + workers - 1),
                 how='compiled from the working tree: %s, %s PROPERTY SEED SECONDS' % (lib, prog))
        fails.sort(key=lambda d: (bool(d.get('crash')), len(d.get('steps', []))))
        if fails:
            r['failure'] = fails[0]
        return r
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    import sys
    print(json.dumps(search(sys.argv[1], 'quick', int(sys.argv[2]) if len(sys.argv) > 2 else 1, int(sys.argv[3]) if len(sys.argv) > 3 else 100), indent=1))
