#!/usr/bin/env python3
"""mkseed.py DEF.py [ID...]: build /verif/seeded/<id>/ from a definition file and validate it in a
scratch copy of /repo (demo passes without, builds, tests pass, demo fails with the patch)."""
import json, os, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCR = '/tmp/seedscratch'


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = sys.argv[2:]
    bad = 0
    for sd in ns['SEEDS']:
        if only and sd['id'] not in only:
            continue
        d = os.path.join(ROOT, 'seeded', sd['id'])
        tmp = '/tmp/seedtmp'
        if os.path.exists(tmp):
            shutil.rmtree(tmp)
        os.makedirs(tmp)
        err = None
        # patch (made on a pristine export)
        for f, o, n in sd['edits']:
            p = os.path.join('/repo', f)
            t = open(p).read()
            if t.count(o) < 1:
                err = 'no match in %s: %r' % (f, o)
                break
            if t.count(o) > 1 and not sd.get('multi'):
                err = '%d matches in %s: %r' % (t.count(o), f, o)
                break
        if err:
            print(sd['id'], 'BAD', err); bad += 1
            continue
        try:
            cache = {}
            for f, o, n in sd['edits']:
                t = cache.get(f) or open(os.path.join('/repo', f)).read()
                assert o in t, (f, o)
                cache[f] = t.replace(o, n, 1)
            for f, t in cache.items():
                open(os.path.join('/repo', f), 'w').write(t)
            diff = subprocess.run(['git', '-C', '/repo', 'diff'], stdout=subprocess.PIPE, text=True).stdout
        finally:
            sh('git -C /repo checkout -- .')
        open(tmp + '/patch.diff', 'w').write(diff)
        if 'demo_sh' in sd:
            open(tmp + '/demo.sh', 'w').write(sd['demo_sh'])
            for fn, tx in sd.get('files', {}).items():
                open(os.path.join(tmp, fn), 'w').write(tx)
        else:
            shutil.copy(os.path.join(ROOT, 'tools', 'seeds', 'demo.sh'), tmp + '/demo.sh')
            shutil.copy(os.path.join(ROOT, 'replay', 'fake.h'), tmp + '/fake.h')
            for fn, tx in sd.get('files', {}).items():
                open(os.path.join(tmp, fn), 'w').write(tx)
            open(tmp + '/demo.cpp', 'w').write('#include "fake.h"\n' + sd.get('pre', '') + '\nint main(int argc, char **argv) {\n    QCoreApplication app(argc, argv);\n    Bed b;\n' + sd['demo'] + '\n    return g_bad ? 1 : 0;\n}\n')
        json.dump(dict(property=sd['prop'], needs=sd['needs'], what_it_breaks=sd['breaks']), open(tmp + '/meta.json', 'w'), indent=1)
        sh("bash /opt/vp/build.sh")
        r0 = sh('bash %s/demo.sh' % tmp, cwd='/repo')
        # with the patch: /repo's path is fixed in build.sh, so patch the real tree and restore it
        try:
            a = sh('git -C /repo apply --whitespace=nowarn %s/patch.diff' % tmp)
            tj = '/tmp/seedtest.json'
            sh('bash /opt/vp/test.sh %s' % tj)
            res = json.load(open(tj)) if os.path.exists(tj) else dict(passed=[], failed=['none'])
            base = json.load(open('/opt/vp/BASELINE.json'))
            names = base.get('stable') or base.get('passed') or base.get('tests') or base
            missing = [n for n in names if n not in res['passed']]
            r1 = sh('bash %s/demo.sh' % tmp, cwd='/repo')
        finally:
            sh('git -C /repo checkout -- .')
        ok = r0.returncode == 0 and r1.returncode not in (0, 2) and not missing and a.returncode == 0
        print(sd['id'], sd['prop'], 'OK' if ok else 'BAD', 'clean', r0.returncode, 'patched', r1.returncode, 'tests missing', missing[:4], a.stdout[:200])
        if not ok:
            bad += 1
            print(r0.stdout[-1500:], '-----', r1.stdout[-1500:])
            continue
        if os.path.exists(d):
            shutil.rmtree(d)
        shutil.copytree(tmp, d)
        sys.stdout.flush()
    sh('bash /opt/vp/build.sh')
    return bad


sys.exit(main())
