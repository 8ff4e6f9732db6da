#!/usr/bin/env python3
"""mutate.py [--n N] [--seed S] [--files SUBSTR] : mutation analysis.  Plants small random faults (one
statement deleted, one condition negated, one operator or constant changed) in a copy of /repo, runs the
tasks whose functions are declared for that class (all tasks of the file's program), and lists the
faults no obligation notices.  Development tool, not a check."""
import json, os, random, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MREPO', '/repo')
L, C = 'libnymea-remoteproxy/', 'libnymea-remoteproxyclient/'
SCR = '/tmp/mutscratch'
LOG = re.compile(r'\bq(C)?(Debug|Info|Warning|Critical)\b|Q_UNUSED|dc[A-Z]\w*\(\)')


def files():
    out = []
    for d in (L, C, 'common/', 'monitor/', 'tunnelclient/', 'server/'):
        for b, _, fs in os.walk(os.path.join(REPO, d)):
            out += [os.path.relpath(os.path.join(b, f), REPO) for f in fs if f.endswith('.cpp')]
    return sorted(f for f in out if 'logengine' not in f and 'terminalwindow' not in f and 'loggingcat' not in f and 'utils' not in f)


def sites(f):
    lines = open(os.path.join(REPO, f)).read().split('\n')
    depth, out, infn = 0, [], False
    for n, l in enumerate(lines):
        s = l.strip()
        inside = l.startswith('    ') or l.startswith('\t')
        if inside and s and not s.startswith('//') and not s.startswith('*') and not s.startswith('connect(') and not LOG.search(l) or s.startswith('connect('):
            if re.match(r'[\w.>\-\[\]()*&:, "|+]+\(.*\);$|[\w.>\-\[\]]+ *[-+|]?= .*;$|delete .*;$|emit .*;$|(return|continue|break);$', s) and not re.match(r'(return|case|else)\b.*\S', s) or s in ('return;', 'continue;', 'break;'):
                if s.count('(') == s.count(')') and not re.match(r'^[A-Z]\w+(<.*>)? [*&]?\w+( =.*)?;$', s):
                    out.append((n, 'delete', l, re.sub(r'\S.*', ';', l, 1)))
            m = re.match(r'(\s*(?:\} else )?if \()(.*)(\)( \{)?)$', l)
            if m and m.group(2).count('(') == m.group(2).count(')'):
                out.append((n, 'negate', l, m.group(1) + '!(' + m.group(2) + ')' + m.group(3)))
                out.append((n, 'never', l, m.group(1) + '(' + m.group(2) + ') && false' + m.group(3)))
                out.append((n, 'always', l, m.group(1) + '(' + m.group(2) + ') || true' + m.group(3)))
            for a, b in ((' == ', ' != '), (' != ', ' == '), (' < ', ' <= '), (' > ', ' >= '), (' >= ', ' > '), (' <= ', ' < '), (' && ', ' || '), (' || ', ' && '), ('true', 'false'), ('false', 'true'), (' + ', ' - '), ('++', '--')):
                if a in l and not re.search(r'template|#include', l):
                    out.append((n, a + '->' + b, l, l.replace(a, b, 1)))
            m = re.search(r'(?<![\w."])(\d+)(?![\w."])', l)
            if m:
                out.append((n, 'const', l, l[:m.start()] + str(int(m.group(1)) + 1) + l[m.end():]))
    return [(f,) + x for x in out if x[2] != x[3]]


CODE = '''
import sys, json; sys.setrecursionlimit(20000)
sys.path[:0] = [%r, %r]
import check, task
check.load_specs()
names = %r
names.sort(key=lambda n: -task.TASKS[n].heavy)
res = check.run_tasks(names, 'quick', 300)
bad, und = [], []
for n in names:
    x = res[n]
    if x['status'] != 'ok': und.append((n, x['status'], str(x['error'])[:150]))
    for o in x['obligations']:
        if o['status'] != 'proved' and not any(t.startswith('finding:') for t in o['tags']):
            (bad if o['status'] == 'failed' else und).append((n, o['status'], o['name']))
print(json.dumps(dict(n=len(names), bad=bad[:3], und=und[:3])))
'''


BASE = '/tmp/mutbase.json'
MK = '''
import sys, json; sys.setrecursionlimit(20000)
sys.path[:0] = [%r, %r]
import check, task
check.load_specs()
names = sorted(task.TASKS, key=lambda n: -task.TASKS[n].heavy)
res = check.run_tasks(names, 'quick', 600)
json.dump({n: dict(fns=list(task.TASKS[n].fns), inl=list(res[n]['inlined']), prog=task.TASKS[n].prog, ok=res[n]['status'] == 'ok' and all(o['status'] == 'proved' or any(t.startswith('finding:') for t in o['tags']) for o in res[n]['obligations']), s=res[n].get('wall_s')) for n in names}, open(%r, 'w'))
'''


def enclosing(f, n):
    lines = open(os.path.join(REPO, f)).read().split('\n')
    for i in range(n, -1, -1):
        if lines[i][:1] not in (' ', '', '{', '}', '#', '\t', '/'):
            m = re.search(r'(\w+)::(~?\w+)\(', lines[i]) or re.search(r'()\b(\w+)\(', lines[i])
            if m:
                return m.group(1), m.group(2)
    return None, None


def progs(f):
    return {'monitor': ['monitor'], 'tunnelclient': ['tunnelclient'], 'server': ['serverapp'], 'common': ['server', 'client'], L[:-1]: ['server'], C[:-1]: ['client']}[f.split('/')[0]]


def tasks_of(f, n):
    c, m = enclosing(f, n)
    if m is None:
        return []
    key = c + '::' + m if c else m
    out = []
    for t, b in json.load(open(BASE)).items():
        if b['prog'] in progs(f) and b['ok'] and any(x.split('|')[0].split(' ')[0].endswith(key) for x in b['fns'] + b['inl']):
            out.append(t)
    return out


def run(job):
    k, (f, n, what, old, new) = job
    d = '%s/%d' % (SCR, k)
    if os.path.exists(d):
        shutil.rmtree(d)
    shutil.copytree(REPO, d, ignore=shutil.ignore_patterns('_build', '.git'))
    p = os.path.join(d, f)
    t = open(p).read().split('\n')
    assert t[n] == old
    t[n] = new
    open(p, 'w').write('\n'.join(t))
    flags = subprocess.run(['pkg-config', '--cflags', 'Qt5Core', 'Qt5Network', 'Qt5WebSockets'], capture_output=True, text=True).stdout.split()
    lib = os.path.dirname(f).split('/')[0]
    c = subprocess.run(['g++', '-std=gnu++11', '-fsyntax-only', '-w', '-fPIC', '-I' + d, '-I' + os.path.join(d, lib), '-I' + os.path.join(d, 'common'), '-I' + os.path.join(d, L if lib == 'server' else C if lib == 'tunnelclient' else lib), '-I/repo/_build', '-I/repo/_build/server', '-I/repo/_build/monitor', '-DSERVER_NAME_STRING="a"', '-DSERVER_VERSION_STRING="a"', '-DAPI_VERSION_STRING="1.0"', '-DCOPYRIGHT_YEAR_STRING="1"'] + flags + [p],
                       capture_output=True, text=True)
    r = None
    if c.returncode:
        r = 'nocompile'
    else:
        names = tasks_of(f, n)
        if not names:
            print('NOTASK     %s:%d %s | %s in %s' % (f, n + 1, what, old.strip()[:110], enclosing(f, n)))
            shutil.rmtree(d, ignore_errors=True)
            return 'notask'
        code = CODE % (ROOT, os.path.join(ROOT, 'vcg'), names)
        x = subprocess.run(['python3-vt', '-c', code], capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=d))
        try:
            j = json.loads(x.stdout.strip().split('\n')[-1])
            r = ('KILLED', j['bad'][:1]) if j['bad'] else ('UNDECIDED', j['und'][:2]) if j['und'] else ('SURVIVED', j['n'])
        except ValueError:
            r = ('ERROR', x.stderr[-300:])
    shutil.rmtree(d, ignore_errors=True)
    if r != 'nocompile':
        print('%-10s %s:%d %s | %s   ==> %s | %s' % (r[0], f, n + 1, what, old.strip()[:110], new.strip()[:110], r[1]))
        sys.stdout.flush()
    return r if isinstance(r, str) else r[0]


def main():
    if not os.path.exists(BASE):
        subprocess.run(['python3-vt', '-c', MK % (ROOT, os.path.join(ROOT, 'vcg'), BASE)], env=dict(os.environ, VERIF_REPO=REPO))
    a = sys.argv[1:]
    opt = lambda k, d: a[a.index(k) + 1] if k in a else d
    n, seed, fs, w = int(opt('--n', '100')), int(opt('--seed', '1')), opt('--files', ''), int(opt('--workers', '1'))
    S = [s for f in files() if any(x in f for x in fs.split(',')) for s in sites(f)]
    random.Random(seed).shuffle(S)
    if '--list' in a:
        print(len(S))
        for s in S[:n]:
            print(s)
        return
    with ThreadPoolExecutor(w) as ex:
        rs = list(ex.map(run, enumerate(S[:n])))
    print({k: rs.count(k) for k in set(rs)}, 'of', len(S), 'sites')
    shutil.rmtree(SCR, ignore_errors=True)


main()
