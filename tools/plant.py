"""plant.py RECIPES.py [ID...] : make and confirm planted bugs (see DESIGN.md).
RECIPES.py defines SEEDS, a list of dict(id, prop, edits=[(file, old, new)], demo, needs, breaks).
plant.py --recheck [ID...] : run the checks of the properties against the planted bugs of /verif/seeded again.
Everything happens in copies under /tmp; nothing is written to /repo."""
import json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
DEMO = '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" MPLBACKEND=Agg\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', TRACEON_THREADS='1', OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', MALLOC_MMAP_THRESHOLD_='65536', PYTHONHASHSEED='0')


def sh(cmd, cwd, timeout=900, **kw):
    try:
        return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, timeout=timeout, env={**ENV, **kw})
    except subprocess.TimeoutExpired:
        return subprocess.CompletedProcess(cmd, 124, '', 'timeout')


def copy():
    d = tempfile.mkdtemp(prefix='plant-', dir='/tmp')
    r = os.path.join(d, 'repo')
    subprocess.run(['cp', '-a', '/repo', r], check=True)
    return d, r


def build(r):
    b = os.path.join(r, 'traceon/backend')
    return sh(['clang', '-O3', '-mavx', '-ffast-math', '-DNDEBUG', '-shared', '-fPIC', '-w', '-o', f'{b}/traceon_backend.so', f'{b}/traceon-backend.c', '-lm'], r)


def demo(sd, r):
    return sh(['bash', os.path.join(sd, 'demo.sh')], r, timeout=300)


def check(prop, r):
    c = sh([PY, f'{V}/harness/check.py', prop], V, VERIF_REPO=r, VERIF_SEED='1', VERIF_TIER='quick', VERIF_EVIDENCE='/tmp/plant-evidence')
    m = re.findall(r'clause (\w+)', c.stdout)
    return 'caught ' + ','.join(dict.fromkeys(m)) if c.returncode == 1 and 'VIOLATION' in c.stdout else f'missed (status {c.returncode}) {c.stderr[-300:]}'


def new(s):
    d, r = copy()
    sd = os.path.join(V, 'seeded', s['id'])
    try:
        os.makedirs(sd, exist_ok=True)
        open(f'{sd}/demo.sh', 'w').write(DEMO)
        open(f'{sd}/demo.py', 'w').write(s['demo'].lstrip('\n'))
        json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(f'{sd}/meta.json', 'w'), indent=1)
        x = demo(sd, r)
        if x.returncode:
            return s['id'], 'REJECTED demo fails on the unchanged tree ' + x.stderr[-500:]
        for f, old, neu in s['edits']:
            p = os.path.join(r, f)
            t = open(p).read()
            if t.count(old) != 1:
                return s['id'], f'REJECTED edit matches {t.count(old)} times in {f}: {old[:60]!r}'
            open(p, 'w').write(t.replace(old, neu))
        open(f'{sd}/patch.diff', 'w').write(sh(['git', 'diff'], r).stdout)
        for f in {e[0] for e in s['edits']}:
            base = sh(['git', 'show', 'b585d65:' + f], r).stdout.split('\n')
            gone = [l[1:] for l in sh(['git', 'diff', '-U0', f], r).stdout.split('\n') if l.startswith('-') and not l.startswith('---')]
            if any(l not in base for l in gone):
                return s['id'], 'REJECTED changes a line that is not original: ' + [l for l in gone if l not in base][0]
        x = build(r)
        if x.returncode:
            return s['id'], 'REJECTED does not build ' + x.stderr[-300:]
        x = demo(sd, r)
        if x.returncode == 0:
            return s['id'], 'REJECTED demo passes with the change'
        shown = x.stderr.strip().split('\n')[-1][:150]
        x = sh([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '-p', 'vp_seed', '--timeout=300', '-o', 'python_files=test_*.py *_test.py *_tests.py', 'tests'], r, PYTHONPATH=r + ':/opt/vp/pytest_plugins')
        if '109 passed' not in x.stdout:
            return s['id'], 'REJECTED the tests notice it ' + ' '.join(re.findall(r'FAILED \S+', x.stdout))[:300] + x.stdout[-200:]
        return s['id'], f'{s["prop"]} {check(s["prop"], r)} | demo: {shown}'
    finally:
        shutil.rmtree(d)


def recheck(i):
    sd = os.path.join(V, 'seeded', i)
    d, r = copy()
    try:
        x = sh(['git', 'apply', f'{sd}/patch.diff'], r)
        if x.returncode:
            return i, 'DOES NOT APPLY ' + x.stderr[-200:]
        build(r)
        p = json.load(open(f'{sd}/meta.json'))['property']
        return i, f'{p} {check(p, r)}'
    finally:
        shutil.rmtree(d)


if __name__ == '__main__':
    args = sys.argv[1:]
    par = int(os.environ.get('PAR', '3'))
    if args[0] == '--recheck':
        ids = args[1:] or sorted(os.listdir(f'{V}/seeded'))
        f, todo = recheck, ids
    else:
        g = {}
        exec(open(args[0]).read(), g)
        f, todo = new, [s for s in g['SEEDS'] if not args[1:] or s['id'] in args[1:]]
    with ThreadPoolExecutor(par) as ex:
        for i, res in ex.map(f, todo):
            print(i, res, flush=True)
            if res.startswith('REJECTED') and f is new:
                shutil.rmtree(os.path.join(V, 'seeded', i), ignore_errors=True)
