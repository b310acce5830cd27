"""dev/seed.py FILE: verifies planted bugs described in FILE (a python file calling seed(...)) in scratch copies and stores the good ones in seeded/"""
import os, sys, json, subprocess, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDS = []
DEMO = '''#!/bin/bash
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OPENBLAS_NUM_THREADS=1 MPLBACKEND=Agg
exec /opt/pypyvenv/bin/python -W ignore "$(dirname "$0")/demo.py"
'''


def seed(id, prop, edits, demo, needs, breaks):
    SEEDS.append((id, prop, edits, demo, needs, breaks))


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, **k)


def one(s):
    id, prop, edits, demo, needs, breaks = s
    w = tempfile.mkdtemp(prefix='seed_')
    try:
        r = w + '/repo'
        sh('cp -a /repo %s' % r)
        sh('git checkout -q -- .', cwd=r)
        d = w + '/d'
        os.mkdir(d)
        open(d + '/demo.sh', 'w').write(DEMO)
        open(d + '/demo.py', 'w').write(demo.lstrip('\n'))
        a = sh('timeout 250 bash %s/demo.sh' % d, cwd=r)
        if a.returncode:
            return id, 'demo fails on the unchanged tree:\n' + a.stdout[-1500:]
        for f, old, new in edits:
            p = r + '/pybrain/' + f
            t = open(p).read()
            if t.count(old) != 1:
                return id, 'edit matches %d times in %s' % (t.count(old), f)
            open(p, 'w').write(t.replace(old, new))
        diff = sh('git diff', cwd=r).stdout
        b = sh('timeout 250 bash %s/demo.sh' % d, cwd=r)
        if b.returncode == 0:
            return id, 'demo passes with the patch'
        for n in ('build.sh', 'test.sh', 'build_check.py'):
            t = open('/opt/vp/' + n).read().replace('/repo', r).replace('/opt/vp/build_check.py', w + '/build_check.py')
            open(w + '/' + n, 'w').write(t)
        c = sh('bash %s/build.sh' % w)
        if c.returncode:
            return id, 'build fails: ' + c.stdout[-500:]
        c = sh('bash %s/test.sh %s/out.json' % (w, w))
        base = json.load(open('/opt/vp/BASELINE.json'))['stable']
        got = json.load(open(w + '/out.json'))['passed']
        lost = set(base) - set(got)
        if lost:
            return id, 'tests lost: %s' % sorted(lost)[:5]
        t = HERE + '/seeded/' + id
        os.makedirs(t, exist_ok=True)
        open(t + '/patch.diff', 'w').write(diff)
        shutil.copy(d + '/demo.sh', t)
        shutil.copy(d + '/demo.py', t)
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(t + '/meta.json', 'w'), indent=1)
        return id, 'KEPT  (%s)' % (b.stdout.strip().split('\n')[-1][:150])
    finally:
        shutil.rmtree(w, ignore_errors=True)


exec(open(sys.argv[1]).read())
only = sys.argv[2:]
with ThreadPoolExecutor(3) as ex:
    for i, m in ex.map(one, [s for s in SEEDS if not only or s[0] in only]):
        print(i, ':', m)
