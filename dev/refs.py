"""dev/refs.py FILE: applies every hand-written behaviour-preserving edit of FILE at once to a scratch copy, runs the tests there and all checks; prints alarms"""
import sys, os, subprocess, shutil, json
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/refs_' + os.path.basename(sys.argv[1])[:-3]
shutil.rmtree(W, ignore_errors=True)
os.makedirs(W)
subprocess.check_call('cp -a /repo %s/repo' % W, shell=True)
R = W + '/repo'
files = set()


def edit(f, eds):
    files.add(f)
    p = R + '/pybrain/' + f
    t = open(p).read()
    for a, b in eds:
        if t.count(a) != 1:
            ls = t.split('\n')
            sig = [(k, l.rstrip()) for k, l in enumerate(ls) if l.strip() and not l.strip().startswith('#')]
            want = [l.rstrip() for l in a.split('\n') if l.strip() and not l.strip().startswith('#')]
            at = [i for i in range(len(sig) - len(want) + 1) if [x for k, x in sig[i:i + len(want)]] == want]
            if len(at) == 1:
                i = at[0]
                ls[sig[i][0]:sig[i + len(want) - 1][0] + 1] = b.rstrip('\n').split('\n')
                t = '\n'.join(ls)
                continue
            print('%s: matches %d times: %s' % (f, t.count(a), a[:80].replace('\n', '|')))
            continue
        t = t.replace(a, b)
    open(p, 'w').write(t)


exec(open(sys.argv[1]).read())
for n in ('build.sh', 'test.sh', 'build_check.py'):
    t = open('/opt/vp/' + n).read().replace('/repo', R).replace('/opt/vp/build_check.py', W + '/build_check.py')
    open(W + '/' + n, 'w').write(t)
c = subprocess.run('bash %s/build.sh && bash %s/test.sh %s/out.json' % (W, W, W), shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
base = json.load(open('/opt/vp/BASELINE.json'))['stable']
got = json.load(open(W + '/out.json'))['passed']
print('tests lost:', sorted(set(base) - set(got))[:5])
props = sorted(f[:-3] for f in os.listdir(HERE + '/specs') if f.startswith('P') and f.endswith('.py'))
from concurrent.futures import ThreadPoolExecutor


def run(p):
    return p, subprocess.run('SA_REPO=%s timeout 900 python3 check.py %s -v' % (R, p), shell=True, cwd=HERE, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)


with ThreadPoolExecutor(7) as ex:
    for p, r in ex.map(run, props):
        ls = r.stdout.split('\n')
        for i, l in enumerate(ls):
            if l.startswith(('refuted', 'undecided')) and not (len(sys.argv) < 3 and l.startswith('undecided')):
                print(p, l[:120])
                for x in ls[i + 1:i + 5]:
                    if x.startswith('   '):
                        print('      ', x.strip()[:int(os.environ.get('CL', '420'))])
        und = [l.split()[1].split('.', 1)[1] for l in ls if l.startswith('undecided')]
        if und:
            print(p, 'undecided:', ' '.join(und)[:300])
