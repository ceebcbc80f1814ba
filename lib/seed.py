#!/usr/bin/env python3
"""Helper for planted bugs (no check uses it).
  seed.py make FILE.py   - write seeded/<id>/ for every bug described in FILE.py (list BUGS)
  seed.py try ID...      - confirm bugs in throw-away copies of /repo: build, tests, demo and the check of the property
"""
import json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = V + '/lib/seedlib/'

def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def make(f):
    ns = {}
    exec(open(f).read(), ns)
    only = sys.argv[3:]
    for b in ns['BUGS']:
        if only and b['id'] not in only:
            continue
        w = '/tmp/seedw'
        shutil.rmtree(w, ignore_errors=True)
        sh('git clone -qs /repo ' + w, check=True)
        for file, old, new in b['edits']:
            p = w + '/knp/' + file
            s = open(p, newline='').read()
            if '\r\n' in s:
                old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
            assert s.count(old) == 1, (b['id'], file, s.count(old), old)
            open(p, 'w', newline='').write(s.replace(old, new))
        d = V + '/seeded/' + b['id']
        os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'wb').write(subprocess.run(['git', '-C', w, 'diff'], stdout=subprocess.PIPE, check=True).stdout)
        json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']), open(d + '/meta.json', 'w'), indent=1)
        demo = b['demo']
        if demo.startswith('#!'):
            open(d + '/demo.sh', 'w').write(demo)
        else:
            shutil.copy(S + 'demo.sh', d)
            open(d + '/demo.cpp', 'w').write(demo)
            for h in ('demo.h', 'st.h', 'mt.h'):
                if h in demo or h == 'demo.h':
                    shutil.copy(S + h, d)
        os.chmod(d + '/demo.sh', 0o755)
        print('made', b['id'])
    shutil.rmtree('/tmp/seedw', ignore_errors=True)

SCRIPT = r'''
set -u
mount --bind $T/repo /repo; mount --bind $T/build /verif/build; mount --bind $T/evidence /verif/evidence; mount --bind $T/replays /verif/replays
cd /repo
git apply $T/b/patch.diff || { echo "RESULT patch does not apply"; exit; }
bash /opt/vp/build.sh > $T/build.log 2>&1 || { echo "RESULT does not build"; tail -20 $T/build.log; exit; }
bash /opt/vp/test.sh $T/out.json > $T/test.log 2>&1
python3 - $T/out.json <<'P' || { echo "RESULT tests fail"; exit; }
import json,sys
o=json.load(open(sys.argv[1])); b=json.load(open('/opt/vp/BASELINE.json'))
base=b.get('stable') or b.get('passed') or b.get('tests') or b
passed=o.get('passed') or o
bad=[t for t in base if t not in passed]
print('failing tests', bad[:10]) if bad else None
sys.exit(1 if bad else 0)
P
timeout 300 bash $T/b/demo.sh > $T/demo.log 2>&1; rc=$?
if [ $rc = 0 ]; then echo "RESULT demo does not fail"; exit; fi
tail -2 $T/demo.log
[ $rc = 2 ] && { echo "RESULT demo does not build"; exit; }
cd /verif
for c in $CHECKS; do
python3 run.py $c > $T/check.log 2>&1; rc=$?
echo "CHECK $c exit $rc $(grep -m1 VIOLATION $T/check.log)"
done
'''

def trybug(i, checks=None):
    d = V + '/seeded/' + i
    prop = json.load(open(d + '/meta.json'))['property']
    T = '/tmp/sd/' + i
    shutil.rmtree(T, ignore_errors=True)
    os.makedirs(T)
    for x in ('build', 'evidence', 'replays'):
        os.makedirs(T + '/' + x)
    sh('cp -a /repo %s/repo; cp -a %s %s/b; rm -f %s/b/*~' % (T, d, T, T))
    r0 = sh('timeout 300 bash %s/demo.sh' % d, cwd='/repo')
    res = ''
    if r0.returncode:
        res = 'RESULT demo fails on the clean tree\n' + r0.stdout[-600:]
    else:
        res = sh('unshare -Urm bash -s', input=SCRIPT, env=dict(os.environ, T=T, CHECKS=' '.join(checks or [prop]))).stdout
    sh('rm -rf ' + T)
    ok = 'exit 1 VIOLATION' in res
    print('==', i, prop, 'CAUGHT' if ok else 'NOT CAUGHT')
    if not ok or '-v' in sys.argv:
        print(res)
    else:
        print('  ', res.strip().split('\n')[0][:160])
    sys.stdout.flush()

if sys.argv[1] == 'make':
    make(sys.argv[2])
else:
    ids = [a for a in sys.argv[2:] if not a.startswith('-')] or sorted(os.listdir(V + '/seeded'))
    with ThreadPoolExecutor(int(os.environ.get("J", 3))) as ex:
        list(ex.map(trybug, ids))
