"""Development aid: plant a bug in a scratch copy, confirm it (tests pass, demo fails with / passes without), store it, run checks.
usage: seedlib.add(id, prop, needs, breaks, edits=[(file, old, new)], demo='python code', checks=[...])"""
import json, os, shutil, subprocess, sys, tempfile
V = '/verif'
ENV = dict(os.environ, MPLBACKEND='agg', SDL_VIDEODRIVER='dummy', SDL_AUDIODRIVER='dummy', PYTHONDONTWRITEBYTECODE='1',
           PYTHONHASHSEED='0', OMP_NUM_THREADS='1', MKL_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', TORCH_FORCE_NO_WEIGHTS_ONLY_LOAD='1')
DEMO_SH = '''#!/bin/bash
# exit 0 when the behaviour is right, nonzero otherwise; run with cwd = root of the repository
D=$(cd "$(dirname "$0")" && pwd)
export MPLBACKEND=agg SDL_VIDEODRIVER=dummy SDL_AUDIODRIVER=dummy PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 TORCH_FORCE_NO_WEIGHTS_ONLY_LOAD=1
PYTHONPATH=$PWD exec timeout 200 /opt/venv/bin/python -W ignore "$D/demo.py"
'''


def tests(w):
    out = w + '.xml'
    subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=300', '--continue-on-collection-errors',
                    '-n', '8', '-o', 'junit_family=xunit2', '--junitxml=' + out, 'tests'], cwd=w, env=dict(ENV, PYTHONPATH=w),
                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    subprocess.run(['/usr/bin/python3', '/opt/vp/results.py', w + '.json', 'junit:' + out], stdout=subprocess.DEVNULL)
    d = json.load(open(w + '.json')); b = json.load(open('/opt/vp/BASELINE.json'))
    key = [k for k in ('stable_pass', 'passed', 'stable', 'tests') if k in b][0]
    for f in (out, w + '.json'):
        os.path.exists(f) and os.remove(f)
    return sorted(set(b[key]) - set(d['passed']))


def demo(d, w):
    return subprocess.run(['bash', d + '/demo.sh'], cwd=w, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def check(w, p, tier='quick'):
    ev = w + '.ev'
    r = subprocess.run(['bash', V + '/check.sh', p, tier], cwd=V, env=dict(os.environ, VERIF_REPO=w, VERIF_EVID=ev, VERIF_SEED='1'),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    shutil.rmtree(ev, ignore_errors=True)
    return r.returncode, r.stdout


def add(id, prop, needs, breaks, edits, demo_code, checks=None, run_tests=True):
    w = tempfile.mkdtemp(prefix='seedw_'); shutil.rmtree(w)
    shutil.copytree('/repo', w, symlinks=True, ignore=shutil.ignore_patterns('__pycache__'))
    d = os.path.join(V, 'seeded', id)
    try:
        for f, old, new in edits:
            s = open(os.path.join(w, f)).read()
            assert s.count(old) == 1, '%s: %d occurrences of %r' % (id, s.count(old), old)
            open(os.path.join(w, f), 'w').write(s.replace(old, new))
        diff = subprocess.run(['git', 'diff'], cwd=w, stdout=subprocess.PIPE, text=True).stdout
        os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(diff)
        open(d + '/demo.sh', 'w').write(DEMO_SH)
        open(d + '/demo.py', 'w').write(demo_code)
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
        a, b = demo(d, '/repo'), demo(d, w)
        ok = a.returncode == 0 and b.returncode != 0
        miss = tests(w) if run_tests and ok else None
        print('%s demo ok/bad=%d/%d tests missing=%s' % (id, a.returncode, b.returncode, miss))
        if not ok:
            print(' clean:', a.stdout[-800:], '\n bug:', b.stdout[-800:])
        if not ok or miss:
            shutil.rmtree(d)
            print('   NOT KEPT'); return
        for p in checks or [prop]:
            rc, out = check(w, p)
            print('   check %s rc=%d %s' % (p, rc, 'CAUGHT' if rc == 1 and 'VIOLATION property=%s ' % p in out else 'MISSED'))
            print('      ' + '\n      '.join(out.strip().splitlines()[-3:])[:600])
    finally:
        shutil.rmtree(w, ignore_errors=True)
        shutil.rmtree(w + '.ev', ignore_errors=True)
        sys.stdout.flush()


def recheck(ids=None):
    """Apply each stored bug to a scratch copy and run the check of its property."""
    for id in ids or sorted(os.listdir(V + '/seeded')):
        d = V + '/seeded/' + id
        if not os.path.exists(d + '/patch.diff'):
            continue
        m = json.load(open(d + '/meta.json'))
        w = tempfile.mkdtemp(prefix='seedw_'); shutil.rmtree(w)
        shutil.copytree('/repo', w, symlinks=True, ignore=shutil.ignore_patterns('__pycache__'))
        try:
            r = subprocess.run(['git', 'apply', d + '/patch.diff'], cwd=w)
            if r.returncode:
                print(id, 'PATCH DOES NOT APPLY'); continue
            rc, out = check(w, m['property'])
            print(id, m['property'], rc, 'CAUGHT' if rc == 1 and 'VIOLATION property=%s ' % m['property'] in out else 'MISSED ' + out[-300:])
        finally:
            shutil.rmtree(w, ignore_errors=True); shutil.rmtree(w + '.ev', ignore_errors=True)
        sys.stdout.flush()


if __name__ == '__main__':
    recheck(sys.argv[1:])
