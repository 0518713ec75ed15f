"""Development aid: quick mutation run. usage: mut.py FILE.py where FILE.py defines M = [(name, prop, [(file, old, new)...]), ...]"""
import os, runpy, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seedlib import check
for name, prop, edits in runpy.run_path(sys.argv[1])['M']:
    if len(sys.argv) > 2 and name not in sys.argv[2:]:
        continue
    w = tempfile.mkdtemp(prefix='mutw_'); shutil.rmtree(w)
    shutil.copytree(os.environ.get('MUT_BASE', '/repo'), w, symlinks=True, ignore=shutil.ignore_patterns('__pycache__', '.git', 'docs', 'examples', 'tests'))
    try:
        for f, old, new in edits:
            p = os.path.join(w, 'mushroom_rl', f); s = open(p).read()
            assert s.count(old) >= 1, (name, s.count(old))
            open(p, 'w').write(s.replace(old, new, 1))
        rc, out = check(w, prop)
        last = [l for l in out.splitlines() if 'violations=' in l]
        print(name, prop, 'CAUGHT' if rc == 1 and 'VIOLATION property=%s ' % prop in out else 'MISSED rc=%d' % rc, last[-1][-60:] if last else out[-300:])
    finally:
        shutil.rmtree(w, ignore_errors=True); shutil.rmtree(w + '.ev', ignore_errors=True)
    sys.stdout.flush()
