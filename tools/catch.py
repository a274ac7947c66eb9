"""catch.py [ids]: runs the check of each planted bug's property against a patched scratch copy."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

S = os.environ.get('SEEDED', '/verif/seeded')
ids = sys.argv[1:] or sorted(os.listdir(S))
for i in ids:
    prop = json.load(open('%s/%s/meta.json' % (S, i)))['property']
    d = tempfile.mkdtemp(prefix='catch_')
    try:
        shutil.copytree('/repo', d + '/repo', symlinks=True)
        p = subprocess.run(['git', 'apply', '%s/%s/patch.diff' % (S, i)], cwd=d + '/repo', capture_output=True, text=True)
        if p.returncode:
            print(i, 'PATCH DOES NOT APPLY', p.stderr[:200], flush=True)
            continue
        t = time.time()
        env = dict(os.environ, VERIF_REPO=d + '/repo', VERIF_EVID=d + '/evid')
        p = subprocess.run(['/opt/venv/bin/python', os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'harness/check.py'), prop], env=env, capture_output=True, text=True)
        v = [l for l in p.stdout.split('\n') if l.startswith('VIOLATION property=%s ' % prop)]
        ok = p.returncode == 1 and v
        n = [l for l in p.stdout.split('\n') if l.endswith(' violations')]
        print(i, prop, 'caught' if ok else 'MISSED rc=%d' % p.returncode, '%.0fs' % (time.time() - t), n, '' if ok else (p.stdout + p.stderr)[-300:], flush=True)
    finally:
        shutil.rmtree(d)
