"""plant.py bugsfile [ids]: builds and confirms planted bugs in scratch copies, stores them under /verif/seeded."""
import importlib.util
import json
import multiprocessing
import os
import shutil
import subprocess
import sys
import tempfile

BASE = set(json.load(open('/opt/vp/BASELINE.json')).get('stable', json.load(open('/opt/vp/BASELINE.json')).get('tests', []))) if False else None


def sh(cmd, cwd=None, env=None, timeout=600):
    return subprocess.run(cmd, cwd=cwd, env=env, shell=True, capture_output=True, text=True, timeout=timeout)


def one(b):
    d = tempfile.mkdtemp(prefix='plant_')
    try:
        r = d + '/repo'
        shutil.copytree('/repo', r, symlinks=True)
        out = '/verif/seeded/' + b['id']
        demo = d + '/demo'
        os.makedirs(demo)
        open(demo + '/demo.py', 'w').write(b['demo'])
        open(demo + '/demo.sh', 'w').write('#!/bin/bash\n# run in the repository: 0 if the behaviour is right\nexport PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(demo + '/demo.sh', 0o755)
        p = sh('bash %s/demo.sh' % demo, cwd=r)
        if p.returncode:
            return b['id'], 'demo fails on the unchanged tree: ' + (p.stdout + p.stderr)[-800:]
        for f, old, new in b['edits']:
            s = open(r + '/' + f).read()
            if s.count(old) != 1:
                return b['id'], 'edit does not apply (%d) %r' % (s.count(old), old[:80])
            open(r + '/' + f, 'w').write(s.replace(old, new))
        p = sh('bash %s/demo.sh' % demo, cwd=r)
        if p.returncode == 0:
            return b['id'], 'demo passes with the change'
        note = (p.stdout + p.stderr).strip().split('\n')[-1][:100]
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1', MPLBACKEND='Agg', PYTHONPATH=r)
        p = sh('/opt/venv/bin/python -m pytest -q -x -o addopts= -p no:cacheprovider --timeout=300 tests', cwd=r, env=env)
        if p.returncode:
            return b['id'], 'tests fail: ' + p.stdout[-300:]
        diff = sh('git diff', cwd=r).stdout
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        open(out + '/patch.diff', 'w').write(diff)
        for f in ('demo.py', 'demo.sh'):
            shutil.copy(demo + '/' + f, out + '/' + f)
        json.dump(dict(property=b['prop'], needs=b['needs'], what_it_breaks=b['breaks']), open(out + '/meta.json', 'w'), indent=1)
        return b['id'], 'ok   (' + note + ')'
    finally:
        shutil.rmtree(d)


if __name__ == '__main__':
    spec = importlib.util.spec_from_file_location('bugs', sys.argv[1])
    sys.path.insert(0, os.path.dirname(os.path.abspath(sys.argv[1])))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    todo = [b for b in m.B if len(sys.argv) < 3 or b['id'] in sys.argv[2:]]
    with multiprocessing.Pool(7) as pool:
        for r in pool.imap_unordered(one, todo):
            print(*r, flush=True)
