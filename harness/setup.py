"""Parses every module of the specification (nothing needs building)."""
import glob
import os
import subprocess
import sys

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec')
bad = 0
for f in sorted(glob.glob(SPEC + '/*.tla')):
    r = subprocess.run(['tla-sany', os.path.basename(f)], cwd=SPEC, capture_output=True, text=True)
    ok = r.returncode == 0 and 'rror' not in r.stdout.replace('errors: 0', '')
    print(os.path.basename(f), 'ok' if ok else r.stdout[-800:])
    bad |= not ok
sys.exit(int(bad))
