"""Running TLC."""
import json
import os
import re
import shutil
import subprocess
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class TLCError(Exception):
    pass


def run(module, cfg_text, env=None, workers=8, timeout=800, mem='6g', args=()):
    """Runs TLC; returns dict(out, states, distinct, ok, violated)."""
    tmp = tempfile.mkdtemp(prefix='tlc_')
    try:
        cfg = os.path.join(tmp, 'M.cfg')
        with open(cfg, 'w') as f:
            f.write(cfg_text)
        e = dict(os.environ)
        e.pop('JAVA_TOOL_OPTIONS', None)
        e.update(env or {})
        cmd = ['java', '-XX:+UseParallelGC', '-Xss64m', '-Xmx' + mem, '-Djava.io.tmpdir=' + tmp, '-cp', JARS, 'tlc2.TLC',
               '-workers', str(workers), '-metadir', os.path.join(tmp, 'meta'), '-noGenerateSpecTE', '-config', cfg] + list(args) + [module + '.tla']
        t = time.time()
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        out = p.stdout.decode('utf-8', 'replace')
        m = re.search(r'(\d+) states generated, (\d+) distinct states found, (\d+) states left', out)
        r = dict(out=out, rc=p.returncode, wall=time.time() - t, states=int(m.group(1)) if m else 0, distinct=int(m.group(2)) if m else 0,
                 left=int(m.group(3)) if m else -1, ok='Model checking completed. No error has been found.' in out)
        return r
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


TRACE_CFG = """INIT TInit
NEXT TNext
VIEW View
CHECK_DEADLOCK FALSE
CONSTANTS
  Checks = {%s}
"""


def steps(S):
    return len(S['nodes']) + 4 + len(S['queries']) + len(S['variants'])


VIOL = re.compile(r'<<\s*"VIOL",\s*"([^"]*)",(.*?)>>\s*(?=\n<<\s*"VIOL"|\n[A-Z]|\Z|\n<<)', re.S)


def viols(text):
    """The verdicts printed by a trace specification: [(id, text)]."""
    out = []
    for m in re.finditer(r'<<\s*"VIOL",\s*"([^"]*)",', text):
        # the tuple ends where its brackets balance
        i, depth = m.start(), 0
        while i < len(text):
            if text.startswith('<<', i):
                depth += 1
                i += 2
            elif text.startswith('>>', i):
                depth -= 1
                i += 2
                if depth == 0:
                    break
            else:
                i += 1
        out.append((m.group(1), ' '.join(text[m.start():i].split())))
    return sorted(set(out))


def check_traces(records, clauses, timeout=800, mem='6g'):
    """Validates records against TreeTrace; returns (violations [(id, text)], run info)."""
    fd, path = tempfile.mkstemp(prefix='trace_', suffix='.ndjson')
    try:
        with os.fdopen(fd, 'w') as f:
            for S in records:
                f.write(json.dumps(S, separators=(',', ':')) + '\n')
        r = run('TreeTrace', TRACE_CFG % ', '.join('"%s"' % c for c in sorted(clauses)), env={'TRACE': path}, timeout=timeout, mem=mem)
    finally:
        os.unlink(path)
    if not r['ok']:
        raise TLCError(r['out'][-4000:])
    found = viols(r['out'])
    want = sum(steps(S) + 1 for S in records)
    if r['distinct'] != want:
        raise TLCError('trace not consumed: %d states instead of %d\n%s' % (r['distinct'], want, r['out'][-2000:]))
    return found, r
