"""mutate.py gen OUT | test OUT | check OUT [n]: systematic small mutants of /repo (scratch copies under /tmp/mut).

gen   writes all mutants of the package to OUT (JSON lines: id, file, old, new, line)
test  runs the repository's tests on each, marks those that pass as survivors
check runs the checks on survivors until one reports a violation"""
import ast
import json
import multiprocessing
import os
import shutil
import subprocess
import sys

PKG = 'bayesian_decision_tree'
FILES = ['base.py', 'base_perpendicular.py', 'base_hyperplane.py', 'classification.py', 'regression.py', 'hyperplane_optimization.py', 'utils.py']
CMP = {ast.Lt: ['<='], ast.LtE: ['<'], ast.Gt: ['>='], ast.GtE: ['>'], ast.Eq: ['!='], ast.NotEq: ['=='], ast.Is: ['is not'], ast.IsNot: ['is']}
BIN = {ast.Add: ['-'], ast.Sub: ['+'], ast.Mult: ['/'], ast.Div: ['*'], ast.FloorDiv: ['/'], ast.Pow: ['*'], ast.Mod: ['*']}
SWAP = {'min': 'max', 'max': 'min', 'argmin': 'argmax', 'argmax': 'argmin', 'maximum': 'minimum', 'minimum': 'maximum', 'any': 'all', 'all': 'any',
        'sin': 'cos', 'cos': 'sin', 'floor': 'ceil', 'child1_': 'child2_', 'child2_': 'child1_', 'zeros': 'ones', 'ones': 'zeros', 'prior': 'posterior_',
        'append': 'extend', 'float64': 'float32'}


def mutants(path):
    src = open(path).read()
    lines = src.split('\n')
    start = [0]
    for l in lines:
        start.append(start[-1] + len(l.encode()) + 1)
    raw = src.encode()
    tree = ast.parse(src)
    out = []

    def pos(n):
        return start[n.lineno - 1] + n.col_offset, start[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        a, b = pos(n)
        return raw[a:b].decode()

    def put(a, b, new, line):
        if raw[a:b].decode() != new:
            out.append((a, b, new, line))

    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Raise, ast.Assert)):
            for c in ast.walk(n):
                skip.add(c)
        if isinstance(n, ast.FunctionDef) and n.name in ('__repr__', '__str__'):
            pass
    for n in ast.walk(tree):
        if n in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in CMP.get(type(n.ops[0]), []):
                put(pos(n.left)[1], pos(n.comparators[0])[0], ' %s ' % o, n.lineno)
        if isinstance(n, ast.BinOp):
            for o in BIN.get(type(n.op), []):
                a, b = pos(n)
                put(a, b, '(%s) %s (%s)' % (text(n.left), o, text(n.right)), n.lineno)
        if isinstance(n, ast.BoolOp):
            o = ' or ' if isinstance(n.op, ast.And) else ' and '
            a, b = pos(n)
            put(a, b, o.join('(%s)' % text(v) for v in n.values), n.lineno)
            for v in n.values:
                put(a, b, text(v), n.lineno)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not, ast.Invert)):
            a, b = pos(n)
            put(a, b, '(%s)' % text(n.operand), n.lineno)
        if isinstance(n, ast.Constant) and type(n.value) in (int, float, bool):
            a, b = pos(n)
            v = n.value
            for w in ([not v] if type(v) is bool else [v + 1, v - 1] if type(v) is int else [v * 1.5, v + .1]):
                put(a, b, '(%r)' % w, n.lineno)
        if isinstance(n, (ast.If, ast.IfExp)):
            a, b = pos(n.test)
            put(a, b, 'True', n.lineno)
            put(a, b, 'False', n.lineno)
        if isinstance(n, (ast.Expr, ast.AugAssign)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
            a, b = pos(n)
            put(a, b, 'pass', n.lineno)
        if isinstance(n, ast.Attribute) and n.attr in SWAP:
            a, b = pos(n)
            put(b - len(n.attr), b, SWAP[n.attr], n.lineno)
        if isinstance(n, ast.Name) and n.id in ('min', 'max', 'any', 'all'):
            a, b = pos(n)
            put(a, b, SWAP[n.id], n.lineno)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('copy', 'squeeze', 'flatten', 'astype', 'ravel', 'sum', 'abs'):
            a, b = pos(n)
            v = text(n.func.value)
            if v != 'np':
                put(a, b, v, n.lineno)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == 'np' \
                and n.func.attr in ('abs', 'sqrt', 'maximum', 'minimum', 'clip', 'log', 'exp', 'sort', 'unique', 'array', 'asarray', 'cumsum'):
            a, b = pos(n)
            for v in n.args[:2]:
                put(a, b, '(%s)' % text(v), n.lineno)
        if isinstance(n, ast.Break):
            put(*pos(n), 'pass', n.lineno)
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Attribute):
            put(*pos(n), 'pass', n.lineno)
    return raw, out


def gen(outfile):
    k = 0
    with open(outfile, 'w') as f:
        for fn in FILES:
            raw, ms = mutants('/repo/%s/%s' % (PKG, fn))
            seen = set()
            for a, b, new, line in ms:
                s = raw[:a] + new.encode() + raw[b:]
                if s in seen:
                    continue
                seen.add(s)
                try:
                    compile(s, fn, 'exec')
                except SyntaxError:
                    continue
                f.write(json.dumps(dict(id='%s:%d:%d' % (fn, line, k), file=fn, a=a, b=b, old=raw[a:b].decode(), new=new, line=line)) + '\n')
                k += 1
    print(k, 'mutants')


def make(m, d):
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree('/repo', d, symlinks=True)
    p = '%s/%s/%s' % (d, PKG, m['file'])
    raw = open(p, 'rb').read()
    open(p, 'wb').write(raw[:m['a']] + m['new'].encode() + raw[m['b']:])


def test(m):
    d = '/tmp/mut/t%d' % os.getpid()
    make(m, d)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MPLBACKEND='Agg', PYTHONPATH=d)
    try:
        r = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-o', 'addopts=', '-p', 'no:cacheprovider', '--timeout=200', 'tests'], cwd=d, env=env,
                           capture_output=True, timeout=400)
        return m, r.returncode == 0
    except subprocess.TimeoutExpired:
        return m, False
    finally:
        shutil.rmtree(d, ignore_errors=True)


ORDER = {
    'base.py': ['C06', 'C11', 'C13', 'C04', 'C17', 'C10', 'C07', 'C01', 'C12', 'C05', 'C14', 'C15', 'C08', 'C09', 'C16', 'C03', 'C02'],
    'base_perpendicular.py': ['C04', 'C03', 'C01', 'C07', 'C13', 'C14', 'C12', 'C17', 'C06', 'C08', 'C11', 'C10', 'C05', 'C02', 'C09'],
    'base_hyperplane.py': ['C15', 'C16', 'C13', 'C14', 'C17', 'C09', 'C10', 'C11', 'C08', 'C18'],
    'classification.py': ['C01', 'C05', 'C16', 'C11', 'C12', 'C17', 'C10', 'C06', 'C13', 'C15', 'C08', 'C09', 'C14'],
    'regression.py': ['C02', 'C05', 'C16', 'C11', 'C12', 'C17', 'C10', 'C06', 'C13', 'C15', 'C08', 'C09', 'C14'],
    'hyperplane_optimization.py': ['C18', 'C16', 'C15', 'C09', 'C19', 'C10', 'C14'],
    'utils.py': ['C19', 'C18', 'C15', 'C16', 'C05', 'C12', 'C13', 'C06', 'C10'],
}


def check(m, verif='/tmp/vcopy'):
    d = '/tmp/mut/c%d' % os.getpid()
    make(m, d)
    env = dict(os.environ, VERIF_REPO=d, VERIF_EVID=d + '_ev', PYTHONDONTWRITEBYTECODE='1', VERIF_SEED='1')
    log = []
    try:
        for c in ORDER[m['file']]:
            try:
                r = subprocess.run(['/opt/venv/bin/python', 'harness/check.py', c], cwd=verif, env=env, capture_output=True, timeout=900)
                log.append((c, r.returncode))
                if r.returncode == 1 and b'VIOLATION property' in r.stdout:
                    return m, c, log
            except subprocess.TimeoutExpired:
                log.append((c, 'timeout'))
        return m, None, log
    finally:
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(d + '_ev', ignore_errors=True)


if __name__ == '__main__':
    what, out = sys.argv[1:3]
    os.makedirs('/tmp/mut', exist_ok=True)
    if what == 'gen':
        gen(out)
    elif what == 'test':
        ms = [json.loads(l) for l in open(out)]
        with multiprocessing.Pool(8) as pool, open(out + '.live', 'w') as f:
            for i, (m, ok) in enumerate(pool.imap_unordered(test, ms)):
                if ok:
                    f.write(json.dumps(m) + '\n')
                    f.flush()
                if i % 50 == 49:
                    print(i + 1, flush=True)
    else:
        ms = [json.loads(l) for l in open(out + '.live')]
        done = set()
        if os.path.exists(out + '.result'):
            done = {json.loads(l)['m']['id'] for l in open(out + '.result')}
        ms = [m for m in ms if m['id'] not in done]
        with multiprocessing.Pool(int(sys.argv[3]) if len(sys.argv) > 3 else 2) as pool, open(out + '.result', 'a') as f:
            for m, c, log in pool.imap_unordered(check, ms):
                f.write(json.dumps(dict(m=m, caught=c, log=log)) + '\n')
                f.flush()
                print(m['id'], repr(m['old'][:50]), '->', repr(m['new'][:50]), 'caught by ' + c if c else 'NOT CAUGHT', log[-1], flush=True)
