"""C18: runs of the built-in searches, recorded and replayed through Search.tla."""
import json
import multiprocessing
import os
import re
import signal
import tempfile
import time
import traceback
import warnings

from common import *  # noqa
import tlc
import stubs
from gen import pick

warnings.filterwarnings('ignore')
ONE = 10**6
CFG = """INIT Init
NEXT Next
VIEW View
INVARIANT Sane
CHECK_DEADLOCK FALSE
"""


class Enough(Exception):
    pass


class Grab(stubs.ho.HyperplaneOptimizer):
    """Takes hold of the function a tree hands to its search."""

    def __init__(self, cube):
        super().__init__(search_space_is_unit_hypercube=cube)
        self.grabbed = None

    def solve(self, optimization_function):
        if self.grabbed is None:
            self.grabbed = optimization_function


def function_of(X, y, K, cube):
    from bayesian_decision_tree.classification import HyperplaneClassificationTree
    g = Grab(cube)
    HyperplaneClassificationTree(optimizer=g, prior=[1.0] * K).fit(X, y)
    return g.grabbed


def watched(f, value, cap):
    """The function f, logging what it is asked; value(point, number) replaces what it computes."""
    points, values = [], []
    inner = f.compute

    def compute(v):
        if len(points) >= cap:
            raise Enough()
        p = np.array(v, dtype=np.float64).copy()
        if p.ndim != 1 or not np.all(np.isfinite(p)):
            raise Malformed('evaluates %r' % (v,))
        points.append(p)
        if value is None:
            r = inner(v)
        else:
            f.function_evaluations += 1
            r = value(p, len(points))
        values.append(float(r))
        return r
    f.compute = compute
    return f, points, values


def objective(kind, seed):
    rs = np.random.RandomState(seed)
    a = rs.uniform(0, 1, 32)
    tab = rs.randint(0, 10**6, 4096)
    if kind == 'constant':
        return lambda p, n: 3.0
    if kind == 'few':                       # few distinct values, many ties
        return lambda p, n: float(int(np.sum(np.abs(p - a[:len(p)])) * 4))
    if kind == 'smooth':
        return lambda p, n: float(round(10**8 * np.sum((p - a[:len(p)]) ** 2)))
    if kind == 'noise':
        return lambda p, n: float(tab[n % 4096])
    if kind == 'improving':                 # improves again and again, for a while
        return lambda p, n: float(-min(n // (3 + seed % 40), 12))
    if kind == 'late':                      # an improvement just before the search would give up
        at = 20 + seed % 400
        return lambda p, n: 5.0 if n < at else 4.0
    if kind == 'negative':
        return lambda p, n: -float(round(10**6 * np.prod(np.cos(5 * (p - a[:len(p)])))))
    raise HarnessBug(kind)


class Timeout(BaseException):
    pass


def run_search(spec, sc, cap=60000, search=None):
    """(points, values, ended)"""
    from scipy.sparse import csr_matrix, csc_matrix
    X = np.array(sc['rows'], dtype=float).reshape(len(sc['rows']), sc['nf'])
    y = np.array(sc['labels'], dtype=float)
    X = {'array': X, 'csr': csr_matrix(X), 'csc': csc_matrix(X)}[sc['cont']]
    cube = spec[0] in ('quasi', 'annealing', 'de', 'gradient', 'optuna')
    if sc['obj'] == 'real':
        K = max(2, len(set(sc['labels'])))
        yy = np.array([sorted(set(sc['labels'])).index(v) for v in sc['labels']], dtype=float)
        f = function_of(X, yy, K, cube)
    else:
        # a function of the same kind, over data that no fit would accept
        f = function_of(np.arange(2.0 * sc['nf']).reshape(2, -1), np.array([0.0, 1.0]), 2, cube)
        f.X, f.y = X, y
    f, points, values = watched(f, None if sc['obj'] == 'real' else objective(sc['obj'], sc['oseed']), cap)
    ended = True
    try:
        (search or stubs.build(spec)).solve(f)
    except Enough:
        ended = False
    return points, values, ended


def fixed(spec, pts):
    out = []
    for p in pts:
        if spec[0] == 'twopoint':
            out.append([smallint(v, 'coordinate') for v in p])
        elif spec[0] == 'random':
            out.append([smallint(round(float(v) * ONE), 'coordinate') for v in p])
        else:
            # points outside the cube stay outside
            out.append([smallint(math_floor(v), 'coordinate') for v in p])
    return out


def math_floor(v):
    q = Fraction(float(v)) * ONE
    n = round(q)
    if q < 0:
        n = min(n, -1)
    if q > ONE:
        n = max(n, ONE + 1)
    return n


def reseeded(spec, seed):
    kw = dict(spec[1])
    if 'seed' not in kw:
        return None
    kw['seed'] = seed
    return (spec[0], kw)


def record(sc):
    def alarm(*a):
        raise Timeout()
    old = signal.signal(signal.SIGALRM, alarm)
    signal.alarm(150)
    try:
        spec = sc['opt']
        search = stubs.build(spec)
        pts, vals, ended = run_search(spec, sc, search=search)
        np.random.seed(sc['oseed'] % 1000)
        # the same settings once more, by the same or another object (which may have searched elsewhere in between)
        if sc['oseed'] % 5 == 1:
            run_search(spec, dict(sc, rows=sc['rows'][1:] + sc['rows'][:1], obj='few' if sc['obj'] == 'real' else sc['obj'], oseed=sc['oseed'] + 1), search=search)
        pts2, _, _ = run_search(spec, sc, search=search if sc['oseed'] % 5 < 3 else None)
        pts3 = []
        if pts and (spec[0] in ('random', 'annealing', 'de') or spec[0] == 'optuna' and len(pts) * (sc['nf'] - 1) >= 12):
            pts3, _, _ = run_search(reseeded(spec, spec[1]['seed'] + 1), sc)
        kw = spec[1]
        order = {v: i for i, v in enumerate(sorted(set(vals)))}
        rec = dict(id=sc['id'], opt=spec[0], nf=sc['nf'], n=kw.get('n_mc', kw.get('n', kw.get('n_init', kw.get('n_trials', 0)))), scan=kw.get('n_scan', 0),
                   keep=kw.get('n_keep', 0), sp=int(round(1000 * kw.get('spread_factor', 1))), pts=fixed(spec, pts), vals=[order[v] for v in vals],
                   again=fixed(spec, pts2), other=fixed(spec, pts3) if pts3 else [], ended=ended,
                   rows=[[int(v) for v in row] for row in sc['rows']] if spec[0] == 'twopoint' else [],
                   labels=[int(v) for v in sc['labels']])
        return ('ok', sc['id'], rec)
    except Timeout:
        return ('fail', sc['id'], 'the search does not end')
    except HarnessBug:
        raise
    except Exception as e:
        return ('fail', sc['id'], '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1200:]))
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


OBJ = ['constant', 'few', 'smooth', 'noise', 'improving', 'late', 'negative', 'real']


def scenarios(rng, m):
    out = []

    def add(opt, **kw):
        nf = int(pick(rng, [2, 2, 3, 3, 4, 5, 7, 9, 12]))
        n = int(rng.randint(2, 13))
        K = int(pick(rng, [2, 2, 3, 4]))
        lab = [int(v) for v in rng.randint(0, K, n)]
        if rng.rand() < .85 and len(set(lab)) < 2:
            lab[0] = (lab[1] + 1) % K
        if rng.rand() < .3 and K > 2:
            lab = [v if v != 1 else 0 for v in lab]        # a class that does not occur at this node
        rows = [[int(v) for v in r] for r in rng.randint(-9, 10, (n, nf))]
        if opt[0] == 'twopoint' and rng.rand() < .2:
            lab = [0] * n
        sc = dict(opt=opt, nf=nf, rows=rows, labels=lab, obj=pick(rng, OBJ), oseed=int(rng.randint(10**6)), cont=pick(rng, ['array', 'array', 'csr', 'csc']))
        sc.update(kw)
        if sc['obj'] == 'real' and len(set(sc['labels'])) < 2:
            sc['obj'] = 'few'
        out.append(sc)
    for i in range(40 * m):
        sd = int(rng.randint(10**5)) if i % 4 else 0
        add(('random', dict(n_mc=int(pick(rng, [0, 1, 2, 7, 40])), seed=sd)))
        add(('twopoint', dict(n_mc=int(pick(rng, [0, 1, 2, 9, 40])), seed=sd)))
        add(('quasi', dict(n=int(pick(rng, [0, 1, 2, 3, 20, 60])))))
        keep = int(rng.randint(1, 5))
        scan = int(rng.randint(1, 12))
        add(('annealing', dict(n_scan=scan, n_keep=keep, spread_factor=float(pick(rng, [.95, .9, .5, .8])), seed=sd)))
        add(('annealing', dict(n_scan=scan, n_keep=int(rng.randint(1, 4)), spread_factor=.9, seed=sd)), obj=pick(rng, ['late', 'improving', 'noise']))
    for i in range(8 * m):
        sd = int(rng.randint(10**5)) if i % 4 else 0
        add(('de', dict(seed=sd, maxiter=int(rng.randint(1, 4)), popsize=int(rng.randint(2, 5)))))
        add(('optuna', dict(n_trials=int(pick(rng, [1, 2, 13, 50])), seed=sd)))
        add(('gradient', dict(n_init=int(rng.randint(1, 6)), n_keep=int(rng.randint(1, 4)))), obj=pick(rng, ['constant', 'smooth', 'few', 'real']))
    for i in range(2 * m):                 # large budgets
        sd = int(rng.randint(10**5))
        add(('random', dict(n_mc=int(rng.randint(300, 3000)), seed=sd)))
        add(('twopoint', dict(n_mc=int(rng.randint(200, 1500)), seed=sd)))
        add(('quasi', dict(n=int(rng.randint(300, 5000)))))
        add(('annealing', dict(n_scan=int(rng.randint(12, 60)), n_keep=int(rng.randint(5, 14)), spread_factor=float(pick(rng, [.95, .99, .5])), seed=sd)))
    for i, sc in enumerate(out):
        sc['id'] = 'C18-%d' % i
    return out


def validate(recs):
    fd, path = tempfile.mkstemp(prefix='search_', suffix='.ndjson')
    try:
        with os.fdopen(fd, 'w') as f:
            for s in recs:
                f.write(json.dumps(s, separators=(',', ':')) + '\n')
        r = tlc.run('Search', CFG, env={'TRACE': path})
    finally:
        os.unlink(path)
    if not r['ok']:
        raise tlc.TLCError(r['out'][-4000:])
    want = sum(len(s['pts']) + 2 for s in recs)
    if r['distinct'] != want:
        raise tlc.TLCError('traces not consumed: %d of %d states\n%s' % (r['distinct'], want, r['out'][-1500:]))
    return tlc.viols(r['out']), r


def controls(recs):
    """Corrupted copies of good records must be rejected."""
    bad, n = [], 0
    for s in recs:
        if not s['pts']:
            continue
        for what in ('drop', 'extra', 'outside', 'seed'):
            if what in ('drop', 'extra') and s['opt'] in ('de', 'gradient'):
                continue
            c = json.loads(json.dumps(s))
            if what == 'drop':
                for k in ('pts', 'vals', 'again'):
                    c[k] = c[k][:-1]
            elif what == 'extra':
                for k in ('pts', 'vals', 'again'):
                    c[k] = c[k] + c[k][-1:]
            elif what == 'outside':
                if s['opt'] == 'random':
                    c['pts'][-1] = c['pts'][-1][:-1]
                else:
                    c['pts'][-1][0] = ONE + 5
                c['again'] = c['pts']
            else:
                c['again'] = c['again'][:-1]
            c['id'] = what + '-' + s['id']
            c['other'] = []
            bad.append(c)
        n += 1
        if n >= 40:
            break
    v, _ = validate(bad)
    hit = {k for k, _ in v}
    missed = [c['id'] for c in bad if c['id'] not in hit]
    if missed:
        raise tlc.TLCError('negative controls accepted: %s' % missed)
    return len(bad)


def check(prop, seed, tier):
    import check as chk
    t0 = time.time()
    quick = tier == 'quick'
    rng = np.random.RandomState([seed, 18])
    scs = scenarios(rng, 3 if quick else 24)
    by = {s['id']: s for s in scs}
    ctx = multiprocessing.get_context('fork')
    with ctx.Pool(8) as pool:
        res = pool.map(record, scs, chunksize=4)
    viols = [(i, t) for s, i, t in res if s == 'fail']
    recs = [t for s, i, t in res if s == 'ok']
    states = trans = 0
    for i in range(0, len(recs), 1500):
        v, r = validate(recs[i:i + 1500])
        viols += v
        states += r['distinct']
        trans += r['states']
    neg = design = 0
    if not viols:
        design, t = chk.model_check(['@MCAnneal:anneal'])
        states += design
        trans += t
        neg = controls(recs)
    kinds = {}
    for s in recs:
        kinds[s['opt']] = kinds.get(s['opt'], 0) + 1
    ev = dict(states=states, transitions=trans - len(recs), traces_validated_against_impl=len(recs), evaluations=sum(len(s['pts']) for s in recs),
              searches=kinds, design_states=design, negative_controls=neg, samples=[{k: (v if k not in ('pts', 'again', 'other', 'vals') else v[:5]) for k, v in s.items()} for s in recs[-1:]],
              assumptions=['points recorded to 10^-6'])
    return chk.finish(prop, viols, ev, t0, lambda key: dict(property=prop, scenario=by.get(key), verdicts=[t for k, t in viols if k == key]))
