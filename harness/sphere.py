"""C19: images of uniform points, counted and judged by Sphere.tla."""
import json
import multiprocessing
import os
import tempfile
import time
import traceback

from common import *  # noqa
import tlc

CFG = """INIT Init
NEXT Next
INVARIANT Consistent
CHECK_DEADLOCK FALSE
"""
SCALE = 10000


def sample(rng, how, n, d):
    """Uniform points of the hypercube; stratified ones scatter less."""
    u = rng.uniform(0, 1, (n, d))
    if how == 'latin':
        for j in range(d):
            u[:, j] = (rng.permutation(n) + u[:, j]) / n
    return np.clip(u, 0, 1)


def record(job):
    try:
        from bayesian_decision_tree.utils import hypercube_to_hypersphere_surface as f
        rng = np.random.RandomState(job['seed'])
        d, half, n = job['d'], job['half'], job['n']
        U = sample(rng, job['how'], n, d)
        keep = U.copy()
        V = np.asarray(f(U, half_hypersphere=half), dtype=np.float64)
        if V.shape != (n, d + 1):
            raise Malformed('result of shape %r for %r' % (V.shape, U.shape))
        if not np.array_equal(U, keep):
            raise Malformed('argument changed')
        if not np.all(np.isfinite(V)):
            raise Malformed('result not finite')
        # single points, other batches, points on the border
        single = True
        E = rng.choice([0.0, 0.5, 1.0, 0.25], (40, d))
        Z = np.asarray(f(E, half_hypersphere=half), dtype=np.float64)
        for A, B in ((U, V), (E, Z)):
            for i in rng.randint(0, len(A), 30):
                b = np.asarray(f(A[i], half_hypersphere=half), dtype=np.float64).reshape(-1)
                if b.shape != (d + 1,) or not np.all(np.abs(b - B[i]) < 1e-6):
                    single = False
        o = rng.permutation(n)[:50]
        W = np.asarray(f(U[o], half_hypersphere=half))
        if W.shape != (50, d + 1) or not np.all(np.abs(W - V[o]) < 1e-6):
            single = False
        main = dict(id=job['id'], D=d + 1, half=half, pts=fixed(V), single=single)
        if not np.all(np.abs(np.sum(Z * Z, axis=1) - 1) < 1e-9) or (half and np.any(Z[:, 0] < -1e-9)):
            raise Malformed('point on the border of the hypercube mapped off the sphere')
        return ('ok', job['id'], main)
    except HarnessBug:
        raise
    except Exception as e:
        return ('fail', job['id'], '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1200:]))


def directions(job):
    """Directions a search evaluates before it learns from them."""
    try:
        import search
        import stubs
        from bayesian_decision_tree.utils import hypercube_to_hypersphere_surface as f
        D, n = job['d'] + 1, job['n']
        X = np.arange(5.0 * D).reshape(5, D)
        g, pts, _ = search.watched(search.function_of(X, np.array([0., 1, 0, 1, 0]), 2, job['how'] != 'random'), lambda p, k: float(k), n)
        kw = dict(random=dict(n_mc=n, seed=job['seed']), annealing=dict(n_scan=n, n_keep=5, spread_factor=.9, seed=job['seed']),
                  gradient=dict(n_init=n, n_keep=3))[job['how']]
        try:
            stubs.build((job['how'], kw)).solve(g)
        except search.Enough:
            pass
        if len(pts) != n:
            raise Malformed('%d evaluations instead of %d' % (len(pts), n))
        P = np.array(pts)
        if job['how'] == 'random':
            V = P / np.linalg.norm(P, axis=1)[:, None]
        else:
            V = np.asarray(f(P, half_hypersphere=True))
        if V.shape != (n, D) or not np.all(np.isfinite(V)):
            raise Malformed('directions of shape %r' % (V.shape,))
        return ('ok', job['id'], dict(id=job['id'], D=D, half=job['half'], single=True, pts=fixed(V)))
    except HarnessBug:
        raise
    except Exception as e:
        return ('fail', job['id'], '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1200:]))


def fixed(M):
    return [[max(-30000, min(30000, int(v))) for v in p] for p in np.round(M * SCALE)]


def run(job):
    return directions(job) if job['how'] in ('random', 'annealing', 'gradient') else record(job)


def validate(recs):
    fd, path = tempfile.mkstemp(prefix='sphere_', suffix='.ndjson')
    try:
        with os.fdopen(fd, 'w') as f:
            for s in recs:
                f.write(json.dumps(s, separators=(',', ':')) + '\n')
        r = tlc.run('Sphere', CFG, env={'TRACE': path})
    finally:
        os.unlink(path)
    if not r['ok']:
        raise tlc.TLCError(r['out'][-4000:])
    want = sum(-(-len(s['pts']) // 500) + 2 for s in recs)
    if r['distinct'] != want:
        raise tlc.TLCError('traces not consumed: %d of %d states\n%s' % (r['distinct'], want, r['out'][-1500:]))
    return tlc.viols(r['out']), r


def controls(rng):
    """Distributions that look like it but are not uniform."""
    out = []
    n = 20000
    for d in (1, 2, 3, 4, 5):
        C = rng.uniform(-1, 1, (n, d + 1))                          # cube projected to the sphere
        out.append(('cube%d' % d, C, d, False))
        G = rng.normal(0, 1, (n, d + 1))
        if d > 1:
            G2 = G.copy()
            G2[:, -1] *= 1.25                                       # slightly elongated
            out.append(('long%d' % d, G2, d, False))
        if d == 2:
            G2 = G / np.linalg.norm(G, axis=1)[:, None]
            G2[:, 0] = np.sign(G2[:, 0]) * np.maximum(.02, abs(G2[:, 0]))    # without a strip
            out.append(('strip%d' % d, G2, d, False))
        if d == 1:
            a = np.maximum(.02, rng.uniform(0, 1, n)) * 2 * np.pi
            out.append(('gap%d' % d, np.c_[np.cos(a), np.sin(a)], d, False))
        out.append(('half%d' % d, G, d, True))                      # whole sphere instead of half
        G3 = G.copy()
        G3[:, 0] = np.abs(G3[:, 0])
        out.append(('full%d' % d, G3, d, False))
    good = [('good%d' % d, rng.normal(0, 1, (n if d < 6 else 4000, d + 1)), d, False) for d in (1, 2, 3, 4, 5, 6, 8, 10, 12, 16, 23)]
    recs = [dict(id=i, D=d + 1, half=h, single=True, pts=[[int(v) for v in p] for p in np.round(SCALE * V / np.linalg.norm(V, axis=1)[:, None])]) for i, V, d, h in out + good]
    v, r = validate(recs)
    hit = {k for k, _ in v}
    wrong = [i for i, *_ in out if i not in hit] + [i for i, *_ in good if i in hit]
    if wrong:
        raise tlc.TLCError('negative controls: %s' % wrong)
    return len(out), len(good)


def check(prop, seed, tier):
    import check as chk
    t0 = time.time()
    quick = tier == 'quick'
    rng = np.random.RandomState([seed, 19])
    jobs = []
    for rep in range(1 if quick else 4):
        for d in range(1, 8):
            for half in (True, False):
                jobs.append(dict(id='C19-%d-%s-%d' % (d, 'half' if half else 'full', rep), d=d, half=half, n=(20000 if quick else 60000),
                                 how='latin' if (d + rep) % 2 else 'plain', seed=int(rng.randint(2**31 - 1))))
        for d in (8, 9, 10, 11, 12, 16, 23):
            for half in (True, False):
                if quick and d > 8 and half != bool((d + seed) % 2):
                    continue
                jobs.append(dict(id='C19-%d-%s-%d' % (d, 'half' if half else 'full', rep), d=d, half=half, n=6000 if quick and d > 9 else 10000, how='plain',
                                 seed=int(rng.randint(2**31 - 1))))
        for how in ('random', 'annealing', 'gradient'):
            for d in (1, 2, 3, int(rng.randint(4, 8)), 16):
                if quick and (how == 'gradient' and d != 2 or how == 'annealing' and d == 16):
                    continue
                jobs.append(dict(id='C19-%s-%d-%d' % (how, d, rep), d=d, half=how != 'random', n=10000, how=how, seed=int(rng.randint(2**31 - 1))))
    by = {j['id']: j for j in jobs}
    ctx = multiprocessing.get_context('fork')
    with ctx.Pool(8) as pool:
        res = pool.map(run, jobs, chunksize=1)
    viols = [(i, t) for s, i, t in res if s == 'fail']
    recs = [t for s, i, t in res if s == 'ok']
    states = trans = 0
    for i in range(0, len(recs), 14):
        v, r = validate(recs[i:i + 14])
        viols += v
        states += r['distinct']
        trans += r['states']
    bad, good = (0, 0)
    if not viols:
        bad, good = controls(rng)
    ev = dict(states=states, transitions=max(0, trans - len(recs)), traces_validated_against_impl=len(recs), points=sum(len(s['pts']) for s in recs),
              negative_controls=bad, positive_controls=good, samples=[dict(id=s['id'], D=s['D'], half=s['half'], pts=s['pts'][:3]) for s in recs[-2:]],
              assumptions=['numpy\'s generator yields uniform points of the hypercube', 'counts within 7 standard deviations'])
    return chk.finish(prop, viols, ev, t0, lambda key: dict(property=prop, scenario=by.get(key), verdicts=[t for k, t in viols if k == key]))
