"""Scenario generators.  Everything is determined by the seed.

Scenario keys: kind, hyper, X (real values), nfeat, mode ('mid': value = off + scale*coordinate with even coordinates,
'rank': coordinates are ranks), y (class 0.. or integer), ys (scale of regression targets), w (multiplicities), order,
prior/b/ab (see Evidence.tla), dn/dd, pn/pd, prec (real split_precision), prec2, default, prune, cont/dt/ycont/ydt, parts."""
import itertools
import math
from fractions import Fraction

from common import *  # noqa
import observe


def lg(x):
    return math.lgamma(x)


def evid(sc, prior, ys, ws):
    """log evidence in floating point; only used to aim at interesting partition priors."""
    if sc['kind'] == 'clf':
        K = len(prior['a'])
        k = [sum(w for yy, w in zip(ys, ws) if yy == c) for c in range(K)]
        a = [v / sc['b'] for v in prior['a']]
        return sum(lg(x + n) - lg(x) for x, n in zip(a, k)) - lg(sum(a) + sum(k)) + lg(sum(a))
    n = sum(ws)
    b, ab = sc['b'], sc['ab']
    k, t, q, A = prior['k'], prior['t'], prior['q'], prior['A']
    kn, tn, qn, An = k + b * n, t + b * sum(w * v for v, w in zip(ys, ws)), q + b * sum(w * v * v for v, w in zip(ys, ws)), A + ab * n
    b0, bn = (q * k - t * t) / (2 * b * k), (qn * kn - tn * tn) / (2 * b * kn)
    return lg(An / (2 * ab)) - lg(A / (2 * ab)) + A / (2 * ab) * math.log(b0) - An / (2 * ab) * math.log(bn) + .5 * math.log(k / kn) - n / 2 * math.log(2 * math.pi)


def root_splits(sc, rows=None):
    """[(log evidence gain of the best split per feature, positions)] at a set of rows."""
    X = np.array(sc['X'], dtype=float).reshape(-1, sc['nfeat'])
    rows = list(range(len(X))) if rows is None else rows
    out = []
    pr = sc['prior']
    y, w = sc['y'], sc['w']
    e0 = evid(sc, pr, [y[r] for r in rows], [w[r] for r in rows])
    for f in range(sc['nfeat']):
        v = sorted(set(X[rows, f]))
        cand = []
        for lo, hi in zip(v, v[1:]):
            if hi - lo > (sc['prec'] or 0):
                L = [r for r in rows if X[r, f] <= lo]
                R = [r for r in rows if X[r, f] > lo]
                cand.append((evid(sc, pr, [y[r] for r in L], [w[r] for r in L]) + evid(sc, pr, [y[r] for r in R], [w[r] for r in R]) - e0, L, R))
        for g, L, R in cand:
            out.append((g - math.log(len(cand) * sc['nfeat']), L, R))
    return out


def breakeven(rng, sc, pd=1000):
    """A partition prior just below or above the point where the best split of some node of depth 0..2 pays."""
    rows, lev = None, 0
    for _ in range(4):
        c = root_splits(sc, rows)
        if not c:
            break
        best = max(c, key=lambda e: e[0])
        if lev == 2 or rng.rand() < .5:
            break
        nxt = [s for s in (best[1], best[2]) if len(s) > 1 and len(set(sc['y'][r] for r in s)) > 1]
        if not nxt:
            break
        rows = nxt[rng.randint(len(nxt))]
        lev += 1
    c = root_splits(sc, rows)
    if not c:
        return None
    g = max(e[0] for e in c)
    # s/(1-s) * exp(g) = 1
    s = 1 / (1 + math.exp(min(700, max(-700, g))))
    p = s ** (1 / (1 + lev))
    j = int(p * pd) + int(rng.randint(0, 2))
    return (j, pd) if 1 <= j < pd else None


PPS = [(9, 10), (1, 2), (99, 100), (1, 10), (999, 1000), (7, 10), (1, 4), (19, 20), (9999, 10000), (1, 10000), (1, 1000)]


def pick(rng, seq):
    return seq[rng.randint(len(seq))]


def labels(rng, X, K, n):
    """Structured labels; every class occurs."""
    style = rng.randint(5)
    nf = X.shape[1]
    if style == 0:
        y = rng.randint(0, K, n)
    elif style == 1:                                  # bands along one feature
        f = rng.randint(nf)
        r = np.argsort(np.argsort(X[:, f], kind='stable'), kind='stable')
        y = (r * pick(rng, [K, 2 * K, 3])) // max(1, n) % K
    elif style == 2:                                  # checkerboard
        y = sum((X[:, f] > np.median(X[:, f])).astype(int) for f in range(nf)) % K
    elif style == 3:                                  # alternating runs: deep trees
        f = rng.randint(nf)
        r = np.argsort(np.argsort(X[:, f], kind='stable'), kind='stable')
        y = (r // pick(rng, [1, 2, 3])) % K
    else:                                             # imbalanced
        y = (rng.rand(n) < .2).astype(int) * (K - 1)
    y = np.array(y, dtype=int)
    noise = rng.rand(n) < pick(rng, [0, .1, .25])
    y[noise] = rng.randint(0, K, noise.sum())
    pos = rng.permutation(n)[:K]
    missing = [c for c in range(K) if c not in y]
    for i, c in zip(pos, missing):
        y[i] = c
    for c in range(K):                                # again: a replacement may have removed another class
        if c not in y:
            cnt = {d: int((y == d).sum()) for d in range(K)}
            d = max(cnt, key=lambda e: cnt[e])
            y[np.where(y == d)[0][0]] = c
    return [int(v) for v in y]


def targets(rng, X, n):
    nf = X.shape[1]
    f = rng.randint(nf)
    r = np.argsort(np.argsort(X[:, f], kind='stable'), kind='stable')
    style = rng.randint(5)
    if style == 0:
        y = rng.randint(-6, 7, n)
    elif style == 1:
        y = pick(rng, [1, 3, -2]) * r
    elif style == 2:
        y = 8 * (r // max(1, n // 3)) + rng.randint(-1, 2, n)
    elif style == 3:
        y = 5 * (r % 2) + rng.randint(0, 2, n)
    else:
        y = 30 * (X[:, f] > np.median(X[:, f])) + rng.randint(0, 4, n) + pick(rng, [0, -60, 100])
    return [int(v) for v in y]


def coords(rng, n, nf, hi):
    style = rng.randint(4)
    if style == 0:
        C = rng.randint(0, hi + 1, (n, nf))
    elif style == 1:
        C = np.array([rng.permutation(n) for _ in range(nf)]).T
    elif style == 2:
        C = rng.randint(0, 3, (n, nf))
    else:
        C = np.array([rng.permutation(n) // 2 for _ in range(nf)]).T * 3
    if nf > 1 and rng.rand() < .2:
        C[:, 1] = C[:, 0] if rng.rand() < .5 else -C[:, 0]
    if rng.rand() < .1:
        C[:, rng.randint(nf)] = 0
    return 2 * C.astype(int)


def unit(b, dd):
    """The smallest multiple of b in which delta = ./dd is a whole number."""
    return b * dd // math.gcd(b, dd)


def exotic_prior(rng, sc):
    """Very weak, very strong or far-off priors."""
    dd = sc['dd']
    if sc['kind'] == 'clf':
        K = sc['nclass']
        r = rng.randint(4)
        if r == 0:
            sc.update(b=unit(1000, dd), prior=dict(a=[int(v) for v in rng.randint(1, 20, K)]))
        elif r == 1:
            sc.update(b=unit(1, dd), prior=dict(a=[int(v) for v in rng.randint(200, 9000, K) * unit(1, dd)]))
        elif r == 2:
            sc.update(b=unit(100, dd), prior=dict(a=[int(pick(rng, [1, 10, 100, 1000, 10000])) for _ in range(K)]))
        else:
            a = int(rng.randint(1, 7))
            sc.update(b=unit(pick(rng, [3, 7, 10]), dd), prior=dict(a=[a] * K))
        return sc
    r = rng.randint(4)
    b = unit(pick(rng, [1, 2, 50, 100]) if r else 1, dd)
    ymax = max([1] + [abs(v) for v in sc['y']])
    if b * sum(sc['w']) * ymax * ymax > 4 * 10**8:
        b = unit(1, dd)
    ab = unit(pick(rng, [1, 2, 5]), dd)
    k = int(pick(rng, [1, 2, 5, b, 10 * b, 300 * b]))
    m = int(pick(rng, [0, 0, 5, -30, 300])) if k <= 2000 else 0      # prior mean
    sc.update(b=b, ab=ab, prior=dict(k=k, t=m * k, q=m * m * k + int(pick(rng, [1, 3, b, 20 * b, 500 * b])), A=int(pick(rng, [1, 2, ab, 6 * ab, 40 * ab]))))
    return sc


def set_prior(rng, sc, K):
    dd = sc['dd']
    if sc['kind'] == 'clf':
        b = pick(rng, [1, 2, 4, 8])
        b = unit(b, dd)
        a = [int(rng.randint(1, 2 * b + 1)) for _ in range(K)] if rng.rand() < .7 else [b] * K
        if rng.rand() < .15:
            a = [v * 20 for v in a]
        sc.update(b=b, ab=1, prior=dict(a=a))
    else:
        b = unit(pick(rng, [1, 2, 4]), dd)
        ab = unit(pick(rng, [1, 2]), dd)
        k = int(rng.randint(1, 4 * b))
        t = int(rng.randint(-6, 7)) if rng.rand() < .7 else 0
        q = int(math.ceil((t * t + 1) / k)) + int(rng.randint(0, 12 * b))
        A = int(rng.randint(1, 6 * ab))
        sc.update(b=b, ab=ab, prior=dict(k=k, t=t, q=q, A=A))


def make(rng, kind, n=None, nf=None, K=None, hi=None, pp=None, delta=None, weights=False, mode='mid', prec=None):
    n = int(rng.randint(2, 17)) if n is None else n
    nf = int(pick(rng, [1, 1, 2, 2, 3, 4])) if nf is None else nf
    C = coords(rng, n, nf, hi or int(rng.randint(1, 12)))
    sc = dict(kind=kind, hyper=False, nfeat=nf, mode=mode, seed=int(rng.randint(2**31 - 1)), delta_given=True)
    ex = 0 if rng.rand() < .85 else int(pick(rng, [-60, -40, -25, 25, 40, 60]))
    sc['scale'] = [2.0 ** (ex + rng.randint(-4, 4)) for _ in range(nf)]
    sc['off'] = [s * int(rng.randint(-20, 20)) for s in sc['scale']]
    sc['X'] = [[sc['off'][f] + sc['scale'][f] * int(C[i, f]) for f in range(nf)] for i in range(n)]
    if kind == 'clf':
        K = min(n, K or int(pick(rng, [2, 2, 2, 3, 3, 4, 5, 9, 12])))
        K = max(2, K)
        sc['y'] = labels(rng, C, K, n)
        sc['nclass'] = K
        sc['ys'] = 1
    else:
        sc['y'] = targets(rng, C, n)
        sc['ys'] = pick(rng, [1, 1, 1, .5, .25, 4, 2.0**-30, 2.0**20])
        sc['nclass'] = 0
    sc['w'] = [int(pick(rng, [1, 1, 2, 3, 5])) if weights else 1 for _ in range(n)]
    sc['order'] = int(rng.randint(2**31 - 1)) if rng.rand() < .5 else None
    sc['dn'], sc['dd'] = delta if delta is not None else (0, 1)
    set_prior(rng, sc, K)
    sc['prec'] = None
    if prec:
        sc['prec'] = prec * sc['scale'][0]
    sc['prec2'] = [int(2 * Fraction(sc['prec'] or 0) / Fraction(s)) for s in sc['scale']]
    sc['pn'], sc['pd'] = pp or pick(rng, PPS)
    if pp is None and rng.rand() < .5:
        q = breakeven(rng, sc)
        if q:
            sc['pn'], sc['pd'] = q
    sc['parts'] = set()
    return sc


WEIRD = [0.0, 5e-324, 1e-308, 1e-300, -1e-300, 1.0, -1.0, 0.1, 0.2, 0.3, 0.1 + 0.2, 1 / 3, 2 / 3, 1e16, 1e16 + 2, 1e300, 1.7e308, -1.7e308,
         2.0 ** 53, 2.0 ** 53 + 2, 123456789.123, -5e-324, np.pi, 1e-17, 255.0, 65535.0, 65536.0]


def weird_values(rng, m):
    base = float(pick(rng, WEIRD))
    style = rng.randint(5)
    if style == 0:                                    # neighbouring floats
        v = [base]
        for _ in range(m - 1):
            nx = np.nextafter(v[-1], np.inf)
            v.append(float(nx) if np.isfinite(nx) else v[-1])
        return v
    if style == 1:
        return [float(pick(rng, WEIRD)) for _ in range(m)]
    if style == 2:
        return [float(x) for x in rng.standard_normal(m) * 10.0 ** rng.randint(-300, 300)]
    if style == 4:                                    # relatively close: time stamps, identifiers
        o = float(pick(rng, [1.7e9, 1.7e12, -2.5e6, 3e15, 1e7, 1.0, 1e-3]))
        d = abs(o) * 10.0 ** -rng.randint(5, 15)
        return [float(o + d * int(i)) for i in rng.permutation(3 * m)[:m]]
    v = []
    for _ in range(m):
        b = float(pick(rng, WEIRD))
        for _ in range(rng.randint(0, 3)):
            b = float(np.nextafter(b, pick(rng, [-np.inf, np.inf])))
        v.append(b if np.isfinite(b) else 0.0)
    return v


def make_rank(rng, kind, **kw):
    sc = make(rng, kind, mode='mid', **kw)
    n, nf = len(sc['X']), sc['nfeat']
    C = np.array(sc['X'])
    X = np.zeros((n, nf))
    for f in range(nf):
        _, r = np.unique(C[:, f], return_inverse=True)
        m = r.max() + 1
        v = sorted(set(weird_values(rng, m)))
        X[:, f] = [v[min(i, len(v) - 1)] for i in r]
    sc['X'] = X.tolist()
    sc['mode'] = 'rank'
    sc['prec'] = None
    sc['prec2'] = [0] * nf
    return sc


def make_gaps(rng, kind, **kw):
    """Values of single or double precision and a split_precision close to one of their gaps."""
    sc = make_rank(rng, kind, **kw)
    n, nf = len(sc['X']), sc['nfeat']
    dt = np.float32 if rng.rand() < .6 else np.float64
    m = int(rng.randint(2, 7))
    o = float(pick(rng, [0, 0, 1, -3, 100, 2000]))
    X = np.zeros((n, nf))
    for f in range(nf):
        v = (o + rng.uniform(-4, 4, m)).astype(dt).astype(np.float64)
        X[:, f] = v[rng.randint(0, m, n)]
    g = []
    for f in range(nf):
        v = sorted(set(X[:, f]))
        g += [(Fraction(b) - Fraction(a), float(dt(dt(b) - dt(a)))) for i, a in enumerate(v) for b in v[i + 1:]]
    if g:
        d, r = g[rng.randint(len(g))]
        p = float((d + Fraction(r)) / 2) if Fraction(r) != d and rng.rand() < .7 else float(d) * float(pick(rng, [1 - 1e-8, 1 + 1e-8, .75, 1.5]))
        if all(abs(Fraction(p) - e) > Fraction(1, 10**14) * (1 + abs(int(o))) for e, _ in g):
            sc['prec'] = p
    sc['X'] = X.tolist()
    if dt is np.float32 and rng.rand() < .8:
        sc['dt'] = 'f32'
    return sc


def offset_targets(rng, sc, large=False):
    """Regression targets far from 0 compared to their spread."""
    far = large and rng.rand() < .6
    sc['yoff'] = sc['ys'] * int(pick(rng, [-1, 1])) * (2 ** int(rng.randint(22, 31) if far else rng.randint(8, 23)) + int(rng.randint(0, 3)))
    if far:                                           # an exactly representable prior mean
        p = sc['prior']
        m, b = int(round(p['t'] / p['k'])), (p['q'] * p['k'] - p['t'] ** 2) // p['k']
        sc['prior'] = dict(p, t=m * p['k'], q=m * m * p['k'] + max(1, b))
    return sc


def far_groups(rng, delta=None):
    """Regression targets in groups whose distances are large compared to the spread within the groups; the
    prior mean lies in one of them."""
    n = int(rng.randint(8, 17))
    sc = make(rng, 'reg', n=n, nf=int(rng.randint(1, 3)), delta=delta)
    C = np.array([rng.permutation(n) for _ in range(sc['nfeat'])]).T * 2
    sc['X'] = [[sc['off'][f] + sc['scale'][f] * int(C[i, f]) for f in range(sc['nfeat'])] for i in range(n)]
    r = np.argsort(np.argsort(C[:, 0]))
    cut = int(rng.randint(2, n - 2))
    big = int(pick(rng, [-1, 1])) * (int(10 ** rng.uniform(5, 8.1)) if rng.rand() < .4 else int(rng.randint(10 ** 7, 13 * 10 ** 7)))
    lo = [int(v) % 2 if rng.rand() < .8 else int(v) for v in r]
    side = [v < cut for v in r] if rng.rand() < .5 else [v >= cut for v in r]
    if rng.rand() < .6:                               # the near group is split by position as well
        h = sorted(int(v) for v, s in zip(r, side) if s)[sum(side) // 2]
        lo = [int(v >= h) * int(pick(rng, [4, 9])) + (int(rng.randint(0, 2)) if rng.rand() < .3 else 0) if s else l for l, v, s in zip(lo, r, side)]
    sc['y'] = [l + (0 if s else big) for l, s in zip(lo, side)]
    b = unit(1, sc['dd'])
    ab = unit(1, sc['dd'])
    k, m = int(rng.randint(1, b + 1)), int(rng.randint(0, 2))
    sc.update(ys=pick(rng, [1, 1, .5, 4]), b=b, ab=ab, prior=dict(k=k, t=m * k, q=m * m * k + int(rng.randint(1, 4)), A=int(rng.randint(1, 4)) * ab))
    sc['w'] = [1] * n
    sc['pn'], sc['pd'] = pick(rng, [(9, 10), (99, 100), (999, 1000)])
    q = breakeven(rng, sc) if rng.rand() < .3 else None
    if q:
        sc['pn'], sc['pd'] = q
    if b * n * abs(big) * (8 if delta and delta[0] else 1) > 2 * 10**9:
        return far_groups(rng, delta)
    return sc


def small_scope(kind, nrows, nf, maxx, ys, priors, pps, deltas, precs):
    """All data sets of a small scope, as in MCBayesTree.tla (rows sorted lexicographically)."""
    pts = list(itertools.product(*([range(maxx + 1)] * nf + [ys])))
    for n in range(2, nrows + 1):
        for rows in itertools.combinations_with_replacement(pts, n):
            if kind == 'clf' and set(r[-1] for r in rows) != set(ys):
                continue            # not a permitted label set
            for pr0, b0, ab0 in priors:
                for pp in pps:
                    for d in deltas:
                        # natural units fine enough for delta pseudo-rows
                        m = d[1]
                        b, ab = b0 * m, ab0 * m
                        pr = {k: ([x * m for x in v] if isinstance(v, list) else v * m) for k, v in pr0.items()}
                        for pc in precs:
                            sc = dict(kind=kind, hyper=False, nfeat=nf, mode='mid', seed=1, scale=[1.0] * nf, off=[0.0] * nf,
                                      X=[[float(2 * v) for v in r[:-1]] for r in rows], y=[r[-1] for r in rows], ys=1,
                                      nclass=len(ys) if kind == 'clf' else 0, w=[1] * n, order=None, dn=d[0], dd=d[1],
                                      prior=pr, b=b, ab=ab, prec=float(pc) or None, prec2=[2 * pc] * nf, pn=pp[0], pd=pp[1], parts=set())
                            yield sc


CLF_PRIORS = [(dict(a=[1, 1]), 1, 1), (dict(a=[2, 8]), 4, 1)]
REG_PRIORS = [(dict(k=2, t=0, q=2, A=2), 2, 2), (dict(k=2, t=2, q=3, A=4), 2, 2)]


def small_clf(deltas, pps=((1, 2), (9, 10))):
    yield from small_scope('clf', 4, 1, 2, (0, 1), CLF_PRIORS, pps, deltas, (0, 2))
    yield from small_scope('clf', 3, 2, 1, (0, 1), CLF_PRIORS, pps[-1:], deltas, (0,))
    yield from small_scope('clf', 4, 1, 2, (0, 1, 2), [(dict(a=[2, 1, 1]), 2, 1)], pps[-1:], deltas, (0,))


def small_reg(deltas, pps=((1, 2), (9, 10))):
    yield from small_scope('reg', 3, 1, 2, (-1, 0, 2), REG_PRIORS, pps, deltas, (0,))
    yield from small_scope('reg', 3, 2, 1, (0, 3), REG_PRIORS, pps[-1:], deltas, (0,))


def thin(it, rng, m):
    """A random subset of about m elements (all of them if there are fewer)."""
    L = list(it)
    if len(L) <= m:
        return L
    return [L[i] for i in sorted(rng.permutation(len(L))[:m])]
