"""Per property: which scenarios are generated and which clauses of TreeTrace.tla are judged."""
import math
from fractions import Fraction

from common import *  # noqa
import gen
from gen import pick, make, make_rank, thin
import observe

DELTAS = [(1, 2), (1, 4), (3, 4), (1, 1), (1, 8), (1, 10), (1, 3), (9, 10)]


def number(prefix, scs, parts=(), **kw):
    for i, sc in enumerate(scs):
        sc['id'] = '%s-%d' % (prefix, i)
        sc['parts'] = set(sc['parts']) | set(parts)
        r = np.random.RandomState((sc['seed'] + 4711 * i) % 2**31)
        if r.rand() < .15:      # what happened to the object before and after the fit
            sc['history'] = pick(r, ['prefit', 'prefit', 'prefit pickle', 'prefit clone', 'set_params', 'pickle', 'deepcopy', 'used'])
        sc.update(kw)
    return scs


def deep(rng, kind, **kw):
    """Alternating targets along a feature, large partition prior: deep trees."""
    n = int(rng.randint(6, 15))
    sc = make(rng, kind, n=n, nf=kw.get('nf') or int(rng.randint(1, 4)), K=int(rng.randint(2, 4)), pp=(99, 100), delta=kw.get('delta'))
    C = np.array([rng.permutation(n) for _ in range(sc['nfeat'])]).T * 2
    sc['X'] = [[sc['off'][f] + sc['scale'][f] * int(C[i, f]) for f in range(sc['nfeat'])] for i in range(n)]
    f = rng.randint(sc['nfeat'])
    r = np.argsort(np.argsort(C[:, f]))
    if kind == 'clf':
        K = sc['nclass']
        run = int(rng.randint(1, 4))
        y = [int(v) // run % K for v in r]
        if set(y) != set(range(K)):
            y = [int(v) % K for v in r]
        sc['y'] = y
        a = 1 if rng.rand() < .7 else 2
        sc['b'] = gen.unit(8, sc['dd'])
        sc['prior'] = dict(a=[a] * K)
    else:
        sc['y'] = [int(v) // 2 % 2 * 40 + int(rng.randint(0, 2)) + 3 * int(v) for v in r]
    return sc


def wide(rng, kind, **kw):
    """Many features, the signal in one of them."""
    nf = int(rng.randint(6, 41)) if rng.rand() < .8 else int(pick(rng, [127, 129, 257, 300]))
    n = int(rng.randint(4, 13 if nf < 50 else 8))
    sc = make(rng, kind, n=n, nf=nf, hi=int(rng.randint(1, 5)), pp=pick(rng, [(99, 100), (999, 1000), (9, 10)]), **kw)
    f = int(rng.randint(nf)) if rng.rand() < .7 else nf - 1
    o = rng.permutation(n)
    for i in range(n):
        sc['X'][i][f] = sc['off'][f] + sc['scale'][f] * 2 * int(o[i])
    if kind == 'clf':
        K = sc['nclass']
        y = [int(v) * K // n for v in o]
        if set(y) == set(range(K)):
            sc['y'] = y
        sc['b'] = gen.unit(8, sc['dd'])
        sc['prior'] = dict(a=[1] * K)
    else:
        sc['y'] = [int(v) // 2 * 20 + int(rng.randint(0, 2)) for v in o]
    return sc


def spine(rng, kind, delta=None):
    """Rows whose weights grow geometrically, with alternating targets: one split below the other."""
    n = int(rng.randint(8, 15))
    sc = make(rng, kind, n=n, nf=int(rng.randint(1, 3)), K=2, pp=pick(rng, [(999, 1000), (9999, 10000)]), delta=delta)
    f = int(rng.randint(sc['nfeat']))
    for i in range(n):
        sc['X'][i][f] = sc['off'][f] + sc['scale'][f] * 2 * i
    sc['w'] = [max(1, int(1.5 ** i)) for i in range(n)]
    if rng.rand() < .5:
        sc['w'] = sc['w'][::-1]
    sc['order'] = int(rng.randint(2**31 - 1))
    if kind == 'clf':
        sc['y'] = [i % 2 for i in range(n)]
        sc['b'] = gen.unit(8, sc['dd'])
        sc['prior'] = dict(a=[1, 1] if rng.rand() < .5 else [4, 5])
    else:
        sc['y'] = [20 * (i % 2) + i % 3 for i in range(n)]
    return sc


def chain(rng, kind, n=None):
    """Alternating targets along one feature: trees of twenty and more levels."""
    n = int(rng.randint(28, 46)) if n is None else n
    sc = make(rng, kind, n=n, nf=int(rng.randint(1, 3)), K=2, pp=pick(rng, [(9999, 10000), (99999, 100000)]) if n < 50 else (99999999, 100000000))
    f = int(rng.randint(sc['nfeat']))
    for i in range(n):
        sc['X'][i][f] = sc['off'][f] + sc['scale'][f] * 2 * i
    if kind == 'clf':
        sc['y'] = [i % 2 for i in range(n)]
        sc['b'] = 8
        sc['prior'] = dict(a=[1, 1])
    else:
        sc['y'] = [20 * (i % 2) + i % 3 for i in range(n)]
    return sc


def many_classes(rng, K):
    """More classes than fit the small integer types, few distinct points."""
    n = K + int(rng.randint(0, K))
    sc = make(rng, 'clf', n=n, nf=int(rng.randint(1, 3)), K=K, pp=(99, 100))
    g = int(rng.randint(2, 6))
    for f in range(sc['nfeat']):
        v = [sc['off'][f] + sc['scale'][f] * 2 * int(e) for e in rng.permutation(2 * g)[:g]]
        s = int(rng.randint(1, K + 1))
        for i in range(n):
            sc['X'][i][f] = v[min(g - 1, sc['y'][i] * g // K)] if f == 0 and rng.rand() < .95 else v[rng.randint(g)] if rng.rand() < .1 else v[sc['y'][i] % s % g]
    sc['b'] = 8
    sc['prior'] = dict(a=[int(v) for v in rng.randint(1, 4, K)])
    return sc


def weighted_total(rng, kind, total, nf=None, groups=None):
    """A data set with a given number of rows, few distinct ones."""
    g = groups or int(rng.randint(3, 9))
    sc = make(rng, kind, n=g, nf=nf or int(rng.randint(1, 3)), K=int(rng.randint(2, 4)), pp=pick(rng, [(9, 10), (99, 100)]))
    cut = sorted(rng.permutation(total - 1)[:g - 1] + 1)
    sc['w'] = [int(b - a) for a, b in zip([0] + list(cut), list(cut) + [total])]
    sc['order'] = int(rng.randint(2**31 - 1))
    return sc


def crowd(rng, kind, total, nf=None):
    """Many rows at few points, similar targets everywhere: decisions close to the break-even point."""
    g = int(rng.randint(2, 5))
    K = int(rng.randint(2, 4))
    sc = make(rng, kind, n=g * K, nf=nf or int(rng.randint(1, 3)), K=K, pp=(1, 2))
    C = [[2 * int(v) for v in rng.randint(0, 4, sc['nfeat'])] for _ in range(g)]
    sc['X'] = [[sc['off'][f] + sc['scale'][f] * C[i // K][f] for f in range(sc['nfeat'])] for i in range(g * K)]
    share = rng.dirichlet([3] * g)[:, None] * (rng.dirichlet([2] * K)[None, :] + pick(rng, [.3, 2, 6]) * total ** -.5 * rng.standard_normal((g, K)))
    share = np.maximum(share, 0)
    w = np.maximum(1, (share / share.sum() * total).astype(int)).reshape(-1)
    w[np.argmax(w)] += max(0, total - w.sum())
    sc['w'] = [int(v) for v in w]
    sc['ys'] = 1
    if kind == 'clf':
        sc['y'] = [i % K for i in range(g * K)]
        sc['b'], sc['ab'] = 1, 1
        sc['prior'] = dict(a=[int(v) for v in rng.randint(1, 4, K)])
    else:
        v = [int(e) for e in rng.randint(-9, 10, K)]
        sc['y'] = [v[i % K] for i in range(g * K)]
        k, t = int(rng.randint(1, 4)), int(rng.randint(-2, 3))
        sc['b'], sc['ab'] = 1, 1
        sc['prior'] = dict(k=k, t=t, q=t * t // k + int(rng.randint(1, 9)), A=int(rng.randint(1, 6)))
    q = gen.breakeven(rng, sc)
    if q and rng.rand() < .7:
        sc['pn'], sc['pd'] = q
    else:
        sc['pn'], sc['pd'] = pick(rng, [(9, 10), (1, 2), (99, 100)])
    sc['order'] = int(rng.randint(2**31 - 1))
    sc['prec'], sc['prec2'] = None, [0] * sc['nfeat']
    return sc


def long(rng, kind, n, nf=1):
    """Many rows with as many distinct values: a few blocks of similar targets, boundaries anywhere."""
    sc = make(rng, kind, n=4, nf=nf, K=2, pp=(9, 10))
    C = np.array([rng.permutation(n) for _ in range(nf)]).T * 2
    sc['scale'], sc['off'] = [1.0] * nf, [float(rng.randint(-9, 10))] * nf
    sc['X'] = [[sc['off'][f] + int(C[i, f]) for f in range(nf)] for i in range(n)]
    cut = sorted(int(v) for v in rng.permutation(n)[:int(rng.randint(1, 4))])
    blk = np.searchsorted(cut, C[:, 0] // 2, side='right') % 2
    if nf > 1:                # within one kind of block, another feature decides
        blk = blk * (1 + (C[:, 1] // 2 > rng.randint(n // 4, n - n // 4))) % 3
    sc['w'] = [1] * n
    if kind == 'clf':
        K = max(blk) + 1
        sc['y'] = [int(v) for v in np.where(rng.rand(n) < pick(rng, [0, .02, .1]), rng.randint(0, K, n), blk)]
        sc['nclass'] = int(K)
        sc['y'][:K] = list(range(K))
        sc['b'], sc['ab'], sc['prior'] = 1, 1, dict(a=[int(v) for v in rng.randint(1, 4, K)])
    else:
        sc['ys'] = 1
        sc['y'] = [int(v) for v in blk * int(rng.randint(2, 9)) + rng.randint(-1, 2, n)]
        sc['b'], sc['ab'], sc['prior'] = 1, 1, dict(k=1, t=0, q=int(rng.randint(1, 9)), A=int(rng.randint(1, 6)))
    sc['pn'], sc['pd'] = pick(rng, [(9, 10), (1, 2)])
    sc['prec'], sc['prec2'] = None, [0] * nf
    sc['timeout'] = 300
    return sc


def hyper_stub(rng, kind, exact=None, nmax=12, ndirs=None, nf=None):
    """Hyperplane tree with a user-defined search over integer directions."""
    nf = nf or int(pick(rng, [1, 2, 2, 2, 3, 4, 2, 3, 8]))
    n = int(rng.randint(2, nmax + 1))
    exact = rng.rand() < .4 if exact is None else exact
    sc = make(rng, kind, n=n, nf=nf, weights=False)
    vals = [0, 1, 2, 4, -1, -2] if exact else list(range(-6, 13))
    s = 2.0 ** (rng.randint(-3, 4) + (0 if rng.rand() < .8 else rng.randint(-45, 46)))
    small = rng.rand() < .5
    X = [[int(pick(rng, vals[:3] if small else vals)) for _ in range(nf)] for _ in range(n)]
    if rng.rand() < .4:      # repeated rows
        for i in range(n):
            if rng.rand() < .4:
                X[i] = list(X[rng.randint(n)])
    sc['scale'], sc['off'] = [s] * nf, [0.0] * nf
    sc['X'] = [[s * v for v in r] for r in X]
    C = np.array(X)
    if kind == 'clf':
        sc['y'] = gen.labels(rng, C, sc['nclass'], n)
    else:
        sc['y'] = gen.targets(rng, C, n)
    D = []
    for _ in range(ndirs or int(rng.randint(1, 6))):
        while True:
            if exact:
                d = [0] * nf
                for j in rng.permutation(nf)[:int(rng.randint(1, 3))]:
                    d[int(j)] = int(pick(rng, [1, -1, 2, -2]))
                g = max(abs(v) for v in d)
                if g == 2 and all(v % 2 == 0 for v in d):
                    d = [v // 2 for v in d]
            else:
                d = [int(v) for v in rng.randint(-3, 4, nf)]
            if any(d):
                break
        g = int(np.gcd.reduce([abs(v) for v in d]))
        d = [v // g for v in d]
        if d not in D:
            D.append(d)
    if not exact and nf > 1 and rng.rand() < .15:      # nearly parallel directions
        d = list(pick(rng, D))
        j, l = [int(v) for v in rng.permutation(nf)[:2]]
        q = int(pick(rng, [50, 300, 1000, 3000]))
        for v in ([q * c for c in d], [q * c for c in d]):
            v[j] += int(rng.randint(-2, 3))
            v[l] += int(rng.randint(-2, 3))
            g = int(np.gcd.reduce([abs(c) for c in v]))
            v = [c // max(1, g) for c in v]
            if any(v) and v not in D:
                D.append(v)
        rng.shuffle(D)
        sc['near'] = True
    sc['dirs'] = D
    sc['hyper'] = True
    sc['w'] = [1] * n if rng.rand() < .75 else [int(pick(rng, [1, 1, 2, 3, 7, 40])) for _ in range(n)]
    sc['order'] = int(rng.randint(2**31 - 1)) if rng.rand() < .5 else None
    sc['mode'] = 'mid'
    sc['amb'] = 0
    if exact:
        sc['prec'] = None
        sc['hprec2'] = [0] * len(D)
    elif rng.rand() < .6:
        sc['prec'] = 1e-9 * s
        sc['hprec2'] = [0] * len(D)
    else:
        p = float(pick(rng, [0.7371, 1.1173, 0.3173, 2.2371]))
        sc['prec'] = p * s
        sc['hprec2'] = [int(2 * p * math.sqrt(sum(v * v for v in d))) for d in D]
    # directions of any length
    u = [2.0 ** int(v) for v in rng.randint(-40, 41, len(D))] if rng.rand() < .2 else [float(10.0 ** v) for v in rng.randint(-12, 13, len(D))] if not exact and rng.rand() < .1 \
        else [float(v) for v in rng.randint(1, 4, len(D))]
    sc['optimizer'] = ('fixed', dict(dirs=[[c * m for c in d] for d, m in zip(D, u)],
                                     repeat=int(rng.randint(1, 3)) if rng.rand() < .9 else 15, order=int(rng.randint(1000)) if rng.rand() < .5 else None,
                                     how=pick(rng, [None, 'reuse', 'int', 'f32', 'readonly', 'strided'])))
    single(rng, sc)
    sc['cont'] = pick(rng, ['array', 'array', 'csr', 'csc', 'fortran', 'list', 'df'])
    sc['delta_given'] = bool(rng.rand() < .5)
    sc['dn'], sc['dd'] = 0, 1
    # keep the search for an informative partition prior within the directions
    sc['prec2'] = [0] * nf
    if rng.rand() < .15:
        whole_prior(rng, sc)
    far_targets(rng, sc)
    return sc


def offset(rng, sc):
    """Rows of a hyperplane tree that lie far from the origin (whole multiples of the scale)."""
    s = sc['scale'][0]
    o = [0] * sc['nfeat']
    o[rng.randint(sc['nfeat'])] = int(pick(rng, [1, -1])) * (2**int(rng.randint(23, 25)) + int(rng.randint(1, 1000)))
    sc['X'] = [[v + s * o[j] for j, v in enumerate(r)] for r in sc['X']]
    sc['prec'] = 1e-4 * s
    sc['hprec2'] = [0] * len(sc['dirs'])
    sc.pop('dt', None)
    return sc


def single(rng, sc, p=.25):
    if rng.rand() < p and observe.exact_as(sc['X'], 'f32'):
        sc['dt'] = 'f32'


def hyper_builtin(rng, kind, which=None, nmax=10, spread=0):
    nf = int(pick(rng, [2, 2, 3, 2, 3, 5]))
    n = int(rng.randint(3, nmax + 1))
    sc = make(rng, kind, n=n, nf=nf, weights=False, pp=pick(rng, [(9, 10), (99, 100), (1, 2)]))
    s = 2.0 ** (rng.randint(-2, 3) + (0 if rng.rand() < .8 else rng.randint(-45, 46)))
    X = [[int(v) for v in rng.randint(-6, 9, nf)] for _ in range(n)]
    # distinct rows: equal rows could be told apart by rounding of their projections
    seen = []
    for r in X:
        while r in seen:
            r[rng.randint(nf)] += 1
        seen.append(list(r))
    if spread:                # rows in general position
        o = rng.permutation(len(seen))
        seen = [[int(v) for v in np.r_[(spread * (2 * o[i] + 1)) // len(seen) - spread, rng.randint(-spread, spread + 1, nf - 1)]] for i in range(len(seen))]
    sc['scale'], sc['off'] = [s] * nf, [0.0] * nf
    sc['X'] = [[s * v for v in r] for r in seen]
    C = np.array(seen)
    sc['y'] = gen.labels(rng, C, sc['nclass'], n) if kind == 'clf' else gen.targets(rng, C, n)
    sd = int(rng.randint(1000)) if rng.rand() < .7 else 0
    opts = [('random', dict(n_mc=int(rng.randint(1, 15)), seed=sd)), ('quasi', dict(n=int(rng.randint(1, 15)))),
            ('annealing', dict(n_scan=int(rng.randint(2, 6)), n_keep=int(rng.randint(1, 4)), spread_factor=0.9, seed=sd)),
            ('de', dict(seed=sd, maxiter=2, popsize=3))]
    if kind == 'clf':
        opts.append(('twopoint', dict(n_mc=int(rng.randint(1, 15)), seed=sd)))
    sc['optimizer'] = pick(rng, opts) if which is None else [o for o in opts if o[0] == which][0]
    sc['hyper'] = True
    single(rng, sc)
    sc['dirs'] = None
    sc['dirscale'] = 10**4 if spread else 10**6
    sc['amb'] = 15 * spread or 12 * 30
    sc['hprec2'] = 0
    sc['scored'] = False
    sc['prec'] = None
    sc['prec2'] = [0] * nf
    sc['cont'] = pick(rng, ['array', 'array', 'csr', 'csc', 'fortran', 'list', 'df'])
    sc['delta_given'] = bool(rng.rand() < .5)
    sc['dn'], sc['dd'] = 0, 1
    sc['timeout'] = 120
    if rng.rand() < .15:
        whole_prior(rng, sc)
    far_targets(rng, sc)
    return sc


NAMES = [lambda i: 'feat_%s' % chr(97 + (3 * i) % 7) + str(i), lambda i: 'n%d' % i, lambda i: 'a rather long name of a feature, the longest of all of them by far: number %d' % i,
         lambda i: 'rate{} of %d' % i, lambda i: '{%d}%%s\\n%%d' % i, lambda i: '\u00e9\u4e2d %d' % i, lambda i: ' padded %d ' % i, lambda i: 'y=%d, n' % i,
         lambda i: ('A', 'a', 'AA', 'aA')[i % 4] + str(i // 4), lambda i: 'x%d' % (i + 1), lambda i: str(7 * i), lambda i: 'f' * (i + 1), lambda i: 'same']


def names(rng, sc):
    nf = sc['nfeat']
    r = rng.randint(4)
    sc['fnames'] = None
    sc['fkind'] = pick(rng, ['list', 'tuple', 'array', 'index'])
    if r == 0:
        how = NAMES[rng.randint(len(NAMES))]
        sc['fnames'] = [how(i) for i in range(nf)]
        sc['expnames'] = [str(v) for v in sc['fnames']]
    elif r == 1 and not sc.get('hyper'):
        sc['cont'] = 'df'
        sc['expnames'] = ['col%d' % i for i in range(nf)]
    elif r == 2 and not sc.get('hyper'):
        sc['cont'] = 'df'
        how = NAMES[rng.randint(len(NAMES))]
        sc['fnames'] = [how(nf - i) for i in range(nf)]
        sc['expnames'] = [str(v) for v in sc['fnames']]
    else:
        sc['expnames'] = ['x%d' % i for i in range(nf)]
    return sc


def sparse_some(rng, sc, large=False):
    if rng.rand() < .35 and sc.get('cont') is None:
        sc['cont'] = pick(rng, ['csr', 'csc', 'csr0', 'cscu', 'csrn', 'list', 'fortran', 'strided', 'readonly'])
    if not sc.get('default') and rng.rand() < .3:
        whole_prior(rng, sc)
    far_targets(rng, sc, large=large)
    return sc


def far_targets(rng, sc, p=.2, large=False):
    if sc['kind'] == 'reg' and not sc.get('default') and rng.rand() < p:
        gen.offset_targets(rng, sc, large)
        if observe.exact_as([observe.real_y(sc, v) for v in sc['y']], 'f32'):
            sc['ydt'] = 'f32'
    return sc


def whole_prior(rng, sc):
    """A prior of whole numbers, given as such (or as tuple or array)."""
    u = sc['b']
    if sc['kind'] == 'clf' and rng.rand() < .6:
        sc['prior'] = dict(a=[max(1, (v + u - 1) // u) * u for v in sc['prior']['a']])
    elif sc['kind'] == 'reg' and rng.rand() < .6:
        # mu, kappa, alpha, beta: m, k / b, A / 2ab, (q - t^2/k) / 2b (in units of the targets)
        k, A = int(rng.randint(1, 4)) * u, 2 * sc['ab'] * int(rng.randint(1, 4))
        m = int(rng.randint(-4, 5))
        sc['ys'] = 1 if sc['ys'] < 1 else sc['ys']
        sc['prior'] = dict(k=k, t=m * k, q=m * m * k + 2 * u * int(rng.randint(1, 6)), A=A)
    sc['priorcont'] = pick(rng, ['ints', 'intarray', 'tuple', 'array'])
    return sc


# ------------------------------------------------------------------------- generators per property

def g_scores(kind):
    def g(rng, m):
        out = []
        sm = gen.small_clf(((0, 1),)) if kind == 'clf' else gen.small_reg(((0, 1),))
        out += thin(sm, rng, 400 * m)
        for i in range(250 * m):
            r = i % 10
            if r < 5:
                sc = make(rng, kind, weights=bool(i % 3 == 0))
            elif r == 5:
                sc = make(rng, kind, delta=pick(rng, DELTAS), n=int(rng.randint(3, 13)))
            elif r == 6:
                sc = make(rng, kind, prec=int(rng.randint(1, 6)))
            elif r == 7:
                sc = make_rank(rng, kind)
            elif r == 8:
                sc = deep(rng, kind)
            else:
                sc = make(rng, kind, n=int(rng.randint(17, 33)), nf=int(rng.randint(1, 3)))
            if i % 20 == 4:
                sc = wide(rng, kind)
            elif i % 40 == 10:
                sc = spine(rng, kind)
            elif i % 250 == 11:
                sc = chain(rng, kind)
            elif kind == 'clf' and i % 125 == 12:
                sc = many_classes(rng, int(pick(rng, [15, 20, 40, 70, 130])))
            if kind == 'reg' and i % 6 == 5:
                sc = gen.far_groups(rng, delta=pick(rng, [None, None, (1, 2)]))
                out.append(sc)
                continue
            if rng.rand() < .12 and not sc['dn']:
                default_prior(rng, sc)
            elif rng.rand() < .15:
                gen.exotic_prior(rng, sc)
            out.append(sparse_some(rng, sc, large=True))
        for t in (120, 230):
            for _ in range(m):
                out.append(weighted_total(rng, kind, t + int(rng.randint(-20, 20)), groups=int(rng.randint(3, 6))))
        for t in (150, 150, 300, 300, 600, 600, 1100, 1100, 2000, 5000, 10000) * m + (32700, 33500, 65600, 66500) * (m // 3):
            sc = crowd(rng, kind, t + int(rng.randint(-t // 30, t // 30)))
            if rng.rand() < .15:
                default_prior(rng, sc)
            sc['cont'] = pick(rng, ['array', 'array', 'array', 'csc', 'csr'])
            out.append(sc)
        for n, nf in ([(300, 3), (1100, 2), (2300, 2), (4200, 1)] if kind == 'clf' else [(150, 3), (700, 2), (2200, 1)]) * (1 + m // 5):
            out.append(long(rng, kind, n + int(rng.randint(n // 10)), nf))
        return out
    return g


def default_prior(rng, sc):
    sc['default'] = True
    sc.pop('yoff', None)
    sc.pop('ydt', None)
    if sc['kind'] == 'reg':
        sc['ys'] = pick(rng, [1, .5, .25])
        sc['b'], sc['ab'] = sc['dd'], sc['dd']
    else:
        sc['b'], sc['ab'] = sc['dd'], 1
    sc['pn'], sc['pd'] = pick(rng, gen.PPS)
    return sc


def g_C03(rng, m):
    out = []
    for i in range(300 * m):
        kind = ['clf', 'reg'][i % 2]
        r = i % 6
        if r in (0, 1, 2):
            sc = make_rank(rng, kind, pp=pick(rng, [(99, 100), (9, 10)]))
            if r == 2 and all(observe.exact_as([row], 'f32') for row in sc['X']):
                sc['dt'] = 'f32'
        elif r == 3:
            sc = make(rng, kind, prec=int(rng.randint(1, 9)), pp=(99, 100))
        elif r == 4:
            sc = gen.make_gaps(rng, kind, pp=(99, 100))
        else:
            sc = int_data(rng, kind)
        if i % 24 == 9:
            sc = wide(rng, kind)
        if rng.rand() < .5 and kind == 'clf':    # strong signal, so that many splits are made
            sc['b'] = gen.unit(8, sc['dd'])
            sc['prior'] = dict(a=[1] * sc['nclass'])
        out.append(sparse_some(rng, sc))
    return out


INTS = ['i8', 'u8', 'i16', 'u16', 'i32', 'u32', 'i64', 'u64']


def int_data(rng, kind, dt=None):
    """Feature values that use the whole range of a small integer type."""
    dt = dt or pick(rng, INTS)
    n = int(rng.randint(3, 13))
    sc = make(rng, kind, n=n, pp=(99, 100))
    nf = sc['nfeat']
    lo, hi = {'i8': (-128, 127), 'u8': (0, 255), 'i16': (-32768, 32767), 'u16': (0, 65535)}.get(dt, (0, 2**20) if dt[0] == 'u' else (-2**20, 2**20))
    C = np.zeros((n, nf), dtype=int)
    for f in range(nf):
        style = rng.randint(3)
        m = (hi - lo) // 2
        if style == 0:
            C[:, f] = rng.randint(0, m + 1, n)
        elif style == 1:
            C[:, f] = np.where(rng.rand(n) < .5, rng.randint(0, 3, n), m - rng.randint(0, 3, n))
        else:
            C[:, f] = m - rng.permutation(n)
    sc['scale'], sc['off'] = [1.0] * nf, [float(lo)] * nf
    sc['X'] = [[float(lo + 2 * int(v)) for v in r] for r in C]
    f = int(rng.randint(nf))
    r = np.argsort(np.argsort(C[:, f], kind='stable'), kind='stable')
    if kind == 'clf':
        K = sc['nclass']
        y = [int(v) * K // n for v in r]
        if set(y) == set(range(K)):
            sc['y'] = y
    else:
        sc['y'] = [int(v) * pick(rng, [1, 10]) for v in r]
        sc['ys'] = 1
    sc['dt'] = dt
    sc['prec'] = None
    sc['prec2'] = [0] * nf
    return sc


def g_C04(rng, m):
    out = []
    for i in range(220 * m):
        kind = ['clf', 'reg'][i % 2]
        r = i % 6
        if r == 0:
            sc = deep(rng, kind)
        elif r == 1:
            sc = make_rank(rng, kind)
        elif r == 2:
            sc = make(rng, kind, n=int(rng.randint(20, 60)), nf=int(rng.randint(1, 5)), pp=(99, 100))
        elif r == 3:
            sc = int_data(rng, kind)
        else:
            sc = make(rng, kind, weights=True, pp=pick(rng, [(99, 100), (9, 10)]), prec=int(rng.randint(0, 4)) or None)
        if i % 12 == 5:
            sc = wide(rng, kind)
        elif i % 12 == 10:
            sc = spine(rng, kind)
        elif i % 36 in (7, 8):
            sc = make(rng, kind, n=int(rng.randint(150, 400)), nf=2, hi=int(pick(rng, [20, 300])), pp=(99, 100))
        elif i % 60 == 19:
            sc = chain(rng, kind)
        if rng.rand() < .3 and kind == 'clf':
            sc['b'] = gen.unit(8, sc['dd'])
            sc['prior'] = dict(a=[1] * sc['nclass'])
        out.append(sparse_some(rng, sc))
    for t in (127, 128, 129, 255, 256, 257, 300, 1000, 4095, 4097) * m:
        out.append(weighted_total(rng, pick(rng, ['clf', 'reg']), t))
    for t in ((32767, 32769, 65535, 65536, 65537, 70001, 66000) if m == 1 else (32767, 32768, 32769, 65535, 65536, 65537, 65538, 70001, 131073, 100000, 66000, 80000)):
        sc = weighted_total(rng, pick(rng, ['clf', 'reg']), t, nf=2)
        sc['order'] = int(rng.randint(2**31 - 1))
        sc['cont'] = pick(rng, ['array', 'array', 'csc', 'csr'])
        out.append(sc)
    for _ in range(m):
        out.append(chain(rng, 'clf', int(rng.randint(130, 146))))
        out.append(long(rng, pick(rng, ['clf', 'reg']), int(rng.randint(500, 3000)), 2))
    for sc in out:
        sc['scored'] = False
    return out


def g_C05(rng, m):
    out = thin(gen.small_clf(((0, 1),)), rng, 100 * m) + thin(gen.small_reg(((0, 1),)), rng, 60 * m)
    for i in range(260 * m):
        kind = ['clf', 'reg'][i % 2]
        r = i % 5
        if r == 0:
            sc = weighted_total(rng, kind, int(pick(rng, [50, 99, 100, 101, 150, 199, 200, 250, 299, 300, 350, 430])))
            default_prior(rng, sc)
        elif r == 1:
            sc = default_prior(rng, make(rng, kind, weights=True))
        elif r == 2:
            sc = deep(rng, kind)
        else:
            sc = make(rng, kind, K=int(rng.randint(2, 7)), weights=bool(i % 2))
        if i % 26 == 7:
            out.append(gen.far_groups(rng))
            continue
        if i % 52 == 1:
            sc = many_classes(rng, int(pick(rng, [15, 40, 130, 260])))
        elif i % 52 == 2:
            sc = chain(rng, kind)
        elif i % 26 == 5 or i % 26 == 8:
            sc = weighted_total(rng, kind, int(pick(rng, [600, 1001, 1300, 2049, 4097, 10001, 33000, 70001])))
        elif i % 26 == 10 and sum(sc.get('w', [1] * 99)) <= 90 and not sc.get('default'):
            # nearly no prior at all, or for some classes only
            sc['dd'] = 1
            sc.update(b=10**7, ab=1, prior=dict(a=[int(pick(rng, [1, 2, 9, 300, 10**7])) for _ in range(sc['nclass'])]))
        elif i % 5 and rng.rand() < .25 and not sc.get('default'):
            gen.exotic_prior(rng, sc)
        sc['priorcont'] = pick(rng, ['list', 'tuple', 'array'])
        if rng.rand() < .4 and not sc.get('default'):
            whole_prior(rng, sc)
        sc['prune'] = bool(rng.rand() < .2)
        out.append(sparse_some(rng, sc))
    for sc in out:
        sc['scored'] = False
        sc['want_prior'] = True
    return out


def g_C06(rng, m):
    out = []
    for i in range(220 * m):
        kind = ['clf', 'reg'][i % 2]
        r = i % 6
        if r in (0, 1):
            sc = deep(rng, kind)
        elif r == 2:
            sc = make_rank(rng, kind, pp=(99, 100))
        elif r == 3:
            sc = int_data(rng, kind)
        else:
            sc = make(rng, kind, pp=pick(rng, [(99, 100), (9, 10)]), delta=pick(rng, DELTAS) if rng.rand() < .2 else None)
        if i % 18 == 11:
            sc = wide(rng, kind)
        elif i % 18 == 16:
            sc = spine(rng, kind)
        elif i % 90 == 21:
            sc = many_classes(rng, int(pick(rng, [15, 40, 130, 260])))
        elif i % 90 == 22:
            sc = chain(rng, kind)
        if rng.rand() < .6 and kind == 'clf':
            sc['b'] = gen.unit(8, sc['dd'])
            sc['prior'] = dict(a=[1] * sc['nclass'])
        sc['prune'] = bool(rng.rand() < .2)
        if i % 7 == 0:
            sc['bigbatch'] = int(pick(rng, [101, 127, 128, 129, 255, 256, 257, 300, 1000, 1023, 1025]))
        out.append(sparse_some(rng, sc))
    for t in (32769, 65536, 65537, 70001)[:2 + m // 3 * 2]:
        sc = deep(rng, 'clf')
        sc['bigbatch'] = t
        out.append(sc)
    for sc in out:
        sc['scored'] = False
    return out


def g_C07(rng, m):
    out = g_C06(rng, m)
    for sc in out:
        sc.pop('cont', None)
        if sc.get('bigbatch', 0) > 2000:
            sc['bigbatch'] = 2000
        names(rng, sc)
        sparse_some(rng, sc)
        if sc.get('dt') and sc.get('cont') in ('csr0',):
            sc['cont'] = 'csr'
    return out


XCONTS = ['list', 'fortran', 'strided', 'reversed', 'readonly', 'df', 'dfidx', 'dfrev', 'dfint', 'dfmixed', 'csr', 'csc', 'csr0', 'csc0', 'cscu', 'csrn', 'array']
YCONTS = ['list', 'tuple', 'column', 'row', 'strided', 'series', 'seriesrev', 'seriesstr', 'readonly', 'array']
SPARSE = ('csr', 'csc', 'csr0', 'csc0', 'cscu', 'csrn')


def add_repr_variants(rng, sc, count):
    y = np.array([observe.real_y(sc, v) for v in sc['y']], dtype=float)
    V = []
    n = sum(sc['w'])
    for _ in range(count):
        cont = pick(rng, XCONTS)
        dts = [d for d in observe.DT if observe.exact_as(sc['X'], d)]
        if cont in SPARSE:
            dts = [d for d in dts if d not in ('f16', 'obj')]      # not supported by scipy
        dt = pick(rng, dts)
        ydts = [d for d in observe.DT if observe.exact_as(y, d)]
        ydt = pick(rng, ydts)
        ycont = pick(rng, YCONTS)
        qcont = pick(rng, XCONTS)
        qdt = pick(rng, ['f64', 'f32', 'i8', 'u8', 'i16', 'i64', 'u64', 'bool', 'f16'])
        if rng.rand() < .2:
            qdt = pick(rng, ['bf64', 'bf32', 'bi16', 'bi32', 'ld'])
        if qcont in SPARSE and qdt == 'f16':
            qdt = 'f64'
        if ycont in ('row', 'column') and n == 1:
            ycont = 'list'
        V.append(dict(what='X %s/%s y %s/%s query %s/%s' % (cont, dt, ycont, ydt, qcont, qdt),
                      over=dict(cont=cont, dt=dt, ycont=ycont, ydt=ydt), qcont=qcont, qdt=qdt,
                      alone=bool(rng.rand() < .3), anynames=True, loose=bool(sc['kind'] == 'reg' and sc.get('hyper'))))
    sc['variants'] = V
    sc['parts'] = set(sc['parts']) | {'variants'}


def g_C08(rng, m):
    out = []
    for i in range(130 * m):
        kind = ['clf', 'reg'][i % 2]
        r = i % 6
        if r == 0:
            sc = int_data(rng, kind)
        elif r == 1:
            sc = make_rank(rng, kind)
        elif r == 2:
            sc = deep(rng, kind)
        elif r == 3:
            sc = make(rng, kind, nf=int(rng.randint(1, 5)))
            sc['X'] = [[float(int(v * 3) % 2) for v in row] for row in (np.array(sc['X'])).tolist()]
            sc['scale'], sc['off'] = [.5] * sc['nfeat'], [0.0] * sc['nfeat']
        elif r == 4:
            sc = hyper_stub(rng, kind) if rng.rand() < .6 else hyper_builtin(rng, kind, spread=2000)
        else:
            sc = make(rng, kind, delta=pick(rng, DELTAS) if rng.rand() < .3 else None, weights=True)
        if i % 18 == 11:
            sc = wide(rng, kind)
        elif i % 18 == 5 and r != 4:
            sc = gen.make_gaps(rng, kind, pp=(99, 100))
        if kind == 'reg' and rng.rand() < .5:
            sc['ys'] = 1
            big = pick(rng, [1, 1, 10, 40])
            sc['y'] = [v * big for v in sc['y']] if max(abs(v) for v in sc['y']) * big < 400 else sc['y']
        sc.pop('dt', None)
        sc['cont'] = 'array'
        sc['delta_given'] = True
        far_targets(rng, sc, .35)
        sc.pop('ydt', None)
        add_repr_variants(rng, sc, 5)
        out.append(sc)
    return out


def g_C09(rng, m):
    out = []
    for i in range(130 * m):
        kind = ['clf', 'reg'][i % 2]
        r = i % 5
        hyper = False
        if r == 0:
            sc = deep(rng, kind)
        elif r == 1:
            sc = make(rng, kind, weights=True)
        elif r == 2:
            sc = make_rank(rng, kind)
        elif r == 3:
            sc = make(rng, kind, delta=pick(rng, DELTAS), prec=int(rng.randint(0, 4)) or None)
        else:
            sc = hyper_builtin(rng, kind, nmax=8)
            hyper = True
        if r == 1 and rng.rand() < .5:
            default_prior(rng, sc)
        if i % 15 == 8:
            sc = wide(rng, kind)
        elif i % 15 == 13:
            sc = spine(rng, kind)
        elif i % 15 == 2:
            sc = make_rank(rng, kind)
            sc['w'] = [int(v) for v in rng.randint(1, 30, len(sc['y']))]
        sc['prune'] = bool(rng.rand() < .3)
        V = [dict(what='again', over={}), dict(what='other global seed', over={}, globalseed=int(rng.randint(1, 10**6))),
             dict(what='verbose', over={}, verbose=True), dict(what='after another fit', over={}, refit=int(rng.randint(1, 10**6)))]
        if not hyper:
            V += [dict(what='rows permuted %d' % j, over={}, perm=int(rng.randint(10**6))) for j in range(2)]
            V += [dict(what='rows ordered by a feature or the target', over={}, perm=int(rng.randint(10**6)), by=int(rng.randint(-1, sc['nfeat'])), down=bool(rng.rand() < .5))
                  for j in range(2)]
        sc['variants'] = V
        sc['parts'] = {'variants'}
        out.append(sc)
    # the default search (differential evolution with its default settings) once or twice
    for i in range(m):
        sc = hyper_builtin(rng, 'clf', nmax=5)
        sc['optimizer'] = None
        sc['timeout'] = 300
        sc['variants'] = [dict(what='other global seed', over={}, globalseed=int(rng.randint(1, 10**6)))]
        sc['parts'] = {'variants'}
        out.append(sc)
    return out


def g_C12(rng, m):
    out = thin(gen.small_clf(((1, 2), (1, 1))), rng, 150 * m) + thin(gen.small_reg(((1, 2), (1, 1))), rng, 150 * m)
    for i in range(220 * m):
        kind = ['clf', 'reg'][i % 2]
        d = pick(rng, DELTAS)
        r = i % 4
        if r == 0:
            sc = deep(rng, kind, delta=d)
        elif r == 1:
            sc = make_rank(rng, kind, delta=d)
        else:
            sc = make(rng, kind, delta=d, n=int(rng.randint(3, 15)), weights=bool(rng.rand() < .2), pp=pick(rng, [(9, 10), (99, 100), None, None]))
        if i % 40 == 7:
            sc = spine(rng, kind, delta=d)
        elif i % 40 == 18:
            sc = wide(rng, kind, delta=d)
        elif rng.rand() < .1:
            gen.exotic_prior(rng, sc)
        if rng.rand() < .15:
            default_prior(rng, sc)
        if rng.rand() < .1:
            sc['dn'] = 0
        out.append(sparse_some(rng, sc))
    for sc in out:
        sc['want_prior'] = True
    return out


def mixed_all(rng, m, count, hyper_share=.3, builtin_share=.1):
    out = []
    for i in range(count * m):
        kind = ['clf', 'reg'][i % 2]
        u = rng.rand()
        if u < builtin_share:
            sc = hyper_builtin(rng, kind)
        elif u < hyper_share:
            sc = hyper_stub(rng, kind)
        else:
            r = rng.randint(4)
            if i % 23 == 5:
                sc = wide(rng, kind)
            elif i % 23 == 6:
                sc = spine(rng, kind)
            elif r == 0:
                sc = deep(rng, kind)
            elif r == 1:
                sc = make_rank(rng, kind, pp=pick(rng, [(99, 100), None]))
            elif r == 2:
                sc = make(rng, kind, delta=pick(rng, DELTAS), n=int(rng.randint(3, 14)))
            else:
                sc = make(rng, kind, weights=bool(rng.rand() < .3), pp=pick(rng, [(99, 100), (9, 10), None]))
        out.append(sc)
    return out


def agreeing(rng, kind):
    """A split whose sides predict the same, and other than their parent."""
    sc = make(rng, kind, n=8, nf=int(rng.randint(1, 4)), K=int(rng.randint(2, 5)), pp=pick(rng, [(99, 100), (999, 1000)]))
    f = int(rng.randint(sc['nfeat']))
    n = len(sc['X'])
    o = [int(v) for v in rng.permutation(n)]
    for i in range(n):
        sc['X'][i][f] = sc['off'][f] + sc['scale'][f] * 2 * o[i]
    sc['prec'], sc['prec2'] = None, [0] * sc['nfeat']
    if kind == 'clf':
        # a prior in favour of class c; side by side the data are too few to overrule it, together they are not
        K = sc['nclass']
        c = int(rng.randint(K))
        d = (c + 1 + int(rng.randint(K - 1))) % K
        g = int(rng.randint(4, 40))
        sc['b'] = 1
        sc['prior'] = dict(a=[g if k == c else 1 for k in range(K)])
        left = int(rng.randint(g // 2 + 1, g))
        y, w, at = [d, c, d], [left, int(rng.randint(1, g)), 0], [0, 6, 8]
        w[2] = w[1] + int(rng.randint(max(1, g - left), g))
        for k in range(K):
            if k not in (c, d):
                y.append(k)
                w.append(1)
                at.append(8)
        if rng.rand() < .4:
            y.append(d)
            w.append(1)
            at.append(int(pick(rng, [6, 10])))
        sc['X'] = [[v if j != f else sc['off'][f] + sc['scale'][f] * a for j, v in enumerate(pick(rng, sc['X'][:2]))] for a in at]
        sc['y'], sc['w'] = y, w
    else:
        # two groups of the same size and sum around a value far from the prior mean
        m = int(pick(rng, [5, -7, 20, 100]))
        s = int(pick(rng, [30, 60, 90]))
        lo = rng.rand() < .5
        y = [0] * n
        for j in range(n):
            y[j] = m + (1 if o[j] % 2 else -1) * (s if (o[j] < n // 2) == lo else int(rng.randint(2)) * 0 + 1)
        sc['y'], sc['w'] = y, [1] * n
        sc['ys'] = pick(rng, [1, 1, .5, 4])
        u = gen.unit(2, sc['dd'])
        sc['b'], sc['ab'] = u, u
        sc['prior'] = dict(k=int(rng.randint(1, 5)), t=0, q=int(rng.randint(1, 9)), A=int(rng.randint(1, 9)))
    return sc


def prunable(rng, kind):
    """Many splits whose sides predict the same."""
    n = int(rng.randint(6, 17))
    if kind == 'clf':
        sc = make(rng, 'clf', n=n, K=int(rng.randint(2, 4)), pp=(99, 100))
        K = sc['nclass']
        C = np.array(sc['X'])
        f = int(rng.randint(sc['nfeat']))
        r = np.argsort(np.argsort(C[:, f], kind='stable'), kind='stable')
        p = [.1, .5, .3, .05]
        y = np.array([int(rng.rand() < p[min(3, int(v) * 4 // n)]) * int(rng.randint(1, K)) for v in r])
        for c in range(K):
            if c not in y:
                y[rng.randint(n)] = c
        if set(y) == set(range(K)):
            sc['y'] = [int(v) for v in y]
        sc['b'] = 8
        a = int(rng.randint(1, 5))
        sc['prior'] = dict(a=[a] * K if rng.rand() < .6 else [int(rng.randint(1, 25)) for _ in range(K)])
        return sc
    sc = make(rng, 'reg', n=2 * (n // 2), pp=(99, 100))
    n = len(sc['y'])
    # mirrored pairs of targets of different spread: equal means, different variances
    C = np.array(sc['X'])
    f = int(rng.randint(sc['nfeat']))
    r = np.argsort(C[:, f], kind='stable')
    y = [0] * n
    for j in range(0, n - 1, 2):
        s = int(pick(rng, [1, 1, 40, 90]) if rng.rand() < .3 else (1 if j < n // 2 else 50))
        y[r[j]], y[r[j + 1]] = s, -s
    if rng.rand() < .4:
        y[r[-1]] += 7
    sc['y'] = y
    p = sc['prior']
    p['t'] = 0 if rng.rand() < .8 else p['t']
    if rng.rand() < .3:
        # predictions that are nearly, but not, equal: far from 0 relative to their spread
        o = int(pick(rng, [100, 1000, 9000]))
        m = int(rng.randint(3, 7))
        sc['X'], sc['w'] = sc['X'][:m], sc['w'][:m]
        r = np.argsort(np.argsort([x[f] for x in sc['X']], kind='stable'), kind='stable')
        sc['y'] = [o + int(pick(rng, [0, 0, 0, 1])) if v < m // 2 else o + int(pick(rng, [1, 1, 1, 0, 2])) for v in r]
        sc['b'], sc['ab'] = 1, 2
        sc['prior'] = dict(k=1, t=o, q=o * o + 1, A=4)
    return sc


def deep_agreeing(rng):
    """A long spine at whose lower end both sides of the splits predict the same."""
    n = int(rng.randint(16, 24))
    sc = make(rng, 'clf', n=n, nf=int(rng.randint(1, 3)), K=2, pp=(99999, 100000))
    f = int(rng.randint(sc['nfeat']))
    for i in range(n):
        sc['X'][i][f] = sc['off'][f] + sc['scale'][f] * 2 * i
    sc['prec'], sc['prec2'] = None, [0] * sc['nfeat']
    sc['w'] = [max(1, int(1.5 ** i)) for i in range(n)]
    if rng.rand() < .5:
        sc['w'] = sc['w'][::-1]
    sc['order'] = int(rng.randint(2**31 - 1))
    sc['y'] = [i % 2 for i in range(n)]
    sc['b'] = 2
    c = int(rng.randint(2))
    sc['prior'] = dict(a=[int(rng.randint(5, 14)) if k == c else int(rng.randint(1, 3)) for k in range(2)])
    return sc


def g_C13(rng, m):
    out = [deep_agreeing(rng) for _ in range(10 * m)]
    for i in range(170 * m):
        kind = ['clf', 'reg'][i % 2]
        u = rng.rand()
        if i % 8 < 2:
            sc = agreeing(rng, kind)
            if rng.rand() < .5:
                names(rng, sc)
        elif u < .45:
            sc = prunable(rng, kind)
            names(rng, sc)
        elif u < .6:
            sc = hyper_stub(rng, kind)
            q = prunable(rng, kind)
            if rng.rand() < .6 and kind == 'clf':
                sc['pn'], sc['pd'] = 99, 100
                sc['b'], sc['prior'] = 8, dict(a=[int(rng.randint(1, 12)) for _ in range(sc['nclass'])])
        elif u < .7:
            sc = hyper_builtin(rng, kind)
        else:
            sc = mixed_all(rng, 1, 1, 0, 0)[0] if kind == 'clf' else deep(rng, kind)
            if sc['kind'] == 'clf' and rng.rand() < .7:
                sc['prior'] = dict(a=[int(rng.randint(1, 30)) for _ in range(sc['nclass'])])
                sc['b'] = gen.unit(8, sc['dd'])
            names(rng, sc)
        out.append(sc)
    for sc in out:
        sc['parts'] = {'twin', 'query', 'print'}
        sc['prune'] = True
        sc['scored'] = False
    return out


def g_C14(rng, m):
    out = mixed_all(rng, m, 260, hyper_share=.35, builtin_share=0)
    for _ in range(2 * m):
        out.append(long(rng, 'clf', int(rng.randint(1500, 2500)), 2))
    for t in (100, 150, 300, 600, 900, 3000, 9000) * m:
        sc = crowd(rng, pick(rng, ['clf', 'reg']), t, nf=int(rng.randint(2, 4)))
        if rng.rand() < .15:
            default_prior(rng, sc)
        out.append(sc)
    for i in range(m):
        out.append(chain(rng, ['clf', 'reg'][i % 2]))
        out.append(many_classes(rng, int(pick(rng, [12, 30]))))
    for sc in out:
        sc['prune'] = bool(rng.rand() < .3)
        sc['parts'] = {'imp'} | ({'twin'} if sc['prune'] else set())
    return out


def g_C15(rng, m):
    out = []
    for i in range(150 * m):
        kind = ['clf', 'reg'][i % 2]
        out.append(hyper_stub(rng, kind) if i % 5 < 2 else hyper_builtin(rng, kind, nmax=12))
    for i, t in enumerate((129, 257, 1000, 32769, 65537, 70001)[:3 + m]):
        sc = hyper_stub(rng, ['clf', 'reg'][(i + rng.randint(2)) % 2])
        n = len(sc['w'])
        cut = sorted(rng.permutation(t - 1)[:n - 1] + 1)
        sc['w'] = [int(b - a) for a, b in zip([0] + list(cut), list(cut) + [t])]
        out.append(sc)
    for i in range(18 * m):
        # large batches of queries, rows far from the origin
        sc = hyper_stub(rng, ['clf', 'reg'][i % 2], exact=False, nf=int(rng.randint(1, 5)))
        if not sc.get('near'):
            offset(rng, sc)
        if i % 2 or rng.rand() < .5:
            sc['bigbatch'] = int(pick(rng, [101, 257, 1001, 1025, 2049, 4097]))
        out.append(sc)
    for i in range(2 * m):
        out.append(hyper_builtin(rng, ['clf', 'reg'][i % 2], nmax=60))
    for i in range(2 * m):
        sc = hyper_builtin(rng, ['clf', 'reg'][i % 2], nmax=6)
        sc['optimizer'] = None
        sc['timeout'] = 300
        out.append(sc)
    for sc in out:
        sc['parts'] = {'query'}
        sc['scored'] = False
        sc['prune'] = bool(rng.rand() < .15)
    return out


def g_C16(rng, m):
    out = []
    for i in range(420 * m):
        kind = ['clf', 'reg'][i % 2]
        sc = hyper_stub(rng, kind) if i % 8 else hyper_stub(rng, kind, ndirs=int(rng.randint(10, 35)), nmax=8, exact=False, nf=int(rng.randint(3, 5)))
        sc['reports'] = True
        sc['order'] = int(rng.randint(2**31 - 1)) if rng.rand() < .5 else None
        if i % 21 == 3:      # long searches that learn late
            sc['optimizer'][1]['warm'] = int(pick(rng, [100, 300, 1000, 1030, 3000, 10000]))
        if rng.rand() < .1:
            default_prior(rng, sc)
        elif rng.rand() < .1:
            gen.exotic_prior(rng, sc)
        out.append(sc)
    return out


def g_C17(rng, m):
    out = mixed_all(rng, m, 280, hyper_share=.4, builtin_share=.15)
    for t in (1000, 1001, 3000, 20000, 65537, 100100) * m:
        sc = weighted_total(rng, pick(rng, ['clf', 'reg']), t)
        if rng.rand() < .5:
            default_prior(rng, sc)
        out.append(sc)
    for i in range(m):
        out.append(chain(rng, ['clf', 'reg'][i % 2]))
        out.append(many_classes(rng, int(pick(rng, [12, 40, 130]))))
    for sc in out:
        if not sc.get('hyper'):
            names(rng, sc)
        sc['prune'] = bool(rng.rand() < .3)
        sc['parts'] = {'print'} | ({'twin'} if sc['prune'] and rng.rand() < .5 else set())
        sc['scored'] = False
    return out


SCORES = ['missed', 'notbest', 'inadmissible', 'trivial']
STRUCT = ['n', 'level', 'empty', 'oneside', 'trivial', 'depth', 'nleaves', 'partition']
TREE = {
    'C01': dict(gen=g_scores('clf'), clauses=SCORES, parts=(), mc=['clf1', 'clf2', 'clf3']),
    'C02': dict(gen=g_scores('reg'), clauses=SCORES, parts=(), mc=['reg1', 'reg2']),
    'C03': dict(gen=g_C03, clauses=['inadmissible', 'midpoint', 'oneside', 'missed', 'notbest'], parts=(), mc=['clf1']),
    'C04': dict(gen=g_C04, clauses=STRUCT, parts=(), mc=['clf2', 'reg2', 'live']),
    'C05': dict(gen=g_C05, clauses=['post', 'prior', 'qpred', 'qproba', 'qraw'], parts=('query',), mc=['clf3', 'reg1']),
    'C06': dict(gen=g_C06, clauses=['n', 'qleaf', 'qpred', 'qproba', 'qraw', 'qpath', 'qcount', 'partition'], parts=('query',), mc=['clf2']),
    'C07': dict(gen=g_C07, clauses=['qpath', 'qcount', 'name'], parts=('query',), mc=['clf2']),
    'C08': dict(gen=g_C08, clauses=['variant'], parts=(), mc=['clf2']),
    'C09': dict(gen=g_C09, elsewhere=True, clauses=['variant'], parts=(), mc=['clf2']),
    'C12': dict(gen=g_C12, clauses=['prior', 'post', 'missed', 'notbest', 'qraw', 'qpred', 'qproba'], parts=('query',), mc=['clf1', 'reg1']),
    'C13': dict(gen=g_C13, clauses=['pruned', 'depth', 'nleaves', 'qpath', 'qpred', 'qproba', 'qraw', 'qleaf', 'print'], parts=(), mc=['clf1', 'clf3', 'reg1']),
    'C14': dict(gen=g_C14, clauses=['importance'], parts=(), mc=['clf2']),
    'C15': dict(gen=g_C15, clauses=['n', 'level', 'empty', 'oneside', 'unit', 'origin', 'post', 'depth', 'nleaves', 'partition', 'qpred', 'qproba', 'qraw', 'qleaf', 'qcount', 'trivial'], parts=(), mc=['clf2']),
    'C16': dict(gen=g_C16, clauses=['missed', 'notbest', 'inadmissible', 'direction', 'report', 'trivial'], parts=(), mc=['clf2']),
    'C17': dict(gen=g_C17, clauses=['print'], parts=(), mc=['clf2']),
}
