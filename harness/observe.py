"""Runs the code under test on a scenario and records what it did, in the terms of TreeTrace.tla.

A scenario is a dict (see gen.py).  Only public or fitted attributes are read."""
import copy
import pickle
import signal
import traceback
import warnings
import math
import re
from fractions import Fraction

from common import *  # noqa
import pandas as pd
from scipy.sparse import csr_matrix, csc_matrix

warnings.filterwarnings('ignore')


def models():
    from bayesian_decision_tree.classification import PerpendicularClassificationTree, HyperplaneClassificationTree
    from bayesian_decision_tree.regression import PerpendicularRegressionTree, HyperplaneRegressionTree
    return {('clf', False): PerpendicularClassificationTree, ('clf', True): HyperplaneClassificationTree,
            ('reg', False): PerpendicularRegressionTree, ('reg', True): HyperplaneRegressionTree}


# ------------------------------------------------------------------ data in and out of real numbers

def expand(sc):
    """Training rows with multiplicities, in the scenario's order."""
    X = np.array(sc['X'], dtype=np.float64).reshape(len(sc['X']), sc['nfeat'])
    idx = np.repeat(np.arange(len(sc['w'])), sc['w'])
    if sc.get('order') is not None:
        idx = idx[np.random.RandomState(sc['order']).permutation(len(idx))]
    y = np.array(sc['y'], dtype=np.float64)
    if sc['kind'] == 'reg':
        y = y * sc['ys'] + sc.get('yoff', 0)
    return X[idx], y[idx]


def real_prior(sc):
    if sc.get('default'):
        return None
    p, b = sc['prior'], sc['b']
    if sc['kind'] == 'clf':
        v = [a / b for a in p['a']]
    else:
        ys = Fraction(sc['ys'])
        v = [float(Fraction(p['t'], p['k']) * ys + Fraction(sc.get('yoff', 0))), p['k'] / b, p['A'] / (2 * sc['ab']),
             float((p['q'] - Fraction(p['t'] ** 2, p['k'])) / (2 * b) * ys * ys)]
    c = sc.get('priorcont', 'list')
    if c in ('ints', 'intarray') and all(x == int(x) for x in v):
        return [int(x) for x in v] if c == 'ints' else np.array([int(x) for x in v])
    return tuple(v) if c == 'tuple' else np.array(v) if c in ('array', 'intarray') else v


DT = {'i8': np.int8, 'u8': np.uint8, 'i16': np.int16, 'u16': np.uint16, 'i32': np.int32, 'u32': np.uint32, 'i64': np.int64,
      'u64': np.uint64, 'f32': np.float32, 'f64': np.float64, 'f16': np.float16, 'obj': object, 'bool': bool,
      # other byte orders and precisions
      'bf64': '>f8', 'bf32': '>f4', 'bi16': '>i2', 'bi32': '>i4', 'bu16': '>u2', 'ld': np.longdouble}


def exact_as(A, dt):
    with np.errstate(all='ignore'):
        B = np.asarray(A, dtype=np.float64)
        if dt == 'bool':
            return bool(np.all((B == 0) | (B == 1)))
        if dt == 'obj':
            return True
        t = DT[dt]
        if np.dtype(t).kind in 'iu':
            ii = np.iinfo(t)
            if not np.all((B == np.floor(B)) & (B >= ii.min) & (B <= min(ii.max, 2**53))):
                return False
        return bool(np.all(np.asarray(B.astype(t), dtype=np.float64) == B))


def contain(X, cont, dt='f64'):
    """The matrix X in a given container and number type."""
    A = np.asarray(X, dtype=np.float64)
    T = A.astype(DT[dt])
    if cont == 'list':
        return [list(r) for r in T.tolist()]
    if cont == 'array':
        return np.ascontiguousarray(T)
    if cont == 'fortran':
        return np.asfortranarray(T)
    if cont == 'strided':
        big = np.zeros((2 * T.shape[0], 2 * T.shape[1]), dtype=T.dtype)
        big[::2, ::2] = T
        return big[::2, ::2]
    if cont == 'reversed':
        return np.ascontiguousarray(T[::-1, ::-1])[::-1, ::-1]
    if cont == 'readonly':
        T = np.ascontiguousarray(T)
        T.setflags(write=False)
        return T
    if cont == 'df':
        return pd.DataFrame(T, columns=['col%d' % i for i in range(T.shape[1])])
    if cont == 'dfidx':
        return pd.DataFrame(T, columns=['col%d' % i for i in range(T.shape[1])],
                            index=['r%d' % (7 * i % 11) for i in range(T.shape[0])])
    if cont == 'dfrev':     # labels that are not in order
        return pd.DataFrame(T, columns=['col%d' % (T.shape[1] - 1 - i) for i in range(T.shape[1])])
    if cont == 'dfint':     # integer labels that are not positions
        return pd.DataFrame(T, columns=[(5 * i + 2) % 7 + 7 * (i // 7) for i in range(T.shape[1])])
    if cont == 'dfmixed':   # a number type of its own for every column
        D = {}
        for j in range(T.shape[1]):
            fit = [d for d in ('i8', 'f32', 'u16', 'i64', 'f64') if exact_as(A[:, j], d)]
            D['c%d' % j] = A[:, j].astype(DT[fit[j % len(fit)]])
        return pd.DataFrame(D)
    if cont == 'csr':
        return csr_matrix(T)
    if cont == 'csc':
        return csc_matrix(T)
    if cont == 'csr0':      # explicitly stored zeros, unsorted indices
        m = csr_matrix(np.ones_like(T))
        m.data = T.reshape(-1).copy()
        for i in range(T.shape[0]):
            a, b = m.indptr[i], m.indptr[i + 1]
            m.indices[a:b] = m.indices[a:b][::-1].copy()
            m.data[a:b] = m.data[a:b][::-1].copy()
        m.has_sorted_indices = False
        return m
    if cont == 'csc0':
        m = csc_matrix(np.ones_like(T))
        m.data = np.ascontiguousarray(T.T).reshape(-1).copy()
        return m
    if cont == 'cscu':      # explicitly stored zeros, unsorted indices
        m = csc_matrix(np.ones_like(T))
        m.data = np.ascontiguousarray(T.T).reshape(-1).copy()
        for i in range(T.shape[1]):
            a, b = m.indptr[i], m.indptr[i + 1]
            o = np.argsort((np.arange(b - a) * 7 + 3) % max(1, b - a), kind='stable')[::-1]
            m.indices[a:b] = m.indices[a:b][o].copy()
            m.data[a:b] = m.data[a:b][o].copy()
        m.has_sorted_indices = False
        return m
    if cont == 'csrn':      # zeros left out, unsorted indices
        m = csr_matrix(T)
        for i in range(T.shape[0]):
            a, b = m.indptr[i], m.indptr[i + 1]
            m.indices[a:b] = m.indices[a:b][::-1].copy()
            m.data[a:b] = m.data[a:b][::-1].copy()
        m.has_sorted_indices = False
        return m
    raise ValueError(cont)


def contain_y(y, cont, dt='f64'):
    A = np.asarray(y, dtype=np.float64).astype(DT[dt])
    if cont == 'list':
        return A.tolist()
    if cont == 'tuple':
        return tuple(A.tolist())
    if cont == 'array':
        return A
    if cont == 'column':
        return A.reshape(-1, 1)
    if cont == 'row':
        return A.reshape(1, -1)
    if cont == 'strided':
        big = np.zeros(2 * len(A), dtype=A.dtype)
        big[::2] = A
        return big[::2]
    if cont == 'series':
        return pd.Series(A)
    if cont == 'seriesrev':
        return pd.Series(A, index=list(range(len(A)))[::-1])
    if cont == 'seriesstr':
        return pd.Series(A, index=['k%d' % (i * 5 % 7) for i in range(len(A))])
    if cont == 'readonly':
        A = A.copy()
        A.setflags(write=False)
        return A
    raise ValueError(cont)


def make_model(sc, **over):
    kind, hyper = sc['kind'], sc.get('hyper', False)
    kw = dict(partition_prior=sc['pn'] / sc['pd'], prior=real_prior(sc), prune=sc.get('prune', False))
    if sc.get('delta_given', True):
        kw['delta'] = sc['dn'] / sc['dd']
    if sc.get('prec') is not None:
        kw['split_precision'] = sc['prec']
    if hyper and sc.get('optimizer') is not None:
        import stubs
        kw['optimizer'] = stubs.build(sc['optimizer'])
    kw.update(over)
    style = (len(sc['X']) + sc['pn']) % 3          # as users write it: arguments left out, arguments by position
    if style and kw['partition_prior'] == .99:
        kw.pop('partition_prior')
    if style and not kw['prune']:
        kw.pop('prune')
    args = [kw.pop(k) for k in ('partition_prior', 'prior') if k in kw] if style == 2 and 'partition_prior' in kw else []
    return models()[(kind, hyper)](*args, **kw)


# ------------------------------------------------------------------ coordinates

class Coords:
    """Maps real feature values to the integer coordinates used by the specification."""

    def __init__(self, sc, extra):
        self.sc = sc
        self.mode = sc['mode']
        if self.mode == 'rank':
            allv = [np.asarray(sc['X'], dtype=np.float64).reshape(-1, sc['nfeat'])] + [np.asarray(e, dtype=np.float64).reshape(-1, sc['nfeat']) for e in extra]
            allv = np.vstack(allv)
            self.vals, self.fracs = [], []
            for f in range(sc['nfeat']):
                v = np.unique(allv[:, f] + 0.0)
                self.vals.append(v)
                self.fracs.append([Fraction(float(x)) for x in v])
            den = 1
            for fs in self.fracs:
                for q in fs:
                    den = max(den, q.denominator)
            self.den = den

    def row(self, x):
        if self.mode == 'rank':
            return [int(np.searchsorted(self.vals[f], x[f])) for f in range(self.sc['nfeat'])]
        out = []
        for f in range(self.sc['nfeat']):
            if abs(x[f]) >= 1e300:          # beyond every threshold
                out.append(2**27 if x[f] > 0 else -2**27)
                continue
            q = (Fraction(float(x[f])) - Fraction(self.sc['off'][f])) / Fraction(self.sc['scale'][f])
            if q.denominator != 1 or abs(q) >= 2**28:
                raise HarnessBug((x, f, q))
            out.append(int(q))
        return out

    def threshold(self, f, thr):
        """(doubled coordinate, exact?, BigNat of the threshold in rank mode)"""
        q = fr(thr, 'split value')
        if self.mode == 'rank':
            v = self.fracs[f]
            lo = sum(1 for a in v if a < q)
            t2 = 2 * lo if lo < len(v) and v[lo] == q else 2 * lo - 1
            nq = (q - v[0]) * self.den
            nq = max(0, round(nq))
            return t2, True, limbs(nq)
        q = 2 * (q - Fraction(self.sc['off'][f])) / Fraction(self.sc['scale'][f])
        if abs(q) > 2**29:
            raise Malformed('split value %r out of range' % (thr,))
        return int(math.floor(q)), q.denominator == 1, []

    def vals_json(self):
        if self.mode != 'rank':
            return [], []
        V, U = [], []
        for f in range(self.sc['nfeat']):
            fs = self.fracs[f]
            V.append([limbs((q - fs[0]) * self.den) for q in fs])
            U.append([limbs(math.ceil(max(Fraction(float(np.spacing(abs(x)))), Fraction(1, self.den)) * self.den)) for x in self.vals[f]])
        return V, U


# ------------------------------------------------------------------ recording a tree

def unit(sc, q):
    """A target in the integer units of the specification."""
    return (q - Fraction(sc.get('yoff', 0))) / Fraction(sc['ys'])


def post_fx(sc, post, what):
    if post is None:
        raise Malformed('%s is None' % what)
    try:
        vals = list(np.asarray(post, dtype=np.float64).reshape(-1))
    except Exception:
        raise Malformed('%s is %r' % (what, post))
    if sc['kind'] == 'reg':
        if len(vals) != 4:
            raise Malformed('%s has %d entries' % (what, len(vals)))
        ys = Fraction(sc['ys'])
        q = [fr(v, what) for v in vals]
        return [fxq(unit(sc, q[0])), fxq(q[1]), fxq(q[2]), fxq(q[3] / ys / ys)]
    return [fx(v, what) for v in vals]


def record_nodes(sc, model, co, dirs=None, ctx=None):
    """Depth-first list of the nodes of a fitted model."""
    out = []

    def rec(node, path):
        if len(out) > 5000 or len(path) > 200:
            raise Malformed('tree does not end')
        leaf = bool(node.is_leaf())
        d = dict(p=list(path), leaf=leaf, f=0, t2=0, exact=True, thr='', thrv=[], name='', n=smallint(node.n_data_, 'n_data_'),
                 lev=smallint(getattr(node, 'level', len(path)), 'level'), post=post_fx(sc, node.posterior_, 'posterior_'), prior=[], n4=[], o2=[],
                 origin=[], normal=[], norm2=[], pid='')
        if path and sc.get('want_prior') and getattr(node, 'prior', None) is not None:
            d['prior'] = post_fx(sc, node.prior, 'prior')
        pr = node.posterior_[0] if sc['kind'] == 'reg' else int(np.argmax(node.posterior_))
        d['pid'] = repr(float(pr)) if sc['kind'] == 'reg' else repr(pr)
        if not leaf:
            if sc.get('hyper'):
                nv = np.asarray(node.best_hyperplane_normal_, dtype=np.float64)
                ov = np.asarray(node.best_hyperplane_origin_, dtype=np.float64)
                if nv.shape != (sc['nfeat'],) or ov.shape != (sc['nfeat'],):
                    raise Malformed('hyperplane %r %r' % (nv, ov))
                if not (np.all(np.isfinite(nv)) and np.all(np.isfinite(ov))):
                    raise Malformed('hyperplane %r %r' % (nv, ov))
                d['n4'] = [smallint(round(float(v) * 1e4)) for v in nv]
                d['normal'] = [fx(v) for v in nv]
                d['norm2'] = [fxq(sum(Fraction(float(v)) ** 2 for v in nv))]
                d['origin'] = [fx(v) for v in ov]
                d['o2'], d['exact'] = [], True
                for j in range(sc['nfeat']):
                    q = 2 * (Fraction(float(ov[j])) - 0) / Fraction(sc['scale'][j])
                    if q.denominator != 1:
                        d['exact'] = False
                    if abs(q) > 2**26:
                        raise Malformed('hyperplane origin %r' % (ov,))
                    d['o2'].append(int(math.floor(q)))
                d['f'] = dirs(nv)
                d['thr'] = ''
            else:
                f = smallint(node.split_dimension_, 'split_dimension_')
                if not 0 <= f < sc['nfeat']:
                    raise Malformed('split_dimension_ is %r' % f)
                d['f'] = f + 1
                d['t2'], d['exact'], d['thrv'] = co.threshold(f, node.split_value_)
                d['thr'] = repr(float(node.split_value_))
                d['name'] = str(node.split_feature_name_ if hasattr(node, 'split_feature_name_') else default_name(sc, f))
        out.append(d)
        if not leaf:
            if node.child1_ is None or node.child2_ is None:
                raise Malformed('decision node without children')
            rec(node.child1_, path + (1,))
            rec(node.child2_, path + (2,))
    rec(model, ())
    return out


def default_name(sc, f):
    return sc['expnames'][f] if sc.get('expnames') else 'x%d' % f


LINE = re.compile(r'^(?P<pre>(?: [\u2502]|   )*)(?: [\u251c\u2514]) (?P<side><|\u2265|back |front)(?P<pthr>[^:]*): (?P<body>.*)$', re.S)


def parse_print(sc, text):
    """The lines of a printed tree; None if they cannot be read."""
    raw, lines = text.split('\n'), []
    for i, l in enumerate(raw):
        if i == 0 or LINE.match(l):
            lines.append(l)
        else:
            lines[-1] += ' ' + l.strip()       # numpy wraps long arrays
    out = []
    for i, l in enumerate(lines):
        d = dict(d=0, side='', pthr='', leaf=False, name='', thr='', pred=fxq(Fraction(0)), n=0, proba=[], origin=[], normal=[])
        body = l
        if i:
            m = LINE.match(l)
            d['d'] = len(re.findall(r' \u2502|   ', m.group('pre'))) + 1
            d['side'] = 'L' if m.group('side') in ('<', 'back ') else 'R'
            d['pthr'] = repr(float(m.group('pthr'))) if m.group('pthr') else ''
            body = m.group('body')
        leaf = re.match(r'^y=(\S+), n=(\d+)(?:, p\(y\)=\[([^\]]*)\])?$', body)
        if leaf:
            d['leaf'] = True
            q = Fraction(float(leaf.group(1)))
            d['pred'] = fxq(unit(sc, q) if sc['kind'] == 'reg' else q)
            d['n'] = int(leaf.group(2))
            d['proba'] = [fxq(Fraction(float(t))) for t in leaf.group(3).split()] if leaf.group(3) is not None else []
        elif sc.get('hyper'):
            m = re.match(r'^HP\(origin=\[([^\]]*)\], normal=\[([^\]]*)\]\)$', body)
            d['origin'] = [fxq(Fraction(float(t))) for t in m.group(1).split()]
            d['normal'] = [fxq(Fraction(float(t))) for t in m.group(2).split()]
        else:
            name, thr = body.rsplit('=', 1)
            d['name'], d['thr'] = name, repr(float(thr))
        out.append(d)
    return out


FAR = [np.inf, -np.inf, 1e300, -1e300, 1.7e308]


def queries_of(sc, model, rng):
    """Query rows: training rows, other rows, and rows with values on and next to thresholds."""
    X = np.array(sc['X'], dtype=np.float64).reshape(len(sc['X']), sc['nfeat'])
    rows = [tuple(r) for r in X]
    if len(rows) > 14:
        rows = [rows[i] for i in rng.permutation(len(rows))[:14]]
    extra = []
    thr = []

    def walk(node, depth):
        if depth < 60 and not node.is_leaf():
            if not sc.get('hyper'):
                thr.append((int(node.split_dimension_), float(node.split_value_)))
            walk(node.child1_, depth + 1)
            walk(node.child2_, depth + 1)
    walk(model, 0)
    for f, t in thr[:8]:
        if not (0 <= f < sc['nfeat']) or not np.isfinite(t):
            continue
        r = list(X[rng.randint(len(X))])
        r[f] = t
        extra.append(tuple(r))
        if sc['mode'] == 'rank':
            near = [np.nextafter(t, -np.inf), np.nextafter(t, np.inf)]
            if abs(t) < 1e38:                         # the closest numbers of single precision
                s = np.float32(t)
                near += [float(s)] + [float(np.nextafter(s, np.float32(d))) for d in (-np.inf, np.inf)]
            for s in near:
                if np.isfinite(s):
                    r = list(X[rng.randint(len(X))])
                    r[f] = s
                    extra.append(tuple(r))
        else:
            for s in (-1, 1):
                r = list(X[rng.randint(len(X))])
                r[f] = t + s * sc['scale'][f]
                extra.append(tuple(r))
    for _ in range(5):
        r = [X[rng.randint(len(X)), f] for f in range(sc['nfeat'])]
        if sc['mode'] == 'mid' and rng.rand() < .5:
            f = rng.randint(sc['nfeat'])
            r[f] = sc['off'][f] + sc['scale'][f] * rng.randint(-6, 40)
        extra.append(tuple(r))
    if sc['mode'] == 'mid':
        # values far outside of the training data, infinite ones included
        for _ in range(0 if sc.get('hyper') else 3):
            r = list(X[rng.randint(len(X))])
            for f in rng.permutation(sc['nfeat'])[:rng.randint(1, 3)]:
                r[f] = FAR[rng.randint(len(FAR))]
            extra.append(tuple(r))
        ok = []
        for r in extra:
            if all(abs(r[f]) >= 1e300 or ((Fraction(float(r[f])) - Fraction(sc['off'][f])) / Fraction(sc['scale'][f])).denominator == 1 for f in range(sc['nfeat'])):
                ok.append(r)
        extra = ok
    return rows + extra


def as_rows(res, n, what):
    """A query result as a list with one entry per row."""
    try:
        L = list(res)
    except TypeError:
        raise Malformed('%s returned %r' % (what, res))
    return L


def call_container(X, nfeat, cont, dt):
    X = np.asarray(X, dtype=np.float64).reshape(-1, nfeat)
    if not exact_as(X, dt):
        dt = 'f64'
    if cont == 'vector' and len(X) == 1:
        return X[0].astype(DT[dt])
    if cont == 'vector':
        cont = 'array'
    if cont == 'list' and len(X) == 0:
        cont = 'array'
    return contain(X, cont, dt)


def real_y(sc, v):
    return v * sc['ys'] + sc.get('yoff', 0) if sc['kind'] == 'reg' else v


def row_key(x, y):
    return tuple(float(v) + 0.0 for v in x) + (float(y) + 0.0,)


def prefit(sc, m):
    """An unrelated fit of the same object, with names and (axis-aligned trees) another number of features."""
    rs = np.random.RandomState(sc['seed'] % 2**31)
    K = sc['nclass'] if sc['kind'] == 'clf' else 5
    n = max(8, K + 2)
    nf = sc['nfeat'] + (0 if sc.get('hyper') else int(rs.randint(0, 3)))
    X = rs.randint(0, 5, (n, nf)).astype(float)
    y = np.arange(n) * K // n
    X[:, -1] = y
    kw = dict(feature_names=['old%d' % i for i in range(nf)]) if rs.rand() < .7 and not sc.get('hyper') else {}
    m.fit(X, y * (1. if sc['kind'] == 'clf' else 20.), **kw)
    m.predict(X)
    m.feature_importance()
    return m


def fit_recorded(sc, **over):
    how = sc.get('history')
    m = make_model(sc, **over)
    if how == 'set_params':
        m, p = type(m)(), m.get_params()
        m.set_params(**p)
    if how in ('prefit', 'prefit pickle', 'prefit clone'):
        prefit(sc, m)
    if how == 'prefit clone':
        from sklearn.base import clone
        m = clone(m)
    if hasattr(getattr(m, 'optimizer', None), 'log'):
        m.optimizer.log.clear()
    X, y = expand(sc)
    Xc = contain(X, sc.get('cont', 'array'), sc.get('dt', 'f64'))
    yc = contain_y(y, sc.get('ycont', 'array'), sc.get('ydt', 'f64'))
    m.fit(Xc, yc, **names_kw(sc))
    if how in ('pickle', 'prefit pickle'):
        m = pickle.loads(pickle.dumps(m))
    elif how == 'deepcopy':
        m = copy.deepcopy(m)
    elif how == 'used':
        str(m)
        m.predict(np.asarray(sc['X'], dtype=np.float64).reshape(-1, sc['nfeat'])[:3])
        m.get_depth()
        m.get_params()
    return m


def names_kw(sc):
    if sc.get('fnames') is None:
        return {}
    v, how = sc['fnames'], sc.get('fkind', 'list')
    return dict(feature_names=tuple(v) if how == 'tuple' else np.array(v) if how == 'array' else pd.Index(v) if how == 'index' else list(v))


def observe(sc):
    """The record of one scenario, for TreeTrace.tla."""
    rng = np.random.RandomState(sc['seed'])
    hyper = sc.get('hyper', False)
    parts = sc['parts']
    nf = sc['nfeat']

    if 'twin' in parts:
        base = fit_recorded(sc, prune=False)
        model = fit_recorded(sc, prune=True)
    else:
        base = model = fit_recorded(sc)

    qrows = queries_of(sc, model, rng) if ('query' in parts or 'variants' in parts) else []
    co = Coords(sc, [np.array(qrows).reshape(-1, nf)] if qrows else [])

    dirlist = []
    stub = None
    if hyper:
        if sc['dirs'] is not None:
            dirlist = [list(d) for d in sc['dirs']]
            unit = [np.array(d, dtype=float) / np.linalg.norm(d) for d in dirlist]
            # positions of the directions the search was given, as unit vectors

            def dirs(nv):
                l = np.linalg.norm(nv)
                for j, u in enumerate(unit):
                    if l > 0 and np.max(np.abs(u - nv / l)) < 1e-9:
                        return j + 1
                return 0
        else:
            def dirs(nv):
                v = [smallint(round(float(c) * sc['dirscale'])) for c in nv]
                if v not in dirlist:
                    dirlist.append(v)
                return dirlist.index(v) + 1
    else:
        dirs = None

    rec_base = record_nodes(sc, base, co, dirs)
    nodes = rec_base
    twin = record_nodes(sc, model, co, (lambda nv: match_dir(sc, dirlist, nv))) if 'twin' in parts else []

    reports, canon = [], []
    if hyper and sc.get('reports'):
        first = {}
        for r, (x, yv) in enumerate(zip(sc['X'], sc['y'])):
            first.setdefault(row_key(x, real_y(sc, yv)), r)
        canon = [first[row_key(x, real_y(sc, yv))] + 1 for x, yv in zip(sc['X'], sc['y'])]
        for e in base.optimizer.log:
            # the rows of the node, in terms of the rows of the scenario (equal ones counted together)
            cnt = [0] * len(canon)
            for x, yv in zip(e['X'], e['y']):
                r = first.get(row_key(x, yv))
                if r is None:
                    raise Malformed('search is given the row %r, %r' % (x, yv))
                cnt[r] += 1
            # densities are per unit of the target
            jac = Fraction(len(e['y']) * math.log(sc['ys'])) if sc['kind'] == 'reg' else 0
            reports.append(dict(cnt=cnt, vals=[smallint(round((fr(v, 'reported value') - jac) * 10**5), 'reported value') for v in e['vals']]))

    # queries
    queries, batches, ans = [], [], []
    if 'query' in parts:
        queries, batches = run_queries(sc, model, qrows, co, rng)
    if 'variants' in parts:
        ans = answers(sc, model, qrows, 'array', 'f64')

    variants = []
    if 'variants' in parts:
        for v in sc['variants']:
            variants.append(run_variant(sc, v, co, dirlist, qrows))

    depth = smallint(model.get_depth(), 'get_depth()')
    nleaves = smallint(model.get_n_leaves(), 'get_n_leaves()')

    lines, hasprint = [], False
    if 'print' in parts:
        hasprint = True
        t1, t2 = str(model), repr(model)
        try:
            if t1 != t2:
                raise ValueError('repr differs')
            lines = parse_print(sc, t1)
        except Exception as e:
            raise Malformed('printed tree cannot be read (%s):\n%s' % (e, t1))

    imp = []
    if 'imp' in parts and not model.is_leaf():
        imp = [fx(v, 'feature_importance') for v in np.asarray(model.feature_importance()).reshape(-1)]

    names = sc['expnames'] if sc.get('expnames') else []
    vals, ulps = co.vals_json()
    if hyper:
        Xr = [[int((Fraction(float(v)) / Fraction(sc['scale'][j]))) for j, v in enumerate(r)] for r in sc['X']]
        nd = len(dirlist)
        if nd == 0:
            dirlist.append([1] + [0] * (nf - 1))
            nd = 1
        prec2 = [sc['hprec2']] * nd if sc['dirs'] is None or not isinstance(sc['hprec2'], list) else sc['hprec2']
        tol = [sc['amb']] * nd
    else:
        Xr = [co.row(r) for r in np.array(sc['X'], dtype=np.float64).reshape(-1, nf)]
        prec2 = sc['prec2']
        tol = [0] * nf
    inst = dict(kind=sc['kind'], Xr=Xr, dirs=dirlist, w=[int(v) for v in sc['w']],
                y=[int(v) + 1 for v in sc['y']] if sc['kind'] == 'clf' else [int(v) for v in sc['y']],
                prior=sc['prior'], default=bool(sc.get('default')), nclass=sc.get('nclass', 0), b=sc['b'], ab=sc['ab'],
                ys2=int(1 / (Fraction(sc['ys']) ** 2)) if sc.get('default') and sc['kind'] == 'reg' else 1,
                dn=0 if hyper else sc['dn'], dd=1 if hyper else sc['dd'], pn=sc['pn'], pd=sc['pd'], prec2=prec2, nd=nf,
                level0=0, vals=vals, ulps=ulps, precn=limbs(math.floor(Fraction(sc['prec'] or 0) * co.den)) if co.mode == 'rank' else [], tol=tol)
    S = dict(id=sc['id'], mode=sc['mode'], scored=sc.get('scored', True), bands='variants' in parts, amb=sc.get('amb', 0),
             inst=inst, nodes=nodes, hastwin='twin' in parts, twin=twin, depth=depth, nleaves=nleaves, queries=queries, exactplane=sc['dirs'] is None if hyper else True,
             qx=[qcoord(sc, co, r) for r in qrows] if 'variants' in parts else [], batches=batches, hasprint=hasprint, lines=lines, hasimp=bool(imp), imp=imp, hasreports=bool(hyper and sc.get('reports')), reports=reports, canon=canon, variants=variants, ans=ans, names=names)
    check_json(S)
    return S


def match_dir(sc, dirlist, nv):
    if sc['dirs'] is not None:
        l = np.linalg.norm(nv)
        for j, d in enumerate(dirlist):
            u = np.array(d, dtype=float) / np.linalg.norm(d)
            if l > 0 and np.max(np.abs(u - nv / l)) < 1e-9:
                return j + 1
        return 0
    v = [smallint(round(float(c) * sc['dirscale'])) for c in nv]
    for j, d in enumerate(dirlist):
        if d == v:
            return j + 1
    return 0


def check_json(S):
    """TLC integers are 32-bit."""
    def walk(o):
        if isinstance(o, bool) or isinstance(o, str):
            return
        if isinstance(o, int):
            if abs(o) >= 2**31:
                raise Malformed('number out of range: %d' % o)
        elif isinstance(o, dict):
            for v in o.values():
                walk(v)
        elif isinstance(o, (list, tuple)):
            for v in o:
                walk(v)
        else:
            raise TypeError('cannot encode %r' % (o,))
    walk(S)


def pred_fx(sc, v, what):
    q = fr(v, what)
    return fxq(unit(sc, q) if sc['kind'] == 'reg' else q)


def qcoord(sc, co, r):
    if not sc.get('hyper'):
        return co.row(r)
    return [int(Fraction(float(v)) / Fraction(sc['scale'][j])) for j, v in enumerate(r)]


def answers(sc, model, rows, cont, dt):
    exact = [exact_as(r, dt) for r in rows]
    if any(exact) and not all(exact):                 # a call for the rows that the number type represents
        out = [None] * len(rows)
        for e in (True, False):
            idx = [i for i in range(len(rows)) if exact[i] == e]
            for i, a in zip(idx, answers(sc, model, [rows[i] for i in idx], cont, dt if e else 'f64')):
                out[i] = a
        return out
    Q = call_container(rows, sc['nfeat'], cont, dt)
    out = [[pred_fx(sc, v, 'predict()')] for v in as_rows(model.predict(Q), len(rows), 'predict()')]
    nf = sc['nfeat']
    if 1 < nf < len(rows):      # as many rows as features
        for i, v in enumerate(as_rows(model.predict(call_container(rows[:nf], nf, cont, dt)), nf, 'predict()')):
            if [pred_fx(sc, v, 'predict()')] != out[i]:
                raise Malformed('predict() answers %r for a row of a square batch that it answers %r' % (v, out[i]))
    if sc['kind'] == 'clf':
        P = as_rows(model.predict_proba(Q), len(rows), 'predict_proba()')
        if len(P) != len(out):
            raise Malformed('predict() answers %d rows, predict_proba() %d' % (len(out), len(P)))
        for o, r in zip(out, P):
            o += [fx(v, 'predict_proba()') for v in r]
    return out


def run_queries(sc, model, qrows, co, rng):
    nf, hyper = sc['nfeat'], sc.get('hyper', False)
    batches, queries = [], []
    plan = []
    n = len(qrows)
    plan.append((list(range(n)), 'array', 'f64'))
    plan.append((list(rng.permutation(n)), 'csr' if rng.rand() < .5 else 'csc', 'f64'))
    for _ in range(3):
        plan.append(([int(rng.randint(n))], ['array', 'vector', 'csr', 'csc', 'list', 'df'][rng.randint(6)], 'f64'))
    if rng.rand() < .5:
        plan.append(([], ['array', 'csr', 'csc', 'df'][rng.randint(4)], 'f64'))
    dup = [int(v) for v in rng.randint(0, n, size=rng.randint(2, 9))]
    plan.append((dup, ['list', 'df', 'fortran', 'strided', 'csr0', 'dfidx'][rng.randint(6)], ['f64', 'f32', 'i64', 'i8', 'i16'][rng.randint(5)]))
    for dt in ('f32', 'i16'):                         # the rows which a narrower number type represents
        idx = [i for i in range(n) if exact_as(qrows[i], dt)]
        if idx and rng.rand() < .5:
            plan.append((idx, ['array', 'df', 'csc', 'csr', 'fortran', 'strided'][rng.randint(6)], dt))
    if rng.rand() < .5:      # as many rows as features
        plan.append(([int(v) for v in rng.randint(0, n, size=nf)], ['fortran', 'df', 'csc', 'array', 'strided'][rng.randint(5)], 'f64'))
    if sc.get('bigbatch'):
        m = sc['bigbatch']
        style = rng.randint(3)
        idx = rng.randint(0, n, size=m) if style == 0 else np.sort(rng.randint(0, n, size=m)) if style == 1 else np.r_[rng.randint(0, n, size=m - 3), rng.randint(0, n), rng.randint(0, n), rng.randint(0, n)]
        plan.append(([int(v) for v in idx], ['array', 'csr', 'csc', 'df', 'fortran'][rng.randint(5)], 'f64'))
    for idx, cont, dt in plan:
        rows = [qrows[i] for i in idx]
        Q = call_container(rows, nf, cont, dt)
        seen = set()
        got = dict(pred=as_rows(model.predict(Q), len(rows), 'predict()'))
        if sc['kind'] == 'clf':
            got['proba'] = as_rows(model.predict_proba(Q), len(rows), 'predict_proba()')
        if hasattr(model, '_get_raw_leaf_data'):
            got['raw'] = as_rows(model._get_raw_leaf_data(Q), len(rows), '_get_raw_leaf_data()')
        if not hyper:
            got['path'] = as_rows(model.prediction_paths(Q), len(rows), 'prediction_paths()')
        batches.append(dict(rows=len(rows), got=[len(v) for v in got.values()]))
        for i, r in enumerate(rows):
            if not all(len(v) == len(rows) for v in got.values()):
                break
            if len(rows) > 100:
                key = (idx[i],) + tuple(repr(got[c][i]) for c in sorted(got))
                if key in seen:
                    continue
                seen.add(key)
            q = dict(x=qcoord(sc, co, r),
                     pred=[pred_fx(sc, got['pred'][i], 'predict()')], proba=[], raw=[], path=[], haspath=False)
            if 'proba' in got:
                q['proba'] = [fx(v, 'predict_proba()') for v in np.asarray(got['proba'][i]).reshape(-1)]
            if 'raw' in got:
                raw = got['raw'][i]
                if len(raw) != 2:
                    raise Malformed('_get_raw_leaf_data() gave %r' % (raw,))
                q['raw'] = [post_fx(sc, raw[0], 'raw prior'), post_fx(sc, raw[1], 'raw posterior')]
            if 'path' in got:
                q['haspath'] = True
                for e in got['path'][i]:
                    if len(e) != 4:
                        raise Malformed('path entry %r' % (e,))
                    q['path'].append(dict(f=smallint(e[0], 'path feature') + 1, name=str(e[1]), thr=repr(float(e[2])), ge=bool(e[3])))
            queries.append(q)
    return queries, batches


KEEP = ('p', 'leaf', 'f', 't2', 'n', 'post', 'name', 'o2')


def run_variant(sc, v, co, dirlist, qrows):
    s2 = dict(sc)
    s2.update(v['over'])
    X, y = expand(sc)
    if v.get('perm') is not None:
        o = np.random.RandomState(v['perm']).permutation(len(y))
        if v.get('by') is not None:
            key = y[o] if v['by'] < 0 else np.array(X)[o, v['by']]
            o = o[np.argsort(key, kind='stable')]
            if v.get('down'):
                o = o[::-1]
        X, y = X[o], y[o]
    if v.get('globalseed') is not None:
        np.random.seed(v['globalseed'])
        np.random.rand(v['globalseed'] % 17)
    before = repr(np.random.get_state()[1].tolist()) + repr(np.random.get_state()[2:])
    m = make_model(s2)
    kw = names_kw(sc)
    if v.get('refit'):
        # an unrelated fit of the same object first
        rs = np.random.RandomState(v['refit'])
        X0 = rs.randint(0, 5, size=(7, sc['nfeat'] + 1)).astype(float)
        y0 = np.arange(7) % (sc['nclass'] if sc['kind'] == 'clf' else 7)
        if sc['kind'] == 'reg' or sc['nclass'] <= 7:
            m.fit(X0, y0.astype(float))
            m.predict(X0)
    if v.get('verbose'):
        import io
        import contextlib
        kw['verbose'] = True
        with contextlib.redirect_stdout(io.StringIO()):
            m.fit(contain(X, s2.get('cont', 'array'), s2.get('dt', 'f64')), contain_y(y, s2.get('ycont', 'array'), s2.get('ydt', 'f64')), **kw)
    else:
        m.fit(contain(X, s2.get('cont', 'array'), s2.get('dt', 'f64')), contain_y(y, s2.get('ycont', 'array'), s2.get('ydt', 'f64')), **kw)
    untouched = before == repr(np.random.get_state()[1].tolist()) + repr(np.random.get_state()[2:])
    nodes = record_nodes(sc, m, co, lambda nv: match_dir(sc, dirlist, nv))
    return dict(what=v['what'], loose=bool(v.get('loose')), anynames=bool(v.get('anynames')), untouched=untouched,
                nodes=[{k: d[k] for k in KEEP} for d in nodes],
                ans=sum((answers(sc, m, rows, v.get('qcont', 'array'), v.get('qdt', 'f64'))
                         for rows in ([[q] for q in qrows] if v.get('alone') else [qrows])), []))


def run_one(sc):
    """Record of a scenario, or the reason why there is none."""
    def alarm(sig, frm):
        raise TimeoutError('no answer within %d s' % sc.get('timeout', 60))
    old = signal.signal(signal.SIGALRM, alarm)
    signal.alarm(sc.get('timeout', 60))
    try:
        return ('ok', sc['id'], observe(sc))
    except HarnessBug:
        raise
    except Exception as e:
        return ('fail', sc['id'], '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1500:]))
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
