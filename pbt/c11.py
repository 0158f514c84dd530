"""C11: structured and standardising operators against dense definitions."""
import numpy as np

from .core import prop, sub, Violation, Reject
from .gens import arr, boolean, integer, normal, pick, positive, real, vec
from . import aff
from .c09 import close

prop('C11',
     rule='Lengths, orders, knots (regular, irregular, unsorted), image shapes, interval families, scalings, index sets, '
          'standardisation settings and matrices are generated; values are compared with dense matrices written from '
          'the definitions (divided differences by Lagrange\'s formula, interval means, lattice edges, explicit '
          'centring and scaling, SVD), inverse pairs are applied one after the other; non-trivial when the dense matrix '
          'times the argument is non-zero.',
     assumptions=['without centring, scaling divides by the root mean square with n - (ddof - 1) degrees of freedom',
                  'the default interval family of multiscale excludes intervals that end at the last point (as its tests '
                  'fix); knots are distinct', 'relative tolerance 1e-8'])


def g_diff(draw):
    n = integer(draw, 2, 12)
    return dict(k=pick(draw, 'matrix', 'transform', 'trend', 'grid'), n=n, order=integer(draw, 1, min(4, n - 1)),
                knots=aff._knots(draw, n), x=arr(draw, (n, 2)), u=normal(draw, (n, 2)), int_knots=boolean(draw, 1, 4))


@sub('C11', 'differences', g_diff, quick=1500, thorough=40000, cost=.5)
def differences(case):
    """Difference / trend filtering matrices of any order."""
    from regreg.affine import fused_lasso as F
    n, k = case['n'], case['order']
    knots = np.array(case['knots'])
    if case['k'] == 'grid':
        knots = np.arange(n)
    elif case['int_knots']:
        knots = np.argsort(knots) * 2
    given = knots.copy()
    D = aff.diff_matrix(knots, k)
    sc = (np.abs(D).sum(1).max() + 1) * 20
    x, u = case['x'], case['u'][:n - k]
    if case['k'] == 'matrix':
        M = F.difference_transform(knots, order=k)
        close('difference matrix', M.toarray(), D, sc)
        close('difference matrix, sorted', F.difference_transform(np.sort(knots), order=k, sorted=True).toarray(), D, sc)
        v = M.toarray().dot(x)
    else:
        t = (F.trend_filter.grid(n, order=k) if case['k'] == 'grid' else F.trend_filter(knots, order=k)
             if case['k'] == 'trend' else F.difference_transform(knots, order=k, transform=True))
        v = t.linear_map(x.copy())
        bx = sc * (1 + np.abs(x).max())
        close('linear_map', v, D.dot(x), bx)
        close('linear_map of a vector', t.linear_map(x[:, 0].copy()), D.dot(x[:, 0]), bx, t.output_shape)
        close('affine_map', t.affine_map(x.copy()), D.dot(x), bx)
        close('adjoint_map', t.adjoint_map(u.copy()), D.T.dot(u), sc * (1 + np.abs(u).max()) * n)
        close('adjoint_map of a vector', t.adjoint_map(u[:, 1].copy()), D.T.dot(u[:, 1]), sc * (1 + np.abs(u).max()) * n,
              t.input_shape)
    # polynomials of degree < order are annihilated
    pol = np.vander(np.sort(knots) / (1. + np.abs(knots).max()), k)
    close('polynomials', D.dot(pol), 0 * D.dot(pol), sc * 10)
    if not np.array_equal(given, knots):
        raise Violation('knots were changed')
    return '%s order %d' % (case['k'], k) if np.any(v) else None


@sub('C11', 'inverse', g_diff, quick=700, thorough=15000, cost=.5)
def inverse(case):
    """trend_filter_inverse inverts the first order trend filter."""
    from regreg.affine import fused_lasso as F
    n = case['n']
    knots = np.array(case['knots'])
    grid = case['k'] == 'grid'
    if grid:
        knots = np.arange(n)
    t = F.trend_filter.grid(n) if grid else F.trend_filter(knots)
    ti = F.trend_filter_inverse.grid(n) if grid else F.trend_filter_inverse(knots)
    A = aff.cumsum_matrix(knots)
    x, u = case['x'], case['u'][:n - 1]
    sc = 100 * n * (1 + np.ptp(knots)) * (1 + np.abs(x).max() + np.abs(u).max()) * (1 + 1. / np.diff(np.sort(knots)).min())
    close('D D^- u', t.linear_map(ti.linear_map(u.copy())), u, sc)
    close('D^- D x', ti.linear_map(t.linear_map(x.copy())), x - x.mean(0), sc)
    close('D D^- u, vector', t.linear_map(ti.linear_map(u[:, 0].copy())), u[:, 0], sc)
    close('D^- D x, vector', ti.linear_map(t.linear_map(x[:, 0].copy())), x[:, 0] - x[:, 0].mean(), sc)
    close('adjoint pair', ti.adjoint_map(t.adjoint_map(u.copy())), u, sc)
    close('inverse, values', ti.affine_map(u.copy()), A.dot(u), sc)
    close('inverse, adjoint', ti.adjoint_map(x.copy()), A.T.dot(x), sc)
    close('inverse, adjoint of a vector', ti.adjoint_map(x[:, 1].copy()), A.T.dot(x[:, 1]), sc, ti.input_shape)
    return 'grid' if grid else 'knots' if np.ptp(x) > 0 else None


def g_image(draw):
    m, n = integer(draw, 2, 7), integer(draw, 2, 7)
    return dict(m=m, n=n, x=arr(draw, (m, n)), u=normal(draw, (m * n - 1, 2)),
                b=arr(draw, (m * n - 1, 2)) if boolean(draw, 1, 3) else None)


@sub('C11', 'images', g_image, quick=700, thorough=15000, cost=1.)
def images(case):
    """2d image differences: every lattice edge exactly once, in order."""
    from regreg.affine import image2d as I
    m, n = case['m'], case['n']
    M = aff.image_matrix(m, n)
    x, u = case['x'], case['u']
    D = I.formD(m, n)
    close('formD', D.toarray(), M, 1)
    # the smaller matrix: same edges without zero rows, all interior ones first
    S = I.formD_smaller(m, n).toarray()
    k = (m - 1) * (n - 1)
    want = np.vstack([M[:k], M[m * n - 1:m * n - 1 + k], M[k:m * n - 1]])
    close('formD_smaller', S, want, 1)
    edges = set()
    for r in S:
        i, j = np.nonzero(r)[0]
        edges.add((i, j))
    if len(edges) != 2 * m * n - m - n:
        raise Violation('%d distinct edges' % len(edges))
    t = I.image2d_differences((m, n), affine_offset=None if case['b'] is None else case['b'].copy())
    v = t.linear_map(x.copy())
    want = M.dot(x.reshape(-1)).reshape(2, m * n - 1).T
    sc = 10 * (1 + np.abs(x).max())
    close('linear_map', v, want, sc, t.output_shape)
    close('affine_map', t.affine_map(x.copy()), want + (0 if case['b'] is None else case['b']), sc * 200, t.output_shape)
    close('adjoint_map', t.adjoint_map(u.copy()), M.T.dot(u.T.reshape(-1)).reshape(m, n), 20 * (1 + np.abs(u).max()), (m, n))
    # total variation by explicit finite differences
    tv = np.abs(np.diff(x, axis=0)).sum() + np.abs(np.diff(x, axis=1)).sum()
    if not abs(np.abs(v).sum() - tv) <= 1e-9 * (1 + tv):
        raise Violation('anisotropic total variation %r, expected %r' % (np.abs(v).sum(), tv))
    return 'image' if tv > 0 else None


def g_multi(draw):
    p = integer(draw, 1, 14)
    k = pick(draw, 'default', 'default', 'slices', 'slices', 'update', 'copy', 'update_default')
    sl = []
    for _ in range(integer(draw, 1, 6)):
        i = integer(draw, 0, p - 1)
        sl.append([i, integer(draw, i + 1, p)])
    sc = [positive(draw) for _ in range(len(sl))] if boolean(draw) else pick(draw, None, 2)
    return dict(k=k, p=p, slices=sl, scaling=sc, minsize=pick(draw, None, 1, 2, 3), x=vec(draw, p), seed=integer(draw, 0, 10 ** 6),
                as_tuple=boolean(draw))


def mean_of_centred(x, slices):
    x = x - sum(x) / len(x)
    return np.array([sum(x[i:j]) / (j - i) for i, j in slices])


@sub('C11', 'multiscale', g_multi, quick=1500, thorough=40000, cost=.7)
def multi(case):
    """Means of the centred signal over intervals."""
    from copy import copy
    from regreg.affine.multiscale import multiscale
    p, k, x = case['p'], case['k'], case['x']
    sl = [tuple(q) for q in case['slices']]
    scl = case['scaling']
    scl = np.array(scl) if isinstance(scl, list) else scl
    ms = case['minsize'] or int(np.around(p ** (1 / 3.)))
    default = [(i, j) for i in range(p) for j in range(i, p) if j - i >= ms]
    if k in ('default', 'update_default', 'copy'):
        t = multiscale(p, minsize=case['minsize'])
        if [tuple(int(v) for v in q) for q in t.slices] != default:
            raise Violation('default intervals %s, expected %s' % (t.slices.tolist(), default))
        want, scl = default, None
        if k == 'update_default':
            t.update_slices(t.slices if case['as_tuple'] or not default else default)
    else:
        want = sl
        t = multiscale(p, slices=sl, scaling=scl)
        if k == 'update':
            t = multiscale(p)
            t.update_slices(sl, scaling=scl)
    if k == 'copy' or case['seed'] % 3 == 0:
        old, t = t, copy(t)
        old.update_slices([(0, p)])
    if t.input_shape != (p,) or t.output_shape != (len(want),):
        raise Violation('shapes %s -> %s' % (t.input_shape, t.output_shape))
    M = aff.multiscale_matrix(p, want, None if scl is None else np.ones(len(want)) * scl)
    u = np.random.RandomState(case['seed']).standard_normal(len(want))
    u[::3] = 0
    bx = 20 * p * (1 + np.abs(x).max()) * (1 if scl is None else 1 + np.max(scl))
    v = t.linear_map(x.copy())
    if len(want):
        close('interval means', v, mean_of_centred(x, want) * (1 if scl is None else scl), bx)
    close('linear_map', v, M.dot(x), bx, (len(want),))
    close('affine_map', t.affine_map(x.copy()), M.dot(x), bx)
    close('adjoint_map', t.adjoint_map(u.copy()), M.T.dot(u), 50 * (1 + len(want)) * (1 if scl is None else 1 + np.max(scl)), (p,))
    if len(want):
        X, length = t.form_matrix(want)
        E = np.array([[1. if i <= r < j else 0. for i, j in want] for r in range(p)])
        E = (E - E.mean(0)) / np.sqrt([j - i for i, j in want])
        close('form_matrix', X, E, 10)
        close('lengths', length, [j - i for i, j in want], 1)
    return k if np.any(np.abs(v) > 1e-9) else None


def g_smuce(draw):
    c = g_multi(draw)
    c['p'] = integer(draw, 4, 14)
    c['x'] = vec(draw, c['p'], 'cont')
    c['slices'] = [[i, integer(draw, i + 1, c['p'])] for i in [integer(draw, 0, c['p'] - 1) for _ in range(3)]]
    c['sigma'] = pick(draw, None, 1., 0.5, 2.)
    return c


@sub('C11', 'smuce', g_smuce, quick=300, thorough=6000, cost=1.)
def smuce(case):
    """The multiscale statistic is the largest penalised scaled mean."""
    from regreg.affine.multiscale import multiscale, SMUCE_stat, choose_tuning_parameter
    p, x, sigma = case['p'], case['x'], case['sigma']
    if np.std(x) < 1e-3:
        raise Reject('constant signal')
    if case['k'] in ('slices', 'update'):
        sl = [tuple(q) for q in case['slices']]
        t = multiscale(p, slices=sl, scaling=np.ones(len(sl)) * 3.)
    else:
        t = multiscale(p)
        sl = [tuple(int(v) for v in q) for q in t.slices]
    length = np.array([j - i for i, j in sl], float)
    s = np.std(x) if sigma is None else sigma
    before = t.linear_map(x)
    T = np.abs(mean_of_centred(x, sl)) * np.sqrt(length) / s - np.sqrt(2 * np.log(p / length))
    v, arg = SMUCE_stat(t, x.copy(), sigma=sigma)
    close('statistic', v, T.max(), 100 * p)
    a = sl.index(tuple(int(q) for q in arg))
    close('maximising interval', T[a], T.max(), 100 * p)
    close('transform after the statistic', t.linear_map(x), before, 100)
    np.random.seed(case['seed'])
    q = choose_tuning_parameter(t, ndraw=5, quantile=0.5, sigma=sigma)
    np.random.seed(case['seed'])
    V = []
    for _ in range(5):
        Z = np.random.standard_normal(p)
        V.append((np.abs(mean_of_centred(Z, sl)) * np.sqrt(length) / (np.std(Z) if sigma is None else sigma)
                  - np.sqrt(2 * np.log(p / length))).max())
    close('tuning parameter', q, np.median(V), 100 * p)
    return 'sigma' if sigma is not None else 'default'


def g_norm(draw):
    n, p = integer(draw, 3, 12), integer(draw, 1, 6)
    X = arr(draw, (n, p)) if boolean(draw) else normal(draw, (n, p))
    k = pick(draw, 'plain', 'shift', 'int', 'const', 'sparse', 'scaled')
    if k == 'shift':
        X = X + 5
    elif k == 'int':
        X = np.round(2 * X)
    elif k == 'const':
        X[:, integer(draw, 0, p - 1)] = pick(draw, 0., 1., 2.)
    elif k == 'sparse':
        X = X * (np.abs(normal(draw, (n, p))) > 1)
    elif k == 'scaled':
        X = X * np.exp(np.linspace(-3, 3, p))
    return dict(X=X, fmt=pick(draw, 'dense', 'dense', 'csr', 'csc', 'coo', 'dense_int'), center=boolean(draw, 2, 3), scale=boolean(draw, 2, 3),
                intercept=boolean(draw, 1, 3), ddof=pick(draw, 1, 1, 0, 2), value=pick(draw, 1, 1, 2.5, 0.5),
                x=vec(draw, p + 1), u=vec(draw, n))


@sub('C11', 'standardise', g_norm, quick=2000, thorough=50000, cost=.7)
def standardise(case):
    """normalize equals explicitly centring and scaling the columns."""
    import warnings
    from regreg.affine import normalize
    from scipy import sparse
    X, f = case['X'], case['fmt']
    if f == 'dense_int':
        X = np.round(X)
    n, p = X.shape
    # a column that is constant up to rounding only has no standard deviation
    sd, ms = np.std(X, 0), np.sqrt((X ** 2).mean(0))
    if case['scale'] and np.any((sd <= 1e-4 * ms) & (np.ptp(X, axis=0) > 0)):
        raise Reject('nearly constant column')
    arg = X.copy() if f == 'dense' else X.astype(int) if f == 'dense_int' else getattr(sparse, f + '_matrix')(X)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        t = normalize(arg, center=case['center'], scale=case['scale'], intercept=case['intercept'],
                      ddof=case['ddof'], value=case['value'])
        A = aff.normalize_matrix(X, case['center'], case['scale'], case['ddof'], case['value'])
        if case['intercept']:
            A = np.hstack([np.ones((n, 1)), A])
        x, u = case['x'][:A.shape[1]], case['u']
        # one-pass variances lose digits in proportion to (mean / sd)^2
        loss = 1 + (ms / np.maximum(sd, 1e-4 * ms + 1e-300)).max() ** 2 if case['scale'] else 1
        sc = 30 * (1 + np.abs(A).max()) * (1 + np.abs(X).max()) * loss
        close('linear_map', t.linear_map(x.copy()), A.dot(x), sc * (1 + np.abs(x).max()), t.output_shape)
        close('affine_map', t.affine_map(x.copy()), A.dot(x), sc * (1 + np.abs(x).max()))
        close('adjoint_map', t.adjoint_map(u.copy()), A.T.dot(u), sc * n * (1 + np.abs(u).max()), t.input_shape)
    if t.input_shape != (A.shape[1],) or t.output_shape != (n,):
        raise Violation('shapes %s -> %s' % (t.input_shape, t.output_shape))
    now = arg.toarray() if sparse.issparse(arg) else arg
    if not np.array_equal(now, X):
        raise Violation('the matrix was changed')
    if not np.any(A.dot(x)):
        return None
    return '%s c%d s%d i%d' % ('sparse' if sparse.issparse(arg) else 'dense', case['center'], case['scale'], case['intercept'])


def g_fact(draw):
    m, p = integer(draw, 1, 9), integer(draw, 1, 9)
    r = integer(draw, 0, min(m, p))
    U, V = np.linalg.qr(normal(draw, (m, m)))[0][:, :r], np.linalg.qr(normal(draw, (p, p)))[0][:, :r]
    d = 5. * 0.45 ** np.arange(r)
    return dict(m=m, p=p, U=U, V=V, d=d, k=pick(draw, 'svd', 'svd', 'factors', 'partial'), seed=integer(draw, 0, 10 ** 6),
                cut=pick(draw, None, None, 1.), b=vec(draw, m) if boolean(draw) else None, x=vec(draw, p), u=vec(draw, m),
                rank=integer(draw, 1, max(r, 1)), init=pick(draw, None, None, 2), sparse=boolean(draw, 1, 4),
                as_tuple=boolean(draw), warm=boolean(draw, 1, 3))


@sub('C11', 'lowrank', g_fact, quick=1000, thorough=20000, cost=2.5)
def lowrank(case):
    """Factored matrices reproduce the matrix, truncated where asked."""
    import warnings
    from regreg.affine import factored_matrix as F
    from scipy import sparse
    U, V, d, m, p = case['U'], case['V'], case['d'], case['m'], case['p']
    X = (U * d).dot(V.T)
    r = len(d)
    np.random.seed(case['seed'])
    x, u = case['x'], case['u']
    b = case['b']
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if case['k'] == 'partial':
            if r == 0:
                raise Reject('zero')
            rank = case['rank']
            ws = np.random.standard_normal(m) if case['warm'] else None
            u1, d1, v1 = F.partial_svd(X.copy(), rank=rank, padding=5, tol=1e-14, warm_start=ws)
            close('singular values', d1, d[:rank], 1e4)
            close('left vectors', (u1 * d1).dot(v1), (U[:, :rank] * d[:rank]).dot(V[:, :rank].T), 1e5)
            close('orthonormal left', u1.T.dot(u1), np.identity(rank), 100)
            close('orthonormal right', v1.dot(v1.T), np.identity(rank), 100)
            return 'partial'
        if case['k'] == 'factors':
            if r == 0:
                raise Reject('zero')
            fac = [U.copy(), d.copy(), V.T.copy()]
            t = F.factored_matrix(tuple(fac) if case['as_tuple'] else fac, affine_offset=None if b is None else b.copy())
            want, tol = X, 10.
        else:
            cut = case['cut'] or 0.
            t = F.factored_matrix(sparse.csr_matrix(X) if case['sparse'] else X.copy(), min_singular=cut, tol=1e-14,
                                  initial_rank=case['init'], affine_offset=None if b is None else b.copy())
            keep = d >= cut
            if np.any(np.abs(d - cut) < 1e-3):
                raise Reject('singular value at the threshold')
            want, tol = (U[:, keep] * d[keep]).dot(V[:, keep].T), 1e5
        if case['seed'] % 2:
            t = t.copy()
        close('matrix', t.X, want, tol)
        sc = tol * 10 * (1 + np.abs(x).max())
        if t.input_shape != (p,) or t.output_shape != (m,):
            raise Violation('shapes %s -> %s' % (t.input_shape, t.output_shape))
        close('linear_map', t.linear_map(x.copy()), want.dot(x), sc, (m,))
        close('affine_map', t.affine_map(x.copy()), want.dot(x) + (0 if b is None else b), sc * 200, (m,))
        close('adjoint_map', t.adjoint_map(u.copy()), want.T.dot(u), tol * 10 * (1 + np.abs(u).max()), (p,))
        Z = np.column_stack([x, 2 * x])
        close('linear_map of a matrix', t.linear_map(Z), want.dot(Z), 2 * sc)
    return case['k'] + (' truncated' if case['k'] == 'svd' and case['cut'] else '') if np.any(want) else None


def g_sel(draw):
    P = integer(draw, 1, 10)
    ix = aff.gen_index(draw, P)
    r = len(aff.positions(ix, P))
    return dict(P=P, ix=ix, x=vec(draw, P), u=vec(draw, r), d=vec(draw, P))


@sub('C11', 'selection', g_sel, quick=500, thorough=8000, cost=.3)
def selection(case):
    """Selectors, scalers, centring and differences of coordinates."""
    from regreg import affine as A
    P, x, u = case['P'], case['x'], case['u']
    ix = aff.index(case['ix'])
    t = A.selector(ix, (P,))
    pos = aff.positions(case['ix'], P)
    close('selection', t.linear_map(x.copy()), [x[i] for i in pos], 1000, t.output_shape)
    want = np.zeros(P)
    for i, v in zip(pos, u):
        want[i] = v
    close('embedding', t.adjoint_map(u.copy()), want, 1000, (P,))
    close('selection of an embedding', t.linear_map(t.adjoint_map(u.copy())), u, 1000)
    close('centring', A.centering((P,)).linear_map(x.copy()), x - sum(x) / P, 1000)
    s = A.scaler(case['d'].tolist())
    close('scaling', s.linear_map(x.copy()), [a * b for a, b in zip(case['d'], x)], 1e6)
    close('scaling, adjoint', s.adjoint_map(x.copy()), case['d'] * x, 1e6)
    return case['ix'][0] if np.any(x[pos]) else None
