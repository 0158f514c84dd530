"""C12: smooth losses against their likelihoods."""
import numpy as np

from .core import prop, sub, Violation, Reject
from .gens import pick, boolean, integer, positive, vec, arr, normal, design, quad
from . import pen, loss, aff
from .loss import same

prop('C12',
     rule='Loss, response (ties, zero counts, several trials, one case), multiplier, offset, case weights, own '
          'quadratic, features (dense, sparse, transforms) and linear predictors out to the library\'s stated clipping '
          'limits are generated; non-trivial when value, gradient and a nonzero Hessian (where defined) were compared '
          'with an independent evaluation of the likelihood at a point with nonzero gradient.',
     assumptions=['relative tolerance 1e-9 of a scale computed from data and linear predictor',
                  'linear predictors inside the clipping limits stated in the code (probit 20, cloglog 5, multinomial 50)',
                  'Hessians of probit and cloglog losses are the expected (Fisher) ones, as the tests fix'])


def gen_sat(draw):
    s = loss.spec(draw, kinds=loss.SCALAR * 2 + ['cox'] + loss.MATRIX + ['stacked'] * 2)
    return {'s': s, 'eta': loss.gen_eta(draw, s), 'cw': loss.case_weights(draw, s['n']),
            'other': loss.gen_eta(draw, s), 'int': boolean(draw, 1, 8)}


def hess_of(s, obj, eta, cw):
    kw = {} if cw is None else {'case_weights': cw.copy()}
    return obj.hessian(eta.copy(), **kw)


@sub('C12', 'saturated', gen_sat, quick=4000, thorough=80000, cost=4)
def saturated(case):
    s, eta, cw = case['s'], case['eta'], case['cw']
    if case['int']:
        eta = loss.limit(s, np.round(eta)).astype(int) if np.abs(np.round(eta)).max() <= loss.reach(s) - 1 else eta
    obj = loss.build(s)
    v, g, h = r = loss.ref(s, eta, cw)
    loss.check(s, obj, eta, cw, ref_out=r)
    S = loss.scale_of(s, eta, cw)
    if h is not None and s['kind'] in loss.HESS:
        same('Hessian', hess_of(s, obj, eta, cw), h, S)
    # objective: adds own quadratic and a constant of the data
    v0 = loss.ref(s, eta)[0]
    want = v0 + (0 if s['quad'] is None else pen.qval(s['quad'], eta * 1.)) + loss.saturated(s)
    S2 = loss.scale_of(s, eta) + (0 if s['quad'] is None else np.abs(eta).max() ** 2 * s['n'] * 10 + 100) \
        + abs(loss.saturated(s))
    if not case['int']:
        same('objective', obj.objective(eta.copy()), want, S2)
    # a second point: convexity between the two, through the exact values
    e2 = case['other']
    loss.check(s, obj, e2, None, label='second call: ')
    if obj.shape != s['shape']:
        raise Violation('shape %s, expected %s' % (obj.shape, s['shape']))
    if not np.any(np.abs(g) > 1e-12):
        return None
    return s['kind'] + ('/ctor' if s.get('ctor') else '')


def gen_mean(draw):
    k = pick(draw, 'gaussian', 'logistic', 'probit', 'cloglog', 'poisson')
    s = loss.spec(draw, k, offset=False, quad=False, cw=False)
    return {'s': s, 'eta': loss.gen_eta(draw, s)}


@sub('C12', 'mean', gen_mean, quick=1000, thorough=10000)
def mean(case):
    """the mean function is the inverse link"""
    import scipy.special as sc
    s, eta = case['s'], case['eta']
    obj = loss.build(s)
    m = obj.mean_function(eta.copy())
    want = {'gaussian': lambda x: x, 'logistic': sc.expit, 'probit': sc.ndtr, 'poisson': np.exp,
            'cloglog': lambda x: -np.expm1(-np.exp(x))}[s['kind']](eta)
    same('mean', m, want, 1 + np.abs(want).max())
    if s['kind'] in ('gaussian', 'logistic', 'poisson'):
        t = 1. if s.get('t') is None else s['t']
        same('gradient from means', obj.smooth_objective(eta.copy(), 'grad'), s['coef'] * (t * m - s['y']),
             loss.scale_of(s, eta))
    return s['kind']


# -- with features -------------------------------------------------------------------------------

FORMS = ['dense', 'dense', 'fortran', 'csr', 'csc', 'int', 'transform', 'normalize', 'selector']


def gen_X(draw, n, forms=None):
    p = integer(draw, 1, 5)
    form = pick(draw, *(forms or FORMS))
    X = design(draw, n, p)
    if form == 'int':
        X = np.round(2 * X)
    elif form in ('csr', 'csc'):
        X = X * np.array([[pick(draw, 0, 1, 1) for _ in range(p)] for _ in range(n)])
    elif form == 'selector':
        p = n + integer(draw, 0, 2)
        idx = np.random.RandomState(integer(draw, 0, 9999)).permutation(p)[:n]
        X = np.zeros((n, p))
        X[np.arange(n), idx] = 1
        return {'form': form, 'X': X, 'idx': idx}
    return {'form': form, 'X': X}


def build_X(d):
    """feature object given to the library"""
    import scipy.sparse as sp
    import regreg.api as rr
    X, f = d['X'], d['form']
    if f == 'fortran':
        return np.asfortranarray(X)
    if f in ('csr', 'csc'):
        return getattr(sp, f + '_matrix')(X)
    if f == 'int':
        return X.astype(int)
    if f == 'transform':
        return rr.linear_transform(X.copy())
    if f == 'normalize':
        return rr.normalize(X.copy(), center=True, scale=False)
    if f == 'selector':
        return rr.selector(d['idx'], (X.shape[1],))
    return X.copy()


def dense_X(d):
    X = d['X']
    return X - X.mean(0) if d['form'] == 'normalize' else X


def gen_glm(draw):
    s = loss.spec(draw, kinds=loss.SCALAR * 2 + ['cox', 'cox', 'stacked'])
    d = gen_X(draw, s['n'])
    p = d['X'].shape[1]
    c = {'s': s, 'd': d, 'ctor': s['kind'] != 'stacked' and boolean(draw, 2, 3),
         'beta': vec(draw, p, pick(draw, 'cont', 'grid', 'sparse')),
         'other': vec(draw, p, 'cont'), 'cw': loss.case_weights(draw, s['n']),
         'offset': vec(draw, p, 'cont') if boolean(draw, 1, 3) else None,
         'quad': quad(draw, p, 'any') if boolean(draw, 1, 4) else None}
    if c['ctor']:
        s['quad'] = s['cw'] = None
    return c


def build_glm(c, X=None, initial=None):
    import regreg.smooth.glm as G
    s = c['s']
    X = build_X(c['d']) if X is None else X
    kw = dict(offset=None if c['offset'] is None else c['offset'].copy(), quadratic=None if c["quad"] is None else pen.iq(c["quad"]),
              case_weights=None if c['cw'] is None else c['cw'].copy(), initial=initial)
    if not c['ctor']:
        L = loss.build(s)
        return G.glm(X, L.data if s['kind'] not in loss.BINOM else (L.data, L.trials), L, **kw)
    y = loss.y_of(s)
    kw.update(coef=s['coef'], saturated_offset=None if s['offset'] is None else s['offset'].copy())
    f = getattr(G.glm, s['kind'])
    if s['kind'] in loss.BINOM:
        return f(X, y, trials=None if s['t'] is None else s['t'].copy(), **kw)
    if s['kind'] in ('huber', 'huber_svm'):
        return f(X, y, s['eps'], **kw)
    if s['kind'] == 'cox':
        return f(X, y, s['c'].copy(), **kw)
    return f(X, y, **kw)


def safe_beta(c, b):
    """shrink a coefficient vector until nothing clips"""
    X = dense_X(c['d'])
    e = X.dot(b if c['offset'] is None else b - c['offset'])
    r = max(loss.reach(c['s']) - (0 if c['s']['offset'] is None else np.abs(c['s']['offset']).max()), 0.2)
    m = np.abs(e).max()
    if m <= r:
        return b
    z = b if c['offset'] is None else b - c['offset']
    return (z * (r / m)) + (0 if c['offset'] is None else c['offset'])


def glm_ref(c, b):
    X = dense_X(c['d'])
    eta = X.dot(b if c['offset'] is None else b - c['offset'])
    v, g, h = loss.ref(c['s'], eta, c['cw'])
    H = None if h is None else (X.T.dot(h).dot(X) if np.ndim(h) == 2 else (X.T * h).dot(X))
    return eta, v, X.T.dot(g), H


@sub('C12', 'glm', gen_glm, quick=3000, thorough=50000, cost=5)
def glm(case):
    c, s = case, case['s']
    L = build_glm(c)
    X = dense_X(c['d'])
    S1 = (1 + np.abs(X).max()) ** 2 * X.shape[1]
    nz = False
    for b in (c['beta'], c['other']):
        b = safe_beta(c, b)
        eta, v, g, H = glm_ref(c, b)
        S = loss.scale_of(s, eta, c['cw']) * S1
        bb = b.copy()
        f1, g1 = L.smooth_objective(bb, 'both')
        same('value', f1, v, S)
        same('gradient', g1, g, S)
        same('value only', L.smooth_objective(bb, 'func'), v, S)
        same('gradient only', L.smooth_objective(bb, 'grad'), g, S)
        same('objective()', L.objective(bb), v, S)
        same('gradient()', L.gradient(bb), g, S)
        same('linear predictor', L.linear_predictor(bb), X.dot(b), S1 * (1 + np.abs(b).max()))
        if H is not None and c['d']['form'] not in ('transform', 'normalize', 'selector'):
            Hh = L.hessian(bb)
            same('Hessian', Hh, H, S * S1)
        if not np.array_equal(bb, b):
            raise Violation('argument changed')
        same('own quadratic', L.nonsmooth_objective(bb), 0 if c['quad'] is None else pen.qval(c['quad'], b),
             1 + np.abs(b).max() ** 2 * 100)
        nz = nz or np.abs(g).max() > 1e-12
    return '%s/%s' % (s['kind'], c['d']['form']) if nz else None


def gen_mglm(draw):
    s = loss.spec(draw, kinds=loss.MATRIX)
    d = gen_X(draw, s['n'], ['dense', 'fortran', 'csr', 'transform', 'normalize'])
    p, q = d['X'].shape[1], s['shape'][1]
    return {'s': s, 'd': d, 'B': arr(draw, (p, q), 'cont'), 'B2': arr(draw, (p, q), 'grid'),
            'offset': arr(draw, (p, q), 'cont') if boolean(draw, 1, 3) else None,
            'cw': loss.case_weights(draw, s['n']), 'ctor': s['kind'] != 'stacked_common' and boolean(draw)}


def build_mglm(c):
    import regreg.smooth.mglm as M
    s = c['s']
    kw = dict(offset=None if c['offset'] is None else c['offset'].copy(),
              case_weights=None if c['cw'] is None else c['cw'].copy())
    if c['ctor']:
        return M.mglm.multinomial(build_X(c['d']), loss.y_of(s), coef=s['coef'], saturated_offset=s['offset'],
                                  baseline=s['kind'] == 'multinomial_baseline', **kw)
    return M.mglm(build_X(c['d']), loss.build(s), **kw)


@sub('C12', 'mglm', gen_mglm, quick=1500, thorough=25000, cost=5)
def mglm(case):
    c = case
    s = dict(c['s'])
    if c['ctor']:
        s['cw'] = s['quad'] = None
    c = dict(c, s=s)
    L = build_mglm(c)
    X = dense_X(c['d'])
    if L.shape != (X.shape[1], s['shape'][1]):
        raise Violation('shape %s' % (L.shape,))
    S1 = (1 + np.abs(X).max()) ** 2 * X.shape[1]
    r = loss.reach(s) - (0 if s['offset'] is None else np.abs(s['offset']).max())
    for B in (c['B'], c['B2']):
        z = B if c['offset'] is None else B - c['offset']
        m = np.abs(X.dot(z)).max()
        if m > max(r, 0.2):
            z = z * (max(r, 0.2) / m)
        B = z if c['offset'] is None else z + c['offset']
        eta = X.dot(z)
        v, g, _ = loss.ref(s, eta, c['cw'])
        S = loss.scale_of(s, eta, c['cw']) * S1
        bb = B.copy()
        f1, g1 = L.smooth_objective(bb, 'both')
        same('value', f1, v, S)
        same('gradient', g1, X.T.dot(g), S)
        same('value only', L.smooth_objective(bb, 'func'), v, S)
        same('gradient only', L.smooth_objective(bb, 'grad'), X.T.dot(g), S)
        if not np.array_equal(bb, B):
            raise Violation('argument changed')
    return '%s/%s' % (s['kind'], c['d']['form']) if np.abs(X.T.dot(g)).max() > 1e-12 else None


# -- losses stated directly in the coefficients ---------------------------------------------------

def gen_other(draw):
    kind = pick(draw, 'quadratic', 'diagonal', 'identity', 'fromarray', 'squared_transform', 'squared_error',
                'signal', 'huberized_svm', 'sum')
    n, p = integer(draw, 1, 5), integer(draw, 1, 4)
    return {'kind': kind, 'X': design(draw, n, p), 'y': vec(draw, n, 'cont'), 'D': np.abs(vec(draw, p, 'grid')),
            'lab': [0] + [integer(draw, 0, 1) for _ in range(n - 1)], 'labels': pick(draw, [0, 1], [-1, 1], [3, 7]),
            'coef': pick(draw, 1., positive(draw)), 'eps': positive(draw),
            'offset': vec(draw, p, 'cont') if boolean(draw) else None,
            'x': vec(draw, p), 'x2': vec(draw, p), 'xs': [vec(draw, n), vec(draw, n)]}


@sub('C12', 'other', gen_other, quick=2000, thorough=30000, cost=2)
def other(case):
    import regreg.api as rr
    from regreg.smooth.quadratic import quadratic_loss, squared_error, signal_approximator
    from regreg.smooth.losses import huberized_svm
    c, X, y, k, C = case, case['X'], case['y'], case['kind'], case['coef']
    n, p = X.shape
    off = c['offset']
    xs = [c['x'], c['x2']]
    o = np.zeros(p) if off is None else off
    kw = dict(coef=C, offset=None if off is None else off.copy())
    quadform = lambda Q, C=C, o=o: (lambda x: (C / 2 * (x - o).dot(Q).dot(x - o), C * Q.dot(x - o)))
    if k == 'quadratic':
        obj, f = quadratic_loss((p,), Q=X.T.dot(X), **kw), quadform(X.T.dot(X))
    elif k == 'identity':
        obj, f = quadratic_loss((p,), **kw), quadform(np.identity(p))
    elif k == 'diagonal':
        kw.pop('coef')
        obj, f = quadratic_loss.diagonal(c['D'], **kw), quadform(np.diag(c['D']), 1.)
    elif k == 'fromarray':
        kw.pop('coef')
        obj, f = quadratic_loss.fromarray(X.T.dot(X), **kw), quadform(X.T.dot(X), 1.)
    elif k == 'squared_transform':
        kw.pop('coef')
        obj, f = quadratic_loss.squared_transform(X, **kw), quadform(X.T.dot(X), 1.)
    elif k == 'squared_error':
        obj = squared_error(X, y, coef=C)
        f = lambda x: (C / 2 * ((X.dot(x) - y) ** 2).sum(), C * X.T.dot(X.dot(x) - y))
    elif k == 'signal':
        obj = signal_approximator(y, coef=C)
        xs = c['xs']
        f = lambda x: (C / 2 * ((x - y) ** 2).sum(), C * (x - y))
    elif k == 'huberized_svm':
        lab = np.array([c['labels'][i] for i in c['lab']])
        sg = np.where(lab == lab.max(), 1., -1.)
        obj = huberized_svm(X, lab, c['eps'], **kw)

        def f(x):
            d = {'kind': 'huber_svm', 'y': (sg + 1) / 2, 'eps': c['eps']}
            v, g, _ = loss.per_case(d, X.dot(x - o))
            return C * v.sum(), C * X.T.dot(g)
    elif k == 'sum':
        w = np.abs(c['D'][:1].tolist() + [1.])
        obj = rr.smooth_sum([squared_error(X, y, coef=C), quadratic_loss((p,), **kw)], weights=w)
        f = lambda x: (w[0] * C / 2 * ((X.dot(x) - y) ** 2).sum() + w[1] * C / 2 * ((x - o) ** 2).sum(),
                       w[0] * C * X.T.dot(X.dot(x) - y) + w[1] * C * (x - o))
    for x in xs:
        v, g = f(x)
        S = (1 + C) * (1 + np.abs(X).max()) ** 2 * n * p * (1 + np.abs(x).max() + np.abs(o).max() + np.abs(y).max()
                                                            + c['D'].max()) ** 2 * (1 + 1 / c['eps'])
        xx = x.copy()
        f1, g1 = obj.smooth_objective(xx, 'both')
        same('value', f1, v, S)
        same('gradient', g1, g, S)
        same('value only', obj.smooth_objective(xx, 'func'), v, S)
        same('gradient only', obj.smooth_objective(xx, 'grad'), g, S)
        same('objective', obj.objective(xx), v, S)
        if not np.array_equal(xx, x):
            raise Violation('argument changed')
    return k if np.abs(g).max() > 1e-12 else None
