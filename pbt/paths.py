"""
Regularisation paths: specifications, regreg path objects, an independent
statement of the optimality conditions and of the smallest multiplier with a
null model.
"""
import warnings
import numpy as np
import scipy.sparse

from .gens import pick, boolean, integer, positive, real, vec, normal, partition, design
from . import loss
from .core import Violation, Reject

SCALAR = loss.SCALAR + ['cox']
KINDS = ['lasso', 'lasso', 'group', 'group', 'sgl', 'sgl', 'common', 'block']
STACKED = ['gaussian', 'logistic', 'probit', 'cloglog', 'poisson', 'huber', 'huber_svm', 'cox']


def gen(draw, kind=None, unpenalised=True, simple=False):
    """simple: only losses whose data are one response per case"""
    kind = kind or pick(draw, *KINDS)
    d = {'kind': kind, 'alpha': pick(draw, 1., 1., 0.5, 0.9), 'how': pick(draw, 'helper', 'class'), 'form': 'dense'}
    p = d['p'] = integer(draw, 1, 8)
    plain = d['how'] == 'helper'
    if kind in ('lasso', 'group', 'sgl'):
        n = integer(draw, 6, 20)
        fam = pick(draw, *(('gaussian', 'huber', 'poisson') if simple else SCALAR))
        if fam == 'probit':              # slow to evaluate
            p = d['p'] = min(p, 3)
        d['s'] = loss.spec(draw, fam, n, offset=not plain, quad=False, cw=not plain)
        d['X'] = gen_X(draw, n, p)
        d['form'] = pick(draw, 'dense', 'dense', 'csr', 'normalize')
        sh = (p,)
    elif kind == 'common':
        n = integer(draw, 6, 16)
        k = 'stacked_common' if simple else pick(draw, 'multinomial', 'multinomial', 'stacked_common')
        d['s'] = loss.spec(draw, k, n, offset=not plain, quad=False, cw=not plain)
        if (plain or simple) and k == 'stacked_common':
            d['s']['subs'] = [loss.spec(draw, 'gaussian', n, offset=False, quad=False, cw=False)
                              for _ in d['s']['subs']]
            for t in d['s']['subs']:
                t['coef'] = 1.
            d['s']['ctor'] = plain
        d['X'] = gen_X(draw, n, p)
        sh = (p, d['s']['shape'][1])
    else:
        q = integer(draw, 1, 3)
        fam = pick(draw, *(('gaussian', 'huber') if simple else STACKED))
        if fam == 'probit':
            p, q = min(p, 2), min(q, 2)
            d['p'] = p
        subs = [loss.spec(draw, fam, integer(draw, 4, 9), offset=False, quad=False, cw=False) for _ in range(q)]
        eps = positive(draw)
        for t in subs:
            t['coef'] = 1.
            t['ydtype'] = 'float'
            if 't' in t:
                t['t'] = None
                t['y'] = np.minimum(t['y'], 1)
            if 'eps' in t:
                t['eps'] = eps
        n = sum(t['n'] for t in subs)
        d['s'] = {'kind': 'stacked', 'n': n, 'coef': 1., 'offset': None, 'quad': None, 'cw': None, 'subs': subs,
                  'ctor': True, 'shape': (n,), 'fam': fam}
        if not plain:
            d['s']['cw'] = loss.case_weights(draw, n)
        d['Xs'] = [gen_X(draw, t['n'], p) for t in subs]
        sh = (p, q)
    if plain:
        d['s']['coef'] = 1.
        if d['s'].get('t') is not None:
            d['s']['y'], d['s']['t'] = np.minimum(d['s']['y'], 1), None
    if d['s']['kind'] == 'poisson':
        d['s']['y'] = np.minimum(d['s']['y'], 10)
    if d['s']['offset'] is not None:
        d['s']['offset'] = d['s']['offset'] / 4
    d['shape'] = sh
    # penalty
    free = unpenalised and boolean(draw, 1, 3)
    if kind == 'lasso':
        w = np.ones(p) if boolean(draw) else np.array([positive(draw, 0.3, 3.) for _ in range(p)])
        if free:
            w[:integer(draw, 1, max(1, min(2, p - 1)))] = 0
        if boolean(draw, 1, 8):
            w[-1] = np.inf
        d['w'] = w
    elif kind in ('group', 'sgl'):
        g = partition(draw, p, 4)
        names = pick(draw, 'int', 'str')
        d['groups'] = ['g%d' % v if names == 'str' else v for v in g]
        labels = sorted(set(d['groups']))
        d['gw'] = {v: positive(draw, 0.3, 3.) for v in labels if boolean(draw)}
        if kind == 'sgl':
            d['w'] = np.ones(p) if boolean(draw) else np.array([positive(draw, 0.3, 3.) for _ in range(p)])
            if boolean(draw, 1, 4):
                d['w'] = d['w'] * np.array([pick(draw, 0, 1) for _ in range(p)])
            d['l1_alpha'] = pick(draw, 0.95, 0.5, 0.2, 1., 0.)
        if free:
            small = sorted(labels, key=lambda v: d['groups'].count(v))[0]
            if d['groups'].count(small) <= 3:
                d['gw'][small] = 0.
                if kind == 'sgl' and boolean(draw):
                    at = np.array([v == small for v in d['groups']])
                    d['w'] = np.where(at & (np.cumsum(at) <= 2), 0., d['w'])
    else:
        d['l1'], d['l2'] = positive(draw, 0.3, 3.), positive(draw, 0.3, 3.)
        d['l1_alpha'] = pick(draw, None, None, 0.95, 0.5)
        if boolean(draw, 1, 6):
            d[pick(draw, 'l1', 'l2')] = 0.
    d['enet'] = None
    if boolean(draw):
        d['enet'] = np.array([pick(draw, 0., 1., positive(draw)) for _ in range(int(np.prod(sh)))]).reshape(sh)
    return d


def gen_X(draw, n, p):
    X = design(draw, n, p)
    if boolean(draw, 1, 6):
        X[:, 0] = 1.
    return X


def dense_X(d):
    if d['form'] == 'normalize':
        X = d['X'] - d['X'].mean(0)
        s = X.std(0, ddof=1)
        return X / s
    return d['X']


def build_X(d):
    import regreg.api as rr
    if d['form'] == 'csr':
        return scipy.sparse.csr_matrix(d['X'])
    if d['form'] == 'normalize':
        return rr.normalize(d['X'].copy(), center=True, scale=True)
    return d['X'].copy()


def domain(d):
    if d['form'] == 'normalize':
        if (d['X'].std(0) < 1e-6).any():
            raise Reject('constant column')
    for X in d['Xs'] if d['kind'] == 'block' else [d['X']]:
        if not np.abs(X).max() > 1e-8:
            raise Reject('zero design')


class unbounded(object):
    """separated data have no unpenalised fit: the solver runs away and says so"""

    def __init__(self, d):
        self.d = d

    def __enter__(self):
        return self

    def __exit__(self, kind, value, tb):
        d = self.d
        if kind is ValueError and ('stepsize zero' in str(value) or 'must be positive' in str(value)) and free_vars(d).any():
            if any(t['kind'] not in ('gaussian', 'huber') for t in d['s'].get('subs') or [d['s']]):
                raise Reject('no unpenalised fit')


def build(d):
    """the path object"""
    with unbounded(d):
        return build_path(d)


def build_path(d):
    import importlib
    kind = d['kind']
    mod = importlib.import_module('regreg.paths.' + {'lasso': 'lasso', 'group': 'group_lasso',
                                                     'sgl': 'sparse_group_lasso'}.get(kind, 'sparse_group_block'))
    kw = {'alpha': d['alpha'], 'elastic_net_param': None if d['enet'] is None else d['enet'].copy()}
    s = d['s']
    if kind == 'lasso':
        args, klass = [d['w'].copy()], mod.lasso_path
    elif kind == 'group':
        args, klass = [list(d['groups'])], mod.group_lasso_path
        kw['weights'] = dict(d['gw'])
    elif kind == 'sgl':
        args, klass = [list(d['groups']), d['w'].copy()], mod.sparse_group_lasso_path
        kw.update(weights=dict(d['gw']), l1_alpha=d['l1_alpha'])
    else:
        args = [d['l1'], d['l2']]
        klass = mod.sparse_group_common_path if kind == 'common' else mod.sparse_group_block_path
        kw['l1_alpha'] = d['l1_alpha']
    X = [x.copy() for x in d['Xs']] if kind == 'block' else build_X(d)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if d['how'] == 'class':
            return klass(loss.build(s), X, *args, **kw)
        k = s['kind']
        if kind == 'block':
            fam, subs = s['fam'], s['subs']
            f = getattr(mod, 'stacked_' + fam)
            ys = [loss.y_of(t) for t in subs]
            if fam == 'cox':
                return f(X, ys, [t['c'].copy() for t in subs], *args, **kw)
            if fam in ('huber', 'huber_svm'):
                return f(X, ys, subs[0]['eps'], *args, **kw)
            return f(X, ys, *args, **kw)
        if k == 'stacked_common':
            return mod.multiresponse_gaussian(X, np.array([t['y'] for t in s['subs']]).T, *args, **kw)
        f = getattr(mod, k)
        y = loss.y_of(s)
        if k == 'cox':
            return f(X, y, s['c'].copy(), *args, **kw)
        if k in ('huber', 'huber_svm'):
            return f(X, y, s['eps'], *args, **kw)
        return f(X, y, *args, **kw)


# -- reference --------------------------------------------------------------------------------------

def linpred(d, b):
    if d['kind'] == 'block':
        return np.concatenate([X.dot(b[:, i]) for i, X in enumerate(d['Xs'])])
    return dense_X(d).dot(b)


def value_grad(d, b):
    """loss of the coefficients and its gradient"""
    eta = linpred(d, b)
    with np.errstate(all='ignore'):
        v, g, _ = loss.ref(d['s'], eta)
    if d['kind'] == 'block':
        G, i = np.zeros(d['shape']), 0
        for j, X in enumerate(d['Xs']):
            G[:, j] = X.T.dot(g[i:i + X.shape[0]])
            i += X.shape[0]
        return v, G
    return v, dense_X(d).T.dot(g)


def clipped(d, b):
    """beyond the predictors the library computes without clipping"""
    eta = linpred(d, b)
    off = 0 if d['s']['offset'] is None else np.abs(d['s']['offset']).max()
    return not np.isfinite(eta).all() or np.abs(eta).max() + off > loss.reach(d['s'])


def parts(d):
    """groups as (indices, l1 weights, group weight); lasso features are groups of one"""
    sh, kind = d['shape'], d['kind']
    ix = np.arange(int(np.prod(sh))).reshape(sh)
    if kind == 'lasso':
        return [(ix[i:i + 1], d['w'][i:i + 1], 0.) for i in range(sh[0])]
    if kind in ('common', 'block'):
        a, b = d['l1'], d['l2']
        if d['l1_alpha'] is not None:
            a, b = a * d['l1_alpha'], b * (1 - d['l1_alpha'])
        return [(ix[i], np.ones(sh[1]) * a, b) for i in range(sh[0])]
    out = []
    for g in sorted(set(d['groups'])):
        at = np.array([v == g for v in d['groups']])
        w = d['gw'].get(g, np.sqrt(at.sum()))
        if kind == 'group':
            out.append((ix[at], np.zeros(at.sum()), w))
        else:
            out.append((ix[at], d['w'][at] * d['l1_alpha'], w * (1 - d['l1_alpha'])))
    return out


def free_vars(d):
    f = np.zeros(int(np.prod(d['shape'])), bool)
    for ix, a, b in parts(d):
        if b == 0:
            f[ix[a == 0]] = True
    return f.reshape(d['shape'])


def enet(d, lam):
    e = np.ones(d['shape']) if d['enet'] is None else d['enet']
    return (1 - d['alpha']) * e * np.where(free_vars(d), 1., lam)


def penalty(d, b):
    v = 0.
    for ix, a, w in parts(d):
        x = b.ravel()[ix]
        v += sum(abs(t) * c for t, c in zip(x, a) if t != 0) + w * np.linalg.norm(x)
    return v


def objective(d, b, lam):
    return value_grad(d, b)[0] + 0.5 * (enet(d, lam) * b ** 2).sum() + lam * d['alpha'] * penalty(d, b)


def gradient(d, b, lam):
    return value_grad(d, b)[1] + enet(d, lam) * b


def left_out(d, b, cur, new):
    """features the sequential strong rule leaves out of the fit at the new multiplier"""
    g = gradient(d, b, cur).ravel()
    out = np.zeros(g.shape, bool)
    for ix, a, w in parts(d):
        out[ix] = size(g[ix], a, w) <= d['alpha'] * (2 * new - cur)
    return out.reshape(d['shape'])


def soft(x, t):
    with np.errstate(invalid='ignore'):
        return np.sign(x) * np.maximum(np.abs(x) - t, 0)


def size(g, a, w):
    """smallest t with the gradient in t times the subdifferential at zero; free coordinates left out"""
    if w == 0:
        k = a > 0
        return float((np.abs(g[k]) / a[k]).max()) if k.any() else 0.
    if not a.any():
        return float(np.linalg.norm(g)) / w
    lo, hi = 0., float(np.linalg.norm(g)) / w
    for _ in range(200):
        t = (lo + hi) / 2
        if np.linalg.norm(soft(g, t * a)) <= t * w:
            hi = t
        else:
            lo = t
    return hi


def kkt(d, b, g, lam, slack=0.):
    """optimality conditions of every group: (group, kind, violation in units of the gradient)"""
    out = []
    lam = lam * d['alpha']
    b = np.where(np.abs(b) <= 1e-9 * (1 + np.abs(b).max()), 0., b)      # rounding
    for k, (ix, a, w) in enumerate(parts(d)):
        x, u = b.ravel()[ix], g.ravel()[ix]
        free = (a == 0) if w == 0 else np.zeros(a.shape, bool)
        if free.any():
            out.append((k, 'unpenalised', float(np.abs(u[free]).max())))
        x, u, a = x[~free], u[~free], a[~free]
        if not x.size:
            continue
        n = np.linalg.norm(x)
        if n == 0:
            t = lam * (1 + slack)
            fin = np.isfinite(a)
            v = np.linalg.norm(soft(u[fin], t * a[fin])) - t * w if w else np.abs(soft(u[fin], t * a[fin])).max(initial=0.)
            out.append((k, 'inactive', float(max(v, 0.))))
        else:
            nz = x != 0
            r = np.where(nz, np.abs(u + lam * (np.where(np.isfinite(a), a, 1e6) * np.sign(x) + w * x / n)),
                         np.abs(soft(u, lam * (1 + slack) * np.where(np.isfinite(a), a, 1e6))))
            v = float(r.max())
            if n <= 1e-6 * (1 + np.abs(b).max()):       # not told from zero: either will do
                fin = np.isfinite(a)
                h = soft(u[fin], lam * (1 + slack) * a[fin])
                v = min(v, max(0., np.linalg.norm(h) - lam * (1 + slack) * w) if w else np.abs(h).max(initial=0.))
            out.append((k, 'active', v))
    return out


def lagrange_max(d, g):
    return max([size(g.ravel()[ix], a, w) for ix, a, w in parts(d)] + [0.]) / d['alpha']


def curvature(d, b):
    """a bound for the second derivatives of the loss near the coefficients"""
    s, eta = d['s'], linpred(d, b)
    w = loss.weights_of(s, None).max() * s['coef']
    subs = s.get('subs') or [s]
    c = 0.
    for t in subs:
        k = t['kind']
        trials = 1. if t.get('t') is None else t['t'].max()
        c = max(c, t['coef'] * loss.weights_of(t, None).max() * {
            'gaussian': 1., 'huber': 1. / t.get('eps', 1.), 'huber_svm': 1. / t.get('eps', 1.), 'cox': s['n'],
            'poisson': np.exp(min(eta.max(), 50)), 'cloglog': 10. * trials,
            'multinomial': np.array(t.get('y', 0)).max() * 3., 'multinomial_baseline': 1.}.get(k, trials))
    X = d['Xs'] if d['kind'] == 'block' else [dense_X(d)]
    return c * w * max(np.linalg.norm(x, 2) for x in X) ** 2
