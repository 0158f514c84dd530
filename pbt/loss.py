"""
Specifications (plain data) of saturated losses, their regreg objects and an
independent reference: value, gradient and Hessian from the likelihood.
"""
import numpy as np
import scipy.special as sc

from .gens import pick, boolean, integer, positive, vec, arr, normal, real
from . import pen
from .core import Violation

SCALAR = ['gaussian', 'logistic', 'probit', 'cloglog', 'poisson', 'huber', 'huber_svm']
BINOM = ['logistic', 'probit', 'cloglog']
MATRIX = ['multinomial', 'multinomial_baseline', 'stacked_common']
HESS = ['gaussian', 'logistic', 'probit', 'cloglog', 'poisson']
# linear predictors further out are clipped by the library ("to prevent overflow")
REACH = {'gaussian': 100., 'logistic': 300., 'probit': 19., 'cloglog': 4.9, 'poisson': 15., 'huber': 100.,
         'huber_svm': 100., 'cox': 300., 'multinomial': 49., 'multinomial_baseline': 49.}


def response(draw, kind, n):
    d = {}
    if kind == 'gaussian':
        d['y'] = vec(draw, n, pick(draw, 'grid', 'cont', 'big'))
    elif kind == 'huber':
        d['y'] = vec(draw, n, pick(draw, 'grid', 'cont', 'big'))
        d['eps'] = positive(draw)
    elif kind == 'huber_svm':
        d['y'] = np.array([integer(draw, 0, 1) for _ in range(n)])
        d['eps'] = positive(draw)
    elif kind in BINOM:
        if boolean(draw):
            d['t'] = None
            d['y'] = np.array([integer(draw, 0, 1) for _ in range(n)])
        else:
            d['t'] = np.array([integer(draw, 1, 6) for _ in range(n)])
            d['y'] = np.array([integer(draw, 0, int(t)) for t in d['t']])
    elif kind == 'poisson':
        d['y'] = np.array([pick(draw, 0, 0, 1, 2, 3, 10, 57) for _ in range(n)])
    elif kind in ('multinomial', 'multinomial_baseline'):
        J = integer(draw, 2, 4)
        d['J'] = J
        y = np.zeros((n, J), int)
        if boolean(draw):
            for i in range(n):
                y[i, integer(draw, 0, J - 1)] = 1
        else:
            for i in range(n):
                y[i] = [integer(draw, 0, 4) for _ in range(J)]
                if not y[i].any():
                    y[i, 0] = 1
        d['y'] = y
    elif kind == 'cox':
        m = pick(draw, 'ties', 'ties', 'grid', 'cont')
        if m == 'cont':
            d['y'] = np.random.RandomState(integer(draw, 0, 10 ** 6)).permutation(n) + 0.5
        else:
            d['y'] = np.array([integer(draw, 1, 3 if m == 'ties' else n + 1) for _ in range(n)]) * 1.
        d['c'] = np.array([pick(draw, 1, 1, 0) for _ in range(n)])
    d['ydtype'] = pick(draw, 'float', 'int') if kind not in ('gaussian', 'huber', 'cox') else 'float'
    return d


def case_weights(draw, n):
    k = pick(draw, 'none', 'pos', 'int', 'some')
    if k == 'none':
        return None
    if k == 'int':
        return np.array([integer(draw, 0, 3) for _ in range(n)])
    w = np.array([positive(draw) for _ in range(n)])
    if k == 'some':
        w = w * np.array([pick(draw, 0, 1, 1) for _ in range(n)])
    return w


def spec(draw, kind=None, n=None, offset=True, quad=True, cw=True, kinds=None):
    kind = kind or pick(draw, *(kinds or SCALAR + ['cox']))
    n = n or integer(draw, 1, 7)
    s = {'kind': kind, 'n': n, 'coef': 1., 'offset': None, 'quad': None, 'cw': None}
    if kind in ('stacked', 'stacked_common'):
        L = integer(draw, 1, 3)
        if kind == 'stacked':
            sub_kind = pick(draw, *(SCALAR + ['cox', 'mixed']))
            s['ctor'] = sub_kind != 'mixed' and boolean(draw)
        else:
            sub_kind = pick(draw, *(SCALAR + ['mixed']))
            s['ctor'] = sub_kind not in ('mixed', 'probit', 'cloglog') and boolean(draw)
        subs = []
        for _ in range(L):
            k = sub_kind if sub_kind != 'mixed' else pick(draw, *SCALAR)
            m = n if kind == 'stacked_common' else integer(draw, 1, 4)
            plain = s['ctor']
            subs.append(spec(draw, k, m, offset=not plain, quad=False, cw=not plain))
            if plain:
                subs[-1]['ydtype'] = 'float'
        if s['ctor']:                      # the class methods share these among the parts
            eps, coef = positive(draw), pick(draw, 1., 1., positive(draw))
            use_t = any(d.get('t') is not None for d in subs)
            for d in subs:
                d['coef'] = coef
                if 'eps' in d:
                    d['eps'] = eps
                if 't' in d and use_t and d['t'] is None:
                    d['t'] = np.ones(d['n'], int)
        s['subs'] = subs
        if kind == 'stacked':
            s['n'] = n = sum(d['n'] for d in subs)
    else:
        s.update(response(draw, kind, n))
    s['shape'] = shape(s)
    if not s.get('ctor'):
        s['coef'] = pick(draw, 1., 1., positive(draw))
    if offset and boolean(draw, 1, 2):
        s['offset'] = limit(s, arr(draw, s['shape'], 'cont') * 2) / 2
        if boolean(draw, 1, 12):
            s['offset'] = s['offset'] * 0
    if quad and boolean(draw, 1, 4):
        s['quad'] = [pick(draw, 0., positive(draw)), arr(draw, s['shape'], 'grid'),
                     pick(draw, 0, arr(draw, s['shape'], 'grid')), pick(draw, 0, 1.5)]
    if cw and boolean(draw, 1, 2):
        s['cw'] = case_weights(draw, n)
    return s


def shape(s):
    if s['kind'] == 'multinomial':
        return (s['n'], s['J'])
    if s['kind'] == 'multinomial_baseline':
        return (s['n'], s['J'] - 1)
    if s['kind'] == 'stacked_common':
        return (s['n'], len(s['subs']))
    return (s['n'],)


def reach(s):
    if 'subs' in s:
        return min(reach(d) for d in s['subs'])
    return REACH[s['kind']] - (0 if s['offset'] is None else np.abs(s['offset']).max()) if s['kind'] in REACH else 10.


def limit(s, eta):
    """scale a linear predictor so that no part of the loss clips it"""
    r = reach(s) - (0 if s['offset'] is None or 'subs' not in s else np.abs(s['offset']).max())
    r = max(r, 0.2)
    m = np.abs(eta).max() if eta.size else 0
    return eta * (r / m) if m > r else eta


def gen_eta(draw, s):
    k = pick(draw, 'vec', 'vec', 'far')
    if k == 'far':
        return limit(s, arr(draw, s['shape'], 'cont') * 200)
    return limit(s, arr(draw, s['shape'], pick(draw, 'grid', 'cont', 'sparse', 'const')))


def y_of(s):
    y = s['y']
    return y.astype(int) if s['ydtype'] == 'int' else np.array(y, float)


def build(s, initial=None):
    import regreg.smooth.glm as G
    import regreg.smooth.mglm as M
    kw = dict(coef=s['coef'], offset=None if s['offset'] is None else s['offset'].copy(),
              quadratic=pen.iq(s['quad']) if s['quad'] is not None else None,
              case_weights=None if s['cw'] is None else s['cw'].copy(), initial=initial)
    k = s['kind']
    sh = s['shape']
    if k in ('stacked', 'stacked_common'):
        klass = G.stacked_loglike if k == 'stacked' else M.stacked_common_loglike
        if s.get('ctor'):
            kw['coef'] = s['subs'][0]['coef']
            ys = [y_of(d) for d in s['subs']]
            c = s['subs'][0]['kind']
            f = getattr(klass, c)
            if c in BINOM:
                t = None if s['subs'][0]['t'] is None else [d['t'].copy() for d in s['subs']]
                return f(ys, trials=t, **kw)
            if c in ('huber', 'huber_svm'):
                return f(None, ys, s['subs'][0]['eps'], **kw)
            if c == 'cox':
                return f(None, ys, [d['c'].copy() for d in s['subs']], **kw)
            return f(ys, **kw)
        return klass([build(d) for d in s['subs']], **kw)
    y = y_of(s)
    if k == 'gaussian':
        return G.gaussian_loglike(sh, y, **kw)
    if k == 'poisson':
        return G.poisson_loglike(sh, y, **kw)
    if k in BINOM:
        return getattr(G, k + '_loglike')(sh, y, trials=None if s['t'] is None else s['t'].copy(), **kw)
    if k == 'huber':
        return G.huber_loss(sh, y, s['eps'], **kw)
    if k == 'huber_svm':
        return G.huber_svm(sh, y, s['eps'], **kw)
    if k == 'cox':
        return G.cox_loglike(sh, y, s['c'].copy(), **kw)
    return getattr(M, k + '_loglike')(sh, y, **kw)


def weights_of(s, cw):
    w = np.ones(s['n'])
    if s['cw'] is not None:
        w = w * s['cw']
    if cw is not None:
        w = w * cw
    return w


def per_case(s, x):
    """value and derivatives of every case's negative log-likelihood"""
    k, y = s['kind'], np.array(s['y'], float)
    if k == 'gaussian':
        r = x - y
        return r ** 2 / 2, r, np.ones_like(r)
    if k == 'poisson':
        return np.exp(x) - y * x, np.exp(x) - y, np.exp(x)
    if k == 'huber':
        r, e = x - y, s['eps']
        a = np.abs(r)
        return np.where(a <= e, r ** 2 / (2 * e), a - e / 2), np.clip(r / e, -1, 1), None
    if k == 'huber_svm':
        e, sg = s['eps'], 2 * y - 1
        m = 1 - sg * x                       # hinge argument
        v = np.where(m <= 0, 0, np.where(m <= e, m ** 2 / (2 * e), m - e / 2))
        return v, -sg * np.clip(m / e, 0, 1), None
    t = np.ones_like(y) if s['t'] is None else np.array(s['t'], float)
    f = t - y
    if k == 'logistic':
        return (y * np.logaddexp(0, -x) + f * np.logaddexp(0, x), t * sc.expit(x) - y,
                t * sc.expit(x) * sc.expit(-x))
    if k == 'probit':
        lp, lq = sc.log_ndtr(x), sc.log_ndtr(-x)
        lf = -x ** 2 / 2 - 0.5 * np.log(2 * np.pi)
        return (-y * lp - f * lq, -y * np.exp(lf - lp) + f * np.exp(lf - lq), t * np.exp(2 * lf - lp - lq))
    if k == 'cloglog':
        e = np.exp(x)
        lp, lq, lf = np.log(-np.expm1(-e)), -e, x - e
        return (-y * lp - f * lq, -y * np.exp(lf - lp) + f * np.exp(lf - lq), t * np.exp(2 * lf - lp - lq))
    raise AssertionError(k)


def cox_ref(y, c, w, x):
    """Breslow partial likelihood with case weights, in the obvious O(n^3) way"""
    n = y.shape[0]
    v, g, H = 0., np.zeros(n), np.zeros((n, n))
    keep = w > 0
    for i in range(n):
        if c[i] and keep[i]:
            risk = keep & (y >= y[i])
            m = x[risk].max()
            e = np.where(risk, w * np.exp(np.where(risk, x, m) - m), 0.)
            p = e / e.sum()
            v += w[i] * (np.log(e.sum()) + m - x[i])
            g += w[i] * p
            g[i] -= w[i]
            H += w[i] * (np.diag(p) - np.outer(p, p))
    return v, g, H


def ref(s, eta, cw=None):
    """value, gradient (shape of eta), Hessian (n diagonal, matrix for cox, None)"""
    x = eta if s['offset'] is None else eta - s['offset']
    w = weights_of(s, cw)
    k, C = s['kind'], s['coef']
    if s.get('ctor'):
        C = s['subs'][0]['coef'] ** 0        # coef goes to the parts only
    if k == 'cox':
        v, g, H = cox_ref(s['y'], s['c'], w, x)
        return C * v, C * g, C * H
    if k == 'stacked':
        i, v, g = 0, 0., np.zeros(s['n'])
        for d in s['subs']:
            sl = slice(i, i + d['n'])
            a, b, _ = ref(d, x[sl], w[sl])
            v, g[sl] = v + a, b
            i += d['n']
        return C * v, C * g, None
    if k == 'stacked_common':
        v, g = 0., np.zeros(s['shape'])
        for j, d in enumerate(s['subs']):
            a, b, _ = ref(d, x[:, j], w)
            v, g[:, j] = v + a, b
        return C * v, C * g, None
    if k in ('multinomial', 'multinomial_baseline'):
        y = np.array(s['y'], float)
        full = x if k == 'multinomial' else np.hstack([x, np.zeros((s['n'], 1))])
        ls = full - sc.logsumexp(full, axis=1)[:, None]
        t = y.sum(1)
        v = -(w[:, None] * y * ls).sum()
        g = w[:, None] * (t[:, None] * np.exp(ls) - y)
        return C * v, C * g[:, :s['shape'][1]], None
    a, b, h = per_case(s, x)
    return C * (w * a).sum(), C * w * b, None if h is None else C * w * h


def saturated(s):
    """log-likelihood of the saturated model: the constant the loss carries"""
    k, y = s['kind'], np.array(s.get('y', 0.), float)
    if k in BINOM:
        t = np.ones_like(y) if s['t'] is None else s['t'] * 1.
        return s['coef'] * (sc.xlogy(y, y / t) + sc.xlogy(t - y, 1 - y / t)).sum()
    if k == 'poisson':
        return s['coef'] * (sc.xlogy(y, y) - y).sum()
    if k in ('multinomial', 'multinomial_baseline'):
        return s['coef'] * sc.xlogy(y, y / y.sum(1)[:, None]).sum()
    return 0.


def scale_of(s, eta, cw=None):
    x = eta if s['offset'] is None else eta - s['offset']
    if 'subs' in s:
        parts, i = [], 0
        for j, d in enumerate(s['subs']):
            if s['kind'] == 'stacked':
                parts.append(scale_of(d, x[i:i + d['n']]))
                i += d['n']
            else:
                parts.append(scale_of(d, x[:, j]))
        r = sum(parts)
    else:
        y = np.abs(np.array(s['y'], float)).max()
        m = np.abs(x).max()
        r = (1 + m) * (1 + y)
        if s.get('t') is not None:
            r = r * (1 + np.abs(s['t']).max())
        if s['kind'] == 'poisson':
            r = r + np.exp(min(x.max(), 700))
        elif s['kind'] == 'cloglog':
            r = r * np.exp(max(x.max(), 0))
        elif s['kind'] in ('gaussian', 'huber'):
            r = r ** 2 / min(1, s.get('eps', 1))
        elif s['kind'] == 'probit':
            r = r * (1 + m)
        elif s['kind'] == 'huber_svm':
            r = r * (1 + 1 / s['eps'])
    w = weights_of(s, cw)
    return (r * s['n'] * (1 + w.max()) + 1) * (1 + s['coef'])


def same(what, a, b, scale, tol=1e-9):
    pen.same(what, a, b, rtol=tol, scale=scale)


def check(s, obj, eta, cw=None, label='', ref_out=None, tol=1e-9):
    """all evaluation modes against the reference; returns (value, gradient)"""
    v, g, h = ref_out or ref(s, eta, cw)
    S = scale_of(s, eta, cw)
    e = eta.copy()
    kw = {} if cw is None else {'case_weights': cw.copy()}
    f1, g1 = obj.smooth_objective(e, 'both', **kw)
    f2 = obj.smooth_objective(e, 'func', **kw)
    g2 = obj.smooth_objective(e, 'grad', **kw)
    same(label + 'value', f1, v, S, tol)
    same(label + 'value only', f2, v, S, tol)
    same(label + 'gradient', g1, g, S, tol)
    same(label + 'gradient only', g2, g, S, tol)
    if not np.array_equal(e, eta):
        raise Violation(label + 'argument changed')
    if cw is not None and not np.array_equal(kw['case_weights'], cw):
        raise Violation(label + 'case weights passed in were changed')
    return v, g
