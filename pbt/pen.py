"""
Specifications (plain data) of penalties, their regreg objects and their
reference gauges.
"""
import numpy as np

from . import oracle as O
from .gens import pick, boolean, integer, positive, vec, arr, quad, partition, real
from .core import Violation, Reject

VEC = ['l1norm', 'supnorm', 'l2norm', 'positive_part', 'constrained_max',
       'constrained_positive_part', 'max_positive_part']
REF = {'l1norm': O.L1, 'supnorm': O.Sup, 'l2norm': O.L2, 'positive_part': O.PositivePart,
       'constrained_max': O.ConstrainedMax,
       'constrained_positive_part': O.ConstrainedPositivePart,
       'max_positive_part': O.MaxPositivePart}
DUAL = {'l1norm': 'supnorm', 'supnorm': 'l1norm', 'l2norm': 'l2norm',
        'positive_part': 'constrained_max', 'constrained_max': 'positive_part',
        'constrained_positive_part': 'max_positive_part',
        'max_positive_part': 'constrained_positive_part',
        'wl1norm': 'wsupnorm', 'wsupnorm': 'wl1norm',
        'slope': 'slope_conjugate', 'slope_conjugate': 'slope',
        'group_lasso': 'group_lasso_dual', 'group_lasso_dual': 'group_lasso',
        'sparse_group_lasso': 'sparse_group_lasso_dual',
        'sparse_group_lasso_dual': 'sparse_group_lasso'}


def weights(draw, n, zero=True, inf=True):
    """Non-negative weights, some exactly 0 or infinite."""
    mode = pick(draw, 'pos', 'pos', 'ones', 'some', 'extreme')
    if mode == 'ones':
        return np.ones(n)
    w = np.array([positive(draw) for _ in range(n)])
    if mode in ('some', 'extreme'):
        for i in range(n):
            k = integer(draw, 0, 5 if mode == 'some' else 2)
            if k == 0 and zero:
                w[i] = 0.
            elif k == 1 and inf:
                w[i] = np.inf
    return w


def par(draw, form):
    """A multiplier or bound; 0 is legal and sometimes drawn."""
    if boolean(draw, 1, 12):
        return 0.
    return positive(draw, 0.02, 20.)


def spec(draw, cls, form, n=None, own='any', offset=True, w=None, zero_par=True):
    """own: 'any' (own quadratic, maybe curved), 'linear' (curvature 0), None"""
    n = n or integer(draw, 1, 7)
    s = {'cls': cls, 'n': n, 'form': form,
         'par': par(draw, form) if zero_par else positive(draw, 0.02, 20.),
         'offset': None, 'quad': None}
    if cls in ('wl1norm', 'wsupnorm'):
        s['weights'] = weights(draw, n) if w is None else w(draw, n)
    elif cls in ('slope', 'slope_conjugate'):
        if boolean(draw, 1, 3):
            s['weights'] = np.sort([float(integer(draw, 1, 3)) for _ in range(n)])[::-1]
        else:
            s['weights'] = np.sort([positive(draw) for _ in range(n)])[::-1]
    elif cls in ('group_lasso', 'group_lasso_dual', 'sparse_group_lasso', 'sparse_group_lasso_dual'):
        names = pick(draw, 'int', 'int', 'str', 'neg')
        lab = partition(draw, n)
        f = {'int': lambda k: k, 'str': lambda k: 'g%s' % 'cab'[k % 3] + str(k), 'neg': lambda k: 7 - 5 * k}[names]
        s['groups'] = [f(k) for k in lab]
        s['gweights'] = {}
        for g in sorted(set(s['groups'])):
            k = pick(draw, 'default', 'pos', 'pos', 'zero')
            if k == 'pos':
                s['gweights'][g] = positive(draw)
            elif k == 'zero' and 'sparse' not in cls and w is None:
                s['gweights'][g] = 0.
        if 'sparse' in cls:
            s['l1w'] = np.array([pick(draw, 0., 1., positive(draw)) for _ in range(n)])
    if offset and boolean(draw, 2, 5):
        s['offset'] = vec(draw, n)
    if own is not None and boolean(draw, 2, 5):
        s['quad'] = quad(draw, n, 'zero' if own == 'linear' else 'any')
    return s


def full_weights(s):
    """group -> weight with the documented default sqrt(size)"""
    g = np.asarray(s['groups'])
    return dict((k, s['gweights'].get(k, np.sqrt((g == k).sum()))) for k in sorted(set(s['groups'])))


def iq(q):
    from regreg.api import identity_quadratic
    return identity_quadratic(q[0], _c(q[1]), _c(q[2]), q[3])


def _c(a):
    return a.copy() if isinstance(a, np.ndarray) else a


EXTRA = {}              # more arguments of constructors (`initial`), used by C25


def build(s, form=None, offset='spec', quadratic='spec', par='spec'):
    import regreg.api as R
    from regreg.atoms import weighted_atoms as W, slope as S
    from regreg.atoms import group_lasso as G, sparse_group_lasso as SG
    kw = dict(EXTRA, **{s['form']: s['par']})
    if s['offset'] is not None:
        kw['offset'] = s['offset'].copy()
    if s['quad'] is not None:
        kw['quadratic'] = iq(s['quad'])
    c = s['cls']
    if c in REF:
        return getattr(R, c)(s['n'], **kw)
    if c in ('wl1norm', 'wsupnorm'):
        return getattr(W, c[1:])(s['weights'].copy(), **kw)
    if c in ('slope', 'slope_conjugate'):
        return getattr(S, c)(s['weights'].copy(), **kw)
    if c in ('group_lasso', 'group_lasso_dual'):
        return getattr(G, c)(list(s['groups']), weights=dict(s['gweights']), **kw)
    if c in ('sparse_group_lasso', 'sparse_group_lasso_dual'):
        return getattr(SG, c)(list(s['groups']), s['l1w'].copy(), weights=dict(s['gweights']), **kw)
    raise ValueError(c)


def quad_shape(q, sh):
    """the terms of a quadratic as arrays of another shape"""
    if q is None:
        return None
    return [np.reshape(t, sh) if isinstance(t, np.ndarray) else t for t in q]


def build_matrix(s, sh):
    """an unweighted penalty of matrices instead of vectors"""
    import regreg.api as R
    kw = {s['form']: s['par']}
    if s['offset'] is not None:
        kw['offset'] = s['offset'].reshape(sh).copy()
    if s['quad'] is not None:
        kw['quadratic'] = iq(quad_shape(s['quad'], sh))
    return getattr(R, s['cls'])(sh, **kw)


def check_matrix_prox(s, sh, q):
    a = build_matrix(s, sh)
    qm = quad_shape(q, sh)
    z = np.asarray(a.proximal(iq(qm)))
    if z.shape != sh:
        raise Violation('proximal point has shape %s, argument has shape %s' % (z.shape, sh))
    _, kind = check_prox(s, gauge(s), z.reshape(-1), q)
    g = gauge(s)
    x = z.reshape(-1)
    v = a.nonsmooth_objective(z, check_feasibility=True)
    ref = value(s, g, x, tol=1e-6)
    same('value at the proximal point', v, ref, scale=1 + abs(ref) + np.abs(x).max() ** 2 if np.isfinite(ref) else 1)
    return None if kind == 'free' else '%s %s' % (s['cls'], kind)


def gauge(s):
    c = s['cls']
    if c in REF:
        return REF[c]()
    if c == 'wl1norm':
        return O.WeightedL1(s['weights'])
    if c == 'wsupnorm':
        return O.WeightedSup(s['weights'])
    if c == 'slope':
        return O.Slope(s['weights'])
    if c == 'slope_conjugate':
        return O.SlopeDual(s['weights'])
    if c == 'group_lasso':
        return O.Group(s['groups'], full_weights(s))
    if c == 'group_lasso_dual':
        return O.GroupDual(s['groups'], full_weights(s))
    if c == 'sparse_group_lasso':
        return O.SparseGroup(s['groups'], full_weights(s), s['l1w'])
    if c == 'sparse_group_lasso_dual':
        return O.SparseGroupDual(s['groups'], full_weights(s), s['l1w'])
    raise ValueError(c)


def qval(q, x):
    """value of the quadratic [coef, center, linear, constant] at x"""
    if q is None:
        return 0.
    c, ctr, lin, k = q
    r = x - (0 if ctr is None else ctr)
    return (c or 0) / 2. * (r ** 2).sum() + ((0 if lin is None else lin) * x).sum() + (k or 0)


def qsum(shape, *qs):
    """curvature and minimiser of a sum of quadratics (curvature > 0)"""
    c, l = 0., np.zeros(shape)
    for q in qs:
        if q is None:
            continue
        c += q[0] or 0
        if q[1] is not None:
            l = l - (q[0] or 0) * q[1]
        if q[2] is not None:
            l = l + q[2]
    return c, l


def value(s, g, x, tol=1e-9):
    """reference value of the penalty object at x (extended real, feasibility checked)"""
    y = x if s['offset'] is None else x - s['offset']
    sc = tol * (1 + np.abs(x).max() + np.abs(y).max())
    if s['form'] == 'lagrange':
        h = s['par'] * g.h(g.clean(y, sc)) if g.feas(y, sc) else np.inf
    else:
        h = 0. if g.feas(y, sc) and g.h(g.clean(y, sc)) <= s['par'] * (1 + 1e-9) + sc else np.inf
    return h + qval(s['quad'], x)


def check_prox(s, g, z, q, rtol=1e-8):
    """Raise unless z minimises q + own quadratic + penalty; return a label."""
    z = np.asarray(z)
    n = q[1].shape if isinstance(q[1], np.ndarray) else q[2].shape
    if z.shape != n:
        raise Violation('proximal point has shape %s, argument has shape %s' % (z.shape, n))
    c, l = qsum(n, s['quad'], q)
    v = -l / c
    off = 0 if s['offset'] is None else s['offset']
    kw = {s['form']: s['par']}
    bad = O.certificate(g, z - off, v - off, c, rtol=rtol, **kw)
    if bad:
        raise Violation('%s (%s form): %s' % (s['cls'], s['form'], bad))
    sc = 1e-9 * (1 + np.abs(v).max())
    moved = np.abs(z - v).max() > sc
    shrunk = np.abs(z - off).max() <= sc
    return v, ('partial' if moved and not shrunk else 'zero' if shrunk else 'free')


def same(what, a, b, rtol=1e-8, scale=None, atol=0.):
    """Raise unless the two (arrays of) numbers agree."""
    a = np.asarray(a, float)
    b = np.asarray(b, float)
    if a.shape != b.shape:
        raise Violation('%s: shape %s, expected %s' % (what, a.shape, b.shape))
    fa, fb = np.isfinite(a), np.isfinite(b)
    if not np.array_equal(fa, fb) or not np.array_equal(a[~fa], b[~fb]):
        raise Violation('%s: got %s, expected %s' % (what, a, b))
    if not fa.any():
        return
    if scale is None:
        scale = 1. + np.abs(b[fb]).max()
    d = np.abs(a[fa] - b[fb])
    if not np.all(d <= rtol * scale + atol):
        raise Violation('%s: got %s, expected %s (difference %.3g)' % (what, a, b, d.max()))
