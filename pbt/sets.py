"""Reference descriptions of convex sets used as constraints."""
import numpy as np

from .gens import pick, boolean, integer, positive, vec, arr, quad, partition, normal
from .core import Violation
from . import oracle as O
from .pen import iq, qval, qsum, same, full_weights, EXTRA

CONES = ['nonnegative', 'nonpositive', 'zero', 'zero_constraint',
         'l2_epigraph', 'l2_epigraph_polar', 'l1_epigraph', 'l1_epigraph_polar',
         'linf_epigraph', 'linf_epigraph_polar']
GROUP = ['group_lasso_epigraph', 'group_lasso_epigraph_polar',
         'group_lasso_dual_epigraph', 'group_lasso_dual_epigraph_polar']
SVD = ['nuclear_norm_epigraph', 'nuclear_norm_epigraph_polar',
       'operator_norm_epigraph', 'operator_norm_epigraph_polar']
LIN = ['projection', 'projection_complement']
POLAR = {'nonnegative': 'nonpositive', 'nonpositive': 'nonnegative', 'zero': 'zero_constraint',
         'zero_constraint': 'zero', 'projection': 'projection_complement', 'projection_complement': 'projection'}
for _a in CONES[4:] + GROUP + SVD:
    POLAR[_a] = _a[:-6] if _a.endswith('_polar') else _a + '_polar'
ALL = CONES + GROUP + SVD + LIN


def spec(draw, cls, own='any', offset=True, zero_w=False):
    s = {'cls': cls, 'offset': None, 'quad': None}
    if cls in GROUP:
        k = integer(draw, 1, 6)
        s['groups'] = partition(draw, k)
        s['gweights'] = {}
        for g in sorted(set(s['groups'])):
            m = pick(draw, 'default', 'pos', 'pos', 'zero')
            if m == 'pos':
                s['gweights'][g] = positive(draw)
            elif m == 'zero' and zero_w:
                s['gweights'][g] = 0.
        n = k + 1
    elif cls in SVD:
        s['mshape'] = (integer(draw, 1, 4), integer(draw, 1, 4))
        n = s['mshape'][0] * s['mshape'][1] + 1
    elif cls in LIN:
        n = integer(draw, 1, 6)
        k = integer(draw, 1, n)
        if boolean(draw, 1, 3):
            s['basis'] = np.identity(n)[:k]
        else:
            s['basis'] = np.linalg.qr(normal(draw, (n, k)))[0].T.copy()
    else:
        n = integer(draw, 2 if 'epigraph' in cls else 1, 7)
    s['n'] = n
    if offset and boolean(draw, 2, 5):
        s['offset'] = vec(draw, n)
    if own is not None and boolean(draw, 2, 5):
        s['quad'] = quad(draw, n, 'zero' if own == 'linear' else 'any')
    return s


def build(s, **extra):
    import regreg.api as R
    from regreg.atoms import cones, group_lasso, svd_norms, linear_constraints
    kw = dict(EXTRA)
    if s['offset'] is not None:
        kw['offset'] = s['offset'].copy()
    if s['quad'] is not None:
        kw['quadratic'] = iq(s['quad'])
    kw.update(extra)
    c = s['cls']
    if c in CONES:
        return getattr(cones, c)(s['n'], **kw)
    if c in GROUP:
        return getattr(group_lasso, c)(list(s['groups']), weights=dict(s['gweights']), **kw)
    if c in SVD:
        return getattr(svd_norms, c)(s['mshape'], **kw)
    return getattr(linear_constraints, c)(s['n'], s['basis'].copy(), **kw)


def distance(s):
    """x -> a non-negative measure of infeasibility, zero exactly on the cone"""
    c = s['cls']
    if c == 'nonnegative':
        return lambda x: max(0., -x.min())
    if c == 'nonpositive':
        return lambda x: max(0., x.max())
    if c == 'zero':
        return lambda x: 0.
    if c == 'zero_constraint':
        return lambda x: np.abs(x).max()
    if c == 'projection':
        B = s['basis']
        return lambda x: np.linalg.norm(x - B.T.dot(B.dot(x)))
    if c == 'projection_complement':
        B = s['basis']
        return lambda x: np.linalg.norm(B.dot(x))
    pol = c.endswith('_polar')
    base = c[:-6] if pol else c
    if base in ('l1_epigraph', 'linf_epigraph', 'l2_epigraph'):
        g = {'l1': O.L1(), 'linf': O.Sup(), 'l2': O.L2()}[base.split('_')[0]]
        m = lambda x: x
    elif base in GROUP:
        g = O.Group(s['groups'], full_weights(s))
        if 'dual' in base:
            g = O.GroupDual(s['groups'], full_weights(s))
        m = lambda x: x
    else:
        g = O.Nuclear() if 'nuclear' in base else O.Operator()
        m = lambda x: x.reshape(s['mshape'])
    f = (lambda x: g.polar(m(x))) if pol else (lambda x: g.h(m(x)))
    clean = g.polar_clean if pol else g.clean
    feas = g.polar_feas if pol else g.feas
    sign = -1. if pol else 1.

    def d(x):
        y = x[:-1]
        tol = 1e-9 * (1 + np.abs(x).max())
        if not feas(y, tol):
            return np.abs(y - clean(y, np.inf)).max()
        return max(0., f(clean(y, tol)) - sign * x[-1])
    return d


def unit(s):
    """scale of the epigraph functional at unit entries"""
    d, n = distance(s), s['n']
    out = 1.
    e = np.ones(n)
    e[-1] = 0
    for x in (e,):
        v = d(x)
        if np.isfinite(v):
            out = max(out, v)
    return out


def check_projection(s, z, q, rtol=1e-8):
    """z minimises q + own quadratic over the set: Moreau certificate."""
    z = np.asarray(z, float)
    if z.shape != (s['n'],):
        raise Violation('%s: shape %s' % (s['cls'], z.shape))
    if not np.all(np.isfinite(z)):
        raise Violation('%s: non-finite projection %s' % (s['cls'], z))
    c, l = qsum(s['n'], s['quad'], q)
    v = -l / c
    off = np.zeros(s['n']) if s['offset'] is None else s['offset']
    w, r = z - off, v - z
    sc = 1. + np.abs(v).max() + np.abs(z).max() + np.abs(off).max()
    ps = dict(s, cls=POLAR[s['cls']])
    d1, d2 = distance(s)(w), distance(ps)(r)
    if not d1 <= rtol * sc * unit(s):
        raise Violation('%s: projection %s is not in the set (by %.3g)' % (s['cls'], w, d1))
    if not d2 <= rtol * sc * unit(ps):
        raise Violation('%s: residual %s is not in the polar cone (by %.3g)' % (s['cls'], r, d2))
    ip = (w * r).sum()
    if not abs(ip) <= rtol * s['n'] * sc ** 2:
        raise Violation('%s: projection %s and residual %s are not orthogonal (%.3g)' % (s['cls'], w, r, ip))
    moved, nonzero = np.abs(r).max() > 1e-9 * sc, np.abs(w).max() > 1e-9 * sc
    return v, ('partial' if moved and nonzero else 'apex' if moved else 'inside')
