"""C24: low-level kernels."""
from fractions import Fraction as Fr
import numpy as np

from .core import prop, sub, Violation, Reject
from .gens import pick, boolean, integer, positive, vec, real, seed
from . import pen, c07, oracle as O

prop('C24',
     rule='Arrays (generic, on a grid so with ties, sparse, constant, sorted, reversed, tiny, large, long with seeded '
          'values), weights with zeros, slopes and target levels (interior, exactly at a knot, zero, beyond all '
          'knots) are generated.  Oracle: the defining equation evaluated in exact rational arithmetic; optimality '
          'conditions of the projection in exact rational arithmetic; the max-min formula of isotonic regression.  '
          'Arguments are compared bit by bit before and after, and may be read-only.  Non-trivial when the root or '
          'the projection is not at an end point (or the regression merges blocks).',
     assumptions=['the _isotonic.pyx kernel is not compiled by the build and is not covered',
                  'backward error 1e-11 relative to the size of the terms'])


def values(draw, nonneg=True, nmax=9, lo=1):
    k = pick(draw, 'vec', 'vec', 'vec', 'long', 'ties', 'sorted', 'rev', 'mixedscale')
    if k in ('long', 'ties', 'mixedscale') and lo == 1 and boolean(draw, 2, 3):
        n = integer(draw, 1, 200)
        r = np.random.RandomState(seed(draw))
        x = r.standard_normal(n)
        if k == 'ties':
            x = np.round(x)
        elif k == 'mixedscale':
            x = x * 10. ** r.randint(-8, 5, n)
    else:
        x = vec(draw, integer(draw, lo, nmax))
        if k == 'ties':
            x = np.round(x)
    if nonneg:
        x = np.abs(x)
    if k == 'sorted':
        x = np.sort(x)
    elif k == 'rev':
        x = np.sort(x)[::-1].copy()
    return x


def level(draw, x, w, slope):
    """a target: at a knot, in between, zero, or beyond the value at 0"""
    f = lambda t: float((w * np.maximum(x - w * t, 0)).sum() - slope * t)
    k = pick(draw, 'knot', 'frac', 'frac', 'zero', 'full', 'beyond', 'free')
    knots = np.where(w > 0, x / np.where(w > 0, w, 1), 0)
    if k == 'knot':
        return f(float(knots[integer(draw, 0, len(x) - 1)]))
    if k == 'frac':
        return f(0) * real(draw, 0, 1)
    if k == 'zero':
        return 0.
    if k == 'full':
        return f(0)
    if k == 'beyond':
        return f(0) * 1.5 + 1.
    return real(draw, 0, 20) - (20. if slope > 0 and boolean(draw) else 0)


def gen_root(draw):
    x = values(draw)
    kind = pick(draw, 'plain', 'weighted', 'weighted', 'values')
    w = np.ones(len(x))
    if kind == 'weighted':
        r = np.random.RandomState(seed(draw))
        w = np.exp(r.uniform(-2, 2, len(x)))
        m = pick(draw, 'pos', 'int', 'zeros', 'allzero')
        if m == 'int':
            w = r.randint(1, 4, len(x)).astype(float)
        elif m == 'zeros':
            w[r.uniform(size=len(x)) < 0.4] = 0
        elif m == 'allzero' and boolean(draw, 1, 3):
            w[:] = 0
    if kind == 'values':
        x = x * np.where(np.random.RandomState(seed(draw)).uniform(size=len(x)) < 0.3, -1, 1)
        return {'kind': kind, 'x': x, 'w': w, 'slope': 0., 'b': float(pick(draw, 1., positive(draw), 0., 1e-3)),
                'ro': boolean(draw, 1, 4)}
    slope = pick(draw, 0., 0., 1., 1., positive(draw))
    b = level(draw, x, w, slope)
    if boolean(draw, 1, 25):
        x, w = x[:0], w[:0]
        b = float(pick(draw, 0., 1., -1.5))
    if slope == 0 and not boolean(draw, 1, 20):
        b = max(b, 0.)
    return {'kind': kind, 'x': x, 'w': w, 'slope': slope, 'b': b, 'ro': False}


def fr(a):
    return [Fr(float(v)) for v in a]


def guard(*arrays):
    return [a.copy() for a in arrays]


def unchanged(before, after, what):
    for a, b in zip(before, after):
        if a.tobytes() != b.tobytes():
            raise Violation('%s changed its argument %s to %s' % (what, a, b))


@sub('C24', 'root finders', gen_root, quick=10000, thorough=200000, cost=1)
def roots(case):
    """the smallest t >= 0 with sum w (x - w t)_+ <= slope t + b"""
    from regreg.atoms import piecewise_linear as P
    x, w, slope, b, kind = case['x'], case['w'], case['slope'], case['b'], case['kind']
    keep = guard(x, w)
    if kind == 'plain':
        t = P.find_solution_piecewise_linear_c(b, slope, x)
    elif kind == 'weighted':
        t = P.find_solution_piecewise_linear(b, slope, x, w)
    else:
        t = P.find_solution_piecewise_linear_uncon(b, x)
    unchanged(keep, (x, w), kind)
    t = float(t)
    if kind != 'values' and slope == 0 and b < 0:
        if t != np.inf:
            raise Violation('%s: root %r of an equation without solution' % (kind, t))
        return None
    if not np.isfinite(t):
        raise Violation('%s: root %r' % (kind, t))
    X, W, S, B, T = fr(x), fr(w), Fr(slope), Fr(b), Fr(t)
    f = lambda t: sum(a * (v - a * t) for v, a in zip(X, W) if v > a * t) - S * t
    size = float((w * np.abs(x)).sum() + abs(b) + slope * abs(t) + (w ** 2).sum() * abs(t))
    tol = 1e-11 * size + 1e-300
    if kind == 'values':
        if abs(float(f(T) - B)) > tol:
            raise Violation('root %r: value %r, target %r (x=%s)' % (t, float(f(T)), b, x))
        return 'values' if b > 0 and len(x) > 1 else None
    if t < -tol:
        raise Violation('%s: negative root %r' % (kind, t))
    if float(f(Fr(0)) - B) <= tol:
        if t > 0 and float(f(Fr(0)) - B) < -tol:
            raise Violation('%s: root %r although 0 is admissible (x=%s, w=%s, slope=%r, b=%r)' % (kind, t, x, w, slope, b))
        if t <= 0:
            return None
    r = float(f(T) - B)
    if abs(r) > tol:
        raise Violation('%s: f(t) - slope t = %r at t = %r, target %r (x=%s, w=%s, slope=%r)' % (
            kind, float(f(T)), t, b, x, w, slope))
    if slope == 0 and b == 0:
        # smallest: not beyond the last knot
        last = max([v / a for v, a in zip(X, W) if a > 0] or [Fr(0)])
        if float(T - last) > 1e-11 * (1 + float(last)):
            raise Violation('%s: root %r beyond the last knot %r' % (kind, t, float(last)))
    return kind


# projections ----------------------------------------------------------------

def gen_l1(draw):
    x = values(draw, nonneg=False)
    s = np.abs(x).sum()
    b = pick(draw, real(draw, 0, 1) * s, 0., s, 1.2 * s + 0.1, positive(draw), 1.)
    return {'x': x, 'b': float(b)}


def soft(x, cut):
    return np.sign(x) * np.maximum(np.abs(x) - cut, 0)


def check_l1ball(z, x, b, what):
    """z is the projection of x on the l1 ball of radius b: exact optimality"""
    Z, X, B = fr(z), fr(x), Fr(b)
    sc = float(np.abs(x).sum()) + b
    tol = 1e-11 * sc + 1e-300
    n = float(sum(abs(v) for v in Z) - B)
    if n > tol:
        raise Violation('%s: norm exceeds the bound by %r' % (what, n))
    R = [u - v for u, v in zip(X, Z)]
    lam = max(abs(r) for r in R)
    if float(lam) <= tol / len(Z):
        return None
    if n < -tol:
        raise Violation('%s: inside the ball by %r but moved by %r' % (what, -n, float(lam)))
    for r, v in zip(R, Z):
        if v != 0 and abs(float(r - lam * (1 if v > 0 else -1))) > tol:
            raise Violation('%s: residual %r at an active entry, multiplier %r (x=%s, b=%r, z=%s)' % (
                what, float(r), float(lam), x, b, z))
    return 'ball'


@sub('C24', 'l1 ball kernel', gen_l1, quick=6000, thorough=120000, cost=1)
def l1ball(case):
    from regreg.atoms.projl1_cython import projl1
    x, b = case['x'], case['b']
    keep = guard(x)
    z = projl1(x, b)
    unchanged(keep, [x], 'projl1')
    if z.shape != x.shape or not np.all(np.isfinite(z)):
        raise Violation('projl1 gives %s' % z)
    if z is x or np.shares_memory(z, x):
        raise Violation('projl1 returns its argument')
    lab = check_l1ball(z, x, b, 'projl1')
    if np.any(z * x < 0):
        raise Violation('projl1 changes signs')
    if b == 1.:
        pen.same('default bound', projl1(x), z, 1e-15)
    return lab


def gen_epi(draw):
    kind = pick(draw, 'l1', 'mixed')
    if kind == 'l1':
        x = values(draw, nonneg=False)
        return {'kind': kind, 'x': x, 't': epi_level(draw, np.abs(x).sum(), np.abs(x).max())}
    s = c07.mixed_spec(draw, dual=False, own=None)
    x = vec(draw, s['n'])
    return {'kind': kind, 'x': x, 't': epi_level(draw, np.abs(x).sum(), np.abs(x).max()), 'labels': s['labels'], 'gweights': s['gweights']}


def epi_level(draw, s, m):
    return float(pick(draw, 0., s, s * real(draw, 0, 1), 1.5 * s + 1, -m, -m * real(draw, 0, 1), -1.5 * m - 1, -s - 1, real(draw, -5, 5)))


def mixed_args(labels, gweights):
    """index arrays as built by the classes using the kernels"""
    lab = np.array(labels)
    ids = sorted(set(k for k in labels if k >= 0))
    groups = -np.ones(len(lab), np.intp)
    w = np.zeros(len(ids))
    for j, k in enumerate(ids):
        groups[lab == k] = j
        w[j] = gweights.get(k, np.sqrt((lab == k).sum()))
    idx = [np.nonzero(lab == k)[0].astype(np.intp) for k in (-2, -1, -3, -4)]
    return idx, groups, w


@sub('C24', 'epigraph kernels', gen_epi, quick=4000, thorough=80000, cost=1.5)
def epigraph(case):
    from regreg.atoms.projl1_cython import projl1_epigraph
    from regreg.atoms import mixed_lasso_cython as M
    x, t = case['x'], case['t']
    c = np.concatenate([x, [t]])
    if case['kind'] == 'l1':
        keep = guard(c)
        z = projl1_epigraph(c)
        unchanged(keep, [c], 'projl1_epigraph')
        g = O.L1()
        dom = np.ones(len(x), bool)
    else:
        idx, groups, w = mixed_args(case['labels'], case['gweights'])
        args = idx + [groups, w, np.zeros(len(w)), np.zeros(len(w)), np.zeros(len(x))]
        keep = guard(c, *args[:6])
        z = M.mixed_lasso_epigraph(c, *args)
        unchanged(keep, [c] + args[:6], 'mixed_lasso_epigraph')
        g = O.Mixed(case['labels'], dict((k, case['gweights'].get(k, np.sqrt(case['labels'].count(k))))
                                         for k in set(case['labels']) if k >= 0))
    if np.shares_memory(z, c):
        raise Violation('epigraph kernel returns its argument')
    if not np.all(np.isfinite(z)):
        raise Violation('epigraph kernel gives %s' % z)
    # Moreau: z in K, z - c in the dual cone's negative, <z, c - z> = 0
    sc = 1 + np.abs(c).sum() * (1 if case['kind'] == 'l1' else 1 + (w.max() if len(w) else 0))
    tol = 1e-10 * sc
    u, r = z[:-1], (c - z)
    if not g.feas(u, 1e-12 * sc) or g.h(g.clean(u, np.inf)) > z[-1] + tol:
        raise Violation('%s epigraph: %s is not in the cone (level %r)' % (case['kind'], u, z[-1]))
    # polar cone: -r[-1] >= polar(r[:-1])
    if not g.polar_feas(r[:-1], 1e-12 * sc) or g.polar(g.polar_clean(r[:-1], np.inf)) > -r[-1] + tol:
        raise Violation('%s epigraph: residual %s is not in the polar cone (centre %s)' % (case['kind'], r, c))
    if abs((z * r).sum()) > tol * sc:
        raise Violation('%s epigraph: residual not orthogonal' % case['kind'])
    return case['kind'] if np.abs(r).max() > 1e-9 * sc and np.abs(z).max() > 1e-9 * sc else None


# isotonic regression ----------------------------------------------------------

def gen_iso(draw):
    y = values(draw, nonneg=False, nmax=12)
    if len(y) > 40:
        y = y[:40]
    return {'y': y, 'how': pick(draw, 'float', 'float', 'int', 'list', 'ro', 'float32')}


def isotonic(y):
    """max-min formula"""
    n = len(y)
    c = np.concatenate([[0], np.cumsum(y)])
    with np.errstate(all='ignore'):
        A = (c[None, 1:] - c[:-1, None]) / (np.arange(1, n + 1)[None] - np.arange(n)[:, None])
    # A[j, k]: mean of y[j..k]
    out = np.empty(n)
    for i in range(n):
        out[i] = max(A[j, i:].min() for j in range(i + 1))
    return out


@sub('C24', 'isotonic regression', gen_iso, quick=3000, thorough=60000, cost=1)
def iso(case):
    from regreg.atoms._isotonic_py import pav
    y = case['y']
    if case['how'] == 'int':
        y = np.round(y).astype(int)
    elif case['how'] == 'float32':
        y = y.astype(np.float32)
    arg = y.tolist() if case['how'] == 'list' else y.copy()
    if case['how'] == 'ro':
        arg.flags.writeable = False
    keep = np.array(arg)
    v = np.asarray(pav(arg))
    unchanged([keep], [np.array(arg)], 'pav')
    if isinstance(arg, np.ndarray) and np.shares_memory(v, arg):
        raise Violation('pav returns its argument')
    ref = isotonic(y.astype(float))
    rtol = 1e-11 if case['how'] != 'float32' else 1e-5
    pen.same('isotonic regression of %s' % (y,), v, ref, scale=np.abs(y).max() + 1e-300, rtol=rtol)
    if np.any(np.diff(v) < 0):
        raise Violation('isotonic regression of %s decreases: %s' % (y, v))
    return 'iso' if len(set(ref.tolist())) < len(ref) else None


def gen_slope(draw):
    n = integer(draw, 1, 10)
    x = vec(draw, n)
    w = np.sort([float(integer(draw, 0, 3)) if boolean(draw, 1, 3) else positive(draw) for _ in range(n)])[::-1].copy()
    return {'x': x, 'w': w, 'sk': boolean(draw), 'lam': pick(draw, 1., positive(draw))}


@sub('C24', 'sorted l1 kernel', gen_slope, quick=3000, thorough=60000, cost=1)
def slope(case):
    from regreg.atoms.slope import _basic_proximal_map
    x, w = case['x'], case['w'] * case['lam']
    keep = guard(x, w)
    z = np.asarray(_basic_proximal_map(x, w, use_sklearn=case['sk']))
    unchanged(keep, [x, w], '_basic_proximal_map')
    if z.shape != x.shape or np.shares_memory(z, x):
        raise Violation('sorted l1 kernel: shape %s, or shared memory' % (z.shape,))
    r = x - z
    g = O.Slope(w)
    sc = 1 + np.abs(x).max() * len(x) * (1 + w.max())
    if not w.any():
        pen.same('zero weights', z, x)
        return None
    # residual in the dual ball, and tight
    a = np.cumsum(np.sort(np.abs(r))[::-1]) - np.cumsum(w)
    if a.max() > 1e-10 * sc:
        raise Violation('sorted l1 kernel: residual leaves the dual ball by %r' % a.max())
    if abs((z * r).sum() - g.h(z)) > 1e-10 * sc:
        raise Violation('sorted l1 kernel: <z, x - z> = %r, norm %r' % ((z * r).sum(), g.h(z)))
    return 'slope' if np.any(z) else None


# mixed lasso kernels ------------------------------------------------------------

def gen_mixed(draw):
    s = c07.mixed_spec(draw, dual=False, own=None)
    return {'labels': s['labels'], 'gweights': s['gweights'], 'x': vec(draw, s['n']),
            'par': pen.par(draw, ''), 'lip': pick(draw, 1., positive(draw)), 'feas': integer(draw, 0, 1),
            'what': pick(draw, 'lagrange', 'bound', 'dual', 'norm', 'dualnorm')}


@sub('C24', 'mixed kernels', gen_mixed, quick=5000, thorough=100000, cost=1)
def mixed(case):
    from regreg.atoms import mixed_lasso_cython as M
    x, par, lip, what = case['x'], case['par'], case['lip'], case['what']
    idx, groups, w = mixed_args(case['labels'], case['gweights'])
    buf = [np.zeros(len(w)), np.zeros(len(w)), np.zeros(len(x))]
    ww = dict((k, case['gweights'].get(k, np.sqrt(case['labels'].count(k)))) for k in set(case['labels']) if k >= 0)
    g = O.Mixed(case['labels'], ww)
    keep = guard(x, groups, w, *idx)
    args = idx + [groups, w]
    sc = (1 + np.abs(x).max()) * (1 + (w.max() if len(w) else 0)) * len(x)
    if what == 'lagrange':
        z = M.mixed_lasso_lagrange_prox(x, par, lip, *(args + buf))
        bad = O.certificate(g, z, x, lip, lagrange=par)
    elif what == 'bound':
        z = M.mixed_lasso_bound_prox(x, par, *(args + buf))
        bad = O.certificate(g, z, x, 1., bound=par)
    elif what == 'dual':
        z = M.mixed_lasso_dual_bound_prox(x, par, *(args + buf))
        bad = O.certificate(O.Polar(g), z, x, 1., bound=par)
    elif what == 'norm':
        v = M.seminorm_mixed_lasso(x, *(args + buf[:1] + [case['feas']]))
        m = np.abs(x[g.pp | g.nn])
        z, bad = None, None
        if case['feas'] and not g.feas(x, 1e-7):
            if g.feas(x, 1e-4):
                raise Reject('at the feasibility tolerance')
            if v != np.inf:
                bad = 'value %r at an infeasible point' % v
        else:
            # without a feasibility check, negative entries count nothing
            pen.same('mixed norm', v, g.h(g.clean(x, np.inf)), 1e-12, scale=sc)
    else:
        v = M.seminorm_mixed_lasso_dual(x, *(args + buf[:1]), check_feasibility=case['feas'])
        z, bad = None, None
        if case['feas'] and not g.polar_feas(x, 1e-7):
            if g.polar_feas(x, 1e-4):
                raise Reject('at the feasibility tolerance')
            if v != np.inf:
                bad = 'value %r at an infeasible point' % v
        else:
            pen.same('mixed dual norm', v, g.polar(g.polar_clean(x, np.inf)), 1e-12,
                     scale=1 + abs(float(v)))
    unchanged(keep, [x, groups, w] + idx, 'kernel ' + what)
    if bad:
        raise Violation('mixed kernel %s: %s (labels %s, weights %s, x %s, parameter %r)' % (what, bad, case['labels'], ww, x, par))
    if z is not None:
        if np.shares_memory(z, x) or any(np.shares_memory(z, b) for b in buf):
            raise Violation('kernel %s returns a shared buffer' % what)
        return what if np.abs(z - x).max() > 1e-9 and np.any(z) else None
    return what if np.any(x) else None
