"""C05: conjugates are Fenchel conjugates; conjugating twice is the identity."""
import numpy as np

from .core import prop, sub, Violation, Reject
from .gens import pick, boolean, integer, positive, vec, quad, normal
from . import pen, sets, oracle as O
from .c03 import build_simplex

prop('C05',
     rule='Penalty / constraint class, form, parameters (0 included), weights, offset, own quadratic (linear or '
          'curved), points and dual points (inside, on and outside the dual domain) are generated; non-trivial when '
          'the reference conjugate at the dual point is infinite or non-zero, or the own quadratic is curved.  '
          'Oracle: closed-form conjugates through independent polar gauges, Fenchel-Young equality at proximal '
          'pairs, Moreau decomposition.',
     assumptions=['dual points within a relative 1e-3 outside of the dual domain are not judged (documented '
                  'feasibility tolerance 1e-5)'])

PENS = pen.VEC + ['wl1norm', 'wsupnorm', 'slope', 'slope_conjugate', 'group_lasso', 'group_lasso_dual',
                  'sparse_group_lasso', 'sparse_group_lasso_dual']
NOPROX = {('slope', 'bound'), ('slope_conjugate', 'lagrange'), ('sparse_group_lasso', 'bound'),
          ('sparse_group_lasso_dual', 'lagrange')}


# a "description" d = {'kind': pen | set | simplex, 's': spec}

def gen_desc(draw, own='linear', prox=False):
    k = integer(draw, 0, 9)
    if k < 6:
        cls, form = pick(draw, *PENS), pick(draw, 'lagrange', 'bound')
        if prox and (cls, form) in NOPROX:
            form = {'lagrange': 'bound', 'bound': 'lagrange'}[form]
        return {'kind': 'pen', 's': pen.spec(draw, cls, form, own=own)}
    if k < 9:
        return {'kind': 'set', 's': sets.spec(draw, pick(draw, *sets.ALL), own=own, zero_w=True)}
    n = integer(draw, 1, 6)
    return {'kind': 'simplex', 's': {
        'cls': pick(draw, 'simplex_constraint', 'maximum'), 'n': n,
        'offset': vec(draw, n) if boolean(draw, 2, 5) else None,
        'quad': quad(draw, n, 'zero' if own == 'linear' else 'any') if own and boolean(draw, 2, 5) else None}}


def make(d):
    return {'pen': pen.build, 'set': sets.build, 'simplex': build_simplex}[d['kind']](d['s'])


def indicator(t, scale=1., slack=1e-9):
    """0 when t <= 0, inf when clearly positive, None in between"""
    if t is None:
        return None
    if t <= slack * scale:
        return 0.
    return np.inf if t > 1e-3 * scale else None


def member(t, y, scale):
    """indicator from a measure of infeasibility t at y (relative near the apex)"""
    if t <= 1e-10 * np.abs(y).max():
        return 0.
    return np.inf if t > 1e-2 * scale else None


def h(d, y):
    """value of the unshifted function"""
    s = d['s']
    sc = 1 + np.abs(y).max()
    if d['kind'] == 'pen':
        g = pen.gauge(s)
        if not g.feas(y, 1e-9 * sc):
            return np.inf if not g.feas(y, 1e-2 * sc) else None
        v = g.h(g.clean(y, 1e-9 * sc))
        if s['form'] == 'lagrange':
            return s['par'] * v if np.isfinite(v) else np.inf
        return indicator(v - s['par'], scale=s['par'] + 1e-9 * sc) if s['par'] > 0 else \
            indicator(v, scale=1e-6) if v > 1e-12 else 0.
    if d['kind'] == 'set':
        return member(sets.distance(s)(y), y, sc * sets.unit(s))
    if s['cls'] == 'maximum':
        return y.max()
    return indicator(max(-y.min(), abs(y.sum() - 1)), 10 * sc, 1e-10)


def hstar(d, u):
    """closed-form conjugate of the unshifted function"""
    s = d['s']
    sc = 1 + np.abs(u).max()
    if d['kind'] == 'pen':
        g = pen.gauge(s)
        if not g.polar_feas(u, 1e-9 * sc):
            if s['form'] == 'bound' and s['par'] == 0:
                return None                       # 0 * infinity
            return np.inf if not g.polar_feas(u, 1e-2 * sc) else None
        v = g.polar(g.polar_clean(u, 1e-9 * sc))
        if s['form'] == 'bound':
            return s['par'] * v
        if s['par'] == 0:
            return 0. if v <= 1e-12 else np.inf if v > 1e-3 else None
        return indicator(v - s['par'], scale=s['par'] + 1e-9 * sc)
    if d['kind'] == 'set':
        p = dict(s, cls=sets.POLAR[s['cls']])
        return member(sets.distance(p)(u), u, sc * sets.unit(p))
    if s['cls'] == 'maximum':
        return indicator(max(-u.min(), abs(u.sum() - 1)), 10 * sc, 1e-10)
    return u.max()


def fval(d, x):
    s = d['s']
    v = h(d, x if s['offset'] is None else x - s['offset'])
    return None if v is None else v + pen.qval(s['quad'], x)


def split(s, n):
    """offset, linear term and constant of f = h(. - o) + <l, .> + k  (curvature 0)"""
    o = np.zeros(n) if s['offset'] is None else s['offset']
    q = s['quad'] or [0, None, None, None]
    return o, np.zeros(n) + (0 if q[2] is None else q[2]), q[3] or 0.


def fstar(d, u):
    o, l, k = split(d['s'], d['s']['n'])
    v = hstar(d, u - l)
    return None if v is None else v + ((u - l) * o).sum() - k


def expect(what, d, got, ref, scale):
    if ref is None:
        return
    if d['s']['cls'].startswith('sparse_group'):
        scale = scale * 1e5
    if np.ndim(got) != 0:
        raise Violation('%s: got an array %s' % (what, got))
    pen.same('%s: %s' % (d['s']['cls'], what), got, ref, rtol=1e-9,
             scale=scale + abs(ref) if np.isfinite(ref) else None)


def scale_of(d, *xs):
    s = d['s']
    m = 1 + sum(np.abs(x).max() for x in xs)
    if s['offset'] is not None:
        m += np.abs(s['offset']).max()
    q = s['quad']
    if q is not None:
        for t in q[1:3]:
            if isinstance(t, np.ndarray):
                m += np.abs(t).max()
        m *= 1 + (q[0] or 0)
    return s['n'] * m ** 2 * (1 + s.get('par', 1))


def dual_point(draw, d):
    """a dual point placed relative to the dual domain"""
    s = d['s']
    n = s['n']
    u = vec(draw, n)
    if boolean(draw, 1, 3):
        u = np.abs(u)
    if d['kind'] == 'pen':
        g = pen.gauge(s)
        if boolean(draw, 3, 4):
            u = g.polar_clean(u, np.inf)
        p = g.polar(u)
        if s['form'] == 'lagrange' and np.isfinite(p) and p > 0 and boolean(draw, 3, 4):
            u = u * (s['par'] / p * pick(draw, 0.5, 0.9999, 1.01, 2.))
    elif d['kind'] == 'simplex' and s['cls'] == 'maximum' and np.abs(u).sum() > 0 and boolean(draw):
        u = np.abs(u) / np.abs(u).sum()
    return u + split(s, n)[1]


def gen(draw):
    d = gen_desc(draw)
    n = d['s']['n']
    return {'d': d, 'u': dual_point(draw, d), 'x': vec(draw, n), 'v': vec(draw, n), 'c': positive(draw),
            'how': pick(draw, 'conjugate', 'get_conjugate', 'dual')}


def conj_of(a, how):
    if how == 'get_conjugate':
        return a.get_conjugate()
    if how == 'dual':
        L, c = a.dual
        e = np.linspace(-1, 2, int(np.prod(np.atleast_1d(a.shape))))
        if not np.array_equal(np.asarray(L.linear_map(e)).ravel(), e):
            raise Violation('the transform in dual is not the identity')
        return c
    return a.conjugate


@sub('C05', 'closed form', gen, quick=5000, thorough=100000, cost=5)
def closed_form(case):
    """value, Fenchel-Young pair, Moreau decomposition and biconjugate"""
    d, u, x, v, c = [case[k] for k in ('d', 'u', 'x', 'v', 'c')]
    s = d['s']
    a = make(d)
    b = conj_of(a, case['how'])
    ref = fstar(d, u)
    sc = scale_of(d, u, x, v) * (c + 1 / c)
    expect('conjugate', d, b.nonsmooth_objective(u.copy(), check_feasibility=True), ref, sc)
    fx = fval(d, x)
    if ref is not None and fx is not None and np.isfinite(fx):
        fu = b.nonsmooth_objective(u.copy(), check_feasibility=True)
        if not fu + fx >= (x * u).sum() - 1e-7 * sc:
            raise Violation('%s: Fenchel-Young inequality fails: %r + %r < %r' % (s['cls'], fu, fx, (x * u).sum()))
    # the original is not affected by conjugation
    expect('value after conjugation', d, a.nonsmooth_objective(x.copy(), check_feasibility=True), fx, sc)
    # biconjugate
    bb = b.conjugate
    expect('biconjugate', d, bb.nonsmooth_objective(x.copy(), check_feasibility=True), fx, sc)
    if (s['cls'], s.get('form')) not in NOPROX:
        q = [c, v, 0, 0]
        z = np.asarray(a.proximal(pen.iq(q)))
        w = np.asarray(b.proximal(pen.iq([1 / c, c * v, 0, 0])))
        pen.same('%s: Moreau decomposition' % s['cls'], z + w / c, v, scale=sc, rtol=1e-9)
        zz = np.asarray(bb.proximal(pen.iq(q)))
        pen.same('%s: proximal map of the biconjugate' % s['cls'], zz, z, scale=sc, rtol=1e-9)
        # equality at the proximal pair, through the library's values
        fz, gw = a.nonsmooth_objective(z), b.nonsmooth_objective(w)
        tol = sc * (1e-4 if s['cls'].startswith('sparse_group') else 1e-8)
        if not abs(fz + gw - (z * w).sum()) <= tol:
            raise Violation('%s: no equality at the proximal pair: %r' % (s['cls'], fz + gw - (z * w).sum()))
    if ref is None or ref == 0:
        return None
    return '%s %s %s' % (s['cls'], s.get('form', ''), 'inf' if ref == np.inf else 'finite')


def gen_curved(draw):
    d = gen_desc(draw, own=None, prox=True)
    s = d['s']
    s['quad'] = quad(draw, s['n'])
    return {'d': d, 'u': dual_point(draw, d), 'x': vec(draw, s['n'])}


def certify(d, z, q):
    """z minimises quadratic q + own quadratic + function"""
    s = d['s']
    if d['kind'] == 'pen':
        pen.check_prox(s, pen.gauge(s), z, q)
    elif d['kind'] == 'set':
        sets.check_projection(s, z, q)
    else:
        simplex_certificate(s, z, q)


def simplex_certificate(s, z, q):
    c, l = pen.qsum(s['n'], s['quad'], q)
    v = -l / c
    w = z - (0 if s['offset'] is None else s['offset'])
    r = c * (v - z)
    sc = 1e-8 * (1 + np.abs(v).max() + np.abs(w).max()) ** 2 * (1 + c) * s['n']
    p, t = (w, r) if s['cls'] == 'simplex_constraint' else (r, w)
    if p.min() < -sc or abs(p.sum() - 1) > sc or abs(t.max() - (p * t).sum()) > sc:
        raise Violation('%s: %s is not the minimiser' % (s['cls'], z))


@sub('C05', 'curved', gen_curved, quick=2000, thorough=40000, cost=6)
def curved(case):
    """a function with a curved own quadratic has a smooth conjugate"""
    d, u, x = case['d'], case['u'], case['x']
    s = d['s']
    a = make(d)
    b = a.conjugate
    uu = u.copy()
    val, grad = b.smooth_objective(uu, 'both')
    z = np.array(grad)
    sc = scale_of(d, u, x, z)
    certify(d, z, [0., None, -u, 0])
    ref = (u * z).sum() - fval_at_solution(d, z)
    expect('smooth conjugate: value', d, val, ref, sc)
    expect('smooth conjugate: value only', d, b.smooth_objective(uu, 'func'), ref, sc)
    pen.same('smooth conjugate: gradient only', b.smooth_objective(uu, 'grad'), z)
    expect('smooth conjugate: objective', d, b.objective(uu), ref, sc)
    if not np.array_equal(uu, u):
        raise Violation('argument changed')
    if not b.lipschitz >= 1 / s['quad'][0] * (1 - 1e-12):
        raise Violation('Lipschitz constant %r too small' % b.lipschitz)
    bb = b.conjugate
    expect('biconjugate', d, bb.nonsmooth_objective(x.copy(), check_feasibility=True), fval(d, x), sc)
    return s['cls'] + ' curved'


def fval_at_solution(d, z):
    """value of f at a point certified to be in its domain"""
    s = d['s']
    y = z if s['offset'] is None else z - s['offset']
    q = pen.qval(s['quad'], z)
    if d['kind'] == 'pen' and s['form'] == 'lagrange':
        g = pen.gauge(s)
        return s['par'] * g.h(g.clean(y, np.inf)) + q
    if s['cls'] == 'maximum':
        return y.max() + q
    return q


def gen_aff(draw):
    d = gen_desc(draw)
    while d['kind'] != 'pen':
        d = {'kind': 'pen', 's': pen.spec(draw, pick(draw, *PENS), pick(draw, 'lagrange', 'bound'), own='linear')}
    s = d['s']
    p = integer(draw, 1, 4)
    return {'d': d, 'D': np.round(normal(draw, (s['n'], p)) * 2) / 2, 'u': dual_point(draw, d), 'x': vec(draw, p),
            'b': vec(draw, s['n']) if boolean(draw) else None}


@sub('C05', 'dual of a composition', gen_aff, quick=1500, thorough=30000, cost=4)
def affine_dual(case):
    """dual of h(Dx + b): the linear part of the transform and the conjugate of the shifted penalty"""
    import regreg.api as R
    from regreg.atoms import affine_atom
    d, D, u, x, b = [case[k] for k in ('d', 'D', 'u', 'x', 'b')]
    s = d['s']
    if b is not None and s['quad'] is not None:
        raise Reject('own quadratic together with an affine offset')
    T = R.linear_transform(D.copy()) if b is None else R.affine_transform(D.copy(), b.copy())
    A = affine_atom(make(d), T)
    L, c = A.dual
    pen.same('linear map of the dual pair', L.linear_map(x), D.dot(x))
    pen.same('adjoint map of the dual pair', L.adjoint_map(u), D.T.dot(u))
    shifted = d
    if b is not None:
        o = np.zeros(s['n']) if s['offset'] is None else s['offset']
        shifted = {'kind': 'pen', 's': dict(s, offset=o - b)}
    ref = fstar(shifted, u)
    sc = scale_of(shifted, u, D.dot(x))
    expect('conjugate in the dual pair', shifted, c.nonsmooth_objective(u.copy(), check_feasibility=True), ref, sc)
    fx = fval(shifted, D.dot(x))
    expect('value of the composition', shifted, A.nonsmooth_objective(x.copy(), check_feasibility=True), fx, sc)
    return s['cls'] + ' composed' if ref else None


def gen_ql(draw):
    n = integer(draw, 1, 5)
    kind = pick(draw, 'identity', 'diagonal', 'factor')
    return {'kind': kind, 'n': n, 'D': np.array([positive(draw) for _ in range(n)]), 'A': normal(draw, (n + 2, n)),
            'coef': positive(draw), 'offset': vec(draw, n) if boolean(draw) else None,
            'quad': quad(draw, n, 'any') if boolean(draw) else None, 'u': vec(draw, n)}


@sub('C05', 'quadratic losses', gen_ql, quick=800, thorough=15000, cost=3)
def quadratic_losses(case):
    """conjugate of coef/2 (x-o)'Q(x-o) + own quadratic"""
    from regreg.smooth.quadratic import quadratic_loss
    n, k, u = case['n'], case['kind'], case['u']
    Q = {'identity': np.identity(n), 'diagonal': np.diag(case['D']), 'factor': case['A'].T.dot(case['A'])}[k]
    kw = {'coef': case['coef']}
    if case['offset'] is not None:
        kw['offset'] = case['offset'].copy()
    if case['quad'] is not None:
        kw['quadratic'] = pen.iq(case['quad'])
    if k == 'identity':
        a = quadratic_loss((n,), **kw)
        b = a.conjugate
    elif k == 'diagonal':
        a = quadratic_loss((n,), Q=case['D'].copy(), Qdiag=True, **kw)
        b = a.conjugate
    else:
        a = quadratic_loss((n,), Q=Q.copy(), **kw)
        b = a.get_conjugate(factor=True)
    o = np.zeros(n) if case['offset'] is None else case['offset']
    q = case['quad'] or [0, None, None, 0]
    c2, l2 = pen.qsum(n, q)
    H = case['coef'] * Q + c2 * np.identity(n)
    x = np.linalg.solve(H, u - l2 + case['coef'] * Q.dot(o))
    f = case['coef'] / 2 * (x - o).dot(Q).dot(x - o) + pen.qval(case['quad'], x)
    ref = (u * x).sum() - f
    sc = (1 + abs(f) + abs((u * x).sum()) + np.abs(x).max() ** 2) * np.linalg.cond(H) * (1 + np.abs(l2).max()) ** 2
    pen.same('objective', a.objective(x), f, scale=sc)
    v, g = b.smooth_objective(u.copy(), 'both')
    v2 = b.objective(u.copy())
    # the conjugate may carry part of itself in its own quadratic
    pen.same('value of the conjugate', v2, ref, scale=sc)
    g = g + b.quadratic.objective(u.copy(), 'grad')
    pen.same('gradient of the conjugate', g, x, scale=sc)
    return k


def gen_num(draw):
    n, p = integer(draw, 3, 10), integer(draw, 1, 4)
    return {'loss': pick(draw, 'logistic', 'poisson', 'gaussian', 'huber', 'l1norm'), 'X': normal(draw, (n, p)),
            'y': vec(draw, n, 'cont'), 'q': quad(draw, p), 'u': vec(draw, p, 'cont'), 'negate': boolean(draw),
            'c': positive(draw, 0.3, 5)}


@sub('C05', 'numerical conjugate', gen_num, quick=120, thorough=3000, cost=40)
def numerical(case):
    """regreg.problems.conjugate: conjugate of loss + quadratic computed by the solver"""
    import regreg.api as R
    from regreg.problems.conjugate import conjugate
    X, y, p = case['X'], case['y'], case['X'].shape[1]
    q = [case['c']] + case['q'][1:]
    kind = case['loss']
    if kind == 'l1norm':
        f = R.l1norm(p, lagrange=0.7)
    elif kind == 'logistic':
        f = R.glm.logistic(X.copy(), (y > 0).astype(float))
    elif kind == 'poisson':
        f = R.glm.poisson(X.copy(), np.floor(np.abs(y)))
    elif kind == 'huber':
        f = R.glm.huber(X.copy(), y.copy(), 0.5)
    else:
        f = R.glm.gaussian(X.copy(), y.copy())
    iq = pen.iq(q)
    kw = {} if kind == 'l1norm' else dict(tol=1e-14, min_its=200)
    c = conjugate(f, iq, negate=case['negate'], **kw)
    u = case['u']
    val, grad = c.smooth_objective(u.copy(), 'both')
    v = -u if case['negate'] else u
    x = -grad if case['negate'] else grad
    total = lambda z: f.objective(z) + pen.qval(q, z)
    sc = 1 + abs(total(x)) + np.abs(x).max() ** 2 + np.abs(u).max() ** 2
    pen.same('value at the reported maximiser', val, (v * x).sum() - total(x), scale=sc, rtol=1e-7)
    if kind != 'l1norm':
        r = f.smooth_objective(x, 'grad') + q[0] * x + pen.qsum(p, q)[1] - v
        if np.abs(r).max() > 1e-3 * sc:
            raise Violation('not the maximiser: gradient %s' % r)
    else:
        pen.check_prox({'cls': 'l1norm', 'n': p, 'form': 'lagrange', 'par': 0.7, 'offset': None, 'quad': None},
                       O.L1(), x, [q[0], q[1], (0 if q[2] is None else q[2]) - v, 0])
    pen.same('value only', c.smooth_objective(u.copy(), 'func'), val, scale=sc, rtol=1e-6)
    pen.same('gradient only', c.smooth_objective(u.copy(), 'grad'), grad, scale=sc, rtol=1e-3)
    w = np.linspace(-1, 1, p)
    pen.same('quadratic left unchanged', iq.objective(w, 'func'), pen.qval(q, w))
    return kind
