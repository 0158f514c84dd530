"""C06: smoothed penalties and smooth conjugates."""
import numpy as np

from .core import prop, sub, Violation, Reject
from .gens import pick, boolean, integer, positive, vec, quad, normal
from . import pen, sets
from .c05 import (gen_desc, make, certify, fval, fval_at_solution, scale_of, split, expect, NOPROX)

prop('C06',
     rule='Function (penalty, constraint, with offset, linear or curved own quadratic, composed with a linear map), '
          'smoothing quadratic (curvature, centre, linear and constant term) and points are generated; non-trivial '
          'when the smoothed value or gradient is not zero.  Oracle: the reported gradient is certified to be the '
          'maximiser over the dual domain through independent gauges, the value is recomputed at it from the closed '
          'form; finite differences are not used.',
     assumptions=['relative tolerance 1e-8 (1e-4 for the dual sparse group penalty, computed by bisection)'])


def dual_desc(d):
    """description of the conjugate of h(. - o) + <l, .> + k"""
    s = d['s']
    n = s['n']
    o, l, k = split(s, n)
    t = dict(s, offset=l, quad=[0., None, o, -k - (l * o).sum()])
    if d['kind'] == 'pen':
        t['cls'] = pen.DUAL[s['cls']]
        t['form'] = {'lagrange': 'bound', 'bound': 'lagrange'}[s['form']]
        if s['cls'] in ('wl1norm', 'wsupnorm'):
            with np.errstate(all='ignore'):
                t['weights'] = 1. / s['weights']
    elif d['kind'] == 'set':
        t['cls'] = sets.POLAR[s['cls']]
    else:
        t['cls'] = {'maximum': 'simplex_constraint', 'simplex_constraint': 'maximum'}[s['cls']]
    return {'kind': d['kind'], 's': t}


def smooth_q(draw, n):
    q = quad(draw, n)
    if boolean(draw, 1, 3):
        q[1:] = [0, 0, 0]
    return q


def gen_plain_desc(draw):
    d = gen_desc(draw)
    while d['kind'] == 'pen' and (pen.DUAL[d['s']['cls']],
                                  {'lagrange': 'bound', 'bound': 'lagrange'}[d['s']['form']]) in NOPROX:
        d = gen_desc(draw)
    return d


def gen(draw):
    d = gen_plain_desc(draw)
    n = d['s']['n']
    return {'d': d, 'q': smooth_q(draw, n), 'x': vec(draw, n), 'y': vec(draw, n), 'again': vec(draw, n)}


def check_smooth(d, obj, x, y, grad_of, value_of, sc, lip, what):
    """mode agreement, certified gradient, exact value, Lipschitz bound, convexity"""
    xx = x.copy()
    v, g = obj.smooth_objective(xx, 'both')
    g = np.array(g, float)
    grad_of(g)
    expect(what + ' value', d, v, value_of(g), sc)
    expect(what + ' value only', d, obj.smooth_objective(xx, 'func'), v, sc)
    expect(what + ' objective', d, obj.objective(xx), v, sc)
    pen.same(what + ' gradient only', obj.smooth_objective(xx, 'grad'), g, rtol=1e-9, scale=sc)
    if not np.array_equal(xx, x):
        raise Violation('argument changed')
    v2, g2 = obj.smooth_objective(y.copy(), 'both')
    L = obj.lipschitz
    if not abs(L - lip) <= 1e-9 * lip:
        raise Violation('%s: Lipschitz constant %r, expected %r' % (what, L, lip))
    tol = sc * (1e-4 if d['s']['cls'].startswith('sparse_group') else 1e-8)
    if np.linalg.norm(g - g2) > lip * np.linalg.norm(x - y) + tol:
        raise Violation('%s: gradient is not Lipschitz with the stated constant' % what)
    if v2 < v + (g * (y - x)).sum() - tol or v2 > v + (g * (y - x)).sum() + lip / 2 * ((y - x) ** 2).sum() + tol:
        raise Violation('%s: value and gradient contradict convexity or the Lipschitz bound' % what)
    return v, g


@sub('C06', 'smoothed', gen, quick=3000, thorough=60000, cost=6)
def smoothed(case):
    d, q, x, y = case['d'], case['q'], case['x'], case['y']
    a = make(d)
    dd = dual_desc(d)
    sm = a.smoothed(pen.iq(q))
    sc = scale_of(dd, x, y) * (1 + q[0] + 1 / q[0]) ** 2 * (1 + np.abs(pen.qsum(x.shape, q)[1]).max()) ** 2

    def grad_of(g):
        certify(dd, g, [q[0], q[1], (0 if q[2] is None else q[2]) - x, 0])

    def value_of(g):
        return (x * g).sum() - fval_at_solution(dd, g) - pen.qval(q, g)
    v, g = check_smooth(d, sm, x, y, grad_of, value_of, sc, 1. / q[0], d['s']['cls'] + ' smoothed')
    # pure smoothing (no shift in the smoothing quadratic) is below the function, exactly the Moreau envelope
    fx = fval(d, case['again'])
    if fx is not None and np.isfinite(fx) and not any(isinstance(t, np.ndarray) for t in q[1:3]) and not q[3]:
        if sm.smooth_objective(case['again'], 'func') > fx + 1e-6 * sc:
            raise Violation('%s: smoothed value above the function' % d['s']['cls'])
    # the original penalty is unaffected
    expect('value after smoothing', d, a.nonsmooth_objective(x, check_feasibility=True), fval(d, x), sc)
    return d['s']['cls'] if abs(v) > 1e-12 or np.abs(g).max() > 1e-12 else None


def gen_curved(draw):
    d = gen_desc(draw, own=None, prox=True)
    s = d['s']
    s['quad'] = quad(draw, s['n'])
    if s['quad'][1] is None and s['quad'][2] is None:
        s['quad'][1] = 0
    n = s['n']
    q2 = pick(draw, 'linear', 'curved', 'curved', 'smoothed')
    q = quad(draw, n, 'zero' if q2 == 'linear' else 'positive')
    return {'d': d, 'q': q, 'kind': q2, 'x': vec(draw, n), 'y': vec(draw, n)}


@sub('C06', 'conjugate of a smooth conjugate with a quadratic', gen_curved, quick=1500, thorough=30000, cost=6)
def reconjugate(case):
    """f with curved own quadratic; its (smooth) conjugate gets a quadratic q and is
    conjugated again: a shift of f for linear q, a Moreau envelope of f for curved q"""
    d, q, x, y = case['d'], case['q'], case['x'], case['y']
    s = d['s']
    a = make(d)
    sc = scale_of(d, x, y) * (1 + (q[0] and (q[0] + 1 / q[0]))) ** 2 * (1 + np.abs(pen.qsum(x.shape, q)[1]).max()) ** 2
    if case['kind'] == 'smoothed':
        b = a.smoothed(pen.iq(q))
    else:
        b = a.conjugate
        b.quadratic = pen.iq(q)
        # own quadratic is part of the objective of the conjugate
        z = b.smooth_objective(x, 'grad')
        expect('objective of the conjugate with a quadratic', d, b.objective(x),
               (x * z).sum() - fval_at_solution(d, np.array(z)) + pen.qval(q, x), sc)
        b = b.conjugate
    c, l = pen.qsum(x.shape, q)
    k = pen.qval(q, np.zeros(x.shape))
    if case['kind'] == 'linear':
        u = x - l
        ref = fval(d, u)
        expect('shifted function', d, b.nonsmooth_objective(x, check_feasibility=True),
               None if ref is None else ref - k, sc)
        z = np.asarray(b.proximal(pen.iq([1., y, 0, 0])))
        certify(d, z - l, [1., y - l, 0, 0])
        return s['cls'] + ' shift'

    # envelope: min_w f(w) + |x - l - w|^2 / (2c) - k, gradient (x - l - w) / c
    def grad_of(g):
        w = x - l - c * g
        certify(d, w, [1 / c, x - l, 0, 0])

    def value_of(g):
        w = x - l - c * g
        return fval_at_solution(d, w) + c / 2 * (g ** 2).sum() - k
    check_smooth(d, b, x, y, grad_of, value_of, sc, 1 / c, s['cls'] + ' envelope')
    return s['cls'] + ' envelope'


def gen_aff(draw):
    d = gen_plain_desc(draw)
    while d['kind'] == 'simplex':
        d = gen_plain_desc(draw)
    n = d['s']['n']
    p = integer(draw, 1, 4)
    b = vec(draw, n) if boolean(draw) and d['s']['quad'] is None else None
    return {'d': d, 'D': np.round(normal(draw, (n, p)) * 2) / 2, 'b': b, 'q': smooth_q(draw, n), 'x': vec(draw, p),
            'y': vec(draw, p)}


@sub('C06', 'smoothed composition', gen_aff, quick=1500, thorough=30000, cost=6)
def smoothed_composition(case):
    """smoothing h(Dx + b): value of the smoothed h at Dx + b, gradient by the chain rule"""
    import regreg.api as R
    from regreg.atoms import affine_atom
    d, D, b, q, x, y = [case[k] for k in ('d', 'D', 'b', 'q', 'x', 'y')]
    s = d['s']
    if b is not None:
        o = np.zeros(s['n']) if s['offset'] is None else s['offset']
        A = affine_atom(make(d), R.affine_transform(D.copy(), b.copy()))
        d = dict(d, s=dict(s, offset=o - b))
    else:
        A = affine_atom(make(d), R.linear_transform(D.copy()))
    sm = A.smoothed(pen.iq(q))
    dd = dual_desc(d)
    e = D.dot(x)
    sc = scale_of(dd, e, x, y) * (1 + q[0] + 1 / q[0]) ** 2 * (1 + np.abs(pen.qsum(e.shape, q)[1]).max()) ** 2
    v, g = sm.smooth_objective(x.copy(), 'both')
    u = np.array(sm.grad)                      # stored gradient of the inner function
    certify(dd, u, [q[0], q[1], (0 if q[2] is None else q[2]) - e, 0])
    expect('smoothed composition value', d, v, (e * u).sum() - fval_at_solution(dd, u) - pen.qval(q, u), sc)
    pen.same('smoothed composition gradient', g, D.T.dot(u), rtol=1e-9, scale=sc * (1 + np.abs(D).max()))
    pen.same('gradient only', sm.smooth_objective(x.copy(), 'grad'), g, rtol=1e-9, scale=sc * (1 + np.abs(D).max()))
    expect('value only', d, sm.smooth_objective(x.copy(), 'func'), v, sc)
    fe = fval(d, e)
    expect('value of the composition afterwards', d, A.nonsmooth_objective(x, check_feasibility=True), fe, sc)
    return s['cls'] if np.abs(u).max() > 1e-12 else None
