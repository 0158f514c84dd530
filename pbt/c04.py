"""C04: values of penalties and constraints agree with their definition."""
import numpy as np

from .core import prop, sub, Violation, Reject
from .gens import pick, boolean, integer, positive, vec, normal, quad
from . import pen, oracle as O

prop('C04',
     rule='Penalty class, form, multiplier / bound, weights (0 and inf), offset, own quadratic, affine map and '
          'evaluation point (generic, feasible, on the boundary, infeasible, with a zero pattern) are generated; '
          'non-trivial when the reference value of the penalty itself is neither 0 nor undefined (positive, or '
          '+inf).  Oracle: the definition written out on plain arrays.',
     assumptions=['points within a relative 1e-3 outside of a constraint are not judged (documented tolerance 1e-5)'])

CLS = pen.VEC + ['wl1norm', 'wsupnorm', 'slope', 'slope_conjugate', 'group_lasso', 'group_lasso_dual',
                 'sparse_group_lasso', 'sparse_group_lasso_dual']


def ref_h(s, g, y):
    """reference value with parameter 1; None when too close to the edge of the domain"""
    sc = 1 + np.abs(y).max()
    if g.feas(y, 0):
        return g.h(y)
    if g.feas(y, 1e-2 * sc):
        return None
    return np.inf


def unit_bound(h, b):
    """indicator of h <= b; None when too close"""
    if h is None:
        return None
    if h <= b:
        return 0.
    return np.inf if h > b * (1 + 1e-3) + 1e-12 else None


def expect(what, got, ref, scale=1.):
    if ref is None:
        return
    if what.startswith('sparse_group_lasso_dual'):
        # computed by bisection with an absolute tolerance of 1e-7 on membership
        scale = scale * 1e5
    if np.ndim(got) != 0:
        raise Violation('%s: got an array %s' % (what, got))
    pen.same(what, got, ref, rtol=1e-9, scale=1 + abs(ref) if np.isfinite(ref) else None, atol=1e-9 * scale)


def gen(draw):
    s = pen.spec(draw, pick(draw, *CLS), pick(draw, 'lagrange', 'bound'))
    x = point(draw, s)
    return {'pen': s, 'x': x, 'par2': pen.par(draw, ''), 'par3': pen.par(draw, ''), 'int': boolean(draw, 1, 5)}


def point(draw, s):
    n = s['n']
    y = vec(draw, n)
    if boolean(draw, 1, 3):
        y = np.abs(y)
    if boolean(draw, 1, 3):
        mask = np.array([integer(draw, 0, 1) for _ in range(n)])
        y = y * mask
    g = pen.gauge(s)
    y = g.clean(y, np.inf) if boolean(draw, 2, 3) else y
    if s['form'] == 'bound' and boolean(draw, 2, 3):
        h = g.h(y)
        if np.isfinite(h) and h > 0:
            y = y * (s['par'] / h * pick(draw, 0.5, 0.999, 0.999999, 1.01, 1.5, 10.))
    return y + (0 if s['offset'] is None else s['offset'])


@sub('C04', 'value', gen, quick=5000, thorough=100000, cost=3)
def value(case):
    s, x = case['pen'], case['x']
    if case['int']:
        x = np.round(x).astype(int)
    a, g = pen.build(s), pen.gauge(s)
    y = x - s['offset'] if s['offset'] is not None else np.asarray(x, float)
    h = ref_h(s, g, y)
    q = pen.qval(s['quad'], x)
    sc = 1 + np.abs(x).max() ** 2 * (1 + (s['quad'][0] if s['quad'] else 0)) + np.abs(y).max() * (1 + s['par'])
    arg = np.array(x)

    def total(par):
        if h is None:
            return None
        if s['form'] == 'lagrange':
            return q + (par * h if np.isfinite(h) else np.inf)
        u = unit_bound(h, par)
        return None if u is None else u + q
    got = a.nonsmooth_objective(arg, check_feasibility=True)
    expect('%s value (%s)' % (s['cls'], s['form']), got, total(s['par']), sc)
    expect('%s objective' % s['cls'], a.objective(arg, check_feasibility=True), total(s['par']), sc)
    free = a.nonsmooth_objective(arg)
    if s['form'] == 'bound':
        expect('%s value without feasibility check' % s['cls'], free, q, sc)
    elif h is not None and np.isfinite(h):
        expect('%s value without feasibility check' % s['cls'], free, q + s['par'] * h, sc)
    if not np.array_equal(arg, x):
        raise Violation('argument changed')
    # explicit multiplier / bound, on the shifted argument
    m = case['par2']
    if h is not None:
        expect('%s seminorm' % s['cls'], a.seminorm(y, lagrange=m, check_feasibility=True),
               m * h if np.isfinite(h) else np.inf, sc * (1 + m))
        if np.isfinite(h):
            expect('%s seminorm without check' % s['cls'], a.seminorm(y, lagrange=m), m * h, sc * (1 + m))
        expect('%s constraint' % s['cls'], a.constraint(y, bound=m), unit_bound(h, m))
    # changing the parameter
    setattr(a, s['form'], case['par3'])
    if getattr(a, s['form']) != case['par3']:
        raise Violation('%s not updated' % s['form'])
    expect('%s value after setting the %s' % (s['cls'], s['form']),
           a.nonsmooth_objective(arg, check_feasibility=True), total(case['par3']), sc * (1 + case['par3']))
    other = 'bound' if s['form'] == 'lagrange' else 'lagrange'
    if getattr(a, other) is not None:
        raise Violation('%s is set in %s form' % (other, s['form']))
    try:
        setattr(a, other, 1.)
    except AttributeError:
        pass
    else:
        raise Violation('%s could be set in %s form' % (other, s['form']))
    if h is None:
        return None
    return s['cls'] + (' inf' if total(s['par']) == np.inf else ' finite') + ' ' + s['form'] if h else None


def gen_affine(draw):
    cls = pick(draw, *(pen.VEC + ['l1norm', 'l2norm']))
    s = pen.spec(draw, cls, pick(draw, 'lagrange', 'bound'), own='any')
    p = integer(draw, 1, 5)
    how = pick(draw, 'linear', 'affine', 'shift', 'affine_atom', 'affine_atom offset')
    D = np.round(normal(draw, (s['n'], p)) * 2) / 2.
    return {'pen': s, 'D': D, 'b': vec(draw, s['n']), 'how': how, 'x': vec(draw, p), 'kind': pick(draw, 'array', 'transform', 'diag')}


@sub('C04', 'composed with an affine map', gen_affine, quick=1500, thorough=30000, cost=4)
def affine(case):
    """h(D x + b - offset) for the class constructors and for affine_atom"""
    import regreg.api as R
    from regreg.atoms import affine_atom
    s, D, b, how, x = case['pen'], case['D'], case['b'], case['how'], case['x']
    g = pen.gauge(s)
    cls = getattr(R, s['cls'])
    kw = {s['form']: s['par']}
    if s['quad'] is not None:
        kw['quadratic'] = pen.iq(s['quad'])
    diag = case['kind'] == 'diag' and how != 'shift'
    if diag:
        d = np.resize(D.ravel(), s['n'])
        op, D, x = d.copy(), np.diag(d), np.resize(x, s['n'])
    else:
        op = D.copy()
    if case['kind'] == 'transform':
        op = R.linear_transform(op)
    if how == 'linear':
        off = s['offset']
        a = cls.linear(op, diag=diag, offset=None if off is None else off.copy(), **kw)
        inner = D.dot(x) + (0 if off is None else off)
    elif how == 'affine':
        a = cls.affine(op, b.copy(), diag=diag, **kw)
        inner = D.dot(x) + b
    elif how == 'shift':
        a = cls.shift(b.copy(), **kw)
        x = np.resize(x, s['n'])
        inner = x + b
    else:
        base = pen.build(s)
        if how == 'affine_atom':
            a = affine_atom(base, R.linear_transform(D.copy()))
            inner = D.dot(x) - (0 if s['offset'] is None else s['offset'])
        else:
            a = affine_atom(base, R.affine_transform(D.copy(), b.copy()))
            inner = D.dot(x) + b - (0 if s['offset'] is None else s['offset'])
    h = ref_h(s, g, inner)
    # the own quadratic lives on the output of the linear map
    z = x if how == 'shift' else D.dot(x)
    if how == 'affine_atom offset' and s['quad'] is not None:
        raise Reject('own quadratic together with an affine offset: convention not documented')
    q = pen.qval(s['quad'], z)
    if s['form'] == 'lagrange':
        ref = None if h is None else q + (s['par'] * h if np.isfinite(h) else np.inf)
    else:
        ref = unit_bound(h, s['par'])
        ref = None if ref is None else ref + q
    sc = 1 + np.abs(inner).max() * (1 + s['par']) + np.abs(z).max() ** 2 * (1 + (s['quad'][0] if s['quad'] else 0))
    expect('%s.%s value' % (s['cls'], how), a.nonsmooth_objective(x, check_feasibility=True), ref, sc)
    if how.startswith('affine_atom'):
        # the atom handed in is left alone
        y = vec_like(s['n'])
        u = pen.build(s)
        if base.nonsmooth_objective(y) != u.nonsmooth_objective(y):
            raise Violation('affine_atom changed the atom it was given')
    return s['cls'] + ' ' + how if h else None


def vec_like(n):
    return np.linspace(-1.3, 2.1, n)


def gen_tv(draw):
    s = pen.spec(draw, pick(draw, *CLS), pick(draw, 'lagrange', 'bound'), own=None, offset=False, zero_par=False)
    return {'pen': s, 'x': vec(draw, s['n']), 'y': vec(draw, s['n']), 't': positive(draw)}


@sub('C04', 'seminorm axioms', gen_tv, quick=1000, thorough=20000, cost=3)
def axioms(case):
    """homogeneous and subadditive, zero at zero"""
    s = case['pen']
    a, g = pen.build(s), pen.gauge(s)
    x, y = g.clean(case['x'], np.inf), g.clean(case['y'], np.inf)
    f = lambda v: a.seminorm(v, lagrange=1., check_feasibility=True)
    hx, hy, hs, ht = f(x), f(y), f(x + y), f(case['t'] * x)
    sc = 1 + hx + hy
    rt = 1e-4 if s['cls'] == 'sparse_group_lasso_dual' else 1e-8
    pen.same('homogeneity', ht, case['t'] * hx, scale=1 + case['t'] * hx, rtol=rt)
    if not hs <= hx + hy + rt * sc:
        raise Violation('%s: not subadditive: %r > %r + %r' % (s['cls'], hs, hx, hy))
    if f(np.zeros(s['n'])) != 0:
        raise Violation('%s: value at 0 is %r' % (s['cls'], f(np.zeros(s['n']))))
    return s['cls'] if hx > 0 and hy > 0 else None
