"""C02: bound-form proximal maps of vector penalties are exact projections."""
import numpy as np

from .core import prop, sub, Violation, Reject
from .gens import pick, boolean, integer, positive, vec, seed, real
from . import pen, oracle as O
from .c01 import gen_q

prop('C02',
     rule='Penalty class, bound (0, tight, slack, exactly attained), weights (0 and inf included), offset, own '
          'quadratic and proximal quadratic are generated; non-trivial when the point projected is infeasible or '
          'lies within 1e-9 of the boundary.  Oracle: variational characterisation of the projection evaluated '
          'with reference gauges.',
     assumptions=['finite arguments of magnitude at most about 1e3', 'relative tolerance 1e-8'])

CLS = pen.VEC + ['wl1norm', 'wsupnorm', 'slope_conjugate']


def run(s, q):
    a, g = pen.build(s), pen.gauge(s)
    z = np.asarray(a.proximal(pen.iq(q)))
    v, kind = pen.check_prox(s, g, z, q)
    off = np.zeros(s['n']) if s['offset'] is None else s['offset']
    w = v - off
    sc = 1e-12 * (1 + np.abs(v).max() + np.abs(off).max())
    feas = g.feas(w, 0) and g.h(w) <= s['par'] * (1 - 1e-9)
    if feas:
        pen.same('projection of a feasible point', z, v, rtol=1e-12)
    # idempotent
    z2 = np.asarray(a.proximal(pen.iq([1., z, 0, 0]))) if s['quad'] is None else z
    pen.same('projecting twice', z2, z, rtol=1e-7, scale=1 + np.abs(v).max() + np.abs(off).max())
    ref = pen.qval(s['quad'], z) + pen.qval(q, z)
    sc = 1 + abs(ref) + np.abs(z).max() ** 2 + np.abs(v).max() ** 2
    arg, opt = a.proximal_optimum(pen.iq(q))
    pen.same('proximal_optimum: argmin', arg, z)
    pen.same('proximal_optimum: value', opt, ref, scale=sc)
    if kind == 'free':
        near = g.feas(w, 0) and abs(g.h(w) - s['par']) <= 1e-9 * (1 + s['par'])
        return s['cls'] + ' boundary' if near else None
    return '%s %s%s%s' % (s['cls'], kind, ' offset' if s['offset'] is not None else '',
                          ' own quadratic' if s['quad'] is not None else '')


def gen(draw):
    s = pen.spec(draw, pick(draw, *CLS), 'bound')
    q = gen_q(draw, s['n'])
    mode = integer(draw, 0, 5)
    if mode >= 3:
        # choose the bound relative to the point that gets projected
        g = pen.gauge(s)
        c, l = pen.qsum(s['n'], s['quad'], q)
        w = -l / c - (0 if s['offset'] is None else s['offset'])
        h = g.h(np.abs(w))
        if np.isfinite(h) and h > 0:
            s['par'] = float(h * (1., 0.5, 1.5)[mode - 3])
    return {'pen': s, 'q': q}


@sub('C02', 'projection', gen, quick=5000, thorough=100000, cost=4)
def projection(case):
    return run(case['pen'], case['q'])


def gen_large(draw):
    n = integer(draw, 20, 300)
    return {'cls': pick(draw, *CLS), 'n': n, 'seed': seed(draw), 'rel': real(draw, 0, 1.1), 'c': positive(draw),
            'tie': integer(draw, 0, 3)}


@sub('C02', 'large', gen_large, quick=500, thorough=8000, cost=3)
def large(case):
    """long vectors with ties"""
    r = np.random.RandomState(case['seed'])
    n = case['n']
    x = r.standard_normal(n) * 3
    if case['tie']:
        x = np.round(x * case['tie']) / case['tie']
    s = {'cls': case['cls'], 'n': n, 'form': 'bound', 'offset': None, 'quad': None}
    if case['cls'][0] == 'w':
        s['weights'] = r.uniform(0.05, 2, n) * (r.uniform(size=n) > 0.1)
        s['weights'][r.uniform(size=n) > 0.95] = np.inf
    elif case['cls'] == 'slope_conjugate':
        s['weights'] = np.sort(r.uniform(0.1, 2, n))[::-1]
    g = pen.gauge(s)
    h = g.h(g.clean(np.abs(x), np.inf))
    s['par'] = float(h * case['rel'])
    return run(s, [case['c'], x, 0, 0])


def gen_direct(draw):
    s = pen.spec(draw, pick(draw, *CLS), pick(draw, 'lagrange', 'bound'), own=None, offset=False)
    return {'pen': s, 'x': vec(draw, s['n']), 'b': pen.par(draw, 'bound')}


@sub('C02', 'explicit bound', gen_direct, quick=1200, thorough=30000, cost=3)
def direct(case):
    """the unshifted projection with the bound given as an argument"""
    s = dict(case['pen'])
    a = pen.build(s)
    z = a.bound_prox(case['x'].copy(), bound=case['b'])
    if s['form'] == 'bound':
        z2 = a.bound_prox(case['x'].copy())
        pen.check_prox(s, pen.gauge(s), z2, [1., case['x'], 0, 0])
    s['form'], s['par'] = 'bound', case['b']
    _, kind = pen.check_prox(s, pen.gauge(s), z, [1., case['x'], 0, 0])
    return None if kind == 'free' else s['cls'] + ' ' + kind


def gen_sub(draw):
    s = pen.spec(draw, pick(draw, *(pen.VEC + ['slope'])), 'lagrange', own=None, offset=boolean(draw), zero_par=False)
    if s['cls'] not in ('slope',) and boolean(draw):
        s['form'] = 'bound'
    return {'pen': s, 'x': vec(draw, s['n'])}


@sub('C02', 'subgradient report', gen_sub, quick=800, thorough=15000, cost=3)
def subgradient_report(case):
    """the library's own prox / dual-norm report holds and balances"""
    s = case['pen']
    a = pen.build(s)
    one, two = a.check_subgradient(a, case['x'].copy())
    x, g = case['x'], pen.gauge(dict(s, offset=None))
    pen.same('check_subgradient', one, two, rtol=1e-7,
             scale=(1 + np.abs(x).max()) * (1 + 1. / s['par']) * (1 + np.abs(x).max()) * s['n'])
    return s['cls'] if np.abs(x).max() > 0 else None


def gen_matrix(draw):
    sh = (integer(draw, 1, 4), integer(draw, 1, 4))
    s = pen.spec(draw, pick(draw, *pen.VEC), 'bound', n=sh[0] * sh[1])
    return {'pen': s, 'q': gen_q(draw, s['n']), 'shape': sh}


@sub('C02', 'matrices', gen_matrix, quick=1000, thorough=20000, cost=4)
def matrices(case):
    """the same penalties of a matrix: entry by entry"""
    return pen.check_matrix_prox(case['pen'], case['shape'], case['q'])
