"""C01: Lagrange-form proximal maps of vector penalties are exact minimisers."""
import numpy as np

from .core import prop, sub, Violation, Reject
from .gens import pick, boolean, integer, positive, vec, quad, seed, real
from . import pen, oracle as O

prop('C01',
     rule='Penalty class, multiplier (0 included), weights (0 and inf included), offset, own quadratic and '
          'proximal quadratic are generated; a case is non-trivial when the exact minimiser differs from the '
          'unpenalised one (label "partial" or "zero").  Oracle: Fenchel optimality certificate computed from '
          'independent reference gauges, plus the reference objective value.',
     assumptions=['finite arguments of magnitude at most about 1e3; curvature in [0.05, 10]',
                  'relative tolerance 1e-8'])


def gen_q(draw, n):
    q = quad(draw, n)
    if not isinstance(q[1], np.ndarray) and not isinstance(q[2], np.ndarray):
        q[1] = vec(draw, n)
    if boolean(draw, 1, 3):
        q[0], q[1:] = 1., [q[1] if isinstance(q[1], np.ndarray) else q[2], 0, 0]
    return q


def snap(draw, s, q):
    """move some coordinates of the proximal argument exactly onto kinks"""
    if isinstance(q[1], np.ndarray) and not isinstance(q[2], np.ndarray) and boolean(draw, 1, 3):
        t = s['par'] / q[0]
        off = np.zeros(s['n']) if s['offset'] is None else s['offset']
        c = q[1].copy()
        for i in range(s['n']):
            k = integer(draw, 0, 4)
            if k < 3:
                c[i] = off[i] + (t, -t, 0.)[k]
        q[1] = c
    return q


def check_all(case, exact_value=True):
    s, q = case['pen'], case['q']
    a, g = pen.build(s), pen.gauge(s)
    iq = pen.iq(q)
    z = a.proximal(iq)
    v, kind = pen.check_prox(s, g, z, q)
    z = np.asarray(z)
    if exact_value:
        ref = pen.value(s, g, z) + pen.qval(q, z)
        sc = 1 + abs(ref) + np.abs(z).max() ** 2 + np.abs(v).max() ** 2
        arg, opt = a.proximal_optimum(pen.iq(q))
        pen.same('proximal_optimum: argmin', arg, z)
        pen.same('proximal_optimum: value', opt, ref, scale=sc)
        opt, arg = a.solve(pen.iq(q), return_optimum=True)
        pen.same('solve: argmin', arg, z)
        pen.same('solve: optimal value', opt, ref, scale=sc)
    pen.same('proximal_step', a.proximal_step(pen.iq(q)), z)
    return None if kind == 'free' else '%s %s%s%s' % (
        s['cls'], kind, ' offset' if s['offset'] is not None else '',
        ' own quadratic' if s['quad'] is not None else '')


def gen_vec(draw):
    s = pen.spec(draw, pick(draw, *pen.VEC), 'lagrange')
    return {'pen': s, 'q': snap(draw, s, gen_q(draw, s['n']))}


@sub('C01', 'unweighted', gen_vec, quick=2400, thorough=60000, cost=4)
def unweighted(case):
    return check_all(case)


def gen_w(draw):
    s = pen.spec(draw, pick(draw, 'wl1norm', 'wsupnorm'), 'lagrange')
    return {'pen': s, 'q': snap(draw, s, gen_q(draw, s['n']))}


@sub('C01', 'weighted', gen_w, quick=1600, thorough=40000, cost=4)
def weighted(case):
    return check_all(case)


def gen_slope(draw):
    s = pen.spec(draw, 'slope', 'lagrange')
    return {'pen': s, 'q': snap(draw, s, gen_q(draw, s['n'])), 'py': boolean(draw)}


@sub('C01', 'sorted-l1', gen_slope, quick=1200, thorough=30000, cost=4)
def sorted_l1(case):
    from regreg.atoms.slope import slope
    old = slope.use_sklearn
    try:
        slope.use_sklearn = old and not case['py']
        return check_all(case)
    finally:
        slope.use_sklearn = old


def gen_large(draw):
    cls = pick(draw, *(pen.VEC + ['wl1norm', 'wsupnorm', 'slope']))
    n = integer(draw, 20, 300)
    return {'cls': cls, 'n': n, 'seed': seed(draw), 'par': positive(draw, 0.01, 50), 'c': positive(draw),
            'tie': integer(draw, 0, 3)}


@sub('C01', 'large', gen_large, quick=300, thorough=6000, cost=3)
def large(case):
    """long vectors, with many ties"""
    r = np.random.RandomState(case['seed'])
    n = case['n']
    x = r.standard_normal(n) * 3
    if case['tie']:
        x = np.round(x * case['tie']) / case['tie']
    s = {'cls': case['cls'], 'n': n, 'form': 'lagrange', 'par': case['par'], 'offset': None, 'quad': None}
    if case['cls'][0] == 'w':
        s['weights'] = r.uniform(0, 2, n) * (r.uniform(size=n) > 0.1)
        s['weights'][r.uniform(size=n) > 0.95] = np.inf
    elif case['cls'] == 'slope':
        s['weights'] = np.sort(r.uniform(0.1, 2, n))[::-1]
    return check_all({'pen': s, 'q': [case['c'], x, 0, 0]})


def gen_direct(draw):
    s = pen.spec(draw, pick(draw, *(pen.VEC + ['wl1norm', 'wsupnorm', 'slope'])),
                 pick(draw, 'lagrange', 'bound'), own=None, offset=False)
    return {'pen': s, 'x': vec(draw, s['n']), 'c': positive(draw), 'lam': pen.par(draw, 'lagrange')}


@sub('C01', 'explicit multiplier', gen_direct, quick=900, thorough=20000, cost=3)
def direct(case):
    """the unshifted map with curvature and multiplier given as arguments"""
    s = dict(case['pen'])
    a = pen.build(s)
    z = a.lagrange_prox(case['x'].copy(), lipschitz=case['c'], lagrange=case['lam'])
    s['form'], s['par'] = 'lagrange', case['lam']
    _, kind = pen.check_prox(s, pen.gauge(s), z, [case['c'], case['x'], 0, 0])
    if case['pen']['form'] == 'lagrange':
        z = a.lagrange_prox(case['x'].copy(), lipschitz=case['c'])
        s['par'] = case['pen']['par']
        pen.check_prox(s, pen.gauge(s), z, [case['c'], case['x'], 0, 0])
    return None if kind == 'free' else s['cls'] + ' ' + kind


def gen_matrix(draw):
    sh = (integer(draw, 1, 4), integer(draw, 1, 4))
    s = pen.spec(draw, pick(draw, *pen.VEC), 'lagrange', n=sh[0] * sh[1])
    return {'pen': s, 'q': gen_q(draw, s['n']), 'shape': sh}


@sub('C01', 'matrices', gen_matrix, quick=1000, thorough=20000, cost=4)
def matrices(case):
    """the same penalties of a matrix: entry by entry"""
    return pen.check_matrix_prox(case['pen'], case['shape'], case['q'])
