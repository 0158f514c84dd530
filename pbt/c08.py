"""C08: matrix and block norm penalties."""
import numpy as np

from .core import prop, sub, Violation, Reject
from .gens import pick, boolean, integer, positive, vec, arr, quad, seed, real
from . import pen, oracle as O
from .c04 import ref_h, unit_bound, expect

prop('C08',
     rule='Matrix penalty (nuclear, operator, row-block sums and maxima of inner penalties, sparse group block), form, '
          'multiplier / bound (tight, slack, 0), shape (square, tall, wide, single row / column), matrix (generic, low '
          'rank, zero rows, repeated rows, equal singular values), offset and quadratics are generated; non-trivial '
          'when the exact solution differs from the unpenalised one, or the value is not zero.  Oracle: Fenchel '
          'optimality certificates with gauges computed by singular values or row by row; invariance relations.',
     assumptions=['block_sum in bound form and block_max in Lagrange form are not offered by the library',
                  'relative tolerance 1e-8; dual sparse group block values 1e-4 (bisection)'])

INNER = ['l1norm', 'l2norm', 'supnorm', 'positive_part', 'constrained_positive_part', 'constrained_max', 'max_positive_part']
# class -> forms with a proximal map
MAT = {'nuclear_norm': 'LB', 'operator_norm': 'LB', 'l1_l2': 'LB', 'linf_l2': 'LB', 'l1_l1': 'LB', 'linf_linf': 'LB',
       'block_sum': 'L', 'block_max': 'B', 'sparse_group_block': 'L', 'sparse_group_block_dual': 'B'}
DUALS = {'nuclear_norm': 'operator_norm', 'l1_l2': 'linf_l2', 'l1_l1': 'linf_linf', 'block_sum': 'block_max',
         'sparse_group_block': 'sparse_group_block_dual'}
DUALS.update(dict((b, a) for a, b in list(DUALS.items())))
FORMS = [(c, {'L': 'lagrange', 'B': 'bound'}[f]) for c in MAT for f in MAT[c]]


def matrix(draw, shape):
    n, p = shape
    k = pick(draw, 'entries', 'entries', 'normal', 'lowrank', 'zerorows', 'samerows', 'orth', 'int', 'zero')
    if k == 'entries':
        return arr(draw, shape)
    r = np.random.RandomState(seed(draw))
    X = r.standard_normal(shape) * 2
    if k == 'lowrank':
        m = integer(draw, 1, max(1, min(n, p) - 1))
        X = r.standard_normal((n, m)).dot(r.standard_normal((m, p)))
    elif k == 'zerorows':
        X[r.uniform(size=n) < 0.5] = 0
    elif k == 'samerows':
        X[:] = X[r.randint(0, n, n)]
    elif k == 'orth':
        X = np.linalg.qr(r.standard_normal((max(n, p), min(n, p))))[0] * 2
        X = X if X.shape == shape else X.T.copy()
    elif k == 'int':
        X = np.round(X)
    elif k == 'zero':
        X = X * 0
    return X


def spec(draw, form=None, own='any', offset=True, cls=None, zero_par=True):
    if cls is None:
        cls, form = pick(draw, *FORMS)
    shape = [integer(draw, 1, 5), integer(draw, 1, 5)]
    s = {'cls': cls, 'shape': shape, 'form': form, 'par': pen.par(draw, '') if zero_par else positive(draw, 0.02, 20.),
         'offset': None, 'quad': None}
    if 'block_' in cls and 'sparse' not in cls:
        s['inner'] = pick(draw, *INNER)
    if 'sparse' in cls:
        s['w1'] = pick(draw, 0., 1., positive(draw))
        s['w2'] = pick(draw, 1., positive(draw), 0. if s['w1'] > 0 else 1.)
    if offset and boolean(draw, 2, 5):
        s['offset'] = arr(draw, shape)
    if own is not None and boolean(draw, 2, 5):
        s['quad'] = quad(draw, tuple(shape), 'zero' if own == 'linear' else 'any')
    return s


def build(s):
    import regreg.api as R
    from regreg.atoms import block_norms as B, sparse_group_block as S
    kw = dict(pen.EXTRA, **{s['form']: s['par']})
    if s['offset'] is not None:
        kw['offset'] = s['offset'].copy()
    if s['quad'] is not None:
        kw['quadratic'] = pen.iq(s['quad'])
    c, sh = s['cls'], tuple(s['shape'])
    if c in ('nuclear_norm', 'operator_norm'):
        return getattr(R, c)(sh, **kw)
    if c.startswith('block_'):
        return getattr(B, c)(getattr(R, s['inner']), sh, **kw)
    if c.startswith('sparse'):
        return getattr(S, c)(sh, s['w1'], s['w2'], **kw)
    return getattr(B, c)(sh, **kw)


def gauge(s):
    c = s['cls']
    if c == 'nuclear_norm':
        return O.Nuclear()
    if c == 'operator_norm':
        return O.Operator()
    if c in ('block_sum', 'block_max'):
        return O.Block(pen.REF[s['inner']](), O.L1() if c == 'block_sum' else O.Sup())
    if c.startswith('sparse'):
        n, p = s['shape']
        g = O.SparseGroup(np.repeat(np.arange(n), p).tolist(), dict((i, s['w2']) for i in range(n)), np.ones(n * p) * s['w1'])
        return O.Flat(O.Polar(g) if c.endswith('dual') else g)
    i, o = {'l1_l2': (O.L2, O.L1), 'linf_l2': (O.L2, O.Sup), 'l1_l1': (O.L1, O.L1), 'linf_linf': (O.Sup, O.Sup)}[c]
    return O.Block(i(), o())


def gen_q(draw, shape):
    q = quad(draw, tuple(shape))
    if boolean(draw, 1, 2):
        q[1] = matrix(draw, tuple(shape))
    if not isinstance(q[1], np.ndarray) and not isinstance(q[2], np.ndarray):
        q[1] = matrix(draw, tuple(shape))
    return q


def rescale(draw, s, q):
    """often choose the multiplier / bound relative to the critical value"""
    if not boolean(draw, 2, 3):
        return
    g = gauge(s)
    c, l = pen.qsum(tuple(s['shape']), s['quad'], q)
    w = -l / c - (0 if s['offset'] is None else s['offset'])
    h = g.h(g.clean(w, np.inf)) if s['form'] == 'bound' else c * g.polar(g.polar_clean(w, np.inf))
    if np.isfinite(h) and h > 0:
        s['par'] = float(h * pick(draw, 1., 0.5, 0.2, 0.7, 1.5))


def gen(draw):
    s = spec(draw)
    q = gen_q(draw, s['shape'])
    rescale(draw, s, q)
    return {'pen': s, 'q': q}


def total_check(a, s, q):
    g = gauge(s)
    z = np.asarray(a.proximal(pen.iq(q)))
    v, kind = pen.check_prox(s, g, z, q)
    h = 0.
    if s['form'] == 'lagrange':
        y = z if s['offset'] is None else z - s['offset']
        h = s['par'] * g.h(g.clean(y, np.inf))
    ref = h + pen.qval(s['quad'], z) + pen.qval(q, z)
    sc = z.size * (1 + abs(ref) + np.abs(z).max() ** 2 + np.abs(v).max() ** 2)
    arg, opt = a.proximal_optimum(pen.iq(q))
    pen.same('proximal_optimum: argmin', arg, z)
    pen.same('proximal_optimum: value', opt, ref, scale=sc)
    return kind


def name(s):
    return s['cls'] + (' of %s' % s['inner'] if 'inner' in s else '')


@sub('C08', 'proximal map', gen, quick=3000, thorough=80000, cost=4)
def prox(case):
    s = case['pen']
    kind = total_check(build(s), s, case['q'])
    return None if kind == 'free' else '%s %s %s' % (name(s), s['form'], kind)


def gen_value(draw):
    cls = pick(draw, *MAT)
    s = spec(draw, cls=cls, form=pick(draw, 'lagrange', 'bound'))
    y = matrix(draw, tuple(s['shape']))
    g = gauge(s)
    if boolean(draw, 2, 3):
        y = g.clean(y, np.inf)
    if s['form'] == 'bound' and boolean(draw, 2, 3):
        h = g.h(y)
        if np.isfinite(h) and h > 0:
            y = y * (s['par'] / h * pick(draw, 0.5, 0.999, 0.999999, 1.01, 3.))
    return {'pen': s, 'x': y + (0 if s['offset'] is None else s['offset']), 'm': pen.par(draw, ''), 'par2': pen.par(draw, ''),
            'int': boolean(draw, 1, 6)}


@sub('C08', 'value', gen_value, quick=2000, thorough=50000, cost=3)
def value(case):
    s, x, m = case['pen'], case['x'], case['m']
    if case['int']:
        x = np.round(x).astype(int)
    a, g = build(s), gauge(s)
    y = x - s['offset'] if s['offset'] is not None else np.asarray(x, float)
    h = ref_h(s, g, y)
    if h is None:
        return None
    q = pen.qval(s['quad'], x)
    sc = (1 + np.abs(x).max() ** 2 * (1 + (s['quad'][0] if s['quad'] else 0)) + np.abs(y).max() * (1 + s['par'])) * x.size
    if s['cls'] == 'sparse_group_block_dual':
        sc *= 1e5 * (1 + h)

    def total(par):
        if s['form'] == 'lagrange':
            return q + (par * h if np.isfinite(h) else np.inf)
        u = unit_bound(h, par)
        return None if u is None else u + q
    expect('%s value (%s)' % (name(s), s['form']), a.nonsmooth_objective(x, check_feasibility=True), total(s['par']), sc)
    if s['form'] == 'bound':
        expect('%s value without feasibility check' % name(s), a.nonsmooth_objective(x), q, sc)
    elif np.isfinite(h):
        expect('%s value without feasibility check' % name(s), a.nonsmooth_objective(x), q + s['par'] * h, sc)
    expect('%s seminorm' % name(s), a.seminorm(y, lagrange=m, check_feasibility=True), m * h if np.isfinite(h) else np.inf, sc * (1 + m))
    expect('%s constraint' % name(s), a.constraint(y, bound=m), unit_bound(h, m))
    setattr(a, s['form'], case['par2'])
    if getattr(a, s['form']) != case['par2']:
        raise Violation('%s not updated' % s['form'])
    expect('%s value after setting the %s' % (name(s), s['form']), a.nonsmooth_objective(x, check_feasibility=True),
           total(case['par2']), sc * (1 + case['par2']))
    return '%s %s' % (name(s), 'inf' if h == np.inf else s['form']) if h else None


def gen_changed(draw):
    c = gen(draw)
    c['par2'] = pen.par(draw, '')
    c['before'] = boolean(draw)
    return c


@sub('C08', 'changed multiplier or bound', gen_changed, quick=1000, thorough=20000, cost=4)
def changed(case):
    """after assigning a new multiplier / bound the proximal map and conjugate follow"""
    s, q = dict(case['pen']), case['q']
    a = build(s)
    if case['before']:
        a.proximal(pen.iq(q))
        if (s['quad'] or [0])[0] == 0:
            a.conjugate
    setattr(a, s['form'], case['par2'])
    s['par'] = case['par2']
    kind = total_check(a, s, q)
    if s['quad'] is None or s['quad'][0] == 0:
        c = a.conjugate
        other = 'bound' if s['form'] == 'lagrange' else 'lagrange'
        if getattr(c, other) != s['par']:
            raise Violation('%s of the conjugate is %r, expected %r' % (other, getattr(c, other), s['par']))
    return None if kind == 'free' else name(s) + ' ' + kind


def gen_conj(draw):
    s = spec(draw, cls=pick(draw, *MAT), form=pick(draw, 'lagrange', 'bound'), own='linear')
    return {'pen': s, 'u': matrix(draw, tuple(s['shape'])), 'x': matrix(draw, tuple(s['shape']))}


@sub('C08', 'conjugate', gen_conj, quick=1200, thorough=30000, cost=4)
def conjugate(case):
    """value of the conjugate, its proximal map, and the double conjugate"""
    s, u, x = case['pen'], case['u'], case['x']
    sh = tuple(s['shape'])
    a, g = build(s), gauge(s)
    d = O.Polar(g)
    l, k = np.zeros(sh), 0.
    if s['quad'] is not None:
        l = np.zeros(sh) if s['quad'][2] is None else s['quad'][2] + np.zeros(sh)
        k = s['quad'][3] or 0.
    off = np.zeros(sh) if s['offset'] is None else s['offset']
    c = a.conjugate
    loose = 1e5 if 'sparse' in s['cls'] else 1.

    def ref(dom, form, par, y):
        h = ref_h(s, dom, y)
        if h is None:
            return None
        return (np.inf if h == np.inf else par * h) if form == 'lagrange' else unit_bound(h, par)
    for pt in (u, d.clean(u - l, np.inf) + l):
        r = ref(d, 'bound' if s['form'] == 'lagrange' else 'lagrange', s['par'], pt - l)
        if r is not None:
            r = r + (off * (pt - l)).sum() - k
        sc = u.size * (1 + np.abs(pt).max() * (1 + np.abs(off).max() + s['par']) + abs(k) + np.abs(off * l).sum())
        expect('conjugate of %s' % name(s), c.nonsmooth_objective(pt, check_feasibility=True), r, 10 * sc * loose * (1 + np.abs(pt).max()))
    cc = c.conjugate
    for pt in (x, g.clean(x - off, np.inf) + off):
        r = ref(g, s['form'], s['par'], pt - off)
        if r is not None:
            r = r + (l * pt).sum() + k
        sc = u.size * (1 + np.abs(pt).max() * (1 + np.abs(l).max() + s['par']) + abs(k) + np.abs(off * l).sum())
        expect('double conjugate of %s' % name(s), cc.nonsmooth_objective(pt, check_feasibility=True), r, 10 * sc * loose * (1 + np.abs(pt).max()))
    if s['form'][0].upper() in MAT[s['cls']]:
        z = np.asarray(a.proximal(pen.iq([1., x, 0, 0])))
        w = np.asarray(c.proximal(pen.iq([1., x, 0, 0])))
        pen.same('Moreau decomposition', z + w, x, rtol=1e-8,
                 scale=1 + np.abs(x).max() + np.abs(off).max() + np.abs(l).max() + s['par'])
        pen.check_prox(s, g, np.asarray(cc.proximal(pen.iq([1., x, 0, 0]))), [1., x, 0, 0])
    return name(s) + (' offset' if s['offset'] is not None else '')


def gen_inv(draw):
    cls, form = pick(draw, *FORMS)
    return {'cls': cls, 'form': form, 'inner': pick(draw, *INNER), 'n': integer(draw, 1, 25), 'p': integer(draw, 1, 12),
            'seed': seed(draw), 'rank': integer(draw, 0, 12), 'rel': real(draw, 0.02, 1.2), 'c': positive(draw),
            'w1': pick(draw, 0.3, 1., 0.), 'w2': pick(draw, 1., 0.6)}


@sub('C08', 'invariance', gen_inv, quick=800, thorough=20000, cost=5)
def invariance(case):
    """larger matrices; spectral penalties commute with rotations and
    transposition, block penalties with reordering rows"""
    r = np.random.RandomState(case['seed'])
    n, p, c = case['n'], case['p'], case['c']
    X = r.standard_normal((n, p))
    if 0 < case['rank'] < min(n, p):
        X = r.standard_normal((n, case['rank'])).dot(r.standard_normal((case['rank'], p)))
    elif case['rank'] == 0:
        X[r.uniform(size=n) < 0.4] = 0
    s = {'cls': case['cls'], 'shape': [n, p], 'form': case['form'], 'offset': None, 'quad': None, 'par': 1.,
         'inner': case['inner'], 'w1': case['w1'], 'w2': case['w2']}
    g = gauge(s)
    h = g.h(g.clean(X, np.inf)) if s['form'] == 'bound' else c * g.polar(g.polar_clean(X, np.inf))
    s['par'] = float(h * case['rel'])
    a = build(s)
    f = lambda a, x: np.asarray(a.proximal(pen.iq([c, x, 0, 0])))
    z = f(a, X)
    _, kind = pen.check_prox(s, g, z, [c, X, 0, 0])
    rt = 1e-4 if s['cls'].startswith('sparse') and s['cls'].endswith('dual') else 1e-8
    val = lambda a, x: a.seminorm(x, lagrange=1.)
    y = g.clean(X, np.inf)
    pen.same('seminorm', val(a, y), g.h(y), rtol=rt)
    if s['cls'] in ('nuclear_norm', 'operator_norm'):
        U = np.linalg.qr(r.standard_normal((n, n)))[0]
        V = np.linalg.qr(r.standard_normal((p, p)))[0]
        pen.same('rotated proximal map', f(a, U.dot(X).dot(V)), U.dot(z).dot(V), rtol=1e-7)
        pen.same('rotated value', val(a, U.dot(X).dot(V)), val(a, X), rtol=1e-8)
        b = build(dict(s, shape=[p, n]))
        pen.same('transposed proximal map', f(b, X.T.copy()), z.T, rtol=1e-7)
    else:
        i = r.permutation(n)
        pen.same('reordered proximal map', f(a, X[i]), z[i], rtol=1e-8)
        pen.same('reordered value', val(a, y[i]), val(a, y), rtol=rt)
        if hasattr(a, 'terms') and s['cls'] == 'sparse_group_block':
            t = np.asarray(a.terms(X))
            pen.same('terms', t, s['w1'] * np.abs(X).sum(1) + s['w2'] * np.sqrt((X ** 2).sum(1)), rtol=1e-9)
            pen.same('sum of terms', t.sum(), val(a, X), rtol=1e-9)
        elif s['cls'] == 'sparse_group_block_dual':
            t = np.asarray(a.terms(X))
            ref = np.array([O.SparseGroup([0] * p, {0: s['w2']}, np.ones(p) * s['w1']).polar(x) for x in X])
            pen.same('terms', t, ref, rtol=1e-3)
        if 'block_' in s['cls'] and 'sparse' not in s['cls']:
            t = np.asarray(a.seminorms(y, lagrange=1.))
            pen.same('row seminorms', t, np.array([pen.REF[s['inner']]().h(v) for v in y]), rtol=1e-9)
    return None if kind == 'free' else name(s) + ' ' + kind if 'block_' in s['cls'] and 'sparse' not in s['cls'] else s['cls'] + ' ' + kind
