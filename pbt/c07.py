"""C07: group-structured penalties: proximal maps, values, group terms."""
import numpy as np

from .core import prop, sub, Violation, Reject
from .gens import pick, boolean, integer, positive, vec, quad, seed, real, partition
from . import pen, oracle as O
from .c01 import gen_q
from .c04 import ref_h, unit_bound, expect

prop('C07',
     rule='Group labels (integer, negative, strings, interleaved, singletons), group weights (default, positive, 0), '
          'l1 weights, mixed labels (group, l1, unpenalised, positive part, non-negative), multiplier / bound, offset, '
          'quadratics and arguments are generated; non-trivial when the exact solution is neither the unpenalised '
          'one nor, for values, zero.  Oracle: Fenchel optimality certificates and values computed from the '
          'definition of each penalty on plain arrays, and relabelling / reordering relations.',
     assumptions=['finite positive or zero group weights', 'relative tolerance 1e-8 (dual sparse group lasso values: 1e-4)'])

FORMS = [('group_lasso', 'lagrange'), ('group_lasso', 'bound'), ('group_lasso_dual', 'lagrange'),
         ('group_lasso_dual', 'bound'), ('sparse_group_lasso', 'lagrange'), ('sparse_group_lasso_dual', 'bound')]


def total_check(a, s, g, q):
    z = np.asarray(a.proximal(pen.iq(q)))
    v, kind = pen.check_prox(s, g, z, q)
    h = 0.
    if s['form'] == 'lagrange':
        y = z if s['offset'] is None else z - s['offset']
        h = s['par'] * g.h(g.clean(y, np.inf))
    ref = h + pen.qval(s['quad'], z) + pen.qval(q, z)
    sc = 1 + abs(ref) + np.abs(z).max() ** 2 + np.abs(v).max() ** 2
    arg, opt = a.proximal_optimum(pen.iq(q))
    pen.same('proximal_optimum: argmin', arg, z)
    pen.same('proximal_optimum: value', opt, ref, scale=sc * (1e4 if s['cls'].endswith('group_lasso_dual') else 1))
    return kind


def gen(draw):
    cls, form = pick(draw, *FORMS)
    s = pen.spec(draw, cls, form)
    q = gen_q(draw, s['n'])
    if boolean(draw, 1, 2):
        g = pen.gauge(s)
        c, l = pen.qsum(s['n'], s['quad'], q)
        w = -l / c - (0 if s['offset'] is None else s['offset'])
        h = (g.h if form == 'bound' else lambda u: c * g.polar(u))(g.clean(w, np.inf) if form == 'bound' else g.polar_clean(w, np.inf))
        if np.isfinite(h) and h > 0:
            s['par'] = float(h * pick(draw, 1., 0.5, 0.2, 1.5))
    return {'pen': s, 'q': q}


@sub('C07', 'proximal map', gen, quick=2500, thorough=60000, cost=4)
def prox(case):
    s = case['pen']
    kind = total_check(pen.build(s), s, pen.gauge(s), case['q'])
    return None if kind == 'free' else '%s %s %s' % (s['cls'], s['form'], kind)


# mixed lasso --------------------------------------------------------------

def mixed_labels(draw, n):
    k = integer(draw, 0, 4)
    base = {0: [-2, -1, -3, -4, 0, 1, 2], 1: [0, 1, 2], 2: [-2, 0, 1], 3: [-3, -4, -2, 5], 4: [-1, 0, 3, 3]}[k]
    return [pick(draw, *base) for _ in range(n)]


def mixed_spec(draw, dual=None, own='any', zero_par=True):
    n = integer(draw, 1, 8)
    dual = boolean(draw) if dual is None else dual
    lab = mixed_labels(draw, n)
    w = {}
    for g in sorted(set(k for k in lab if k >= 0)):
        k = pick(draw, 'default', 'pos', 'pos', 'zero')
        if k != 'default':
            w[g] = positive(draw) if k == 'pos' else 0.
    s = {'cls': 'mixed_lasso_dual' if dual else 'mixed_lasso', 'n': n, 'form': 'bound' if dual else 'lagrange',
         'labels': lab, 'gweights': w, 'par': pen.par(draw, '') if zero_par else positive(draw, 0.02, 20.),
         'offset': vec(draw, n) if boolean(draw, 2, 5) else None, 'quad': None}
    if own is not None and boolean(draw, 2, 5):
        s['quad'] = quad(draw, n, 'zero' if own == 'linear' else 'any')
    return s


def mixed_build(s):
    from regreg.atoms.mixed_lasso import mixed_lasso, mixed_lasso_dual
    kw = dict(pen.EXTRA)
    if s['offset'] is not None:
        kw['offset'] = s['offset'].copy()
    if s['quad'] is not None:
        kw['quadratic'] = pen.iq(s['quad'])
    cls = mixed_lasso_dual if s['cls'] == 'mixed_lasso_dual' else mixed_lasso
    return cls(np.array(s['labels']), s['par'], weights=dict(s['gweights']), **kw)


def mixed_weights(s):
    lab = np.array(s['labels'])
    return dict((g, s['gweights'].get(g, np.sqrt((lab == g).sum()))) for g in set(s['labels']) if g >= 0)


def mixed_gauge(s):
    m = O.Mixed(s['labels'], mixed_weights(s))
    return O.Polar(m) if s['cls'] == 'mixed_lasso_dual' else m


def gen_mixed(draw):
    s = mixed_spec(draw)
    return {'pen': s, 'q': gen_q(draw, s['n'])}


@sub('C07', 'mixed lasso proximal map', gen_mixed, quick=1500, thorough=40000, cost=4)
def mixed_prox(case):
    s = case['pen']
    a = mixed_build(s)
    kind = total_check(a, s, mixed_gauge(s), case['q'])
    # the same object again (internal buffers)
    pen.check_prox(s, mixed_gauge(s), a.proximal(pen.iq(case['q'])), case['q'])
    return None if kind == 'free' else '%s %s' % (s['cls'], kind)


def gen_mvalue(draw):
    s = mixed_spec(draw)
    g = mixed_gauge(s)
    y = vec(draw, s['n'])
    mode = integer(draw, 0, 3)
    if mode:
        y = g.clean(y, np.inf)
    h = g.h(y)
    if mode > 1 and s['form'] == 'bound' and np.isfinite(h) and h > 0:
        y = y * (s['par'] / h * pick(draw, 0.5, 0.999, 1.01, 3.))
    return {'pen': s, 'x': y + (0 if s['offset'] is None else s['offset']), 'm': pen.par(draw, ''),
            'int': boolean(draw, 1, 6)}


@sub('C07', 'mixed lasso value', gen_mvalue, quick=1500, thorough=40000, cost=3)
def mixed_value(case):
    s, x = case['pen'], case['x']
    if case['int']:
        x = np.round(x).astype(int)
    a, g = mixed_build(s), mixed_gauge(s)
    y = x - s['offset'] if s['offset'] is not None else np.asarray(x, float)
    h = ref_h(s, g, y)
    q = pen.qval(s['quad'], x)
    sc = 1 + np.abs(x).max() ** 2 * (1 + (s['quad'][0] if s['quad'] else 0)) + np.abs(y).max() * (1 + s['par'])
    if h is None:
        return None
    if s['form'] == 'lagrange':
        ref = q + (s['par'] * h if np.isfinite(h) else np.inf)
        snorm = s['par'] * h if np.isfinite(h) else np.inf
    else:
        u = unit_bound(h, s['par'])
        ref = None if u is None else u + q
        snorm = h
    expect('%s value' % s['cls'], a.nonsmooth_objective(x, check_feasibility=True), ref, sc)
    if s['form'] == 'bound':
        expect('%s value without feasibility check' % s['cls'], a.nonsmooth_objective(x), q, sc)
        expect('%s seminorm' % s['cls'], a.seminorm(y, lagrange=case['m'], check_feasibility=True),
               np.inf if h == np.inf else case['m'] * h, sc * (1 + case['m']))
    elif np.isfinite(h):
        expect('%s value without feasibility check' % s['cls'], a.nonsmooth_objective(x), q + s['par'] * h, sc)
    expect('%s seminorm' % s['cls'], a.seminorm(y, check_feasibility=True), snorm, sc)
    expect('%s constraint' % s['cls'], a.constraint(y, bound=case['m']),
           unit_bound(snorm, case['m']))
    return '%s %s' % (s['cls'], 'inf' if h == np.inf else 'finite') if h else None


def gen_mconj(draw):
    s = mixed_spec(draw, own='linear')
    return {'pen': s, 'u': vec(draw, s['n']), 'x': vec(draw, s['n'])}


@sub('C07', 'mixed lasso conjugate', gen_mconj, quick=600, thorough=15000, cost=3)
def mixed_conj(case):
    """value of the conjugate; double conjugate is the original"""
    s, u, x = case['pen'], case['u'], case['x']
    a, g = mixed_build(s), mixed_gauge(s)
    c = a.conjugate
    l, k = np.zeros(s['n']), 0.
    if s['quad'] is not None:
        l = np.zeros(s['n']) if s['quad'][2] is None else s['quad'][2] + np.zeros(s['n'])
        k = s['quad'][3] or 0.
    off = np.zeros(s['n']) if s['offset'] is None else s['offset']
    d = O.Polar(g)

    def ref(dom, form, par, y):
        """value of par*gauge / indicator"""
        h = ref_h(s, dom, y)
        if h is None:
            return None
        return (np.inf if h == np.inf else par * h) if form == 'lagrange' else unit_bound(h, par)
    for pt in (u, d.clean(u - l, np.inf) + l, l + 0.5 * (u - l)):
        # f(x) = h(x - off) + <l, x> + k ; f*(u) = h*(u - l) + <off, u - l> - k
        r = ref(d, 'bound' if s['form'] == 'lagrange' else 'lagrange', s['par'], pt - l)
        if r is not None:
            r = r + (off * (pt - l)).sum() - k
        sc = 1 + np.abs(pt).max() * (1 + np.abs(off).max() + s['par']) + abs(k) + np.abs(off * l).sum()
        expect('conjugate of %s' % s['cls'], c.nonsmooth_objective(pt, check_feasibility=True), r, 10 * sc)
    cc = c.conjugate
    for pt in (x, g.clean(x - off, np.inf) + off):
        r = ref(g, s['form'], s['par'], pt - off)
        if r is not None:
            r = r + (l * pt).sum() + k
        sc = 1 + np.abs(pt).max() * (1 + np.abs(l).max() + s['par']) + abs(k) + np.abs(off * l).sum()
        expect('double conjugate of %s' % s['cls'], cc.nonsmooth_objective(pt, check_feasibility=True), r, 10 * sc)
    q = [1., x, 0, 0]
    z = np.asarray(a.proximal(pen.iq(q)))
    w = np.asarray(c.proximal(pen.iq([1., x, 0, 0])))
    pen.same('Moreau decomposition', z + w, x, rtol=1e-8, scale=1 + np.abs(x).max() + np.abs(off).max() + np.abs(l).max())
    return s['cls'] + (' offset' if s['offset'] is not None else '')


# terms, dual norms ---------------------------------------------------------

CL = ['group_lasso', 'group_lasso_dual', 'sparse_group_lasso', 'sparse_group_lasso_dual']


def gen_terms(draw):
    cls = pick(draw, *CL)
    s = pen.spec(draw, cls, 'bound' if cls == 'sparse_group_lasso_dual' else 'lagrange', own=None, offset=False, zero_par=False)
    return {'pen': s, 'x': pen.gauge(s).clean(vec(draw, s['n']), np.inf)}


@sub('C07', 'group terms', gen_terms, quick=1200, thorough=30000, cost=3)
def terms(case):
    """one term per group in sorted order, adding up to / attaining the seminorm"""
    s, x = case['pen'], case['x']
    a = pen.build(s)
    grp, w = np.asarray(s['groups']), pen.full_weights(s)
    if dict(a.weights) != w:
        raise Violation('weights %r, expected %r' % (a.weights, w))
    ref, rt = [], 1e-9
    for g in sorted(w):
        b = x[grp == g]
        if s['cls'] == 'group_lasso':
            ref.append(w[g] * np.linalg.norm(b))
        elif s['cls'] == 'group_lasso_dual':
            ref.append(np.linalg.norm(b) / w[g] if w[g] > 0 else 0.)
        elif s['cls'] == 'sparse_group_lasso':
            ref.append(w[g] * np.linalg.norm(b) + (s['l1w'][grp == g] * np.abs(b)).sum())
        else:
            ref.append(O.SparseGroup([0] * len(b), {0: w[g]}, s['l1w'][grp == g]).polar(b))
            rt = 1e-3   # bisection with tolerance 1e-5 on membership
    if np.all(np.isfinite(ref)):
        got = np.asarray(a.terms(x.copy()), float)
        scale = 1 + np.max(ref)
        if s['cls'] == 'sparse_group_lasso_dual':
            scale = 1 + np.max(ref) * (1 + 1. / min(min(w.values()), 1.))
        pen.same(s['cls'] + ' terms', got, np.array(ref), rtol=rt, scale=scale)
        got2 = np.asarray(a.terms(x.tolist()), float)
        pen.same('terms of a list', got2, got)
        tot = sum(ref) if not s['cls'].endswith('dual') else max(ref)
        pen.same(s['cls'] + ' seminorm from terms', a.seminorm(x, lagrange=1.), tot,
                 rtol=1e-8 if s['cls'] != 'sparse_group_lasso_dual' else 1e-4, scale=scale)
    return s['cls'] if np.any(np.array(ref) > 0) and len(ref) > 1 else None


def gen_dual(draw):
    s = pen.spec(draw, 'sparse_group_lasso', 'lagrange', own=None, offset=False, zero_par=False)
    return {'pen': s, 'u': vec(draw, s['n']), 'scale': real(draw, 0.2, 2.)}


@sub('C07', 'dual norm of the sparse group lasso', gen_dual, quick=900, thorough=20000, cost=5)
def dual_norm(case):
    from regreg.atoms.sparse_group_lasso import (gauge_function_dual, inside_set, _gauge_function_dual_strong,
                                                 _inside_set_strong)
    s, u = case['pen'], case['u']
    a, g = pen.build(s), pen.gauge(s)
    d = g.polar(u)
    sc = 1 + np.abs(u).max()
    if not np.isfinite(d):
        raise Reject('unbounded dual norm')
    # membership is decided up to 1e-7 in the displacement
    got = gauge_function_dual(a, u.copy())
    tol = 1e-5 * sc * (1 + d) if d > 1e-9 else 1e-6
    if not abs(got - d) <= tol:
        raise Violation('dual norm of %s: got %r, expected %r' % (u, got, d))
    if d > 0:
        if not inside_set(a, u / (d * (1 + 1e-5))):
            raise Violation('inside_set refuses a point of dual norm 1-1e-5')
        if inside_set(a, u / d * 1.01) and np.abs(u / d).max() < 1e3:
            raise Violation('inside_set accepts a point of dual norm 1.01')
        t = d * case['scale']
        grp = np.asarray(s['groups'])
        w = pen.full_weights(s)
        for k in sorted(w):
            m = grp == k
            o = O.SparseGroup([0] * m.sum(), {0: w[k]}, s['l1w'][m])
            dk = o.polar(u[m])
            val, l1g, l2g = _gauge_function_dual_strong(u[m], s['l1w'][m], w[k])
            # membership up to 1e-5 in units of the group weight
            if not abs(val - dk) <= 1e-3 * (1 + dk) * (1 + 1. / min(1., w[k])):
                raise Violation('group dual norm of %s: got %r, expected %r' % (u[m], val, dk))
            ins = _inside_set_strong(u[m], t, s['l1w'][m], w[k])
            if ins and dk > t * (1 + 1e-2) * (1 + 1e-4 / min(1., w[k])):
                raise Violation('_inside_set_strong accepts dual norm %r for bound %r' % (dk, t))
            if not ins and dk <= t * (1 - 1e-9):
                raise Violation('_inside_set_strong refuses dual norm %r for bound %r' % (dk, t))
    return '%d groups' % len(set(s['groups'])) if d > 0 else None


# relations ----------------------------------------------------------------

def gen_perm(draw):
    cls, form = pick(draw, *FORMS)
    return {'cls': cls, 'form': form, 'n': integer(draw, 2, 60), 'k': integer(draw, 1, 8), 'seed': seed(draw),
            'rel': real(draw, 0.05, 1.2), 'zero': boolean(draw), 'names': pick(draw, 'int', 'str', 'float'), 'c': positive(draw)}


@sub('C07', 'relabelling and reordering', gen_perm, quick=600, thorough=15000, cost=4)
def relabel(case):
    """larger instances: certificate, and the same answer after permuting the
    features and renaming the groups"""
    r = np.random.RandomState(case['seed'])
    n, k, cls = case['n'], case['k'], case['cls']
    lab = r.randint(0, k, n)
    w = dict((g, float(r.choice([0.3, 1., 2.5]))) for g in range(k) if r.uniform() < 0.7)
    if case['zero'] and 'sparse' not in cls:
        w[int(lab[0])] = 0.
    x = r.standard_normal(n) * np.exp(r.standard_normal())
    l1w = r.uniform(0, 1, n) * (r.uniform(size=n) < 0.8)
    names = {'int': lambda g: 100 - 7 * g, 'str': lambda g: 'xyzabcde'[g], 'float': lambda g: -1.5 * g}[case['names']]
    perm = r.permutation(n)

    def spec(lab, w, l1w, par):
        return {'cls': cls, 'n': n, 'form': case['form'], 'groups': list(lab), 'gweights': w, 'l1w': l1w,
                'par': par, 'offset': None, 'quad': None}
    s1 = spec(lab.tolist(), w, l1w, 1.)
    g = pen.gauge(s1)
    h = g.h(g.clean(x, np.inf)) if case['form'] == 'bound' else case['c'] * g.polar(g.polar_clean(x, np.inf))
    s1['par'] = float(h * case['rel'])
    # keep the default weights under the new names: they only depend on the sizes
    s2 = spec([names(t) for t in lab[perm].tolist()], dict((names(t), v) for t, v in w.items() if t in lab), l1w[perm], s1['par'])
    s1['gweights'] = dict((t, v) for t, v in w.items() if t in lab)
    a1, a2 = pen.build(s1), pen.build(s2)
    q = [case['c'], x, 0, 0]
    z = np.asarray(a1.proximal(pen.iq(q)))
    _, kind = pen.check_prox(s1, g, z, q)
    z2 = np.asarray(a2.proximal(pen.iq([case['c'], x[perm], 0, 0])))
    pen.same('proximal map after reordering', z2, z[perm], rtol=1e-8)
    y = g.clean(x, np.inf)
    hv = g.h(y)
    rt = 1e-4 if cls == 'sparse_group_lasso_dual' else 1e-9
    for a, pt in ((a1, y), (a2, y[perm])):
        pen.same('seminorm', a.seminorm(pt, lagrange=1.), hv, rtol=rt)
    return cls + ' ' + case['form'] + ' ' + kind if len(set(lab.tolist())) > 1 else None


def gen_special(draw):
    what = pick(draw, 'all l1', 'one group each', 'no l1', 'no group', 'positive part', 'groups only', 'unpenalised', 'nonneg')
    n = integer(draw, 1, 7)
    return {'what': what, 'n': n, 'x': vec(draw, n), 'lam': positive(draw), 'c': positive(draw),
            'w': np.array([positive(draw) for _ in range(n)]), 'lab': partition(draw, n)}


@sub('C07', 'special cases', gen_special, quick=800, thorough=20000, cost=3)
def special(case):
    """degenerate structures reduce to the simple penalties"""
    import regreg.api as R
    from regreg.atoms import weighted_atoms as W
    from regreg.atoms.mixed_lasso import mixed_lasso
    what, n, x, lam, c, w = [case[k] for k in ('what', 'n', 'x', 'lam', 'c', 'w')]
    lab = case['lab']
    if what == 'all l1':
        a, b = mixed_lasso(np.array([-2] * n), lam), R.l1norm(n, lagrange=lam)
    elif what == 'one group each':
        a = R.group_lasso(list(range(n)), weights=dict(enumerate(w)), lagrange=lam)
        b = W.l1norm(w, lagrange=lam)
    elif what == 'no l1':
        a = R.sparse_group_lasso(lab, np.zeros(n), lagrange=lam)
        b = R.group_lasso(lab, lagrange=lam)
    elif what == 'no group':
        a = R.sparse_group_lasso(lab, w, weights=dict((g, 0.) for g in lab), lagrange=lam)
        b = W.l1norm(w, lagrange=lam)
    elif what == 'positive part':
        a, b = mixed_lasso(np.array([-3] * n), lam), R.constrained_positive_part(n, lagrange=lam)
    elif what == 'groups only':
        a, b = mixed_lasso(np.array(lab), lam), R.group_lasso(lab, lagrange=lam)
    elif what == 'unpenalised':
        a, b = mixed_lasso(np.array([-1] * n), lam), R.zero(n)
    else:
        a, b = mixed_lasso(np.array([-4] * n), lam), R.nonnegative(n)
    za, zb = a.proximal(pen.iq([c, x, 0, 0])), b.proximal(pen.iq([c, x, 0, 0]))
    pen.same(what + ': proximal map', za, zb, rtol=1e-9)
    pen.same(what + ': value', a.nonsmooth_objective(zb, check_feasibility=True),
             b.nonsmooth_objective(zb, check_feasibility=True), rtol=1e-9)
    return what if np.abs(np.asarray(zb)).max() > 0 or what == 'nonneg' else None


def gen_setw(draw):
    cls = pick(draw, 'group_lasso', 'group_lasso_dual', 'sparse_group_lasso')
    s = pen.spec(draw, cls, 'bound' if cls != 'sparse_group_lasso' and boolean(draw) else 'lagrange', own=None, zero_par=False)
    ids = sorted(set(s['groups']))
    changes = [[pick(draw, *ids), positive(draw)] for _ in range(integer(draw, 1, 3))]
    return {'pen': s, 'changes': changes, 'x': vec(draw, s['n']), 'use': boolean(draw)}


@sub('C07', 'changing a group weight', gen_setw, quick=600, thorough=12000, cost=4)
def set_weight(case):
    """after set_weight the object behaves as one built with the new weights"""
    s, x = case['pen'], case['x']
    a = pen.build(s)
    new = dict(s, gweights=dict(pen.full_weights(s)))
    if case['use']:
        a.proximal(pen.iq([1., x, 0, 0]))
        a.nonsmooth_objective(x)
        a.conjugate
    for g, w in case['changes']:
        a.set_weight(g, w)
        new['gweights'][g] = w
    b = pen.build(new)
    if dict(a.weights) != dict(b.weights):
        raise Violation('weights after set_weight: %r, expected %r' % (a.weights, b.weights))
    gau = pen.gauge(new)
    z = a.proximal(pen.iq([1., x, 0, 0]))
    _, kind = pen.check_prox(new, gau, z, [1., x, 0, 0])
    pen.same('terms', a.terms(x), b.terms(x))
    pen.same('value', a.nonsmooth_objective(x), b.nonsmooth_objective(x))
    ca, cb = a.conjugate, b.conjugate
    if s['cls'] != 'sparse_group_lasso':
        pen.same('conjugate value', ca.seminorm(x, lagrange=1.), cb.seminorm(x, lagrange=1.))
        pen.same('conjugate proximal', ca.proximal(pen.iq([1., x, 0, 0])), cb.proximal(pen.iq([1., x, 0, 0])))
    return s['cls'] + ' ' + kind


# optimality checks and strong sets -------------------------------------------

def gen_kkt(draw):
    mixed = boolean(draw)
    if mixed:
        s = mixed_spec(draw, dual=False, own=None, zero_par=False)
    else:
        s = pen.spec(draw, 'group_lasso', 'lagrange', own=None, offset=False, zero_par=False)
    s['offset'] = None
    return {'mixed': mixed, 'pen': s, 'x': vec(draw, s['n'], pick(draw, 'grid', 'cont', 'sparse')), 'i': integer(draw, 0, s['n'] - 1),
            'rel': pick(draw, 0.3, 0.9, 1.5)}


@sub('C07', 'optimality report', gen_kkt, quick=900, thorough=20000, cost=3)
def kkt(case):
    """check_KKT accepts an exact solution and refuses a clear violation"""
    from regreg.atoms import mixed_lasso as M, group_lasso as G
    s, v = dict(case['pen']), case['x']
    mixed = case['mixed']
    bld, gau = (mixed_build, mixed_gauge) if mixed else (pen.build, pen.gauge)
    g0 = gau(s)
    d = g0.polar(g0.polar_clean(v, np.inf))
    if not (d > 0 and np.isfinite(d)):
        return None
    s['par'] = lam = float(d * case['rel'])
    a, g = bld(s), gau(s)
    z = np.asarray(a.proximal(pen.iq([1., v, 0, 0])))
    grad = z - v
    fails = (lambda gr, sol: np.asarray(M.check_KKT(a, gr, sol, lam))) if mixed else (lambda gr, sol: np.asarray(G.check_KKT(a, gr, sol, lam)))
    if not mixed:
        if any(w == 0 for w in pen.full_weights(s).values()):
            raise Reject('relative tolerances at a zero weight')
        t = a.terms(z)
        if np.any((t > 0) & (t < 0.05 * np.linalg.norm(z))):
            raise Reject('group too small for the relative activity threshold')
    else:
        # active coordinates must be clear of the tolerances
        big = np.abs(z[z != 0])
        if big.size and big.min() < 1e-6:
            raise Reject('tiny active coordinate')
    f = fails(grad, z)
    if np.any(f):
        raise Violation('check_KKT refuses the exact solution: %s' % f)
    # a gradient outside the dual ball by 10% of the multiplier in some block
    i = case['i']
    w = pen.full_weights(s) if not mixed else mixed_weights(s)
    lab = np.asarray(s['labels'] if mixed else s['groups'])
    k = s['labels'][i] if mixed else s['groups'][i]
    bad = grad.copy()
    if mixed and k < 0:
        if k == -1:
            return 'mixed accepted'
        bad[i] = -lam * 1.1
        who = lab == -9
        who[i] = True
    else:
        wk = w[k]
        if wk == 0:
            return None
        who = lab == k
        n = np.linalg.norm(bad[who])
        if n > 0:
            bad[who] *= 1.1 * lam * wk / n
        else:
            bad[i] = 1.1 * lam * wk
    f = fails(bad, z)
    if mixed:
        if not np.all(f[who]) or np.any(f[~who]):
            raise Violation('check_KKT flags %s for a violation in %s' % (f, who))
    elif not np.any(f):
        raise Violation('check_KKT accepts a gradient outside the dual ball')
    return 'mixed' if mixed else 'group'


def gen_strong(draw):
    c = gen_kkt(draw)
    c['slope'] = pick(draw, 1, 1, 2., 0.5)
    c['cur'] = positive(draw)
    c['new'] = c['cur'] * pick(draw, 1., 0.9, 0.6, 0.4)
    return c


@sub('C07', 'strong set', gen_strong, quick=800, thorough=15000, cost=3)
def strong(case):
    """the documented screening rule: |block| >= (slope+1) new - slope cur"""
    from regreg.atoms import mixed_lasso as M, group_lasso as G
    s, u, cur, new, sl = case['pen'], case['x'], case['cur'], case['new'], case['slope']
    cut = (sl + 1) * new - sl * cur
    near = lambda t: abs(t) < 1e-9 * (1 + np.abs(u).max() + cur)
    if case['mixed']:
        a = mixed_build(s)
        lab, w = np.array(s['labels']), mixed_weights(s)
        got, sel = M.strong_set(a, cur, new, u.copy(), sl)
        ref = np.zeros(s['n'], bool)
        for i, k in enumerate(lab.tolist()):
            if k == -2:
                t = np.abs(u[i]) - cut
            elif k == -1:
                t = 1.
            elif k == -3:
                t = -u[i] - cut
            elif k == -4:
                t = -u[i] + abs(new - cur) * sl
            else:
                t = np.linalg.norm(u[lab == k]) - w[k] * cut
            if near(t):
                return None
            ref[i] = t >= 0
        if not np.array_equal(np.asarray(got, bool), ref):
            raise Violation('strong set %s, expected %s' % (got, ref))
        pen.same('selector', sel.linear_map(u), u[ref])
        return 'mixed %s' % ('some' if 0 < ref.sum() < s['n'] else 'all')
    a = pen.build(s)
    w = pen.full_weights(s)
    grp = np.asarray(s['groups'])
    ref = []
    for g in sorted(w):
        n = np.linalg.norm(u[grp == g])
        if w[g] == 0:
            t = 1. if n > 0 else -cut
        else:
            t = n / w[g] - cut
        if near(t):
            return None
        if t >= 0:
            ref.append(g)
    got = list(G.strong_set(a, cur, new, u.copy(), sl))
    if got != ref:
        raise Violation('strong set %s, expected %s' % (got, ref))
    return 'group %s' % ('some' if 0 < len(ref) < len(w) else 'all')
