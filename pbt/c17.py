"""C17: solving penalised and constrained problems."""
import numpy as np

from .core import prop, sub, Violation, Reject
from .gens import pick, boolean, integer, positive, vec, arr, quad, real
from . import pen, sets, opt, loss, c12, c15, c08
from .loss import same

prop('C17',
     rule='A smooth function (any generalised linear model or expression of the smooth calculus), a penalty, constraint '
          'or cone in any form with offset and own quadratic, a quadratic of the problem and one passed to solve, a '
          'starting point and solver options are generated.  A plain accelerated method with independently computed '
          'values searches for a better point; non-trivial when the solution differs from the starting point and from '
          'the point the solver would return without the penalty (or the penalty is active).',
     assumptions=['tight solver tolerances are requested; the objective may stay above the best known value by '
                  '1e-6 relative plus the sublinear bound 4 |x0 - x|^2 / (step k^2) at the iteration limit',
                  'problems are coercive'])

COERCIVE = ['l1norm', 'supnorm', 'l2norm', 'wl1norm', 'slope', 'group_lasso']
PENS = pen.VEC + ['wl1norm', 'wsupnorm', 'slope', 'slope_conjugate', 'group_lasso', 'group_lasso_dual',
                  'sparse_group_lasso', 'sparse_group_lasso_dual']
NOPROX = {('slope', 'bound'), ('slope_conjugate', 'lagrange'), ('sparse_group_lasso', 'bound'),
          ('sparse_group_lasso_dual', 'lagrange')}


def gen_smooth(draw, curved):
    """a smooth function of a vector; curved: other parts of the problem are strongly convex"""
    if boolean(draw, 2, 3):
        s = loss.spec(draw, kinds=['gaussian', 'gaussian', 'logistic', 'logistic', 'poisson', 'huber', 'huber_svm', 'cox'])
        d = c12.gen_X(draw, s['n'], ['dense', 'dense', 'fortran', 'csr', 'transform', 'normalize'])
        p = d['X'].shape[1]
        c = {'s': s, 'd': d, 'ctor': boolean(draw, 2, 3), 'cw': loss.case_weights(draw, s['n']),
             'offset': vec(draw, p, 'cont') if boolean(draw, 1, 3) else None,
             'quad': quad(draw, p, 'any') if curved and boolean(draw, 1, 3) else None}
        if c['ctor']:
            s['quad'] = s['cw'] = None
        if s['kind'] == 'poisson':
            d['X'] = d['X'] / (1 + np.abs(d['X']).max())
            s['offset'] = None
        return {'k': 'glm', 'c': c, 'p': p}
    n = integer(draw, 1, 5)
    e = c15.gen_expr(draw, n, integer(draw, 0, 2))
    return {'k': 'expr', 'e': e, 'p': n, 'quad': quad(draw, n, 'any') if curved and boolean(draw, 1, 3) else None}


def build_smooth(f):
    if f['k'] == 'glm':
        return c12.build_glm(f['c'])
    o = c15.build(f['e'], [])
    if f['quad'] is not None:
        o.quadratic = pen.iq(f['quad'])
    return o


def smooth_ref(f):
    """x -> value, gradient; and the own quadratic"""
    if f['k'] == 'glm':
        def g(x):
            _, v, gr, _ = c12.glm_ref(f['c'], x)
            return v, gr
        return g, f['c']['quad']
    return (lambda x: c15.value(f['e'], x)[:2]), f['quad']


def gen_pen(draw, p, curved):
    """penalty, constraint or cone"""
    if curved and boolean(draw, 1, 6):
        cls = pick(draw, *sets.CONES)
        if 'epigraph' not in cls or p > 1:
            s = {'cls': cls, 'n': p, 'offset': vec(draw, p) if boolean(draw, 1, 3) else None,
                 'quad': quad(draw, p, 'any') if boolean(draw, 1, 3) else None}
            return {'k': 'set', 's': s}
    form = pick(draw, 'lagrange', 'lagrange', 'bound')
    cls = pick(draw, *(PENS if curved else COERCIVE))
    if (cls, form) in NOPROX:
        form = 'bound' if form == 'lagrange' else 'lagrange'
    s = pen.spec(draw, cls, form, n=p, own='any' if curved else None, zero_par=curved)
    if not curved:
        s['par'] = max(s['par'], 0.1)
        if 'weights' in s and cls == 'wl1norm':
            s['weights'] = np.clip(s['weights'], 0.2, 5)
        for g in s.get('gweights', {}):
            s['gweights'][g] = max(s['gweights'][g], 0.2)
    return {'k': 'pen', 's': s}


def build_pen(a):
    return sets.build(a['s']) if a['k'] == 'set' else pen.build(a['s'])


def pen_ref(a):
    """x -> value with domain (own quadratic excluded)"""
    s = dict(a['s'], quad=None)
    if a['k'] == 'set':
        d, u = sets.distance(s), sets.unit(s)

        def h(x):
            y = x if s['offset'] is None else x - s['offset']
            return 0. if d(y) <= 1e-8 * u * (1 + np.abs(x).max() + np.abs(y).max()) else np.inf
        return h
    g = pen.gauge(s)
    return lambda x: pen.value(s, g, x, tol=1e-8)


OPTS = [{}, {}, {'FISTA': False}, {'coef_stop': True}, {'restart': 7},
        {'min_its': 50}, {'start_step': 10.}, {'start_step': 1e4}, {'start_step': 0.2}, {'return_objective_hist': False}]


def gen_options(draw):
    o = dict(pick(draw, *OPTS))
    if boolean(draw, 1, 4):
        o.update(pick(draw, *OPTS))
    return o


def gen(draw):
    curved = boolean(draw, 3, 4)
    f = gen_smooth(draw, curved)
    p = f['p']
    a = gen_pen(draw, p, curved)
    q = pq = None
    if curved:
        q = quad(draw, p)                       # positive curvature
        if boolean(draw, 1, 2):
            pq = quad(draw, p, 'any')
            if pq[0] and boolean(draw, 1, 2):
                q, pq = (quad(draw, p, 'any') if boolean(draw) else None), quad(draw, p)
    return {'f': f, 'a': a, 'q': q, 'pq': pq, 'x0': vec(draw, p, 'cont') if boolean(draw, 1, 2) else None,
            'opts': gen_options(draw), 'how': pick(draw, 'value', 'coefs'), 'again': boolean(draw, 1, 3)}


def tolerance(F, x0, ref, step, its):
    R = np.sum((x0 - ref) ** 2) + 1
    tol = 1e-6 * (1 + abs(F)) + 40 * R / (min(1., step) * float(its) ** 2)
    if tol > 1e-2 * (1 + abs(F)):
        raise Reject('too ill-conditioned')
    return tol


def solve(prob, q, cox, value, opts):
    kw = dict(opts, tol=1e-14 if not opts.get('coef_stop') else 1e-12, max_its=ITS)
    try:
        return prob.solve(None if q is None else pen.iq(q), return_optimum=value, **kw)
    except ValueError as e:
        if cox and 'stepsize' in str(e):
            raise Reject('linear predictor of the Cox model out of range')
        raise


def has_cox(e):
    if isinstance(e, dict):
        return e.get('kind') == 'cox' or any(has_cox(v) for v in e.values())
    return isinstance(e, list) and any(has_cox(v) for v in e)


def total(f, a, *qs):
    """smooth part (with every quadratic), nonsmooth part"""
    fs, own = smooth_ref(f)
    qs = [q for q in qs + (own, a['s']['quad'] if a is not None else None) if q is not None]
    h = pen_ref(a) if a is not None else (lambda x: 0.)

    def smooth(x):
        v, g = fs(x)
        for c, ctr, lin, k in qs:
            r = x - (0 if ctr is None else ctr)
            v = v + (c or 0) / 2. * (r ** 2).sum() + ((0 if lin is None else lin) * x).sum() + (k or 0)
            g = g + (c or 0) * r + (0 if lin is None else lin)
        return v, g
    return smooth, h


def reference_prox(a):
    import regreg.api as rr
    if a is None:
        return lambda v, c: v
    s = dict(a['s'], quad=None)
    obj = build_pen({'k': a['k'], 's': s})
    return lambda v, c: np.asarray(obj.proximal(rr.identity_quadratic(c, v, 0, 0)))


def state(prob, L, A):
    out = [prob.quadratic.objective(np.ones(L.shape) * t, 'func') for t in (0., 1.3)]
    for o in (L, A):
        if o is not None:
            out += [o.quadratic.objective(np.ones(L.shape) * t, 'func') for t in (0., 1.3)]
            out.append(None if o.offset is None else np.array(o.offset).tolist())
    for k in ('lagrange', 'bound'):
        if A is not None:
            out.append(getattr(A, k, None))
    return out


ITS = 4000


@sub('C17', 'penalised', gen, quick=700, thorough=12000, cost=40)
def penalised(case):
    import regreg.api as rr
    f, a, q, pq, opts = case['f'], case['a'], case['q'], case['pq'], case['opts']
    L, A = build_smooth(f), build_pen(a)
    prob = rr.simple_problem(L, A)
    p = f['p']
    if pq is not None:
        prob.quadratic = pen.iq(pq)
    x0 = np.zeros(p)
    if case['x0'] is not None:
        x0 = case['x0']
        prob.coefs[:] = x0
    before = state(prob, L, A)
    smooth, h = total(f, a, q, pq)
    cox = has_cox(f)
    out = solve(prob, q, cox, case['how'] == 'value', opts)
    x = finish('solve', case, prob, out, smooth, h, x0, a, case['how'] == 'value')
    if state(prob, L, A) != before:
        raise Violation('state of the problem changed by solve: %s, was %s' % (state(prob, L, A), before))
    if case['again'] and (q is None or (pq is not None and pq[0])):
        smooth2, h2 = total(f, a, pq)
        x1 = np.array(x)
        out = solve(prob, None, cox, True, opts)
        finish('second solve, without the extra quadratic', case, prob, out, smooth2, h2, x1, a, True)
    F0, _ = smooth(x0)
    moved = np.abs(x - x0).max() > 1e-6
    active = np.abs(x - reference_prox(a)(x - smooth(x)[1], 1.)).max() < np.abs(smooth(x)[1]).max() * 0.5
    return '%s/%s' % (f['k'], a['s']['cls']) if moved and active else None


def finish(what, case, prob, out, smooth, h, x0, a, value):
    opts = case['opts']
    x = np.array(out[1] if value else out, float)
    if x.shape != x0.shape:
        raise Violation('%s: shape %s' % (what, x.shape))
    if not np.all(np.isfinite(x)):
        raise Violation('%s: solution %s' % (what, x))
    f, hx = smooth(x)[0], h(x)
    F = f + hx
    if not np.isfinite(hx):
        raise Violation('%s: solution %s outside of the constraint' % (what, x))
    sc = 1 + abs(f) + abs(hx) + np.abs(smooth(x)[1]).max() * np.abs(x).max()
    if value:
        c0 = constant(case)
        same(what + ': reported optimum', out[0] - c0, F, sc + abs(c0), 1e-8)
    xr, Fr = opt.minimise(smooth, reference_prox(a), h, [x])
    tol = tolerance(F, x0, xr, prob.final_step, ITS)
    opt.compare(what, F, Fr, tol, '(%s, after %s)' % (xr, x))
    F0 = smooth(x0)[0] + h(x0)
    if not F <= F0 + 1e-8 * (1 + abs(F0)):
        raise Violation('%s: objective rose from %.12g to %.12g' % (what, F0, F))
    return x


def constant(case):
    """constants of the data that objective() includes (saturated log-likelihood)"""
    f = case['f']
    if f['k'] != 'expr' or f['e']['op'] != 'loss':
        return 0.
    return 0. if f['quad'] is not None else loss.saturated(f['e']['s'])


# -- matrix problems ------------------------------------------------------------------------------

def gen_matrix(draw):
    while True:                                                 # not those clipped or overflowing far away
        c = c12.gen_mglm(draw)
        if not any(e['kind'] in ('cloglog', 'probit', 'poisson') for e in c['s'].get('subs', [])):
            break
    c['s']['quad'] = None
    if c['ctor']:
        c['s']['cw'] = None
    p, q = c['B'].shape
    cls, form = pick(draw, *c08.FORMS)
    a = c08.spec(draw, form, own=None, offset=False, cls=cls)
    a['shape'] = [p, q]
    if boolean(draw, 1, 3):
        a['offset'] = arr(draw, (p, q), 'cont')
    return {'c': c, 'a': a, 'q': quad(draw, (p, q)), 'x0': c['B2'] if boolean(draw) else None,
            'pq': quad(draw, (p, q), 'any') if boolean(draw, 1, 3) else None, 'opts': gen_options(draw)}


@sub('C17', 'matrix', gen_matrix, quick=250, thorough=5000, cost=40)
def matrix(case):
    """multinomial and stacked regressions with matrix penalties"""
    import regreg.api as rr
    c, a, q, pq, opts = case['c'], case['a'], case['q'], case['pq'], case['opts']
    L, A = c12.build_mglm(c), c08.build(a)
    prob = rr.simple_problem(L, A)
    X, s = c12.dense_X(c['d']), c['s']
    x0 = np.zeros(L.shape)
    if case['x0'] is not None:
        x0 = case['x0']
        prob.coefs[:] = x0
    if pq is not None:
        prob.quadratic = pen.iq(pq)
    g = c08.gauge(a)
    qs = [z for z in (q, pq) if z is not None]

    def smooth(x):
        z = x if c['offset'] is None else x - c['offset']
        v, gr, _ = loss.ref(s, X.dot(z), c['cw'])
        gr = X.T.dot(gr)
        for k, ctr, lin, const in qs:
            r = x - (0 if ctr is None else ctr)
            v = v + (k or 0) / 2. * (r ** 2).sum() + ((0 if lin is None else lin) * x).sum() + (const or 0)
            gr = gr + (k or 0) * r + (0 if lin is None else lin)
        return v, gr
    h = lambda x: pen.value(a, g, x, tol=1e-8)
    fresh = c08.build(a)
    prox = lambda v, k: np.asarray(fresh.proximal(rr.identity_quadratic(k, v, 0, 0)))
    x = np.array(solve(prob, q, False, False, opts))
    if x.shape != x0.shape or not np.all(np.isfinite(x)):
        raise Violation('solution %s' % x)
    fx, hx = smooth(x)[0], h(x)
    if not np.isfinite(hx):
        raise Violation('solution %s outside of the constraint' % x)
    m = 30. if s['kind'].startswith('multinomial') else np.inf
    eta = X.dot(x if c['offset'] is None else x - c['offset'])
    if np.abs(eta).max() > m:
        raise Reject('clipped')
    xr, Fr = opt.minimise(smooth, prox, h, [x])
    opt.compare('matrix problem', fx + hx, Fr, tolerance(fx + hx, x0, xr, prob.final_step, ITS),
                '(%s, after %s)' % (xr, x))
    F0 = smooth(x0)[0] + h(x0)
    if not fx + hx <= F0 + 1e-8 * (1 + abs(F0)):
        raise Violation('objective rose from %.12g to %.12g' % (F0, fx + hx))
    return '%s/%s' % (s['kind'], a['cls']) if np.abs(x - x0).max() > 1e-6 and np.abs(x).max() > 1e-8 else None


# -- without a penalty -----------------------------------------------------------------------------

def gen_plain(draw):
    f = gen_smooth(draw, True)
    p = f['p']
    return {'f': f, 'q': quad(draw, p), 'x0': vec(draw, p, 'cont') if boolean(draw, 1, 2) else None,
            'how': 'problem' if f['k'] == 'expr' and f['e']['op'] == 'smoothed' else pick(draw, 'loss', 'problem'),
            'opts': gen_options(draw), 'twice': boolean(draw)}


@sub('C17', 'plain', gen_plain, quick=300, thorough=5000, cost=30)
def plain(case):
    """losses solved on their own, with the quadratic given to solve"""
    import regreg.api as rr
    f, q, opts = case['f'], case['q'], case['opts']
    L = build_smooth(f)
    x0 = np.zeros(f['p'])
    prob = L if case['how'] == 'loss' else rr.simple_problem.smooth(L)
    if case['x0'] is not None:
        x0 = case['x0']
        prob.coefs[:] = x0
    own = pen.qval(smooth_ref(f)[1], np.ones(f['p']))
    smooth, h = total(f, None, q)
    before = L.nonsmooth_objective(np.ones(f['p']))
    for j in range(2 if case['twice'] else 1):
        v, x = solve(prob, q, has_cox(f), True, opts)
        x = np.array(x)
        step = prob.final_step if case['how'] == 'problem' else prob.solver.step
        if x.shape != x0.shape or not np.all(np.isfinite(x)):
            raise Violation('solution %s' % x)
        F = smooth(x)[0]
        sc = 1 + abs(F) + np.abs(smooth(x)[1]).max() * np.abs(x).max()
        c0 = before - own
        same('reported optimum', v - c0, F, sc + abs(c0) + abs(own), 1e-8)
        xr, Fr = opt.minimise(smooth, lambda z, c: z, h, [x])
        opt.compare('plain', F, Fr, tolerance(F, x0, xr, step, ITS), '(%s, after %s)' % (xr, x))
        F0 = smooth(x0)[0]
        if not F <= F0 + 1e-8 * (1 + abs(F0)):
            raise Violation('objective rose from %.12g to %.12g' % (F0, F))
        same('own quadratic after solving', L.nonsmooth_objective(np.ones(f['p'])), before, 1 + abs(before))
    return f['k'] if np.abs(x - x0).max() > 1e-6 else None


# -- generalised gradient descent with a fixed constant ----------------------------------------------

def gen_gg(draw):
    n, p = integer(draw, 1, 6), integer(draw, 1, 4)
    cls = pick(draw, *COERCIVE)
    form = pick(draw, 'lagrange', 'bound') if cls != 'slope' else 'lagrange'
    s = pen.spec(draw, cls, form, n=p)
    r = np.random.RandomState(integer(draw, 0, 10 ** 6))
    return {'X': r.standard_normal((n, p)), 'y': vec(draw, n, 'cont'), 's': s, 'loss': pick(draw, 'gaussian', 'logistic', None),
            'q': quad(draw, p) if boolean(draw, 2, 3) else None, 'lq': quad(draw, p, 'any') if boolean(draw, 1, 3) else None,
            'coef_stop': boolean(draw)}


@sub('C17', 'gengrad', gen_gg, quick=200, thorough=4000, cost=20)
def gengrad(case):
    """gengrad with a constant above the curvature of the loss converges to the optimum"""
    import regreg.api as rr
    X, y, s = case['X'], case['y'], case['s']
    n, p = X.shape
    A = pen.build(s)
    g = pen.gauge(s)
    K = np.linalg.norm(X, 2) ** 2
    if case['loss'] == 'gaussian':
        L, fs = rr.glm.gaussian(X.copy(), y), lambda x: (((X.dot(x) - y) ** 2).sum() / 2, X.T.dot(X.dot(x) - y))
    elif case['loss'] == 'logistic':
        z = (y > 0) * 1.
        L = rr.glm.logistic(X.copy(), z)
        fs = lambda x: (np.logaddexp(0, X.dot(x)).sum() - z.dot(X.dot(x)),
                        X.T.dot(1 / (1 + np.exp(-X.dot(x))) - z))
    else:
        L, K, fs = None, 0., lambda x: (0., np.zeros(p))
    prob = rr.simple_problem.nonsmooth(A) if L is None else rr.simple_problem(L, A)
    qs = [s['quad']]
    if case['q'] is not None:
        prob.quadratic = pen.iq(case['q'])
        qs.append(case['q'])
    if L is not None and case['lq'] is not None:
        L.quadratic = pen.iq(case['lq'])
        qs.append(case['lq'])
    qs = [q for q in qs if q is not None]

    def smooth(x):
        v, gr = fs(x)
        for c, ctr, lin, k in qs:
            r = x - (0 if ctr is None else ctr)
            v = v + (c or 0) / 2. * (r ** 2).sum() + ((0 if lin is None else lin) * x).sum() + (k or 0)
            gr = gr + (c or 0) * r + (0 if lin is None else lin)
        return v, gr
    s0 = dict(s, quad=None)
    h = lambda x: pen.value(s0, g, x, tol=1e-8)
    fresh = pen.build(s0)
    prox = lambda v, k: np.asarray(fresh.proximal(rr.identity_quadratic(k, v, 0, 0)))
    curv = sum(q[0] or 0 for q in qs)
    if curv < 0.05:
        raise Reject('not strongly convex')
    x = np.array(rr.gengrad(prob, K + 0.5, tol=1e-14, max_its=3000, coef_stop=case['coef_stop']))
    hx = h(x)
    if not np.isfinite(hx):
        raise Violation('solution %s outside of the constraint' % x)
    F = smooth(x)[0] + hx
    xr, Fr = opt.minimise(smooth, prox, h, [x])
    rate = curv / (K + 0.5 + curv)
    if rate * 3000 < 30:
        raise Reject('too slow to converge')
    opt.compare('gengrad', F, Fr, 1e-6 * (1 + abs(F)), '(%s, after %s)' % (xr, x))
    return s['cls'] if L is not None and np.abs(x).max() > 1e-8 else None


# -- long first steps ---------------------------------------------------------------------------------

def gen_steep(draw):
    n, p = integer(draw, 1, 6), integer(draw, 1, 4)
    cls = pick(draw, 'l1norm', 'l1norm', 'l2norm', 'supnorm', 'wl1norm')
    s = pen.spec(draw, cls, 'lagrange', n=p)
    if s['offset'] is not None:
        s['offset'] = np.clip(s['offset'], -2, 2)
    s['par'] = min(max(s['par'], 0.05), 3.)
    return {'X': vec(draw, n * p, 'cont').reshape(n, p) * positive(draw, 0.2, 1.), 's': s,
            'y': np.array([float(integer(draw, 0, 9)) for _ in range(n)]), 'kind': pick(draw, 'poisson', 'poisson', 'sum'),
            'ridge': positive(draw, 0.3, 3.), 'step': 10. ** real(draw, 1., 12.), 'fista': boolean(draw, 3, 4),
            'x0': vec(draw, p, 'cont') * 0.1 if boolean(draw, 1, 2) else None, 'coef_stop': boolean(draw, 1, 4),
            'where': pick(draw, 'solve', 'problem', 'loss')}


@sub('C17', 'steep', gen_steep, quick=500, thorough=12000, cost=25)
def steep(case):
    """a first step so long that the loss overflows is shortened, and the solution found all the same"""
    import regreg.api as rr
    X, y, s = case['X'], case['y'], case['s']
    n, p = X.shape
    q = [case['ridge'], None, None, None]
    A = pen.build(dict(s, quad=None))
    L = rr.glm.poisson(X.copy(), y.copy())
    if case['kind'] == 'sum':
        L = rr.smooth_sum([L, rr.glm.gaussian(X.copy(), y.copy())])
    prob = rr.simple_problem(L, A)
    if case['where'] == 'problem':
        prob.quadratic = pen.iq(q)
    elif case['where'] == 'loss':
        L.quadratic = pen.iq(q)

    def smooth(x):
        with np.errstate(all='ignore'):
            e = X.dot(x)
            v = np.exp(e).sum() - y.dot(e) + case['ridge'] / 2 * x.dot(x)
            g = X.T.dot(np.exp(e) - y) + case['ridge'] * x
            if case['kind'] == 'sum':
                v, g = v + ((e - y) ** 2).sum() / 2, g + X.T.dot(e - y)
        return v, g
    h = pen_ref({'k': 'pen', 's': s})
    prox = reference_prox({'k': 'pen', 's': s})
    x0 = np.zeros(p)
    if case['x0'] is not None:
        x0 = case['x0']
        prob.coefs[:] = x0
    if np.abs(X.dot(x0)).max() > 6:
        raise Reject('steep at the start')
    x = np.array(prob.solve(pen.iq(q) if case['where'] == 'solve' else None, start_step=case['step'],
                            tol=1e-12 if case['coef_stop'] else 1e-14, coef_stop=case['coef_stop'],
                            FISTA=case['fista'], max_its=ITS))
    if x.shape != x0.shape or not np.all(np.isfinite(x)):
        raise Violation('solution %s' % x)
    F = smooth(x)[0] + h(x)
    xr, Fr = opt.minimise(smooth, prox, h, [x, x0])
    curv = (np.abs(X) ** 2).sum() * (np.exp(X.dot(xr)).max() + 1)
    if ITS * (np.sqrt if case['fista'] else float)(case['ridge'] / (2 * curv)) < 40:
        raise Reject('too slow to converge')
    opt.compare('steep', F, Fr, 1e-5 * (1 + abs(F)), '(%s, after %s, step %g)' % (xr, x, prob.final_step))
    with np.errstate(all='ignore'):
        over = not np.isfinite(np.exp(X.dot(x0 - case['step'] * smooth(x0)[1])).sum())
    return 'overflow' if over else 'long step' if case['step'] > 100 else None
