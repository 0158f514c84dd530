"""C18: dual, multi-penalty, splitting and second-order solvers.

Problems with a planted optimum: for each penalty h_i a point z_i is drawn and split into
y_i = prox(z_i) and u_i = z_i - y_i, a subgradient of h_i at y_i.  The offset of the i-th
transform makes A_i x* + b_i = y_i at a drawn x*, and the linear term of one of the quadratics
makes the sum of all subgradients vanish, so x* is the minimiser."""
import warnings

import numpy as np

from .core import prop, sub, Violation, Reject
from .gens import pick, boolean, integer, positive, vec, arr, quad, real, normal
from . import pen, sets, c17
from .loss import same


prop('C18',
     rule='A problem with one to three penalties, constraints or cones composed with transforms and offsets is built '
          'around a planted minimiser and planted dual variables (see the module); a solver must find it.  Non-trivial '
          'when the planted minimiser is not zero and some dual variable is not zero.',
     assumptions=['problems are strongly convex; agreement with the planted minimiser to 1e-3 relative, after more '
                  'iterations when the first answer is not that close (convergence is sublinear)'])

TOL = 1e-3
FORMS = ['dense', 'dense', 'csr', 'selector', 'diag', 'plain']


def gen_term(draw, p, plain=False, kinds=None, own='linear'):
    """a penalty composed with a transform, and the point that is split"""
    kind = 'plain' if plain else pick(draw, *(kinds or FORMS))
    m = p
    t = {'kind': kind}
    if kind in ('dense', 'csr'):
        m = integer(draw, 1, 4)
        t['A'] = normal(draw, (m, p))
        if boolean(draw, 1, 3):
            t['A'] = np.round(t['A'])
    elif kind == 'selector':
        sel = pick(draw, 'slice', 'list', 'mask')
        idx = sorted(set(integer(draw, 0, p - 1) for _ in range(integer(draw, 1, p))))
        if sel == 'slice':
            idx = list(range(idx[0], idx[-1] + 1))
        t['sel'], t['idx'] = sel, idx
        m = len(idx)
    elif kind == 'diag':
        t['D'] = np.array([pick(draw, 1., -2., 0.5, 0.) for _ in range(p)])
    t['m'] = m
    if boolean(draw, 1, 4):
        cls = pick(draw, *[c for c in sets.CONES if m > 1 or 'epigraph' not in c])
        t['s'] = {'cls': cls, 'n': m, 'offset': None,
                  'quad': quad(draw, m, 'zero') if own and boolean(draw, 1, 4) else None}
        t['k'] = 'set'
    else:
        cls = pick(draw, *c17.PENS)
        form = pick(draw, 'lagrange', 'lagrange', 'bound')
        # the dual exchanges the two forms
        if (cls, form) in c17.NOPROX or (pen.DUAL[cls], 'bound' if form == 'lagrange' else 'lagrange') in c17.NOPROX:
            form = 'bound' if form == 'lagrange' else 'lagrange'
            if (cls, form) in c17.NOPROX or (pen.DUAL[cls], 'bound' if form == 'lagrange' else 'lagrange') in c17.NOPROX:
                cls, form = 'l1norm', 'lagrange'
        t['s'] = pen.spec(draw, cls, form, n=m, own=own, offset=False)
        t['s']['par'] = min(t['s']['par'], 5.)
        if t['s']['quad'] is not None and own == 'linear':
            t['s']['quad'][0] = 0.
        t['k'] = 'pen'
    t['z'] = vec(draw, m, pick(draw, 'cont', 'cont', 'grid', 'sparse'))
    t['how'] = pick(draw, 'affine', 'offset')
    return t


def matrix(t, p):
    if t['kind'] in ('dense', 'csr'):
        return t['A']
    if t['kind'] == 'selector':
        return np.identity(p)[t['idx']]
    return np.diag(t['D']) if t['kind'] == 'diag' else np.identity(p)


def raw_transform(t, p):
    import regreg.api as rr
    from scipy import sparse
    if t['kind'] == 'dense':
        return t['A'].copy()
    if t['kind'] == 'csr':
        return sparse.csr_matrix(t['A'])
    if t['kind'] == 'diag':
        return t['D'].copy()
    i = t['idx']
    ix = slice(i[0], i[-1] + 1) if t['sel'] == 'slice' else list(i)
    if t['sel'] == 'mask':
        ix = np.isin(np.arange(p), i)
    return rr.selector(ix, (p,))


def atom_of(t, offset=None):
    s = dict(t['s'], offset=offset)
    return sets.build(s) if t['k'] == 'set' else pen.build(s)


def split(t):
    """y, u with u a subgradient of the penalty (own quadratic left out) at y"""
    import regreg.api as rr
    s = dict(t['s'], quad=None)
    a = sets.build(s) if t['k'] == 'set' else pen.build(s)
    y = np.array(a.proximal(rr.identity_quadratic(1., t['z'].copy(), 0, 0)), float)
    return y, t['z'] - y


def build_term(t, x, p):
    """regreg object h(A x + b - o) + q(A x) with A x* + b - o = y, and the gradient
    of its contribution at x*"""
    import regreg.api as rr
    from regreg.atoms import affine_atom
    y, u = split(t)
    A = matrix(t, p)
    q = t['s']['quad']
    g = A.T.dot(u + pen_grad(q, A.dot(x)))
    shift = y - A.dot(x)
    if t['kind'] == 'plain':
        return atom_of(t, -shift), g, u
    T = raw_transform(t, p)
    lin = dict(diag=True) if t['kind'] == 'diag' else {}
    if t['how'] == 'offset' or t['kind'] == 'selector':
        if t['kind'] != 'selector':
            T = rr.linear_transform(T, **lin)
        return affine_atom(atom_of(t, -shift), T), g, u
    return affine_atom(atom_of(t), rr.affine_transform(T, shift, **lin)), g, u


def pen_grad(q, x):
    if q is None:
        return 0 * x
    return (q[0] or 0) * (x - (0 if q[1] is None else q[1])) + (0 if q[2] is None else q[2])


def value_of(t, p):
    """h(y) for y on the planted point: value of the penalty (quadratic left out)"""
    y, _ = split(t)
    h = c17.pen_ref({'k': t['k'], 's': t['s']})
    return h(y)


def size(x, *quads):
    """scale of the terms of some quadratics at x"""
    out = 0.
    for q in quads:
        if q is not None:
            c, ctr, lin, k = q
            out += (c or 0) / 2. * ((x ** 2).sum() + (0 if ctr is None else (ctr ** 2 + 0 * x).sum()))
            out += np.abs((0 if lin is None else lin) * x).sum() + abs(k or 0)
    return out


def gen_x(draw, p):
    return vec(draw, p, pick(draw, 'cont', 'grid', 'sparse'))


def is_trivial(x, us):
    return np.abs(x).max() < 1e-8 or not any(np.abs(u).max() > 1e-8 for u in us)


def close(what, x, xs, tol=TOL):
    x = np.asarray(x)
    if x.shape != xs.shape:
        raise Violation('%s: shape %s instead of %s' % (what, x.shape, xs.shape))
    err = np.abs(x - xs).max() / (1 + np.abs(xs).max())
    return err <= tol


def converge(what, run, xs, scale, *quads, floor=TOL, rel=1e-7):
    """run(k) -> solution with effort k; some effort must be enough.

    Stopping at a relative change of the objective of the given scale limits the accuracy of the
    minimiser of an objective with the curvature of the quadratics."""
    errs = []
    c = sum(q[0] or 0 for q in quads if q is not None)
    tol = max(floor, np.sqrt(2 * rel * scale / c) / (1 + np.abs(xs).max()))
    if tol > max(2 * floor, 0.03):
        raise Reject('too flat')
    for k in range(3):
        x = np.asarray(run(k))
        if close(what, x, xs, tol):
            return
        errs.append(np.abs(x - xs).max())
    if errs[-1] < 0.3 * errs[0]:
        raise Reject('slow convergence')
    raise Violation('%s: %s instead of the minimiser %s' % (what, x, xs))


# -- proximal map of a container ----------------------------------------------------------------

def gen_prox(draw):
    p = integer(draw, 1, 5)
    K = pick(draw, 1, 1, 2, 2, 3)
    ts = [gen_term(draw, p) for _ in range(K)]
    return {'p': p, 'ts': ts, 'x': gen_x(draw, p), 'pq': quad(draw, p), 'sq': [quad(draw, p, 'any') for _ in range(pick(draw, 0, 1, 2))],
            'cq': quad(draw, p, 'any') if boolean(draw, 1, 3) else None, 'smooth': boolean(draw)}


def set_linear(q, target, x):
    """choose the linear term of the quadratic so that its gradient at x is target"""
    q = list(q)
    q[2] = target - pen_grad([q[0], q[1], None, 0], x)
    return q


@sub('C18', 'container_prox', gen_prox, quick=700, thorough=15000, cost=30)
def container_prox(case):
    """proximal map of a sum of composed penalties, from its dual"""
    import regreg.api as rr
    from regreg.smooth import zero as zero_smooth
    p, x = case['p'], case['x']
    objs, g, us = [], np.zeros(p), []
    for t in case['ts']:
        o, gi, u = build_term(t, x, p)
        objs.append(o)
        g = g + gi
        us.append(u)
    for q in case['sq']:
        L = zero_smooth(p, quadratic=pen.iq(q))
        objs.append(L)
        g = g + pen_grad(q, x)
    if not case['sq']:
        objs.append(zero_smooth(p) if case['smooth'] else zero_smooth(p, quadratic=rr.identity_quadratic(0, 0, 0, 0)))
    g = g + pen_grad(case['cq'], x)
    Q = set_linear(case['pq'], -g, x)

    def run(k):
        c = rr.container(*objs)
        if case['cq'] is not None:
            c.quadratic = pen.iq(case['cq'])
        kw = {} if k == 0 else dict(prox_control=dict(max_its=(0, 5000, 40000)[k], min_its=(0, 1000, 10000)[k], tol=1e-16))
        return c.proximal(pen.iq(Q), **kw)
    converge('proximal map of a container', run, x, 1 + size(x, Q, case['cq'], *case['sq']), Q, case['cq'], *case['sq'])
    return None if is_trivial(x, us) else '%d terms' % len(case['ts'])


# -- container, with smooth functions -------------------------------------------------------------

def gen_container(draw):
    f = c17.gen_smooth(draw, True)
    p = f['p']
    ts = [gen_term(draw, p) for _ in range(pick(draw, 1, 2, 2))]
    if len(ts) == 1 and ts[0]['kind'] in ('plain', 'selector') and boolean(draw):
        ts[0]['s']['quad'] = quad(draw, ts[0]['m'], 'any')
    return {'f': f, 'ts': ts, 'x': gen_x(draw, p), 'q': quad(draw, p),
            'where': pick(draw, 'solve', 'problem', 'smooth'), 'pq': quad(draw, p, 'any') if boolean(draw, 1, 3) else None,
            'more': quad(draw, p, 'any') if boolean(draw, 1, 3) else None, 'how': pick(draw, 'value', 'coefs')}


def smooth_grad(f, x):
    """value and gradient at x including the own quadratic"""
    g, own = c17.smooth_ref(f)
    v, d = g(x)[:2]
    return v + pen.qval(own, x), d + pen_grad(own, x)


def moderate(f, x, scale=300.):
    g = c17.smooth_ref(f)[0]
    a, b = g(x)[1], g(0 * x)[1]
    if not (np.all(np.isfinite(a)) and np.abs(a).max() < scale and np.abs(b).max() < scale):
        raise Reject('steep at the minimiser')


def objective(f, ts, x, p, *qs):
    v = smooth_grad(f, x)[0] if f is not None else 0.
    for t in ts:
        v += value_of(t, p) + pen.qval(t['s']['quad'], matrix(t, p).dot(x))
    return v + sum(pen.qval(q, x) for q in qs)


@sub('C18', 'container', gen_container, quick=120, thorough=3000, cost=300)
def container(case):
    """smooth functions and composed penalties solved with a container"""
    import regreg.api as rr
    from regreg.smooth import zero as zero_smooth
    f, x = case['f'], case['x']
    p = f['p']
    moderate(f, x)
    objs, g, us = [], smooth_grad(f, x)[1], []
    for t in case['ts']:
        o, gi, u = build_term(t, x, p)
        objs.append(o)
        g = g + gi
        us.append(u)
    for q in (case['pq'], case['more']):
        g = g + pen_grad(q, x)
    Q = set_linear(case['q'], -g, x)
    opt = objective(f, case['ts'], x, p, Q, case['pq'], case['more'])
    sc = 1 + abs(opt) + size(x, Q, case['pq'], case['more'], f.get('quad'))
    val = []

    def run(k):
        L = c17.build_smooth(f)
        extra = [] if case['more'] is None else [zero_smooth(p, quadratic=pen.iq(case['more']))]
        pq, sq = case['pq'], None
        if case['where'] == 'solve':
            sq = Q
        elif case['where'] == 'problem':
            pq, sq = Q, case['pq']
        else:
            extra.append(zero_smooth(p, quadratic=pen.iq(Q)))
        c = rr.container(L, *(objs + extra))
        if pq is not None:
            c.quadratic = pen.iq(pq)
        its = (100, 400, 2000)[k]
        r = c.solve(None if sq is None else pen.iq(sq), return_optimum=case['how'] == 'value', tol=1e-12, max_its=its, min_its=its // 4)
        if case['how'] == 'value':
            v, r = r
            val[:] = [v]
        return r
    converge('container', run, x, sc, Q, case['pq'], case['more'])
    if val:
        same('optimal value of a container', val[0], opt, sc, 1e-3)
    return None if is_trivial(x, us) else '%s %d terms' % (f['k'], len(case['ts']))


# -- dual problems ---------------------------------------------------------------------------------

def gen_f(draw, p):
    """a function with a smooth conjugate: a penalty with curvature, or a quadratic loss"""
    if boolean(draw, 1, 4):
        return {'k': 'zero', 's': {'quad': quad(draw, p)}, 'z': np.zeros(p)}
    t = gen_term(draw, p, plain=True, own=None)
    t['s']['quad'] = quad(draw, p)
    return t


def build_f(t, x, p, extra):
    """f with gradient `-extra` at x through its linear term"""
    import regreg.api as rr
    if t['k'] == 'zero':
        Q = set_linear(t['s']['quad'], -extra, x)
        o = rr.zero(p, quadratic=pen.iq(Q))
        return o, Q, 0., np.zeros(p)
    y, u = split(t)
    Q = set_linear(t['s']['quad'], -extra - u, x)
    s = dict(t, s=dict(t['s'], quad=Q))
    return atom_of(s, x - y), Q, value_of(t, p), u


def gen_dual(draw):
    p = integer(draw, 1, 5)
    return {'p': p, 'f': gen_f(draw, p), 'ts': [gen_term(draw, p) for _ in range(pick(draw, 1, 2, 3))], 'x': gen_x(draw, p),
            'how': pick(draw, 'fromprimal', 'stacked', 'direct'), 'value': boolean(draw), 'stop': pick(draw, {}, {'coef_stop': True})}


@sub('C18', 'dual', gen_dual, quick=500, thorough=12000, cost=30)
def dual(case):
    """minimise f(x) + sum g_i(D_i x + b_i) through its dual"""
    import regreg.api as rr
    from regreg.problems.dual_problem import stacked_dual, dual_problem
    p, x, ts = case['p'], case['x'], case['ts']
    objs, g, us = [], np.zeros(p), []
    for t in ts:
        o, gi, u = build_term(t, x, p)
        objs.append(o)
        g = g + gi
        us.append(u)
    F, Q, fv, fu = build_f(case['f'], x, p, g)
    opt = fv + pen.qval(Q, x) + objective(None, ts, x, p)
    sc = 1 + abs(opt) + np.abs(g).max() * (1 + np.abs(x).max())
    val = []

    def run(k):
        if case['how'] == 'fromprimal' or len(objs) > 1 and case['how'] == 'direct':
            d = dual_problem.fromprimal(F, *objs)
        elif case['how'] == 'stacked':
            d = dual_problem(F.conjugate, *stacked_dual(F.shape, *objs))
        else:
            d = dual_problem(F.conjugate, *objs[0].dual)
        its = (300, 3000, 20000)[k]
        r = d.solve(return_optimum=case['value'], tol=1e-14, max_its=its, min_its=100, **case['stop'])
        if case['value']:
            v, r = r
            val[:] = [v]
        return r
    converge('dual problem', run, x, sc + size(x, Q), Q)
    if val:
        same('optimal value of the dual problem', val[0], -opt, sc + size(x, Q), 1e-3)
    return None if is_trivial(x, us) else '%s %d terms' % (case['f']['k'], len(ts))


# -- smoothing with continuation --------------------------------------------------------------------

# nesta and tfocs solve each problem to the tolerance max(eps, tol)
EPS = [list(2. ** -np.arange(15)) + [2. ** -15] * 20, [1.] * 5 + [1e-2] * 10 + [1e-4] * 30]


def schedule(e, k):
    """a sequence of smoothing parameters, longer for larger k"""
    e = EPS[e]
    return list(e) + [1e-4] * 50 * k + [1e-6] * 50 * k


def strong(draw, p):
    """a quadratic with more curvature"""
    q = quad(draw, p)
    q[0] += 1.
    return q


def gen_nesta(draw):
    smooth = boolean(draw, 3, 4)
    f = c17.gen_smooth(draw, True) if smooth else None
    p = f['p'] if smooth else integer(draw, 1, 5)
    t = gen_term(draw, p)                       # the stopping rule is coarse: well conditioned problems only
    if 'A' in t:
        t['A'] = t['A'] / max(1., np.linalg.norm(t['A'], 2))
    return {'p': p, 'f': f, 'P': gen_term(draw, p, plain=True) if boolean(draw, 3, 4) or not smooth else None,
            'C': t, 'x': gen_x(draw, p), 'q': strong(draw, p), 'eps': pick(draw, 0, 0, 1),
            'where': pick(draw, 'arg', 'arg', 'smooth', 'prox'), 'own': quad(draw, p) if boolean(draw, 1, 3) else None,
            'dual0': boolean(draw, 1, 4), 'primal0': boolean(draw, 1, 4), 'coef_stop': boolean(draw, 1, 3)}


@sub('C18', 'nesta', gen_nesta, quick=120, thorough=3000, cost=300)
def nesta(case):
    """a smooth function, a simple penalty and a composed one, by smoothing the latter"""
    import regreg.api as rr
    p, x, f = case['p'], case['x'], case['f']
    g, us = np.zeros(p), []
    if f is not None:
        moderate(f, x, 10.)
        g = g + smooth_grad(f, x)[1]
    C, gc, uc = build_term(case['C'], x, p)
    g, P = g + gc, None
    where = case['where']
    if case['P'] is None and where == 'prox' or f is None and where == 'smooth':
        where = 'arg'
    if case['P'] is not None:
        _, gp, u = build_term(case['P'], x, p)
        g = g + gp
    if where == 'arg':                           # the quadratic holding the linear correction
        Q = set_linear(case['q'], -g, x)
        own = case['own']
        if own is not None:
            Q = set_linear(case['q'], -g - pen_grad(own, x), x)
    else:
        Q, own = set_linear(case['q'], -g, x), None

    def run(k):
        L, P = None, None
        if f is not None:
            L = c17.build_smooth(f)
            if where == 'smooth':
                L.quadratic = L.quadratic + pen.iq(Q)
            elif own is not None:
                L.quadratic = L.quadratic + pen.iq(own)
        if case['P'] is not None:
            P, _, _ = build_term(case['P'], x, p)
            if where == 'prox':
                P.quadratic = P.quadratic + pen.iq(Q)
            elif own is not None and f is None:
                P.quadratic = P.quadratic + pen.iq(own)
        elif own is not None and f is None:
            raise Reject('no place')
        kw = {}
        if case['dual0']:
            kw['initial_dual'] = np.ones(case['C']['m'])
        if case['primal0']:
            kw['initial_primal'] = np.ones(p)
        e = schedule(case['eps'], k)
        r, _ = rr.nesta(L, P, C, epsilon=e, tol=1e-12, coef_tol=1e-12, max_iters=10 ** 6, coef_stop=case['coef_stop'],
                        quadratic=pen.iq(Q) if where == 'arg' else None, **kw)
        return r
    converge('nesta', run, x, 1 + size(x, Q, own), Q, own, floor=3e-2, rel=1e-4)
    return None if is_trivial(x, [uc]) else '%s %s' % (case['C']['kind'], where)


def gen_tfocs(draw):
    p = integer(draw, 1, 5)
    return {'p': p, 'f': gen_term(draw, p, plain=True, own='linear'), 'C': gen_term(draw, p, kinds=FORMS[:-1], own=None), 'x': gen_x(draw, p),
            'q': strong(draw, p), 'where': pick(draw, 'arg', 'own'), 'eps': pick(draw, 0, 0, 1), 'offset': pick(draw, 'transform', 'atom')}


@sub('C18', 'tfocs', gen_tfocs, quick=200, thorough=4000, cost=100)
def tfocs(case):
    """minimise f(x) + h(Dx + a) by smoothing f"""
    import regreg.api as rr
    p, x, t = case['p'], case['x'], case['C']
    C, gc, uc = build_term(t, x, p)
    f, gf, uf = build_term(case['f'], x, p)
    Q = set_linear(case['q'], -gc - gf, x)
    arg = None
    if case['where'] == 'arg':
        arg = pen.iq(Q)
    else:
        f.quadratic = f.quadratic + pen.iq(Q)
    if case['offset'] == 'transform' and t['kind'] != 'selector':
        y, _ = split(t)
        shift = y - matrix(t, p).dot(x)
        D = rr.affine_transform(raw_transform(t, p), shift, diag=t['kind'] == 'diag')
        dual_atom = atom_of(t).conjugate
    else:
        D, dual_atom = C.dual

    def run(k):
        return rr.tfocs(f, D, dual_atom, epsilon=schedule(case['eps'], k), tol=1e-12, coef_tol=1e-12, max_iters=10 ** 6, quadratic=arg)[0]
    converge('tfocs', run, x, 1 + size(x, Q), Q, floor=1e-2, rel=1e-5)
    return None if is_trivial(x, [uc]) else t['kind']


# -- operator splitting ------------------------------------------------------------------------------

def gen_admm(draw):
    f = c17.gen_smooth(draw, False)
    p = f['p']
    t = gen_term(draw, p, kinds=['dense', 'dense', 'csr', 'diag'])
    return {'f': f, 't': t, 'x': gen_x(draw, p), 'q': quad(draw, p), 'own': quad(draw, p, 'any') if boolean(draw, 1, 3) else None,
            'rho': positive(draw, 0.2, 5.), 'where': pick(draw, 'loss', 'loss', 'arg'), 'as': pick(draw, 'transform', 'affine')}


@sub('C18', 'admm', gen_admm, quick=100, thorough=2500, cost=300)
def admm(case):
    """a smooth function and a composed penalty, by splitting"""
    import regreg.api as rr
    from regreg.problems.admm import admm_problem
    f, t, x = case['f'], case['t'], case['x']
    p = f['p']
    moderate(f, x, 30.)
    A = matrix(t, p)
    y, u = split(t)
    shift = y - A.dot(x)
    atom_q = t['s']['quad']
    # here the penalty's own quadratic is a function of the split variable Dx + a (offset in the
    # transform) or of Dx (offset in the penalty)
    z = y if case['as'] == 'affine' else y - shift
    g = A.T.dot(u + pen_grad(atom_q, z)) + smooth_grad(f, x)[1] + pen_grad(case['own'], x)
    Q = set_linear(case['q'], -g, x)

    def run(k):
        L = c17.build_smooth(f)
        qs = pen.iq(Q)
        arg = None
        if case['own'] is not None:
            if case['where'] == 'arg':
                arg = pen.iq(case['own'])
            else:
                qs = qs + pen.iq(case['own'])
        L.quadratic = L.quadratic + qs
        T = raw_transform(t, p)
        diag = t['kind'] == 'diag'
        if case['as'] == 'affine':
            P, D = atom_of(t), rr.affine_transform(T, shift, diag=diag)
        else:
            P, D = atom_of(t, -shift), rr.linear_transform(T, diag=diag)
        pr = admm_problem(L, P, D, case['rho'], quadratic=arg, fit_args={'tol': 1e-12, 'max_its': 500})
        pr.solve(niter=(100, 500, 2500)[k])
        return pr.loss_coefs
    converge('admm', run, x, 1 + size(x, Q, case['own']), Q, case['own'])
    return None if is_trivial(x, [u]) else t['kind']


# -- proximal Newton ---------------------------------------------------------------------------------

def gen_newton(draw):
    f = c17.gen_smooth(draw, True)
    p = f['p']
    return {'f': f, 'P': gen_term(draw, p, plain=True), 'x': gen_x(draw, p), 'q': quad(draw, p), 'H': positive(draw, 0.2, 5.),
            'where': pick(draw, 'arg', 'smooth', 'prox')}


@sub('C18', 'newton', gen_newton, quick=120, thorough=3000, cost=300)
def newton(case):
    """proximal quasi-Newton steps"""
    from regreg.problems.newton import quasi_newton
    f, x = case['f'], case['x']
    p = f['p']
    moderate(f, x, 30.)
    _, gp, u = build_term(case['P'], x, p)
    Q = set_linear(case['q'], -smooth_grad(f, x)[1] - gp, x)

    def run(k):
        L = c17.build_smooth(f)
        P, _, _ = build_term(case['P'], x, p)
        arg = None
        if case['where'] == 'arg':
            arg = pen.iq(Q)
        else:
            o = L if case['where'] == 'smooth' else P
            o.quadratic = o.quadratic + pen.iq(Q)
        qn = quasi_newton(L, P, np.identity(p) * case['H'] + 0.1, quadratic=arg)
        return qn.solve(niter=(50, 200, 1000)[k], tol=1e-12)
    converge('quasi-Newton', run, x, 1 + size(x, Q), Q)
    return None if is_trivial(x, [u]) else f['k']


# -- separable penalties ------------------------------------------------------------------------------

def gen_sep(draw):
    from . import c08
    two = boolean(draw, 1, 4)
    K = integer(draw, 1, 4)
    parts = []
    if two:                                     # rows of a matrix
        c = integer(draw, 1, 3)
    n = 0
    for _ in range(K):
        own = pick(draw, None, 'any')
        if two or boolean(draw, 1, 4):
            r = integer(draw, 1, 3)
            cc = c if two else integer(draw, 1, 3)
            cls, form = pick(draw, *c08.FORMS)
            s = c08.spec(draw, form, own=None, offset=False, cls=cls)
            s['shape'] = [r, cc]
            parts.append({'k': 'mat', 's': s})
            n += r if two else r * cc
        else:
            m = integer(draw, 1, 4)
            t = gen_term(draw, m, plain=True, own=own)
            if boolean(draw, 1, 3):
                t['offset'] = vec(draw, m)
            parts.append(t)
            n += m
    extra = integer(draw, 0, 2) if boolean(draw, 1, 4) else 0           # coordinates of no group
    shape = [n + extra, c] if two else [n + extra]
    kind = 'slice' if two else pick(draw, 'slice', 'slice', 'list', 'mask')
    order = list(range(n + extra))
    if kind != 'slice':
        from hypothesis import strategies as st
        order = draw(st.permutations(order))
    i, groups = 0, []
    for t in parts:
        m = t['s']['shape'][0] if two else size_of(t)
        groups.append([int(j) for j in (order[i:i + m] if kind == 'list' else sorted(order[i:i + m]))])
        i += m
    return {'parts': parts, 'shape': shape, 'kind': kind, 'groups': groups, 'x': arr(draw, shape),
            'quad': quad(draw, shape, pick(draw, 'any', 'zero')) if boolean(draw, 1, 2) else None, 'pq': quad(draw, shape),
            'vary': integer(draw, 0, 3)}


def size_of(t):
    return int(np.prod(t['s']['shape'])) if t['k'] == 'mat' else t['m']


def part_obj(t):
    from . import c08
    return c08.build(t['s']) if t['k'] == 'mat' else atom_of(t, None if t.get('offset') is None else t['offset'].copy())


def group_of(case, g):
    if case['kind'] == 'slice':
        return slice(g[0], g[-1] + 1)
    if case['kind'] == 'list':
        return np.array(g)
    return np.isin(np.arange(case['shape'][0]), g)


def sub_quad(q, g, shape):
    """the quadratic restricted to a group, without its constant"""
    if q is None:
        return None
    c = lambda a: a[g].reshape(shape) if isinstance(a, np.ndarray) else a
    return [q[0], c(q[1]), c(q[2]), 0]


@sub('C18', 'separable', gen_sep, quick=700, thorough=15000, cost=15)
def separable(case):
    """a separable penalty is the sum of its parts"""
    import regreg.api as rr
    from regreg.problems.separable import has_overlap
    shape, parts = tuple(case['shape']), case['parts']
    groups = [group_of(case, g) for g in case['groups']]
    x, quad_, pq = case['x'], case['quad'], case['pq']
    covered = sum(len(g) for g in case['groups']) == shape[0]
    two = len(shape) == 2
    shapes = [tuple(t['s']['shape']) if t['k'] == 'mat' else (t['m'],) for t in parts]

    def make(quadratic=quad_, objs=None):
        arg = [s if t['k'] == 'mat' and not two else None for s, t in zip(shapes, parts)]
        objs = objs or [part_obj(t) for t in parts]
        if all(s is None for s in arg) and case['vary'] % 2:
            o = rr.separable(shape, objs, groups, test_for_overlap=True)
        else:
            o = rr.separable(shape, objs, groups, shapes=arg)
        if quadratic is not None:
            o.quadratic = pen.iq(quadratic)
        return o
    o = make()
    # value
    vals = [part_obj(t).nonsmooth_objective(x[g].reshape(s), check_feasibility=True) for t, g, s in zip(parts, groups, shapes)]
    sc = 1 + np.abs(x).max() ** 2 * 10 + abs(pen.qval(quad_, x)) + sum(abs(v) for v in vals if np.isfinite(v))
    v = o.nonsmooth_objective(x.copy(), check_feasibility=True)
    ref = sum(vals) + pen.qval(quad_, x)
    if not (np.isinf(v) and np.isinf(ref)):
        same('value of a separable penalty', v, ref, sc, 1e-9)
    # proximal map
    want = np.zeros(shape)
    tot_c = pq[0] + ((quad_[0] or 0) if quad_ is not None else 0)
    for t, g, s in zip(parts, groups, shapes):
        a = part_obj(t)
        q = pen.iq(sub_quad(pq, g, s))
        if quad_ is not None:
            q = q + pen.iq(sub_quad(quad_, g, s))
        q.linear_term = np.zeros(s) + (0 if q.linear_term is None else q.linear_term)
        want[g] = np.asarray(a.proximal(q)).reshape(want[g].shape)
    rest = np.ones(shape[0], bool)
    for g in case['groups']:
        rest[g] = False
    if rest.any():
        c, l = pen.qsum(shape, pq, quad_)
        want[rest] = (-l / c)[rest]
    y = o.proximal(pen.iq(pq))
    psc = 1 + np.abs(want).max() + np.abs(pen.qsum(shape, pq, quad_)[1]).max() / tot_c
    same('proximal map of a separable penalty', y, want, psc, 1e-7)
    q1, q2 = o.solve(pen.iq(pq), return_optimum=True), want
    same('solution of a separable penalty', q1[1], want, psc, 1e-7)
    # selectors
    for T, g, s in zip(o.selectors, groups, shapes):
        r = T.linear_map(x)
        w = x[g].reshape(s)
        if r.shape != w.shape or not np.array_equal(r, w):
            raise Violation('selector of a separable penalty gives %s instead of %s' % (r, w))
    # overlap
    if has_overlap(shape, groups):
        raise Violation('disjoint groups reported to overlap')
    k = case['vary'] % len(groups)
    for extra in (groups[k], slice(case['groups'][k][0], case['groups'][k][0] + 1)):
        if not has_overlap(shape, groups + [extra]):
            raise Violation('overlapping groups not reported: %s with %s' % (groups, extra))
    # the conjugate attains the Fenchel inequality
    curved = quad_ is not None and quad_[0]
    if covered and not any(t['s'].get('quad') is not None and (t['s']['quad'][0] or 0) for t in parts):
        c = o.conjugate
        g = tot_grad(pq, want)
        dual = -g                                    # a subgradient of the whole at the proximal point
        pv = o.nonsmooth_objective(want)
        dv = c.smooth_objective(dual, 'func') if curved else c.nonsmooth_objective(dual)
        same('conjugate of a separable penalty', pv + dv, (want * dual).sum(), psc ** 2 * (1 + pq[0]) + abs(pv) + abs(dv), 1e-6)
        if curved:
            same('gradient of the conjugate', c.smooth_objective(dual, 'grad'), want, psc + np.abs(dual).max() / quad_[0], 1e-6)
    # a whole problem: the proximal map again
    if len(shape) == 1:
        n = shape[0]
        loss = rr.quadratic_loss((n,), coef=pq[0])
        loss.quadratic = rr.identity_quadratic(0, 0, (0 if pq[2] is None else pq[2]) - pq[0] * (0 if pq[1] is None else pq[1]) + np.zeros(n), 0)
        prob = rr.separable_problem.fromatom(make(), loss)
        converge('separable problem', lambda k: prob.solve(tol=1e-14, min_its=20, max_its=(200, 2000, 10000)[k]), want, psc ** 2 * tot_c, pq, quad_)
    return '%d parts %s' % (len(parts), case['kind'])


def tot_grad(q, x):
    return pen_grad(q, x)
