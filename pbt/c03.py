"""C03: projections on cones, epigraphs, the simplex and linear subspaces."""
import numpy as np

from .core import prop, sub, Violation, Reject
from .gens import pick, boolean, integer, positive, vec, normal, real, seed
from . import sets, pen
from .c01 import gen_q

prop('C03',
     rule='Set (orthants, zero/free, norm epigraphs and polars, group and spectral epigraphs, subspaces, simplex, '
          'max function), offset, own quadratic and point (generic, inside, boundary, apex, polar, axis) are '
          'generated; non-trivial when the point is moved by the projection ("partial", "apex") or is a '
          'special position.  Oracle: Moreau certificate (membership, polar membership of the residual, '
          'orthogonality) from independent membership functions.',
     assumptions=['rows of the basis of a linear constraint are orthonormal, as documented',
                  'relative tolerance 1e-8'])


def point(draw, s):
    """where the projection argument sits relative to the (unshifted) cone"""
    n = s['n']
    kind = pick(draw, 'generic', 'generic', 'interior', 'boundary', 'apex', 'axis', 'polar', 'flat')
    x = vec(draw, n)
    if s['cls'] in sets.CONES[:4] + sets.LIN:
        return kind, x if kind != 'apex' else np.zeros(n)
    sgn = -1. if s['cls'].endswith('_polar') else 1.
    if kind == 'apex':
        return kind, np.zeros(n)
    if kind == 'axis':
        x[:-1] = 0
        return kind, x
    if kind == 'flat':
        x[-1] = 0
        return kind, x
    f = sets.distance(s)
    y = x.copy()
    y[-1] = 0
    h = f(y)
    if not np.isfinite(h):
        return kind, x
    if kind == 'interior':
        x[-1] = sgn * (1.5 * h + 0.5)
    elif kind == 'boundary':
        x[-1] = sgn * h
    elif kind == 'polar':
        h = sets.distance(dict(s, cls=sets.POLAR[s['cls']]))(y)
        if np.isfinite(h):
            x[-1] = -sgn * (h + integer(draw, 0, 1))
    return kind, x


def gen(classes, zero_w=True):
    def g(draw):
        s = sets.spec(draw, pick(draw, *classes), zero_w=zero_w)
        kind, x = point(draw, s)
        if boolean(draw, 2, 3):
            # put the total minimiser exactly at offset + x
            own = s['quad']
            c = positive(draw)
            tot = c + (own[0] if own else 0)
            target = x + (0 if s['offset'] is None else s['offset'])
            lin = np.zeros(s['n'])
            if own is not None:
                _, l = pen.qsum(s['n'], own, [1., np.zeros(s['n']), 0, 0])
                lin = l
            ctr = (tot * target + lin) / c
            q = [c, ctr, 0, 0]
        else:
            q, kind = gen_q(draw, s['n']), 'generic'
        return {'set': s, 'q': q, 'kind': kind}
    return g


def check(case):
    s, q = case['set'], case['q']
    a = sets.build(s)
    z = np.asarray(a.proximal(pen.iq(q)))
    v, kind = sets.check_projection(s, z, q)
    sc = 1 + np.abs(v).max() + np.abs(z).max()
    ref = pen.qval(s['quad'], z) + pen.qval(q, z)
    opt, arg = a.solve(pen.iq(q), return_optimum=True)
    pen.same('solve: argmin', arg, z)
    pen.same('solve: optimal value', opt, ref, scale=1 + abs(ref) + sc ** 2)
    arg, opt = a.proximal_optimum(pen.iq(q))
    pen.same('proximal_optimum: argmin', arg, z)
    pen.same('proximal_optimum: value', opt, ref, scale=1 + abs(ref) + sc ** 2)
    if s['offset'] is None:
        z1 = np.asarray(a.cone_prox(v.copy()))
        sets.check_projection(dict(s, quad=None), z1, [1., v, 0, 0])
        # orthogonal decomposition with the polar cone of the library
        p = sets.build(dict(s, cls=sets.POLAR[s['cls']], quad=None, offset=None))
        z2 = np.asarray(p.cone_prox(v.copy()))
        pen.same('projection on cone + projection on polar', z1 + z2, v, scale=sc)
        b = sets.build(dict(s, quad=None))
        if b.check_subgradient(b, v.copy())[0] > 1e-7 * sc ** 2 * s['n']:
            raise Violation('check_subgradient: projection and residual not orthogonal')
    if kind == 'inside':
        return '%s inside %s' % (s['cls'], case['kind']) if case['kind'] in ('boundary', 'apex', 'axis') else None
    return '%s %s' % (s['cls'], kind)


@sub('C03', 'vector cones', gen(sets.CONES), quick=3000, thorough=60000, cost=4)
def vector_cones(case):
    return check(case)


@sub('C03', 'group epigraphs', gen(sets.GROUP), quick=2000, thorough=40000, cost=5)
def group_epigraphs(case):
    return check(case)


@sub('C03', 'spectral epigraphs', gen(sets.SVD), quick=1600, thorough=30000, cost=5)
def spectral_epigraphs(case):
    return check(case)


@sub('C03', 'subspaces', gen(sets.LIN), quick=800, thorough=15000, cost=4)
def subspaces(case):
    return check(case)


def gen_member(draw):
    s = sets.spec(draw, pick(draw, *sets.ALL), own='any')
    kind, x = point(draw, s)
    return {'set': s, 'kind': kind, 'x': x, 'eps': pick(draw, 0., 1e-3, 0.1, 1.), 'dir': vec(draw, s['n'], 'cont')}


@sub('C03', 'membership', gen_member, quick=2500, thorough=40000, cost=3)
def membership(case):
    """indicator values: 0 on the set, +inf off it, plus the own quadratic"""
    s = case['set']
    a = sets.build(s)
    d = sets.distance(s)
    x = case['x'] + case['eps'] * case['dir']
    # a point of the set: the exact projection
    b = sets.build(dict(s, quad=None, offset=None))
    inside = np.asarray(b.cone_prox(x.copy()), float)
    off = np.zeros(s['n']) if s['offset'] is None else s['offset']
    sc = 1 + np.abs(x).max()
    out = None
    for w, name in ((inside, 'projected'), (x, 'free'), (np.zeros(s['n']), 'apex')):
        dist = d(w)
        big = np.abs(w).max()
        if s['offset'] is not None and name == 'apex' and s['cls'] != 'zero':
            continue                          # w+off-off may differ from 0 by rounding
        y = w + off
        got = a.nonsmooth_objective(y, check_feasibility=True)
        ref = pen.qval(s['quad'], y)
        if dist <= 1e-9 * big:
            # rounding in the projection / the shift must stay far below the relative tolerance
            if big == 0 or big > 1e-3 * (sc + np.abs(off).max()):
                pen.same('%s: value at a feasible point %s (%s)' % (s['cls'], w, name), got, ref,
                         scale=1 + abs(ref) + np.abs(y).max() ** 2)
        elif dist > 1e-2 * (1 + big + np.abs(off).max()) * sets.unit(s):
            if got != np.inf:
                raise Violation('%s: value %s at infeasible point %s (off by %.3g)' % (s['cls'], got, w, dist))
            out = s['cls'] + ' off'
        pen.same('%s: value without feasibility check' % s['cls'], a.nonsmooth_objective(y), ref,
                 scale=1 + abs(ref) + np.abs(y).max() ** 2)
    return out or (s['cls'] + ' on' if np.abs(inside).max() > 0 else None)


def gen_simplex(draw):
    n = integer(draw, 1, 7)
    s = {'cls': pick(draw, 'simplex_constraint', 'maximum'), 'n': n, 'offset': None, 'quad': None}
    if boolean(draw, 2, 5):
        s['offset'] = vec(draw, n)
    if boolean(draw, 2, 5):
        s['quad'] = pen.quad(draw, n, 'any')
    return {'set': s, 'q': gen_q(draw, n)}


def build_simplex(s):
    import regreg.atoms.simplex as S
    kw = {}
    if s['offset'] is not None:
        kw['offset'] = s['offset'].copy()
    if s['quad'] is not None:
        kw['quadratic'] = pen.iq(s['quad'])
    return getattr(S, s['cls'])(s['n'], **kw)


@sub('C03', 'simplex and max', gen_simplex, quick=1500, thorough=30000, cost=4)
def simplex(case):
    s, q = case['set'], case['q']
    a = build_simplex(s)
    n = s['n']
    z = np.asarray(a.proximal(pen.iq(q)), float)
    if z.shape != (n,) or not np.all(np.isfinite(z)):
        raise Violation('%s: proximal point %s' % (s['cls'], z))
    c, l = pen.qsum(n, s['quad'], q)
    v = -l / c
    off = np.zeros(n) if s['offset'] is None else s['offset']
    w = z - off
    u = c * (v - z)
    sc = 1 + np.abs(v).max() + np.abs(off).max()
    if s['cls'] == 'simplex_constraint':
        if w.min() < -1e-9 * sc or abs(w.sum() - 1) > 1e-9 * sc * n:
            raise Violation('not a point of the simplex: %s' % w)
        if abs(u.max() - (u * w).sum()) > 1e-8 * c * sc ** 2 * n:
            raise Violation('not the projection on the simplex: %s of %s' % (w, v - off))
        h = 0.
        far = np.abs(v - off).max() > 1e-3 and (abs((v - off).sum() - 1) > 1e-2 or (v - off).min() < -1e-2)
        for y, inside in ((z, True), (v, False)):
            got = a.nonsmooth_objective(y, check_feasibility=True)
            ref = pen.qval(s['quad'], y) if inside else np.inf
            if inside or far:
                pen.same('indicator of the simplex', got, ref, scale=1 + sc ** 2 + abs(ref if inside else 0))
    else:
        if u.min() < -1e-8 * c * sc or abs(u.sum() - 1) > 1e-8 * (1 + c * sc * n):
            raise Violation('max: subgradient %s not in the simplex' % u)
        if abs(w.max() - (u * w).sum()) > 1e-8 * (sc + c * sc ** 2 * n):
            raise Violation('max: not the proximal point')
        h = w.max()
        y = v
        pen.same('max: value', a.nonsmooth_objective(y, check_feasibility=True),
                 (v - off).max() + pen.qval(s['quad'], y), scale=1 + sc ** 2 + abs(pen.qval(s['quad'], y)))
    ref = h + pen.qval(s['quad'], z) + pen.qval(q, z)
    arg, opt = a.proximal_optimum(pen.iq(q))
    pen.same('proximal_optimum: value', opt, ref, scale=1 + abs(ref) + sc ** 2)
    return s['cls'] if n > 1 else None


def gen_large(draw):
    return {'cls': pick(draw, *(sets.CONES + sets.GROUP + sets.SVD)), 'n': integer(draw, 20, 200), 'seed': seed(draw),
            'tie': integer(draw, 0, 2), 't': real(draw, -40, 40)}


@sub('C03', 'large', gen_large, quick=300, thorough=5000, cost=4)
def large(case):
    """long vectors / larger matrices with ties"""
    r = np.random.RandomState(case['seed'])
    n = case['n']
    s = {'cls': case['cls'], 'offset': None, 'quad': None}
    if case['cls'] in sets.SVD:
        s['mshape'] = (max(2, n // 20), 5)
        n = 5 * s['mshape'][0] + 1
    x = r.standard_normal(n) * 3
    if case['tie']:
        x = np.round(x * case['tie'])
    if 'epigraph' in case['cls']:
        x[-1] = case['t']
    if case['cls'] in sets.GROUP:
        s['groups'] = r.randint(0, 8, n - 1).tolist()
        s['gweights'] = dict((g, float(r.uniform(0.2, 2))) for g in set(s['groups']) if r.uniform() < 0.7)
    s['n'] = n
    return check({'set': s, 'q': [2., x, 0, 0], 'kind': 'generic'})


def gen_composed(draw):
    cls = pick(draw, *(sets.CONES + sets.LIN + ['simplex_constraint', 'maximum']))
    if cls in ('simplex_constraint', 'maximum'):
        s = {'cls': cls, 'n': integer(draw, 1, 5), 'offset': None, 'quad': None}
    else:
        s = sets.spec(draw, cls, own=None, offset=False)
    n = s['n']
    p = integer(draw, 1, 4)
    kind = pick(draw, 'array', 'transform', 'diag') if cls in sets.CONES else pick(draw, 'array', 'diag')
    c = {'set': s, 'kind': kind, 'A': np.round(2 * normal(draw, (n, p))) / 2., 'd': vec(draw, n, 'grid'),
         'how': pick(draw, 'linear', 'affine') if cls in sets.CONES else 'linear',
         'off': boolean(draw, 1, 2), 'x': vec(draw, n if kind == 'diag' else p, 'grid'),
         'at': pick(draw, 'inside', 'outside', 'free'), 'w': vec(draw, n, 'grid'),
         'quad': pen.quad(draw, n, 'any') if boolean(draw, 1, 3) else None}
    if cls == 'nonnegative' and boolean(draw):
        c['A'], c['x'], c['d'] = np.abs(c['A']), np.abs(c['x']), np.abs(c['d'])
    return c


@sub('C03', 'composed with a linear map', gen_composed, quick=1500, thorough=30000, cost=3)
def composed(case):
    """the set at A x + b, with and without b"""
    import regreg.api as R
    from regreg.atoms import cones, linear_constraints, simplex as S
    s, x = case['set'], case['x']
    n, cls = s['n'], s['cls']
    D = np.diag(case['d']) if case['kind'] == 'diag' else case['A']
    diag = case['kind'] == 'diag'
    inner = D.dot(x)
    b = None
    simplex = cls in ('simplex_constraint', 'maximum')
    if case['off']:
        w = case['w']
        if case['at'] == 'inside':
            if simplex:
                w = np.abs(w)
                w = w / w.sum() if w.sum() > 0 else np.ones(n) / n
            else:
                w = np.asarray(sets.build(s).cone_prox(w.copy()), float)
        b = w - inner
        inner = inner + b
    op = case['d'].copy() if diag else D.copy()
    if case['kind'] == 'transform':
        op = R.linear_transform(op)
    kw = {} if case['quad'] is None else {'quadratic': pen.iq(case['quad'])}
    K = getattr(cones if cls in sets.CONES else S if simplex else linear_constraints, cls)
    args = (op, s['basis'].copy()) if cls in sets.LIN else (op,)
    bb = None if b is None else b.copy()
    a = K.linear(*args, diag=diag, offset=bb, **kw) if case['how'] == 'linear' else K.affine(op, bb, diag=diag, **kw)
    q = pen.qval(case['quad'], D.dot(x))
    sc = 1 + np.abs(inner).max() ** 2 + np.abs(D.dot(x)).max() ** 2
    if cls == 'maximum':
        ref = inner.max()
    elif simplex:
        e = max(abs(inner.sum() - 1), -inner.min())
        ref = 0. if e <= 1e-12 else np.inf if e > 1e-2 * (1 + np.abs(inner).max()) else None
    else:
        e, big = sets.distance(s)(inner), np.abs(inner).max()
        ref = None
        if e <= 1e-9 * big:
            if big == 0 and b is None or big > 1e-3 * sc:
                ref = 0.
        elif e > 1e-2 * (1 + big) * sets.unit(s):
            ref = np.inf
    if ref is None:
        raise Reject('too close to the edge')
    for k, want in ((True, ref + q), (False, (ref if cls == 'maximum' else 0.) + q)):
        got = a.nonsmooth_objective(x, check_feasibility=k)
        pen.same('%s.%s, A x %s b, feasibility %s' % (cls, case['how'], 'and no' if b is None else '+', k), got, want,
                 scale=1 + sc + abs(q))
    return '%s %s' % (cls, 'off' if ref == np.inf else 'on') if np.abs(inner).max() > 0 else None
