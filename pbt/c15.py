"""C15: the calculus of smooth functions."""
import numpy as np

from .core import prop, sub, Violation, Reject
from .gens import pick, boolean, integer, positive, vec, arr, normal, design, quad
from . import loss, pen, aff
from .loss import same

prop('C15',
     rule='Expressions built from losses, quadratics and smoothed norms by composition with affine maps (any '
          'transform expression, nested), weighted sums, multipliers, offsets and own quadratics are generated, then '
          'multipliers, offsets and quadratics of parts are changed one after another; after every step value and '
          'gradient are compared with the same expression evaluated on dense matrices.  Non-trivial when the gradient '
          'is not zero at some step and the expression has at least one composition or sum.',
     assumptions=['relative tolerance 1e-9 of a scale accumulated along the expression',
                  'the quadratic of an inner part belongs to that part and is not part of a composition or sum '
                  '(only the outermost function adds its own quadratic to its objective)'])

LEAF = ['gaussian', 'logistic', 'huber', 'huber_svm', 'cox']


def gen_leaf(draw, n):
    k = pick(draw, 'loss', 'loss', 'loss', 'quad', 'diag', 'smoothed')
    if k == 'loss':
        s = loss.spec(draw, pick(draw, *LEAF), n, quad=False)
        if s.get('t') is not None:
            s['t'], s['y'] = None, np.minimum(s['y'], 1)
        return {'op': 'loss', 's': s, 'n': n}
    e = {'op': k, 'n': n, 'coef': pick(draw, 1., positive(draw)),
         'offset': vec(draw, n, 'cont') if boolean(draw) else None}
    if k == 'quad':
        e['A'] = np.identity(n) if boolean(draw, 1, 4) else design(draw, integer(draw, 1, 4), n)
        e['none'] = boolean(draw, 1, 4)
    elif k == 'diag':
        e['D'] = np.abs(vec(draw, n, 'grid'))
    else:
        e['eps'] = positive(draw)
    return e


def gen_expr(draw, n, depth):
    """an expression with an argument of n numbers"""
    if depth == 0 or boolean(draw, 1, 8):
        return gen_leaf(draw, n)
    k = pick(draw, 'affine', 'affine', 'class', 'sum', 'shift')
    if k == 'affine':
        t = aff.tree(draw, integer(draw, 0, 2), n)
        return {'op': 'affine', 't': t, 'n': n, 'e': gen_expr(draw, t['m'], depth - 1), 'offset': None,
                'raw': boolean(draw, 1, 2), 'store': boolean(draw, 2, 3)}
    if k == 'class':
        m = integer(draw, 1, 5)
        how = pick(draw, 'affine', 'linear', 'diag')
        if how == 'diag':
            m = n
        l = gen_leaf(draw, m)
        while l['op'] != 'loss' or l['s']['kind'] == 'cox' or l['s']['cw'] is not None:
            l = gen_leaf(draw, m)
        l['s']['offset'] = vec(draw, m, 'cont') if how != 'linear' or boolean(draw) else None
        A = vec(draw, n, 'grid') if how == 'diag' else design(draw, m, n)
        return {'op': 'class', 'how': how, 'e': l, 'n': n, 'A': A, 'offset': None}
    if k == 'shift':
        l = gen_leaf(draw, n)
        while l['op'] != 'loss' or l['s']['kind'] == 'cox' or l['s']['cw'] is not None:
            l = gen_leaf(draw, n)
        l['s']['offset'] = vec(draw, n, 'cont')
        l['shift'] = True
        return l
    L = integer(draw, 1, 3)
    return {'op': 'sum', 'n': n, 'parts': [gen_expr(draw, n, depth - 1) for _ in range(L)],
            'w': None if boolean(draw, 1, 3) else [pick(draw, 0., 1., 2., 0.5) for _ in range(L)], 'offset': None}


def build(e, nodes):
    import regreg.api as rr
    from regreg.smooth import affine_smooth, sum as smooth_sum
    from regreg.smooth.quadratic import quadratic_loss
    k = e['op']
    if k == 'loss':
        s = e['s']
        if e.get('shift'):
            kw, cls = class_args(s)
            o = cls.shift(s['offset'].copy(), coef=s['coef'], **kw)
        else:
            o = loss.build(s)
    elif k in ('quad', 'diag'):
        off = None if e['offset'] is None else e['offset'].copy()
        if k == 'diag':
            o = quadratic_loss((e['n'],), Q=e['D'].copy(), Qdiag=True, coef=e['coef'], offset=off)
        elif e['none']:
            o = quadratic_loss((e['n'],), coef=e['coef'], offset=off)
        else:
            o = quadratic_loss((e['n'],), Q=e['A'].T.dot(e['A']), coef=e['coef'], offset=off)
    elif k == 'smoothed':
        o = rr.l1norm(e['n'], lagrange=e['coef'], offset=None if e['offset'] is None else e['offset'].copy()
                      ).smoothed(rr.identity_quadratic(e['eps'], 0, 0, 0))
    elif k == 'affine':
        inner = build(e['e'], nodes)
        t = aff.build(e['t'], raw=e['raw'])
        o = affine_smooth(inner, t, store_grad=e['store'])
    elif k == 'class':
        s = e['e']['s']
        kw, cls = class_args(s)
        if e['how'] == 'linear':
            o = cls.linear(e['A'].copy(), coef=s['coef'], offset=None if s['offset'] is None else s['offset'].copy(),
                           **kw)
        else:
            o = cls.affine(e['A'].copy(), -s['offset'], coef=s['coef'], diag=e['how'] == 'diag', **kw)
        nodes.append((e['e'], o.atom))
    else:
        o = smooth_sum([build(p, nodes) for p in e['parts']], weights=e['w'])
    nodes.append((e, o))
    return o


def class_args(s):
    import regreg.smooth.glm as G
    y = loss.y_of(s)
    k = s['kind']
    if k == 'gaussian':
        return {'response': y}, G.gaussian_loglike
    if k == 'logistic':
        return {'successes': y}, G.logistic_loglike
    if k == 'huber':
        return {'response': y, 'smoothing_parameter': s['eps']}, G.huber_loss
    return {'successes': y, 'smoothing_parameter': s['eps']}, G.huber_svm


def value(e, x):
    """value, gradient, scale"""
    k = e['op']
    if k == 'loss':
        v, g, _ = loss.ref(e['s'], x)
        return v, g, loss.scale_of(e['s'], x)
    if e.get('offset') is not None:
        x = x - e['offset']
    n = e['n']
    if k in ('quad', 'diag'):
        Q = np.diag(e['D']) if k == 'diag' else np.identity(n) if e['none'] else e['A'].T.dot(e['A'])
        v, g = e['coef'] / 2 * x.dot(Q).dot(x), e['coef'] * Q.dot(x)
        return v, g, (1 + e['coef']) * (1 + np.abs(Q).max()) * (1 + np.abs(x).max()) ** 2 * n * n
    if k == 'smoothed':
        C, eps = e['coef'], e['eps']
        a = np.abs(x)
        v = np.where(a <= C * eps, x ** 2 / (2 * eps), C * a - eps * C ** 2 / 2).sum()
        return v, np.clip(x / eps, -C, C), n * (1 + C + C * C) * (1 + a.max()) * (1 + 1 / eps + eps)
    if k == 'affine':
        A, b = aff.dense(e['t'])
        v, g, S = value(e['e'], A.dot(x) + b)
        return v, A.T.dot(g), S * (1 + np.abs(A).sum()) * 10
    if k == 'class':
        A = np.diag(e['A']) if e['how'] == 'diag' else e['A']
        v, g, S = value(e['e'], A.dot(x))
        return v, A.T.dot(g), S * (1 + np.abs(A).sum())
    v, g, S = 0., np.zeros(n), 1.
    for w, p in zip(e['w'] or [1.] * len(e['parts']), e['parts']):
        a, b, c = value(p, x)
        v, g, S = v + w * a, g + w * b, S + c
    return v, g, S * 4


def depth_of(e):
    return 0 if e['op'] in ('loss', 'quad', 'diag', 'smoothed') else 1


def gen(draw):
    n = integer(draw, 1, 5)
    e = gen_expr(draw, n, integer(draw, 1, 3))
    ops = []
    for _ in range(integer(draw, 0, 5)):
        k = pick(draw, 'coef', 'offset', 'quadratic', 'eval', 'none')
        ops.append({'op': k, 'at': integer(draw, 0, 12), 'coef': pick(draw, 0., 1., positive(draw)),
                    'off': vec(draw, 12, 'cont'), 'quad': [pick(draw, 0., positive(draw)), vec(draw, n, 'cont'),
                                                           pick(draw, 0, vec(draw, n, 'grid')), pick(draw, 0, 2.5)]})
    return {'e': e, 'ops': ops, 'x': vec(draw, n, pick(draw, 'cont', 'grid')), 'y': vec(draw, n, 'cont')}


@sub('C15', 'history', gen, quick=4000, thorough=80000, cost=6)
def history(case):
    import copy
    e, x, y = copy.deepcopy(case['e']), case['x'], case['y']
    nodes = []
    obj = build(e, nodes)
    n = e['n']
    own = [None]
    seen = [False]

    def check(what):
        for z in (x, y):
            v, g, S = value(e, z)
            if not np.isfinite(S):
                raise Reject('overflow')
            zz = z.copy()
            f1, g1 = obj.smooth_objective(zz, 'both')
            same(what + ': value', f1, v, S)
            same(what + ': gradient', g1, g, S)
            same(what + ': value only', obj.smooth_objective(zz, 'func'), v, S)
            same(what + ': gradient only', obj.smooth_objective(zz, 'grad'), g, S)
            q = 0. if own[0] is None else pen.qval(own[0], z)
            same(what + ': objective', obj.objective(zz), v + q, S + 100 * n * (1 + np.abs(z).max()) ** 2)
            same(what + ': own quadratic', obj.nonsmooth_objective(zz), q, 100 * n * (1 + np.abs(z).max()) ** 2)
            if not np.array_equal(zz, z):
                raise Violation('argument changed')
            seen[0] = seen[0] or bool(np.abs(g).max() > 1e-10)

    check('new')
    for j, op in enumerate(case['ops']):
        s, o = nodes[op['at'] % len(nodes)]
        k = op['op']
        if k == 'coef':
            while s['op'] == 'affine':                # a composition's multiplier is its atom's
                s = s['e']
            if s['op'] == 'class':
                s = s['e']
            if s['op'] in ('sum', 'smoothed'):
                continue
            o.coef = op['coef']
            (s['s'] if s['op'] == 'loss' else s)['coef'] = op['coef']
        elif k in ('offset', 'none'):
            if s['op'] == 'smoothed':
                continue
            off = None if k == 'none' else np.resize(op['off'], s['n'])
            o.offset = None if off is None else off.copy()
            (s['s'] if s['op'] == 'loss' else s)['offset'] = off
        elif k == 'quadratic':
            obj.quadratic = pen.iq(op['quad'])
            own[0] = op['quad']
        check('step %d (%s)' % (j, k))
    return e['op'] if seen[0] and depth_of(e) else None


def gen_prox(draw):
    n = integer(draw, 1, 5)
    q = quad(draw, n)
    if not any(isinstance(t, np.ndarray) for t in q[1:3]):
        q[1] = vec(draw, n, 'cont')
    e = gen_expr(draw, n, 1)
    if e['op'] == 'smoothed':                         # a smoothed norm declares no proximal map
        e = {'op': 'diag', 'n': n, 'coef': 1., 'offset': None, 'D': np.ones(n)}
    return {'e': e, 'own': quad(draw, n, 'any') if boolean(draw, 2, 3) else None, 'q': q}


@sub('C15', 'proximal', gen_prox, quick=1000, thorough=10000, cost=1)
def proximal(case):
    """the proximal map of a smooth function minimises its own plus the given quadratic"""
    obj = build(case['e'], [])
    n = case['e']['n']
    if case['own'] is not None:
        obj.quadratic = pen.iq(case['own'])
    c, l = pen.qsum((n,), case['own'], case['q'])
    z = obj.proximal(pen.iq(case['q']))
    same('proximal', z, -l / c, 1 + np.abs(l / c).max())
    if case['own'] is not None:
        same('own quadratic', obj.nonsmooth_objective(z), pen.qval(case['own'], z), 1 + np.abs(z).max() ** 2 * 100)
    return 'own' if case['own'] is not None else None
