"""C16: algebra of identity quadratics."""
import numpy as np

from .core import prop, sub, Violation, Reject
from .gens import pick, boolean, integer, positive, arr, real
from . import pen

prop('C16',
     rule='Coefficients (vector, 0 or absent), shapes, points and sequences of operations are generated; non-trivial '
          'when the quadratic has a non-zero vector term.  Oracle: the formula evaluated on plain arrays, carried '
          'through each operation as an operation on functions.',
     assumptions=['centre and linear term are 0, absent or arrays of the shape of the argument (a non-zero scalar '
                  'does not determine the dimension)'])


def gen_quad(draw, shape):
    def vecterm():
        k = integer(draw, 0, 5)
        if k == 0:
            return None
        if k == 1:
            return 0
        if k == 2:
            return np.round(arr(draw, shape, 'grid')).astype(int)
        if k == 3:
            return np.zeros(shape)
        return arr(draw, shape)
    coef = pick(draw, 0, None, 1, 2., positive(draw), positive(draw))
    return [coef, vecterm(), vecterm(), pick(draw, None, 0, 1, -2.5, real(draw, -3, 3))]


def gen_shape(draw):
    return (integer(draw, 1, 5),) if boolean(draw, 3, 4) else (integer(draw, 1, 3), integer(draw, 1, 3))


def rich(q):
    return any(isinstance(v, np.ndarray) and np.any(v != 0) for v in (q[1], q[2]))


def mk(q):
    from regreg.api import identity_quadratic
    return identity_quadratic(q[0], pen._c(q[1]), pen._c(q[2]), q[3])


def scale(q, x):
    r = np.abs(x).max() + (0 if q[1] is None else np.abs(q[1]).max())
    return 1 + (q[0] or 0) * r ** 2 * x.size + abs(q[3] or 0) + \
        (0 if q[2] is None else np.abs(q[2]).max()) * r * x.size


def grad(q, x):
    return (q[0] or 0) * (x - (0 if q[1] is None else q[1])) + (0 if q[2] is None else q[2]) * np.ones(x.shape)


@sub('C16', 'value and gradient', lambda d: (lambda sh: {'q': gen_quad(d, sh), 'x': arr(d, sh)})(gen_shape(d)),
     quick=6000, thorough=100000, cost=1)
def value(case):
    q, x = case['q'], case['x']
    a = mk(q)
    sc = scale(q, x)
    xx = x.copy()
    v, g = pen.qval(q, x), grad(q, x)
    got = a.objective(xx, 'both')
    pen.same('value (both)', got[0], v, scale=sc, rtol=1e-11)
    pen.same('gradient (both)', got[1] * np.ones(x.shape), g, scale=sc, rtol=1e-11)
    pen.same('value (func)', a.objective(xx, 'func'), v, scale=sc, rtol=1e-11)
    pen.same('gradient (grad)', a.objective(xx, 'grad') * np.ones(x.shape), g, scale=sc, rtol=1e-11)
    pen.same('value (default mode)', a.objective(xx)[0], v, scale=sc, rtol=1e-11)
    if not np.array_equal(x, xx):
        raise Violation('argument changed')
    zero = (q[0] in (0, None) and q[3] in (0, None) and not rich(q))
    if zero and not a.iszero:
        raise Violation('iszero is False for the zero function')
    if a.iszero and (abs(v) > 0 or np.any(g != 0)):
        raise Violation('iszero is True for a non-zero function')
    c = a.true_center
    if (q[0] or 0) > 0:
        pen.same('true_center', np.asarray(c) * np.ones(x.shape), x - g / q[0], scale=sc * (1 + 1 / q[0]), rtol=1e-11)
    elif c is not None:
        raise Violation('true_center without curvature is %r' % (c,))
    return 'value' if rich(q) else None


OPS = ['collapsed', 'copy', 'recenter', 'add', 'add', 'zeroify', 'noneify', 'conjugate', 'getitem', 'latex', 'iszero',
       'proximal', 'get_shapes']


def gen_seq(draw):
    sh = gen_shape(draw)
    k = integer(draw, 1, 3)
    ops = []
    for i in range(integer(draw, 1, 6)):
        ops.append([pick(draw, *OPS), integer(draw, 0, 9), integer(draw, 0, 9), arr(draw, sh)])
    return {'quads': [gen_quad(draw, sh) for _ in range(k)], 'ops': ops, 'x': [arr(draw, sh) for _ in range(2)]}


@sub('C16', 'sequences of operations', gen_seq, quick=4000, thorough=80000, cost=2)
def sequence(case):
    """a pool of quadratics with their reference functions; every operation adds
    to the pool, and all members keep representing their function"""
    xs = case['x']
    shape = xs[0].shape
    pool = []
    for q in case['quads']:
        pool.append((mk(q), (lambda x, q=q: pen.qval(q, x)), (lambda x, q=q: grad(q, x)), shape, 'q'))
    nontrivial = any(rich(q) for q in case['quads'])
    label = set()

    def check():
        for obj, f, g, sh, name in pool:
            for x in xs:
                if sh != shape:
                    if sh[0] != 1:
                        continue
                    y = x[:1]
                else:
                    y = x
                sc = 1e3 * (1 + abs(f(y)) + np.abs(g(y)).max() + np.abs(y).max()) ** 2
                pen.same('value after %s' % name, obj.objective(y, 'func'), f(y), scale=sc, rtol=1e-12)
                pen.same('gradient after %s' % name, obj.objective(y, 'grad') * np.ones(y.shape), g(y), scale=sc,
                         rtol=1e-12)
    for op, i, j, v in case['ops']:
        if op == 'getitem':
            obj, f, g, sh, name = pool[i % len(case['quads'])]
            q = case['quads'][i % len(case['quads'])]
            if shape[0] < 2:
                continue
            sl = slice(0, 1)
            sub_ = [q[0]] + [t[sl] if isinstance(t, np.ndarray) else t for t in q[1:3]] + [0]
            got = obj[sl]
            for x in xs:
                pen.same('restricted value', got.objective(x[sl], 'func'), pen.qval(sub_, x[sl]), scale=scale(q, x), rtol=1e-11)
            check()
            continue
        obj, f, g, sh, name = pool[i % len(pool)]
        label.add(op)
        if op == 'collapsed':
            new = (obj.collapsed(), f, g)
            if np.any(np.asarray(new[0].center) != 0):
                raise Violation('collapsed has a centre')
        elif op == 'copy':
            import copy
            new = (copy.copy(obj), f, g)
        elif op == 'recenter':
            off, qq = obj.recenter(v.copy())
            o = 0 if off is None else np.array(off)
            if not np.array_equal(o * np.ones(shape), v):
                raise Violation('recenter returned the offset %s for %s' % (off, v))
            new = (qq, (lambda x, f=f, v=v: f(x + v)), (lambda x, g=g, v=v: g(x + v)))
        elif op == 'add':
            if j % 4 == 0:
                new = (obj + None, f, g)
            else:
                o2, f2, g2, _, _ = pool[j % len(pool)]
                new = (obj + o2, (lambda x, f=f, f2=f2: f(x) + f2(x)), (lambda x, g=g, g2=g2: g(x) + g2(x)))
        elif op in ('zeroify', 'noneify', 'get_shapes'):
            getattr(obj, op)()
            check()
            continue
        elif op == 'latex':
            obj.latexify()
            obj._repr_latex_()
            check()
            continue
        elif op == 'iszero':
            obj.iszero
            obj.true_center
            check()
            continue
        elif op == 'proximal':
            import regreg.api as R
            if (obj.coef or 0) <= 0 or (np.ndim(obj.linear_term or 0) == 0 if not isinstance(obj.linear_term, np.ndarray) else False):
                continue
            if len(shape) == 1:
                R.l1norm(shape, lagrange=0.3, offset=v.copy()).proximal(obj)
            check()
            continue
        elif op == 'conjugate':
            c = obj.coef or 0
            if not c > 0:
                continue
            new = (obj.conjugate, lambda u, f=f, g=g, c=c: _conj(f, g, c, u)[0], lambda u, f=f, g=g, c=c: _conj(f, g, c, u)[1])
        pool.append(new + (shape, op))
        check()
    return '+'.join(sorted(label)) if nontrivial and label else None


def _conj(f, g, c, u):
    """value and gradient of the conjugate of a quadratic with curvature c"""
    x = (u - g(np.zeros(u.shape))) / c
    return (u * x).sum() - f(x), x


def gen_conj(draw):
    sh = gen_shape(draw)
    return {'q': gen_quad(draw, sh), 'x': arr(draw, sh), 'u': arr(draw, sh)}


@sub('C16', 'conjugate', gen_conj, quick=2000, thorough=40000, cost=1)
def conj(case):
    """Fenchel-Young, with equality at the gradient; the conjugate of a linear function is
    the indicator of its slope"""
    q, x, u = case['q'], case['x'], case['u']
    a = mk(q)
    c = q[0] or 0
    if not c > 0 and not isinstance(q[2], np.ndarray):
        raise Reject('the linear term does not determine the dimension')
    b = a.conjugate
    g = grad(q, x)
    sc = scale(q, x) * (1 + (1 / c if c else 0))
    if c > 0:
        pen.same('f(x) + f*(grad f(x)) - <x, grad f(x)>', b.objective(g, 'func') + pen.qval(q, x), (g * x).sum(), scale=sc, rtol=1e-11)
        d = b.objective(u, 'func') + pen.qval(q, x) - (u * x).sum()
        ref = ((u - g) ** 2).sum() / (2 * c)
        pen.same('Fenchel-Young gap', d, ref, scale=sc + ref + np.abs(u).max() ** 2 / c + np.abs(u).max() * np.abs(x).max() * x.size, rtol=1e-11)
        bb = b.conjugate
        pen.same('conjugating twice', bb.objective(x, 'func'), pen.qval(q, x), scale=sc, rtol=1e-10)
    else:
        pen.same('conjugate of a linear function at its slope',
                 b.nonsmooth_objective(g, check_feasibility=True), -(q[3] or 0), rtol=1e-11)
        far = g + np.sign(u) + (u == 0)
        if b.nonsmooth_objective(far, check_feasibility=True) != np.inf:
            raise Violation('conjugate of a linear function is finite off its slope')
        z = b.proximal(pen.iq([1., u, 0, 0]))
        pen.same('projection on the domain of the conjugate', z, g, rtol=1e-12)
    return 'curved' if c > 0 and rich(q) else 'linear' if rich(q) else None


def gen_eq(draw):
    sh = gen_shape(draw)
    p, q = gen_quad(draw, sh), gen_quad(draw, sh)
    m = integer(draw, 0, 5)
    if m < 4:
        p2 = list(p)
        p2[m] = q[m]
        q = p2
    elif m == 4:
        q = list(p)
    return {'p': p, 'q': q, 'x': [arr(draw, sh) for _ in range(3)]}


@sub('C16', 'equality and printed form', gen_eq, quick=2000, thorough=40000, cost=1)
def equality(case):
    from regreg.api import identity_quadratic
    p, q = case['p'], case['q']
    a, b = mk(p), mk(q)
    same = repr(p) == repr(q)
    eq = bool(a == b)
    if same and not eq:
        raise Violation('equal constructor arguments, but not equal')
    if not bool(a == mk(p)):
        raise Violation('not equal to an identical quadratic')
    if eq:
        for x in case['x']:
            if abs(pen.qval(p, x) - pen.qval(q, x)) > 1e-3 * scale(p, x):
                raise Violation('equal, but with different values')
    if a == 3 or a == None:  # noqa
        raise Violation('equal to an object of another type')
    c = eval(repr(a), {'identity_quadratic': identity_quadratic, 'array': np.array})
    for x in case['x']:
        pen.same('value of the printed form', c.objective(x, 'func'), pen.qval(p, x), scale=scale(p, x), rtol=1e-5)
    return 'equal' if same and rich(p) else 'different' if rich(p) or rich(q) else None
