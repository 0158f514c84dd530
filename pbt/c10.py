"""C10: expressions of transforms against dense matrix algebra."""
import numpy as np

from .core import prop, sub, Violation, Reject
from .gens import arr, boolean, integer, normal, pick, positive, vec
from . import aff
from .c09 import close, scale_of

prop('C10',
     rule='Random expression trees (composition, .dot, .T, adjoint, scaling, weighted sum, vertical / horizontal stack, '
          'product, block columns / rows, selection, residual, intercept, wrapping with an offset, aslinear, posneg, '
          'tensorize) over dense, sparse, diagonal and structured leaves are compared with dense algebra on matrices '
          'built from the definitions; non-trivial when the tree has at least 3 nodes and its matrix is non-zero.  Power '
          'iteration is compared with the singular values when the largest is separated.',
     assumptions=['power_L returns the largest squared singular value; it is compared up to 1e-3 (best of three runs) '
                  'and never exceeds it', 'relative tolerance 1e-9'])


def g_tree(draw):
    s = aff.tree(draw, pick(draw, 1, 2, 2, 3, 4), integer(draw, 1, 6))
    return dict(s=s, x=vec(draw, s['p']), u=vec(draw, s['m']))


@sub('C10', 'expressions', g_tree, quick=4000, thorough=150000, cost=1.5)
def expressions(case):
    """linear_map, affine_map, adjoint_map and affine_offset of an expression."""
    s = case['s']
    A, b = aff.dense(s)
    t = aff.build(s, raw=False)
    sc = scale_of(s)
    x, u = case['x'], case['u']
    bx, bu = sc * (1 + np.abs(x).max()), sc * (1 + np.abs(u).max())
    if t.input_shape != (s['p'],) or t.output_shape != (s['m'],):
        raise Violation('declared shapes %s -> %s' % (t.input_shape, t.output_shape))
    close('linear_map', t.linear_map(x.copy()), A.dot(x), bx)
    close('affine_map', t.affine_map(x.copy()), A.dot(x) + b, bx)
    close('adjoint_map', t.adjoint_map(u.copy()), A.T.dot(u), bu)
    close('affine_offset', aff.offset_of(t, (s['m'],)), b, sc)
    return s['k'] if aff.size(s) >= 3 and np.any(A) else None


@sub('C10', 'dense', g_tree, quick=800, thorough=20000, cost=3.)
def dense(case):
    """todense, shape, ndim, and conversions of an expression."""
    from regreg import affine as R
    s = case['s']
    A, b = aff.dense(s)
    raw = aff.build(s)
    t = R.astransform(raw)
    sc = scale_of(s)
    close('todense', R.todense(t), A, sc)
    if tuple(t.shape) != A.shape or t.ndim != 2:
        raise Violation('shape %s, ndim %s of a %s matrix' % (t.shape, t.ndim, A.shape))
    x, u = case['x'], case['u']
    bx, bu = sc * (1 + np.abs(x).max()), sc * (1 + np.abs(u).max())
    lin = R.aslinear(raw)
    close('aslinear', lin.affine_map(x.copy()), A.dot(x), bx, lin.output_shape)
    adj = R.adjoint(raw)
    close('adjoint', adj.affine_map(u.copy()), A.T.dot(u), bu, adj.output_shape)
    close('adjoint of adjoint', adj.T.linear_map(x.copy()), A.dot(x), bx)
    close('gram', R.composition(t.T, t).linear_map(x.copy()), A.T.dot(A.dot(x)), bx * sc)
    close('dot', t.dot(x.copy()), A.dot(x), bx)
    return s['k'] if np.any(A) else None


def g_power(draw):
    k = pick(draw, 'spectrum', 'spectrum', 'tree', 'zero', 'rank1', 'array', 'multi')
    c = dict(k=k, seed=integer(draw, 0, 2 ** 31))
    if k == 'tree':
        c['s'] = aff.tree(draw, pick(draw, 0, 1, 2), integer(draw, 1, 6))
        return c
    m, p = integer(draw, 1, 7), integer(draw, 1, 7)
    if k == 'zero':
        c['X'] = np.zeros((m, p))
    elif k == 'array':
        c['X'] = arr(draw, (m, p))
    elif k == 'rank1':
        c['X'] = np.outer(normal(draw, m), normal(draw, p))
    else:
        U, V = np.linalg.qr(normal(draw, (m, m)))[0], np.linalg.qr(normal(draw, (p, p)))[0]
        r = min(m, p)
        d = np.sort([positive(draw, 1e-3, 1e3) for _ in range(r)])[::-1]
        if k == 'multi' and r > 1:
            d[1] = d[0]
        c['X'] = (U[:, :r] * d).dot(V[:, :r].T)
    c['sparse'] = boolean(draw, 1, 4)
    return c


@sub('C10', 'power', g_power, quick=700, thorough=15000, cost=3.)
def power(case):
    """power_L against the singular values."""
    from regreg import affine as R
    from scipy import sparse
    if case['k'] == 'tree':
        A, _ = aff.dense(case['s'])
        t = aff.build(case['s'])
    else:
        A = case['X']
        t = sparse.csr_matrix(A) if case['sparse'] else A.copy()
    sv = np.linalg.svd(A, compute_uv=False)
    np.random.seed(case['seed'] % 2 ** 31)
    v = [float(R.power_L(t)) for _ in range(3)]
    top = sv[0] ** 2
    if not all(0 <= w <= top * (1 + 1e-7) + 1e-300 for w in v):
        raise Violation('estimates %s exceed the largest squared singular value %r' % (v, top))
    if not max(v) >= 0.8 * top:
        raise Violation('estimates %s, largest squared singular value %r' % (v, top))
    distinct = sv[sv < sv[0] * (1 - 1e-9)]
    if len(distinct) == 0 or distinct[0] < 0.95 * sv[0]:
        if not max(v) >= top * (1 - 1e-3):
            raise Violation('estimates %s, largest squared singular value %r' % (v, top))
    return case['k'] if top > 0 else None


def g_conv(draw):
    m, p = integer(draw, 1, 6), integer(draw, 1, 6)
    return dict(X=arr(draw, (m, p)), fmt=pick(draw, 'array', 'csr', 'csc', 'coo', 'int', 'fortran', 'row', 'transform'),
                x=vec(draw, p), u=vec(draw, m))


@sub('C10', 'convert', g_conv, quick=500, thorough=8000, cost=.6)
def convert(case):
    """Arrays in every accepted format as linear operators."""
    import warnings
    from regreg import affine as R
    from scipy import sparse
    X, f = case['X'], case['fmt']
    u = case['u']
    if f == 'int':
        X = np.round(X)
    arg = X.copy()
    if f in ('csr', 'csc', 'coo'):
        arg = getattr(sparse, f + '_matrix')(X)
    elif f == 'int':
        arg = X.astype(int)
    elif f == 'fortran':
        arg = np.asfortranarray(X)
    elif f == 'row':
        X = X[:1]
        arg, u = X[0].copy(), u[:1]
    elif f == 'transform':
        arg = R.linear_transform(arg)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        t = R.astransform(arg)
        if f == 'transform' and t is not arg:
            raise Violation('astransform of a transform is another object')
        sc = 20 * (1 + np.abs(X).max())
        close('linear_map', t.linear_map(case['x'].copy()), X.dot(case['x']), sc * (1 + np.abs(case['x']).max()), t.output_shape)
        close('affine_map', t.affine_map(case['x'].copy()), X.dot(case['x']), sc * (1 + np.abs(case['x']).max()))
        close('adjoint_map', t.adjoint_map(u.copy()), X.T.dot(u), sc * (1 + np.abs(u).max()), t.input_shape)
        close('todense', R.todense(t), X, sc)
        if tuple(t.shape) != X.shape:
            raise Violation('shape %s of a %s matrix' % (t.shape, X.shape))
    return f if np.any(X) else None
