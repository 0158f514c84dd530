"""C09: adjoint identity, linearity, affine = linear + offset, shapes."""
import numpy as np

from .core import prop, sub, Violation
from .gens import arr, boolean, integer, pick, positive, vec
from . import aff

prop('C09',
     rule='Transforms (all leaf kinds, random expressions over them up to depth 3, and shaped transforms in their own '
          'input and output shapes) with generated data are applied to generated arguments; non-trivial when the linear '
          'map of the argument and <Ax,u> are non-zero.  Oracle: <Ax,u> = <x,A*u>, A(ax+by) = aAx+bAy, affine map = '
          'linear map + constant = linear map + affine_offset, declared shapes, columns of a matrix argument.',
     assumptions=['selector index sets without repetitions; transforms wrapped by posneg are linear',
                  'relative tolerance 1e-9 with respect to the size of the entries met on the way'])


def close(name, a, b, scale, shape=None):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if shape is not None and a.shape != tuple(shape):
        raise Violation('%s: shape %s, declared %s' % (name, a.shape, tuple(shape)))
    if a.shape != b.shape:
        raise Violation('%s: shapes %s and %s' % (name, a.shape, b.shape))
    if not np.all(np.abs(a - b) <= 1e-9 * scale):
        raise Violation('%s: %r != %r' % (name, a.tolist(), b.tolist()))


def laws(t, case, scale, offset=True):
    x, y, u = (np.array(case[k], float) for k in 'xyu')
    a, b = case['ab']
    ish, osh = tuple(np.atleast_1d(t.input_shape)), tuple(np.atleast_1d(t.output_shape))
    if ish != x.shape or osh != u.shape:
        raise Violation('declared shapes %s -> %s, expected %s -> %s' % (ish, osh, x.shape, u.shape))
    x0, y0, u0 = x.copy(), y.copy(), u.copy()
    Ax, Ay = np.array(t.linear_map(x), float), np.array(t.linear_map(y), float)
    Atu = np.array(t.adjoint_map(u), float)
    big = scale * (1 + max(np.abs(x).max(), np.abs(y).max()))
    bigu = scale * (1 + np.abs(u).max())
    close('linear map', Ax, Ax, big, osh)
    close('adjoint map', Atu, Atu, bigu, ish)
    l, r = float((Ax * u).sum()), float((x * Atu).sum())
    if not abs(l - r) <= 1e-9 * scale * (1 + np.abs(x).max()) * (1 + np.abs(u).max()) * (x.size + u.size):
        raise Violation('<Ax,u> = %r but <x,A*u> = %r' % (l, r))
    close('linearity', t.linear_map(a * x + b * y), a * Ax + b * Ay, big * (1 + abs(a) + abs(b)), osh)
    close('linear map of 0', t.linear_map(np.zeros(ish)), np.zeros(osh), 1, osh)
    if offset:
        b0 = np.array(t.affine_map(np.zeros(ish)), float)
        close('affine map of 0', b0, b0, big, osh)
        close('affine map', t.affine_map(x), Ax + b0, big, osh)
        close('affine_offset', aff.offset_of(t, osh), b0, big, osh)
    for n, v, v0 in (('x', x, x0), ('y', y, y0), ('u', u, u0)):
        if not np.array_equal(v, v0):
            raise Violation('argument %s was changed' % n)
    return Ax, l


def args(draw, p, m):
    p, m = (tuple(np.atleast_1d(q)) for q in (p, m))
    return dict(x=arr(draw, p), y=arr(draw, p), u=arr(draw, m), ab=[pick(draw, 1., -1., 2., 0.5), pick(draw, 1., 0., -3.)])


def scale_of(s):
    A = 1.
    for v in s.values():
        if isinstance(v, np.ndarray):
            A = max(A, 1 + np.abs(v).max() * 2)
    for t in s.get('parts', []) + ([s['t']] if 't' in s else []):
        A = max(A, 1.) * scale_of(t)
    if s['k'] in ('trend', 'diff_transform'):
        A *= np.abs(aff.dense(s)[0]).sum(1).max() + 1
    return A * (2 + s['p'])


def g_tree(draw):
    s = aff.tree(draw, pick(draw, 0, 0, 1, 2, 3), integer(draw, 1, 6))
    return dict(s=s, **args(draw, s['p'], s['m']))


@sub('C09', 'transforms', g_tree, quick=3500, thorough=120000, cost=1.2)
def transforms(case):
    """Vector transforms: leaves and random expressions."""
    t = aff.build(case['s'], raw=False)
    Ax, l = laws(t, case, scale_of(case['s']))
    return case['s']['k'] if np.any(Ax) and l != 0 else None


# ------------------------------------------------------- shaped transforms

SHAPED = ['image', 'block_columns', 'block_rows', 'posneg', 'tensorize', 'reshape', 'scaler', 'vstack', 'product',
          'input_shape', 'identity', 'selector', 'compose', 'offset_only', 'sum', 'residual', 'T', 'scalar',
          'block_columns_T', 'block_rows_T', 'aslinear', 'selector2', 'intercept']


def g_shaped(draw):
    k = pick(draw, *SHAPED)
    s = dict(k=k)
    q = integer(draw, 1, 3)
    if k in ('image', 'T', 'scalar', 'vstack', 'product', 'compose', 'sum', 'aslinear'):
        s['shape'] = [integer(draw, 2, 5), integer(draw, 2, 5)]
        m = s['shape'][0] * s['shape'][1]
        s['b'] = arr(draw, (m - 1, 2)) if boolean(draw, 1, 2) else None
        s['c'] = pick(draw, 2., -1., 0.5)
        i, o = tuple(s['shape']), (m - 1, 2)
        if k == 'T':
            i, o = o, i
        elif k == 'vstack':
            s['leaf'] = aff.leaf(draw, m)
            o = (2 * (m - 1) + s['leaf']['m'] + m,)
        elif k == 'product':
            s['leaf'] = aff.leaf(draw, integer(draw, 1, 3))
            i, o = (m + s['leaf']['p'],), (2 * (m - 1) + s['leaf']['m'],)
        elif k == 'compose':
            s['leaf'] = aff.leaf(draw, 2 * (m - 1))
            o = (s['leaf']['m'],)
    elif k in ('block_columns', 'block_columns_T'):
        p = integer(draw, 1, 4)
        s['parts'] = [aff.leaf(draw, p) for _ in range(integer(draw, 1, 3))]
        i, o = (p, len(s['parts'])), (sum(t['m'] for t in s['parts']),)
        if k.endswith('T'):
            i, o = o, i
    elif k in ('block_rows', 'block_rows_T'):
        m = integer(draw, 1, 4)
        s['parts'] = [aff.leaf(draw, integer(draw, 1, 4), m) for _ in range(integer(draw, 1, 3))]
        i, o = (sum(t['p'] for t in s['parts']),), (m, len(s['parts']))
        if k.endswith('T'):
            i, o = o, i
    elif k == 'posneg':
        t = aff.leaf(draw, integer(draw, 1, 5))
        s['leaf'] = t
        i, o = (2, t['p']), (t['m'],)
    elif k == 'tensorize':
        t = aff.leaf(draw, integer(draw, 1, 5), kinds=aff.MATRIX)
        s['leaf'], s['q'] = t, q
        i, o = (t['p'], q), (t['m'], q)
    elif k == 'reshape':
        a, b = integer(draw, 1, 4), integer(draw, 1, 4)
        i, o = pick(draw, ((a * b,), (a, b)), ((a, b), (a * b,)), ((a, b), (b, a)))
        s['i'], s['o'] = list(i), list(o)
    elif k in ('scaler', 'identity', 'offset_only', 'residual'):
        i = o = pick(draw, (integer(draw, 1, 5),), (integer(draw, 1, 4), integer(draw, 1, 4)))
        s['d'] = arr(draw, i)
    elif k == 'input_shape':
        t = aff.leaf(draw, integer(draw, 1, 5), kinds=('linear',))
        s['X'] = t['X'] if 'X' in t else np.ones((2, t['p']))
        s['q'] = q
        s['b'] = arr(draw, (s['X'].shape[0], q)) if boolean(draw) else None
        s['sparse'] = boolean(draw, 1, 3)
        i, o = (s['X'].shape[1], q), (s['X'].shape[0], q)
    elif k == 'intercept':
        s['leaf'] = aff.leaf(draw, integer(draw, 1, 5))
        i, o = (s['leaf']['p'] + 1,), (s['leaf']['m'],)
    elif k == 'selector':         # rows of a matrix, reshaped
        a, b = integer(draw, 1, 4), integer(draw, 1, 4)
        ix = aff.gen_index(draw, a)
        s['ix'] = ix
        r = len(aff.positions(ix, a))
        i, o = (a, b), (r, b)
        s['reshape'] = None
        if boolean(draw):
            o = (r * b,)
            s['reshape'] = list(o)
    else:                         # selector2: a column
        a, b = integer(draw, 1, 4), integer(draw, 1, 4)
        s['col'] = integer(draw, 0, b - 1)
        s['leaf'] = aff.leaf(draw, a)
        i, o = (a, b), (s['leaf']['m'],)
    s['i'], s['o'] = [int(v) for v in i], [int(v) for v in o]
    return dict(s=s, **args(draw, i, o))


def shaped(s):
    from regreg import affine as A
    from regreg.affine import block_maps, image2d
    from scipy import sparse
    k = s['k']
    i, o = tuple(s['i']), tuple(s['o'])
    L = lambda t: aff.build(t, raw=False)
    if 'shape' in s:
        t = image2d.image2d_differences(tuple(s['shape']), affine_offset=None if s['b'] is None else s['b'].copy())
        if k == 'T':
            return t.T
        if k == 'scalar':
            return A.scalar_multiply(t, s['c'])
        if k == 'sum':
            return A.affine_sum([t, A.scalar_multiply(t, s['c'])], [1., 0.5])
        if k == 'aslinear':
            return A.aslinear(t)
        if k == 'vstack':
            m = i[0] * i[1]
            return A.vstack([t, A.composition(L(s['leaf']), A.reshape(i, (m,))), A.identity(i)])
        if k == 'product':
            return A.product([t, L(s['leaf'])])
        if k == 'compose':
            return A.composition(L(s['leaf']), A.reshape(t.output_shape, (2 * t.output_shape[0],)), t)
        return t
    if k.startswith('block'):
        t = getattr(block_maps, k.replace('_T', ''))([L(q) for q in s['parts']])
        return A.adjoint(t) if k.endswith('T') else t
    if k == 'posneg':
        return A.posneg(A.aslinear(L(s['leaf'])))
    if k == 'tensorize':
        return A.tensorize(L(s['leaf']), s['q'])
    if k == 'reshape':
        return A.reshape(i, o)
    if k == 'scaler':
        return A.scaler(s['d'])
    if k == 'identity':
        return A.identity(i)
    if k == 'offset_only':
        return A.affine_transform(None, s['d'])
    if k == 'residual':
        return A.residual(A.scaler(s['d']))
    if k == 'input_shape':
        X = sparse.csr_matrix(s['X']) if s['sparse'] else s['X'].copy()
        return A.affine_transform(X, s['b'], input_shape=i)
    if k == 'intercept':
        return A.add_intercept(L(s['leaf']))
    if k == 'selector':
        return A.selector(aff.index(s['ix']), i, reshape=None if s['reshape'] is None else tuple(s['reshape']))
    return A.selector((slice(None), s['col']), i, L(s['leaf']))


@sub('C09', 'shaped', g_shaped, quick=2500, thorough=60000, cost=1.)
def shapes(case):
    """Transforms of matrix arguments in their own shapes."""
    s = case['s']
    t = shaped(s)
    sc = 10.
    for q in s.get('parts', []) + ([s['leaf']] if 'leaf' in s else []):
        sc *= scale_of(q)
    for q in ('X', 'd', 'b'):
        if s.get(q) is not None:
            sc *= 1 + np.abs(s[q]).max()
    Ax, l = laws(t, case, sc)
    if s['k'] in ('tensorize', 'input_shape') and s.get('b') is None:
        base = aff.build(s['leaf'], raw=False) if 'leaf' in s else None
        if base is not None:
            for j in range(Ax.shape[1]):
                close('column', Ax[:, j], base.linear_map(case['x'][:, j].copy()), sc * (1 + np.abs(case['x']).max()))
    return s['k'] if np.any(Ax) and l != 0 else None


# --------------------------------------------------------- matrix arguments

def g_matrix(draw):
    p = integer(draw, 1, 6)
    a = aff.leaf(draw, p, kinds=aff.MATRIX)
    comb = pick(draw, 'leaf', 'leaf', 'compose', 'T', 'scalar', 'sum', 'residual')
    s = a
    if a['k'] not in aff.MATRIX:
        s = a = dict(k='linear', p=p, m=2, X=arr(draw, (2, p), 'cont'))
    if comb == 'compose':
        b = aff.leaf(draw, a['m'], kinds=aff.MATRIX)
        if b['k'] in aff.MATRIX:
            s = dict(k='compose', p=p, m=b['m'], parts=[a, b])
    elif comb == 'T':
        s = dict(k='T', p=a['m'], m=p, t=a)
    elif comb == 'scalar':
        s = dict(k='scalar', p=p, m=a['m'], t=a, c=pick(draw, -1., 0.5, 2.))
    elif comb == 'sum':
        b = dict(k='linear', p=p, m=a['m'], X=arr(draw, (a['m'], p), 'cont'))
        s = dict(k='sum', p=p, m=a['m'], parts=[a, b], w=[0.5, -1.])
    elif comb == 'residual' and a['m'] == p:
        s = dict(k='residual', p=p, m=p, t=a)
    q = integer(draw, 1, 4)
    return dict(s=s, X=arr(draw, (s['p'], q)), U=arr(draw, (s['m'], q)))


@sub('C09', 'columns', g_matrix, quick=1200, thorough=30000, cost=1.)
def columns(case):
    """Several arguments at once, as the columns of a matrix."""
    s = case['s']
    t = aff.build(s, raw=False)
    X, U = case['X'], case['U']
    sc = scale_of(s)
    bx, bu = sc * (1 + np.abs(X).max()), sc * (1 + np.abs(U).max())
    AX, BX, AU = t.linear_map(X.copy()), t.affine_map(X.copy()) if not deep_affine(s) else None, t.adjoint_map(U.copy())
    for j in range(X.shape[1]):
        close('linear map, column %d' % j, AX[:, j], t.linear_map(X[:, j].copy()), bx)
        close('adjoint map, column %d' % j, AU[:, j], t.adjoint_map(U[:, j].copy()), bu)
        if BX is not None:
            close('affine map, column %d' % j, BX[:, j], t.affine_map(X[:, j].copy()), bx)
    return s['k'] if np.any(AX) and X.shape[1] > 1 else None


def deep_affine(s):
    """Offsets of the factored matrix are added as they are."""
    return 'factored' in aff.kinds(s) and s['k'] != 'factored'
