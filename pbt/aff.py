"""Transforms of regreg.affine: specs (plain data), the library objects built
from them and, independently, their dense matrices and offsets.

A spec is a dict with 'k' (kind), 'p' / 'm' (input / output sizes, both
vectors unless the kind says otherwise) and the kind's own data.
dense(spec) returns (A, b): the matrix (m x p, C order for shaped arguments)
and the offset the definition of the kind prescribes."""
import numpy as np
from scipy import sparse

from .gens import arr, boolean, integer, normal, pick, positive, real, vec


# ------------------------------------------------------------ structured defs

def diff_matrix(knots, order):
    """Divided differences of the given order at sorted knots, by Lagrange's
    formula f[x_i..x_{i+k}] = sum_j f_j / prod_{l != j} (x_j - x_l)."""
    x = np.sort(np.asarray(knots, float))
    n = len(x)
    D = np.zeros((n - order, n))
    for i in range(n - order):
        idx = range(i, i + order + 1)
        for j in idx:
            D[i, j] = 1. / np.prod([x[j] - x[l] for l in idx if l != j])
    return D


def cumsum_matrix(knots):
    """Centred cumulative sum of steps: the inverse of the first difference."""
    x = np.sort(np.asarray(knots, float))
    n = len(x)
    A = np.zeros((n, n - 1))
    for i in range(n):
        for j in range(n - 1):
            if j < i:
                A[i, j] = x[j + 1] - x[j]
    return A - A.mean(0)


def multiscale_matrix(p, slices, scaling=None):
    A = np.zeros((len(slices), p))
    for k, (i, j) in enumerate(slices):
        A[k, i:j] = 1. / (j - i)
    A = A - A.mean(1)[:, None]
    if scaling is not None:
        A = A * np.asarray(scaling, float).reshape(-1, 1)
    return A


def image_matrix(m, n):
    """The (2(mn-1)) x mn matrix behind image2d_differences: first 'row' of the
    tensor: vertical differences of the interior vertices, horizontal
    differences along the last row, vertical differences along the last
    column; second: horizontal differences of the interior vertices."""
    V = lambda i, j: i * n + j
    rows = []
    def edge(a, b):
        r = np.zeros(m * n)
        r[a] += 1
        r[b] -= 1
        rows.append(r)
    for i in range(m - 1):
        for j in range(n - 1):
            edge(V(i, j), V(i + 1, j))
    for j in range(n - 1):
        edge(V(m - 1, j), V(m - 1, j + 1))
    for i in range(m - 1):
        edge(V(i, n - 1), V(i + 1, n - 1))
    for i in range(m - 1):
        for j in range(n - 1):
            edge(V(i, j), V(i, j + 1))
    while len(rows) < 2 * (m * n - 1):
        rows.append(np.zeros(m * n))
    return np.array(rows).reshape(2 * (m * n - 1), m * n)


def normalize_matrix(X, center, scale, ddof, value):
    X = np.asarray(X, float)
    n = len(X)
    Xc = X - X.mean(0) if center else X
    if not scale:
        return Xc
    # standard deviations, about the mean when centring, about 0 otherwise
    sd = np.sqrt((Xc ** 2).sum(0) / (n - (ddof if center else ddof - 1)))
    big = np.sqrt((X ** 2).sum(0) / n)
    live = sd > 1e-6 * np.maximum(big, 1e-300)
    out = np.zeros_like(Xc)
    out[:, live] = Xc[:, live] / sd[live] * value
    return out


# ------------------------------------------------------------------- indices

def gen_index(draw, P):
    """An indexing object for a P-vector, as data."""
    kind = pick(draw, 'slice', 'slice', 'list', 'mask', 'step', 'perm')
    if kind == 'slice':
        a = integer(draw, 0, P - 1)
        return ['slice', a, integer(draw, a + 1, P), 1]
    if kind == 'step':
        return ['slice', integer(draw, 0, min(1, P - 1)), P, 2]
    order = list(np.argsort(normal(draw, P)))
    order = [int(i) for i in order[:integer(draw, 1, P)]]
    if kind == 'mask':
        return ['mask', [i in order for i in range(P)]]
    if kind == 'list':
        return ['list', order]
    return ['list', [int(i) for i in np.argsort(normal(draw, P))]]


def index(ix):
    if ix[0] == 'slice':
        return slice(*ix[1:])
    return np.array(ix[1], bool if ix[0] == 'mask' else int)


def positions(ix, P):
    return np.arange(P)[index(ix)]


# -------------------------------------------------------------------- leaves

def _dense(draw, m, p):
    X = normal(draw, (m, p))
    if boolean(draw, 1, 4):
        X = np.round(2 * X)
    if boolean(draw, 1, 6):
        X[:, integer(draw, 0, p - 1)] = 0
    return X


def leaf(draw, p, m=None, kinds=None):
    """A transform from p-vectors to m-vectors (m is free if None)."""
    any_m = ['array', 'array', 'linear', 'affine', 'affine', 'csr', 'csr_affine', 'csc',
             'multiscale', 'factored', 'normalize', 'subclassed_linear']
    square = ['diag', 'diag_affine', 'identity', 'scaler', 'offset_only', 'centering', 'reshape_id']
    ok = list(any_m)
    if m is None or m == p:
        ok += square * 2
    if m is None or m == 1:
        ok += ['row']
    if (m is None or m == p + 1):
        ok += ['tf_inverse'] * 2
    if p >= 2 and (m is None or 1 <= p - m <= min(3, p - 1)):
        ok += ['trend', 'diff_transform', 'trend']
    if m is None or m < p:
        ok += ['selector'] * 2
    if m is None or m <= 8:
        ok += ['image']
    if kinds is not None:
        ok = [k for k in ok if k in kinds] or [k for k in any_m if k in kinds] or ok
    k = pick(draw, *ok)
    s = dict(k=k, p=p)
    mm = m if m is not None else integer(draw, 1, 7)
    if k == 'image':
        ok_shapes = [(a, b) for a in range(2, 5) for b in range(2, 5) if a * b == p]
        if not ok_shapes or (m is not None and m != 2 * (p - 1)):
            s['k'] = k = 'array'
        else:
            s['shape'] = list(pick(draw, *ok_shapes))
            s['m'] = 2 * (p - 1)
            s['b'] = arr(draw, (p - 1, 2)) if boolean(draw, 1, 3) else None
            return s
    if k in square:
        mm = p
    if k == 'row':
        mm = 1
    s['m'] = mm
    if k in ('array', 'linear', 'csr', 'csc', 'subclassed_linear', 'row'):
        s['X'] = _dense(draw, mm, p)
        if k in ('csr', 'csc') and boolean(draw):
            s['X'] = np.round(s['X'])
    elif k in ('affine', 'csr_affine'):
        s['X'] = _dense(draw, mm, p)
        s['b'] = vec(draw, mm)
        s['sparse_offset'] = boolean(draw, 1, 6)
    elif k == 'diag':
        s['d'] = vec(draw, p)
    elif k == 'diag_affine':
        s['d'], s['b'] = vec(draw, p), vec(draw, p)
    elif k == 'scaler':
        s['d'] = vec(draw, p)
    elif k == 'offset_only':
        s['b'] = vec(draw, p)
    elif k == 'tf_inverse':
        s['m'] = p + 1
        s['knots'] = _knots(draw, p + 1)
    elif k in ('trend', 'diff_transform'):
        order = p - m if m is not None else integer(draw, 1, min(3, p - 1))
        s['m'], s['order'] = p - order, order
        s['knots'] = _knots(draw, p)
    elif k == 'selector':
        ix = gen_index(draw, p)
        if m is not None:
            order = [int(i) for i in np.argsort(normal(draw, p))][:m]
            ix = ['list', order]
        s['ix'] = ix
        s['m'] = len(positions(ix, p))
    elif k == 'multiscale':
        sl = []
        for _ in range(mm):
            i = integer(draw, 0, p - 1)
            sl.append([i, integer(draw, i + 1, p)])
        s['slices'] = sl
        s['scaling'] = pick(draw, None, None, 'vec')
        if s['scaling']:
            s['scaling'] = [positive(draw) for _ in range(mm)]
    elif k == 'factored':
        r = integer(draw, 1, min(mm, p))
        s['U'], s['VT'] = normal(draw, (mm, r)), normal(draw, (r, p))
        s['D'] = np.array([positive(draw) for _ in range(r)])
        s['b'] = vec(draw, mm) if boolean(draw, 1, 2) else None
    elif k == 'normalize':
        if mm < 3:
            s['k'] = 'array'
        s['X'] = normal(draw, (mm, p)) + integer(draw, -1, 1)
        if k == 'normalize':
            s['center'], s['scale'] = pick(draw, (True, True), (True, False), (False, True))
            s['sparse'] = boolean(draw, 1, 3)
            s['ddof'] = pick(draw, 1, 1, 0)
            s['value'] = pick(draw, 1, 1, 2.5)
    return s


def _knots(draw, n):
    if boolean(draw, 1, 3):
        return [float(i) for i in range(n)]
    x = np.cumsum([0.5 + real(draw, 0, 2) for _ in range(n)]) - real(draw, 0, 5)
    if boolean(draw):
        x = x[np.argsort(normal(draw, n))]
    return [float(v) for v in x]


# --------------------------------------------------------------------- trees

COMB = ['compose', 'compose', 'dot', 'T', 'adjoint', 'scalar', 'sum', 'vstack', 'hstack',
        'product', 'residual', 'intercept', 'aslinear', 'wrap', 'select', 'block_columns',
        'block_rows', 'posneg', 'tensorize']


def tree(draw, depth, p, m=None, linear_only=False):
    if depth == 0 or boolean(draw, 1, 6):
        return leaf(draw, p, m)
    ok = [k for k in COMB]
    if not (m is None or m == p):
        ok.remove('residual')
    if p < 2:
        ok = [k for k in ok if k not in ('hstack', 'product', 'intercept')]
    if m is not None and m < 2:
        ok = [k for k in ok if k not in ('vstack', 'product')]
    if p % 2:
        ok = [k for k in ok if k not in ('posneg', 'tensorize', 'block_columns')]
    if m is not None and m % 2:
        ok = [k for k in ok if k not in ('tensorize', 'block_rows')]
    k = pick(draw, *ok)
    sub = lambda a, b=None: tree(draw, depth - 1, a, b)
    size = lambda: integer(draw, 1, 6)
    s = dict(k=k, p=p)
    if k in ('compose', 'dot'):
        first = sub(p, None)
        parts = [first]
        if k == 'compose' and boolean(draw, 1, 4):
            parts.append(sub(parts[-1]['m'], None))
        parts.append(sub(parts[-1]['m'], m))
        s['parts'] = parts
        s['m'] = parts[-1]['m']
    elif k in ('T', 'adjoint'):
        mm = m or size()
        s['t'] = sub(mm, p)
        s['m'] = mm
    elif k == 'scalar':
        s['t'] = sub(p, m)
        s['c'] = pick(draw, 1., -1., 0., 2., 0.5, -1.5)
        s['m'] = s['t']['m']
    elif k == 'sum':
        a = sub(p, m)
        s['parts'] = [a] + [sub(p, a['m']) for _ in range(integer(draw, 1, 2))]
        s['w'] = [pick(draw, 1., -1., 0.5, 0., 2.) for _ in s['parts']] if boolean(draw, 3, 4) else None
        s['m'] = a['m']
    elif k == 'vstack':
        if m is None:
            s['parts'] = [sub(p, None) for _ in range(integer(draw, 1, 3))]
        else:
            a = integer(draw, 1, m - 1)
            s['parts'] = [sub(p, a), sub(p, m - a)]
        s['m'] = sum(t['m'] for t in s['parts'])
    elif k == 'hstack':
        a = integer(draw, 1, p - 1)
        t = sub(a, m)
        s['parts'] = [t, sub(p - a, t['m'])]
        s['m'] = t['m']
    elif k == 'product':
        a = integer(draw, 1, p - 1)
        b = None if m is None else integer(draw, 1, m - 1)
        s['parts'] = [sub(a, b), sub(p - a, None if m is None else m - b)]
        s['m'] = sum(t['m'] for t in s['parts'])
    elif k == 'residual':
        s['t'] = sub(p, p)
        s['m'] = p
    elif k == 'intercept':
        s['t'] = sub(p - 1, m)
        s['m'] = s['t']['m']
    elif k == 'aslinear':
        s['t'] = sub(p, m)
        s['m'] = s['t']['m']
    elif k == 'wrap':
        s['t'] = sub(p, m)
        s['m'] = s['t']['m']
        s['b'] = vec(draw, s['m']) if boolean(draw, 2, 3) else None
    elif k == 'select':
        ix = gen_index(draw, p)
        s['ix'] = ix
        s['t'] = sub(len(positions(ix, p)), m)
        s['m'] = s['t']['m']
    elif k == 'block_columns':      # (p/2, 2) -> stacked outputs
        a = sub(p // 2, None if m is None or m < 2 else integer(draw, 1, m - 1))
        if m is None:
            parts = [a, sub(p // 2, None)]
        elif m < 2:
            return leaf(draw, p, m)
        else:
            parts = [a, sub(p // 2, m - a['m'])]
        s['parts'] = parts
        s['m'] = sum(t['m'] for t in parts)
    elif k == 'block_rows':         # p inputs split -> (m/2, 2)
        if p < 2:
            return leaf(draw, p, m)
        a = integer(draw, 1, p - 1)
        t = sub(a, None if m is None else m // 2)
        s['parts'] = [t, sub(p - a, t['m'])]
        s['m'] = 2 * t['m']
    elif k == 'posneg':             # linear parts only
        t = tree(draw, depth - 1, p // 2, m)
        s['t'] = t
        s['m'] = t['m']
    elif k == 'tensorize':
        s['t'] = leaf(draw, p // 2, None if m is None else m // 2, kinds=MATRIX)
        s['m'] = 2 * s['t']['m']
    return s


# leaves that accept several arguments at once (as columns)
MATRIX = ('array', 'linear', 'affine', 'csr', 'csr_affine', 'csc', 'diag', 'identity',
          'trend', 'diff_transform', 'tf_inverse', 'centering', 'factored', 'subclassed_linear')


def kinds(s):
    out = {s['k']}
    for t in s.get('parts', []) + ([s['t']] if 't' in s else []):
        out |= kinds(t)
    return out


def size(s):
    return 1 + sum(size(t) for t in s.get('parts', []) + ([s['t']] if 't' in s else []))


# --------------------------------------------------------------------- build

def build(s, raw=True):
    """The library object of a spec.  With raw, dense / sparse leaves are
    handed over as plain arrays where the library converts them itself."""
    import regreg.api as R
    from regreg import affine as A
    from regreg.affine import block_maps, fused_lasso, image2d, multiscale, factored_matrix
    k = s['k']
    cp = lambda key: None if s[key] is None else np.array(s[key], float)
    T = lambda t: build(t)
    whole = lambda t: A.astransform(build(t))
    if k == 'array':
        return cp('X') if raw else A.linear_transform(cp('X'))
    if k == 'row':
        return A.linear_transform(cp('X').reshape(-1))
    if k == 'linear':
        return A.linear_transform(cp('X'))
    if k == 'subclassed_linear':
        return A.astransform(A.linear_transform(cp('X')))
    if k == 'affine':
        b = cp('b')
        if s['sparse_offset']:
            b = sparse.csc_matrix(b.reshape(-1, 1))
        return A.affine_transform(cp('X'), b)
    if k == 'csr':
        X = sparse.csr_matrix(s['X'])
        return X if raw else A.linear_transform(X)
    if k == 'csc':
        return A.linear_transform(sparse.csc_matrix(s['X']))
    if k == 'csr_affine':
        return A.affine_transform(sparse.csr_matrix(s['X']), cp('b'))
    if k == 'diag':
        return A.linear_transform(cp('d'), diag=True)
    if k == 'diag_affine':
        return A.affine_transform(cp('d'), cp('b'), diag=True)
    if k == 'identity':
        return A.identity((s['p'],))
    if k == 'reshape_id':
        return A.reshape((s['p'],), (s['p'],))
    if k == 'scaler':
        return A.scaler(cp('d'))
    if k == 'centering':
        return A.centering((s['p'],))
    if k == 'offset_only':
        return A.affine_transform(None, cp('b'))
    if k == 'tf_inverse':
        return fused_lasso.trend_filter_inverse(np.array(s['knots']))
    if k == 'trend':
        return fused_lasso.trend_filter(np.array(s['knots']), order=s['order'])
    if k == 'diff_transform':
        return fused_lasso.difference_transform(np.array(s['knots']), order=s['order'], transform=True)
    if k == 'selector':
        return A.selector(index(s['ix']), (s['p'],))
    if k == 'image':
        sh = tuple(s['shape'])
        t = image2d.image2d_differences(sh, affine_offset=cp('b'))
        return A.composition(A.reshape((s['p'] - 1, 2), (s['m'],)), t, A.reshape((s['p'],), sh))
    if k == 'multiscale':
        sc = None if s['scaling'] is None else np.array(s['scaling'])
        return multiscale.multiscale(s['p'], slices=[tuple(x) for x in s['slices']], scaling=sc)
    if k == 'factored':
        fm = factored_matrix.factored_matrix([cp('U'), cp('D'), cp('VT')], affine_offset=cp('b'))
        return A.astransform(fm)
    if k == 'normalize':
        X = sparse.csr_matrix(s['X']) if s['sparse'] else cp('X')
        return A.normalize(X, center=s['center'], scale=s['scale'], ddof=s['ddof'], value=s['value'])
    if k == 'compose':
        return A.composition(*[T(t) for t in s['parts'][::-1]])
    if k == 'dot':
        return whole(s['parts'][1]).dot(whole(s['parts'][0]))
    if k == 'T':
        return whole(s['t']).T
    if k == 'adjoint':
        return A.adjoint(T(s['t']))
    if k == 'scalar':
        return A.scalar_multiply(whole(s['t']), s['c'])
    if k == 'sum':
        return A.affine_sum([T(t) for t in s['parts']], s['w'])
    if k in ('vstack', 'hstack', 'product'):
        return getattr(A, k)([T(t) for t in s['parts']])
    if k == 'residual':
        return A.residual(T(s['t']))
    if k == 'intercept':
        return A.add_intercept(T(s['t']))
    if k == 'aslinear':
        return A.aslinear(T(s['t']))
    if k == 'wrap':
        if s['b'] is None:
            return A.affine_transform(T(s['t']), None)
        return A.affine_transform(T(s['t']), cp('b'))
    if k == 'select':
        return A.selector(index(s['ix']), (s['p'],), whole(s['t']))
    if k == 'block_columns':
        t = block_maps.block_columns([T(t) for t in s['parts']])
        return A.composition(t, A.reshape((s['p'],), (s['p'] // 2, 2)))
    if k == 'block_rows':
        t = block_maps.block_rows([T(t) for t in s['parts']])
        return A.composition(A.reshape((s['m'] // 2, 2), (s['m'],)), t)
    if k == 'posneg':
        t = A.posneg(A.aslinear(T(s['t'])))
        return A.composition(t, A.reshape((s['p'],), (2, s['p'] // 2)))
    if k == 'tensorize':
        t = A.tensorize(T(s['t']), 2)
        return A.composition(A.reshape((s['m'] // 2, 2), (s['m'],)), t,
                             A.reshape((s['p'],), (s['p'] // 2, 2)))
    raise ValueError(k)


# --------------------------------------------------------------------- dense

def dense(s):
    k, p, m = s['k'], s['p'], s['m']
    I = np.identity
    if k in ('array', 'row', 'linear', 'subclassed_linear', 'csr', 'csc'):
        return np.array(s['X'], float).reshape(m, p), np.zeros(m)
    if k in ('affine', 'csr_affine'):
        return np.array(s['X'], float), np.array(s['b'], float)
    if k in ('diag', 'scaler'):
        return np.diag(s['d']), np.zeros(m)
    if k == 'diag_affine':
        return np.diag(s['d']), np.array(s['b'])
    if k in ('identity', 'reshape_id'):
        return I(p), np.zeros(m)
    if k == 'centering':
        return I(p) - 1. / p, np.zeros(m)
    if k == 'offset_only':
        return I(p), np.array(s['b'])
    if k == 'tf_inverse':
        return cumsum_matrix(s['knots']), np.zeros(m)
    if k in ('trend', 'diff_transform'):
        return diff_matrix(s['knots'], s['order']), np.zeros(m)
    if k == 'selector':
        return I(p)[positions(s['ix'], p)], np.zeros(m)
    if k == 'image':
        M = image_matrix(*s['shape'])
        # output (mn-1, 2), flattened in C order
        M = M.reshape(2, p - 1, p).transpose(1, 0, 2).reshape(m, p)
        return M, np.zeros(m) if s['b'] is None else np.array(s['b']).reshape(-1)
    if k == 'multiscale':
        return multiscale_matrix(p, s['slices'], s['scaling']), np.zeros(m)
    if k == 'factored':
        A = np.zeros((m, p))
        for r in range(len(s['D'])):
            A += s['D'][r] * np.outer(s['U'][:, r], s['VT'][r])
        return A, np.zeros(m) if s['b'] is None else np.array(s['b'])
    if k == 'normalize':
        return normalize_matrix(s['X'], s['center'], s['scale'], s['ddof'], s['value']), np.zeros(m)
    if k in ('compose', 'dot'):
        A, b = I(p), np.zeros(p)
        for t in s['parts']:
            B, c = dense(t)
            A, b = B.dot(A), B.dot(b) + c
        return A, b
    if k == 'sum':
        A, b = np.zeros((m, p)), np.zeros(m)
        for t, w in zip(s['parts'], s['w'] or [1.] * len(s['parts'])):
            B, c = dense(t)
            A, b = A + w * B, b + w * c
        return A, b
    if k in ('vstack', 'hstack', 'product', 'block_columns', 'block_rows'):
        parts = [dense(t) for t in s['parts']]
        As, bs = [q[0] for q in parts], [q[1] for q in parts]
        if k == 'vstack':
            return np.vstack(As), np.hstack(bs)
        if k == 'hstack':
            return np.hstack(As), sum(bs)
        from scipy.linalg import block_diag
        if k == 'product':
            return block_diag(*As), np.hstack(bs)
        if k == 'block_columns':
            # input (p/2, 2): column i feeds transform i
            q = p // 2
            cols = [np.array([j * 2 + i for j in range(q)]) for i in (0, 1)]
            A = np.zeros((m, p))
            r = 0
            for i, B in enumerate(As):
                A[r:r + B.shape[0], cols[i]] = B
                r += B.shape[0]
            return A, np.hstack(bs)
        # block_rows: output (m/2, 2): column i is transform i of part i
        q = m // 2
        A, b = np.zeros((m, p)), np.zeros(m)
        c = 0
        for i, B in enumerate(As):
            rows = np.array([j * 2 + i for j in range(q)])
            A[np.ix_(rows, np.arange(c, c + B.shape[1]))] = B
            b[rows] = bs[i]
            c += B.shape[1]
        return A, b
    B, c = dense(s['t'])
    if k in ('T', 'adjoint'):
        return B.T, np.zeros(m)
    if k == 'scalar':
        return s['c'] * B, s['c'] * c
    if k == 'residual':
        return I(p) - B, -c
    if k == 'intercept':
        return np.hstack([np.ones((m, 1)), B]), c
    if k == 'aslinear':
        return B, np.zeros(m)
    if k == 'wrap':
        return B, c + (0 if s['b'] is None else np.array(s['b']))
    if k == 'select':
        A = np.zeros((m, p))
        A[:, positions(s['ix'], p)] = B
        return A, c
    if k == 'posneg':
        return np.hstack([B, -B]), np.zeros(m)
    if k == 'tensorize':
        A = np.kron(B, I(2))
        return A, np.repeat(c, 2)
    raise ValueError(k)


def offset_of(t, shape):
    b = t.affine_offset
    return np.zeros(shape) if b is None else np.asarray(b, float) + np.zeros(shape)
