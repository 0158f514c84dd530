"""C13: Cox partial likelihood."""
import numpy as np

from .core import prop, sub, Violation, Reject
from .gens import pick, boolean, integer, positive, vec, arr, normal, design
from . import loss, pen
from .loss import same

prop('C13',
     rule='Event times (heavy ties, all tied, all distinct, integer), censoring patterns (none, all, mixed, last '
          'case censored or not), case weights with zeros, offsets, multipliers and linear predictors are generated; '
          'non-trivial when there is at least one event whose risk set holds two or more cases.',
     assumptions=['relative tolerance 1e-9 of 1 + largest |linear predictor|, times total weight',
                  'linear predictors within 600 of one another (exp does not overflow)'])


def gen(draw, hi=12):
    n = integer(draw, 1, hi)
    s = loss.spec(draw, 'cox', n)
    s['c'] = pick(draw, s['c'], s['c'], s['c'] * 0 + 1)
    return {'s': s, 'eta': loss.gen_eta(draw, s), 'cw': loss.case_weights(draw, n),
            'u': vec(draw, n, 'cont'), 'v': vec(draw, n, 'grid'),
            'shift': pick(draw, 1., -3., 50., 1000., -1e4), 'perm': integer(draw, 0, 10 ** 6),
            'tie': pick(draw, 'exp', 'cube', 'rank', 'affine')}


def nontrivial(s, cw):
    w = loss.weights_of(s, cw)
    return any(s['c'][i] and w[i] > 0 and ((s['y'] >= s['y'][i]) & (w > 0)).sum() > 1 for i in range(s['n']))


def hm(obj, eta, v, cw):
    kw = {} if cw is None else {'case_weights': cw.copy()}
    e, r = eta.copy(), v.copy()
    h = np.array(obj.hessian_mult(e, r, **kw))
    if not (np.array_equal(e, eta) and np.array_equal(r, v)):
        raise Violation('argument of hessian_mult changed')
    return h


@sub('C13', 'exact', gen, quick=3000, thorough=60000, cost=3)
def exact(case):
    s, eta, cw, u, v = (case[k] for k in ('s', 'eta', 'cw', 'u', 'v'))
    obj = loss.build(s)
    f, g, H = r = loss.ref(s, eta, cw)
    S = loss.scale_of(s, eta, cw)
    loss.check(s, obj, eta, cw, ref_out=r)
    hu, hv = hm(obj, eta, u, cw), hm(obj, eta, v, cw)
    SH = S * (1 + np.abs(u).max() + np.abs(v).max())
    same('Hessian times vector', hu, H.dot(u), SH)
    same('Hessian times vector', hv, H.dot(v), SH)
    same('symmetry', v.dot(hu), u.dot(hv), SH * SH)
    same('Hessian of ones', hm(obj, eta, np.ones(s['n']), cw), np.zeros(s['n']), SH)
    if u.dot(hu) < -1e-9 * SH * SH:
        raise Violation('Hessian is not non-negative definite')
    # evaluations in another order and at another point leave no trace
    loss.check(s, obj, eta, cw, ref_out=r, label='again: ')
    return 'ties' if len(set(s['y'])) < s['n'] else 'distinct' if nontrivial(s, cw) else None


@sub('C13', 'invariance', gen, quick=2000, thorough=40000, cost=3)
def invariance(case):
    s, eta, cw, u = case['s'], case['eta'], case['cw'], case['u']
    n = s['n']
    eta = eta * (100. / max(100., np.abs(eta).max()))
    obj = loss.build(s)
    kw = {} if cw is None else {'case_weights': cw.copy()}
    f, g = obj.smooth_objective(eta.copy(), 'both', **kw)
    g = g.copy()
    h = hm(obj, eta, u, cw)
    S = loss.scale_of(s, eta, cw) * (1 + np.abs(u).max())

    def cmp(what, o, e, k, uu, back=lambda z: z, S=S):
        kk = {} if k is None else {'case_weights': k.copy()}
        F, G = o.smooth_objective(e.copy(), 'both', **kk)
        same(what + ': value', F, f, S)
        same(what + ': gradient', back(G), g, S)
        same(what + ': Hessian', back(hm(o, e, uu, k)), h, S)

    cmp('constant added to the linear predictors', obj, eta + case['shift'], cw, u, S=S * (1 + abs(case['shift'])))
    p = np.random.RandomState(case['perm']).permutation(n)
    q = np.argsort(p)
    t = dict(s, y=s['y'][p], c=s['c'][p], offset=None if s['offset'] is None else s['offset'][p],
             cw=None if s['cw'] is None else s['cw'][p], quad=None)
    cmp('permuted observations', loss.build(t), eta[p], None if cw is None else cw[p], u[p], lambda z: np.asarray(z)[q])
    y = s['y']
    y2 = {'exp': np.exp(y / 2), 'cube': y ** 3 - 40, 'rank': np.unique(y, return_inverse=True)[1] * 1.,
          'affine': 1e-3 * y + 1e5}[case['tie']]
    cmp('times transformed monotonically', loss.build(dict(s, y=y2, quad=None)), eta, cw, u)
    return case['tie'] if nontrivial(s, cw) else None


def gen_large(draw):
    n = pick(draw, 30, 60, 150)
    rs = np.random.RandomState(integer(draw, 0, 10 ** 9))
    k = pick(draw, 'ties', 'distinct', 'int')
    y = {'ties': rs.randint(0, 6, n) * 1., 'distinct': rs.exponential(size=n), 'int': rs.randint(0, n, n)}[k]
    s = {'kind': 'cox', 'n': n, 'coef': pick(draw, 1., 2.5), 'offset': pick(draw, None, rs.standard_normal(n)),
         'quad': None, 'cw': pick(draw, None, rs.randint(0, 3, n), rs.uniform(0, 2, n)), 'y': np.array(y, float),
         'c': rs.binomial(1, pick(draw, 0.3, 0.7, 1.), n), 'ydtype': 'float', 'shape': (n,)}
    p = integer(draw, 1, 4)
    return {'s': s, 'X': rs.standard_normal((n, p)), 'beta': rs.standard_normal(p), 'cw': rs.randint(0, 3, n),
            'form': pick(draw, 'dense', 'csr')}


@sub('C13', 'large', gen_large, quick=120, thorough=1500, cost=60)
def large(case):
    import regreg.api as rr
    import scipy.sparse as sp
    s, X, b, cw = case['s'], case['X'], case['beta'], case['cw']
    eta = X.dot(b)
    v, g, H = r = loss.ref(s, eta, cw)
    S = loss.scale_of(s, eta, cw)
    loss.check(s, loss.build(s), eta, cw, ref_out=r)
    if s['cw'] is None:
        L = rr.glm.cox(sp.csr_matrix(X) if case['form'] == 'csr' else X.copy(), s['y'].copy(), s['c'].copy(),
                       case_weights=cw.copy(), coef=s['coef'],
                       saturated_offset=None if s['offset'] is None else s['offset'].copy())
        same('glm value', L.smooth_objective(b.copy(), 'func'), v, S)
        same('glm gradient', L.gradient(b.copy()), X.T.dot(g), S * 10)
        same('glm Hessian', L.hessian(b.copy()), X.T.dot(H).dot(X), S * 100)
    return 'large' if nontrivial(s, cw) else None


def gen_data(draw):
    c = gen(draw, 8)
    c['new'] = [loss.response(draw, 'cox', c['s']['n']) for _ in range(2)]
    c['how'] = pick(draw, 'array', 'list', 'glm')
    return c


@sub('C13', 'data', gen_data, quick=800, thorough=10000, cost=3)
def data(case):
    """the event times and censoring in use are those last set"""
    import regreg.api as rr
    s, eta, cw = dict(case['s'], cw=None), case['eta'], case['cw']
    n = s['n']
    obj = loss.build(s)
    glm = rr.glm(np.identity(n), obj.data, obj) if case['how'] == 'glm' else None
    loss.check(s, obj, eta, cw)
    for new in case['new']:
        D = np.array([new['y'], new['c']]).T
        if glm is not None:
            glm.data = (np.identity(n), D)
        else:
            obj.data = D if case['how'] == 'array' else D.tolist()
        t = dict(s, y=new['y'], c=new['c'])
        loss.check(t, obj, eta, cw, label='data set: ')
        same('data read back', obj.data, D, 1.)
    return case['how'] if nontrivial(t, cw) else None
