"""C22: estimators with the scikit-learn interface."""
import warnings
import numpy as np
from scipy.special import expit, ndtr

from .core import prop, sub, Violation, Reject
from .gens import pick, boolean, integer, positive, real, vec, design, seed
from . import loss, pen
from . import paths as P

prop('C22',
     rule='An estimator is fitted on generated data and judged against an independent statement of the loss: the '
          'proximal-gradient fixed point of loss plus penalty at the fitted coefficients, predictions, '
          'probabilities, labels and every score recomputed from the coefficients. Non-trivial when the fitted '
          'coefficients are not all zero.',
     assumptions=['offsets are subtracted from the linear predictor and stand in the last column of y, case weights '
                  'in the column before (as documented)',
                  'scores use the cases\' weights as the losses do; the null model of R2 is the unweighted one',
                  'multinomial estimators are used without an offset column (one column cannot be an offset for all '
                  'categories); accuracy only for responses without trials'])

FAMILIES = ['gaussian', 'logistic', 'probit', 'cloglog', 'huber', 'huber_svm', 'cox', 'multinomial']
CLASSES = ['logistic', 'probit', 'cloglog', 'multinomial']
SCORES = ['deviance', 'mean_deviance', 'R2', 'accuracy', 'C-index']


def gen(draw):
    fam = pick(draw, *FAMILIES)
    n = integer(draw, 3, 14)
    s = loss.spec(draw, fam, n, offset=fam != 'multinomial' and boolean(draw), quad=False, cw=False)
    cl = fam in CLASSES and boolean(draw)
    if cl:
        s['offset'] = None
        if s.get('t') is not None:
            s['y'], s['t'] = np.minimum(s['y'], 1), None
        if fam == 'multinomial':
            s['y'] = np.eye(s['J'], dtype=int)[s['y'].argmax(1)]
    cwcol = boolean(draw)
    s['cw'] = loss.case_weights(draw, n) if cwcol else None
    if s['offset'] is not None:
        s['offset'] = s['offset'] / 4
    p = integer(draw, 1, 3 if fam == 'probit' else 6)
    X = design(draw, n, p)
    if boolean(draw, 1, 6):
        X[:, 0] = 1.
    c = {'s': s, 'X': X, 'p': p, 'classifier': cl, 'cwcol': cwcol, 'lagrange': boolean(draw),
         'pen': pick(draw, 'l1', 'l2', 'group', 'weighted') if fam != 'multinomial' else pick(draw, 'l1', 'l1_l2'),
         'form': pick(draw, 'lagrange', 'bound'), 'frac': real(draw, 0.05, 0.9), 'w': [positive(draw, 0.3, 3.) for _ in range(p)],
         'enet': pick(draw, 0., 0., 0.5, real(draw, 0., 0.99)), 'unpen': boolean(draw, 1, 4),
         'quad': boolean(draw, 1, 4), 'initial': boolean(draw, 1, 3), 'score': pick(draw, *SCORES),
         'sw': [positive(draw) for _ in range(n)] if boolean(draw) else None,
         'history': pick(draw, 'none', 'none', 'refit', 'clone', 'params', 'permute'), 'seed': seed(draw),
         'start': vec(draw, 24, 'cont') / 10., 'ydtype': pick(draw, 'asis', 'float', 'bool'), 'coef': s['coef']}
    if cl:
        c['score'] = 'accuracy'
    return c


def problem(c):
    """the data as the paths' reference takes them"""
    s = dict(c['s'])
    sh = (c['p'],) if s['kind'] != 'multinomial' else (c['p'], s['J'])
    return {'kind': 'lasso' if len(sh) == 1 else 'common', 's': s, 'X': c['X'], 'form': 'dense', 'shape': sh}


def columns(s, cwcol, ydtype='asis'):
    """the y argument of fit"""
    y = loss.y_of(s)
    cols = []
    if s['kind'] == 'cox':
        cols = [y, s['c']]
    elif s['kind'] == 'multinomial':
        cols = list(y.T)
    elif s.get('t') is not None:
        cols = [y, s['t']]
    else:
        cols = [y]
    if cwcol:
        cols.append(np.ones(s['n']) if s['cw'] is None else s['cw'])
    if s['offset'] is not None:
        cols.append(s['offset'])
    if len(cols) > 1:
        return np.array(cols, float).T.copy()
    y = cols[0]
    if s['kind'] in ('gaussian', 'huber') or ydtype == 'asis':
        return y.copy()
    return y.astype(ydtype)


class constructor(object):
    """an atom from its parameters, in Lagrange form from the gradient at the null model as well"""

    def __init__(self, c, lagrange):
        self.c, self.lagrange, self.scores = c, lagrange, []

    def __call__(self, *args, **kw):
        if self.lagrange:
            score, = args
            self.scores.append(np.array(score))
            kw['lagrange'] = kw.pop('frac') * max(np.abs(score[self.free() == 0]).max(initial=0.), 1e-3)
        return self.atom(**kw)

    def free(self):
        c = self.c
        f = np.zeros(problem(c)['shape'])
        if c['unpen'] and c['lagrange'] and c['pen'] == 'weighted':
            f[0] = 1
        return f

    def atom(self, **kw):
        import regreg.api as rr
        c = self.c
        sh = problem(c)['shape']
        k = c['pen']
        if k == 'l1':
            return rr.l1norm(sh, **kw)
        if k == 'l2':
            return rr.l2norm(sh, **kw)
        if k == 'l1_l2':
            return rr.l1_l2(sh, **kw)
        if k == 'group':
            return rr.group_lasso([i // 2 for i in range(c['p'])], **kw)
        w = np.array(c['w'])
        w[self.free() == 1] = 0.
        return rr.weighted_l1norm(w, **kw)


def estimator(c, params=None):
    """the estimator and its atom constructor"""
    import regreg.sklearn.api as A
    s = c['s']
    name = s['kind'] + ('_classifier' if c['classifier'] else '') + ('_lagrange' if c['lagrange'] else '')
    cons = constructor(c, c['lagrange'])
    kw = {'case_weights': c['cwcol'], 'coef': s['coef'], 'score_method': c['score']}
    if s['coef'] == 1:
        del kw['coef']
    if c['score'] == ('accuracy' if c['classifier'] else 'deviance') and c['seed'] % 2:
        del kw['score_method']
    if not c['classifier']:
        kw['offset'] = s['offset'] is not None
    if c['lagrange'] and c['enet']:
        kw['enet_alpha'] = c['enet']
    args = [cons, atom_params(c) if params is None else params]
    if s['kind'] in ('huber', 'huber_svm'):
        args = [s['eps']] + args
    est = getattr(A, name)(*args, **kw)
    tune(est, c)
    return est, cons


def tune(est, c):
    """parameters that not every constructor takes"""
    est.solve_args = {'tol': 1e-11, 'coef_stop': True, 'min_its': 30}
    if c['lagrange']:
        est.unpenalized = bool(constructor(c, True).free().any())
    elif c['quad']:
        import regreg.api as rr
        sh = problem(c)['shape']
        est.quadratic = rr.identity_quadratic(0.7, np.full(sh, 0.3), np.full(sh, -0.2), 1.)
    if c['initial']:
        sh = problem(c)['shape']
        est.initial = np.resize(c['start'], sh).copy()


def atom_params(c):
    d = problem(c)
    if c['lagrange']:
        return {'frac': c['frac']}
    if c['form'] == 'bound':
        return {'bound': 0.2 + c['frac']}
    g = np.abs(P.value_grad(d, np.zeros(d['shape']))[1]).max()
    return {'lagrange': c['frac'] * max(g, 1e-3)}


def quad_of(c, est):
    return est.quadratic if not c['lagrange'] and c['quad'] else None


def fit(est, X, y):
    X1, y1 = X.copy(), y.copy()
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        out = est.fit(X, y)
    if out is not est:
        raise Violation('fit returned %r' % (out,))
    if not (np.array_equal(X, X1) and np.array_equal(y, y1)):
        raise Violation('fit changed the data')
    return np.array(est._coefs)


def judge(c, est, cons, b):
    """fixed point of the stated problem"""
    d = problem(c)
    s = c['s']
    if b.shape != d['shape']:
        raise Violation('coefficients of shape %s, should be %s' % (b.shape, d['shape']))
    if P.clipped(d, b) or np.abs(b).max() > 30:
        raise Reject('far out')
    v, g = P.value_grad(d, b)
    v0, g0 = P.value_grad(d, np.zeros(d['shape']))
    top = np.abs(g0).max()
    L = P.curvature(d, b) + 1.
    if c['lagrange']:
        f = cons.free()
        if len(cons.scores) == 0:
            raise Violation('the atom constructor was not called')
        first, last = cons.scores[0], cons.scores[-1]
        pen.same('gradient at zero given to the atom constructor', first, g0, rtol=1e-8, scale=1 + top)
        if not f.any():
            pen.same('gradient given to the atom constructor', last, g0, rtol=1e-8, scale=1 + top)
        elif c['enet'] == 0 and np.abs(last[f == 1]).max() > 1e-2 * (1 + top):
            raise Violation('gradient at the null model %s does not vanish at the unpenalised feature' % (last,))
        lam = c['frac'] * max(np.abs(last[f == 0]).max(initial=0.), 1e-3)
        a = c['enet']
        atom = cons.atom(lagrange=lam * (1 - a)) if lam * (1 - a) > 0 else None
        ridge = a * lam
        v, g = v + 0.5 * ridge * (b ** 2).sum(), g + ridge * b
        L += ridge
    else:
        atom = cons.atom(**atom_params(c))
        q = quad_of(c, est)
        if q is not None:
            v, g = v + 0.35 * ((b - 0.3) ** 2).sum() - 0.2 * b.sum(), g + 0.7 * (b - 0.3) - 0.2
            L += 0.7
    import regreg.api as rr
    z = b - g / L
    u = z if atom is None else atom.proximal(rr.identity_quadratic(L, z, 0, 0))
    r = L * np.linalg.norm(u - b)
    tol = 1e-5 * (1 + top) + 3 * np.sqrt(2e-12 * L * (1 + abs(v))) + 1e-7 * L * (1 + np.linalg.norm(b))
    if not r <= tol:
        raise Violation('%s: the fitted coefficients %s are no optimum: a step reduces the objective, size %.3g '
                        'against %.3g' % (type(est).__name__, b, r, tol))
    return tol


def probabilities(s, eta):
    k = s['kind']
    if k == 'logistic':
        return expit(eta)
    if k == 'probit':
        return ndtr(eta)
    if k == 'cloglog':
        return -np.expm1(-np.exp(eta))
    e = np.exp(eta - eta.max(1, keepdims=True))
    return e / e.sum(1, keepdims=True)


def expected_score(c, s, eta):
    """s: the data the score is computed on, with the weights of the cases"""
    k, m = s['kind'], c['score']
    y = np.array(s['y'], float)
    w = loss.weights_of(s, None)
    t = dict(s, coef=1., offset=None)
    f = lambda x: loss.ref(t, x)[0]
    two = 1. if k in ('huber', 'huber_svm') else 2.
    eta = eta - (0 if s['offset'] is None else s['offset'])
    if m == 'deviance' and not c['classifier']:
        return -two * f(eta)
    if m == 'mean_deviance' and not c['classifier']:
        return -two * f(eta) / s['n']
    if m == 'accuracy' and k in CLASSES:
        if s.get('t') is not None:
            return None
        p = probabilities(s, eta)
        if k == 'multinomial':
            order = np.sort(p, 1)
            if (order[:, -1] - order[:, -2] < 1e-9).any() or (np.sort(y, 1)[:, -1] == np.sort(y, 1)[:, -2]).any():
                return None
            hit = p.argmax(1) == y.argmax(1)
        else:
            if (np.abs(p - 0.5) < 1e-9).any():
                return None
            hit = (p > 0.5) == (y == 1)
        return None if not w.sum() > 0 else (w * hit).sum() / w.sum()
    if m == 'R2' and not c['classifier']:
        if k in ('gaussian', 'huber', 'huber_svm'):
            null = np.full(s['n'], y.mean())
        elif k == 'cox':
            null = np.zeros(s['n'])
        elif k == 'multinomial':
            mean = y.mean(0)
            if (mean == 0).any():
                return None
            null = np.tile(np.log(mean), (s['n'], 1))
        else:
            pi = y.mean() if s.get('t') is None else y.sum() / s['t'].sum()
            if not 0 < pi < 1:
                return None
            if k == 'logistic':
                null = np.log(pi / (1 - pi))
            elif k == 'cloglog':
                null = np.log(-np.log1p(-pi))
            else:
                from scipy.stats import norm
                null = norm.ppf(pi)
            null = np.full(s['n'], null)
        base = f(null)
        return None if abs(base) < 1e-6 * (1 + abs(f(eta))) else 1 - f(eta) / base
    return np.nan


def check_outputs(c, est, b, X, s):
    """predictions, probabilities, labels and scores on data X, s"""
    eta = X.dot(b)
    got = est.predict(X)
    if c['classifier']:
        p = probabilities(s, eta)
        prob = np.asarray(est.predict_proba(X))
        if prob.shape != p.shape:
            raise Violation('probabilities of shape %s, should be %s' % (prob.shape, p.shape))
        if not ((prob >= 0) & (prob <= 1)).all():
            raise Violation('probabilities %s' % (prob,))
        pen.same('probabilities', prob, p, rtol=1e-8, scale=1.)
        got = np.asarray(got)
        if s['kind'] == 'multinomial':
            srt = np.sort(p, 1)
            clear = srt[:, -1] - srt[:, -2] > 1e-9
            want = p.argmax(1)
        else:
            clear, want = np.abs(p - 0.5) > 1e-9, p > 0.5
        if got.shape != want.shape or (got != want)[clear].any():
            raise Violation('labels %s, probabilities %s' % (got, p))
    else:
        pen.same('predictions', got, eta, rtol=1e-9, scale=1 + np.abs(eta).max(initial=0.))
    y = columns(s, c['cwcol'], c['ydtype'])
    y1 = y.copy()
    sw = None if c['sw'] is None else np.resize(np.array(c['sw']), s['n'])
    with np.errstate(all='ignore'), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if np.abs(eta).max(initial=0.) + (0 if s['offset'] is None else np.abs(s['offset']).max()) > loss.reach(dict(s, offset=None)):
            return
        t = dict(s, cw=None if s['cw'] is None and sw is None else loss.weights_of(s, sw))
        want = expected_score(c, t, eta)
        if want is None:
            return
        score = est.score(X, y) if sw is None else est.score(X, y, sample_weight=sw.copy())
        if not np.array_equal(y, y1):
            raise Violation('score changed the data')
        if np.isnan(want) and np.isnan(score):
            return
        scale = 1 + abs(want)
        if not abs(score - want) <= 1e-7 * scale:
            raise Violation('%s score %r, should be %r%s (%s)' % (
                c['score'], score, want, '' if sw is None else ' with sample weights', type(est).__name__))


@sub('C22', 'fit and predict', gen, quick=2500, thorough=80000, cost=40)
def fit_and_predict(c):
    """the fitted coefficients minimise the stated objective; predictions, labels and scores follow"""
    s, d = c['s'], problem(c)
    if not np.abs(c['X']).max() > 1e-8:
        raise Reject('zero design')
    if c['ydtype'] == 'bool' and s['kind'] in ('multinomial', 'huber_svm', 'cox'):
        c = dict(c, ydtype='asis')
    if c['ydtype'] == 'bool' and s.get('t') is not None:
        c = dict(c, ydtype='asis')
    est, cons = estimator(c)
    y = columns(s, c['cwcol'], c['ydtype'])
    with P.unbounded(dict(d, w=cons.free() == 0)):
        b = fit(est, c['X'].copy(), y)
    judge(c, est, cons, b)
    check_outputs(c, est, b, c['X'], s)
    # other data
    rs = np.random.RandomState(c['seed'])
    m = max(1, s['n'] // 2)
    ix = rs.permutation(s['n'])[:m]
    X2 = c['X'][ix] + rs.standard_normal((m, c['p'])) * 0.3
    check_outputs(c, est, b, X2, subset(s, ix))
    h = c['history']
    if h == 'refit':
        with P.unbounded(dict(d, w=cons.free() == 0)):
            fit(est, X2, columns(subset(s, ix), c['cwcol'], c['ydtype']))
        same_fit('after fitting other data', fit(est, c['X'].copy(), y.copy()), b)
    elif h == 'clone':
        from sklearn.base import clone
        e2 = clone(est)
        if hasattr(e2, '_coefs'):
            raise Violation('a clone is fitted')
        for k, v in est.get_params(deep=False).items():
            if k not in ('atom_constructor', 'atom_params', 'initial', 'quadratic') and e2.get_params(deep=False)[k] != v:
                raise Violation('parameter %s of a clone: %r, of the original %r' % (k, e2.get_params()[k], v))
        tune(e2, c)
        same_fit('of a clone', fit(e2, c['X'].copy(), y.copy()), b)
    elif h == 'params':
        est.set_params(coef=3. * s['coef'] + 1)
        fit(est, c['X'].copy(), y.copy())
        est.set_params(coef=s['coef'])
        same_fit('after changing a parameter there and back', fit(est, c['X'].copy(), y.copy()), b)
    elif h == 'permute':
        o = rs.permutation(s['n'])
        fresh, cons = estimator(c)
        with P.unbounded(dict(d, w=cons.free() == 0)):
            b2 = fit(fresh, c['X'][o], y[o])
        judge(c, fresh, cons, b2)
    if b.any():
        return '%s%s%s %s%s%s' % (s['kind'], ' classifier' if c['classifier'] else '', ' lagrange' if c['lagrange'] else '',
                                  c['pen'], ', weights' if s['cw'] is not None else '', ', offset' if s['offset'] is not None else '')


def gen_scores(draw):
    c = gen(draw)
    c['score'] = 'accuracy' if c['classifier'] else pick(draw, *SCORES)
    c['unpen'] = False
    return c


@sub('C22', 'scores', gen_scores, quick=5000, thorough=100000, cost=8)
def scores(c):
    """predictions, probabilities, labels and every score of some model, on its data and on other data"""
    s = c['s']
    if c['ydtype'] == 'bool' and (s['kind'] in ('multinomial', 'huber_svm', 'cox') or s.get('t') is not None):
        c = dict(c, ydtype='asis')
    est, _ = estimator(c)
    est.solve_args = {'max_its': 2}
    fit(est, c['X'].copy(), columns(s, c['cwcol'], c['ydtype']))
    b = est._coefs = np.resize(c['start'], problem(c)['shape']) * 3
    check_outputs(c, est, b, c['X'], s)
    ix = np.random.RandomState(c['seed']).permutation(s['n'])[:max(1, s['n'] // 2)]
    check_outputs(c, est, b, c['X'][ix] * 0.7, subset(s, ix))
    if b.any():
        return '%s %s%s' % (s['kind'], c['score'], ' classifier' if c['classifier'] else '')


def same_fit(what, a, b):
    if not np.array_equal(a, b):
        if np.abs(a - b).max() > 1e-9 * (1 + np.abs(b).max()):
            raise Violation('coefficients %s: %s, before %s' % (what, a, b))


def subset(s, ix):
    t = dict(s, n=len(ix), y=s['y'][ix])
    for k in ('t', 'c', 'cw', 'offset'):
        if t.get(k) is not None:
            t[k] = np.asarray(t[k])[ix]
    t['shape'] = (len(ix),) + tuple(s['shape'][1:])
    return t


# -- model selection ----------------------------------------------------------------------------------

def gen_selection(draw):
    c = gen(draw)
    c['X'] = c['X'][:]
    c['history'], c['initial'], c['quad'], c['unpen'] = 'none', False, False, False
    c['splits'] = integer(draw, 2, 3)
    c['fracs'] = sorted(set(real(draw, 0.1, 0.9) for _ in range(3)))
    return c


@sub('C22', 'model selection', gen_selection, quick=250, thorough=8000, cost=150)
def model_selection(c):
    """cross-validation and grid search of scikit-learn give the scores of separately fitted estimators"""
    from sklearn.model_selection import KFold, cross_val_score, GridSearchCV
    s = c['s']
    if s['n'] < 2 * c['splits']:
        raise Reject('too few cases')
    if s['kind'] == 'multinomial' and not c['classifier']:
        c = dict(c, score='deviance')
    c = dict(c, ydtype='asis')
    y, X = columns(s, c['cwcol']), c['X']
    kf = KFold(c['splits'])
    key = 'frac' if c['lagrange'] else c['form']
    base = atom_params(c)[key]
    grid = [{key: base * f} for f in c['fracs']]
    scores = np.zeros((len(grid), c['splits']))
    nz = False
    with np.errstate(all='ignore'), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        for i, params in enumerate(grid):
            for j, (train, test) in enumerate(kf.split(X)):
                est, _ = estimator(c, dict(params))
                est.solve_args = {}
                est.fit(X[train], y[train])
                nz = nz or est._coefs.any()
                try:
                    scores[i, j] = est.score(X[test], y[test])
                except ZeroDivisionError:
                    raise Reject('score undefined: no weight or no risk in a fold')
        est, _ = estimator(c, dict(grid[0]))
        est.solve_args = {}
        got = cross_val_score(est, X, y, cv=kf, error_score='raise')
        search = GridSearchCV(est, {'atom_params': grid}, cv=kf, error_score='raise').fit(X, y)
    same_scores('cross-validated scores', got, scores[0])
    same_scores('scores of the grid search', search.cv_results_['mean_test_score'], scores.mean(1))
    m = scores.mean(1)
    if np.isfinite(m).all() and m.max() - m[search.best_index_] > 1e-9 * (1 + abs(m.max())):
        raise Violation('best parameters %s of scores %s' % (search.best_index_, m))
    if nz:
        return '%s%s %s' % (s['kind'], ' lagrange' if c['lagrange'] else '', c['score'])


def same_scores(what, a, b):
    if a.shape != b.shape or not np.allclose(a, b, rtol=1e-9, atol=1e-12, equal_nan=True):
        raise Violation('%s %s, separately %s' % (what, a, b))
