"""C21: path bookkeeping, screening checks, restricted paths and cross-validation."""
import warnings
import numpy as np

from .core import prop, sub, Violation, Reject
from .gens import pick, boolean, integer, real, seed, vec
from . import paths as P, loss, pen
from . import c20

prop('C21',
     rule='Gradients and solutions are constructed so that it is known which variables or groups satisfy the '
          'optimality conditions, and the flags, ranks and strong sets of the path objects are compared with '
          'the definition; subproblems, subsampled paths and the models of every cross-validation fold are judged '
          'by the optimality conditions of the explicitly restricted problem; held-out cases are identified by '
          'their response. Non-trivial when some but not all groups fail (checks), the candidate set is a proper '
          'subset, the subsample is proper, or every fold has non-zero coefficients.',
     assumptions=['the checks have a tolerance of 1%: violations between 0.5% and 3% may be flagged or not'])


def gauge(d, g):
    """per group: the smallest multiplier at which it may be zero (infinite with a gradient at a free feature)"""
    out = []
    for ix, a, w in P.parts(d):
        u = g.ravel()[ix]
        out.append(np.inf if w == 0 and np.abs(u[a == 0]).max(initial=0.) > 1e-9 else P.size(u, a, w))
    return np.array(out)


def nlabels(d):
    return len(P.parts(d))


# -- optimality checks ------------------------------------------------------------------------------

def gen_kkt(draw):
    d = P.gen(draw)
    k = int(np.prod(d['shape']))
    return {'d': d, 'b': vec(draw, k, 'cont') + 0.1, 'u': vec(draw, k, 'cont') / 5.,
            'zero': [boolean(draw, 2, 5) for _ in range(k)],
            'state': [pick(draw, 'active', 'inactive', 'inactive') for _ in range(k)],
            'rho': [pick(draw, 0., 0.5, 0.9, 0.99, 1.04, 1.3, 2.) for _ in range(k)],
            'off': [pick(draw, 0, 0, 0, -1., 1.3, 0.7) for _ in range(k)], 'lam': real(draw, 0.5, 3.)}


@sub('C21', 'optimality checks', gen_kkt, quick=6000, thorough=200000, cost=1)
def optimality_checks(c):
    """check_KKT flags exactly the groups whose conditions fail, and ranks the inactive ones"""
    d, lam = c['d'], c['lam']
    P.domain(d)
    o = P.build(d)
    n = int(np.prod(d['shape']))
    b, g = np.zeros(n), np.zeros(n)
    fail_active, fail_inactive, sizes = [], [], []
    for k, (ix, a, w) in enumerate(P.parts(d)):
        free = (a == 0) & (w == 0)
        fa = fi = False
        size = 0.
        if free.all():                                   # unpenalised
            b[ix] = c['b'][ix] if c['state'][k] == 'active' else 0.
            g[ix] = 1e-6                                 # as a solver leaves it
            if c['off'][k]:
                g[ix] = 5. * np.sign(c['u'][ix] + 0.01)
                fa = True
        elif c['state'][k] == 'active' or free.any():
            x = np.where(np.array(c['zero'])[ix] & ~free, 0., c['b'][ix])
            if not x[~free].any():
                x = c['b'][ix]
            x = np.where(x == 0, 0., np.clip(np.abs(x), 0.3, 1.) * np.sign(x))
            z = x / np.linalg.norm(x)
            u = np.clip(c['u'][ix], -0.9, 0.9)
            r = -lam * np.where(x != 0, a * np.sign(x) + w * z, a * u)
            if c['off'][k]:
                r = np.where(x != 0, c['off'][k] * r, r)
                fa = True
            if not a.any() and not w:
                fa = False
            b[ix], g[ix] = x, r
        else:
            u = c['u'][ix] * 5
            u = np.where(np.abs(u) < 1e-3, 0.3, u)
            s = P.size(u, a, w)
            if s > 0:
                g[ix] = u * (c['rho'][k] * lam / s)
                size = c['rho'][k]
                fi = size > 1.02
        fail_active.append(fa)
        fail_inactive.append(fi)
        sizes.append(size)
    if d['kind'] == 'lasso':
        never = np.isinf(d['w'])                         # zero whatever the gradient
        b[never], g[never] = 0., 7.
        for k in np.nonzero(never)[0]:
            fail_active[k] = fail_inactive[k] = False
    b, g = b.reshape(d['shape']), g.reshape(d['shape'])
    b1, g1 = b.copy(), g.copy()
    with np.errstate(all='ignore'), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        act, ranks = o.check_KKT(g, b, lam)
        ever = o.updated_ever_active(np.asarray(ranks) >= 0)
    if not (np.array_equal(b, b1) and np.array_equal(g, g1)):
        raise Violation('arguments changed')
    act, ranks = np.asarray(act, bool), np.asarray(ranks)
    fail_inactive = np.array(fail_inactive)
    if act.shape != fail_inactive.shape or ranks.shape != act.shape:
        raise Violation('flags of shapes %s, %s for %d groups' % (act.shape, ranks.shape, len(sizes)))
    if not np.array_equal(ranks >= 0, fail_inactive):
        raise Violation('inactive groups %s fail, flagged are %s (%s)' % (
            np.nonzero(fail_inactive)[0], np.nonzero(ranks >= 0)[0], d['kind']))
    if not np.array_equal(act, np.array(fail_active)):
        raise Violation('active or unpenalised groups %s fail, flagged are %s (%s)' % (
            np.nonzero(fail_active)[0], np.nonzero(act)[0], d['kind']))
    bad = np.nonzero(fail_inactive)[0]
    for i in bad:
        for j in bad:
            if sizes[i] > sizes[j] + 1e-6 and not ranks[i] < ranks[j]:
                raise Violation('violations %s ranked %s (%s)' % (np.array(sizes)[bad], ranks[bad], d['kind']))
    if bad.size and ranks[bad].min() > bad.size - 1:
        raise Violation('best rank %s among %d failing' % (ranks[bad].min(), bad.size))
    labels = sorted(set(d['groups'])) if d['kind'] in ('group', 'sgl') else list(range(len(sizes)))
    if list(ever) != [labels[i] for i in bad]:
        raise Violation('failing groups %s, called %s' % ([labels[i] for i in bad], list(ever)))
    f = np.array(fail_active) | fail_inactive
    if f.any() and not f.all():
        return d['kind']


# -- strong sets -------------------------------------------------------------------------------------

def gen_strong(draw):
    d = P.gen(draw)
    k = int(np.prod(d['shape']))
    return {'d': d, 'g': vec(draw, k, pick(draw, 'cont', 'grid', 'sparse')), 'cur': real(draw, 0.2, 4.),
            'ratio': real(draw, 0.3, 1.)}


@sub('C21', 'strong sets', gen_strong, quick=4000, thorough=150000, cost=1)
def strong_sets(c):
    """the strong set has exactly the groups whose gradient exceeds 2 new - current"""
    d = c['d']
    P.domain(d)
    o = P.build(d)
    g = c['g'].reshape(d['shape'])
    new = c['cur'] * c['ratio']
    with np.errstate(all='ignore'), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        names, flags, cols = o.strong_set(c['cur'], new, g.copy())
    thresh = 2 * new - c['cur']
    flags = np.asarray(flags, bool)
    size = gauge(d, g)
    ps = P.parts(d)
    always = np.array([(w == 0) and (a == 0).all() for _, a, w in ps])
    for k in range(len(ps)):
        if always[k]:
            if d['kind'] == 'lasso' and not flags[k]:
                raise Violation('unpenalised feature %d not in the strong set' % k)
            continue
        if abs(size[k] - thresh) > 1e-4 * (1 + abs(thresh)) and flags[k] != (size[k] > thresh):
            if thresh < 0 and size[k] == 0:
                continue
            raise Violation('group %d: %g against %g, in the strong set: %s (%s)' % (
                k, size[k], thresh, flags[k], d['kind']))
    labels = sorted(set(d['groups'])) if d['kind'] in ('group', 'sgl') else list(range(len(ps)))
    if list(names) != [labels[k] for k in np.nonzero(flags)[0]]:
        raise Violation('strong groups %s, called %s' % (np.nonzero(flags)[0], names))
    rows = np.zeros(d['shape'][0], bool)
    for k in np.nonzero(flags)[0]:
        ix = ps[k][0] if len(d['shape']) == 1 else ps[k][0] // d['shape'][1]
        rows[ix] = True
    if list(cols) != list(np.nonzero(rows)[0]):
        raise Violation('features of the strong set %s, should be %s' % (cols, np.nonzero(rows)[0]))
    if flags.any() and not flags.all():
        return d['kind']


# -- subproblems -------------------------------------------------------------------------------------

def restrict(d, keep):
    """the problem with only the features (rows of the coefficients) in keep"""
    e = dict(d)
    e['shape'] = (int(keep.sum()),) + tuple(d['shape'][1:])
    e['p'] = int(keep.sum())
    if d['kind'] == 'block':
        e['Xs'] = [X[:, keep] for X in d['Xs']]
    else:
        e['X'], e['form'] = P.dense_X(d)[:, keep], 'dense'
    if d.get('w') is not None:
        e['w'] = d['w'][keep]
    if 'groups' in d:
        e['groups'] = [g for g, k in zip(d['groups'], keep) if k]
        e['gw'] = {g: d['gw'].get(g, np.sqrt(d['groups'].count(g))) for g in set(e['groups'])}
    if d['enet'] is not None:
        e['enet'] = d['enet'][keep]
    return e


def gen_subproblem(draw):
    d = P.gen(draw)
    return {'d': d, 'frac': real(draw, 0.08, 0.9), 'pick': [boolean(draw, 2, 3) for _ in range(8)],
            'start': vec(draw, int(np.prod(d['shape'])), pick(draw, 'sparse', 'const')) / 10.}


@sub('C21', 'subproblems', gen_subproblem, quick=1200, thorough=40000, cost=30)
def subproblems(c):
    """solving over a candidate set gives the optimum of the explicitly restricted problem"""
    d = c['d']
    P.domain(d)
    o = P.build(d)
    ps = P.parts(d)
    chosen = [k for k in range(len(ps)) if c['pick'][k]] or [0]
    labels = sorted(set(d['groups'])) if 'groups' in d else list(range(len(ps)))
    keep = np.zeros(d['shape'][0], bool)
    for k in chosen:
        ix = ps[k][0] if len(d['shape']) == 1 else ps[k][0] // d['shape'][1]
        keep[ix] = True
    e = restrict(d, keep)
    P.domain(e)
    zero = np.zeros(e['shape'])
    top = np.abs(P.value_grad(e, zero)[1]).max()
    f = P.free_vars(e)
    lmax = P.lagrange_max(e, np.where(f, 0., P.value_grad(e, zero)[1]))
    if lmax < 1e-4 * (1 + top):
        raise Reject('zero is optimal')
    lam = c['frac'] * lmax
    start = c['start'].reshape(d['shape'])
    s1 = start.copy()
    with np.errstate(all='ignore'), warnings.catch_warnings(), P.unbounded(e):
        warnings.simplefilter('ignore')
        step, grad, soln, eta, cand = o.solve_subproblem(start, [labels[k] for k in chosen], lam, tol=1e-13)
    if not np.array_equal(start, s1):
        raise Violation('starting value changed')
    cand = np.asarray(cand)
    if not (cand.dtype == bool and cand.shape == keep.shape and np.array_equal(cand, keep)):
        raise Violation('candidate features %s, should be %s' % (cand, keep))
    if soln.shape != e['shape']:
        raise Violation('solution of shape %s' % (soln.shape,))
    if P.clipped(e, soln) or np.abs(soln).max() > 50 or (f.any() and np.abs(P.linpred(e, soln)).max() > 8):
        raise Reject('far out')
    pen.same('linear predictor of the subproblem', eta, P.linpred(e, soln), rtol=1e-8)
    ref = P.gradient(e, soln, lam)
    pen.same('gradient of the subproblem', grad, ref, rtol=1e-7, scale=1 + top + np.abs(ref).max())
    c20.judge(e, soln, lam, top, lmax, 1e-5)
    if (soln[~f] != 0).any():
        return '%s, %s' % (d['kind'], 'all' if keep.all() else 'some features')


# -- bookkeeping -------------------------------------------------------------------------------------

def gen_book(draw):
    d = P.gen(draw)
    return {'d': d, 'prop': real(draw, 0.2, 0.8), 'nstep': integer(draw, 2, 6), 'fit': pick(draw, 'strong', 'warm')}


@sub('C21', 'reports', gen_book, quick=600, thorough=20000, cost=80)
def reports(c):
    """default sequence, explained deviance, multipliers and coefficients belong to one another"""
    from regreg.paths import default_lagrange_sequence
    d = c['d']
    P.domain(d)
    o = P.build(d)
    b0, g0 = c20.null_of(d, o)
    ref = P.value_grad(d, b0)[1] + P.enet(d, 1.) * b0
    f = P.free_vars(d)
    lmax = P.lagrange_max(d, np.where(f, 0., ref))
    if lmax < 1e-3 * (1 + np.abs(ref).max()):
        raise Reject('null model is optimal')
    with np.errstate(all='ignore'), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        seq = default_lagrange_sequence(o.penalty, g0.copy(), lagrange_proportion=c['prop'], nstep=c['nstep'],
                                        alpha=d['alpha'])
    want = lmax * c['prop'] ** (np.arange(c['nstep']) / (c['nstep'] - 1.))
    # the dual seminorm of the sparse group lasso is found by bisection to a relative 1e-6
    pen.same('default sequence', seq, want, rtol=1e-4 if f.any() or d['kind'] in ('sgl', 'block') else 1e-6, scale=lmax)
    seq, sols, out = c20.run(o, seq, (b0, g0), dict(fit=c['fit'], check_active=False, step=None))
    keys = {'strong': 'dev explained', 'warm': 'devratio'}
    dev = np.array([P.value_grad(d, b.T)[0] for b in sols])
    if not np.isfinite(dev).all() or any(P.clipped(d, b.T) for b in sols):
        raise Reject('far out')
    got = np.asarray(out[keys[c['fit']]])
    base = dev[0] if c['fit'] == 'strong' else dev.max()
    if abs(base) < 1e-6:
        raise Reject('nothing to explain')
    if got.shape != (len(seq),):
        raise Violation('explained deviance of shape %s for %d solutions' % (got.shape, len(seq)))
    pen.same('explained deviance', got, 1 - dev / base, rtol=1e-6, scale=1 + np.abs(dev / base).max())
    if not np.array_equal(out['lagrange'], seq) or sols.shape != (len(seq),) + tuple(d['shape'][::-1]):
        raise Violation('reported multipliers %s, coefficients of shape %s' % (out['lagrange'], sols.shape))
    test = np.arange(d['s']['shape'][0])[::2]
    if d['kind'] != 'block':
        eta = o.linpred(sols, o.X, test)
        for i, b in enumerate(sols):
            pen.same('linear predictor of a path', eta[..., i] if eta.ndim == 2 else eta[:, :, i],
                     P.linpred(d, b.T)[test], rtol=1e-8)
    if (sols[-1] != 0).any():
        return '%s %s' % (d['kind'], c['fit'])


# -- subsamples and cross-validation -----------------------------------------------------------------

def on_cases(d, train):
    """the problem with the other cases given no weight"""
    s = dict(d['s'])
    s['cw'] = loss.weights_of(s, None) * train
    return dict(d, s=s)


def gen_subsample(draw):
    d = P.gen(draw)
    n = d['s']['n']
    return {'d': d, 'train': [boolean(draw, 2, 3) for _ in range(n)], 'frac': real(draw, 0.2, 0.7),
            'x': vec(draw, int(np.prod(d['shape'])), 'cont') / 5., 'twice': boolean(draw, 1, 4),
            'as': pick(draw, 'bool', 'index')}


@sub('C21', 'subsamples', gen_subsample, quick=700, thorough=25000, cost=60)
def subsamples(c):
    """a path on some of the cases is the path of the problem with these cases"""
    d = c['d']
    P.domain(d)
    o = P.build(d)
    train = np.array(c['train'])
    if not train.any():
        raise Reject('no case')
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        s = o.subsample(train if c['as'] == 'bool' else np.nonzero(train)[0])
        if c['twice']:
            s = s.subsample(train)
    e = on_cases(d, train)
    x = c['x'].reshape(d['shape']).copy()
    if d['kind'] == 'lasso':
        x[np.isinf(d['w'])] = 0.
    if P.clipped(e, x):
        raise Reject('far out')
    v, g = P.value_grad(e, x)
    scale = 1 + abs(v) + np.abs(g).max()
    full = s.full_loss()
    pen.same('loss of the subsample', full.smooth_objective(x.copy(), 'func'), v, rtol=1e-8, scale=scale)
    pen.same('gradient of the subsample', full.smooth_objective(x.copy(), 'grad'), g, rtol=1e-8, scale=scale)
    pen.same('penalty of the subsample', s.penalty.seminorm(x, lagrange=1), P.penalty(e, x),
             rtol=1e-8, scale=1 + P.penalty(e, np.abs(x)))
    pen.same('ridge term', s.enet_loss(0.7).smooth_objective(x.copy(), 'func'), 0.5 * (P.enet(e, 0.7) * x ** 2).sum(),
             rtol=1e-8)
    b0, g0 = c20.null_of(e, s)
    ref = P.gradient(e, b0, 1.)
    top = np.abs(ref).max()
    f = P.free_vars(e)
    if np.abs(ref[f]).max(initial=0.) > 1e-2 * (1 + top):
        raise Violation('null model of the subsample: gradient %s' % (ref[f],))
    pen.same('null gradient of the subsample', g0, ref, rtol=1e-7, scale=1 + top)
    lmax = P.lagrange_max(e, np.where(f, 0., ref))
    if lmax < 1e-4 * (1 + top):
        raise Reject('null model is optimal')
    top = max(top, np.abs(P.value_grad(e, np.zeros(d['shape']))[1]).max())
    seq = lmax * np.array([1., c['frac']])
    _, sols, _ = c20.run(s, seq, (b0, g0), dict(fit='strong', check_active=False, step=None))
    b = sols[-1].T
    if P.clipped(e, b) or (f.any() and np.abs(P.linpred(e, b)).max() > 8):
        raise Reject('far out')
    c20.judge(e, b, seq[-1], top, lmax, 1e-5)
    if not train.all():
        return d['kind'] + (', again' if c['twice'] else '')


def gen_cv(draw):
    d = P.gen(draw, pick(draw, 'lasso', 'group', 'sgl', 'common', 'block'), simple=True)
    return {'d': d, 'cv': integer(draw, 2, 4), 'seed': seed(draw), 'k': integer(draw, 2, 4), 'frac': real(draw, 0.2, 0.8),
            'fit': pick(draw, 'strong', 'strong', 'warm'), 'score': pick(draw, 'own', 'default')}


@sub('C21', 'cross-validation', gen_cv, quick=200, thorough=12000, cost=160)
def cross_validation(c):
    """every held-out case is scored once, with the model fitted on the other folds"""
    from regreg.paths import strong_rules, warm_start
    from regreg.paths.cross_validate import cross_validate
    d = c['d']
    P.domain(d)
    o = P.build(d)
    n = d['s']['n']
    # responses that identify the cases
    y = np.asarray(o.saturated_loss.data)
    b0, g0 = c20.null_of(d, o)
    ref = P.gradient(d, b0, 1.)
    f = P.free_vars(d)
    lmax = P.lagrange_max(d, np.where(f, 0., ref))
    if lmax < 1e-3 * (1 + np.abs(ref).max()):
        raise Reject('null model is optimal')
    seq = lmax * c['frac'] ** np.arange(c['k'])
    fits, scored = [], []

    def fitter(path, lseq, init, inner_tol=None):
        out = (strong_rules if c['fit'] == 'strong' else warm_start)(path, lseq, init, inner_tol=1e-12)
        fits.append((np.asarray(path.saturated_loss.case_weights, float).copy(), path.saturated_loss.coef,
                     np.asarray(lseq).copy(), out['beta'].copy()))
        return out

    def score(eta, resp):
        scored.append((np.array(eta), np.array(resp)))
        return float(np.linalg.norm(eta - resp) ** 2 / resp.shape[0])

    state = np.random.get_state()
    np.random.seed(c['seed'])
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            kw = {'score': score} if c['score'] == 'own' else {}
            mean, std = cross_validate(o, seq, path_fitter=fitter, cv=c['cv'], n_jobs=1, verbose=False, **kw)
    finally:
        np.random.set_state(state)
    if len(fits) != c['cv']:
        raise Violation('%d fits for %d folds' % (len(fits), c['cv']))
    w0 = loss.weights_of(d['s'], None)
    held = np.zeros(n)
    expect, nz = [], []
    j = 0
    for w, coef, lseq, betas in fits:
        if not np.allclose(w * (w - w0), 0, atol=1e-12):
            raise Violation('case weights of a fold %s, of the data %s' % (w, w0))
        test = (w == 0) & (w0 > 0)
        held += test
        row = []
        ratio = n / float(n - test.sum())
        zw = (w0 == 0)
        e = on_cases(d, ~test)
        k0 = len(lseq) - len(seq)          # multipliers before those asked for
        if k0 not in (0, 1) or not np.array_equal(lseq[k0:], seq):
            raise Violation('a fold fitted at %s, asked for %s' % (lseq, seq))
        if not zw.any():
            e['s'] = dict(e['s'], coef=e['s']['coef'] * ratio)
            if e['s'].get('ctor'):
                e['s']['cw'] = e['s']['cw'] * ratio
            top = np.abs(P.value_grad(e, np.zeros(d['shape']))[1]).max()
            for lam, b in zip(lseq[k0:], betas[k0:]):
                b = b.T
                if P.clipped(e, b) :
                    raise Reject('far out')
                # a null model is fitted less precisely
                judge_cv(e, b, lam, top, lmax, 1e-2 if lam == seq[0] else 1e-3)
            row = [np.linalg.norm(P.linpred(d, b.T)[test] - y[test]) ** 2 / test.sum() for b in betas[k0:]]
            expect.append(row)
        nz.append((betas[-1] != 0).any())
    if not zw.any():
        if not (held == 1).all():
            raise Violation('cases held out %s times' % held)
        expect = np.array(expect)
        sc = 1 + np.abs(expect).max()
        if mean.shape != seq.shape or np.abs(mean - expect.mean(0)).max() > 1e-7 * sc:
            raise Violation('mean scores %s, should be %s' % (mean, expect.mean(0)))
        if np.abs(std - expect.std(0)).max() > 1e-7 * sc:
            raise Violation('standard deviations %s, should be %s' % (std, expect.std(0)))
        if all(nz):
            return '%s %s' % (d['kind'], c['fit'])


def judge_cv(e, b, lam, top, lmax, tol):
    try:
        c20.judge(e, b, lam, top, lmax, tol)
    except Violation as v:
        raise Violation('model of a fold: %s' % v)
