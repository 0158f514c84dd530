"""C20: regularisation paths solve the full problem."""
import warnings
import numpy as np

from .core import prop, sub, Violation, Reject
from .gens import pick, boolean, integer, positive, real
from . import paths as P

prop('C20',
     rule='A path (lasso, group, sparse group, shared or separate designs with several responses) is computed by '
          'strong_rules, warm_start or basil and the optimality conditions of the full problem, stated '
          'independently, are evaluated at every multiplier for every feature or group. Non-trivial when some '
          'penalised coefficient is non-zero and some is zero on the path, or a feature is unpenalised.',
     assumptions=['the library accepts a screened-out feature whose gradient is within 1% of the multiplier; '
                  'so does the check',
                  'elastic net: (1 - alpha) e_j/2 b_j^2, times the multiplier for penalised features only '
                  '(the convention the constructors state)',
                  'problems whose unpenalised fit does not exist (separated data) or leaves the range the losses '
                  'compute without clipping are not judged'])


def gen(draw):
    d = P.gen(draw)
    k = integer(draw, 2, 6)
    low = 0.02 if d['s']['kind'] in ('gaussian', 'huber') else 0.15
    r = sorted(set(real(draw, low, 0.999) for _ in range(k - 1)), reverse=True)
    return {'d': d, 'ratios': [1.] + r, 'fit': pick(draw, 'strong', 'strong', 'warm', 'basil', 'basil_inner'),
            'check_active': boolean(draw, 1, 4), 'start': boolean(draw, 1, 4), 'nvar': pick(draw, 1, 2, 50),
            'nlag': pick(draw, 1, 2, 5), 'step': pick(draw, None, None, 1.), 'verbose': boolean(draw, 1, 8)}


def null_of(d, o):
    b, g = o.solution, o.grad_solution
    if P.clipped(d, b) or np.abs(b).max() > 30 or (d['s']['kind'] != 'gaussian' and np.abs(P.linpred(d, b)).max() > 8):
        raise Reject('no unpenalised fit')
    f = P.free_vars(d)
    if (b[~f] != 0).any():
        raise Violation('null model has penalised coefficients: %s' % (b,))
    return b, g


def run(o, seq, init, c, its=25):
    from regreg.paths import strong_rules, warm_start
    from regreg.paths.basil import basil, basil_inner_loop
    init = (init[0].copy(), init[1].copy())
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        kw = {'initial_step': c['step']} if c['step'] else {}
        if c['fit'] == 'strong':
            out = strong_rules(o, seq, init, inner_tol=1e-9, check_active=c['check_active'], **kw)
            sols = out['beta']
        elif c['fit'] == 'warm':
            out = warm_start(o, seq, init, inner_tol=1e-13, solve_args={'min_its': its}, **kw)
            sols = out['beta']
        elif c['fit'] == 'basil':
            sols = basil(o, seq, init, inner_tol=1e-13, step_nvar=c['nvar'], step_lagrange=c['nlag'],
                         solve_args={'min_its': its}, **kw)
            out = None
        else:
            lam, sols, grad, act = basil_inner_loop(o, seq, init, inner_tol=1e-13, step_nvar=c['nvar'],
                                                    solve_args={'min_its': its}, **kw)
            if list(lam) != list(seq[:len(lam)]):
                raise Violation('multipliers of the solutions %s, asked for %s' % (lam, seq))
            seq = seq[:len(sols)]
            sols = np.array(sols)
            out = None
        if any('convergence of active set' in str(v.message) for v in w):
            raise Reject('the library warns that the active set has not converged')
    return seq, sols, out


def path_with(c, its):
    d = c['d']
    P.domain(d)
    o = P.build(d)
    b0, g0 = null_of(d, o)
    ref = P.value_grad(d, b0)[1] + P.enet(d, 1.) * b0
    top = max(np.abs(P.value_grad(d, np.zeros(d['shape']))[1]).max(), np.abs(ref).max())
    tol = 1e-5 * (1 + top)
    f = P.free_vars(d)
    if np.abs(ref[f]).max(initial=0.) > 1000 * tol:
        raise Violation('null model: gradient %s at unpenalised features' % (ref[f],))
    if np.abs(g0 - ref).max() > 1e-8 * (1 + top):
        raise Violation('gradient at the null model %s, should be %s' % (g0, ref))
    lmax = P.lagrange_max(d, ref)
    if lmax < 1e-4 * (1 + top):
        raise Reject('null model is optimal')
    seq = lmax * np.array(c['ratios'])
    if c.get('lams'):
        seq = np.array([lmax] + [v for v in c['lams'] if v < 0.999 * lmax])
    init = (b0, g0)
    if c['start'] and len(seq) > 2:
        k = len(seq) // 2
        first = dict(c, fit='warm')
        _, s0, _ = run(o, seq[:k], init, first, its)
        b = s0[-1].T.copy()
        init = (b, P.gradient(d, b, seq[k - 1]))
        seq = seq[k - 1:]
        o = P.build(d)
    seq, sols, out = run(o, seq, init, c, its)
    if len(sols) != len(seq):
        raise Violation('%d solutions for %d multipliers' % (len(sols), len(seq)))
    active = zero = False
    for lam, b in zip(seq, sols):
        b = b.T
        if b.shape != d['shape']:
            raise Violation('solution of shape %s' % (b.shape,))
        if P.clipped(d, b):
            raise Reject('far out')
        judge(d, b, lam, top, lmax, 1e-2 if lam == lmax else 1e-5)
        pen = b[~f]
        active |= bool((pen != 0).any())
        zero |= bool((pen == 0).any())
    if c.get('lams'):
        late = [bool((P.left_out(d, sols[i].T, seq[i], seq[i + 1]) & (sols[i + 1].T != 0)).any())
                for i in range(len(sols) - 1)]
        return '%s %s%s' % (d['kind'], c['fit'], ', elastic net' if d['alpha'] < 1 else '') if any(late) else None
    if (active and zero) or (f.any() and active):
        return '%s %s%s%s%s' % (d['kind'], c['fit'], ', elastic net' if d['alpha'] < 1 else '',
                                ', unpenalised' if f.any() else '', ', resumed' if c['start'] else '')


@sub('C20', 'path', gen, quick=1500, thorough=60000, cost=100)
def path(c):
    """optimality conditions of the unscreened problem at every multiplier"""
    # The solver stops when the objective does not change, which happens by coincidence when an accelerated
    # step lands as far beyond the optimum as it started before it: a failure counts when it does not depend
    # on the least number of iterations.
    for its in (25, 32, 46):
        try:
            return path_with(c, its)
        except Violation as v:
            last = v
            if c['fit'] == 'strong':
                break
    raise last


def judge(d, b, lam, top, lmax, tol):
    g = P.gradient(d, b, lam)
    slack = 0.0101
    tol = tol * (1 + top) + 3 * np.sqrt(2e-12 * P.curvature(d, b) * (1 + abs(P.objective(d, b, lam))))
    bad = [(k, t, v) for k, t, v in P.kkt(d, b, g, lam, slack) if v > 1e-3 * lam + tol]
    if bad:
        raise Violation('multiplier %.6g (%.3g of the largest): conditions violated %s by %s' % (
            lam, lam / lmax, bad[:4], b))


# -- features that break the strong rule ------------------------------------------------------------

def gen_screen(draw):
    """The strong rule assumes that gradients move no faster than the multiplier.  Here a feature (the follower)
    is the sum of S > 1 of the active features plus a fixed part: its gradient moves S times as fast, so that it
    can be left out of the strong set at one multiplier and be needed at the next.
    """
    kind = pick(draw, 'lasso', 'lasso', 'group', 'sgl')
    k = integer(draw, 2, 4)
    a = np.array([real(draw, 0.7, 1.3) for _ in range(k)])
    a *= real(draw, 1.7, 3.5) / a.sum()
    S = a.sum()
    cur = 1. / S                        # the gradient of the follower, S lambda - 1, is zero here
    top = 0.95 / (S - 1)
    K = positive_scale(draw)
    extra = integer(draw, 0, 3)
    n = k + 1 + extra + integer(draw, 0, 4)
    R = np.random.RandomState(integer(draw, 0, 2 ** 31))
    Q = np.linalg.qr(R.standard_normal((n, n)))[0]
    y = np.zeros(n)
    y[:k] = [min(real(draw, 1.1, 2.5) * cur, top) for _ in range(k)]
    f = np.zeros(n)
    f[:k] = a
    d = real(draw, 0.3, 3.)
    f[k], y[k] = d, -1. / d
    cols = [np.eye(n)[i] for i in range(k)] + [f]
    for _ in range(extra):              # features that do not matter much
        v = R.standard_normal(n)
        v[:k] *= 0.1
        v *= 0.1 * cur / max(abs(v.dot(y)), 1e-3)
        cols.append(v / max(1., np.linalg.norm(v)))
    if boolean(draw, 1, 3):             # another follower
        cols.append(f + 0.05 * R.standard_normal(n))
    X = np.array(cols).T
    p = X.shape[1]
    signs = np.array([pick(draw, 1., -1.) for _ in range(p)])
    signs[0] = 1.
    perm = list(R.permutation(p)) if boolean(draw) else list(range(p))
    noise = pick(draw, 0., 1e-3)
    X = (Q.dot(X) * signs)[:, perm] + noise * R.standard_normal((n, p))
    y = K * Q.dot(y)
    alpha = pick(draw, 1., 1., 0.9, 0.8, 0.5)
    c = {'kind': kind, 'alpha': alpha, 'how': pick(draw, 'helper', 'class'), 'form': pick(draw, 'dense', 'dense', 'csr'),
         'p': p, 'shape': (p,), 'X': X, 'enet': None}
    # gaussian, or a Huber loss with no outliers
    c['s'] = {'kind': 'gaussian', 'n': n, 'coef': 1., 'offset': None, 'quad': None, 'cw': None, 'y': y, 'shape': (n,),
              'ydtype': 'float'}
    if alpha < 1:                       # the ridge part slows the follower down unless others have it
        e = np.array([0. if j <= k else 1. for j in range(p)])
        c['enet'] = e[perm] if boolean(draw, 3, 4) else pick(draw, None, 0.1 * np.ones(p))
    if kind == 'lasso':
        c['w'] = np.ones(p)
        if boolean(draw, 1, 3):         # the same problem in other units
            w = np.array([positive(draw, 0.3, 3.) for _ in range(p)])
            c['w'], c['X'] = w, X * w
            if c['enet'] is not None:
                c['enet'] = c['enet'] * w ** 2
    else:
        c['groups'] = list(range(p))
        if boolean(draw, 1, 3):         # some share a group
            for j in range(p):
                if perm[j] > k + 1:
                    c['groups'][j] = perm.index(pick(draw, k, 0, 1))
        labels = sorted(set(c['groups']))
        c['gw'] = {v: 1. for v in labels}
        if kind == 'sgl':
            c['w'], c['l1_alpha'] = np.ones(p), pick(draw, 0.5, 0.95, 0.2)
    cur = cur * real(draw, 0.85, 1.1) * K / alpha
    new = cur * real(draw, 0.51, S / (S + 1.))
    lams = [cur, new]
    if boolean(draw, 1, 3):
        lams.append(new * real(draw, 0.5, 0.99))
    if boolean(draw, 1, 3):
        lams.insert(0, cur * real(draw, 1.01, 1.5))
    return {'d': c, 'ratios': [1.], 'lams': lams, 'fit': pick(draw, 'strong', 'strong', 'strong', 'basil', 'basil_inner'),
            'check_active': boolean(draw, 1, 4), 'start': False, 'nvar': pick(draw, 1, 1, 2),
            'nlag': pick(draw, 1, 2, 5), 'step': pick(draw, None, None, 1.), 'verbose': False}


def positive_scale(draw):
    return float(pick(draw, 1., 1., 10., 0.3))


@sub('C20', 'screening', gen_screen, quick=1000, thorough=60000, cost=250)
def screening(c):
    """optimality conditions where a feature left out by the strong rule is needed"""
    for its in (25, 32, 46):
        try:
            return path_with(c, its)
        except Violation as v:
            last = v
            if c['fit'] == 'strong':
                break
    raise last
