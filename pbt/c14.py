"""C14: case weights, subsampling and copies of losses."""
import copy as cp
import numpy as np

from .core import prop, sub, Violation, Reject
from .gens import pick, boolean, integer, positive, vec, arr, normal, design, quad
from . import loss, pen, c12
from .loss import same

prop('C14',
     rule='A loss with integer case weights (zeros included) is compared with the loss of the data set written out '
          'case by case; subsamples (index arrays, masks, lists, slices) with the loss of the selected cases; '
          'sequences of copies, subsamples and attribute changes are run against a model that tracks every object '
          'separately.  Non-trivial when some weight is not one, or the subsample drops and keeps a case, or at least '
          'one object of a sequence was changed after being copied.',
     assumptions=['relative tolerance 1e-9 of a scale computed from data and linear predictor'])


def take(s, idx):
    """the spec of the loss whose cases are those at idx (own case weights dropped)"""
    idx = np.asarray(idx, int)
    t = dict(s, n=len(idx), cw=None, quad=None)
    if s['offset'] is not None:
        t['offset'] = s['offset'][idx]
    if 'subs' in s:                         # stacked_common: every part has all cases
        t['subs'] = [take(dict(d, cw=d['cw']), idx) for d in s['subs']]
        for a, b in zip(t['subs'], s['subs']):
            a['cw'] = None if b['cw'] is None else b['cw'][idx]
    else:
        t['y'] = s['y'][idx]
        for k in ('t', 'c'):
            if s.get(k) is not None:
                t[k] = s[k][idx]
    t['shape'] = loss.shape(t)
    return t


KINDS = loss.SCALAR + ['cox', 'cox'] + loss.MATRIX


def gen_rep(draw):
    s = loss.spec(draw, kinds=KINDS, cw=False, quad=False)
    n = s['n']
    w = np.array([pick(draw, 0, 1, 1, 2, 3) for _ in range(n)])
    if not w.any():
        w[integer(draw, 0, n - 1)] = 1
    return {'s': s, 'w': w, 'where': pick(draw, 'ctor', 'eval', 'both', 'float'), 'eta': loss.gen_eta(draw, s)}


@sub('C14', 'replicate', gen_rep, quick=3000, thorough=50000, cost=3)
def replicate(case):
    s, w, eta, where = case['s'], case['w'], case['eta'], case['where']
    rep = np.repeat(np.arange(s['n']), w)
    t = take(s, rep)
    big = loss.build(t)
    F, G = big.smooth_objective(eta[rep], 'both')
    Gs = np.zeros(eta.shape)
    np.add.at(Gs, rep, G)                   # the copies' linear predictors move together
    if where == 'ctor':
        a, kw = loss.build(dict(s, cw=w)), {}
    elif where == 'eval':
        a, kw = loss.build(s), {'case_weights': w.copy()}
    elif where == 'float':
        a, kw = loss.build(dict(s, cw=w * 1.)), {}
    else:
        a, kw = loss.build(dict(s, cw=w * 0.5)), {'case_weights': np.ones(s['n']) * 2.}
    S = loss.scale_of(s, eta, w)
    f, g = a.smooth_objective(eta.copy(), 'both', **kw)
    same('value', f, F, S)
    same('gradient', g, Gs, S)
    if s['kind'] in loss.HESS:
        h = a.hessian(eta.copy(), **kw)
        Hs = np.zeros(s['n'])
        np.add.at(Hs, rep, big.hessian(eta[rep]))
        same('Hessian', h, Hs, S)
    if s['kind'] == 'cox':
        v = np.cos(np.arange(s['n']) * 1.7)
        Hs = np.zeros(s['n'])
        np.add.at(Hs, rep, big.hessian_mult(eta[rep], v[rep]))
        same('Hessian times vector', a.hessian_mult(eta.copy(), v.copy(), **kw), Hs, S)
    return '%s/%s' % (s['kind'], where) if (w != 1).any() else None


def gen_glm(draw):
    s = loss.spec(draw, kinds=loss.SCALAR + ['cox'], cw=False, quad=False)
    n = s['n']
    d = c12.gen_X(draw, n, ['dense', 'csr', 'int', 'transform'])
    w = np.array([pick(draw, 0, 1, 1, 2, 3) for _ in range(n)])
    if not w.any():
        w[0] = 1
    return {'s': s, 'd': d, 'cw': w, 'ctor': boolean(draw), 'beta': vec(draw, d['X'].shape[1], 'cont'),
            'offset': vec(draw, d['X'].shape[1], 'cont') if boolean(draw, 1, 3) else None, 'quad': None}


@sub('C14', 'glm', gen_glm, quick=1500, thorough=20000, cost=4)
def glm(case):
    c, s = case, case['s']
    rep = np.repeat(np.arange(s['n']), c['cw'])
    b = c12.safe_beta(c, c['beta'])
    a = c12.build_glm(c)
    big = c12.build_glm(dict(c, s=take(s, rep), cw=None, d=dict(c['d'], X=c['d']['X'][rep])))
    eta = c12.dense_X(c['d']).dot(b)
    S = loss.scale_of(s, eta, c['cw']) * (1 + np.abs(c['d']['X']).max()) ** 2 * len(b)
    f, g = a.smooth_objective(b.copy(), 'both')
    F, G = big.smooth_objective(b.copy(), 'both')
    same('value', f, F, S)
    same('gradient', g, G, S)
    if c['d']['form'] != 'transform' and (s['kind'] in loss.HESS or s['kind'] == 'cox'):
        same('Hessian', a.hessian(b.copy()), big.hessian(b.copy()), S * (1 + np.abs(c['d']['X']).max()))
    return s['kind'] if (c['cw'] != 1).any() else None


def gen_sub(draw):
    s = loss.spec(draw, kinds=KINDS + ['stacked'], quad=False)
    n = s['n']
    mask = np.array([integer(draw, 0, 1) for _ in range(n)]).astype(bool)
    if not mask.any():
        mask[integer(draw, 0, n - 1)] = True
    level = pick(draw, 'loss', 'loss', 'glm')
    p = integer(draw, 1, 3)
    return {'s': s, 'mask': mask, 'how': pick(draw, 'mask', 'index', 'list', 'shuffled', 'slice'), 'level': level,
            'eta': loss.gen_eta(draw, s), 'X': normal(draw, (n, p)), 'cw': loss.case_weights(draw, n),
            'perm': integer(draw, 0, 9999)}


def index_of(case):
    m, how = case['mask'], case['how']
    if how == 'mask':
        return m.copy(), m
    i = np.nonzero(m)[0]
    if how == 'shuffled':
        i = np.random.RandomState(case['perm']).permutation(i)
    if how == 'list':
        i = i.tolist()
    if how == 'slice':
        i = slice(int(i[0]), int(i[-1]) + 1)
        m = np.zeros(m.shape, bool)
        m[i] = True
    return i, m


@sub('C14', 'subsample', gen_sub, quick=3000, thorough=50000, cost=4)
def subsample(case):
    import regreg.api as rr
    s, eta, cw, level = case['s'], case['eta'], case['cw'], case['level']
    idx, mask = index_of(case)
    L = obj = loss.build(s)
    kw = {} if cw is None else {'case_weights': cw.copy()}
    w = np.ones(s['n']) if cw is None else cw * 1.
    if level == 'glm':
        X = case['X']
        b = np.linspace(-1, 1, X.shape[1])
        m = np.abs(X.dot(b)).max()
        r = max(min(loss.reach(s), 4.) - (0 if s['offset'] is None else np.abs(s['offset']).max()), 0.2)
        b = b * min(1, r / m)
        eta = X.dot(b)
        if len(s['shape']) == 2:
            from regreg.smooth.mglm import mglm
            q = s['shape'][1]
            b = np.array([b * (j + 1) / q for j in range(q)]).T
            eta = X.dot(b)
            L = mglm(X.copy(), obj, case_weights=None if cw is None else cw.copy())
        else:
            L = rr.glm(X.copy(), (obj.data, obj.trials) if s['kind'] in loss.BINOM else obj.data, obj,
                           case_weights=None if cw is None else cw.copy())
        kw = {}
        point, back = b, X.T.dot
    else:
        point, back = eta, lambda z: z
    S = loss.scale_of(s, eta, cw) * (1 + np.abs(case['X']).max()) * s['n']
    f0, g0 = L.smooth_objective(point.copy(), 'both', **kw)
    g0 = np.array(g0)
    subl = L.subsample(idx)
    want_f, want_g, _ = loss.ref(s, eta, w * mask)
    for i in range(2):                                    # twice: evaluation leaves no trace
        f, g = subl.smooth_objective(point.copy(), 'both', **kw)
        same('subsampled value', f, want_f, S)
        same('subsampled gradient', g, back(want_g), S)
    again = subl.subsample(np.arange(s['n']))
    same('subsample of everything', again.smooth_objective(point.copy(), 'func', **kw), want_f, S)
    f1, g1 = L.smooth_objective(point.copy(), 'both', **kw)
    if not (f1 == f0 and np.array_equal(g0, g1)):
        raise Violation('subsampling changed the original loss')
    return '%s/%s/%s' % (s['kind'], level, case['how']) if mask.any() and not mask.all() else None


# -- histories of copies and changes ---------------------------------------------------------------

def gen_hist(draw):
    level = pick(draw, 'loss', 'loss', 'glm')
    s = loss.spec(draw, kinds=(loss.SCALAR + ['cox']) + (loss.MATRIX + ['stacked'] if level == 'loss' else []))
    n = s['n']
    ops = []
    for _ in range(integer(draw, 2, 7)):
        k = pick(draw, 'copy', 'copy', 'subsample', 'coef', 'offset', 'quadratic', 'weights', 'inplace', 'data', 'eval')
        o = {'op': k, 'at': integer(draw, 0, 20)}
        if k == 'subsample':
            m = np.array([integer(draw, 0, 1) for _ in range(n)]).astype(bool)
            m[integer(draw, 0, n - 1)] = True
            o['mask'] = m
        elif k == 'coef':
            o['coef'] = positive(draw)
        elif k == 'offset':
            o['offset'] = arr(draw, s['shape'], 'cont') / 10.
        elif k == 'quadratic':
            o['quad'] = [positive(draw), arr(draw, s['shape'], 'grid'), 0, pick(draw, 0, 1.5)]
        elif k in ('weights', 'inplace'):
            o['w'] = np.array([pick(draw, 0., 1., positive(draw)) for _ in range(n)])
        elif k == 'data':
            o['resp'] = None if 'subs' in s or s['kind'].startswith('multi') else loss.response(draw, s['kind'], n)
        ops.append(o)
    return {'s': s, 'level': level, 'ops': ops, 'eta': loss.gen_eta(draw, s),
            'X': design(draw, n, integer(draw, 1, 3), rich=False)}


@sub('C14', 'history', gen_hist, quick=2500, thorough=40000, cost=6)
def history(case):
    """a loss, its copies and subsamples never see one another's changes"""
    import regreg.api as rr
    s0, eta = case['s'], case['eta'] * 0.5
    X = case['X']
    glm = case['level'] == 'glm'
    if glm:
        b = np.ones(X.shape[1])
        m = np.abs(X.dot(b)).max()
        r = max(min(loss.reach(s0), 4.) - (0 if s0['offset'] is None else np.abs(s0['offset']).max()), 0.2)
        b = b * min(1, r / m) * 0.5
        eta = X.dot(b)

    def make(s):
        L = loss.build(s)
        if glm:
            return rr.glm(X.copy(), (L.data, L.trials) if s['kind'] in loss.BINOM else L.data, L)
        return L

    sat = lambda o: o.saturated_loss if glm else o
    # each entry: [object, spec, weights of the glm, constant of the objective]
    pool = [[make(s0), dict(s0), np.ones(s0['n']), loss.saturated(s0)]]
    changed = False

    def check(entry, what):
        o, s, gw, const = entry
        v, g, _ = loss.ref(s, eta, gw)
        S = loss.scale_of(s, eta, gw) * (1 + np.abs(X).max()) * (1 + abs(const))
        f1, g1 = o.smooth_objective((b if glm else eta).copy(), 'both')
        same('%s: value' % what, f1, v, S)
        same('%s: gradient' % what, g1, X.T.dot(g) if glm else g, S * s['n'])
        q = sat(o).quadratic.objective(eta, 'func')
        same('%s: own quadratic' % what, q, const + (0 if s['quad'] is None else pen.qval(s['quad'], eta)),
             1 + abs(const) + np.abs(eta).max() ** 2 * 100 * s['n'])

    for k, op in enumerate(case['ops']):
        e = pool[op['at'] % len(pool)]
        o, s = e[0], e[1]
        kind = op['op']
        if kind == 'copy':
            pool.append([cp.copy(o), dict(s), e[2].copy(), e[3]])
        elif kind == 'subsample':
            n = [o.subsample(np.nonzero(op['mask'])[0]), dict(s), e[2].copy(), e[3]]
            if glm:
                n[2] = n[2] * op['mask']
            else:
                n[1]['cw'] = loss.weights_of(s, None) * op['mask']
            pool.append(n)
        elif kind == 'coef' and not s.get('ctor'):
            sat(o).coef = op['coef']
            # constants and copies of constants keep the multiplier at construction
            s['coef'] = op['coef']
            changed = True
        elif kind == 'offset':
            sat(o).offset = op['offset'].copy()
            s['offset'] = op['offset']
            changed = True
        elif kind == 'quadratic':
            sat(o).quadratic = pen.iq(op['quad'])
            s['quad'], e[3] = op['quad'], 0.
            changed = True
        elif kind == 'weights':
            if glm:
                o.case_weights = op['w'].copy()
                e[2] = op['w']
            else:
                o.case_weights = op['w'].copy()
                s['cw'] = op['w']
            changed = True
        elif kind == 'inplace':
            w = o.case_weights
            if w is not None and w.dtype == float:
                w[:] = op['w']
                if glm:
                    e[2] = op['w']
                else:
                    s['cw'] = op['w']
                changed = True
        elif kind == 'data' and op['resp'] is not None:
            new = op['resp']
            t = dict(s)
            t.update({q: new[q] for q in ('y', 't', 'c') if q in new})
            if 'eps' in s:
                t['eps'] = s['eps']
            if s['kind'] in loss.BINOM:
                if t['t'] is None:
                    t['t'] = np.ones(s['n'])
                data = (t['y'] * 1., t['t'] * 1.)
            elif s['kind'] == 'cox':
                data = np.array([t['y'], t['c']]).T
            else:
                data = t['y'] * 1.
            if glm:
                o.data = (X.copy(), data)
            else:
                o.data = data
            e[1] = t
            changed = True
        for j, en in enumerate(pool):
            check(en, 'object %d after step %d (%s on object %d)' % (j, k, kind, op['at'] % len(pool)))
    return '%s/%s' % (s0['kind'], case['level']) if changed and len(pool) > 1 else None
