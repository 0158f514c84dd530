"""C25: models keep what they are given, and copies of them are faithful."""
import copy as cp
import numpy as np

from .core import prop, sub, Violation, Reject
from .gens import pick, boolean, integer, positive, vec, arr, quad
from . import pen, loss, c12, c23

prop('C25',
     rule='Losses (saturated, stacked, generalised linear, multi-response, quadratic) and penalties are built by every '
          'constructor with generated data, offset, case weights, own quadratic and starting point, next to a second '
          'object from the same data.  Copies are compared with the second object, then changed in every way (starting '
          'point, quadratic, offset, case weights, data in place) while the original must stay equal to the second '
          'object.  Non-trivial when a starting point or quadratic was given and the copy was changed.',
     assumptions=['copies of penalties need not keep the starting point', 'the starting point of a composed problem is that of its penalty',
                  'transform objects given as designs may be shared by copies'])

WORLDS = ['loss', 'loss', 'glm', 'glm', 'mglm', 'quadratic', 'atom']


def gen(draw):
    w = pick(draw, *WORLDS)
    c = {'w': w}
    if w == 'loss':
        s = loss.spec(draw, kinds=loss.SCALAR * 2 + ['cox', 'cox', 'stacked', 'stacked'] + loss.MATRIX * 2)
        sh = tuple(s['shape'])
    elif w == 'glm':
        s = c12.gen_glm(draw)
        sh = (s['d']['X'].shape[1],)
    elif w == 'mglm':
        s = c12.gen_mglm(draw)
        s['how'] = 'explicit'
        if s['ctor']:
            s['s']['quad'] = s['s']['cw'] = None
            s['how'] = 'multinomial'
        elif s['s']['kind'] == 'stacked_common' and boolean(draw, 2, 3):
            s['s'].update(quad=None, cw=None, ctor=False)
            s['how'] = 'stacked'
            if boolean(draw):               # the scaling must be applied once
                s['s']['coef'] = positive(draw)
        sh = (s['d']['X'].shape[1], s['s']['shape'][1])
        s['quad'] = quad(draw, sh, 'any') if boolean(draw) else None
    elif w == 'quadratic':
        n = integer(draw, 1, 4)
        sh = (n,)
        s = {'how': pick(draw, 'plain', 'full', 'diag', 'diagonal', 'fromarray', 'squared_transform'),
             'X': np.round(4 * vec(draw, n * n, 'cont').reshape(n, n)) / 4., 'd': np.abs(vec(draw, n, 'grid')),
             'coef': pick(draw, 1., positive(draw)), 'offset': vec(draw, n, 'cont') if boolean(draw) else None,
             'quad': quad(draw, n, 'any') if boolean(draw) else None}
    else:
        s = c23.spec(draw)
        sh = c23.shape(s)
    c.update(s=s, sh=sh, start=arr(draw, sh, 'cont') if boolean(draw, 3, 4) else None,
             xs=[arr(draw, sh, 'cont'), arr(draw, sh, 'grid'), np.zeros(sh)],
             q=quad(draw, sh, 'positive'), how=pick(draw, 'copy', 'copy', 'copy of copy', 'deepcopy'),
             change=[pick(draw, 'start', 'quadratic', 'offset', 'weights', 'data', 'solve', 'loss', 'quadratic in place')
                     for _ in range(integer(draw, 1, 4))])
    return c


def own(c):
    s = c['s']
    return s['quad']


def build(c):
    """the object, and the starting point array it was given"""
    w, s = c['w'], c['s']
    x0 = None if c['start'] is None else c['start'].copy()
    if w == 'loss':
        return loss.build(s, initial=x0), x0
    if w == 'glm':
        return c12.build_glm(s, initial=x0), x0
    if w == 'mglm':
        import regreg.smooth.mglm as M
        d = s['s']
        kw = dict(offset=None if s['offset'] is None else s['offset'].copy(), initial=x0,
                  case_weights=None if s['cw'] is None else s['cw'].copy(),
                  quadratic=None if s['quad'] is None else pen.iq(s['quad']))
        X = c12.build_X(s['d'])
        so = None if d['offset'] is None else d['offset'].copy()
        if s['how'] == 'multinomial':
            return M.mglm.multinomial(X, loss.y_of(d), coef=d['coef'], saturated_offset=so,
                                      baseline=d['kind'] == 'multinomial_baseline', **kw), x0
        if s['how'] == 'stacked':
            return M.mglm.stacked(X, [loss.build(e) for e in d['subs']], coef=d['coef'], saturated_offset=so, **kw), x0
        return M.mglm(X, loss.build(d), **kw), x0
    if w == 'quadratic':
        from regreg.smooth.quadratic import quadratic_loss as Q
        kw = dict(offset=None if s['offset'] is None else s['offset'].copy(), initial=x0,
                  quadratic=None if s['quad'] is None else pen.iq(s['quad']))
        X, d = s['X'], s['d']
        k, n = s['how'], X.shape[0]
        if k == 'plain':
            return Q((n,), coef=s['coef'], **kw), x0
        if k == 'full':
            return Q((n,), Q=X.T.dot(X), coef=s['coef'], **kw), x0
        if k == 'diag':
            return Q((n,), Q=d.copy(), Qdiag=True, coef=s['coef'], **kw), x0
        if k == 'diagonal':
            return Q.diagonal(d.copy(), **kw), x0
        if k == 'fromarray':
            return Q.fromarray(X.T.dot(X), **kw), x0
        return Q.squared_transform(X.copy(), **kw), x0
    if x0 is not None:
        pen.EXTRA['initial'] = x0
    try:
        return c23.build(s), x0
    finally:
        pen.EXTRA.clear()


def reference(c, x):
    """value of the smooth part, from the data"""
    w, s = c['w'], c['s']
    if w == 'loss':
        return loss.ref(s, x)[:2]
    if w == 'glm':
        _, v, g, _ = c12.glm_ref(s, x)
        return v, g
    if w == 'mglm':
        X = c12.dense_X(s['d'])
        v, g, _ = loss.ref(s['s'], X.dot(x if s['offset'] is None else x - s['offset']), s['cw'])
        return v, X.T.dot(g)
    X, d, k = s['X'], s['d'], s['how']
    n = len(d)
    H = np.identity(n) if k == 'plain' else np.diag(d) if k.startswith('diag') else X.T.dot(X)
    if k in ('plain', 'full', 'diag'):
        H = H * s['coef']
    y = x if s['offset'] is None else x - s['offset']
    return y.dot(H).dot(y) / 2, H.dot(y)


def points(c):
    w, s = c['w'], c['s']
    if w == 'loss':
        return [loss.limit(s, x) for x in c['xs']]
    if w == 'glm':
        return [c12.safe_beta(s, x) for x in c['xs']]
    if w == 'mglm':
        out = []
        X, r = c12.dense_X(s['d']), loss.reach(s['s'])
        r = max(r - (0 if s['s']['offset'] is None else np.abs(s['s']['offset']).max()), 0.2)
        for B in c['xs']:
            z = B if s['offset'] is None else B - s['offset']
            m = np.abs(X.dot(z)).max()
            z = z * min(1., r / m) if m > 0 else z
            out.append(z if s['offset'] is None else z + s['offset'])
        return out
    return c['xs']


def observe(o, c, xs):
    """everything a caller can see, without changing the object"""
    out = [('starting point', np.array(o.coefs, float))]
    for x in xs:
        if c['w'] != 'atom':
            f, g = o.smooth_objective(x.copy(), 'both')
            out += [('value', np.array(float(f))), ('gradient', np.array(g, float))]
            out.append(('value only', np.array(float(o.smooth_objective(x.copy(), 'func')))))
        else:
            out.append(('value', np.array(float(o.nonsmooth_objective(x.copy(), check_feasibility=True)))))
        out.append(('own quadratic', np.array(float(o.nonsmooth_objective(x.copy())))))
    cw = getattr(o, 'case_weights', None)
    if cw is not None:
        out.append(('case weights', np.array(cw, float)))
    return out


def compare(what, a, b, rtol=1e-12):
    if [k for k, _ in a] != [k for k, _ in b]:
        raise Violation('%s: %s instead of %s' % (what, [k for k, _ in a], [k for k, _ in b]))
    for (k, u), (_, v) in zip(a, b):
        if not c23.close(u, v, rtol):
            raise Violation('%s: %s is %s instead of %s' % (what, k, u, v))


def change(k, o, c):
    """change the copy; False when there is nothing of this kind to change"""
    sh = tuple(c['sh'])
    if k == 'start':
        o.coefs[...] = 17.5
    elif k == 'quadratic':
        o.quadratic = pen.iq([2., np.ones(sh), 0, 1.])
    elif k == 'quadratic in place':
        v = getattr(o.quadratic, 'center', None)
        v = v if isinstance(v, np.ndarray) else getattr(o.quadratic, 'linear_term', None)
        if not isinstance(v, np.ndarray) or v.shape != sh:
            return False
        v += 3.
    elif k == 'offset':
        if o.offset is None or np.shape(o.offset) != sh:
            return False
        o.offset += 1.5                 # in place
    elif k == 'weights':
        v = getattr(o, 'case_weights', None)
        if not isinstance(v, np.ndarray) or c['w'] == 'atom' or v.dtype != float:
            return False
        v *= 1.75
    elif k == 'loss':
        v = getattr(getattr(o, 'saturated_loss', None), 'data', None)
        if not isinstance(v, np.ndarray) or v.dtype != float:
            return False
        v += 1.
    elif k == 'data':
        done = False
        d = getattr(o, 'data', None)
        for v in d if isinstance(d, tuple) else (d,):
            if isinstance(v, np.ndarray) and v.dtype == float:
                v *= 0.5
                done = True
        for n in ('Q', 'weights', 'lasso_weights', 'basis'):
            v = getattr(o, n, None)
            if isinstance(v, np.ndarray) and v.dtype == float and c['w'] == 'atom':
                v *= 0.5
                done = True
        return done
    elif k == 'solve':
        if c['w'] == 'atom' or not hasattr(o, 'solve'):
            return False
        try:
            with np.errstate(all='ignore'):
                o.solve(pen.iq(c['q']), max_its=2)
        except Exception:
            raise Reject('solve fails')             # judged by C17
    return True


@sub('C25', 'models', gen, quick=9000, thorough=200000, cost=4)
def models(case):
    c = case
    w, s, sh = c['w'], c['s'], tuple(c['sh'])
    try:
        o, x0 = build(c)
    except TypeError as e:
        if 'initial' in str(e):
            raise Reject('takes no starting point')
        raise
    o2, _ = build(c)
    # 1. what was given is there
    want = np.zeros(sh) if c['start'] is None else c['start']
    if tuple(np.shape(o.coefs)) != sh or not np.array_equal(o.coefs, want):
        raise Violation('%s: starting point %s, given %s' % (name(c), o.coefs, want))
    xs = points(c)
    if w != 'atom':
        z = own(c)
        base = o.nonsmooth_objective(np.zeros(sh)) - (0. if z is None else pen.qval(z, np.zeros(sh)))
        for x in xs:
            v, g = reference(c, x)
            f, gr = o.smooth_objective(x.copy(), 'both')
            S = scale(c, x) + abs(v)
            loss.same('%s: value' % name(c), f, v, S)
            loss.same('%s: gradient' % name(c), gr, g, S)
            ref = 0. if z is None else pen.qval(z, x)
            loss.same('%s: own quadratic' % name(c), o.nonsmooth_objective(x.copy()) - base, ref,
                      1 + abs(base) + abs(ref) + np.abs(x).max() ** 2)
    # 2. copies say the same
    before = observe(o2, c, xs)
    if c['how'] == 'deepcopy':
        k = cp.deepcopy(o)
    else:
        k = cp.copy(o)
        if c['how'] == 'copy of copy':
            k = cp.copy(k)
    if type(k) is not type(o):
        raise Violation('%s: copy is a %s' % (name(c), type(k).__name__))
    copies = hasattr(type(o), '__copy__') or c['how'] == 'deepcopy'
    seen = observe(k, c, xs)
    if w == 'atom':                     # whose copies start at zero or where they are
        seen[0] = before[0]
    compare('%s: %s' % (name(c), c['how']), seen, before)
    compare('%s: original after a %s' % (name(c), c['how']), observe(o, c, xs), before)
    # 3. changing the copy
    changed = 0
    for ch in c['change']:
        if not copies and ch not in ('quadratic',):
            continue                    # shallow, as for any Python object
        if change(ch, k, c):
            changed += 1
            compare('%s: original after a change of the %s of its %s' % (name(c), ch, c['how']), observe(o, c, xs), before)
    if x0 is not None:
        if copies and not np.array_equal(x0, c['start']):
            raise Violation('%s: the array given as starting point changed' % name(c))
        x0 += 5.
        compare('%s: after a change of the array given as starting point' % name(c), observe(o, c, xs), before)
        o.coefs[...] = -3.
        if not np.array_equal(x0, c['start'] + 5.):
            raise Violation('%s: starting point shared with the caller' % name(c))
    return '%s/%s' % (name(c), c['how']) if changed and (c['start'] is not None or own(c) is not None) else None


def name(c):
    s = c['s']
    if c['w'] == 'loss':
        return s['kind'] + (' (named)' if s.get('ctor') else '')
    if c['w'] == 'glm':
        return 'glm %s%s' % (s['s']['kind'], ' (named)' if s['ctor'] else '')
    if c['w'] == 'mglm':
        return 'mglm %s %s' % (s['s']['kind'], s['how'])
    return s['how'] + ' quadratic' if c['w'] == 'quadratic' else s['cls']


def scale(c, x):
    w, s = c['w'], c['s']
    if w == 'loss':
        return loss.scale_of(s, x)
    if w == 'quadratic':
        return (1 + s['coef']) * (1 + np.abs(s['X']).max()) ** 2 * len(s['d']) ** 2 * (
            1 + np.abs(x).max() + s['d'].max() + (0 if s['offset'] is None else np.abs(s['offset']).max())) ** 2
    X = c12.dense_X(s['d'])
    eta = X.dot(x if s['offset'] is None else x - s['offset'])
    return loss.scale_of(s['s'], eta, s['cw']) * (1 + np.abs(X).max()) ** 2 * X.shape[1]
