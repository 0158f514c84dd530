"""C23: equality, copies and printed forms of penalties and constraints."""
import copy as cp
import sys
import numpy as np

from .core import prop, sub, Violation, Reject
from .gens import pick, boolean, integer, positive, vec, arr, quad, partition, real
from . import pen, sets, c07, c08, c16

prop('C23',
     rule='An atom of any class is built with generated shape, weights, groups, multiplier or bound, offset and '
          'quadratic.  Histories of copies, evaluations and in-place or attribute changes are run against freshly '
          'built reference objects; pairs that differ in exactly one parameter, or write the same parameters '
          'differently, are compared; the printed form is evaluated.  Non-trivial when a copy was changed, when the '
          'two functions of a pair differ at a probe point (or the same function was written differently), or when '
          'the printed atom has an offset, weights, groups or a quadratic.',
     assumptions=['equality is defined between objects of one class; affine compositions, containers and separable '
                  'penalties define no equality and are not covered',
                  'arrays are printed with enough digits and without abbreviation (numpy print options)'])

CLASSES = sorted(pen.DUAL) + sorted(sets.ALL) + sorted(c08.MAT) + ['simplex_constraint', 'maximum'] + \
    ['mixed_lasso', 'mixed_lasso_dual']


def spec(draw, own='any'):
    c = pick(draw, *CLASSES)
    if c in pen.DUAL:
        s = pen.spec(draw, c, pick(draw, 'lagrange', 'bound'), own=own)
        fam = 'pen'
    elif c in sets.ALL:
        s = sets.spec(draw, c, own=own)
        fam = 'set'
    elif c in c08.MAT:
        s = c08.spec(draw, cls=c, form=pick(draw, 'lagrange', 'bound'), own=own)
        fam = 'mat'
    elif c.startswith('mixed'):
        s = c07.mixed_spec(draw, dual=c.endswith('dual'), own=own)
        fam = 'mixed'
    else:
        n = integer(draw, 1, 6)
        s = {'cls': c, 'n': n, 'offset': vec(draw, n) if boolean(draw, 2, 5) else None,
             'quad': quad(draw, n, 'any') if boolean(draw, 2, 5) else None}
        fam = 'simplex'
    s = dict(s, fam=fam)
    if s.get('par') is not None and boolean(draw, 1, 6):
        s['par'] = float(pick(draw, 1e-7, 1 / 3., 123456.789, 1e8))
    return s


def build(s):
    f = s['fam']
    if f == 'pen':
        return pen.build(s)
    if f == 'set':
        return sets.build(s)
    if f == 'mat':
        return c08.build(s)
    if f == 'mixed':
        return c07.mixed_build(s)
    from regreg.atoms import simplex
    kw = dict(pen.EXTRA)
    if s['offset'] is not None:
        kw['offset'] = s['offset'].copy()
    if s['quad'] is not None:
        kw['quadratic'] = pen.iq(s['quad'])
    return getattr(simplex, s['cls'])(s['n'], **kw)


def shape(s):
    return tuple(s['shape']) if s['fam'] == 'mat' else (s['n'],)


def probes(draw, s, k=4):
    """points inside and outside the usual domains"""
    sh = shape(s)
    out = [np.zeros(sh), np.ones(sh) / max(1, np.prod(sh)), -np.ones(sh)]
    e = np.zeros(int(np.prod(sh)))
    e[-1] = 30.
    out.append(e.reshape(sh))
    off = 0 if s['offset'] is None else s['offset']
    return [x + off for x in out] + [arr(draw, sh) for _ in range(k)]


def values(a, xs):
    out = []
    for x in xs:
        for feas in (False, True):
            out.append(float(a.nonsmooth_objective(x.copy(), check_feasibility=feas)))
    return np.array(out)


def prox(a, q):
    try:
        with np.errstate(all='ignore'):
            r = a.proximal(pen.iq(q))
    except NotImplementedError:
        return None
    except ValueError as e:
        if 'thought' in str(e):
            return None
        raise
    return np.array(r, copy=True)


def snapshot(a, xs, q):
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return values(a, xs), prox(a, q)


def close(u, v, rtol=1e-12):
    u, v = np.asarray(u, float), np.asarray(v, float)
    if u.shape != v.shape:
        return False
    f = np.isfinite(u) & np.isfinite(v)
    same = np.where(f, True, (u == v) | (np.isnan(u) & np.isnan(v)))
    return bool(same.all()) and bool(np.all(np.abs(u[f] - v[f]) <= rtol * (1 + np.abs(u[f]).max() if f.any() else 1)))


def agree(r, t, what, rtol=1e-12):
    if not close(r[0], t[0], rtol):
        raise Violation('%s: values %s instead of %s' % (what, r[0], t[0]))
    if (r[1] is None) != (t[1] is None):
        raise Violation('%s: proximal map offered by one only' % what)
    if r[1] is not None and not close(r[1], t[1], 1e-9):
        raise Violation('%s: proximal map %s instead of %s' % (what, r[1], t[1]))


def equal(a, b, want, what):
    for x, y, w in ((a, b, ''), (b, a, ' (reversed)')):
        e, ne = x == y, x != y
        if not isinstance(e, (bool, np.bool_)):
            raise Violation('%s: == gives %r' % (what, e))
        if bool(e) != want:
            raise Violation('%s: == gives %s%s\n  %r\n  %r' % (what, bool(e), w, x, y))
        if bool(ne) == want:
            raise Violation('%s: != gives %s%s' % (what, bool(ne), w))


# copies ---------------------------------------------------------------------

def gen_copy(draw):
    s = spec(draw)
    sh = shape(s)
    hist = []
    for _ in range(integer(draw, 1, 7)):
        k = pick(draw, 'copy', 'copy', 'par', 'par', 'offset', 'quad', 'qpart', 'inoffset', 'inquad', 'coefs', 'weights',
                 'use', 'noffset', 'deepcopy')
        op = [k, integer(draw, 0, 3)]
        if k == 'par':
            op.append(positive(draw, 0.02, 20.))
        elif k == 'offset':
            op.append(arr(draw, sh))
        elif k == 'quad':
            op.append(quad(draw, sh, 'any'))
        elif k == 'qpart':
            w = pick(draw, 'coef', 'center', 'linear_term', 'constant_term')
            op += [w, positive(draw) if w in ('coef', 'constant_term') else arr(draw, sh)]
        elif k in ('inoffset', 'inquad', 'coefs', 'weights'):
            op.append(float(pick(draw, 2., -1., 0.5)))
        hist.append(op)
    q = quad(draw, sh, 'positive', plain=True)
    if not isinstance(q[1], np.ndarray):
        q[1] = arr(draw, sh)
    return {'s': s, 'hist': hist, 'xs': probes(draw, s, 2), 'q': q}


def usable(s):
    """do all the calls of the snapshot make sense for the parameters?"""
    return not (s['cls'] == 'sparse_group_block' and s['form'] == 'bound')


@sub('C23', 'copies', gen_copy, quick=3000, thorough=60000, cost=4)
def copies(case):
    """No change to one object is seen by another; each equals its model."""
    s, xs, q = case['s'], case['xs'], case['q']
    objs = [[build(s), dict(s, quad=cp.deepcopy(s['quad'])), True]]   # object, model, model still exact
    changed = False
    for op in case['hist']:
        k, i = op[0], op[1] % len(objs)
        a, m, exact = objs[i]
        if k in ('copy', 'deepcopy'):
            b = cp.copy(a) if k == 'copy' else cp.deepcopy(a)
            if b is a or type(b) is not type(a):
                raise Violation('copy of %r is %r' % (a, b))
            if exact:
                equal(a, b, True, '%s of %s' % (k, s['cls']))
                equal(b, build(m), True, '%s of %s' % (k, s['cls']))
            objs.append([b, cp.deepcopy(m), exact])
            continue
        before = [snapshot(o[0], xs, q) for o in objs]
        if k == 'use':
            snapshot(a, xs, q)
            if m['quad'] is None or not m['quad'][0]:
                a.conjugate
        elif k == 'par':
            if 'par' not in m:
                continue
            setattr(a, m['form'], op[2])
            m['par'] = op[2]
        elif k == 'offset':
            a.offset = op[2].copy()
            m['offset'] = op[2]
        elif k == 'noffset':
            a.offset = None
            m['offset'] = None
        elif k == 'quad':
            a.quadratic = pen.iq(op[2])
            m['quad'] = cp.deepcopy(op[2])
        elif k == 'qpart':
            setattr(a.quadratic, op[2], pen._c(op[3]))
            m['quad'] = cp.deepcopy(m['quad'] or [0, None, None, 0])
            m['quad'][['coef', 'center', 'linear_term', 'constant_term'].index(op[2])] = op[3]
        elif k == 'inoffset':
            if a.offset is None or np.ndim(a.offset) == 0:
                continue
            a.offset[...] = a.offset * op[2]
            m['offset'] = m['offset'] * op[2]
        elif k == 'inquad':
            done = False
            m['quad'] = cp.deepcopy(m['quad'])
            for name, j in (('center', 1), ('linear_term', 2)):
                v = getattr(a.quadratic, name)
                if isinstance(v, np.ndarray):
                    v *= op[2]
                    m['quad'][j] = m['quad'][j] * op[2]
                    done = True
            if not done:
                continue
        elif k == 'coefs':
            a.coefs[...] = op[2]
        elif k == 'weights':
            w = getattr(a, 'weights', None)
            if isinstance(w, dict) and hasattr(a, 'set_weight'):
                g = sorted(w)[0]
                a.set_weight(g, w[g] * 2 + 1)
                m['gweights'] = dict(m['gweights'])
                m['gweights'][g] = w[g]
            elif isinstance(w, dict):
                for g in sorted(w):
                    w[g] = 5. + w[g]
                objs[i][2] = exact = False
            elif isinstance(w, np.ndarray):
                w *= 3.
                objs[i][2] = exact = False
            elif hasattr(a, 'basis'):
                a.basis[...] = 0
                objs[i][2] = exact = False
            else:
                continue
        what = '%s, after %s' % (s['cls'], k)
        for j, o in enumerate(objs):
            if j != i:
                agree(snapshot(o[0], xs, q), before[j], what + ' of another object')
                changed = True
                if o[2]:
                    equal(o[0], build(o[1]), True, what + ' of another object')
        if exact:
            r = build(m)
            agree(snapshot(a, xs, q), snapshot(r, xs, q), what, 1e-9)
            equal(a, r, True, what)
    return s['fam'] if changed else None


# equality -------------------------------------------------------------------

def mutate(draw, s):
    """one parameter of the spec changed"""
    t = cp.deepcopy(s)
    sh = shape(s)
    opts = ['offset', 'quad', 'quad', 'n']
    if 'par' in s:
        opts += ['par', 'par']
        if not s['cls'].startswith('mixed'):
            opts.append('form')
    for k in ('weights', 'gweights', 'l1w', 'groups', 'labels', 'basis', 'inner', 'w1', 'w2'):
        if k in s:
            opts += [k, k, k]
    k = pick(draw, *opts)
    if k == 'offset':
        if s['offset'] is None or boolean(draw):
            t['offset'] = arr(draw, sh)
        else:
            t['offset'] = None if boolean(draw) else s['offset'] + 1.
    elif k == 'quad':
        if s['quad'] is None or boolean(draw, 1, 3):
            t['quad'] = quad(draw, sh, 'any')
        elif boolean(draw, 1, 4):
            t['quad'] = None
        else:
            j = integer(draw, 0, 3)
            t['quad'][j] = positive(draw) if j in (0, 3) else arr(draw, sh)
    elif k == 'n':
        if s['fam'] == 'mat':
            t['shape'] = [s['shape'][0] + integer(draw, 0, 1), s['shape'][1] + 1]
            t['offset'] = t['quad'] = None
        elif s['fam'] in ('pen', 'set', 'simplex') and not ({'weights', 'groups', 'labels', 'basis', 'mshape'} & set(s)):
            t['n'] = s['n'] + 1
            t['offset'] = t['quad'] = None
        elif 'mshape' in s:
            a, b = s['mshape']
            t['mshape'] = (b, a) if a != b and boolean(draw) else (a, b + 1)
            t['n'] = t['mshape'][0] * t['mshape'][1] + 1
            if t['n'] != s['n']:
                t['offset'] = t['quad'] = None
        elif 'weights' in s:
            t['weights'] = np.concatenate([s['weights'], s['weights'][-1:]])
            t['n'] = s['n'] + 1
            t['offset'] = t['quad'] = None
        else:
            k = 'offset'
            t['offset'] = arr(draw, sh) + 1
    elif k == 'par':
        t['par'] = s['par'] * pick(draw, 2., 0.5, 1.1) + pick(draw, 0., 0.2)
    elif k == 'form':
        t['form'] = {'lagrange': 'bound', 'bound': 'lagrange'}[s['form']]
    elif k == 'weights':
        w = t['weights']
        i = integer(draw, 0, len(w) - 1)
        if s['cls'] in ('slope', 'slope_conjugate'):
            w[:i + 1] = w[:i + 1] + positive(draw)
        else:
            w[i] = pick(draw, 0., 1., positive(draw), np.inf)
    elif k == 'l1w':
        t['l1w'][integer(draw, 0, len(t['l1w']) - 1)] = pick(draw, 0., 1., positive(draw))
    elif k == 'gweights':
        gs = sorted(set(s['groups'] if 'groups' in s else [v for v in s['labels'] if v >= 0]))
        if gs:
            t['gweights'][pick(draw, *gs)] = positive(draw)
    elif k in ('groups', 'labels'):
        v = list(t[k])
        i, j = integer(draw, 0, len(v) - 1), integer(draw, 0, len(v) - 1)
        if k == 'labels' and boolean(draw):
            v[i] = pick(draw, -1, -2, -3, -4)
        elif boolean(draw):
            v[i], v[j] = v[j], v[i]
        else:
            v[i] = v[j]
        t[k] = v
        t['gweights'] = dict((g, w) for g, w in t['gweights'].items() if g in v)
    elif k == 'basis':
        if s['basis'].shape[0] > 1 and boolean(draw):
            t['basis'] = s['basis'][:-1].copy()
        else:
            t['basis'] = np.roll(s['basis'], 1, 1)
    elif k == 'inner':
        t['inner'] = pick(draw, *c08.INNER)
    elif k in ('w1', 'w2'):
        t[k] = s[k] + positive(draw)
    return k, t


def gen_eq(draw):
    s = spec(draw)
    k, t = mutate(draw, s)
    return {'s': s, 't': t, 'k': k, 'xs': probes(draw, s) + [arr(draw, shape(s), 'tiny'), arr(draw, shape(s), 'big')]}


@sub('C23', 'equality', gen_eq, quick=8000, thorough=150000, cost=2)
def equality(case):
    s, t, k = case['s'], case['t'], case['k']
    a, b = build(s), build(t)
    equal(a, build(s), True, '%s built twice' % s['cls'])
    e = a == b
    if e != (b == a) or bool(a != b) == bool(e):
        raise Violation('%s: == and != do not fit together, %s changed\n  %r\n  %r' % (s['cls'], k, a, b))
    if shape(s) != shape(t):
        if e:
            raise Violation('%s: shapes %s and %s compare equal' % (s['cls'], shape(s), shape(t)))
        return 'shape'
    va, vb = values(a, case['xs']), values(b, case['xs'])
    if not close(va, vb, 1e-3):
        if e:
            raise Violation('%s, %s changed: equal, but values %s and %s\n  %r\n  %r' % (s['cls'], k, va, vb, a, b))
        return k
    return None


def gen_same(draw):
    s = spec(draw)
    return {'s': s, 'how': [boolean(draw) for _ in range(6)], 'other': pick(draw, *CLASSES)}


@sub('C23', 'same function, other notation', gen_same, quick=3000, thorough=50000, cost=1)
def notation(case):
    """Absent and zero offsets, centres and linear terms, default and explicit
    weights, integers and floats, lists and arrays are the same parameters."""
    s, how = case['s'], case['how']
    t = cp.deepcopy(s)
    sh = shape(s)
    out = []
    if how[0] and s['offset'] is None:
        t['offset'] = np.zeros(sh)
        out.append('offset')
    if how[1] and s['quad'] is None:
        t['quad'] = [0, None, np.zeros(sh) if how[2] else None, 0]
        out.append('quad')
    elif how[1]:
        for j in (0, 1, 2, 3):
            if t['quad'][j] is None:
                t['quad'][j] = 0 if j in (0, 3) or how[2] else np.zeros(sh)
            elif j in (1, 2) and np.ndim(t['quad'][j]) == 0:
                t['quad'][j] = None
        out.append('quad')
    if how[3] and 'gweights' in s:
        if 'groups' in s:
            t['gweights'] = pen.full_weights(s)
        else:
            t['gweights'] = c07.mixed_weights(s)
        out.append('weights')
    if how[4] and 'par' in s and s['par'] == int(s['par']):
        t['par'] = int(s['par'])
        out.append('par')
    if how[5] and s['offset'] is not None and np.all(s['offset'] == np.round(s['offset'])):
        t['offset'] = s['offset'].astype(int)
        out.append('offset')
    a = build(s)
    equal(a, build(t), True, '%s written differently (%s)' % (s['cls'], out))
    for other in (None, 3, 'x', case['other']):
        if a == other:
            raise Violation('%r equals %r' % (a, other))
    return 'notation' if out else None


# printing -------------------------------------------------------------------

def gen_repr(draw):
    s = spec(draw)
    return {'s': s, 'xs': probes(draw, s, 2)}


def namespace(a):
    ns = {'array': np.array, 'nan': np.nan, 'inf': np.inf}
    for c in type(a).__mro__[::-1]:
        m = sys.modules[c.__module__]
        if c.__module__.startswith('regreg'):
            ns.update(vars(m))
    from regreg.identity_quadratic import identity_quadratic
    from regreg.atoms import seminorms
    ns['identity_quadratic'] = identity_quadratic
    ns[type(a).__name__] = type(a)
    for n in c08.INNER:
        ns.setdefault(n, getattr(seminorms, n))
    ns['array'], ns['nan'], ns['inf'] = np.array, np.nan, np.inf
    return ns


@sub('C23', 'printed form', gen_repr, quick=4000, thorough=60000, cost=2)
def printed(case):
    s = case['s']
    a = build(s)
    with np.printoptions(floatmode='unique', threshold=sys.maxsize):
        r = repr(a)
        try:
            b = eval(r, namespace(a))
        except Exception as e:
            raise Violation('%s: %s cannot be evaluated: %s' % (s['cls'], r, e))
        r2 = repr(b)
    if type(b) is not type(a):
        raise Violation('%s evaluates to %r' % (r, b))
    equal(a, b, True, 'printed form %s' % r)
    va, vb = values(a, case['xs']), values(b, case['xs'])
    if not close(va, vb, 1e-9):
        raise Violation('%s: values %s instead of %s' % (r, vb, va))
    if r != r2:
        raise Violation('printed form changes: %s, then %s' % (r, r2))
    rich = s['offset'] is not None or s['quad'] is not None or ({'weights', 'groups', 'labels', 'basis', 'inner', 'w1'} & set(s))
    return s['fam'] if rich else None


# identity quadratics --------------------------------------------------------

def gen_iq(draw):
    sh = c16.gen_shape(draw)
    q = c16.gen_quad(draw, sh)
    t = [pen._c(v) for v in q]
    j = integer(draw, 0, 3)
    t[j] = pick(draw, positive(draw), 0) if j in (0, 3) else pick(draw, arr(draw, sh), None, np.zeros(sh))
    return {'q': q, 't': t, 'xs': [arr(draw, sh) for _ in range(4)]}


@sub('C23', 'identity quadratics', gen_iq, quick=4000, thorough=60000, cost=1)
def quadratics(case):
    q, t, xs = case['q'], case['t'], case['xs']
    a, b = c16.mk(q), c16.mk(t)
    equal(a, c16.mk(q), True, 'quadratic built twice')
    va, vb = [np.array([c.objective(x, 'func') for x in xs]) for c in (a, b)]
    if not close(va, vb, 1e-3) and (a == b or b == a or not a != b):
        raise Violation('%r equals %r, values %s and %s' % (a, b, va, vb))
    with np.printoptions(floatmode='unique', threshold=sys.maxsize):
        r = repr(a)
        d = eval(r, {'array': np.array, 'identity_quadratic': type(a)})
    equal(a, d, True, 'printed form %s' % r)
    d = cp.copy(a)
    equal(a, d, True, 'copy of %s' % r)
    d.coef = 17.
    d.constant_term = 3.
    for name in ('center', 'linear_term'):
        v = getattr(d, name)
        if isinstance(v, np.ndarray):
            v[...] = 5
        else:
            setattr(d, name, np.ones(xs[0].shape))
    if not close(np.array([a.objective(x, 'func') for x in xs]), va):
        raise Violation('changing a copy changed %r' % a)
    return 'quadratic' if c16.rich(q) else None
