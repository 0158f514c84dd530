"""C19: evaluations are pure."""
import copy as cp
import importlib
import numpy as np

from .core import prop, sub, Violation, Reject, REGISTRY
from .gens import pick, boolean, integer, positive, vec, arr, quad
from . import pen, loss, aff, purity, boot
from . import c09, c12, c15, c17, c18, c23

prop('C19',
     rule='(1) Generated cases of the checks of all other properties are run with every call into regreg monitored: '
          'arrays given to the call or to earlier calls and arrays returned earlier must be bitwise unchanged when '
          'it returns.  (2) Histories of calls with shared arguments on one object of every kind are compared, call '
          'by call, with the same call on a newly built object with its own copies of the arguments, while arrays '
          'the object has returned are overwritten by the caller.  Non-trivial when at least three calls on one '
          'object returned arrays or numbers, or a monitored case is non-trivial for its own property.',
     assumptions=['a warm start is part of what a solver is documented to do: repeated solves are compared to 1e-4',
                  'a result may be (a view of) an argument of its own call, e.g. of an identity transform',
                  'set_weight and arguments named inplace ask for a change'])

OTHERS = ['C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C13', 'C14', 'C15',
          'C16', 'C17', 'C18', 'C23']
SLOW = 60.


def others():
    out = []
    for p in OTHERS:
        importlib.import_module('pbt.' + p.lower())
        out += [(s.prop, s.name) for s in REGISTRY[p] if s.cost <= SLOW]
    return out


_others = []


def lookup(p, name):
    importlib.import_module('pbt.' + p.lower())
    return [s for s in REGISTRY[p] if s.name == name][0]


def gen_monitored(draw):
    if not _others:
        _others.extend(others())
    p, name = pick(draw, *_others)
    return {'p': p, 'name': name, 'case': lookup(p, name).gen(draw)}


@sub('C19', 'arguments', gen_monitored, quick=12000, thorough=250000, cost=12)
def arguments(case):
    """no call into regreg changes an array it was given, or one given or returned earlier"""
    s = lookup(case['p'], case['name'])
    m = purity.Monitor()
    label = None
    shared = purity.state()
    try:
        with m:
            label = s.check(case['case'])
    except boot.HarnessError:
        raise
    except Reject:
        pass
    except Exception:           # judged by the other property
        if m.bad is None:
            purity.changed(shared)
            raise Reject('another property fails')
    if m.bad:
        raise Violation('%s/%s: %s' % (case['p'], case['name'], m.bad))
    bad = purity.changed(shared)
    if bad:
        raise Violation('%s/%s: shared by all objects: %s' % (case['p'], case['name'], bad))
    return '%s/%s' % (case['p'], case['name']) if label and m.calls > 1 else None


# -- histories on one object ------------------------------------------------------------------------

class Pool(object):
    """the arguments, shared by all the calls of a history"""

    def __init__(self, case):
        self.x = [np.array(v) for v in case['xs']]
        self.u = [np.array(v) for v in case['us']]
        self.q = [pen.iq(v) for v in case['qs']]
        self.w = [None if v is None else np.array(v) for v in case['ws']]
        self.case = case


def canon(r, out):
    """a result as a flat list of arrays, numbers and words"""
    if isinstance(r, np.ndarray):
        out.append(np.array(r, float) if r.dtype != bool else r.copy())
    elif isinstance(r, (list, tuple)):
        for v in r:
            canon(v, out)
    elif isinstance(r, dict):
        for k in sorted(r, key=repr):
            out.append(repr(k))
            canon(r[k], out)
    elif isinstance(r, (float, int, np.floating, np.integer, bool, np.bool_)):
        out.append(np.array(float(r)))
    elif isinstance(r, str) or r is None:
        out.append(str(r))
    elif type(r).__name__ == 'identity_quadratic':
        canon([r.coef, r.center, r.linear_term, r.constant_term], out)
    elif hasattr(r, 'toarray'):
        out.append(r.toarray())
    else:
        out.append('a %s' % type(r).__name__)
    return out


def call(f, obj, A, i, j):
    """result of an operation, with refusals turned into words"""
    try:
        with np.errstate(all='ignore'):
            return f(obj, A, i, j)
    except NotImplementedError:
        return 'not implemented'
    except (ValueError, AttributeError, TypeError, ZeroDivisionError, FloatingPointError) as e:
        return 'raises %s: %s' % (type(e).__name__, str(e)[:60])


def compare(what, a, b, tol):
    if len(a) != len(b):
        raise Violation('%s: %s, a new object gives %s' % (what, a, b))
    for u, v in zip(a, b):
        if isinstance(u, str) or isinstance(v, str):
            if isinstance(u, str) != isinstance(v, str) or u != v:
                raise Violation('%s: %s, a new object gives %s' % (what, u, v))
        elif u.shape != v.shape:
            raise Violation('%s: %s, a new object gives %s' % (what, u, v))
        else:
            f = np.isfinite(u) & np.isfinite(v)
            ok = np.where(f, True, (u == v) | (np.isnan(u) & np.isnan(v)))
            if not ok.all() or (f.any() and np.abs(u[f] - v[f]).max() > tol * (1 + np.abs(v[f]).max())):
                raise Violation('%s: %s, a new object gives %s' % (what, u, v))


def few(value):
    """a solve cut short, whose answer is not judged: what counts is what it leaves behind"""
    def f(o, A, i, j):
        try:
            o.solve(A.q[j], max_its=3, return_optimum=value)
        except Exception:
            raise Reject('solve fails')         # judged by C17 and C18
        return 'solved'
    return f


def smooth_ops(own=True):
    ops = {
        'both': lambda o, A, i, j: o.smooth_objective(A.x[i], 'both'),
        'func': lambda o, A, i, j: o.smooth_objective(A.x[i], 'func'),
        'grad': lambda o, A, i, j: o.smooth_objective(A.x[i], 'grad'),
        'nonsmooth': lambda o, A, i, j: o.nonsmooth_objective(A.x[i]),
        'objective': lambda o, A, i, j: o.objective(A.x[i]),
        'step': lambda o, A, i, j: o.proximal(A.q[j]),
        'optimum': lambda o, A, i, j: o.proximal_optimum(A.q[j]),
        'latex': lambda o, A, i, j: o.latexify(),
        'own': lambda o, A, i, j: o.quadratic,
        'solved': few(bool(own)),
    }
    return ops


def loss_ops():
    return dict(smooth_ops(), **{
        'weighted': lambda o, A, i, j: o.smooth_objective(A.x[i], 'both', case_weights=A.w[j]),
        'wfunc': lambda o, A, i, j: o.smooth_objective(A.x[i], 'func', case_weights=A.w[j]),
        'wgrad': lambda o, A, i, j: o.smooth_objective(A.x[i], 'grad', case_weights=A.w[j]),
        'hessian': lambda o, A, i, j: o.hessian(A.x[i]),
        'whessian': lambda o, A, i, j: o.hessian(A.x[i], case_weights=A.w[j]),
        'mean': lambda o, A, i, j: o.mean_function(A.x[i]),
        'hmult': lambda o, A, i, j: o.hessian_mult(A.x[i], A.x[j]),
        'copy': lambda o, A, i, j: cp.copy(o).smooth_objective(A.x[i], 'both'),
        'deepcopy': lambda o, A, i, j: cp.deepcopy(o).smooth_objective(A.x[i], 'both'),
        'sub': lambda o, A, i, j: subsample(o, A, i, j),
    })


def subsample(o, A, i, j):
    n = A.case['n']
    idx = np.arange(n)[j % n:]
    s = o.subsample(idx)
    x = A.x[i]
    return s.smooth_objective(x[idx] if x.shape[0] == n and s.shape != x.shape else x, 'both')


def glm_ops():
    return dict(loss_ops(), **{
        'linear_predictor': lambda o, A, i, j: o.linear_predictor(A.x[i]),
        'gradient': lambda o, A, i, j: o.gradient(A.x[i]),
        'solve': lambda o, A, i, j: o.saturated_loss.smooth_objective(o.linear_predictor(A.x[i]), 'both'),
    })


def _u(o, A, i, *ok):
    """evaluations of a conjugate or dual object"""
    return [o.nonsmooth_objective(A.u[i], check_feasibility=k) for k in (False, True)]


ATOM = {
    'value': lambda o, A, i, j: o.nonsmooth_objective(A.x[i], check_feasibility=bool(j)),
    'objective': lambda o, A, i, j: o.objective(A.x[i]),
    'seminorm': lambda o, A, i, j: o.seminorm(A.x[i], lagrange=1.5 if j else None),
    'feasible': lambda o, A, i, j: o.seminorm(A.x[i], lagrange=1., check_feasibility=True),
    'constraint': lambda o, A, i, j: o.constraint(A.x[i]),
    'bconstraint': lambda o, A, i, j: o.constraint(A.x[i], bound=1.5),
    'prox': lambda o, A, i, j: o.proximal(A.q[j]),
    'prox2': lambda o, A, i, j: o.proximal(A.q[i % len(A.q)]),
    'optimum': lambda o, A, i, j: o.proximal_optimum(A.q[j]),
    'step': lambda o, A, i, j: o.proximal_step(A.q[j]),
    'lprox': lambda o, A, i, j: o.lagrange_prox(A.x[i], lipschitz=(1., 2.)[j], lagrange=0.7),
    'bprox': lambda o, A, i, j: o.bound_prox(A.x[i], bound=0.7),
    'cone': lambda o, A, i, j: o.cone_prox(A.x[i]),
    'terms': lambda o, A, i, j: o.terms(A.x[i]),
    'conjugate': lambda o, A, i, j: _u(o.conjugate, A, i),
    'conjugate prox': lambda o, A, i, j: o.conjugate.proximal(A.q[j]),
    'conjugate twice': lambda o, A, i, j: o.conjugate.conjugate.nonsmooth_objective(A.x[i]),
    'conjugate smooth': lambda o, A, i, j: o.conjugate.smooth_objective(A.u[i], 'both'),
    'smoothed': lambda o, A, i, j: o.smoothed(A.q[j]).smooth_objective(A.x[i], 'both'),
    'dual': lambda o, A, i, j: [o.dual[1].nonsmooth_objective(A.u[i]), o.dual[0].linear_map(A.x[i])],
    'solve': lambda o, A, i, j: o.solve(A.q[j]),
    'solve value': lambda o, A, i, j: o.solve(A.q[j], return_optimum=True),
    'latex': lambda o, A, i, j: o.latexify(),
    'repr': lambda o, A, i, j: repr(o),
    'copy': lambda o, A, i, j: cp.copy(o).nonsmooth_objective(A.x[i]),
    'shifted': lambda o, A, i, j: o.apply_offset(A.x[i]),
    'equal': lambda o, A, i, j: o == cp.copy(o),
    'own': lambda o, A, i, j: o.quadratic,
    'affine': lambda o, A, i, j: type(o).__name__,
}

AFFINE_ATOM = {
    'value': lambda o, A, i, j: o.nonsmooth_objective(A.x[i], check_feasibility=bool(j)),
    'smoothed': lambda o, A, i, j: o.smoothed(A.q[j]).smooth_objective(A.x[i], ('both', 'grad')[i % 2]),
    'dual': lambda o, A, i, j: _dual(o, A, i),
    'latex': lambda o, A, i, j: o.latexify(),
    'map': lambda o, A, i, j: o.affine_transform.affine_map(A.x[i]),
}


def _dual(o, A, i):
    t, d = o.dual
    return [t.linear_map(A.x[i]), d.nonsmooth_objective(t.linear_map(A.x[i]))]


def wrap(f):
    def g(o, A, i, j):
        from regreg import affine as F
        return f(F, o, A, i, j)
    return g


TRANSFORM = {
    'linear': lambda o, A, i, j: o.linear_map(A.x[i]),
    'affine': lambda o, A, i, j: o.affine_map(A.x[i]),
    'adjoint': lambda o, A, i, j: o.adjoint_map(A.u[i]),
    'offset': lambda o, A, i, j: o.affine_offset if np.ndim(o.affine_offset) == 0 else np.array(o.affine_offset),
    'aslinear': wrap(lambda F, o, A, i, j: F.aslinear(o).linear_map(A.x[i])),
    'T': wrap(lambda F, o, A, i, j: F.adjoint(o).linear_map(A.u[i])),
    'TT': wrap(lambda F, o, A, i, j: F.adjoint(F.adjoint(o)).linear_map(A.x[i])),
    'twice': wrap(lambda F, o, A, i, j: F.vstack([o, o]).affine_map(A.x[i])),
    'scaled': wrap(lambda F, o, A, i, j: F.scalar_multiply(o, -2.).affine_map(A.x[i])),
    'sum': wrap(lambda F, o, A, i, j: F.affine_sum([o, o], [1., -0.5]).adjoint_map(A.u[i])),
    'compose': wrap(lambda F, o, A, i, j: F.composition(F.adjoint(o), o).affine_map(A.x[i])),
    'dense': wrap(lambda F, o, A, i, j: F.todense(o)),
    'power': wrap(lambda F, o, A, i, j: 'x' if F.power_L(o) >= 0 else 'y'),
}

PROBLEM = {
    'solve': lambda o, A, i, j: _solve(o),
    'solve value': lambda o, A, i, j: _solve(o, return_optimum=True)[1],
    'solve quad': lambda o, A, i, j: _solve(o, quadratic=A.q[j]),
    'smooth': lambda o, A, i, j: o.smooth_objective(A.x[i], 'both'),
    'nonsmooth': lambda o, A, i, j: o.nonsmooth_objective(A.x[i], check_feasibility=bool(j)),
    'objective': lambda o, A, i, j: o.objective(A.x[i]),
    'prox': lambda o, A, i, j: o.proximal(A.q[j]),
    'own': lambda o, A, i, j: o.quadratic,
}
# (a container's prox and solve are iterative and warm started: C18 judges them, `arguments` monitors them)
CONTAINER = {k: PROBLEM[k] for k in ['smooth', 'nonsmooth', 'objective', 'own']}


CONTAINER['solved'] = CONTAINER['solved too'] = few(False)
CONTAINER['solved value'] = few(True)
ITS = [1500]
LOOSE = {'solve', 'solve value', 'solve quad'}


def _solve(o, **kw):
    return o.solve(tol=1e-14, min_its=60, max_its=ITS[0], **kw)


def args_of(draw, sh, osh):
    return {'xs': [arr(draw, sh), arr(draw, sh), arr(draw, sh, 'grid')], 'us': [arr(draw, osh) for _ in range(3)]}


def gen_quads(draw, sh):
    out = [quad(draw, sh, 'positive') for _ in range(2)]
    for q in out:
        if not isinstance(q[1], np.ndarray) and not isinstance(q[2], np.ndarray):
            q[1] = arr(draw, sh)
    return out


WORLDS = ['atom', 'atom', 'affine_atom', 'loss', 'glm', 'mglm', 'expr', 'transform', 'shaped', 'problem', 'container']


def gen_history(draw, only=None):
    w = only or pick(draw, *WORLDS)
    c = {'w': w, 'n': 1, 'ws': [None, None]}
    if w == 'atom':
        s = c23.spec(draw)
        sh = c23.shape(s)
        c.update(s=s, **args_of(draw, sh, sh))
        c['xs'][1] = np.zeros(sh) if s['offset'] is None else s['offset'] * 1.
    elif w == 'affine_atom':
        p = integer(draw, 1, 4)
        s = c18.gen_term(draw, p, kinds=['dense', 'csr', 'selector', 'diag'])
        sh = (p,)
        c.update(s=s, p=p, x=vec(draw, p), **args_of(draw, sh, (s['m'],)))
        c['qs'] = gen_quads(draw, (s['m'],))
    elif w == 'loss':
        s = loss.spec(draw, kinds=loss.SCALAR * 2 + ['cox', 'cox', 'stacked'] + loss.MATRIX)
        sh = tuple(s['shape'])
        c.update(s=s, n=s['n'], ws=[loss.case_weights(draw, s['n']) for _ in range(2)], **args_of(draw, sh, sh))
    elif w == 'glm':
        s = c12.gen_glm(draw)
        sh = (s['d']['X'].shape[1],)
        n = s['s']['n']
        c.update(s=s, n=n, ws=[loss.case_weights(draw, n) for _ in range(2)], **args_of(draw, sh, sh))
    elif w == 'mglm':
        s = c12.gen_mglm(draw)
        sh = (s['d']['X'].shape[1], s['s']['shape'][1])
        n = s['s']['n']
        if s['ctor']:
            s['s']['quad'] = s['s']['cw'] = None
        c.update(s=s, n=n, ws=[loss.case_weights(draw, n) for _ in range(2)], **args_of(draw, sh, sh))
    elif w == 'expr':
        n = integer(draw, 1, 5)
        s = c15.gen_expr(draw, n, integer(draw, 1, 3))
        sh = (n,)
        c.update(s=s, n=n, **args_of(draw, sh, sh))
    elif w == 'transform':
        n = integer(draw, 1, 5)
        s = aff.tree(draw, integer(draw, 0, 2), n)
        sh = (n,)
        c.update(s=s, **args_of(draw, sh, (s['m'],)))
    elif w == 'shaped':
        g = c09.g_shaped(draw)
        s = g['s']
        sh = tuple(s['i'])
        c.update(s=s, **args_of(draw, sh, tuple(s['o'])))
    elif w == 'problem':
        f = c17.gen_smooth(draw, True)
        s = {'f': f, 'pen': c17.gen_pen(draw, f['p'], True), 'own': quad(draw, f['p'])}
        s['own'][0] = max(s['own'][0], 0.3)
        sh = (f['p'],)
        c.update(s=s, **args_of(draw, sh, sh))
    else:
        f = c17.gen_smooth(draw, True)
        p = f['p']
        s = {'f': f, 'ts': [c18.gen_term(draw, p) for _ in range(pick(draw, 1, 2, 2))], 'own': quad(draw, p)}
        s['own'][0] = max(s['own'][0], 0.3)
        sh = (p,)
        c.update(s=s, x=vec(draw, p), **args_of(draw, sh, sh))
    if 'qs' not in c:
        c['qs'] = gen_quads(draw, sh)
    names = sorted(ops_of(w))
    n = integer(draw, 2, {'problem': 5}.get(w, 12))
    c['ops'] = [[pick(draw, *names), integer(draw, 0, 2), integer(draw, 0, 1)] for _ in range(n)]
    if boolean(draw, 1, 2):          # the same call again, at the end
        c['ops'].append(list(c['ops'][0]))
    # the caller changes an argument in place before some of the calls
    for o in c['ops'] if boolean(draw) else []:
        o.append(boolean(draw))
    c['poke'] = boolean(draw)
    return c


def ops_of(w):
    return {'atom': ATOM, 'affine_atom': AFFINE_ATOM, 'loss': loss_ops(), 'glm': glm_ops(), 'mglm': glm_ops(),
            'expr': smooth_ops(), 'transform': TRANSFORM, 'shaped': TRANSFORM, 'problem': PROBLEM,
            'container': CONTAINER}[w]


def make(c):
    import regreg.api as rr
    w, s = c['w'], c['s']
    if w == 'atom':
        return c23.build(s)
    if w == 'affine_atom':
        return c18.build_term(s, c['x'], c['p'])[0] if s['kind'] != 'plain' else c18.atom_of(s)
    if w == 'loss':
        return loss.build(s)
    if w == 'glm':
        return c12.build_glm(s)
    if w == 'mglm':
        return c12.build_mglm(s)
    if w == 'expr':
        return c15.build(s, [])
    if w == 'transform':
        return aff.build(s, raw=False)
    if w == 'shaped':
        return c09.shaped(s)
    if w == 'problem':
        o = rr.simple_problem(c17.build_smooth(s['f']), c17.build_pen(s['pen']))
    else:
        o = rr.container(c17.build_smooth(s['f']), *[c18.build_term(t, c['x'], s['f']['p'])[0] for t in s['ts']])
    o.quadratic = pen.iq(s['own'])
    return o


def domain(c):
    """leave out evaluations far outside (clipped or overflowing)"""
    w, s = c['w'], c['s']
    if w == 'loss':
        return [loss.limit(s, x) for x in c['xs']]
    if w == 'glm':
        return [c12.safe_beta(s, x) for x in c['xs']]
    return c['xs']


def run_history(c):
    c = dict(c, xs=domain(c))
    ops = ops_of(c['w'])
    m = purity.Monitor()
    done = 0
    shared = purity.state()
    ITS[:] = [1500 if c['w'] == 'problem' else 150]
    with m:
        obj, A = make(c), Pool(c)
        for k, i, j, *move in c['ops']:
            if move and move[0]:
                A.x[i] *= 0.5
                A.u[i] *= 0.5
                c['xs'], c['us'] = ([np.array(v) for v in z] for z in (A.x, A.u))
            r = call(ops[k], obj, A, i, j)
            if m.bad:
                raise Violation('%s: %s' % (c['w'], m.bad))
            got = canon(r, [])
            F = Pool(c)
            want = canon(call(ops[k], make(c), F, i, j), [])
            what = '%s, %s%s' % (c['w'], k, ' (again)' if done else '')
            if k in LOOSE:
                solves(what, k, c, got, want, obj, ops[k], A, i, j)
            else:
                compare(what, got, want, 1e-9)
            done += any(not isinstance(v, str) for v in got)
            if c['poke'] and k != 'own':
                poke(r, A, m)
    bad = purity.changed(shared)
    if bad:
        raise Violation('%s: shared by all objects: %s' % (c['w'], bad))
    return '%s%s' % (c['w'], ', results overwritten' if c['poke'] else '') if done >= 3 else None


def solves(what, k, c, got, want, obj, f, A, i, j):
    """iterative answers, as far as they have converged"""
    its0 = ITS[0]
    try:
        compare(what, got, want, 1e-3)
        return
    except Violation:
        pass
    for its in ((6000, 40000) if c['w'] == 'problem' else (800,)):
        ITS[:] = [its]
        try:
            more = canon(call(f, make(c), Pool(c), i, j), [])
            got = canon(call(f, obj, A, i, j), [])
        finally:
            ITS[:] = [its0]
        try:
            compare(what, more, want, 1e-3)
        except Violation:
            want = more
            continue
        compare(what, got, more, 1e-2)
        return
    raise Reject('slow convergence')


def poke(r, A, m):
    """the caller overwrites the arrays it was given"""
    held = A.x + A.u + [w for w in A.w if w is not None] + purity.arrays(A.q, [])
    for a in purity.arrays(r, []):
        if a.flags.writeable and a.dtype == float and not any(np.shares_memory(a, h) for h in held):
            a += 1.25


@sub('C19', 'history', gen_history, quick=9000, thorough=200000, cost=14)
def history(case):
    """every call gives what a new object gives; nothing handed over or returned changes"""
    return run_history(case)
