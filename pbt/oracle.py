"""
Reference gauges, written from the mathematical definitions and independent of
regreg: each has

    h(x)      extended-real value of the (semi)norm / gauge with parameter 1
    polar(u)  sup{ <u,x> : h(x) <= 1 }  (possibly inf)
    le(u, r, tol)   whether polar(u) <= r up to tol, robustly

and `certificate`, which decides whether z minimises
   c/2 |z - v|^2 + (penalty at z)
through the (necessary and sufficient) Fenchel conditions
   u = c (v - z),  polar(u) <= lagrange,  <u, z> = lagrange h(z)      (Lagrange)
   u = c (v - z),  h(z) <= bound,         <u, z> = bound polar(u)     (bound).
"""
import numpy as np

INF = np.inf


class Gauge(object):
    signed = False        # True when h is finite only on a cone

    def h(self, x):
        raise NotImplementedError

    def polar(self, u):
        raise NotImplementedError

    def feas(self, x, tol):
        """x is in dom h up to tol"""
        return True

    def clean(self, x, tol):
        """closest point of dom h for points within tol of it"""
        return x

    def polar_feas(self, u, tol):
        return True

    def polar_clean(self, u, tol):
        return u


class L1(Gauge):
    def h(self, x): return np.abs(x).sum()
    def polar(self, u): return np.abs(u).max()


class Sup(Gauge):
    def h(self, x): return np.abs(x).max()
    def polar(self, u): return np.abs(u).sum()


class L2(Gauge):
    def h(self, x): return np.sqrt((np.asarray(x) ** 2).sum())
    def polar(self, u): return self.h(u)


class PositivePart(Gauge):
    def h(self, x): return np.maximum(x, 0).sum()
    def polar(self, u): return np.max(u) if np.min(u) >= 0 else INF
    def polar_feas(self, u, tol): return np.min(u) >= -tol
    def polar_clean(self, u, tol): return np.maximum(u, 0)


class ConstrainedMax(Gauge):
    def h(self, x): return np.max(x) if np.min(x) >= 0 else INF
    def polar(self, u): return np.maximum(u, 0).sum()
    def feas(self, x, tol): return np.min(x) >= -tol
    def clean(self, x, tol): return np.maximum(x, 0)


class ConstrainedPositivePart(Gauge):
    def h(self, x): return np.sum(x) if np.min(x) >= 0 else INF
    def polar(self, u): return max(0., np.max(u))
    def feas(self, x, tol): return np.min(x) >= -tol
    def clean(self, x, tol): return np.maximum(x, 0)


class MaxPositivePart(Gauge):
    def h(self, x): return max(0., np.max(x))
    def polar(self, u): return np.sum(u) if np.min(u) >= 0 else INF
    def polar_feas(self, u, tol): return np.min(u) >= -tol
    def polar_clean(self, u, tol): return np.maximum(u, 0)


class WeightedL1(Gauge):
    """sum w|x|, w in [0, inf]; infinite weight pins the coordinate at 0."""
    def __init__(self, w): self.w = np.asarray(w, float)

    def h(self, x):
        x = np.abs(np.asarray(x, float))
        fin = np.isfinite(self.w)
        if np.any(x[~fin] > 0):
            return INF
        return (self.w[fin] * x[fin]).sum()

    def polar(self, u):
        u = np.abs(np.asarray(u, float))
        z = self.w == 0
        if np.any(u[z] > 0):
            return INF
        k = (~z) & np.isfinite(self.w)
        return (u[k] / self.w[k]).max() if k.any() else 0.

    def feas(self, x, tol): return np.all(np.abs(np.asarray(x))[~np.isfinite(self.w)] <= tol)
    def clean(self, x, tol): return np.where(np.isfinite(self.w), x, 0)
    def polar_feas(self, u, tol): return np.all(np.abs(np.asarray(u))[self.w == 0] <= tol)
    def polar_clean(self, u, tol): return np.where(self.w == 0, 0, u)


class WeightedSup(Gauge):
    """max w|x|"""
    def __init__(self, w):
        self.w = np.asarray(w, float)
        with np.errstate(all='ignore'):
            self.d = WeightedL1(1. / self.w)

    def h(self, x):
        x = np.abs(np.asarray(x, float))
        fin = np.isfinite(self.w)
        if np.any(x[~fin] > 0):
            return INF
        return (self.w[fin] * x[fin]).max() if fin.any() else 0.

    def polar(self, u): return self.d.h(u)
    def feas(self, x, tol): return self.d.polar_feas(x, tol)
    def clean(self, x, tol): return self.d.polar_clean(x, tol)
    def polar_feas(self, u, tol): return self.d.feas(u, tol)
    def polar_clean(self, u, tol): return self.d.clean(u, tol)


class Slope(Gauge):
    def __init__(self, w): self.w = np.sort(np.asarray(w, float))[::-1]
    def h(self, x): return (self.w * np.sort(np.abs(x))[::-1]).sum()

    def polar(self, u):
        a = np.cumsum(np.sort(np.abs(u))[::-1])
        b = np.cumsum(self.w)
        with np.errstate(all='ignore'):
            r = np.where(a == 0, 0., a / b)
        return r.max()


class SlopeDual(Gauge):
    def __init__(self, w): self.p = Slope(w)
    def h(self, x): return self.p.polar(x)
    def polar(self, u): return self.p.h(u)


class Group(Gauge):
    """sum_g w_g |x_g|_2"""
    def __init__(self, groups, weights):
        self.groups = np.asarray(groups)
        self.w = weights
        self.ids = sorted(set(self.groups.tolist()))

    def parts(self, x):
        x = np.asarray(x, float)
        return [(self.w[g], x[self.groups == g]) for g in self.ids]

    def h(self, x): return sum(w * np.linalg.norm(b) for w, b in self.parts(x))

    def polar(self, u):
        out = 0.
        for w, b in self.parts(u):
            n = np.linalg.norm(b)
            if w == 0:
                if n > 0:
                    return INF
            else:
                out = max(out, n / w)
        return out

    def polar_feas(self, u, tol):
        return all(np.linalg.norm(b) <= tol for w, b in self.parts(u) if w == 0)

    def polar_clean(self, u, tol):
        u = np.array(u, float)
        for g in self.ids:
            if self.w[g] == 0:
                u[self.groups == g] = 0
        return u


class GroupDual(Gauge):
    """max_g |x_g|_2 / w_g"""
    def __init__(self, groups, weights): self.p = Group(groups, weights)
    def h(self, x): return self.p.polar(x)
    def polar(self, u): return self.p.h(u)
    def feas(self, x, tol): return self.p.polar_feas(x, tol)
    def clean(self, x, tol): return self.p.polar_clean(x, tol)


def _bisect(f, lo, hi, it=200):
    for _ in range(it):
        mid = 0.5 * (lo + hi)
        if f(mid):
            hi = mid
        else:
            lo = mid
        if hi - lo <= 1e-15 * max(1., hi):
            break
    return hi


class SparseGroup(Gauge):
    """sum_g w_g |x_g|_2 + sum_i a_i |x_i|"""
    def __init__(self, groups, weights, l1w):
        self.g = Group(groups, weights)
        self.a = np.asarray(l1w, float)

    def h(self, x):
        return self.g.h(x) + (self.a * np.abs(x)).sum()

    def _inside(self, u, t):
        r = np.maximum(np.abs(u) - t * self.a, 0)
        return all(np.linalg.norm(b) <= t * w * (1 + 1e-13) for w, b in self.g.parts(r))

    def polar(self, u):
        u = np.asarray(u, float)
        if not np.any(u):
            return 0.
        hi = 1.
        while not self._inside(u, hi):
            hi *= 2
            if hi > 1e15:
                return INF
        return _bisect(lambda t: self._inside(u, t), 0., hi)

    def _free(self):
        wt = np.array([self.g.w[k] for k in self.g.groups.tolist()], float)
        return (wt == 0) & (self.a == 0)

    def polar_feas(self, u, tol):
        return np.all(np.abs(np.asarray(u))[self._free()] <= tol)

    def polar_clean(self, u, tol):
        return np.where(self._free(), 0, u)


class SparseGroupDual(Gauge):
    def __init__(self, *a): self.p = SparseGroup(*a)
    def h(self, x): return self.p.polar(x)
    def polar(self, u): return self.p.h(u)
    def feas(self, x, tol): return self.p.polar_feas(x, tol)
    def clean(self, x, tol): return self.p.polar_clean(x, tol)


class Mixed(Gauge):
    """blocks: |x_i| (l1), 0 (free), x_i on x_i >= 0 (pp), indicator of x_i >= 0 (nn)
    and w_g |x_g|_2; labels: -2, -1, -3, -4 and non-negative group labels"""
    def __init__(self, labels, weights):
        self.lab = np.asarray(labels)
        self.l1, self.un, self.pp, self.nn = [self.lab == k for k in (-2, -1, -3, -4)]
        self.ids = sorted(set(self.lab[self.lab >= 0].tolist()))
        self.w = weights

    def h(self, x):
        x = np.asarray(x, float)
        if np.any(x[self.pp | self.nn] < 0):
            return INF
        return (np.abs(x[self.l1]).sum() + x[self.pp].sum()
                + sum(self.w[g] * np.linalg.norm(x[self.lab == g]) for g in self.ids))

    def polar(self, u):
        u = np.asarray(u, float)
        if np.any(u[self.un] != 0) or np.any(u[self.nn] > 0):
            return INF
        out = max([0.] + np.abs(u[self.l1]).tolist() + u[self.pp].tolist())
        for g in self.ids:
            n = np.linalg.norm(u[self.lab == g])
            if self.w[g] > 0:
                out = max(out, n / self.w[g])
            elif n > 0:
                return INF
        return out

    def _zero(self):
        return self.un | np.array([k >= 0 and self.w[k] == 0 for k in self.lab.tolist()], bool)

    def feas(self, x, tol): return np.all(np.asarray(x)[self.pp | self.nn] >= -tol)
    def clean(self, x, tol): return np.where(self.pp | self.nn, np.maximum(x, 0), x)
    def polar_feas(self, u, tol):
        u = np.asarray(u)
        return np.all(np.abs(u[self._zero()]) <= tol) and np.all(u[self.nn] <= tol)
    def polar_clean(self, u, tol):
        return np.where(self._zero(), 0, np.where(self.nn, np.minimum(u, 0), u))


class Polar(Gauge):
    """the polar gauge of a gauge"""
    def __init__(self, p): self.p = p
    def h(self, x): return self.p.polar(x)
    def polar(self, u): return self.p.h(u)
    def feas(self, x, tol): return self.p.polar_feas(x, tol)
    def clean(self, x, tol): return self.p.polar_clean(x, tol)
    def polar_feas(self, u, tol): return self.p.feas(u, tol)
    def polar_clean(self, u, tol): return self.p.clean(u, tol)


class Nuclear(Gauge):
    def h(self, x): return np.linalg.svd(x, compute_uv=False).sum()
    def polar(self, u): return np.linalg.svd(u, compute_uv=False).max()


class Operator(Gauge):
    def h(self, x): return np.linalg.svd(x, compute_uv=False).max()
    def polar(self, u): return np.linalg.svd(u, compute_uv=False).sum()


class Block(Gauge):
    """outer norm of the row norms"""
    def __init__(self, inner, outer):
        self.i, self.o = inner, outer

    def h(self, x): return self.o.h(np.array([self.i.h(r) for r in x]))
    def polar(self, u): return self.o.polar(np.array([self.i.polar(r) for r in u]))
    def feas(self, x, tol): return all(self.i.feas(r, tol) for r in x)
    def clean(self, x, tol): return np.array([self.i.clean(r, tol) for r in x], float)
    def polar_feas(self, u, tol): return all(self.i.polar_feas(r, tol) for r in u)
    def polar_clean(self, u, tol): return np.array([self.i.polar_clean(r, tol) for r in u], float)


class Flat(Gauge):
    """a vector gauge applied to the entries of a matrix"""
    def __init__(self, g): self.g = g
    def h(self, x): return self.g.h(np.ravel(x))
    def polar(self, u): return self.g.polar(np.ravel(u))
    def feas(self, x, tol): return self.g.feas(np.ravel(x), tol)
    def clean(self, x, tol): return np.reshape(self.g.clean(np.ravel(x), tol), np.shape(x))
    def polar_feas(self, u, tol): return self.g.polar_feas(np.ravel(u), tol)
    def polar_clean(self, u, tol): return np.reshape(self.g.polar_clean(np.ravel(u), tol), np.shape(u))


def certificate(gauge, z, v, c, lagrange=None, bound=None, rtol=1e-8):
    """None when z solves the prox problem, else a description."""
    z = np.asarray(z, float)
    v = np.asarray(v, float)
    if z.shape != v.shape:
        return 'shape %s instead of %s' % (z.shape, v.shape)
    if not np.all(np.isfinite(z)):
        return 'non-finite solution %s' % z
    u = c * (v - z)
    sx = 1. + np.abs(v).max() + np.abs(z).max()      # scale of the point
    su = c * sx                                      # scale of the subgradient
    n = z.size
    if not gauge.feas(z, rtol * sx):
        return 'solution %s outside the domain of the penalty' % z
    zc = gauge.clean(z, rtol * sx)
    hz = gauge.h(zc)
    uc_ok = gauge.polar_feas(u, rtol * su)
    uc = gauge.polar_clean(u, rtol * su)
    if lagrange is not None:
        if not uc_ok:
            return 'subgradient %s is not in the polar of the penalty' % u
        pu = gauge.polar(uc)
        # scale of the polar value: polar is homogeneous, so perturb by rtol*su
        tolp = rtol * (lagrange + pu) + rtol * su * _unit(gauge.polar, uc)
        if not pu <= lagrange + tolp:
            return 'dual infeasible: polar(c(v-z)) = %.10g > lagrange = %.10g' % (pu, lagrange)
        gap = lagrange * hz - (uc * zc).sum()
        if not abs(gap) <= rtol * (n * su * sx + lagrange * (hz + sx * _unit(gauge.h, zc))):
            return 'not optimal: lagrange*h(z) - <u,z> = %.10g' % gap
        return None
    tolh = rtol * (bound + hz) + rtol * sx * _unit(gauge.h, zc)
    if not hz <= bound + tolh:
        return 'infeasible: h(z) = %.10g > bound = %.10g' % (hz, bound)
    if not uc_ok:
        return 'displacement %s is not in the polar of the constraint' % u
    pu = gauge.polar(uc)
    gap = bound * pu - (uc * zc).sum()
    if not abs(gap) <= rtol * (n * su * sx + bound * (pu + su * _unit(gauge.polar, uc))):
        return 'not a projection: bound*polar(u) - <u,z> = %.10g' % gap
    return None


def _unit(f, x):
    """a Lipschitz-like scale of the homogeneous function f on its domain"""
    x = np.asarray(x, float)
    out = 1.
    for s in (np.ones(x.shape), -np.ones(x.shape), np.sign(x)):
        try:
            val = f(s)
        except Exception:
            continue
        if np.isfinite(val):
            out = max(out, val)
    for val in (f(x),):
        m = np.abs(x).max()
        if m > 0 and np.isfinite(val):
            out = max(out, val / m)
    return out
