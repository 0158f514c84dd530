"""Reference optimisation: a plain accelerated proximal gradient method with
restarts, used to look for a point better than the one a solver returned."""
import numpy as np

from .core import Violation


def minimise(smooth, prox, h, x0s, its=1500, L0=1.):
    """the best point found from the starting points.

    smooth(x) -> value, gradient; prox(v, c) -> argmin c/2 |z - v|^2 + h(z); h(x) -> value"""
    best, bx = np.inf, None
    for x0 in x0s:
        x, F = _run(smooth, prox, h, np.array(x0, float), its, L0)
        if bx is None or F < best:
            best, bx = F, x
    return bx, best


def _run(smooth, prox, h, x0, its, L):
    f0, g0 = smooth(x0)
    x = prox(x0 - g0 / L, L) if not np.isfinite(h(x0)) else x0
    Fx = smooth(x)[0] + h(x)
    y, t, small = x, 1., 0
    for k in range(its):
        fy, gy = smooth(y)
        for _ in range(80):
            z = prox(y - gy / L, L)
            d = z - y
            fz = smooth(z)[0]
            if np.isfinite(fz) and fz <= fy + (gy * d).sum() + L / 2 * (d ** 2).sum() + 1e-13 * (1 + abs(fy)):
                break
            L *= 2
        else:
            break
        Fz = fz + h(z)
        if Fz > Fx + 1e-15 * (1 + abs(Fx)) and t > 1:
            y, t = x, 1.
            continue
        step = np.abs(z - x).max()
        t2 = (1 + np.sqrt(1 + 4 * t * t)) / 2
        restart = ((y - z) * (z - x)).sum() > 0
        y = z if restart else z + (t - 1) / t2 * (z - x)
        t = 1. if restart else t2
        if Fz <= Fx:
            x, Fx = z, Fz
        small = small + 1 if step <= 1e-12 * (1 + np.abs(x).max()) else 0
        if small > 3:
            break
        L *= 0.97
    return x, Fx


def compare(what, F, Fref, tol, extra=''):
    """raise when a better point than the solver's is known"""
    if not F <= Fref + tol:
        raise Violation('%s: objective %.12g at the solution, but %.12g elsewhere %s' % (what, F, Fref, extra))
