"""Shared generators.  Everything returned is plain data (see core.py)."""
import numpy as np
from hypothesis import strategies as st

_grid = st.integers(-6, 6).map(lambda k: k / 2.)
_cont = st.integers(-10 ** 6, 10 ** 6).map(lambda k: k / 2.e5)
_sparse = st.one_of(st.just(0.), st.just(0.), _cont)
_kinds = st.sampled_from(['grid', 'cont', 'cont', 'sparse', 'const', 'tiny', 'big', 'cancel'])


def pick(draw, *options):
    return draw(st.sampled_from(list(options)))


def boolean(draw, num=1, den=2):
    """True with probability about num/den; shrinks to False."""
    return draw(st.integers(0, den - 1)) >= den - num


def integer(draw, lo, hi):
    return draw(st.integers(lo, hi))


def real(draw, lo, hi, steps=4000):
    return lo + (hi - lo) * draw(st.integers(0, steps)) / float(steps)


def positive(draw, lo=0.05, hi=5.):
    """A positive number; simple values are over-represented."""
    if boolean(draw, 1, 3):
        return float(pick(draw, 1., 0.5, 2., 0.25, 3.))
    return float(np.exp(real(draw, np.log(lo), np.log(hi))))


def seed(draw):
    return draw(st.integers(0, 2 ** 32 - 1))


def vec(draw, n, kind=None):
    kind = kind or draw(_kinds)
    n = int(n)
    if kind == 'grid':
        return np.array(draw(st.lists(_grid, min_size=n, max_size=n)), float)
    if kind == 'cancel':                # entries which sum to zero, exactly
        x = np.array(draw(st.lists(_grid, min_size=n, max_size=n)), float)
        if n > 1:
            x[-1] = -x[:-1].sum()
        return x
    if kind == 'sparse':
        return np.array(draw(st.lists(_sparse, min_size=n, max_size=n)), float)
    if kind == 'const':
        return np.ones(n) * draw(_grid)
    x = np.array(draw(st.lists(_cont, min_size=n, max_size=n)), float)
    if kind == 'tiny':
        return x * 1e-3
    if kind == 'big':
        return x * 100.
    return x


def arr(draw, shape, kind=None):
    return vec(draw, int(np.prod(shape)), kind).reshape(shape)


def normal(draw, shape, scale=1.):
    """Gaussian array from a drawn seed (cheap for larger arrays)."""
    return np.random.RandomState(seed(draw)).standard_normal(shape) * scale


def design(draw, n, p, rich=True):
    """A design matrix: Gaussian, integer valued, correlated, with repeated or
    zero columns."""
    X = normal(draw, (n, p))
    if rich:
        k = pick(draw, 'plain', 'plain', 'corr', 'int', 'dup', 'zero', 'scaled')
        if k == 'corr':
            X = X + 2 * X[:, :1]
        elif k == 'int':
            X = np.round(2 * X)
        elif k == 'dup' and p > 1:
            X[:, -1] = X[:, 0]
        elif k == 'zero':
            X[:, integer(draw, 0, p - 1)] = 0
        elif k == 'scaled':
            X = X * np.exp(np.linspace(-1, 1, p))
    return X


def quad(draw, shape, coef='positive', plain=False):
    """Arguments of an identity_quadratic: coef, center, linear, constant."""
    c = positive(draw) if coef == 'positive' else (
        0. if coef == 'zero' else pick(draw, 0., 0., positive(draw)))
    full = lambda: arr(draw, shape)
    center = full() if boolean(draw, 3, 4) else pick(draw, 0, None)
    linear = full() if boolean(draw, 1, 2) else pick(draw, 0, None)
    const = pick(draw, 0, 0, None, 1.5)
    if plain:
        linear, const = 0, 0
        if center is None:
            center = 0
    return [c, center, linear, const]


def partition(draw, n, max_groups=4, kind=None):
    """Integer group labels for n items (not necessarily contiguous/sorted)."""
    kind = kind or pick(draw, 'any', 'any', 'contig', 'single')
    if kind == 'single':
        return [0] * n
    labels = [integer(draw, 0, max_groups - 1) for _ in range(n)]
    if kind == 'contig':
        labels = sorted(labels)
    return labels
