"""Reference models (numpy), written from the property statements."""
import numpy as np

EPS = np.finfo(float).eps
TINY = 1e-300


def adv_init(n):
    f = np.zeros(n)
    f[(0,) * len(n)] = 1.0
    return f


def adv_coeffs(n, v, L, dt):
    """(shift, coefficient) per axis: the value the flow brings in."""
    res = []
    for j in range(len(n)):
        dx = L[j] / n[j]
        c = dt * abs(v[j]) / dx
        res.append((1 if v[j] >= 0 else -1, c))
    return res


def adv_step(f, e, co):
    """One upwind step; e is the bound of the rounding error of each cell."""
    new = f.copy()
    en = np.zeros_like(f)
    tot = 0.0
    inj = np.abs(f)
    for ax, (sh, c) in enumerate(co):
        up = np.roll(f, sh, axis=ax)
        new -= c * (f - up)
        en += c * np.roll(e, sh, axis=ax)
        inj += c * (np.abs(f) + np.abs(up))
        tot += c
    en += abs(1.0 - tot) * e + 16 * EPS * (1 + len(co)) * inj
    return new, en


class Adv:
    def __init__(self, n, v, L):
        self.n, self.v, self.L = tuple(n), v, L
        self.f = adv_init(self.n)
        self.e = np.zeros(self.n)
        self.steps = 0

    def advect(self, k, dt):
        co = adv_coeffs(self.n, self.v, self.L, dt)
        for _ in range(k):
            self.f, self.e = adv_step(self.f, self.e, co)
        self.steps += k

    def mismatch(self, g):
        """None, or a description of the first cell that is off."""
        g = np.asarray(g)
        if g.size != self.f.size:
            return f'{g.size} values for {self.f.size} cells'
        g = g.reshape(self.n)
        with np.errstate(invalid='ignore', over='ignore'):
            bad = ~(np.abs(g - self.f) <= 2 * self.e + TINY)
        # overflow of an unstable run: both must be non finite
        bad &= ~((~np.isfinite(g)) & (~np.isfinite(self.f)))
        bad &= np.isfinite(self.f)
        if bad.any():
            i = tuple(int(x) for x in np.argwhere(bad)[0])
            return f'cell {i} of {self.n} is {g[i]!r}, expected {self.f[i]!r} after {self.steps} steps ({int(bad.sum())} cells differ)'
        return None


def stencil_apply(x, stencil):
    """x[i + offset] * w summed, periodic; returns value and error bound."""
    out = np.zeros_like(x)
    mag = np.zeros_like(x)
    for off, w in stencil:
        y = np.roll(x, [-o for o in off], axis=tuple(range(x.ndim)))
        out += w * y
        mag += abs(w) * np.abs(y)
    return out, 8 * EPS * (len(stencil) + 1) * mag
