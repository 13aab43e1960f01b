"""Random problems for the advection solvers and the distributed filter."""
import numpy as np

SPECIAL = [15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 130, 200, 255, 256, 257, 300]


# more cells, or a longer axis, than 16 bits can count
LARGE3 = [[70001, 1, 1], [1, 66000, 1], [1, 2, 33333], [48, 40, 36], [3, 129, 200]]


def extents(rng, nd, limit, big=0.15):
    while True:
        n = []
        for _ in range(nd):
            r = rng.random()
            if r < 0.12:
                n.append(1)
            elif r < 0.22:
                n.append(2)
            elif r < 0.22 + big:
                n.append(rng.choice(SPECIAL))
            else:
                n.append(rng.randint(2, 12))
        if np.prod(n) <= limit:
            return n


def velocity(rng, nd):
    v = []
    for _ in range(nd):
        r = rng.random()
        if r < 0.12:
            v.append(0.0)
        elif r < 0.35:
            v.append(rng.choice([1.0, -1.0]))
        elif r < 0.42:
            v.append(rng.choice([-1, 1]) * 10 ** rng.uniform(-8, 6))
        else:
            v.append(round(rng.uniform(-2, 2), 6))
    if rng.random() < 0.15:     # alike but for the sign
        a = round(rng.uniform(0.1, 5), 3)
        v = [rng.choice([a, a, -a, 0.0, 2 * a]) for _ in v]
    return v


def lengths(rng, nd):
    return [rng.choice([1.0, 1.0, 2.0, 0.5, round(10 ** rng.uniform(-3, 3), 6)]) for _ in range(nd)]


def rate(n, v, L):
    return sum(abs(v[j]) * n[j] / L[j] for j in range(len(n)))


def timestep(rng, n, v, L, kind):
    """kind: stable (Courant sum <= 1), any"""
    r = rate(n, v, L)
    if r == 0:
        return round(rng.uniform(0.001, 1), 6)
    if kind == 'stable':
        c = rng.choice([rng.uniform(0.05, 0.95), rng.uniform(0.05, 0.95), 0.1, 0.5, 0.999999])
    else:
        c = rng.choice([rng.uniform(0.01, 1), rng.uniform(0.01, 1), 1e-3, rng.uniform(1, 2.5), 0.0])
    return c / r


def divisors(n):
    return [d for d in range(1, n + 1) if n % d == 0]


def decomps(n, p):
    """All ways of writing p as a product of divisors of the extents."""
    if not n:
        return [[]] if p == 1 else []
    res = []
    for d in divisors(n[0]):
        if p % d == 0:
            for r in decomps(n[1:], p // d):
                res.append([d] + r)
    return res


def best_locals(n, p):
    """All local extents with the smallest surface to volume ratio."""
    ds = decomps(n, p)
    if not ds:
        return []
    loc = [[n[j] // d[j] for j in range(len(n))] for d in ds]
    cost = [sum(1.0 / x for x in l) for l in loc]
    m = min(cost)
    return [l for l, c in zip(loc, cost) if c <= m * (1 + 1e-12)]
