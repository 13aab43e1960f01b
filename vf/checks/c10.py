"""C10: the multi-dimensional iterator visits every index set exactly once."""
from .. import coreh


def cases(ctx):
    rng = ctx.rng
    cs = []
    for nd, m in ctx.pick([(1, 40), (2, 8), (3, 5), (4, 3)], [(1, 300), (2, 16), (3, 8), (4, 5), (5, 3), (6, 2)]):
        for a in range(0, m + 1):
            cs.append(dict(kind='J', seed=rng.randrange(1 << 30), sweep=[nd, a, m]))
    for _ in range(ctx.pick(2500, 40000)):
        items = []
        for _ in range(rng.randint(1, 4)):
            if items and rng.random() < 0.5:     # a box related to the one before it
                lo, ext, row = (list(x) if isinstance(x, list) else x for x in items[-1])
                how = rng.randrange(6)
                if how == 0:
                    row = 1 - row
                elif how == 1:
                    lo = [max(0, x + rng.choice([-1, 1, 5])) for x in lo]
                    row = rng.randrange(2)
                elif how == 2:
                    ext = ext[::-1]
                elif how == 3:
                    lo, ext = lo[1:] + lo[:1], ext[1:] + ext[:1]
                elif how == 4 and len(ext) > 1:  # fewer axes, the same number of terms
                    lo, ext = lo[1:], [ext[0] * ext[1]] + ext[2:]
                else:
                    lo, ext = lo + [3], ext + [1]
                items.append([lo, ext, row])
                continue
            nd = rng.choice([1, 2, 3, 3, 4, 5, 6, 7, 8])
            lo = [rng.choice([0, 0, 1, rng.randint(0, 20), rng.randint(0, 10 ** 6), rng.randint(0, 2 ** 40)]) for _ in range(nd)]
            big = rng.random() < 0.15
            ext = [rng.choice([1, 2, 3, 4, rng.randint(1, 9)] if not big else [1, 2, 3, rng.randint(1, 2 ** (60 // nd))]) for _ in range(nd)]
            items.append([lo, ext, rng.randrange(2)])
        cs.append(dict(kind='J', seed=rng.randrange(1 << 30), items=items))
    return cs


def run(ctx, cases):
    ctx.rule = ('one evaluation is one (box, order): every visit compared with an odometer (the first 2000 visits of boxes above 20000 terms), flat positions, moves, restarts, '
                'copies and corners compared with the model; distinct: sweeps and random sequences')
    ctx.assumptions = ['boxes have at least one axis and a volume below 2^60']
    coreh.run_all(ctx, cases)
