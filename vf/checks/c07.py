"""C07: the domain decomposition tiles the grid, and exists whenever possible."""
from .. import coreh


def cases(ctx):
    return coreh.decomp_cases(ctx, 't')


def run(ctx, cases):
    ctx.rule = ('one evaluation is one (grid, process count): existence compared with a search over all products of divisors, the boxes of all ranks read in random order and '
                'the owners of every cell counted (grids above 20000 cells: equal boxes on distinct multiples of their size); several grids in turn on one object; '
                'distinct: sweeps and random sequences')
    ctx.assumptions = ['extents and process counts are positive; cell counts beyond those listed are sampled only']
    coreh.run_all(ctx, cases)
