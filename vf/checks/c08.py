"""C08: the chosen decomposition has the smallest surface-to-volume ratio."""
from .. import coreh


def cases(ctx):
    return coreh.decomp_cases(ctx, 'c')


def run(ctx, cases):
    ctx.rule = ('one evaluation is one (grid, process count): the ratio of the box the ranks report is compared with the smallest over all products of divisors '
                '(candidates are counted); distinct: sweeps and random sequences')
    ctx.assumptions = ['ratios closer than 1e-12 (relative) count as ties']
    coreh.run_all(ctx, cases)
