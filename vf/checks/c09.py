"""C09: neighbour ranks follow the periodic process grid."""
from .. import coreh


def cases(ctx):
    return coreh.decomp_cases(ctx, 'n')


def run(ctx, cases):
    ctx.rule = ('one evaluation is one (grid, process count): all 3^d directions of every rank (a spread of ranks when they are many) compared with the owner of the adjacent box, '
                'and back; walks round every axis; distinct: sweeps and random sequences')
    ctx.assumptions = ['directions have components -1, 0 and 1']
    coreh.run_all(ctx, cases)
