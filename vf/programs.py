"""The distributed programs under simMPI."""
from .core import *

PROGRAMS = {
    'laplacian': 'laplacian/cxx/laplacian.cxx',
    'testStencil2d': 'laplacian/cxx/testStencil2d.cxx',
    'upwindMpi': 'upwind/cxx/upwindMpi.cxx',
}


def build(ctx, names, san=True, filt=False, opt='-O1'):
    b = Builder(ctx)
    res = {n: build_sim(b, n, f'{REPO}/{PROGRAMS[n]}', san=san, opt=opt) for n in names}
    if filt:
        res['filter'] = build_sim(b, 'filter', f'{VERIF}/harness/filter_harness.cc', san=san, opt=opt)
    b.go()
    return res
