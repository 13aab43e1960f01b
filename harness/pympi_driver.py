"""Drives upwindMPI.py's Upwind class under mpirun; rank 0 writes the gathered
field. Same protocol as solver_harness.cc (three dimensions only)."""
import os, struct, sys
sys.path.insert(0, os.environ['VF_PYDIR'])
sys.dont_write_bytecode = True
import numpy as np
import upwindMPI
from mpi4py import MPI

rk = MPI.COMM_WORLD.Get_rank()
d = os.environ['VF_OUT']
out = open(d + '/f.0.bin', 'wb') if rk == 0 else None
prog = open(d + '/f.0.prog', 'w') if rk == 0 else None


def rec(tag, x=(), aux=0.0):
    if rk == 0:
        x = np.asarray(x, dtype='<f8').ravel()
        out.write(tag.encode().ljust(8, b'\0') + struct.pack('<dq', aux, x.size) + x.tobytes())


up = None
for line in open(sys.argv[1]):
    w = line.split()
    if not w:
        continue
    if w[0] == 'end':
        break
    if w[0] == 'case':
        rec('case', (), float(w[1]))
        if rk == 0:
            print(w[1], file=prog, flush=True)
    elif w[0] == 'new':
        nd = int(w[1])
        n = [int(x) for x in w[2:2 + nd]]
        v = np.array([float(x) for x in w[2 + nd:2 + 2 * nd]])
        L = np.array([float(x) for x in w[2 + 2 * nd:2 + 3 * nd]])
        up = None  # collective release
        up = upwindMPI.Upwind(v, L, n)
    elif w[0] == 'adv':
        for _ in range(int(w[1])):
            up.advect(float(w[2]))
    elif w[0] == 'dump':
        g = up.gatherRoot()  # collective
        rec('dump', g if rk == 0 else [])
    elif w[0] == 'sum':
        s = up.checksum()
        rec('sum', [s] if rk == 0 else [])
    elif w[0] == 'std':
        rec('std', [-1.0])
    elif w[0] in ('thr', 'vtk'):
        pass
    else:
        sys.exit(9)
up = None
if rk == 0:
    out.close()
