"""Drives upwind.py's Upwind class; same protocol as solver_harness.cc."""
import os, struct, sys
sys.path.insert(0, os.environ['VF_PYDIR'])
sys.dont_write_bytecode = True
import numpy as np
import upwind

d = os.environ['VF_OUT']
out = open(d + '/f.0.bin', 'wb')
prog = open(d + '/f.0.prog', 'w')


def rec(tag, x=(), aux=0.0):
    x = np.asarray(x, dtype='<f8').ravel()
    out.write(tag.encode().ljust(8, b'\0') + struct.pack('<dq', aux, x.size) + x.tobytes())


objs, cur = {}, 0   # one after another, or several alive (use k)
for line in open(sys.argv[1]):
    w = line.split()
    if not w:
        continue
    if w[0] == 'end':
        break
    if w[0] == 'case':
        rec('case', (), float(w[1]))
        cur = 0
        objs = {k: o for k, o in objs.items() if k == 0}
        print(w[1], file=prog, flush=True)
    elif w[0] == 'use':
        cur = int(w[1])
    elif w[0] == 'new':
        nd = int(w[1])
        n = [int(x) for x in w[2:2 + nd]]
        v = np.array([float(x) for x in w[2 + nd:2 + 2 * nd]])
        L = np.array([float(x) for x in w[2 + 2 * nd:2 + 3 * nd]])
        objs[cur] = upwind.Upwind(v, L, n)
    elif w[0] == 'adv':
        for _ in range(int(w[1])):
            objs[cur].advect(float(w[2]))
    elif w[0] == 'dump':
        rec('dump', objs[cur].f)
    elif w[0] == 'sum':
        rec('sum', [objs[cur].checksum()])
    elif w[0] == 'std':
        rec('std', [-1.0])
    elif w[0] == 'vtk':
        objs[cur].saveVTK(d + '/' + w[1])
    elif w[0] == 'thr':
        pass
    else:
        sys.exit(9)
out.close()
