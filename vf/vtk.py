"""A strict reader of the legacy ASCII VTK files the codes write."""
import re
import numpy as np

NUM = re.compile(r'^[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?$')


class VtkError(Exception):
    pass


def _num(t):
    if not NUM.match(t):
        raise VtkError(f'not a number: {t[:40]!r}')
    return float(t)


def _int(t):
    if not re.match(r'^\d+$', t):
        raise VtkError(f'not a count: {t[:40]!r}')
    return int(t)


class Vtk:
    """dims: nodes per axis; coords: list of 3 arrays; data: array in VTK
    order; points (structured grids only): (n, 3)."""


def parse(path):
    try:
        text = open(path).read()
    except (OSError, UnicodeDecodeError) as e:
        raise VtkError(f'cannot read: {e}')
    lines = text.split('\n')
    if len(lines) < 4:
        raise VtkError('truncated')
    if not re.match(r'^# vtk DataFile Version \d+\.\d+\s*$', lines[0]):
        raise VtkError('bad first line')
    if len(lines[1]) > 256:
        raise VtkError('title too long')
    if lines[2].strip() != 'ASCII':
        raise VtkError('not ASCII')
    tok = '\n'.join(lines[3:]).split()
    p = 0

    def nxt():
        nonlocal p
        if p >= len(tok):
            raise VtkError('truncated')
        p += 1
        return tok[p - 1]

    def expect(*words):
        t = nxt()
        if t not in words:
            raise VtkError(f'expected {"/".join(words)}, found {t[:40]!r}')
        return t

    def nums(k):
        nonlocal p
        if p + k > len(tok):
            raise VtkError(f'truncated: {k} values declared, {len(tok) - p} left')
        r = np.array([_num(t) for t in tok[p:p + k]])
        p += k
        return r

    v = Vtk()
    expect('DATASET')
    v.kind = expect('RECTILINEAR_GRID', 'STRUCTURED_GRID')
    expect('DIMENSIONS')
    v.dims = [_int(nxt()) for _ in range(3)]
    if min(v.dims) < 1:
        raise VtkError(f'bad dimensions {v.dims}')
    if v.kind == 'RECTILINEAR_GRID':
        v.coords = []
        for ax in 'XYZ':
            expect(ax + '_COORDINATES')
            k = _int(nxt())
            expect('double', 'float')
            v.coords.append(nums(k))
        for k in range(3):
            if len(v.coords[k]) != v.dims[k]:
                raise VtkError(f'axis {"XYZ"[k]}: {len(v.coords[k])} coordinates for dimension {v.dims[k]}')
    else:
        expect('POINTS')
        k = _int(nxt())
        expect('double', 'float')
        if k != v.dims[0] * v.dims[1] * v.dims[2]:
            raise VtkError(f'{k} points for dimensions {v.dims}')
        v.points = nums(3 * k).reshape(k, 3)
    v.cells = [max(x - 1, 1) for x in v.dims]
    expect('CELL_DATA')
    k = _int(nxt())
    if k != v.cells[0] * v.cells[1] * v.cells[2]:
        raise VtkError(f'CELL_DATA {k} but the grid has {v.cells} cells')
    expect('SCALARS')
    v.name = nxt()
    expect('double', 'float')
    if tok[p:p + 1] == ['1']:
        p += 1
    expect('LOOKUP_TABLE')
    nxt()
    v.data = nums(k)
    if p != len(tok):
        raise VtkError(f'{len(tok) - p} extra tokens after the cell data: {tok[p][:30]!r}')
    return v


def close(a, b, rel):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool((np.abs(a - b) <= rel * np.abs(b) + 1e-300).all())


def check_rect(v, n, L, f, rel=6e-6):
    """Rectilinear file of a solver: last solver axis is X, domain starts at 0.
    n, L: solver cells and lengths; f: flat field in solver order."""
    nd = len(n)
    if v.kind != 'RECTILINEAR_GRID':
        return f'grid type {v.kind}'
    for ax in range(3):  # X is the last solver axis
        want_nodes = 1
        if nd == 3:
            j = 2 - ax
        elif nd == 2:
            j = [None, 1, 0][ax]
        else:
            j = [None, None, 0][ax]
        if j is None:
            if v.dims[ax] not in (1, 2):
                return f'unused axis {"XYZ"[ax]} has {v.dims[ax]} nodes'
            continue
        if v.dims[ax] != n[j] + 1:
            return f'axis {"XYZ"[ax]} has {v.dims[ax]} nodes for {n[j]} cells'
        want = np.arange(n[j] + 1) * (L[j] / n[j])
        if not close(v.coords[ax], want, rel) :
            return f'axis {"XYZ"[ax]} coordinates {v.coords[ax][:4]}.. {v.coords[ax][-1]}, expected {want[:4]}.. {want[-1]}'
    f = np.asarray(f).ravel()
    if v.data.size != f.size:
        return f'{v.data.size} values for {f.size} cells'
    bad = ~(np.abs(v.data - f) <= rel * np.abs(f) + 1e-300)
    if bad.any():
        i = int(np.argwhere(bad)[0][0])
        return f'cell {i} is stored as {v.data[i]!r}, the field is {f[i]!r}'
    return None


def check_struct(v, n, lo, hi, f, rel=6e-6):
    """Structured file of a distributed code: first axis is X.
    f: array indexed by the grid's axes."""
    nd = len(n)
    if v.kind != 'STRUCTURED_GRID':
        return f'grid type {v.kind}'
    for j in range(3):
        want = n[j] + 1 if j < nd else None
        if want and v.dims[j] != want:
            return f'axis {j} has {v.dims[j]} nodes for {n[j]} cells'
        if want is None and v.dims[j] > 2:
            return f'unused axis {j} has {v.dims[j]} nodes'
    pts = v.points.reshape(v.dims[2], v.dims[1], v.dims[0], 3)
    for j in range(nd):
        want = lo[j] + (hi[j] - lo[j]) * np.arange(n[j] + 1) / n[j]
        shape = [1, 1, 1]
        shape[2 - j] = n[j] + 1
        w = want.reshape(shape)
        tol = rel * np.maximum(np.abs(w), 0) + rel * 1e-9 * max(abs(lo[j]), abs(hi[j])) + 1e-300
        bad = ~(np.abs(pts[..., j] - w) <= tol)
        if bad.any():
            return f'coordinate {j} of node {np.argwhere(bad)[0][::-1].tolist()} is wrong'
    want = np.asarray(f).reshape(n).flatten(order='F')
    if v.data.size != want.size:
        return f'{v.data.size} values for {want.size} cells'
    bad = ~(np.abs(v.data - want) <= rel * np.abs(want) + 1e-300)
    if bad.any():
        i = int(np.argwhere(bad)[0][0])
        return f'cell {i} is stored as {v.data[i]!r}, the field is {want[i]!r}'
    return None
