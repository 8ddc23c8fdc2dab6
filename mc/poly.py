'''
Reference convex polytopes in vertex representation (any small dimension, degenerate sets allowed).

Written independently of the code under test: no linear programs, no symbolic constraints, only finite point sets.
'''

import itertools

import numpy as np
from scipy.spatial import ConvexHull, QhullError

from mc.engine import Marginal

TIE = 1e-5 # distance to a decision boundary below which both answers are acceptable


_ROT = np.array([[np.cos(0.7345), -np.sin(0.7345)], [np.sin(0.7345), np.cos(0.7345)]])


def _hull2(pts):
    'monotone chain hull of n x 2 points'

    if len(pts) <= 2:
        return pts

    # the chain is run in a generically rotated frame: vertical edges with rounding noise would break the sweep order
    orig = pts
    pts = pts @ _ROT
    order = np.lexsort((pts[:, 1], pts[:, 0]))
    pts = np.column_stack([pts[order], np.arange(len(pts))])

    scale = max(1.0, float(np.abs(pts).max()))
    eps = 1e-12 * scale * scale

    def half(seq):
        out = []
        for p in seq:
            while len(out) >= 2:
                a, b = out[-2], out[-1]
                if (b[0] - a[0]) * (p[1] - a[1]) - (b[1] - a[1]) * (p[0] - a[0]) <= eps:
                    out.pop()
                else:
                    break
            out.append(p)
        return out

    lst = pts.tolist()
    lower = half(lst)
    upper = half(lst[::-1])
    rv = lower[:-1] + upper[:-1]

    return orig[order[[int(p[2]) for p in rv]]] if rv else orig[:1]


def reduce(pts):
    'remove redundant points'

    pts = np.asarray(pts, dtype=float)

    if len(pts) <= 1:
        return pts

    # remove (near) duplicates
    order = np.lexsort(pts.T[::-1])
    pts = pts[order]
    keep = [0]
    for i in range(1, len(pts)):
        if np.abs(pts[i] - pts[keep[-1]]).max() > 1e-11:
            keep.append(i)
    pts = pts[keep]

    dims = pts.shape[1]

    if len(pts) <= 2:
        return pts

    if dims == 1:
        return np.array([pts[0], pts[-1]])

    # affine rank
    center = pts.mean(axis=0)
    dif = pts - center
    _, sv, vt = np.linalg.svd(dif, full_matrices=False)
    rank = int((sv > 1e-9 * max(1.0, np.abs(pts).max())).sum())

    if rank == 0:
        return pts[:1]

    proj = dif @ vt[:rank].T

    if rank == 1:
        return pts[[int(proj[:, 0].argmin()), int(proj[:, 0].argmax())]]

    if rank == 2:
        hull = _hull2(np.column_stack([proj[:, :2], ])) if dims > 2 else _hull2(pts)

        if dims == 2:
            return hull

        # map back through nearest projected point
        idx = []
        for h in hull:
            idx.append(int(np.abs(proj - h).max(axis=1).argmin()))
        return pts[sorted(set(idx))]

    if len(pts) <= rank + 1:
        return pts

    try:
        return pts[ConvexHull(proj).vertices]
    except QhullError:
        return pts


def from_box(box):
    'vertices of a box [[lo, hi], ...]'

    axes = [[float(lo)] if lo == hi else [float(lo), float(hi)] for lo, hi in box]

    return np.array(list(itertools.product(*axes)), dtype=float)


def from_zonotope(center, gens):
    'vertices of a zonotope'

    pts = np.array([center], dtype=float)

    for g in gens:
        g = np.array(g, dtype=float)
        pts = reduce(np.concatenate([pts - g, pts + g]))

    return pts


def from_constraints(mat, rhs, big=1000.0):
    'vertices of {x | mat x <= rhs}; must be bounded by +-big'

    mat = np.asarray(mat, dtype=float)
    dims = mat.shape[1]
    pts = from_box([[-big, big]] * dims)

    for row, b in zip(mat, rhs):
        if not np.any(row):
            assert b >= 0
            continue
        pts = clip_raw(pts, row, float(b))
        assert pts is not None, 'reference set is empty'

    assert np.abs(pts).max() < big - 1, 'reference set is unbounded'

    return pts


def clip_raw(pts, a, b):
    'intersect with a x <= b; no tie detection. returns None if empty'

    val = pts @ a - b

    if val.max() <= 1e-12:
        return pts
    if val.min() > 1e-12:
        return None

    inside = [i for i in range(len(pts)) if val[i] <= 1e-12]
    outside = [i for i in range(len(pts)) if val[i] > 1e-12]
    new = [pts[i] for i in inside]

    for i in inside:
        if val[i] >= -1e-12:
            continue
        for j in outside:
            t = val[i] / (val[i] - val[j])
            new.append(pts[i] + t * (pts[j] - pts[i]))

    return reduce(np.array(new))


def clip(pts, a, b, tie=TIE):
    '''intersect with a x <= b, returns None if clearly empty; raises Marginal on a tie'''

    a = np.asarray(a, dtype=float)

    if not np.any(a):
        if abs(b) < tie:
            raise Marginal()
        return pts if b > 0 else None

    # distances are measured along the normal
    nrm = float(np.abs(a).max())
    val = (pts @ a - b) / nrm
    lo, hi = val.min(), val.max()

    if lo > tie:
        return None

    if abs(lo) <= tie:
        raise Marginal()

    if hi <= 0:
        return pts

    return clip_raw(pts, a, b)


def clip_eq(pts, a, b, tie=TIE):
    'intersect with a x == b'

    a = np.asarray(a, dtype=float)
    nrm = float(np.abs(a).max())
    val = (pts @ a - b) / nrm
    lo, hi = val.min(), val.max()

    if lo > tie or hi < -tie:
        return None
    if lo > -tie or hi < tie:
        raise Marginal()

    new = []
    for i, j in itertools.combinations(range(len(pts)), 2):
        if (val[i] <= 0) != (val[j] <= 0):
            t = val[i] / (val[i] - val[j])
            new.append(pts[i] + t * (pts[j] - pts[i]))

    return reduce(np.array(new))


def clip_all(pts, cons, tie=TIE):
    'intersect with a list of constraints (a, b) or (a, b, "=="); None if empty'

    for c in cons:
        if len(c) == 3:
            pts = clip_eq(pts, c[0], c[1], tie)
        else:
            pts = clip(pts, c[0], c[1], tie)

        if pts is None:
            return None

    return pts


def linmap(pts, mat):
    'linear image'

    return reduce(pts @ np.asarray(mat, dtype=float).T)


def msum(p, q):
    'minkowski sum'

    return reduce((p[:, None, :] + q[None, :, :]).reshape(-1, p.shape[1]))


def hull(list_of_pts):
    'convex hull of the union'

    return reduce(np.concatenate(list_of_pts))


def supports(pts, dirs):
    'support values in each direction (rows of dirs)'

    return (pts @ dirs.T).max(axis=0)


_DIRS = {}


def directions(dims, fine=False):
    'a fixed set of support directions'

    key = (dims, fine)

    if key not in _DIRS:
        if dims == 1:
            d = [[1.0], [-1.0]]
        elif dims == 2:
            n = 24 if fine else 12
            d = [[np.cos(2 * np.pi * k / n), np.sin(2 * np.pi * k / n)] for k in range(n)]
        else:
            d = []
            for i in range(dims):
                for s in (1.0, -1.0):
                    v = [0.0] * dims
                    v[i] = s
                    d.append(v)
            pairs = list(itertools.combinations(range(dims), 2))
            for i, j in pairs:
                for s, t in (((1, 1), (-1, -1), (1, -1), (-1, 1)) if fine or dims <= 3 else ((1, 1), (-1, -1))):
                    v = [0.0] * dims
                    v[i] = 0.8 * s
                    v[j] = 0.6 * t
                    d.append(v)
        _DIRS[key] = np.array(d)

    return _DIRS[key]
