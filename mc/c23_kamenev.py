'C23: vertex enumeration from support functions is complete'

import itertools

import numpy as np
from scipy.optimize import linprog

from mc.engine import Stats, Violation, Marginal

from hylaa import kamenev

PROP = 'C23'

DESCRIPTION = {
    'what': 'Every polytope of the family (hulls of all subsets of small grids, pushed through linear maps and '
            'embedded flat in more dimensions) is given to the vertex enumeration as a support function only, with every way '
            'to break ties; every vertex of the set must be found, every point found must be in the set.',
    'bounds': 'all subsets of the grids {0..4}, {0,1,2}^2, {0,1}^3, subsets of up to 5 points of {0,1}^4 (thorough: of {0,1}^4, '
              'up to 6 points of {0,1,2}^3), images in dimensions up to 5',
    'assumptions': ['tolerance 1e-5'],
}

GRIDS = {'1x5': [[i] for i in range(5)], '2x3': [list(p) for p in itertools.product(range(3), repeat=2)],
         '3x2': [list(p) for p in itertools.product(range(2), repeat=3)],
         '4x2': [list(p) for p in itertools.product(range(2), repeat=4)],
         '3x3': [list(p) for p in itertools.product(range(3), repeat=3)]}


def entry(i, j, k):
    'deterministic matrix entries in general position'
    return ((7 * i + 13 * j + 5 * k + i * j * 3 + i * i) % 11 - 4.7) / 4


def maps(dims):
    'linear maps to more (or the same number of) dimensions'

    rv = [('id', np.identity(dims), np.zeros(dims)),
          ('general', np.array([[entry(i, j, 1) for j in range(dims)] for i in range(dims)]),
           np.array([entry(i, 0, 9) for i in range(dims)])),
          ('scaled', np.diag([10.0 ** (1 - i) for i in range(dims)]), np.array([50.0 - 7 * i for i in range(dims)]))]

    pad = np.vstack([np.identity(dims), np.zeros((1, dims))])
    rv.append(('pad_last', pad, np.array([0.0] * dims + [2.5])))
    rv.append(('pad_first', pad[::-1], np.array([-1.0] + [0.0] * dims)))
    rv.append(('embed', np.array([[entry(i, j, 3) for j in range(dims)] for i in range(dims + 1)]),
               np.array([entry(i, 3, 2) for i in range(dims + 1)])))

    if dims < 4:
        rv.append(('embed2', np.array([[entry(i, j, 4) for j in range(dims)] for i in range(dims + 2)]),
                   np.array([entry(i, 2, 5) for i in range(dims + 2)])))

    return rv


def configs(tier):
    'grids x maps x tie breaking'

    quick = tier == 'quick'
    sizes = {'1x5': 5, '2x3': 9, '3x2': 8, '4x2': 5 if quick else 7, '3x3': 3 if quick else 5}

    for grid, top in sizes.items():
        pts = GRIDS[grid]
        names = [m[0] for m in maps(len(pts[0]))]

        if grid in ('4x2', '3x3'):
            names = ['general', 'embed']

        for name in names:
            for tie in ('first', 'last', 'middle', 'alternate', 'rotate', 'mean'):
                if grid in ('4x2', '3x3') and tie not in ('first', 'alternate') and quick:
                    continue

                for low in range(len(pts)): # smallest index of the subset
                    yield {'grid': grid, 'map': name, 'tie': tie, 'low': low, 'top': top}


def extreme_mask(pts):
    'which of the points are extreme points of their hull'

    num = len(pts)

    if num <= 2:
        return [True] * num

    rv = []

    for i in range(num):
        others = np.array([p for j, p in enumerate(pts) if j != i], dtype=float)
        a_eq = np.vstack([others.T, np.ones(num - 1)])
        res = linprog(np.zeros(num - 1), A_eq=a_eq, b_eq=np.append(pts[i], 1.0), bounds=(0, None))
        rv.append(res.status == 2)

    return rv


_EXTREME = {}


def extreme(grid, subset):
    'extreme points of a subset of a grid (cached by grid; the maps are injective)'

    key = (grid, subset)

    if key not in _EXTREME:
        pts = [GRIDS[grid][i] for i in subset]

        if grid == '1x5':
            _EXTREME[key] = [p in (pts[0], pts[-1]) for p in pts]
        elif grid in ('3x2', '4x2'):
            _EXTREME[key] = [True] * len(pts) # corners of a cube
        else:
            _EXTREME[key] = extreme_mask(pts)

    return _EXTREME[key]


def run(cfg, subset, mat, off, st):
    'one polytope'

    pts = np.array([GRIDS[cfg['grid']][i] for i in subset], dtype=float) @ mat.T + off
    dims = pts.shape[1]
    size = max(1.0, float(np.abs(pts - pts.mean(axis=0)).max()))
    calls = []

    def supp(vec):
        'support function'

        vals = pts @ vec
        best = np.flatnonzero(vals > vals.max() - 1e-10 * size)
        calls.append(np.array(vec))

        if cfg['tie'] == 'first':
            return pts[best[0]].copy()
        if cfg['tie'] == 'last':
            return pts[best[-1]].copy()
        if cfg['tie'] == 'middle':
            return pts[best[len(best) // 2]].copy()
        if cfg['tie'] == 'alternate':
            return pts[best[-(len(calls) % 2)]].copy()
        if cfg['tie'] == 'rotate':
            return pts[best[len(calls) % len(best)]].copy()
        return pts[best].mean(axis=0)

    what = f'points {pts.round(4).tolist()}, ties: {cfg["tie"]}'

    try:
        out = np.array(kamenev.get_verts(dims, supp), dtype=float)
    except Exception as e: # pylint: disable=broad-except
        raise Violation(f'{what}: {type(e).__name__}: {str(e)[:200]}') from e

    if out.ndim != 2 or out.shape[1] != dims:
        raise Violation(f'{what}: result has shape {out.shape}')

    st.states += 1
    st.transitions += len(calls)
    st.traces += 1
    tol = 1e-5 * size
    corners = [p for p, e in zip(pts, extreme(cfg['grid'], subset)) if e]

    for p in corners: # complete
        if np.abs(out - p).max(axis=1).min() > tol:
            raise Violation(f'{what}: vertex {p.tolist()} is missing, found {out.tolist()}')

    # sound: supports in the directions which were asked for, axes, and membership
    dirs = np.array(calls + list(np.identity(dims)) + list(-np.identity(dims)))

    if (dirs @ out.T - (dirs @ pts.T).max(axis=1)[:, None]).max() > tol:
        raise Violation(f'{what}: a point which is found is not in the set: {out.tolist()}')

    if cfg['tie'] != 'mean': # every point is then one of the given points
        for v in out:
            if np.abs(pts - v).max(axis=1).min() > tol:
                raise Violation(f'{what}: {v.tolist()} is not a point of the support function')

    if np.linalg.matrix_rank(pts[1:] - pts[0], tol=1e-9) < dims:
        st.count('flat')
    else:
        st.count('full')


def check(cfg):
    'all subsets with a given smallest point'

    st = Stats()
    pts = GRIDS[cfg['grid']]
    mat, off = next((m, o) for n, m, o in maps(len(pts[0])) if n == cfg['map'])
    rest = range(cfg['low'] + 1, len(pts))

    for num in range(cfg['top']):
        for others in itertools.combinations(rest, num):
            try:
                run(cfg, (cfg['low'],) + others, mat, off, st)
            except Marginal:
                st.count('ties')

    st.sample = cfg
    return st


def min_counts(_tier):
    'vacuity guard'
    return {'flat': 1000, 'full': 1000}
