'C15: plotted polygons are the projections of the sets'

import numpy as np
from scipy.sparse import csr_matrix

from mc import poly, sets
from mc.c14_set_algebra import snapshot
from mc.engine import Stats, Violation

from hylaa import lpplot, lputil

PROP = 'C15'

DESCRIPTION = {
    'what': 'Every set of a pool (all constructions of C14, with up to two further operations, and thin sets of decreasing '
            'width) is projected with every pair of plot directions (variables, twice the same one, general and degenerate '
            'direction vectors, time) and every kind of time interval; the polygon is compared with the projected vertices: '
            'all its points in the projection, its supports those of the projection, closed, convex and in order; the '
            'program must not be changed; boundary points for evenly spaced directions likewise. Simulated points: every pair of plot directions.',
    'bounds': 'dims 1-3, up to 36 direction pairs',
    'assumptions': ['accuracy 0.2 % of the smaller width of the projection (documented accuracy: 0.1 %); a projection '
                    'smaller than 2e-5 may be a point, as documented'],
}

ANGLES = np.linspace(0, 2 * np.pi, 180, endpoint=False) + 0.0123
FINE = np.stack([np.cos(ANGLES), np.sin(ANGLES)], axis=1)
FINE = np.vstack([FINE, [[1, 0], [-1, 0], [0, 1], [0, -1]]])

DIRS = {
    1: [0, [2.0], [-0.5], None],
    2: [0, 1, [1.0, 1.0], [-0.3, 2.0], [0.0, -1.0], None],
    3: [0, 1, 2, [1.0, -1.0, 0.0], [0.2, 0.3, -0.7], [0.0, 0.0, 3.0], None],
}

TIMES = [0.0, 2, (0.5, 1.5), [0.25, 0.25], [1.2, 1.21]]


def thin_sets():
    'boxes and rotated boxes of decreasing width'

    rv = []

    for w in (1e-2, 1e-4, 1e-6, 1e-8, 1e-10, 1e-12):
        for rot in (0, 1):
            for scale in (1.0, 40.0):
                rv.append({'w': w, 'rot': rot, 'scale': scale})

    return rv


def configs(tier):
    'sets'

    quick = tier == 'quick'

    for dims in (1, 2, 3):
        for name in sets.NAMES[dims]:
            for ops in [()] + [(o,) for o in OPS] + ([] if quick else [(o, p) for o in OPS for p in OPS]):
                yield {'dims': dims, 'set': name, 'ops': list(ops)}

    for t in thin_sets():
        yield dict(t, dims=2, set='thin', ops=[])
        yield dict(t, dims=3, set='thin', ops=[])

    yield {'dims': 0, 'set': 'points', 'ops': []}


OPS = ('rotate', 'flatten', 'shift', 'shrink', 'reset', 'cut')


def build(cfg):
    'lpi and vertices'

    dims = cfg['dims']

    if cfg['set'] == 'thin':
        box = [[0.3 * cfg['scale'], (0.3 + cfg['w']) * cfg['scale']], [-cfg['scale'], 0.5 * cfg['scale']]]
        box += [[0.1, 0.2 + cfg['w']]] * (dims - 2)
        mode = sets.mode_of(dims)
        lpi = lputil.from_box(box, mode)
        pts = np.array([[x, y] + z for x in box[0] for y in box[1]
                        for z in ([[]] if dims == 2 else [[v] for v in box[2]])])

        if cfg['rot']:
            mat = np.array([[0.8, -0.6, 0], [0.6, 0.8, 0], [0, 0, 1]])[:dims, :dims]
            lputil.set_basis_matrix(lpi, mat)
            pts = pts @ mat.T

        return lpi, pts

    lpi, pts, _ = sets.make(dims, cfg['set'])
    pts = np.array(pts, dtype=float)

    for op in cfg['ops']:
        if op == 'cut':
            a = np.array([1.0, -0.7, 0.4][:dims])
            b = float((pts @ a).min() + (pts @ a).max()) / 2
            lputil.add_curtime_constraints(lpi, csr_matrix(a[None, :]), np.array([b]))
            pts = poly.clip(pts, a, b)
        else:
            mat = {'rotate': np.array([[0.6, -0.8, 0], [0.8, 0.6, 0.3], [0.1, 0, 1]]),
                   'flatten': np.array([[1.0, 0.5, 0], [2.0, 1.0, 0], [0.3, 0, 0]]),
                   'shift': np.identity(3), 'shrink': np.diag([1.0, 1e-3, 1e-1]),
                   'reset': np.array([[0, 1.0, 0], [-1.0, 0, 0], [0, 0.5, 1]])}[op][:dims, :dims]
            mink = {}

            if op == 'shift':
                mink = {'minkowski_csr': np.identity(dims), 'minkowski_constraints_csr':
                        np.vstack([np.identity(dims), -np.identity(dims)]),
                        'minkowski_constraints_rhs': np.array([100.0] * dims + [-100.0] * dims)}

            for k in list(mink):
                if k.endswith('csr'):
                    mink[k] = csr_matrix(mink[k])

            lputil.add_reset_variables(lpi, 1, 0, reset_csr=csr_matrix(mat), **mink)
            pts = poly.linmap(pts, mat) + (100.0 if op == 'shift' else 0.0)

    return lpi, pts


def as_dir(d, dims):
    'direction vector of a plot dimension'
    return np.identity(dims)[d] if isinstance(d, int) else np.array(d)


def check_polygon(what, verts, proj, st):
    'compare a polygon with the hull of projected points'

    verts = [tuple(float(x) for x in v) for v in verts]
    size = max(1.0, float(np.abs(proj).max()))

    if len(verts) < 2 or verts[0] != verts[-1]:
        raise Violation(f'{what}: not closed: {verts}')

    if any(len(v) != 2 for v in verts):
        raise Violation(f'{what}: not a list of pairs: {verts}')

    pts = np.array(verts[:-1])
    width = proj.max(axis=0) - proj.min(axis=0)
    acc = 2e-3 * max(float(width.min()), 1e-5) + 1e-7 * size

    if width.max() < 2e-5 * size: # close to a single point, which may be returned
        acc = 2e-5 * size

    want = (FINE @ proj.T).max(axis=1)
    got = (FINE @ pts.T).max(axis=1)

    if (got - want).max() > 2e-7 * size:
        i = int((got - want).argmax())
        raise Violation(f'{what}: reaches {got[i]:.9f} in direction {FINE[i].round(4).tolist()}, the projection only '
                        f'{want[i]:.9f}')

    if (want - got).max() > acc:
        i = int((want - got).argmax())
        raise Violation(f'{what}: reaches only {got[i]:.9f} in direction {FINE[i].round(4).tolist()}, the projection '
                        f'{want[i]:.9f}')

    # convex, in order, without useless points
    if len(pts) > 2:
        edge = np.roll(pts, -1, axis=0) - pts
        nxt = np.roll(edge, -1, axis=0)
        cross = edge[:, 0] * nxt[:, 1] - edge[:, 1] * nxt[:, 0]
        eps = 1e-9 * size * size

        if not ((cross > -eps).all() or (cross < eps).all()):
            raise Violation(f'{what}: not convex or not in order: {verts}')

        turn = np.arctan2(cross, (edge * nxt).sum(axis=1))
        lens = np.abs(edge).max(axis=1)

        if (lens > 1e-5 * size).all() and abs(abs(turn.sum()) - 2 * np.pi) > 1e-3:
            raise Violation(f'{what}: goes around more than once: {verts}')

    st.count('polygons' if len(pts) > 2 else 'small')


def check_angles(what, lpi, x, y, proj, st):
    'boundary points for evenly spaced directions'

    size = max(1.0, float(np.abs(proj).max()))

    for num, offset in ((4, 0.0), (7, 0.3), (32, 0.0), (100, 0.0)):
        vecs = lpplot.make_plot_vecs(num, offset)
        angles = [offset + 2 * np.pi * i / num for i in range(num)]

        if len(vecs) != num or not np.allclose(vecs, [[np.cos(t), np.sin(t)] for t in angles]):
            raise Violation(f'make_plot_vecs({num}, {offset}) is {vecs}')

        width = lpplot.bbox_widths(lpi, x, y)
        real = np.maximum(proj.max(axis=0) - proj.min(axis=0), 1e-5)

        if np.abs(np.array(width) - real).max() > 1e-7 * size:
            raise Violation(f'{what}: the widths are {real}, bbox_widths gives {width}')

        pts = np.array(lpplot.find_boundary_pts(lpi, x, y, vecs, width))
        st.transitions += num
        st.count('angles')

        if ((FINE @ pts.T).max(axis=1) > (FINE @ proj.T).max(axis=1) + 2e-7 * size).any():
            raise Violation(f'{what}: boundary points {pts.tolist()} outside of the projection')

        # directions are minimized in coordinates scaled by the widths
        for v in vecs:
            d = np.array(v) / width
            want, got = float((proj @ d).min()), float((pts @ d).min())

            if got > want + 3e-5 * size * np.abs(d).sum():
                raise Violation(f'{what}: {num} directions: reaches {got} in direction {d}, the minimum is {want}; {pts.tolist()}')


def check_set(cfg, st):
    'all directions for one set'

    dims = cfg['dims']
    lpi, pts = build(cfg)
    before = snapshot(lpi)

    for xdim in DIRS[dims]:
        for ydim in DIRS[dims]:
            for k, time in enumerate(TIMES):
                if k > 0 and xdim is not None and ydim is not None:
                    continue

                tint = (time, time) if isinstance(time, (int, float)) else tuple(time)
                args = [np.array(d) if isinstance(d, list) else d for d in (xdim, ydim)]
                keep = [a.copy() if isinstance(a, np.ndarray) else a for a in args]
                pv = lpplot.make_plot_vecs(8) if k == 1 else None
                what = f'{cfg["set"]} {cfg}: x: {xdim}, y: {ydim}, time {time}'

                try:
                    if k == 0 and time == 0.0:
                        verts = lpplot.get_verts(lpi, args[0], args[1])
                    else:
                        verts = lpplot.get_verts(lpi, xdim=args[0], ydim=args[1], plot_vecs=pv, cur_time=time)
                except Exception as e: # pylint: disable=broad-except
                    raise Violation(f'{what}: {type(e).__name__}: {str(e)[:200]}') from e

                cols = []

                for d in (xdim, ydim):
                    cols.append(None if d is None else pts @ as_dir(d, dims))

                if cols[0] is None and cols[1] is None:
                    proj = [[s, t] for s in tint for t in tint]
                elif cols[0] is None:
                    proj = [[t, y] for t in tint for y in cols[1]]
                elif cols[1] is None:
                    proj = [[x, t] for t in tint for x in cols[0]]
                else:
                    proj = list(zip(cols[0], cols[1]))

                check_polygon(what, verts, np.array(proj, dtype=float), st)

                if xdim is not None and ydim is not None and xdim != ydim:
                    check_angles(what, lpi, as_dir(xdim, dims), as_dir(ydim, dims), np.array(proj, dtype=float), st)

                st.states += 1
                st.transitions += 1
                st.traces += 1

                for a, b in zip(args, keep):
                    if not np.array_equal(np.array(a, dtype=object), np.array(b, dtype=object)):
                        raise Violation(f'{what}: a plot direction was changed')

    after = snapshot(lpi)

    if not all(np.array_equal(a, b) if isinstance(a, np.ndarray) else a == b for a, b in zip(before, after)):
        raise Violation(f'{cfg["set"]} {cfg}: the program was changed')


def check_points(st):
    'projection of simulated points'

    for dims in (1, 2, 3):
        pt = [1.5, -2.25, 0.75][:dims]

        for conv in (list, np.array):
            for xdim in DIRS[dims]:
                for ydim in DIRS[dims]:
                    for time in (0, 3.5):
                        args = [np.array(d) if isinstance(d, list) else d for d in (xdim, ydim)]
                        got = lpplot.pt_to_plot_xy(conv(pt), args[0], args[1], time)
                        want = [time if d is None else float(as_dir(d, dims) @ np.array(pt)) for d in (xdim, ydim)]
                        st.states += 1
                        st.transitions += 1
                        st.traces += 1
                        st.count('points')

                        if not np.allclose(np.array(got, dtype=float), want):
                            raise Violation(f'pt_to_plot_xy({pt}, {xdim}, {ydim}, {time}) is {got}, should be {want}')


def check(cfg):
    'one set'

    st = Stats()

    if cfg['set'] == 'points':
        check_points(st)
    else:
        check_set(cfg, st)

    st.sample = cfg
    return st


def min_counts(_tier):
    'vacuity guard'
    return {'polygons': 1000, 'small': 100, 'points': 50}
