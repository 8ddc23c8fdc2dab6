'C14: set operations compute exactly the sets they claim, in any composition'

import itertools

import numpy as np
from scipy.sparse import csr_matrix

from mc import model, poly, sets
from mc.engine import Stats, Violation, Marginal

from hylaa import lputil
from hylaa.hybrid_automaton import LinearConstraint

PROP = 'C14'

DESCRIPTION = {
    'what': 'From every construction of a set (boxes, constraints, zonotopes, flat sets and points, sets with a history) every '
            'sequence of set operations (linear steps with and without inputs, scaling, cuts on initial-time and on '
            'current-time variables, resets of all forms, hulls and Minkowski sums with other sets on either side, templates, '
            'bloating, cloning) up to the depth; afterwards the set is compared in all support directions with vertex '
            'polytopes, and every query (radius, centre of the box, basis matrix, membership, intersection tests) with '
            'the same vertices; operands and passed-in arrays must be unchanged. Direction matrices: all small matrices, '
            'spans and orthonormality.',
    'bounds': '2-d: depth 2 from all starts, 3 from six of them (thorough 4 from all), 1-d and 3-d: depth 2 (thorough 3)',
    'assumptions': ['the basis matrix is not changed after a cut in current-time variables or a bloat, nor bloated after such a cut (until the next '
                    'reset, hull or sum makes the set a fresh one), as in the library itself',
                    'tolerance 1e-5 of the size'],
}


class SetState:
    'a set under construction'

    def __init__(self, dims, name):
        self.lpi, self.pts, self.mode = sets.make(dims, name)
        self.dims = dims
        self.basis = lputil.get_basis_matrix(self.lpi)
        self.effects = None # input effects matrices if the lpi has inputs
        self.fixed = name in ('cut', 'bloat') # the basis matrix must not be changed any more
        self.curcut = name == 'cut' # there are constraints on the current-time variables
        self.scalable = name not in ('inputs',)
        self.others = [] # (lpi, vertices, snapshot, description) of operands, which have to stay as they are

        if name == 'inputs':
            b, _, _ = sets.input_data(dims, 2)
            self.effects = [b, sets.step_mat(dims) @ b]

    def fresh(self, lpi, pts):
        'the set was replaced by a new object'

        self.keep('former object')
        self.lpi, self.pts = lpi, pts
        self.refresh()

    def refresh(self):
        'a set in a new basis'

        self.dims = self.lpi.dims
        self.basis = np.identity(self.dims)
        self.effects = None
        self.fixed = False
        self.curcut = False
        self.scalable = True

    def keep(self, what):
        'remember the current object, it must not change any more'
        self.others.append((self.lpi, self.pts, snapshot(self.lpi), what))


def snapshot(lpi):
    'what a program consists of'

    return (lpi.get_full_constraints().toarray(), lpi.get_rhs(), tuple(lpi.get_types()), tuple(lpi.get_names()), lpi.dims,
            lpi.basis_mat_pos, lpi.cur_vars_offset, lpi.input_effects_offsets)


def same(a, b):
    'are snapshots equal?'

    return all(np.array_equal(x, y) if isinstance(x, np.ndarray) else x == y for x, y in zip(a, b))


STEP2 = {1: np.array([[-0.8]]), 2: np.array([[0.3, 1.1], [-0.9, 0.6]]),
         3: np.array([[0.2, 1, 0], [-0.7, 0.4, 0.3], [0.5, 0, -0.9]])}
SING = {1: np.array([[0.0]]), 2: np.array([[0.5, 0.25], [-1, -0.5]]), 3: np.array([[1, 0, 0], [0, 0, 1], [1.0, 0, 1]])}
CUTS = {1: ([1.0], [-1.0]), 2: ([1.0, 0.37], [-0.41, 1.0]), 3: ([1.0, 0.37, -0.2], [0.15, -0.41, 1.0])}
BACK = {1: np.array([[1.1, -0.4]]), 2: np.array([[0.7, -0.4, 0.2], [0.1, 0.9, 0.5]]),
        3: np.array([[0.5, -0.5], [0.2, 0.3], [-0.4, 1.0]])}


def level(pts, a, frac):
    'a value of a x somewhere inside its range'

    val = pts @ np.array(a)
    return float(val.min() + (val.max() - val.min()) * frac)


def op_step(s):
    'linear step by another basis matrix'
    if s.fixed or s.effects:
        return False
    m = STEP2[s.dims]
    s.basis = m @ s.basis
    lputil.set_basis_matrix(s.lpi, s.basis)
    s.pts = poly.linmap(s.pts, m)
    return True


def op_collapse(s):
    'step by a singular matrix'
    if s.fixed or s.effects:
        return False
    s.basis = SING[s.dims] @ s.basis
    lputil.set_basis_matrix(s.lpi, s.basis)
    s.pts = poly.linmap(s.pts, SING[s.dims])
    return True


def op_istep(s):
    'step with inputs: the set becomes M * set + E * inputs'
    if s.fixed or s.effects is None:
        return False
    m = STEP2[s.dims]
    b, c, rhs = sets.input_data(s.dims, 2)
    mode = sets.mode_of(s.dims, 2)
    s.effects = [m @ e for e in s.effects] + [b]
    s.basis = m @ s.basis
    lputil.set_basis_matrix(s.lpi, s.basis)
    lputil.add_input_effects_matrix(s.lpi, b, mode)
    lputil.set_input_effects_matrices(s.lpi, s.effects)
    s.pts = poly.msum(poly.linmap(s.pts, m), poly.linmap(poly.from_constraints(c, rhs), b))
    return True


def op_scale(s):
    'scaling'
    if s.fixed or s.effects or not s.scalable:
        return False
    s.basis = -0.6 * s.basis
    lputil.scale_with_bm(s.lpi, -0.6)
    s.pts = poly.linmap(s.pts, -0.6 * np.identity(s.dims))
    return True


def op_icut(s):
    'cut by a constraint on the initial-time variables'
    if s.fixed:
        return False
    a = np.array(CUTS[s.dims][0])
    b = level(s.pts, a, 0.43)
    vec = a.copy()
    lputil.add_init_constraint(s.lpi, vec, b, s.basis.copy(), None if s.effects is None else [e.copy() for e in s.effects])
    if not np.array_equal(vec, a) or vec.shape != a.shape:
        raise Violation('add_init_constraint changes the passed-in vector')
    s.pts = poly.clip(s.pts, a, b)
    return True


def op_ccut(s):
    'cut by two constraints on the current-time variables'
    a1, a2 = CUTS[s.dims]
    b1, b2 = level(s.pts, a1, 0.71), level(s.pts, a2, 0.66)
    mat = csr_matrix(np.array([a1, a2]))
    rhs = np.array([b1, b2])
    before = (mat.toarray(), rhs.copy())
    lputil.add_curtime_constraints(s.lpi, mat, rhs)
    if not np.array_equal(before[0], mat.toarray()) or not np.array_equal(before[1], rhs):
        raise Violation('add_curtime_constraints changes its arguments')
    s.pts = poly.clip_all(s.pts, [(a1, b1), (a2, b2)])
    s.fixed = s.curcut = True
    return True


def op_reset(s):
    'identity reset'
    lputil.add_reset_variables(s.lpi, 1, 0)
    s.refresh()
    return True


def op_resetlin(s):
    'linear reset to a mode with inputs'
    r = STEP2[s.dims].T * 0.8
    lputil.add_reset_variables(s.lpi, 2, 1, reset_csr=csr_matrix(r), successor_has_inputs=True)
    s.pts = poly.linmap(s.pts, r)
    s.refresh()
    s.effects = []
    return True


def op_resetdim(s):
    'via another number of dimensions and back, with a minkowski term'
    d = s.dims
    other = BACK[d].shape[1]
    r1 = np.array([[0.9, -0.2, 0.4], [0.3, 0.8, -0.1], [-0.5, 0.6, 0.7]])[:other, :d]
    mm = np.array([[1.0], [0.4], [-0.3]])[:other]
    c, rhs = [[1.0], [-1.0]], np.array([0.25, 0.1])
    lputil.add_reset_variables(s.lpi, 1, 0, reset_csr=csr_matrix(r1), minkowski_csr=csr_matrix(mm),
                               minkowski_constraints_csr=csr_matrix(np.array(c)), minkowski_constraints_rhs=rhs)
    mid = poly.msum(poly.linmap(s.pts, r1), poly.linmap(np.array([[-0.1], [0.25]]), mm))
    lputil.add_reset_variables(s.lpi, 2, 3, reset_csr=csr_matrix(BACK[d]))
    s.pts = poly.linmap(mid, BACK[d])
    s.refresh()
    return True


def combine(kind, other, first):
    'hull, sum or template with another set'

    def rv(s):
        o, p, _ = sets.make(s.dims, other)
        s.others.append((o, p, snapshot(o), f'operand {other}'))
        lst = [s.lpi, o] if first else [o, s.lpi]

        if kind == 'hull':
            s.fresh(lputil.aggregate_chull(lst, s.mode), poly.hull([s.pts, p]))
        elif kind == 'hull3':
            o2, p2, _ = sets.make(s.dims, 'box')
            s.others.append((o2, p2, snapshot(o2), 'operand box'))
            s.fresh(lputil.aggregate_chull([o, s.lpi, o2], s.mode), poly.hull([s.pts, p, p2]))
        elif kind == 'msum':
            s.fresh(lputil.minkowski_sum(lst, s.mode), poly.msum(s.pts, p))
        else:
            dirs = np.array({1: [[1.0]], 2: [[1.0, 0], [0.6, 0.8], [0, 1]],
                             3: [[1.0, 0, 0], [0, 1, 0], [0, 0, 1], [0.5, 0.5, -1]]}[s.dims])

            if kind == 'steep': # small components, other lengths, no direction at all
                dirs = np.array({1: [[0.5], [0]], 2: [[1.0, 0.0008], [-0.002, 3], [0, 0]],
                                 3: [[1.0, 0.0008, 0], [0, 2, 0.001], [0, 0, 0], [0, -0.0007, 1]]}[s.dims])

            copy = dirs.copy()
            lpi = lputil.aggregate(lst, dirs, s.mode)

            if not np.array_equal(copy, dirs):
                raise Violation('aggregate changes the direction matrix')

            both = poly.hull([s.pts, p])
            cons = [d for d in np.vstack([dirs, -dirs]) if d.any()]
            s.fresh(lpi, poly.from_constraints(cons, [float((both @ d).max()) for d in cons]))
        return True

    return rv


def op_bloat(s):
    'bloating'
    if s.curcut:
        return False
    lputil.bloat(s.lpi, 0.17)
    s.pts = poly.msum(s.pts, poly.from_box([[-0.17, 0.17]] * s.dims))
    s.fixed = True
    return True


def op_clone(s):
    'go on with a clone'
    s.keep('original of a clone')
    s.lpi = s.lpi.clone()
    return True


OPS = {
    'step': op_step, 'collapse': op_collapse, 'istep': op_istep, 'scale': op_scale, 'icut': op_icut, 'ccut': op_ccut,
    'reset': op_reset, 'resetlin': op_resetlin, 'resetdim': op_resetdim,
    'hull_pt': combine('hull', 'pt', True), 'hull_zono': combine('hull', 'zono', False),
    'hull3': combine('hull3', 'inputs', True), 'msum_zono': combine('msum', 'zono', True),
    'msum_inputs': combine('msum', 'inputs', False), 'templ': combine('templ', 'reset', True), 'bloat': op_bloat,
    'clone': op_clone, 'templ2': combine('steep', 'zono', False),
}


def operand_name(dims, name):
    'is the set available?'
    return name in sets.NAMES[dims]


QUICK_DEEP = ('box', 'seg', 'cut', 'resetm', 'inputs', 'hull') # starts of the deepest exploration in the quick tier


def configs(tier):
    'starting sets x first operations'

    quick = tier == 'quick'

    for dims in (1, 2, 3):
        depth = (3 if dims == 2 else 2) + (0 if quick else 1)

        for name in sets.NAMES[dims]:
            for op in OPS:
                if dims == 3 and op == 'hull_pt':
                    continue

                if dims == 2 and quick:
                    yield {'kind': 'ops', 'dims': dims, 'start': name, 'first': op, 'depth': 2, 'queries': True}

                    if name not in QUICK_DEEP:
                        continue

                yield {'kind': 'ops', 'dims': dims, 'start': name, 'first': op, 'depth': depth,
                       'queries': not quick or depth < 3}

    for dims in (1, 2, 3):
        for rows in range(1, dims + 2):
            yield {'kind': 'dirs', 'dims': dims, 'rows': rows, 'vals': [-1, 0, 0.5, 1] if dims < 3 or not quick else [0, 1]}


def compare(s, what, st, queries):
    'the set and everything that can be asked about it'

    dims = s.dims
    size = max(1.0, float(np.abs(s.pts).max()))
    tol = 1e-5 * size
    dirs = poly.directions(dims)
    want = poly.supports(s.pts, dirs)
    got = model.lpi_supports(s.lpi, dirs)

    if float(np.abs(got - want).max()) > tol:
        i = int(np.abs(got - want).argmax())
        raise Violation(f'{what}: max of {dirs[i].round(3).tolist()} * x is {got[i]:.7f}, should be {want[i]:.7f}')

    if queries:
        ask(s, what, want, dirs)

    for lpi, pts, snap, name in s.others:
        if not same(snap, snapshot(lpi)):
            raise Violation(f'{what}: the {name} was changed')

        if queries:
            got = model.lpi_supports(lpi, poly.directions(lpi.dims)[:3])
            size = max(1, np.abs(pts).max())

            if float(np.abs(got - poly.supports(pts, poly.directions(lpi.dims)[:3])).max()) > 1e-5 * size:
                raise Violation(f'{what}: the {name} is another set now')

    st.states += 1


def ask(s, what, want, dirs):
    'every query'

    size = max(1.0, float(np.abs(s.pts).max()))
    tol = 1e-5 * size
    before = snapshot(s.lpi)
    rad = lputil.compute_radius_inf(s.lpi)

    if abs(rad - float(np.abs(s.pts).max())) > tol:
        raise Violation(f'{what}: radius is {rad}, should be {float(np.abs(s.pts).max())}')

    center = lputil.get_box_center(s.lpi)
    lo, hi = s.pts.min(axis=0), s.pts.max(axis=0)

    if np.abs(np.array(center) - (lo + hi) / 2).max() > tol:
        raise Violation(f'{what}: centre of the box is {center}, should be {((lo + hi) / 2).tolist()}')

    if not np.array_equal(lputil.get_basis_matrix(s.lpi), s.basis):
        raise Violation(f'{what}: basis matrix is {lputil.get_basis_matrix(s.lpi).tolist()}, should be {s.basis.tolist()}')

    if not s.lpi.is_feasible():
        raise Violation(f'{what}: is_feasible() is false')

    mid = s.pts.mean(axis=0)

    for p in s.pts[:3]:
        inside = mid + (p - mid) * (1 - 1e-3)

        if not lputil.is_point_in_lpi(inside.tolist(), s.lpi):
            raise Violation(f'{what}: point {inside.tolist()} of the set is reported as not inside')

    for d, w in zip(dirs[::3], want[::3]):
        p = s.pts[int((s.pts @ d).argmax())] + d * 1e-2 * size

        if lputil.is_point_in_lpi(p.tolist(), s.lpi):
            raise Violation(f'{what}: point {p.tolist()} is reported as inside')

        # half-spaces d x >= w -+ small
        for eps, ans in ((-1e-2 * size, True), (1e-2 * size, False)):
            lc = LinearConstraint(csr_matrix(np.array([-d])), -(w + eps))
            res = lputil.check_intersection(s.lpi, lc)

            if bool(res) != ans:
                raise Violation(f'{what}: intersection with {(-d).round(3).tolist()} x <= {-(w + eps):.6f} is '
                                f'reported as {res}')

    if not same(before, snapshot(s.lpi)):
        raise Violation(f'{what}: a query changed the program')


def check_ops(cfg, st):
    'all continuations'

    for rest in itertools.product(OPS, repeat=cfg['depth'] - 1):
        seq = (cfg['first'],) + rest

        if cfg['dims'] == 3 and 'hull_pt' in seq:
            continue

        s = SetState(cfg['dims'], cfg['start'])
        s.mode = sets.mode_of(cfg['dims'], 2)
        done = True

        try:
            for op in seq:
                if not OPS[op](s):
                    done = False # not applicable here
                    break
                st.transitions += 1

            if done:
                compare(s, f'{cfg["dims"]}-d {cfg["start"]}, {list(seq)}', st, cfg['queries'])
        except Marginal:
            st.count('ties')
            continue
        except Violation:
            raise
        except Exception as e:
            raise Violation(f'{cfg["dims"]}-d {cfg["start"]}, {list(seq)}: exception {type(e).__name__}: {e}') from e

        if done:
            st.traces += 1
            st.count('histories')


def check_dirs(cfg, st):
    'orthonormal direction matrices'

    dims = cfg['dims']

    for flat in itertools.product(cfg['vals'], repeat=dims * cfg['rows']):
        mat = np.array(flat, dtype=float).reshape(cfg['rows'], dims)
        copy = mat.copy()
        out = lputil.reorthogonalize_matrix(mat, dims)
        what = f'reorthogonalize_matrix({mat.tolist()})'

        if not np.array_equal(mat, copy):
            raise Violation(f'{what}: the argument was changed')

        orthonormal(out, dims, what)

        # the span of the first rows is kept, in order
        k = 0

        for i in range(cfg['rows']):
            rank = np.linalg.matrix_rank(mat[:i + 1], tol=1e-9)

            if rank > k:
                k = rank
                proj = out[:k].T @ (out[:k] @ mat[i])

                if np.abs(proj - mat[i]).max() > 1e-9:
                    raise Violation(f'{what}: row {i} is not in the span of the first {k} directions')

        if cfg['rows'] == dims:
            pt = np.array(flat[:dims], dtype=float) + 0.25
            ptc = pt.copy()
            a = csr_matrix(mat)
            out = lputil.make_direction_matrix(pt, a)
            what = f'make_direction_matrix({pt.tolist()}, {mat.tolist()})'

            if not np.array_equal(pt, ptc) or not np.array_equal(a.toarray(), copy):
                raise Violation(f'{what}: an argument was changed')

            orthonormal(out, dims, what)
            vec = mat @ pt # the derivative at the point

            for k in range(1, dims + 1): # krylov space, until it stops growing
                basis = out[:k]

                if np.abs(vec).max() < 1e-6:
                    break

                if np.abs(basis.T @ (basis @ vec) - vec).max() > 1e-7:
                    raise Violation(f'{what}: power {k} of the matrix times the point is not in the first directions')

                nxt = mat @ vec

                if np.abs(basis.T @ (basis @ nxt) - nxt).max() < 1e-6:
                    break

                vec = nxt

        st.states += 1
        st.transitions += 1
        st.traces += 1
        st.count('direction_matrices')


def orthonormal(out, dims, what):
    'check'

    if out.shape != (dims, dims) or np.abs(out @ out.T - np.identity(dims)).max() > 1e-7:
        raise Violation(f'{what}: the result {out.tolist()} is not orthonormal')


def check(cfg):
    'one part of the space'

    st = Stats()
    (check_ops if cfg['kind'] == 'ops' else check_dirs)(cfg, st)
    st.sample = cfg
    return st


def min_counts(_tier):
    'vacuity guard'
    return {'histories': 10000, 'direction_matrices': 1000}
