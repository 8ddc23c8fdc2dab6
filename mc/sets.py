'''
A pool of ways to construct a set with the code under test, each with its vertices computed by the reference.

make(dims, name) -> (lpi, vertices, mode); every call constructs a fresh lpi.
'''

import numpy as np
from scipy.sparse import csr_matrix

from mc import poly

from hylaa import lputil
from hylaa.hybrid_automaton import HybridAutomaton

ROT = np.array([[0.8, -0.55], [0.45, 0.9]])
MAT3 = np.array([[0.9, 0.2, -0.1], [-0.3, 0.7, 0.4], [0.1, -0.2, 1.1]])


def mode_of(dims, inputs=0, mode_id=0):
    'a mode'

    ha = HybridAutomaton()
    for k in range(mode_id):
        ha.new_mode(f'pad{k}')
    m = ha.new_mode(f'm{dims}')
    m.set_dynamics(np.identity(dims))

    if inputs:
        b, c, rhs = input_data(dims, inputs)
        m.set_inputs(b, c, rhs)

    return m


def input_data(dims, inputs):
    'B, C, rhs of the inputs used in the pool'

    b = np.array([[((3 * i + 2 * j) % 5 - 1.5) * 0.4 for j in range(inputs)] for i in range(dims)])
    c = []
    rhs = []

    for j in range(inputs):
        row = [0.0] * inputs
        row[j] = 1.0
        c.append(row)
        rhs.append(0.3 + 0.1 * j)
        c.append([-x for x in row])
        rhs.append(0.2 - 0.15 * j)

    if inputs > 1:
        c.append([1.0] * inputs)
        rhs.append(0.35)

    return b, c, rhs


_POINTS2 = {
    'box': [[0.1, 0.9], [0.4, 1.2]],
    'seg': [[0.3, 0.3], [0.2, 1.3]],
    'pt': [[0.57, 0.57], [0.83, 0.83]],
    'negbox': [[-1.4, -0.6], [-0.3, 0.45]],
}

NAMES = {
    1: ('box', 'pt', 'zono', 'stepped', 'reset', 'inputs', 'hull', 'msum', 'bloat'),
    2: ('box', 'seg', 'pt', 'negbox', 'tri', 'zono', 'stepped', 'cut', 'reset', 'resetm', 'inputs', 'hull', 'msum',
        'bloat', 'inputset'),
    3: ('box', 'flat', 'con', 'zono', 'stepped', 'cut', 'reset', 'inputs', 'hull', 'bloat'),
}


def base_box(dims, name='box'):
    'a box'

    if dims == 1:
        return [[-0.35, 0.8]] if name == 'box' else [[0.43, 0.43]]
    if dims == 2:
        return _POINTS2[name]

    return [[0.1, 0.5], [-0.2, 0.7], [0.9, 1.1]] if name == 'box' else [[0.1, 0.5], [0.3, 0.3], [-0.6, 0.2]]


def step_mat(dims):
    'one-step matrix used in the pool'

    return {1: np.array([[1.3]]), 2: ROT, 3: MAT3}[dims]


def make(dims, name): # pylint: disable=too-many-return-statements,too-many-locals,too-many-branches,too-many-statements
    'construct a set'

    mode = mode_of(dims)

    if name in ('box', 'seg', 'pt', 'negbox', 'flat'):
        box = base_box(dims, name)
        return lputil.from_box(box, mode), poly.from_box(box), mode

    if name in ('tri', 'con'):
        con = {2: [[[-1, 0], [0, -1], [1, 1]], [0.12, -0.21, 1.58]],
               3: [[[-1, 0, 0], [0, -1, 0], [0, 0, -1], [1, 1, 1]], [0.1, 0.2, -0.1, 1.3]]}[dims]
        return lputil.from_constraints(con[0], con[1], mode), poly.from_constraints(con[0], con[1]), mode

    if name == 'zono':
        c, gens = {1: ([0.4], [[0.3], [-0.2]]),
                   2: ([0.5, 0.7], [[0.3, 0.1], [-0.1, 0.25], [0.15, 0.15]]),
                   3: ([0.5, -0.7, 0.2], [[0.3, 0.1, 0], [-0.1, 0.25, 0.4]])}[dims]
        return lputil.from_zonotope(c, gens, mode), poly.from_zonotope(c, gens), mode

    if name == 'stepped':
        lpi, pts, _ = make(dims, 'box')
        m = step_mat(dims)
        lputil.set_basis_matrix(lpi, m)
        return lpi, poly.linmap(pts, m), mode

    if name == 'cut':
        lpi, pts, _ = make(dims, 'stepped')
        a = np.array([1.0, 0.4, -0.3][:dims])
        b = float(np.median(poly.supports(pts, np.array([a, -a])) * [1, -1]))
        lputil.add_curtime_constraints(lpi, csr_matrix([a]), np.array([b]))
        return lpi, poly.clip_raw(pts, a, b), mode

    if name == 'reset':
        # from another dimension, after a step
        other = {1: 2, 2: 3, 3: 2}[dims]
        lpi, pts, _ = make(other, 'stepped')
        r = np.array([[0.7, -0.4, 0.2], [0.1, 0.9, 0.5], [0.3, 0.3, -0.6]])[:dims, :other]
        lputil.add_reset_variables(lpi, 1, 0, reset_csr=csr_matrix(r))
        return lpi, poly.linmap(pts, r), mode

    if name == 'resetm':
        lpi, pts, _ = make(dims, 'cut')
        r = ROT.T
        mm = np.array([[1, 0.5], [0, 1.0]])
        c = np.array([[1, 0], [-1, 0], [0, 1], [0, -1], [1, 1]], dtype=float)
        rhs = np.array([0.2, 0.1, 0.3, 0.1, 0.4])
        lputil.add_reset_variables(lpi, 1, 2, reset_csr=csr_matrix(r), minkowski_csr=csr_matrix(mm),
                                   minkowski_constraints_csr=csr_matrix(c), minkowski_constraints_rhs=rhs)
        return lpi, poly.msum(poly.linmap(pts, r), poly.linmap(poly.from_constraints(c, rhs), mm)), mode

    if name == 'inputs':
        inputs = 2
        mode = mode_of(dims, inputs)
        box = base_box(dims)
        lpi = lputil.from_box(box, mode)
        m = step_mat(dims)
        b, c, rhs = input_data(dims, inputs)
        lputil.add_input_effects_matrix(lpi, b, mode)
        lputil.add_input_effects_matrix(lpi, m @ b, mode)
        lputil.set_basis_matrix(lpi, m @ m)
        u = poly.from_constraints(c, rhs)
        pts = poly.msum(poly.linmap(poly.from_box(box), m @ m), poly.msum(poly.linmap(u, b), poly.linmap(u, m @ b)))
        return lpi, pts, mode

    if name == 'hull':
        a, p, _ = make(dims, 'stepped')
        b, q, _ = make(dims, 'zono')
        return lputil.aggregate_chull([a, b], mode), poly.hull([p, q]), mode

    if name == 'msum':
        a, p, _ = make(dims, 'stepped')
        b, q, _ = make(dims, 'zono')
        return lputil.minkowski_sum([a, b], mode), poly.msum(p, q), mode

    if name == 'bloat':
        a, p, _ = make(dims, 'stepped')
        lputil.bloat(a, 0.23)
        return a, poly.msum(p, poly.from_box([[-0.23, 0.23]] * dims)), mode

    if name == 'inputset':
        b, c, rhs = input_data(dims, 3)
        lpi = lputil.from_input_constraints(b, c, rhs, mode)
        return lpi, poly.linmap(poly.from_constraints(c, rhs), b), mode

    raise KeyError(name)
