'C13: the linear program object behaves as the set of rows and columns put into it'

import itertools

import numpy as np
from scipy.sparse import csr_matrix, csc_matrix
import swiglpk as glpk

from mc import exactlp
from mc.exactlp import LE, GE, EQ
from mc.engine import Stats, Violation

from hylaa.lpinstance import LpInstance, UnsatError, SwigArray

PROP = 'C13'

DESCRIPTION = {
    'what': 'Every sequence of operations up to the depth (columns and rows of each type are added, matrix blocks set by '
            'rows, by columns and by raw vectors, right-hand sides changed, directions set, programs solved, bases reset, '
            'clones taken where either copy is used on) from each initial program. After each sequence everything that '
            'can be read back, the feasibility and the optimum in several directions (and of all clones) are compared '
            'with the plain mathematical program, solved exactly over the rationals.',
    'bounds': 'depth 3 (thorough 4) over 24 operations from 5 initial programs, depth 4 (thorough 6) over 10 operations from 3; '
              'programs of 4-8 columns and 6-14 rows',
    'assumptions': ['optimal values within 1e-6; a program that is unbounded is reported by an exception'],
}

TYPES = {LE: glpk.GLP_UP, GE: glpk.GLP_LO, EQ: glpk.GLP_FX}


class RefLp:
    'the plain program'

    def __init__(self, names):
        self.names = list(names)
        self.rows = [] # [coefs, type, rhs]
        self.obj = [0.0] * len(names)

    def copy(self):
        'copy'
        rv = RefLp(self.names)
        rv.rows = [[list(c), t, r] for c, t, r in self.rows]
        rv.obj = list(self.obj)
        return rv

    def add_rows(self, types, rhs):
        'empty rows'
        for t, r in zip(types, rhs):
            self.rows.append([[0.0] * len(self.names), t, float(r)])

    def set_row(self, i, col, vals):
        'a row is replaced as a whole'
        c = [0.0] * len(self.names)
        c[col:col + len(vals)] = [float(x) for x in vals]
        self.rows[i][0] = c

    def set_col(self, j, row, vals):
        'a column is replaced as a whole'
        for i, r in enumerate(self.rows):
            r[0][j] = float(vals[i - row]) if row <= i < row + len(vals) else 0.0

    def set_obj(self, vec, offset):
        'objective'
        self.obj = [0.0] * len(self.names)
        self.obj[offset:offset + len(vec)] = [float(x) for x in vec]


OFF = 2 # column of the first current-time variable


def initial(name):
    'initial program: (LpInstance, RefLp)'

    lp = LpInstance()
    lp.add_cols(['i0', 'i1', 'c0', 'c1'])
    ref = RefLp(['i0', 'i1', 'c0', 'c1'])
    lp.add_rows_equal_zero(2)
    ref.add_rows([EQ, EQ], [0, 0])

    rows = {
        'box': [[[1, 0, 0, 0], LE, 2], [[-1, 0, 0, 0], LE, 1], [[0, 1, 0, 0], LE, 3], [[0, -1, 0, 0], LE, -0.5]],
        'mixed': [[[1, 0, 0, 0], GE, -1], [[0, 1, 0, 0], GE, 0.5], [[1, 1, 0, 0], LE, 4], [[1, -1, 0, 0], EQ, 0.5]],
        'open': [[[1, 0, 0, 0], GE, 0], [[0, 1, 0, 0], LE, 1], [[0, 0, 0, 0], LE, 1], [[1, 1, 0, 0], GE, -2]],
        'empty': [[[1, 0, 0, 0], LE, 0], [[1, 0, 0, 0], GE, 1], [[0, 1, 0, 0], LE, 1], [[0, 1, 0, 0], GE, -1]],
        'point': [[[1, 0, 0, 0], EQ, 1], [[0, 1, 0, 0], LE, 0.5], [[0, -1, 0, 0], LE, -0.5], [[1, 1, 0, 0], LE, 1.5]],
    }[name]

    lp.add_rows_with_types([TYPES[t] for _, t, _ in rows], [r for _, _, r in rows])
    ref.add_rows([t for _, t, _ in rows], [r for _, _, r in rows])
    mat = [[1, 0, -1, 0], [0, 1, 0, -1]] + [r for r, _, _ in rows]
    lp.set_constraints_csr(csr_matrix(np.array(mat, dtype=float)))

    for i, r in enumerate(mat):
        ref.set_row(i, 0, r)

    lp.set_reach_vars(2, (0, 0), OFF, None)
    return lp, ref


class World:
    'the programs of a history: the current one, and clones taken on the way'

    def __init__(self, name):
        self.lp, self.ref = initial(name)
        self.kept = []


def solve_both(w, what, direction=None, columns=None, fail=True):
    'minimize'

    if direction is not None:
        w.ref.set_obj(direction, OFF)

    status, val = optimum(w.ref)

    try:
        res = w.lp.minimize(direction, columns=columns, fail_on_unsat=fail)
    except UnsatError:
        if status != 'infeasible' or not fail:
            raise Violation(f'{what}: reported as infeasible, the program is {status}') from None
        return
    except RuntimeError as e:
        if status != 'unbounded':
            raise Violation(f'{what}: {e}; the program is {status}') from None
        return

    if res is None:
        if status != 'infeasible' or fail:
            raise Violation(f'{what}: reported as infeasible, the program is {status}')
        return

    if status != 'optimal':
        raise Violation(f'{what}: a solution was returned although the program is {status}')

    res = [float(x) for x in res]

    if columns is not None:
        if len(res) != len(columns):
            raise Violation(f'{what}: {len(res)} values returned for columns {columns}')
        if any(o and i not in columns for i, o in enumerate(w.ref.obj)):
            return
        got = sum(w.ref.obj[c] * x for c, x in zip(columns, res))
    else:
        if len(res) != len(w.ref.names):
            raise Violation(f'{what}: {len(res)} values returned')

        for coefs, ty, rhs in w.ref.rows:
            v = sum(c * x for c, x in zip(coefs, res)) - rhs

            if (ty in (LE, EQ) and v > 1e-6) or (ty in (GE, EQ) and v < -1e-6):
                raise Violation(f'{what}: the returned point violates {coefs} {ty} {rhs} by {v}')

        got = sum(o * x for o, x in zip(w.ref.obj, res))

    if abs(got - val) > 1e-6:
        raise Violation(f'{what}: optimum {got}, should be {val}')


_OPT = {}


def optimum(ref):
    'exact optimum, memoized'

    key = (tuple((tuple(c), t, r) for c, t, r in ref.rows), tuple(ref.obj))

    if key not in _OPT:
        if len(_OPT) > 200000:
            _OPT.clear()
        _OPT[key] = exactlp.solve(ref.rows, ref.obj)

    return _OPT[key]


# ------------------------------------------------------------------------------------------------------- operations


def op_add_col(w):
    'add a column'
    names = ['n' + str(len(w.ref.names))]
    w.lp.add_cols(names)
    w.ref.names += names
    w.ref.obj.append(0.0)

    for r in w.ref.rows:
        r[0].append(0.0)


def add_rows(types, rhs, mat, how):
    'add rows and their coefficients'

    def rv(w):
        k = len(w.ref.rows)

        if how == 'le':
            w.lp.add_rows_less_equal(rhs if len(rhs) == 1 else np.array(rhs, dtype=float))
        elif how == 'zero':
            w.lp.add_rows_equal_zero(len(rhs))
        else:
            w.lp.add_rows_with_types([TYPES[t] for t in types], rhs)

        w.ref.add_rows(types, rhs)

        if mat is not None:
            w.lp.set_constraints_csr(csr_matrix(np.array(mat, dtype=float)), offset=(k, 0))
            for i, r in enumerate(mat):
                w.ref.set_row(k + i, 0, r)

    return rv


def set_csr(row, col, mat):
    'set a block by rows'

    def rv(w):
        w.lp.set_constraints_csr(csr_matrix(np.array(mat, dtype=float)), offset=(row, col) if row or col else None)
        for i, r in enumerate(mat):
            w.ref.set_row(row + i, col, r)

    return rv


def set_csc(row, col, mat):
    'set a block by columns'

    def rv(w):
        w.lp.set_constraints_csc(csc_matrix(np.array(mat, dtype=float)), offset=(row, col) if row or col else None)
        for j in range(len(mat[0])):
            w.ref.set_col(col + j, row, [r[j] for r in mat])

    return rv


def then_reset(op):
    'zero rows or columns make the basis singular, and GLPK may abort the process on that: start with a new basis'

    def rv(w):
        op(w)
        w.lp.reset_lp()

    return rv


def op_swig(w):
    'set the basis rows by raw vectors'

    vals = [[0.5, -1.0, -1.0], [2.0, 0.25, -1.0]]
    data = [SwigArray.as_double_array(v) for v in vals]
    w.lp.set_constraints_swigvec_rows(data, w.lp.bm_indices, [3, 3], 0)
    w.ref.set_row(0, 0, [0.5, -1, -1, 0])
    w.ref.set_row(1, 0, [2, 0.25, 0, -1])


def set_rhs(row, val):
    'change a right-hand side (row counted from the end if negative)'

    def rv(w):
        k = row if row >= 0 else len(w.ref.rows) + row
        w.lp.set_constraint_rhs(k, val)
        w.ref.rows[k][2] = float(val)

    return rv


def minimize(direction, columns, fail):
    'solve'

    def rv(w):
        solve_both(w, f'minimize({direction}, columns={columns})', direction, columns, fail)

    return rv


def op_feasible(w):
    'feasibility'
    check_feasible(w.lp, w.ref, 'is_feasible()')


def check_feasible(lp, ref, what):
    'feasibility of a program'

    status, _ = optimum(ref)

    try:
        got = lp.is_feasible()
    except RuntimeError:
        if status == 'unbounded':
            return
        raise

    if got != (status != 'infeasible'):
        raise Violation(f'{what}: {got}, the program is {status}')


def set_dir(vec, offset, csr):
    'set the direction only'

    def rv(w):
        v = csr_matrix(np.array([vec], dtype=float)) if csr else vec
        w.lp.set_minimize_direction(v, is_csr=csr, offset=offset)
        w.ref.set_obj(vec, OFF if offset is None else offset)

    return rv


def op_reset(w):
    'reset the basis'
    w.lp.reset_lp()


def op_clone_on(w):
    'go on with a clone'
    w.kept.append((w.lp, w.ref.copy()))
    w.lp = w.lp.clone()


def op_clone_keep(w):
    'go on with the original'
    w.kept.append((w.lp.clone(), w.ref.copy()))


OPS = {
    'add_col': op_add_col,
    'le': add_rows([LE], [1.5], [[1, 1, 0, 0]], 'le'),
    'le2': add_rows([LE, LE], [2.5, 0.75], [[0, 0, 1, 0], [0, 0, 0.5, -1]], 'le'),
    'types': add_rows([GE, EQ], [-0.5, 0.25], [[1, 0, 0, 0.5], [0, 0, 1, 0]], 'types'),
    'ge': add_rows([GE], [2.25], [[1, 1, 0, 0]], 'types'),
    'bare': add_rows([EQ], [0], None, 'zero'),
    'zero': add_rows([EQ], [0], [[0, 1, -1, 0]], 'zero'),
    'csr_top': set_csr(0, 0, [[2, 1, -1, 0], [0, 0.5, 0, -1]]),
    'csr_off': set_csr(3, 1, [[-1, 0.5]]),
    'csr_zero': then_reset(set_csr(1, 0, [[0, 0, 0, 0], [0, 2, 0, -1], [0, 0, 0, 0]])),
    'csc_zero': then_reset(set_csc(2, 0, [[0, 0.5], [0, 1]])),
    'csc_full': set_csc(0, 1, [[0.5], [1], [1], [0], [1], [-1]]),
    'csc_off': set_csc(1, 2, [[0, 1], [-1, 0]]),
    'swig': op_swig,
    'rhs_inf': set_rhs(2, -3),
    'rhs_in': set_rhs(2, 1),
    'rhs_last': set_rhs(-1, 0.5),
    'min_x': minimize([1, 0], [OFF, OFF + 1], False),
    'min_y': minimize([-1, 2], None, True),
    'min_again': minimize(None, None, False),
    'dir_csr': set_dir([0, -1], None, True),
    'dir_off': set_dir([1, 0, 0, -1], 0, True),
    'dir_dense': set_dir([0.5, 1, -1], 1, False),
    'feasible': op_feasible,
    'reset': op_reset,
    'clone_on': op_clone_on,
    'clone_keep': op_clone_keep,
}

# alphabet of the longer histories
CORE = ('add_col', 'le', 'csr_top', 'swig', 'rhs_inf', 'rhs_in', 'min_x', 'min_again', 'dir_off', 'clone_on')

INIT = ('box', 'mixed', 'open', 'empty', 'point')


def configs(tier):
    'initial program and first two operations; all continuations'

    quick = tier == 'quick'

    for init, a, b in itertools.product(INIT, OPS, OPS):
        yield {'init': init, 'first': [a, b], 'depth': 3 if quick else 4, 'ops': list(OPS)}

    for init, a, b in itertools.product(('box', 'open', 'mixed'), CORE, CORE):
        yield {'init': init, 'first': [a, b], 'depth': 4 if quick else 6, 'ops': list(CORE)}


def read_back(lp, ref, what):
    'everything that can be read'

    n, m = len(ref.names), len(ref.rows)

    if (lp.get_num_cols(), lp.get_num_rows()) != (n, m):
        raise Violation(f'{what}: size is {lp.get_num_rows()} x {lp.get_num_cols()}, should be {m} x {n}')

    if list(lp.get_names()) != ref.names:
        raise Violation(f'{what}: names {lp.get_names()}')

    if list(lp.get_types()) != [TYPES[t] for _, t, _ in ref.rows]:
        raise Violation(f'{what}: row types {lp.get_types()}')

    mat = np.array([c for c, _, _ in ref.rows])
    rhs = np.array([r for _, _, r in ref.rows])

    if not np.array_equal(lp.get_rhs(), rhs):
        raise Violation(f'{what}: right-hand sides {lp.get_rhs().tolist()}, should be {rhs.tolist()}')

    some = [m - 1, 0, 2]

    if not np.array_equal(lp.get_rhs(some), rhs[some]):
        raise Violation(f'{what}: right-hand sides of rows {some}: {lp.get_rhs(some).tolist()}')

    full = lp.get_full_constraints().toarray()

    if full.shape != mat.shape or not np.array_equal(full, mat):
        raise Violation(f'{what}: constraints are {full.tolist()}, should be {mat.tolist()}')

    for row in (0, m - 1):
        if not np.array_equal(lp.get_row(row).toarray()[0], mat[row]):
            raise Violation(f'{what}: row {row} is {lp.get_row(row).toarray()[0].tolist()}')

    x, y, wd, ht = 1, 1, n - 2, m - 1

    if not np.array_equal(lp.get_dense_constraints(x, y, wd, ht), mat[y:y + ht, x:x + wd]):
        raise Violation(f'{what}: dense block is {lp.get_dense_constraints(x, y, wd, ht).tolist()}')


def run(init, seq, st):
    'one history'

    w = World(init)

    for i, name in enumerate(seq):
        try:
            OPS[name](w)
        except Violation as e:
            raise Violation(f'{init}, {list(seq[:i + 1])}: {e}') from None
        st.transitions += 1

    what = f'{init}, {list(seq)}'

    for k, (lp, ref) in enumerate([(w.lp, w.ref)] + w.kept):
        where = what + (f' (copy {k})' if k else '')
        read_back(lp, ref, where)
        sub = World.__new__(World)
        sub.lp, sub.ref = lp, ref
        status, _ = optimum(ref)
        st.count('programs_' + status)
        solve_both(sub, where + ' current direction', None, None, False)

        for d in ([1, 1], [-1, 0.5]) if k == 0 else ([0, 1],):
            solve_both(sub, where + f' direction {d}', d, None, False)

        check_feasible(lp, ref, where + ' is_feasible()')
        read_back(lp, ref, where + ' (after solving)')
        st.states += 1

    st.traces += 1


def check(cfg):
    'all continuations of a prefix'

    st = Stats()

    for rest in itertools.product(cfg['ops'], repeat=cfg['depth'] - len(cfg['first'])):
        run(cfg['init'], tuple(cfg['first']) + rest, st)

    st.sample = {'init': cfg['init'], 'first': cfg['first'], 'depth': cfg['depth']}
    return st


def min_counts(_tier):
    'vacuity guard'
    return {'programs_optimal': 20000, 'programs_unbounded': 1000, 'programs_infeasible': 5000}
