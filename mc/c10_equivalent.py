'C10: equivalent descriptions of a model give equal results'

import copy
import itertools

import numpy as np
from scipy.sparse import csr_matrix, csc_matrix, coo_matrix, isspmatrix

from mc import model
from mc.c01_exact_reach import A, INV, GUARD, RESET, INIT
from mc.c02_inputs_exact import INP
from mc.engine import Stats, Violation

from hylaa import lputil
from hylaa.core import Core
from hylaa.hybrid_automaton import HybridAutomaton
from hylaa.stateset import StateSet

PROP = 'C10'

DESCRIPTION = {
    'what': 'Every automaton of the family is described in all pairwise combinations (thorough: triple-wise) of: matrix '
            'format (lists, dense, sparse formats, unsorted, with explicit zeros or repeated entries, integers, '
            'Fortran order), vector format, order of modes, transitions and rows, duplicated, scaled and redundant rows, '
            'order of variables, constructor of the initial set and sharing of equal objects. The sets of every run must be '
            'those of the reference (for the permuted variables), and the objects passed in must be unchanged afterwards.',
    'bounds': '2-3 dims, up to 5 modes, up to 8 steps',
    'assumptions': ['12-24 support directions, tolerance 1e-4', 'ties within 1e-5 are not judged'],
}

CATEGORIES = {
    'fmt': ('list', 'array', 'csr', 'csc', 'coo', 'zeros', 'repeated', 'int', 'fortran', 'intcsr'),
    'vec': ('list', 'array', 'tuple', 'column', 'int'),
    'order': ('as is', 'modes', 'transitions', 'rows'),
    'rows': ('as is', 'twice', 'scaled', 'redundant'),
    'perm': (False, True),
    'init': ('box', 'con', 'zono', 'boxarray', 'concsr', 'conall'),
    'shared': (False, True),
}


def automata(tier):
    'the automata'

    quick = tier == 'quick'
    ibox = ['box', [[0, 1], [1, 2]]]
    irows = [[[1, 1], 3], [[-1, 0], 2]]

    for d, r, init, u in itertools.product((('dint', 'rot', 'gen'), ('rot', 'zero', 'dint')), ('lin', 'mink'),
                                           (INIT['box'], ibox), ('none', 'sym', 'box2')):
        if quick and (u == 'sym') != (r == 'mink'):
            continue

        modes = {nm: {'A': A[a], 'inv': irows if nm == 'p' and init is ibox else INV['xle'] if nm == 'p'
                      else INV['xyle'] if nm == 'r' else []} for nm, a in zip('pqr', d)}
        modes['p'].update(INP[u])
        modes['e'] = {'A': None}
        yield {'h': 0.3, 'n': 4, 'modes': modes,
               'trans': [{'from': 'p', 'to': 'q', 'guard': GUARD['xge'], **RESET[r]},
                         {'from': 'p', 'to': 'r', 'guard': [[[-1, 0], -1], [[0, 1], 2]], **RESET['id']},
                         {'from': 'q', 'to': 'r', 'guard': GUARD['corner'], **RESET['swap']},
                         {'from': 'q', 'to': 'e', 'guard': [[[-1, -0.4], -1.6]]}],
               'init': [['p'] + init], 'set': {}}

    # clocks, with the optimization of time-triggered transitions
    for th, opt in itertools.product((0.95, 0.5), (True, False)):
        modes = {'p': {'A': [[-0.5, 0, 0], [0, 0, 1], [0, 0, 0]], 'inv': [[[0, 1, 0], th]]},
                 'q': {'A': [[0.25, 0, 0], [0, 0, 1], [0, 0, 0]], 'inv': [[[0, 1, 0], th]]}}
        reset = [[1, 0, 0], [0, 0, 0], [0, 0, 1]]
        yield {'h': 0.3, 'n': 7, 'modes': modes,
               'trans': [{'from': 'p', 'to': 'q', 'guard': [[[0, -1, 0], -th]], 'R': reset},
                         {'from': 'q', 'to': 'p', 'guard': [[[0, -1, 0], -th]], 'R': reset}],
               'init': [['p', 'box', [[1, 2], [0, 0], [1, 1]]]], 'set': {'optimize_tt_transitions': opt}}

    # integer thresholds of a clock which is sampled there: equal objects are relaxed for each of their transitions
    modes = {nm: {'A': [[-0.5, 0, 0], [0, 0, 1], [0, 0, 0]], 'inv': [[[0, 1, 0], 1]]} for nm in 'pq'}
    yield {'h': 0.3, 'n': 7, 'modes': modes,
           'trans': [{'from': 'p', 'to': 'q', 'guard': [[[0, -1, 0], -1]], 'R': reset},
                     {'from': 'q', 'to': 'p', 'guard': [[[0, -1, 0], -1]], 'R': reset}],
           'init': [['p', 'box', [[1, 2], [0, 0], [1, 1]]]], 'set': {'optimize_tt_transitions': True}}


def configs(tier):
    'automata x combinations of descriptions'

    names = sorted(CATEGORIES)
    depth = 2 if tier == 'quick' else 3

    for spec in automata(tier):
        seen = set()

        for chosen in itertools.combinations(names, depth):
            for vals in itertools.product(*[CATEGORIES[c] for c in chosen]):
                desc = {c: CATEGORIES[c][0] for c in names}
                desc.update(zip(chosen, vals))
                key = tuple(sorted(desc.items()))

                if key not in seen:
                    seen.add(key)
                    yield dict(spec, desc=desc)


class Describe:
    'makes the objects'

    def __init__(self, desc):
        self.desc = desc
        self.passed = [] # (object, deep copy)
        self.memo = {}

    def keep(self, key, obj):
        'note an object that is passed in'

        if self.desc['shared']:
            if key in self.memo:
                return self.memo[key]

            self.memo[key] = obj

        self.passed.append((obj, copy.deepcopy(obj)))
        return obj

    def mat(self, rows, fmt=None):
        'a matrix'

        fmt = fmt or self.desc['fmt']
        arr = np.array(rows, dtype=float)
        integral = (arr == np.round(arr)).all()

        if fmt == 'list':
            rv = [[int(x) if x == int(x) else x for x in row] for row in arr.tolist()]
        elif fmt == 'array' or fmt == 'int' and not integral:
            rv = arr
        elif fmt == 'int':
            rv = arr.astype(int)
        elif fmt == 'fortran':
            rv = np.asfortranarray(arr)
        elif fmt == 'csc':
            rv = csc_matrix(arr)
        elif fmt == 'coo':
            rv = coo_matrix(arr)
        elif fmt == 'intcsr' and integral:
            rv = csr_matrix(arr.astype(int))
        elif fmt == 'zeros':
            # all entries are stored, last ones first
            h, w = arr.shape
            rv = csr_matrix((arr[:, ::-1].ravel().copy(), np.tile(np.arange(w)[::-1], h), np.arange(h + 1) * w),
                            shape=(h, w))
        elif fmt == 'repeated':
            # every entry is stored as a sum
            h, w = arr.shape
            rv = csr_matrix((np.hstack([arr / 4, 3 * arr / 4]).ravel(), np.tile(np.arange(w), 2 * h),
                             np.arange(h + 1) * 2 * w), shape=(h, w))
        else:
            rv = csr_matrix(arr)

        return self.keep((fmt, arr.tobytes(), arr.shape), rv)

    def vec(self, vals):
        'a vector'

        fmt = self.desc['vec']
        arr = np.array(vals, dtype=float)

        if fmt == 'list':
            rv = [int(x) if x == int(x) else x for x in arr.tolist()]
        elif fmt == 'tuple':
            rv = tuple(arr.tolist())
        elif fmt == 'column':
            rv = arr.reshape(-1, 1).copy()
        elif fmt == 'int' and (arr == np.round(arr)).all():
            rv = arr.astype(int)
        else:
            rv = arr

        return self.keep((fmt, 'vec', arr.tobytes()), rv)

    def cons(self, rows, rhs, var=True):
        'constraints, with the rewriting of rows'

        rows, rhs = [list(r) for r in rows], list(rhs)
        kind = self.desc['rows']

        if kind == 'twice':
            rows, rhs = rows + rows, rhs + rhs
        elif kind == 'scaled':
            f = [3.0, 0.5, 1.7, 0.25]
            rows, rhs = [[f[k % 4] * x for x in r] for k, r in enumerate(rows)], [f[k % 4] * x for k, x in enumerate(rhs)]
        elif kind == 'redundant':
            rows, rhs = rows + [rows[0]], rhs + [rhs[0] + 0.5]

        if self.desc['order'] == 'rows':
            rows, rhs = rows[::-1], rhs[::-1]

        return self.mat([self.pvec(r) if var else r for r in rows]), self.vec(rhs)

    def pvec(self, row):
        'a row over the variables of a mode, permuted'
        return list(row)[::-1] if self.desc['perm'] else list(row)

    def unchanged(self):
        'are the objects that were passed in unchanged?'

        for obj, old in self.passed:
            if isspmatrix(obj):
                if obj.shape != old.shape or obj.format != old.format or (obj != old).nnz:
                    raise Violation(f'a matrix was changed by the library: {old.toarray().tolist()} to '
                                    f'{obj.toarray().tolist()}')
            elif isinstance(obj, np.ndarray):
                if obj.shape != old.shape or not (obj == old).all():
                    raise Violation(f'an array was changed by the library: {old.tolist()} to {obj.tolist()}')
            elif obj != old:
                raise Violation(f'a list was changed by the library: {old} to {obj}')


def build(spec, d): # pylint: disable=too-many-branches
    'the automaton in the chosen description: (core, initial states)'

    desc = d.desc
    ha = HybridAutomaton()
    modes = {}
    names = list(spec['modes'])

    for name in names[::-1] if desc['order'] == 'modes' else names:
        m = spec['modes'][name]
        mode = ha.new_mode(name)
        modes[name] = mode

        if m.get('A') is None:
            continue

        mode.set_dynamics(d.mat([d.pvec(r) for r in d.pvec(m['A'])]))

        if m.get('inv'):
            mode.set_invariant(*d.cons([c[0] for c in m['inv']], [c[1] for c in m['inv']]))

        if m.get('B') is not None:
            mode.set_inputs(d.mat(d.pvec(m['B'])), *d.cons(m['U'][0], m['U'][1], var=False))

    for t in spec['trans'][::-1] if desc['order'] == 'transitions' else spec['trans']:
        tr = ha.new_transition(modes[t['from']], modes[t['to']])
        tr.set_guard(*d.cons([c[0] for c in t['guard']], [c[1] for c in t['guard']]))

        if t.get('R') is not None or t.get('M') is not None:
            reset = None if t.get('R') is None else d.mat([d.pvec(r) for r in d.pvec(t['R'])])

            if t.get('M') is not None:
                c, rhs = d.cons(t['MC'][0], t['MC'][1], var=False)

                if getattr(rhs, 'ndim', 1) == 2:
                    rhs = d.keep('flat' + repr(rhs.tolist()), rhs[:, 0].copy()) # has to be a vector

                tr.set_reset(reset, d.mat(d.pvec(t['M'])), c, rhs)
            else:
                tr.set_reset(reset)

    init = []

    for name, kind, box in spec['init']:
        assert kind == 'box'
        init.append(StateSet(describe_box(d, d.pvec(box), modes[name]), modes[name]))

    core = Core(ha, model.build_settings(spec))
    core.setup(init)

    return core


def describe_box(d, box, mode):
    'the initial set'

    kind = d.desc['init']
    dims = len(box)

    if kind == 'box':
        return lputil.from_box(d.keep(repr(box), [tuple(x) for x in box]), mode)

    if kind == 'boxarray':
        return lputil.from_box(d.keep(repr(box), np.array(box)), mode)

    if kind == 'zono':
        center = [(lo + hi) / 2 for lo, hi in box]
        gens = [[(hi - lo) / 2 if i == k else 0.0 for i in range(dims)] for k, (lo, hi) in enumerate(box) if hi > lo]
        center, gens = (center, gens) if d.desc['vec'] == 'list' else (np.array(center), np.array(gens))
        return lputil.from_zonotope(d.keep(repr(center), center), d.keep(repr(gens), gens), mode)

    rows, rhs = [], []

    for i, (lo, hi) in enumerate(box):
        rows += [[float(k == i) for k in range(dims)], [-float(k == i) for k in range(dims)]]
        rhs += [hi, -lo]

    if kind == 'conall':
        # with a redundant corner
        rows.append([1.0] * dims)
        rhs.append(sum(hi for _, hi in box))

    mat = d.mat(rows, 'csr' if kind == 'concsr' else None)
    vec = d.vec(rhs)

    if getattr(vec, 'ndim', 1) == 2:
        vec = d.keep('flat' + repr(vec.tolist()), vec[:, 0].copy()) # has to be a vector

    return lputil.from_constraints(mat, vec, mode)


_REF = {}


def check(cfg):
    'one description'

    st = Stats()
    key = repr((cfg['h'], cfg['n'], cfg['modes'], cfg['trans'], cfg['init']))

    if key not in _REF:
        ref = model.Ref(cfg)
        _REF.clear()
        _REF[key] = (ref.run(max_states=20000), bool(ref.error_hits), ref.states, ref.transitions)

    robs, unsafe, states, transitions = _REF[key]

    if cfg['desc']['perm']:
        robs = {k: [(path, pts[:, ::-1]) for path, pts in v] for k, v in robs.items()}

    d = Describe(cfg['desc'])
    core = build(cfg, d)
    iobs = model.explore_impl(core)
    model.compare_exact(robs, iobs)

    if bool(core.result.has_concrete_error) != unsafe:
        raise Violation(f'error reachable: {unsafe}, reported: {core.result.has_concrete_error}')

    d.unchanged()

    st.states, st.transitions = states, transitions
    st.traces = sum(len(v) for v in robs.values())
    st.count('objects', len(d.passed))
    st.sample = {'sets compared': st.traces, 'objects': len(d.passed)}
    return st


def min_counts(_tier):
    'vacuity guard'
    return {'objects': 10000}
