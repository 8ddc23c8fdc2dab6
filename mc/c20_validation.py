'C20: ill-formed models are rejected, well-formed ones accepted'

import contextlib
import io
import math
from decimal import Decimal
from fractions import Fraction

import numpy as np

from mc import exactlp, model, poly
from mc.engine import Stats, Violation

from hylaa import aggstrat, lputil
from hylaa.core import Core
from hylaa.hybrid_automaton import HybridAutomaton
from hylaa.settings import HylaaSettings
from hylaa.stateset import StateSet

PROP = 'C20'

DESCRIPTION = {
    'what': 'Models are programs: sequences of calls (modes, dynamics, invariants, inputs, transitions, guards, resets, '
            'initial sets, settings). Every single mistake (every shape and value mutation of every argument of every call, '
            'every omitted, repeated or moved call) and pairs of mistakes are made; an independent validator decides whether '
            'the resulting model is well-formed. Ill-formed ones must be rejected with an exception before the first step, '
            'well-formed ones must be accepted and run to completion. After a rejected call the automaton must be '
            'as before: the corrected call is made and the results must be identical to those without the mistake.',
    'bounds': 'number of steps: 11 step sizes, 150 x 8 (80) time bounds; 5 programs of 10-16 calls; quick: all single mistakes, pairs of mistakes in neighbouring calls; thorough: all '
              'pairs in different calls',
    'assumptions': ['unbounded inputs or initial sets and fixed-value inputs '
                    'may be rejected or not'],
}

NAN = float('nan')

PROGRAMS = {
    'chain': [
        ('mode', 'p'), ('dyn', 'p', [[0.0, 1.0], [-1.0, 0.2]]), ('inv', 'p', [[1, 0], [0, 1]], [4.0, 3.0]),
        ('inp', 'p', [[0.0], [0.5]], [[1.0], [-1.0]], [0.2, 0.3]),
        ('mode', 'q'), ('dyn', 'q', [[-0.3, 0.0], [0.1, 0.4]]), ('mode', 'e'),
        ('trans', 't', 'p', 'q'), ('guard', 't', [[-1, -0.5]], [-0.7]), ('reset', 't', [[1, 0.5], [0, 1]], None, None, None),
        ('trans', 'u', 'q', 'e'), ('guard', 'u', [[0, -1], [1, 0]], [-1.6, 5]),
        ('init', 'p', 'box', [[0.1, 0.3], [0.2, 0.4]]),
    ],
    'dims': [
        ('mode', 'p'), ('dyn', 'p', [[0.1, -0.5], [0.5, 0.0]]),
        ('mode', 'q'), ('dyn', 'q', [[0, 1, 0], [-1, 0, 0], [0, 0, -0.4]]),
        ('inp', 'q', [[1, 0], [0, 1], [0, 0.5]], [[1, 0], [-1, 0], [0, 1], [0, -1]], [0.1, 0.1, 0.2, 0.3]),
        ('inv', 'q', [[1, 1, 1]], [6.0]),
        ('trans', 't', 'p', 'q'), ('guardtrue', 't'),
        ('reset', 't', [[1, 0], [0, 1], [0.5, -0.5]], [[0], [0.2], [1]], [[1], [-1]], [0.1, 0.1]),
        ('init', 'p', 'con', [[1, 0], [-1, 0], [0, 1], [1, -1]], [0.6, -0.2, 0.5, 0.4]),
        ('init', 'q', 'zono', [0.1, 0.2, 0.0], [[0.1, 0, 0.1], [0, 0.2, 0]]),
    ],
    'same': [
        ('mode', 'p'), ('dyn', 'p', [[-0.5]]), ('inv', 'p', [[1]], [2.0]),
        ('mode', 'q'), ('dyn', 'q', [[0.3]]), ('inv', 'q', [[-1]], [-0.1]),
        ('trans', 't', 'p', 'q'), ('guard', 't', [[1]], [0.8]),
        ('trans', 'u', 'q', 'p'), ('guard', 'u', [[-1]], [-1.5]), ('reset', 'u', [[0.5]], None, None, None),
        ('init', 'p', 'box', [[0.9, 1.0]]), ('init', 'q', 'box', [[0.9, 1.2]]),
    ],
    'mink': [
        ('mode', 'p'), ('dyn', 'p', [[0.0, 1.0], [0.0, 0.0]]),
        ('mode', 'q'), ('dyn', 'q', [[0.0, -0.5], [0.5, 0.0]]), ('inv', 'q', [[1, 0]], [8.0]),
        ('trans', 't', 'p', 'q'), ('guard', 't', [[-1, 0]], [-0.4]),
        ('reset', 't', None, None, [[1, 0], [-1, 0], [0, 1], [0, -1]], [0.1, 0.1, 0.2, 0]),
        ('init', 'p', 'box', [[0, 0.2], [1, 1]]),
    ],
    'order': [
        ('mode', 'e'), ('mode', 'p'), ('dyn', 'p', [[0.0, 1.0], [-1.0, 0.2]]),
        ('trans', 't', 'p', 'e'), ('guard', 't', [[-1, 0]], [-9.0]), ('mode', 'q'), ('dyn', 'q', [[0.3, 0.0], [0.1, 0.4]]),
        ('trans', 'u', 'p', 'q'), ('guard', 'u', [[0, 1]], [0.25]),
        ('trans', 'v', 'q', 'e'), ('guardtrue', 'v'),
        ('trans', 'w', 'q', 'p'), ('guard', 'w', [[-1, 0.5]], [-0.4]),
        ('init', 'p', 'box', [[0.1, 0.3], [0.2, 0.4]]),
    ],
}

SETTINGS = [('step_size', 0.0), ('step_size', -0.1), ('step_size', NAN), ('step_size', 'x'), ('step_size', None),
            ('step_size', math.inf), ('max_time', -1.0), ('max_time', NAN), ('max_time', math.inf), ('max_time', None),
            ('approx_model', 17), ('approx_model', 'lgg'), ('approx_model', None), ('agg_type', 9), ('agg_type', None),
            ('pop_type', 9), ('deagg_preference', 9), ('aggstrat', None), ('aggstrat', 'box'), ('plot_mode', 17), ('plot_mode', None),
            ('num_angles', 2), ('xdim_none', None), ('dims_len', None), ('typo', None), ('plot_typo', None), ('agg_typo', None),
            ('core_settings', None), ('core_ha', None), ('init_tuple', None), ('init_lpi', None), ('init_empty', None),
            ('init_other_ha', None), ('to_other_ha', None), ('stdout', 17), ('stdout', None)]


# ---- mutations -----------------------------------------------------------------------------------------------------------

def mat_mutations(m):
    'all mistakes in a matrix: (name, new value)'

    rows, cols = len(m), len(m[0])
    yield 'None', None
    yield 'str', 'abc'
    yield 'addrow', [list(r) for r in m] + [list(m[-1])]
    yield 'addcol', [list(r) + [r[-1]] for r in m]
    yield 'nan', [[NAN] + list(m[0][1:])] + [list(r) for r in m[1:]]
    yield 'inf', [list(r) for r in m[:-1]] + [list(m[-1][:-1]) + [math.inf]]
    yield 'strentry', [['a'] + list(m[0][1:])] + [list(r) for r in m[1:]]
    yield 'noneentry', [[None] + list(m[0][1:])] + [list(r) for r in m[1:]]
    yield 'complex', [[1j] + list(m[0][1:])] + [list(r) for r in m[1:]]
    yield '3d', [m, m]

    if rows > 1:
        yield 'droprow', [list(r) for r in m[:-1]]
        yield 'ragged', [list(r) for r in m[:-1]] + [list(m[-1]) + [0.0]]

    if cols > 1:
        yield 'dropcol', [list(r[:-1]) for r in m]

    if rows != cols:
        yield 'transpose', [list(r) for r in zip(*m)]

    yield 'zero', [[0.0] * cols for _ in m]
    yield 'negated', [[-x for x in r] for r in m]


def vec_mutations(v):
    'all mistakes in a vector'

    v = list(v)
    yield 'None', None
    yield 'str', 'abc'
    yield 'scalar', 1.5
    yield 'add', v + [v[-1]]
    yield 'drop', v[:-1]
    yield 'nan', [NAN] + v[1:]
    yield '-inf', [-math.inf] + v[1:]
    yield 'strentry', v[:-1] + ['a']
    yield 'noneentry', v[:-1] + [None]
    yield 'ragged', v[:-1] + [[v[-1], 1.0]]
    yield 'wide', [[x, x] for x in v]
    yield 'low', [x - 20.0 for x in v]
    yield 'zero', [0.0 for x in v]
    yield 'negated', [-x for x in v]


def box_mutations(b):
    'all mistakes in a box'

    yield 'None', None
    yield 'add', b + [[0.0, 1.0]]
    yield 'empty', []

    if len(b) > 1:
        yield 'drop', b[:-1]

    yield 'swapped', [[b[0][1] + 0.5, b[0][0]]] + b[1:]
    yield 'nan', b[:-1] + [[NAN, b[-1][1]]]
    yield 'nan2', b[:-1] + [[b[-1][0], NAN]]
    yield 'one', b[:-1] + [[b[-1][0]]]
    yield 'three', b[:-1] + [list(b[-1]) + [2.0]]
    yield 'str', b[:-1] + ['ab']
    yield 'scalar', b[:-1] + [1.0]
    yield 'far', [[40.0, 41.0] for _ in b]


ARGS = {'dyn': {2: mat_mutations}, 'inv': {2: mat_mutations, 3: vec_mutations},
        'inp': {2: mat_mutations, 3: mat_mutations, 4: vec_mutations}, 'guard': {2: mat_mutations, 3: vec_mutations},
        'reset': {2: mat_mutations, 3: mat_mutations, 4: mat_mutations, 5: vec_mutations}}


def call_mutations(prog, k):
    'all mutations of call number k: (name, new call)'

    op = prog[k]
    modes = [o[1] for o in prog if o[0] == 'mode']

    def subst(i, val):
        return tuple(val if j == i else x for j, x in enumerate(op))

    for i, fun in ARGS.get(op[0], {}).items():
        if op[i] is not None:
            for name, val in fun(op[i]):
                yield f'{i}:{name}', subst(i, val)
        else:
            good = {2: [[1.0]], 3: [[1.0]], 4: [[1.0], [-1.0]], 5: [0.1, 0.1]}[i]
            yield f'{i}:added', subst(i, good)

    if op[0] == 'init':
        if op[2] == 'box':
            for name, val in box_mutations(op[3]):
                yield name, subst(3, val)
        elif op[2] == 'con':
            for name, val in mat_mutations(op[3]):
                yield 'm:' + name, subst(3, val)
            for name, val in vec_mutations(op[4]):
                yield 'v:' + name, subst(4, val)
        else:
            for name, val in vec_mutations(op[3]):
                yield 'c:' + name, subst(3, val)
            for name, val in mat_mutations(op[4]):
                yield 'g:' + name, subst(4, val)

    names = {'dyn': (1,), 'inv': (1,), 'inp': (1,), 'trans': (2, 3), 'init': (1,)}

    for i in names.get(op[0], ()):
        for m in modes:
            if m != op[i]:
                yield f'{i}:{m}', subst(i, m)

    if op[0] in ('guard', 'guardtrue', 'reset'):
        for t in [o[1] for o in prog if o[0] == 'trans']:
            if t != op[1]:
                yield f'1:{t}', subst(1, t)


def programs_of(prog, mut):
    'apply a mutation: (kind, call, index of the mutation or target position); returns the program and the replaced call'

    kind, k, arg = mut

    if kind == 'arg':
        name, call = list(call_mutations(prog, k))[arg]
        return prog[:k] + [call] + prog[k + 1:], name

    if kind == 'omit':
        return prog[:k] + prog[k + 1:], 'omitted'

    if kind == 'dup':
        return prog[:k + 1] + [prog[k]] + prog[k + 1:], 'repeated'

    rest = prog[:k] + prog[k + 1:]
    return rest[:arg] + [prog[k]] + rest[arg:], f'moved to {arg}'


def mutations(prog):
    'all single mutations'

    for k, op in enumerate(prog):
        for i, _ in enumerate(call_mutations(prog, k)):
            yield 'arg', k, i

        if op[0] not in ('mode', 'trans'):
            yield 'omit', k, None

        yield 'dup', k, None

        # move behind the calls which introduce its names only
        for pos in range(len(prog)):
            if pos != k:
                yield 'move', k, pos


# ---- reference validator -------------------------------------------------------------------------------------------------

class Bad(Exception):
    'ill-formed'


class Unclear(Exception):
    'not judged'


def as_mat(m, cols=None, rows=None):
    'the matrix as a list of rows of floats'

    if m is None or isinstance(m, str):
        raise Bad('no matrix')

    if not isinstance(m, list) or not m or not all(isinstance(r, list) for r in m):
        raise Bad('no matrix')

    if len({len(r) for r in m}) != 1:
        raise Bad('ragged')

    for r in m:
        for x in r:
            if not isinstance(x, (int, float)) or not math.isfinite(x):
                raise Bad('entry')

    if cols is not None and len(m[0]) != cols:
        raise Bad('columns')

    if rows is not None and len(m) != rows:
        raise Bad('rows')

    return m


def as_vec(v, num=None):
    'the vector as a list of floats'

    if not isinstance(v, list):
        raise Bad('no vector')

    for x in v:
        if not isinstance(x, (int, float)) or math.isnan(x) or x == -math.inf:
            raise Bad('entry')

    if num is not None and len(v) != num:
        raise Bad('length')

    if math.inf in v:
        raise Unclear('infinite')

    return v


def feasible(m, v):
    'do the constraints have a solution?'

    return exactlp.solve([(r, exactlp.LE, b) for r, b in zip(m, v)], [0] * len(m[0]))[0] != 'infeasible'


class RefMode:
    'what is known about a mode'

    def __init__(self):
        self.dims = None
        self.dims_used = []  # numbers of variables which other calls have relied on
        self.inputs = False
        self.fixed_inputs = False
        self.inv = []


class RefModel:
    'validator'

    def __init__(self):
        self.modes = {}
        self.trans = {}
        self.init = []
        self.unclear = False # accepted or rejected: both are right

    def mode(self, name):
        'existing mode'
        if name not in self.modes:
            raise Bad('unknown mode')
        return self.modes[name]

    def call(self, op):
        'one call; raises Bad if it is ill-formed by itself'

        kind = op[0]

        if kind == 'mode':
            if op[1] in self.modes:
                raise Bad('mode name twice')
            self.modes[op[1]] = RefMode()
        elif kind == 'dyn':
            m = self.mode(op[1])
            a = as_mat(op[2])
            if len(a) != len(a[0]):
                raise Bad('not square')
            m.dims = len(a)
        elif kind == 'inv':
            m = self.mode(op[1])
            if m.dims is None:
                raise Bad('dynamics missing')
            a = as_mat(op[2], cols=m.dims)
            b = as_vec(op[3], len(a))
            if not feasible(a, b):
                raise Bad('infeasible')
            m.inv += list(zip(a, b))
            m.dims_used.append(m.dims)
        elif kind == 'inp':
            m = self.mode(op[1])
            if m.dims is None:
                raise Bad('dynamics missing')
            b = as_mat(op[2], rows=m.dims)
            c = as_mat(op[3], cols=len(b[0]))
            r = as_vec(op[4], len(c))
            if not feasible(c, r):
                raise Bad('infeasible')

            for i in range(len(b[0])):
                unit = [1.0 if j == i else 0.0 for j in range(len(b[0]))]
                lohi = []

                for sign in (1, -1):
                    res = exactlp.solve([(row, exactlp.LE, x) for row, x in zip(c, r)], [sign * x for x in unit])
                    lohi.append(res)

                if lohi[0][0] == 'unbounded' or lohi[1][0] == 'unbounded':
                    self.unclear = True # unbounded inputs
                elif abs(lohi[0][1] + lohi[1][1]) < 1e-9:
                    self.unclear = True # fixed inputs are rejected only if they have an effect on one variable

            m.inputs = True
            m.dims_used.append(m.dims)
        elif kind == 'trans':
            if op[1] in self.trans:
                self.trans[op[1] + "'"] = self.trans.pop(op[1]) # the later calls are for the new one
            self.mode(op[2])
            self.mode(op[3])
            self.trans[op[1]] = {'from': op[2], 'to': op[3], 'guard': None, 'reset': None}
        elif kind in ('guard', 'guardtrue'):
            if op[1] not in self.trans:
                raise Bad('unknown transition')
            t = self.trans[op[1]]
            m = self.mode(t['from'])
            if m.dims is None:
                raise Bad('dynamics missing')
            if kind == 'guard':
                a = as_mat(op[2], cols=m.dims)
                b = as_vec(op[3], len(a))
                if not feasible(a, b):
                    raise Bad('infeasible')
            t['guard'] = m.dims
        elif kind == 'reset':
            self.reset(op)
        elif kind == 'init':
            self.initial(op)
        else:
            raise AssertionError(op)

    def reset(self, op):
        'call of set_reset'

        if op[1] not in self.trans:
            raise Bad('unknown transition')

        t = self.trans[op[1]]
        m, to = self.mode(t['from']), self.mode(t['to'])

        if m.dims is None:
            raise Bad('dynamics missing')

        to_dims = to.dims

        if op[2] is not None:
            r = as_mat(op[2], cols=m.dims)
            rows = len(r)
        else:
            rows = m.dims

        if to_dims is not None and rows != to_dims:
            raise Bad('rows')

        if to_dims is None and rows != m.dims:
            self.unclear = True # the target may get its dynamics later, but may also be an error mode

        if op[3] is not None:
            mk = as_mat(op[3], rows=rows)
            if op[5] is None:
                raise Bad('no constraints for the new variables')
        if op[4] is not None:
            c = as_mat(op[4])
            if op[5] is None:
                raise Bad('right-hand side missing')
        if op[5] is not None:
            if op[4] is None:
                raise Bad('constraints missing')
            v = as_vec(op[5], len(c))
            width = rows if op[3] is None else len(mk[0])
            if len(c[0]) != width:
                raise Bad('columns')
            if not feasible(c, v):
                raise Bad('infeasible')

            # bounded?
            for i in range(width):
                for sign in (1, -1):
                    obj = [sign if j == i else 0 for j in range(width)]
                    if exactlp.solve([(row, exactlp.LE, x) for row, x in zip(c, v)], obj)[0] == 'unbounded':
                        self.unclear = True

        t['reset'] = (m.dims, rows)

    def initial(self, op):
        'initial set'

        m = self.mode(op[1])

        if op[2] == 'box':
            if not isinstance(op[3], list) or not op[3]:
                raise Bad('no box')
            for b in op[3]:
                if not isinstance(b, list) or len(b) != 2 or math.isnan(b[0]) or math.isnan(b[1]) or b[0] > b[1]:
                    raise Bad('interval')
            dims = len(op[3])
            cons = [([s if j == i else 0 for j in range(dims)], s * b[0 if s < 0 else 1]) for i, b in enumerate(op[3])
                    for s in (-1, 1)]
        elif op[2] == 'con':
            a = as_mat(op[3])
            b = as_vec(op[4], len(a))
            if not feasible(a, b):
                raise Bad('infeasible')
            dims = len(a[0])
            cons = list(zip(a, b))

            for i in range(dims):
                for sign in (1, -1):
                    obj = [sign if j == i else 0 for j in range(dims)]
                    if exactlp.solve([(row, exactlp.LE, x) for row, x in cons], obj)[0] == 'unbounded':
                        self.unclear = True
        else:
            c = as_vec(op[3])
            g = as_mat(op[4], cols=len(c))
            dims = len(c)
            if not c:
                raise Bad('no center')
            cons = None
            pts = poly.from_zonotope(np.array(c, dtype=float), [np.array(x, dtype=float) for x in g])
            self.init.append((op[1], dims, m.inputs, None, pts))
            return

        self.init.append((op[1], dims, m.inputs, cons, None))

    def complete(self):
        'checks of the whole model'

        for m in self.modes.values():
            if m.dims is not None and any(d != m.dims for d in m.dims_used):
                raise Bad('dynamics changed')

        for t in self.trans.values():
            a, b = self.modes[t['from']], self.modes[t['to']]

            if a.dims is None:
                raise Bad('transition of an error mode')
            if t['guard'] is None:
                raise Bad('no guard')
            if t['guard'] != a.dims:
                raise Bad('dynamics changed')
            if t['reset'] is None:
                if b.dims is not None and b.dims != a.dims:
                    raise Bad('identity reset')
            elif t['reset'][0] != a.dims or (b.dims is not None and t['reset'][1] != b.dims):
                raise Bad('dynamics changed')

        if not self.init:
            raise Bad('no initial sets')

        feas = False

        for name, dims, inputs, cons, pts in self.init:
            m = self.modes[name]

            if m.dims is None:
                raise Bad('initial set in an error mode')

            if dims != m.dims or inputs != m.inputs:
                raise Bad('initial set does not fit')

            if cons is not None:
                feas = feas or feasible([c[0] for c in cons + m.inv], [c[1] for c in cons + m.inv])
            else:
                for row, rhs in m.inv:
                    pts = poly.clip(pts, np.array(row, dtype=float), rhs) if pts is not None and len(pts) else None
                feas = feas or (pts is not None and len(pts) > 0)

        if not feas:
            raise Bad('no feasible initial set')


def judge(prog):
    'True (well-formed), False (ill-formed), None (not judged), and the position of the call which is ill-formed by itself'

    ref = RefModel()

    try:
        for k, op in enumerate(prog):
            try:
                ref.call(op)
            except Bad as e:
                return False, k, str(e)

        ref.complete()
    except Bad as e:
        return False, None, str(e)
    except Unclear as e:
        return None, None, str(e)

    if ref.unclear:
        return None, None, ''

    return True, None, ''


# ---- the real thing ------------------------------------------------------------------------------------------------------

class World:
    'objects of a model'

    def __init__(self):
        self.ha = HybridAutomaton()
        self.modes = {}
        self.trans = {}
        self.init = []

    def call(self, op):
        'one call of the library'

        kind = op[0]

        if kind == 'mode':
            self.modes[op[1]] = self.ha.new_mode(op[1])
        elif kind == 'dyn':
            self.modes[op[1]].set_dynamics(op[2])
        elif kind == 'inv':
            self.modes[op[1]].set_invariant(op[2], op[3])
        elif kind == 'inp':
            self.modes[op[1]].set_inputs(op[2], op[3], op[4])
        elif kind == 'trans':
            self.trans[op[1]] = self.ha.new_transition(self.modes[op[2]], self.modes[op[3]], op[1])
        elif kind == 'guard':
            self.trans[op[1]].set_guard(op[2], op[3])
        elif kind == 'guardtrue':
            self.trans[op[1]].set_guard_true()
        elif kind == 'reset':
            self.trans[op[1]].set_reset(op[2], op[3], op[4], op[5])
        else:
            mode = self.modes[op[1]]
            lpi = {'box': lputil.from_box, 'con': lputil.from_constraints, 'zono': lputil.from_zonotope}[op[2]](*op[3:], mode)
            self.init.append(StateSet(lpi, mode))


def settings():
    'settings of all runs'

    s = HylaaSettings(0.25, 1.0)
    s.stdout = HylaaSettings.STDOUT_NONE
    s.aggstrat = aggstrat.Unaggregated()
    s.stop_on_concrete_error = False
    s.make_counterexample = False
    return s


def run(world, core=None):
    'setup and run; returns the observations, or the exception of setup'

    core = core or Core(world.ha, settings())

    try:
        core.setup(world.init)
    except Exception as e: # pylint: disable=broad-except
        return None, e

    obs = []
    steps = 0

    while not core.is_finished():
        core.do_step()
        s = core.aggdag.get_cur_state()

        if s is not None:
            obs.append((s.mode.name, tuple(s.cur_steps_since_start), s.cur_step_in_mode,
                        tuple(model.lpi_supports(s.lpi, poly.directions(s.lpi.dims)[:4]))))

        steps += 1

        if steps > 400:
            raise Violation('the model does not terminate')

    obs.append(core.result.has_concrete_error)
    return obs, None


_BASE = {}


def baseline(name):
    'observations of the correct program'

    if name not in _BASE:
        w = World()
        for op in PROGRAMS[name]:
            w.call(op)
        _BASE[name] = run(w)[0]

    return _BASE[name]


def check_program(what, prog, st, retry=None, base=None):
    'one program; retry: the call to be made after the one at the position of the mistake was rejected'

    verdict, pos, why = judge(prog)
    w = World()
    failed = None

    for k, op in enumerate(prog):
        try:
            w.call(op)
        except KeyError:
            # name of an object which was not made yet: a mistake of the caller
            if verdict is True:
                raise
            st.count('names')
            return
        except Exception as e: # pylint: disable=broad-except
            failed = (k, e)
            break

    if failed is None:
        try:
            obs, exc = run(w)
        except Violation:
            raise
        except Exception as e: # pylint: disable=broad-except
            if verdict is False:
                raise Violation(f'{what}: the model is ill-formed ({why}) but was only rejected in the middle of the run '
                                f'({type(e).__name__}: {str(e)[:120]})') from e
            if verdict is None:
                st.count('not_judged')
                return
            raise Violation(f'{what}: the model was accepted, but the run failed: {type(e).__name__}: {str(e)[:200]}') from e

        if exc is None and verdict is False:
            raise Violation(f'{what}: the model is ill-formed ({why}) but was accepted')

        if exc is not None and verdict is True:
            raise Violation(f'{what}: the model is well-formed but was rejected: {type(exc).__name__}: {str(exc)[:200]}')

        st.count('accepted' if exc is None else 'rejected_setup')
        st.states += 1 if obs is None else len(obs)
    else:
        if verdict is True:
            raise Violation(f'{what}: the model is well-formed but call {failed[0]} was rejected: '
                            f'{type(failed[1]).__name__}: {str(failed[1])[:200]}')

        st.count('rejected_call')

        if retry is not None and failed[0] == retry[0] and verdict is False:
            # correct the mistake
            try:
                for op in [retry[1]] + prog[failed[0] + 1:]:
                    w.call(op)

                obs, exc = run(w)
            except Exception as e: # pylint: disable=broad-except
                exc = e

            if exc is not None:
                raise Violation(f'{what}: after the rejected call the correct one fails: {type(exc).__name__}: {exc}')

            if obs != base:
                raise Violation(f'{what}: after the rejected call was corrected the results differ')

            st.count('corrected')

    st.transitions += len(prog)
    st.traces += 1


def setting_mistake(name, value, prog):
    'a mistake in settings or arguments of the core; returns an error text, or None if it is rejected as it should be'

    w = World()
    other = World()

    for op in prog:
        w.call(op)
        other.call(op)

    init = w.init

    try:
        args = {'step_size': 0.25, 'max_time': 1.0}
        args.update({name: value} if name in args else {})
        s = HylaaSettings(args['step_size'], args['max_time'])
        s.stdout = HylaaSettings.STDOUT_NONE
        s.aggstrat = aggstrat.Unaggregated()
        s.stop_on_concrete_error = False
        ha = w.ha

        if name in ('approx_model', 'aggstrat', 'stdout'):
            setattr(s, name, value)
        elif name in ('agg_type', 'pop_type', 'deagg_preference'):
            s.aggstrat = aggstrat.Aggregated(deaggregate=True)
            setattr(s.aggstrat, name, value)
        elif name in ('plot_mode', 'num_angles'):
            setattr(s.plot, name, value)
        elif name == 'xdim_none':
            s.plot.xdim_dir = s.plot.ydim_dir = None
        elif name == 'dims_len':
            s.plot.xdim_dir = [0, 0]
            s.plot.ydim_dir = [0]
        elif name == 'typo':
            s.stepsize = 0.1
        elif name == 'plot_typo':
            s.plot.xdim = 0
        elif name == 'agg_typo':
            aggstrat.Aggregated().box = True
        elif name == 'core_settings':
            s = {'step_size': 0.1}
        elif name == 'core_ha':
            ha = w.modes['p']
        elif name == 'init_tuple':
            init = tuple(init)
        elif name == 'init_lpi':
            init = [x.lpi for x in init]
        elif name == 'init_empty':
            init = []
        elif name == 'init_other_ha':
            init = init + other.init
        elif name == 'to_other_ha':
            t = w.ha.new_transition(w.modes['p'], other.modes['q'])
            t.set_guard_true()

        core = Core(ha, s)
        core.setup(init)
    except Exception: # pylint: disable=broad-except
        return None

    return f'{name} = {value} was accepted'


# ---- configurations ------------------------------------------------------------------------------------------------------

def configs(tier):
    'calls x calls'

    quick = tier == 'quick'

    for step in ('0.1', '0.01', '0.001', '0.3', '0.7', '1', '0.25', '1.1', '5.0E-3', '0.0123', '2.5e-5'):
        for k in range(0, 400 if quick else 4000, 50):
            yield {'kind': 'steps', 'step': step, 'bounds': [f'{(i * f) / 1000:.3f}' for i in range(k, k + 50) for f in (1, 100)] +
                   [str(Fraction(step) * i + 0) if Fraction(step).denominator == 1 else
                    f'{Decimal(step) * i}' for i in range(k, k + 50)]}

    for name, prog in PROGRAMS.items():
        for k in range(len(prog)):
            yield {'kind': 'single', 'prog': name, 'call': k}

        for k in range(len(prog)):
            for j in range(k + 1, len(prog)):
                if not quick or j - k <= (2 if len(prog) < 12 else 1):
                    if prog[k][0] not in ('mode', 'trans') and prog[j][0] not in ('mode', 'trans'):
                        yield {'kind': 'pair', 'prog': name, 'calls': [k, j]}

        for i in range(len(SETTINGS)):
            yield {'kind': 'setting', 'prog': name, 'index': i}


def check_num_steps(cfg, st):
    'the number of steps is the smallest one which covers the time bound (decimal numbers as they are written)'

    for bound in cfg['bounds']:
        want = math.ceil(Fraction(bound) / Fraction(cfg['step']))
        got = HylaaSettings(float(cfg['step']), float(bound)).num_steps
        st.states += 1

        if got != want:
            raise Violation(f'HylaaSettings(step_size={cfg["step"]}, max_time={bound}) computes {got} steps rather than {want}')

    st.traces += 1


def check(cfg):
    'all mistakes of a call (or a pair of calls)'

    st = Stats()

    if cfg['kind'] == 'steps':
        check_num_steps(cfg, st)
        return st

    name = cfg['prog']
    prog = PROGRAMS[name]
    st.sample = cfg

    with contextlib.redirect_stdout(io.StringIO()):
        if baseline(name) is None:
            raise Violation(f'program {name} was rejected')

        if cfg['kind'] == 'setting':
            err = setting_mistake(*SETTINGS[cfg['index']], prog)

            if err is not None:
                raise Violation(f'program {name}: {err}')

            st.count('settings')
            st.states += 1
            st.traces += 1
        elif cfg['kind'] == 'single':
            k = cfg['call']

            for mut in mutations(prog):
                if mut[1] != k:
                    continue

                new, text = programs_of(prog, mut)
                check_program(f'program {name}, call {k} {prog[k][:2]}: {text}', new, st,
                              (k, prog[k]) if mut[0] == 'arg' else None, baseline(name))
        else:
            k, j = cfg['calls']

            for m1 in mutations(prog):
                if m1[1] != k or m1[0] == 'move':
                    continue

                for m2 in mutations(prog):
                    if m2[1] != j or m2[0] == 'move':
                        continue

                    new, t2 = programs_of(prog, m2)
                    new, t1 = programs_of(new, m1)
                    check_program(f'program {name}, call {k} {prog[k][:2]}: {t1} and call {j} {prog[j][:2]}: {t2}', new, st)

    return st


def min_counts(_tier):
    'vacuity guard'
    return {'accepted': 500, 'rejected_call': 2000, 'rejected_setup': 100, 'corrected': 500, 'settings': 100}
