'''
Bounded hybrid-automaton family: JSON-able specifications, their translation to the code under test (public API only)
and the explicit-state reference semantics.

spec = {
  'h': step size, 'n': number of steps,
  'modes': {name: {'A': [[..]] or None (error mode), 'inv': [[a, b], ...], 'B': [[..]], 'U': [C, rhs]}},
  'trans': [{'from':, 'to':, 'guard': [[a, b], ...] (a x <= b), 'R': matrix or None,
             'M': minkowski matrix, 'MC': [C, rhs]}],
  'init': [[mode, kind, data], ...]   kind: box / con / zono
  'set': {HylaaSettings attribute: value}
}
'''

import numpy as np
from scipy.integrate import quad_vec
from scipy.linalg import expm

from mc import poly
from mc.engine import Violation

from hylaa.hybrid_automaton import HybridAutomaton
from hylaa.settings import HylaaSettings
from hylaa.stateset import StateSet
from hylaa.core import Core
from hylaa import lputil, aggstrat

# ---------------------------------------------------------------------------------------------------------------------
# building the real thing


def build_ha(spec):
    'build the hylaa automaton'

    ha = HybridAutomaton()
    modes = {}

    for name, m in spec['modes'].items():
        mode = ha.new_mode(name)
        modes[name] = mode

        if m.get('A') is None:
            continue

        mode.set_dynamics(m['A'])

        if m.get('inv'):
            mode.set_invariant([c[0] for c in m['inv']], [c[1] for c in m['inv']])

        if m.get('B') is not None:
            mode.set_inputs(m['B'], m['U'][0], m['U'][1], allow_constants=bool(m.get('const')))

    for t in spec['trans']:
        tr = ha.new_transition(modes[t['from']], modes[t['to']], t.get('name', ''))
        rows = []
        rhs = []

        for c in t['guard']:
            rows.append(c[0])
            rhs.append(c[1])

            if len(c) == 3: # equality
                rows.append([-x for x in c[0]])
                rhs.append(-c[1])

        if rows:
            tr.set_guard(rows, rhs)
        else:
            tr.set_guard_true()

        if t.get('R') is not None or t.get('M') is not None:
            if t.get('M') is not None:
                tr.set_reset(t.get('R'), t['M'], t['MC'][0], t['MC'][1])
            else:
                tr.set_reset(t['R'])

    return ha, modes


def build_init(spec, modes):
    'initial StateSets'

    rv = []

    for mode, kind, data in spec['init']:
        m = modes[mode]

        if kind == 'box':
            lpi = lputil.from_box(data, m)
        elif kind == 'con':
            lpi = lputil.from_constraints(data[0], data[1], m)
        else:
            lpi = lputil.from_zonotope(data[0], data[1], m)

        rv.append(StateSet(lpi, m))

    return rv


def build_settings(spec):
    'settings, quiet, unaggregated unless overridden'

    s = HylaaSettings(spec['h'], 1.0)
    s.num_steps = spec['n']
    s.stdout = HylaaSettings.STDOUT_NONE
    s.aggstrat = aggstrat.Unaggregated()
    s.optimize_tt_transitions = False
    s.stop_on_concrete_error = False
    s.stop_on_aggregated_error = False
    s.make_counterexample = False

    for k, v in spec.get('set', {}).items():
        assert hasattr(s, k)
        setattr(s, k, v)

    return s


def build_core(spec):
    'core, ready to be stepped'

    ha, modes = build_ha(spec)
    settings = build_settings(spec)
    core = Core(ha, settings)
    core.setup(build_init(spec, modes))

    return core

# ---------------------------------------------------------------------------------------------------------------------
# reference semantics


def init_polys(spec):
    'list of (mode, vertices)'

    rv = []

    for mode, kind, data in spec['init']:
        if kind == 'box':
            pts = poly.from_box(data)
        elif kind == 'con':
            pts = poly.from_constraints(data[0], data[1])
        else:
            pts = poly.from_zonotope(data[0], data[1])

        rv.append((mode, pts))

    return rv


def step_matrices(m, h):
    '''(Phi, Psi): one step matrix exponential and the integral of the matrix exponential times B (inputs constant over a
    step), computed from the definition by quadrature'''

    a = np.array(m['A'], dtype=float)
    phi = expm(a * h)
    psi = None

    if m.get('B') is not None:
        b = np.array(m['B'], dtype=float)
        integral, _ = quad_vec(lambda s: expm(a * s), 0, h, epsabs=1e-12, epsrel=1e-12)
        psi = integral @ b

    return phi, psi


class Ref:
    'reference explicit-state exploration of a spec: exact (path-wise) discrete-time reachable sets'

    def __init__(self, spec):
        self.spec = spec
        self.mats = {}
        self.upoly = {}

        for name, m in spec['modes'].items():
            if m.get('A') is not None:
                self.mats[name] = _cached_mats(m, spec['h'])

                if m.get('B') is not None:
                    u = poly.from_constraints(m['U'][0], m['U'][1])
                    self.upoly[name] = poly.linmap(u, self.mats[name][1])

        self.out = {name: [] for name in spec['modes']}
        self.mink = {}

        for i, t in enumerate(spec['trans']):
            self.out[t['from']].append((i, t))

            if t.get('M') is not None:
                y = poly.from_constraints(t['MC'][0], t['MC'][1])
                self.mink[i] = poly.linmap(y, np.array(t['M'], dtype=float))

        self.states = 0
        self.transitions = 0
        self.taken = 0
        self.error_hits = [] # (path, total step, transition index)

    def inv(self, name):
        'invariant constraints'
        return self.spec['modes'][name].get('inv') or []

    def step(self, name, pts):
        'one step of continuous evolution'
        rv = poly.linmap(pts, self.mats[name][0])

        if name in self.upoly:
            rv = poly.msum(rv, self.upoly[name])

        return rv

    def reset(self, index, t, pts):
        'apply the reset of transition t'

        if t.get('R') is not None:
            pts = poly.linmap(pts, t['R'])

        if index in self.mink:
            pts = poly.msum(pts, self.mink[index])

        return pts

    def is_error(self, name):
        'error mode?'
        return self.spec['modes'][name].get('A') is None

    def run(self, urgent=False, skip_zero=True, max_states=4000):
        '''explore; returns {(mode, total_step, step_in_mode): [(path, vertices), ...]} where every entry is a set an
        observer sees after each computation step: the invariant-trimmed set on entry to a mode, and afterwards the
        set after each time step, before it is trimmed by the invariant'''

        obs = {}
        queue = []

        for k, (mode, pts) in enumerate(init_polys(self.spec)):
            if not self.is_error(mode):
                pts = poly.clip_all(pts, self.inv(mode))
            if pts is not None:
                queue.append((mode, pts, 0, (f'init{k}',)))

        def record(mode, total, inmode, path, pts):
            obs.setdefault((mode, total, inmode), []).append((path, pts))
            self.states += 1
            if self.states > max_states:
                raise RuntimeError('state space of a configuration is larger than intended')

        def successors(mode, pts, total, path):
            for i, t in self.out[mode]:
                g = poly.clip_all(pts, t['guard'])

                if g is None:
                    continue

                self.transitions += 1
                self.taken += 1

                if self.is_error(t['to']):
                    self.error_hits.append((path, total, i))
                    continue

                queue.append((t['to'], self.reset(i, t, g), total, path + ((i, total),)))

        while queue:
            mode, pts, total, path = queue.pop(0)
            pts = poly.clip_all(pts, self.inv(mode))

            if pts is None:
                continue

            inmode = 0
            record(mode, total, inmode, path, pts)

            if urgent:
                successors(mode, pts, total, path)

            while total < self.spec['n']:
                if inmode > 0:
                    pts = poly.clip_all(pts, self.inv(mode))

                    if pts is None:
                        break

                pts = self.step(mode, pts)
                total += 1
                inmode += 1
                self.transitions += 1
                zero = skip_zero and mode not in self.upoly and not np.any(self.spec['modes'][mode]['A'])

                # a mode without dynamics is left after one step, without an observation
                if not zero:
                    record(mode, total, inmode, path, pts)
                successors(mode, pts, total, path)

                if zero:
                    break

        return obs


_MATS = {}


def _cached_mats(m, h):
    key = (repr(m['A']), repr(m.get('B')), h)

    if key not in _MATS:
        _MATS[key] = step_matrices(m, h)

    return _MATS[key]

# ---------------------------------------------------------------------------------------------------------------------
# observing the real thing


def lpi_supports(lpi, dirs):
    'support values of the current-time set of an lpi (on a clone: the observed object is not disturbed)'

    c = lpi.clone()
    cols = [c.cur_vars_offset + i for i in range(c.dims)]
    rv = []

    for d in dirs:
        res = c.minimize(direction_vec=(-d).tolist(), columns=cols)
        rv.append(float(np.dot(res, d)))

    return np.array(rv)


def explore_impl(core, observe=None, max_steps=20000):
    '''run the real computation step by step; returns {(mode, total_step, step_in_mode): [support vector, ...]}'''

    obs = {}
    steps = 0

    while not core.is_finished():
        core.do_step()
        steps += 1

        if steps > max_steps:
            raise Violation(f'computation did not finish within {max_steps} steps')

        state = core.aggdag.get_cur_state()

        if state is not None:
            key = (state.mode.name, tuple(state.cur_steps_since_start), state.cur_step_in_mode)

            if observe is not None:
                observe(state)

            obs.setdefault(key, []).append(lpi_supports(state.lpi, poly.directions(state.lpi.dims)))

    return obs


def compare_exact(ref_obs, impl_obs, tol=1e-4):
    '''every reference set must have exactly one matching implementation set and vice versa'''

    rkeys = {(m, (t, t), s): v for (m, t, s), v in ref_obs.items()}

    for key in sorted(set(rkeys) | set(impl_obs)):
        rlist = rkeys.get(key, [])
        ilist = list(impl_obs.get(key, []))

        if len(rlist) != len(ilist):
            raise Violation(f'mode {key[0]} at step {key[1]} ({key[2]} in mode): the model reaches {len(rlist)} sets '
                            f'{[p for p, _ in rlist][:4]}, the implementation {len(ilist)}')

        for path, pts in rlist:
            dirs = poly.directions(pts.shape[1])
            rs = poly.supports(pts, dirs)
            best = None
            scale = max(1.0, float(np.abs(rs).max()))

            for k, isup in enumerate(ilist):
                if len(isup) != len(rs):
                    raise Violation(f'mode {key[0]}: dimension differs from the model')
                err = float(np.abs(isup - rs).max()) / scale

                if best is None or err < best[0]:
                    best = (err, k, isup)

            if best[0] > tol:
                w = int(np.abs(best[2] - rs).argmax())
                raise Violation(f'mode {key[0]} at step {key[1]} ({key[2]} in mode), path {path}: the reachable set is '
                                f'wrong: max of {np.round(dirs[w], 3).tolist()} * x is {rs[w]:.6f} in the model, '
                                f'{best[2][w]:.6f} in the implementation')

            ilist.pop(best[1])
