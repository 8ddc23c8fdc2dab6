'C08: the time-triggered shortcut never changes what is reachable'

import itertools

import numpy as np

from mc import model, poly
from mc.engine import Stats, Violation, Marginal

from hylaa import aggstrat

PROP = 'C08'

DESCRIPTION = {
    'what': 'Every clocked automaton of the family (clock speeds of either sign, sums of speeds, stopped clocks, speeds or '
            'clocks that are intervals, clocks driven by inputs, clocks aligned with the time steps or not, further guard '
            'and invariant conditions, clock resets, several initial sets, urgent guards, several transitions, errors '
            'behind the transition) is run with the shortcut on and observed after every step; the reference decides '
            'exactly touching flat clocks analytically and otherwise follows the plain semantics.',
    'bounds': '4-d (2 states + clock + speed), 2 modes + error, 6-8 steps',
    'assumptions': ['the guard relaxation of the shortcut (step/steps/1000) is below the comparison tolerance',
                    'configurations with other ties within 1e-5 are not judged'],
}

EPS = 1e-9


class RefTT(model.Ref):
    'reference semantics where conditions on a flat clock that is exactly at the threshold are decided exactly'

    never = () # modes where the shortcut is not used (a flat clock exactly at the threshold stays for one more step)

    def rows(self, pts, cons):
        '''intersect with constraints; a constraint that all points touch exactly is satisfied. None if empty'''

        for a, b in cons:
            a = np.array(a, dtype=float)
            val = pts @ a - b

            if np.abs(val).max() < EPS * 100:
                continue

            pts = poly.clip(pts, a, b)

            if pts is None:
                return None

        return pts

    def leaves(self, mode, t, pts):
        'is the mode left by time at this instant (the flat clock is at or past the threshold and moves on)?'

        m = self.spec['modes'][mode]
        a = np.array(m['A'], dtype=float)

        if mode in self.never:
            return False

        for row, rhs in t['guard']:
            row = np.array(row, dtype=float)
            opposite = any(np.array_equal(-row, np.array(i, dtype=float)) and abs(r + rhs) < EPS
                           for i, r in self.inv(mode))

            if not opposite:
                continue

            val = pts @ row - rhs

            # the invariant -row x <= -rhs must be about to become (or be) false for all states
            if val.max() < -1e-6:
                return True

            if np.abs(val).max() < EPS * 100:
                der = (pts @ a.T) @ row

                if mode in self.upoly:
                    u = poly.from_constraints(m['U'][0], m['U'][1])
                    der = (der[:, None] + (u @ np.array(m['B'], dtype=float).T @ row)[None, :]).ravel()

                if der.max() < -1e-9:
                    return True

        return False

    def run_tt(self, urgent):
        'explore'

        obs = {}
        queue = []

        for mode, pts in model.init_polys(self.spec):
            pts = self.rows(pts, self.inv(mode))
            if pts is not None:
                queue.append((mode, pts, 0, ()))

        def successors(mode, pts, total, path):
            left = False

            for i, t in self.out[mode]:
                g = self.rows(pts, t['guard'])

                if g is None:
                    continue

                self.transitions += 1

                if self.is_error(t['to']):
                    self.error_hits.append((path, total, i))
                else:
                    queue.append((t['to'], self.reset(i, t, g), total, path + ((i, total),)))

                left = left or self.leaves(mode, t, pts)

            return left

        while queue:
            mode, pts, total, path = queue.pop(0)
            pts = self.rows(pts, self.inv(mode))

            if pts is None:
                continue

            inmode = 0
            obs.setdefault((mode, total, inmode), []).append((path, pts))
            self.states += 1

            if urgent and successors(mode, pts, total, path):
                continue

            while total < self.spec['n']:
                if inmode > 0:
                    pts = self.rows(pts, self.inv(mode))

                    if pts is None:
                        break

                pts = self.step(mode, pts)
                total += 1
                inmode += 1
                self.states += 1
                self.transitions += 1

                if self.states > 4000:
                    raise RuntimeError('state space of a configuration is larger than intended')

                obs.setdefault((mode, total, inmode), []).append((path, pts))

                if successors(mode, pts, total, path):
                    break

        return obs


H = 0.25

# clock variants: rows of A for (t, a), the initial intervals of t and a, sign: the direction the guard waits for
CLOCKS = {
    'plain': ([0, 0, 0, 1], [0, 0], [1, 1], 1),
    'double': ([0, 0, 0, 2], [0, 0], [1, 1], 1),
    'down': ([0, 0, 0, -1], [1.5, 1.5], [1, 1], -1),
    'negspeed': ([0, 0, 0, -2], [0, 0], [-0.5, -0.5], 1),
    'offset': ([0, 0, 0, 1], [0.1, 0.1], [1, 1], 1),
    'late': ([0, 0, 0, 1], [1.25, 1.25], [1, 1], 1),
    'stopped': ([0, 0, 0, 1], [0.5, 0.5], [0, 0], 1),
    'wrongway': ([0, 0, 0, 1], [0.5, 0.5], [-1, -1], 1),
    'wide': ([0, 0, 0, 1], [0.03, 0.11], [1, 1], 1),
    'speeds': ([0, 0, 0, 1], [0, 0], [0.9, 1.1], 1),
    'speeds0': ([0, 0, 0, 1], [0.5, 0.5], [-0.1, 1.1], 1),
    'ofx': ([0.3, 0, 0, 1], [0, 0], [1, 1], 1),
}

INPUTS = {
    'none': {},
    'x': {'B': [[1], [0], [0], [0]], 'U': [[[1], [-1]], [0.2, 0.1]]},
    'halt': {'B': [[0], [0], [1], [0]], 'U': [[[1], [-1]], [-1, 1]]},
    'jitter': {'B': [[0], [0], [1], [0]], 'U': [[[1], [-1]], [0.1, 0.3]]},
    'brake': {'B': [[0], [0], [0], [1]], 'U': [[[1], [-1]], [-6, 6]]},
}

XDYN = {'rot': ([0, 1], [-1, 0]), 'gen': ([0.1, -0.7], [0.4, 0.2])}


def mode_matrix(xdyn, clock):
    'A of a mode'

    r = XDYN[xdyn]
    row = CLOCKS[clock][0]
    return [r[0] + [0, 0], r[1] + [0, 0], list(row), [0, 0, 0, 0]]


def spec_for(xd, ck, inp, kk, extra_g, extra_i, xr, err, urg, n=6): # pylint: disable=too-many-arguments
    'one automaton'

    _, t0, a0, sign = CLOCKS[ck]
    grow = [0, 0, -sign, 0]
    inv = [[[0, 0, sign, 0], sign * kk]] + extra_i
    p = {'A': mode_matrix(xd, ck), 'inv': inv}
    p.update(INPUTS[inp])
    p['const'] = inp in ('halt', 'brake')
    q = {'A': mode_matrix('gen' if xd == 'rot' else 'rot', ck if ck not in ('late',) else 'plain'),
         'inv': [[[0, 0, sign, 0], sign * kk]]}
    guard = [[grow, -sign * kk]] + extra_g
    rst = {'R': [[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 0, 0], [0, 0, 0, 1]]} if (t0 == [0, 0] or ck == 'wide') and xr else \
        {'R': [[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1]]} if xr else {}
    trans = [{'from': 'p', 'to': 'q', 'guard': guard, **rst},
             {'from': 'q', 'to': 'p', 'guard': [[grow, -sign * kk], [[1, 0.2, 0, 0], 0.413]], **rst}]

    if err is not None:
        trans.insert(0 if err[0] == 'first' else 2, {'from': err[1], 'to': 'e', 'guard': err[2]})

    return {'h': H, 'n': n, 'modes': {'p': p, 'q': q, 'e': {'A': None}}, 'trans': trans,
            'init': [['p', 'box', [[0.1, 0.5], [0.2, 0.6], t0, a0]]],
            'set': {'optimize_tt_transitions': True, 'process_urgent_guards': urg}}


def configs(tier):
    'the whole space'

    quick = tier == 'quick'
    # 0.57 lies inside of the interval of the wide clock at an instant
    kks = (0.5, 0.57, 0.61, 1.25) if quick else (0.25, 0.32, 0.5, 0.57, 0.61, 0.75, 0.85, 1.0, 1.25)
    egs = ([], [[[-1, 0, 0, 0], -0.237]], [[[0.2, 1, 0, 0], 0.431]])
    eis = ([], [[[1, 0.3, 0, 0], 0.513]], [[[0, 0, -1, 0], 0.07]])
    errs = (None, ('first', 'p', [[[-1, -0.2, 0, 0], -0.577]]), ('last', 'q', [[[0, -1, 0, 0], -0.377]]),
            ('last', 'p', [[[0, 0, -1, 0], -0.83]]))

    for ck, kk, eg, ei, err, inp, urg, xd, xr in itertools.product(
            CLOCKS, kks, egs, eis, errs, INPUTS, (False, True), ('rot', 'gen') if not quick else ('rot',),
            (False, True)):
        if quick and inp != 'none' and (eg and ei or err and err[0] == 'first'):
            continue
        if urg and (ck in ('late',) or xr and CLOCKS[ck][1] != [0, 0] or not xr):
            continue # urgent transitions around the cycle in no time
        if ck == 'late' and kk < 1.25:
            continue
        if quick and kk == 0.57 and ck not in ('wide', 'speeds'):
            continue
        if not xr and ck in ('stopped', 'wrongway', 'speeds0'):
            continue

        yield spec_for(xd, ck, inp, kk, eg, ei, xr, err, urg)

    # the clock is at the threshold from the beginning (urgent transitions are checked before the first step): it moves on,
    # is stopped, moves back, or does one or the other
    for (ck, kk), eg, err, inp in itertools.product((('plain', 0), ('offset', 0.1), ('stopped', 0.5), ('wrongway', 0.5),
                                                     ('speeds', 0), ('speeds0', 0.5), ('down', 1.5), ('negspeed', 0), ('ofx', 0),
                                                     ('late', 1.25), ('wide', 0.03), ('wide', 0.11)),
                                                    egs, errs, INPUTS):
        if ck == 'offset' and inp == 'halt':
            continue # stays at 0.1 up to rounding: a tie

        s = spec_for('rot', ck, inp, kk, eg, [], False, err, True)
        s['trans'] = [t for t in s['trans'] if t['from'] != 'q' or t['to'] != 'p']
        s['modes']['q']['inv'] = []
        yield s

    # aggregated: the clock of the aggregation is flat although its steps are an interval
    for kk, eg, kind, err in itertools.product((0.5, 0.61), egs, (0, 1, 2), errs):
        s = spec_for('rot', 'plain', 'x', kk, eg, [], True, err, False, 6)
        s['trans'].append({'from': 'p', 'to': 'q', 'guard': [[[-1, 0, 0, 0], -0.35]],
                           'R': [[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 0, 0], [0, 0, 0, 1]]})
        yield dict(s, agg=kind)


def check(cfg):
    'compare with the reference'

    st = Stats()
    ref = RefTT(cfg)
    robs = ref.run_tt(cfg['set']['process_urgent_guards'])
    st.states, st.transitions = ref.states, ref.transitions

    if 'agg' in cfg:
        return check_agg(cfg, robs, ref, st)

    core = model.build_core(cfg)
    iobs = model.explore_impl(core, max_steps=5000)

    try:
        model.compare_exact(robs, iobs, 2e-4)
        st.count('shortcut_or_off_grid')
    except Violation:
        # the shortcut need not be applied if the invariant is not only about time, if the clock does not have one speed,
        # or if inputs drive the clock
        speeds = cfg['init'][0][2][3]
        never = [name for name, m in cfg['modes'].items() if m['A'] is not None and
                 (any(any(row[:2]) for row, _ in m.get('inv', [])) or m.get('B') and np.any(m['B'][2:]) or
                  m['A'][2][0] or speeds[0] != speeds[1])]

        if not never:
            raise

        ref = RefTT(cfg)
        ref.never = never
        robs = ref.run_tt(cfg['set']['process_urgent_guards'])
        model.compare_exact(robs, iobs, 2e-4)
        st.count('shortcut_not_applicable')

    if core.result.has_concrete_error != bool(ref.error_hits):
        raise Violation(f'error reachable: {bool(ref.error_hits)}, reported: {core.result.has_concrete_error}')

    st.traces = sum(len(v) for v in robs.values())
    st.count('runs')
    st.count('tt_transitions', sum(1 for v in robs.values() for p, _ in v if p))
    st.sample = {'sets': st.traces}
    return st


def check_agg(cfg, robs, ref, st):
    'aggregated: coverage'

    core = model.build_core(cfg)
    core.settings.aggstrat = aggstrat.Aggregated(cfg['agg'])
    iobs = {}
    steps = 0

    while not core.is_finished():
        core.do_step()
        steps += 1

        if steps > 5000:
            raise Violation('does not terminate')

        s = core.aggdag.get_cur_state()

        if s is not None:
            sup = model.lpi_supports(s.lpi, poly.directions(s.lpi.dims))
            iobs.setdefault((s.mode.name, s.cur_step_in_mode), []).append((list(s.cur_steps_since_start), sup))

    for (mode, total, inmode), lst in robs.items():
        for path, pts in lst:
            sup = poly.supports(pts, poly.directions(pts.shape[1]))
            gaps = [float((sup - x).max()) for (lo, hi), x in iobs.get((mode, inmode), []) if lo <= total <= hi]

            if not gaps or min(gaps) > 2e-4:
                raise Violation(f'mode {mode} at step {total} ({inmode} in mode), path {path}: not covered')

            st.traces += 1

    if ref.error_hits and not (core.result.has_aggregated_error or core.result.has_concrete_error):
        raise Violation('reachable error is missed')

    st.count('aggregated_runs')
    return st


def min_counts(_tier):
    'vacuity guard'
    return {'runs': 500, 'tt_transitions': 500, 'aggregated_runs': 20}
