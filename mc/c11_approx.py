'C11: approximation models contain the continuous-time behaviour'

import itertools
import math

import numpy as np

from mc import model, poly
from mc.c01_exact_reach import A, INV, GUARD, RESET, INIT
from mc.c02_inputs_exact import INP
from mc.engine import Stats, Violation, Marginal

from hylaa import aggstrat
from hylaa.settings import HylaaSettings

PROP = 'C11'

DESCRIPTION = {
    'what': 'Automata are run with each approximation model, unaggregated, aggregated and deaggregated, and observed after '
            'every step. End-point hull: the sets must be exactly those of a reference that starts every mode with the '
            'hull of the entered set and its successor. Bloated model: the sets of all continuous-time trajectories '
            'sampled at fractions of a step (inputs switching at these times, exact polytopes), followed through guards '
            'and resets at those times, must be inside the reported sets of their step and path, error modes they enter '
            'must be reported, and no set may be larger than the published formula of the model.',
    'bounds': '1-3 dims, 1-3 modes, up to 5 steps, 2-4 sample times per step',
    'assumptions': ['trajectories are sampled: those leaving and re-entering an invariant between samples count as staying',
                    'transitions before the first step in a mode count only if urgent guards are allowed (documented '
                    'setting)', '12-26 support directions, tolerance 1e-4'],
}

TOL = 1e-7 # norms and bloating terms below this are not distinguished from zero by the code


class RefApprox(model.Ref):
    'reference with an approximation model (upper bound in case of the bloated one)'

    def __init__(self, spec, kind):
        model.Ref.__init__(self, spec)
        self.kind = kind
        self.vpoly = {}
        self.consts = {}

        for name, m in spec['modes'].items():
            if m.get('A') is None:
                continue

            nrm = float(np.abs(np.array(m['A'], dtype=float)).sum(axis=1).max())
            tau = spec['h']
            r_v = 0.0

            if m.get('B') is not None:
                v = poly.linmap(poly.from_constraints(m['U'][0], m['U'][1]), np.array(m['B'], dtype=float))
                r_v = float(np.abs(v).max())
                self.vpoly[name] = poly.linmap(v, tau * np.identity(v.shape[1]))

            e = math.exp(tau * nrm) - 1 - tau * nrm
            self.consts[name] = (e, r_v, nrm)

    def bloat(self, pts, amount):
        'ball of the infinity norm'

        if amount <= 0:
            return pts

        return poly.msum(pts, poly.from_box([[-amount, amount]] * pts.shape[1]))

    def entry(self, name, pts):
        'first set of a mode'

        nxt = poly.linmap(pts, self.mats[name][0])

        if self.kind == 'chull':
            if name in self.upoly:
                nxt = poly.msum(nxt, self.upoly[name])
        else:
            e, r_v, nrm = self.consts[name]

            if name in self.vpoly:
                nxt = poly.msum(nxt, self.vpoly[name])

            if nrm >= TOL:
                nxt = self.bloat(nxt, e * (float(np.abs(pts).max()) + r_v / nrm))

        return poly.hull([pts, nxt])

    def step(self, name, pts):
        'later steps'

        if self.kind == 'chull':
            return model.Ref.step(self, name, pts)

        rv = poly.linmap(pts, self.mats[name][0])

        if name in self.vpoly:
            rv = poly.msum(rv, self.vpoly[name])
            e, r_v, nrm = self.consts[name]

            if nrm >= TOL:
                rv = self.bloat(rv, max(e * r_v / nrm, TOL))

        return rv

    def run_approx(self, urgent, max_states=3000):
        'like run(), with the model'

        obs = {}
        queue = []

        for k, (mode, pts) in enumerate(model.init_polys(self.spec)):
            pts = poly.clip_all(pts, self.inv(mode))
            if pts is not None:
                queue.append((mode, pts, 0, (f'init{k}',)))

        def successors(mode, pts, total, path):
            for i, t in self.out[mode]:
                g = poly.clip_all(pts, t['guard'])

                if g is None:
                    continue

                self.transitions += 1

                if self.is_error(t['to']):
                    self.error_hits.append((path, total, i))
                    continue

                queue.append((t['to'], self.reset(i, t, g), total, path + ((i, total),)))

        while queue:
            mode, pts, total, path = queue.pop(0)
            pts = poly.clip_all(pts, self.inv(mode))

            if pts is None:
                continue

            inmode = 0
            pts = self.entry(mode, pts)
            obs.setdefault((mode, total, inmode), []).append((path, pts))
            self.states += 1

            if urgent:
                successors(mode, pts, total, path)

            while total < self.spec['n']:
                pts = poly.clip_all(pts, self.inv(mode))

                if pts is None:
                    break

                pts = self.step(mode, pts)
                total += 1
                inmode += 1
                self.transitions += 1
                self.states += 1

                if self.states > max_states:
                    raise Marginal()

                zero = mode not in self.upoly and not np.any(self.spec['modes'][mode]['A'])

                if not zero:
                    obs.setdefault((mode, total, inmode), []).append((path, pts))

                successors(mode, pts, total, path)

                if zero:
                    break

        return obs


class Cont:
    '''continuous-time reachable sets at fractions of a step, from below: conditions are shrunk, so that ties do not
    matter'''

    def __init__(self, spec, parts):
        self.spec = spec
        self.parts = parts
        fine = dict(spec, h=spec['h'] / parts)
        self.ref = model.Ref(fine)
        self.states = 0
        self.error_hits = []

    def shrink(self, pts, cons, eps):
        'intersect with shrunk conditions'

        for c in cons:
            a = np.array(c[0], dtype=float)
            rows = [(a, c[1])] if len(c) == 2 else [(a, c[1]), (-a, -c[1])]
            amount = eps if len(c) == 2 else 0

            for row, b in rows:
                pts = poly.clip_raw(pts, row, b - amount * float(np.abs(row).max()))

                if pts is None:
                    return None

        return pts

    def run(self, urgent, max_entries=400):
        'list of (mode, total, inmode, path, fraction, pts)'

        spec, ref, parts = self.spec, self.ref, self.parts
        out = []
        queue = []
        entries = 0

        for k, (mode, pts) in enumerate(model.init_polys(spec)):
            queue.append((mode, pts, 0, (f'init{k}',)))

        while queue:
            mode, pts, total, path = queue.pop(0)
            pts = self.shrink(pts, ref.inv(mode), 1e-4)
            entries += 1

            if pts is None or entries > max_entries:
                continue

            zero = mode not in ref.upoly and not np.any(spec['modes'][mode]['A'])
            last = (1 if zero else spec['n'] - total) * parts
            last = min(last, (spec['n'] - total) * parts) + parts

            for j in range(last + 1):
                m, frac = divmod(j, parts)

                if j > 0:
                    pts = self.shrink(pts, ref.inv(mode), 1e-4)

                    if pts is None:
                        break

                    pts = ref.step(mode, pts)

                self.states += 1

                # (m, frac): also the end of the previous step
                if total + m <= spec['n'] and not (zero and m > 0):
                    out.append((mode, total + m, m, path, frac / parts, pts))
                if frac == 0 and m > 0 and not (zero and m > 1):
                    out.append((mode, total + m - 1, m - 1, path, 1.0, pts))

                if total + m > spec['n'] or zero and m > 1:
                    break

                if m == 0 and not urgent:
                    continue

                for i, t in ref.out[mode]:
                    g = self.shrink(pts, t['guard'], 1e-4)

                    if g is None:
                        continue

                    if ref.is_error(t['to']):
                        self.error_hits.append((path, total + m, frac / parts))
                    else:
                        queue.append((t['to'], ref.reset(i, t, g), total + m, path + ((i, total + m),)))

        return out


# ------------------------------------------------------------------------------------------------------- the family

def mk(a, inv='none', inp='none'):
    'mode'
    m = {'A': A[a] if isinstance(a, str) else a, 'inv': INV[inv] if isinstance(inv, str) else inv}
    m.update(INP[inp] if isinstance(inp, str) else inp)
    return m


TINY = {'B': [[0], [1]], 'U': [[[1], [-1]], [1e-6, 1e-6]]} # bloating terms that are almost zero
NIL = {'B': [[1], [1]], 'U': [[[1], [-1]], [0.0, 0.0]], 'const': True}
FIX = {'B': [[0.4], [1]], 'U': [[[1], [-1]], [0.3, -0.3]], 'const': True}


def singles(quick):
    'one mode, and an error mode behind a condition'

    for a, u, i, ini, h in itertools.product(sorted(A), ('none', 'sym', 'asym', 'box2', 'tri2', TINY, NIL, FIX) if not quick
                                             else ('none', 'sym', 'box2', TINY, NIL, FIX),
                                             ('none', 'two', 'three'), sorted(INIT), (0.15, 0.4) if quick else (0.05, 0.15, 0.4, 0.7)):
        yield {'h': h, 'n': 4, 'modes': {'p': mk(a, i, u), 'e': {'A': None}},
               'trans': [{'from': 'p', 'to': 'e', 'guard': [[[-0.3, -1], -1.37], [[1, 0.1], 1.13]]}],
               'init': [['p'] + INIT[ini]]}

    for a, u, h in itertools.product(([[0.5]], [[-1.3]], [[0.0]]), ({}, {'B': [[1]], 'U': [[[1], [-1]], [0.3, 0.2]]}),
                                     (0.2, 0.6)):
        yield {'h': h, 'n': 5, 'modes': {'p': mk(a, [[[1], 1.61]], u), 'e': {'A': None}},
               'trans': [{'from': 'p', 'to': 'e', 'guard': [[[-1], -1.17]]}], 'init': [['p', 'box', [[0.4, 0.7]]]]}

    a3 = ([[0, 1, 0], [-1, 0, 0.5], [0, 0, 0]], [[-0.2, 0.3, 0.1], [0, 0.25, -0.7], [0.3, 0.1, -0.1]])
    u3 = ({}, {'B': [[0], [1], [0]], 'U': [[[1], [-1]], [0.3, 0.2]]})

    for a, u, h in itertools.product(a3, u3, (0.2, 0.5)):
        yield {'h': h, 'n': 3, 'modes': {'p': mk(a, [[[1, 0, 0], 1.61]], u), 'e': {'A': None}},
               'trans': [{'from': 'p', 'to': 'e', 'guard': [[[-1, -0.5, 0], -1.17]]}],
               'init': [['p', 'box', [[0.1, 0.5], [0.2, 0.7], [1, 1]]]]}


def pairs(quick):
    'two or three modes'

    dyns = (('dint', 'rot'), ('rot', 'zero'), ('gen', 'spiral')) if quick else \
        (('dint', 'rot'), ('rot', 'zero'), ('gen', 'spiral'), ('zero', 'saddle'), ('spiral', 'dint'))

    for d, g, r, i, u, urg in itertools.product(dyns, ('xge', 'corner', 'band', 'slice'), ('id', 'lin', 'mink', 'collapse'),
                                                (('none', 'two'), ('xyle', 'three')),
                                                (('none', 'none'), ('sym', 'box2'), ('none', 'sym')), (False, True)):
        if quick and urg and (r in ('mink', 'collapse') or u[0] == 'sym'):
            continue

        yield {'h': 0.35, 'n': 4, 'modes': {'p': mk(d[0], i[0], u[0]), 'q': mk(d[1], i[1], u[1]), 'e': {'A': None}},
               'trans': [{'from': 'p', 'to': 'q', 'guard': GUARD[g], **RESET[r]},
                         {'from': 'q', 'to': 'e', 'guard': [[[0.2, 1], -0.41]]}],
               'init': [['p'] + INIT['box']], 'set': {'process_urgent_guards': urg}}

    # the same mode is visited several times; several initial sets; a dimension change
    for d, u, g in itertools.product((('rot', 'gen'), ('spiral', 'dint')), (('sym', 'none'), ('none', 'box2'), ('sym', 'box2')),
                                     ('xge', 'band')):
        yield {'h': 0.4, 'n': 5, 'modes': {'p': mk(d[0], 'two', u[0]), 'q': mk(d[1], 'none', u[1]), 'e': {'A': None}},
               'trans': [{'from': 'p', 'to': 'q', 'guard': GUARD[g], **RESET['lin']},
                         {'from': 'q', 'to': 'p', 'guard': GUARD['yle'], **RESET['swap']},
                         {'from': 'p', 'to': 'e', 'guard': [[[-1, 0.2], -1.83]]}],
               'init': [['p'] + INIT['tri'], ['q'] + INIT['seg']]}
        yield {'h': 0.3, 'n': 5, 'modes': {'p': mk(d[0], 'two', u[0]), 's': {'A': [[-0.4]], 'inv': [[[1], 2.3]]}, 'e': {'A': None}},
               'trans': [{'from': 'p', 'to': 's', 'guard': GUARD[g], 'R': [[1, 0.5]]},
                         {'from': 's', 'to': 'p', 'guard': [[[1], 1.41]], 'R': [[1], [0.5]],
                          'M': [[0], [1]], 'MC': [[[1], [-1]], [0.3, 0.0]]},
                         {'from': 's', 'to': 'e', 'guard': [[[1], 1.23]]}],
               'init': [['p'] + INIT['box']]}

    # clocks (the shortcut for time-triggered transitions must not be used: the clock is not exact in the models)
    for kk, u in itertools.product((0.5, 0.61, 0.9), ({}, {'B': [[1], [0], [0], [0]], 'U': [[[1], [-1]], [0.2, 0.1]]})):
        yield {'h': 0.25, 'n': 5,
               'modes': {'p': mk([[0, 1, 0, 0], [-1, 0, 0, 0], [0, 0, 0, 1], [0, 0, 0, 0]], [[[0, 0, 1, 0], kk]], u),
                         'q': mk([[0.1, -0.7, 0, 0], [0.4, 0.2, 0, 0], [0, 0, 0, 1], [0, 0, 0, 0]], [[[0, 0, 1, 0], kk + 0.4]]),
                         'e': {'A': None}},
               'trans': [{'from': 'p', 'to': 'q', 'guard': [[[0, 0, -1, 0], -kk]]},
                         {'from': 'q', 'to': 'e', 'guard': [[[1, 0.5, 0, 0], 0.31]]}],
               'init': [['p', 'box', [[0.1, 0.5], [0.2, 0.6], [0, 0], [1, 1]]]],
               'set': {'optimize_tt_transitions': True}}


def configs(tier):
    'the whole space'

    quick = tier == 'quick'

    for kind in ('chull', 'lgg'):
        for s in singles(quick):
            if len(s['modes']['p']['A']) == 2 and quick and kind == 'chull' and s['h'] == 0.15:
                continue
            yield dict(s, kind=kind, strat='U', parts=4)

        for k, s in enumerate(pairs(quick)):
            for strat in 'UAD':
                if quick and strat != 'U' and k % 2 == (strat == 'A'):
                    continue
                yield dict(s, kind=kind, strat=strat, parts=2 if quick else 3)


# ------------------------------------------------------------------------------------------------------- the check

def observe(core):
    'all observed sets: (mode, inmode) -> [(lo, hi, supports)]'

    iobs = {}
    steps = 0

    while not core.is_finished():
        core.do_step()
        steps += 1

        if steps > 5000:
            raise Violation('does not terminate')

        s = core.aggdag.get_cur_state()

        if s is not None:
            sup = model.lpi_supports(s.lpi, poly.directions(s.lpi.dims))
            lo, hi = (int(x) for x in s.cur_steps_since_start)
            iobs.setdefault((s.mode.name, s.cur_step_in_mode), []).append((lo, hi, sup))

    return iobs


def must_cover(what, iobs, key, total, pts, tol=1e-4):
    'some set of the computation contains the points'

    sup = poly.supports(pts, poly.directions(pts.shape[1]))
    gaps = [float((sup - x).max()) for lo, hi, x in iobs.get(key, []) if lo <= total <= hi]

    if not gaps or min(gaps) > tol * max(1.0, float(np.abs(sup).max())):
        raise Violation(f'{what} are not in the reported sets ({"none there" if not gaps else f"off by {min(gaps):.2e}"})')


def check(cfg):
    'one run'

    st = Stats()
    urgent = cfg.get('set', {}).get('process_urgent_guards', False)
    ref = RefApprox(cfg, cfg['kind'])
    undecided = False

    try:
        robs = ref.run_approx(urgent)
    except Marginal:
        if cfg['kind'] == 'chull':
            raise
        undecided = True # no upper bound, the rest is decided

    core = model.build_core(cfg)
    core.settings.approx_model = HylaaSettings.APPROX_CHULL if cfg['kind'] == 'chull' else HylaaSettings.APPROX_LGG

    if cfg['strat'] != 'U':
        core.settings.aggstrat = aggstrat.Aggregated()
        core.settings.aggstrat.deaggregate = cfg['strat'] == 'D'

    iobs = observe(core)
    res = core.result
    st.states += ref.states
    st.transitions += ref.transitions

    if cfg['kind'] == 'lgg':
        cont = Cont(cfg, cfg['parts'])
        lower = cont.run(urgent)
        st.states += cont.states

        for mode, total, inmode, path, frac, pts in lower:
            must_cover(f'states of mode {mode} reached at time {total + frac:.2f} steps ({inmode} in mode) on path {path}',
                       iobs, (mode, inmode), total, pts)
            st.traces += 1

        hits = cont.error_hits
        st.count('continuous_sets', len(lower))
        st.count('continuous_jumps', sum(1 for x in lower if len(x[3]) > 1))

        if not undecided and cfg['strat'] == 'U':
            for (mode, inmode), lst in iobs.items():
                for lo, _, sup in lst:
                    ups = [poly.supports(p, poly.directions(p.shape[1])) for _, p in robs.get((mode, lo, inmode), [])]
                    gaps = [float((sup - u).max()) for u in ups]

                    if not gaps or min(gaps) > 2e-4 * max(1.0, float(np.abs(ups[0]).max())):
                        raise Violation(f'a set of mode {mode} at step {lo} ({inmode} in mode) is larger than the formula of '
                                        f'the model allows ({"nothing there" if not gaps else f"by {min(gaps):.2e}"})')

            st.count('upper_bounds')

            if res.has_concrete_error and not ref.error_hits:
                raise Violation('an error is reported that is not reachable in the approximation')
    else:
        hits = ref.error_hits

        if cfg['strat'] == 'U':
            exact = {}

            for (mode, inmode), lst in iobs.items():
                for lo, hi, sup in lst:
                    exact.setdefault((mode, (lo, hi), inmode), []).append(sup)

            model.compare_exact(robs, exact, 2e-4)
            st.count('exact_runs')
        else:
            for (mode, total, inmode), lst in robs.items():
                for path, pts in lst:
                    must_cover(f'hull of end points in mode {mode} at step {total} ({inmode} in mode), path {path}',
                               iobs, (mode, inmode), total, pts, 2e-4)

        st.traces += sum(len(v) for v in robs.values())

        if res.has_concrete_error and not hits:
            raise Violation('an error is reported that is not reachable in the approximation')

    found = res.has_concrete_error if cfg['strat'] in 'UD' else res.has_concrete_error or res.has_aggregated_error

    if hits and not found:
        raise Violation(f'an error mode is entered ({hits[0]}), but the result is safe')

    st.count('errors', 1 if hits else 0)
    st.count(cfg['kind'])
    st.sample = {'kind': cfg['kind'], 'compared': st.traces}
    return st


def min_counts(_tier):
    'vacuity guard'
    return {'chull': 300, 'lgg': 300, 'continuous_sets': 10000, 'continuous_jumps': 2000, 'upper_bounds': 300, 'errors': 100}
