'C17: simulation follows the semantics from any start and seed'

import itertools

import matplotlib.figure
import matplotlib.pyplot as plt
import numpy as np

from mc import model, ce
from mc.c01_exact_reach import A, INV, GUARD
from mc.engine import Stats, Violation, Marginal

from hylaa import aggstrat
from hylaa.core import Core
from hylaa.settings import PlotSettings, LabelSettings

PROP = 'C17'

DESCRIPTION = {
    'what': 'All automata of a bounded family (branching, joining, cycles, error modes, invariants, urgent guards, linear and '
            'constant resets) are simulated from the corners, the centre and from seeded random points of a box; every '
            'recorded line is compared with an independent simulator, checked to be inside the exact reachable set of the '
            'reference semantics at its step, and the same seed or a skipped prefix of simulations must give the same lines.',
    'bounds': '2-3 dims, up to 8 steps, up to 4 modes',
    'assumptions': ['no decision of a guard or invariant within 1e-9 of its boundary (not decided)'],
}

BOX = [[0.1, 0.9], [0.4, 1.2]]
CONST = [[0.0, 0.0], [0.0, 0.0]]
RESETS = {'id': {}, 'lin': {'R': [[0.5, -0.5], [0.25, 0.75]]}, 'swap': {'R': [[0, 1], [1, 0]]},
          'collapse': {'R': [[1.0, 0.5], [0, 0]]}}
A3 = [[0.0, 1.0, 0.0], [-1.0, 0.0, 0.3], [0.1, 0.0, -0.5]]


def automata(tier):
    'specs without initial sets'

    quick = tier == 'quick'
    tops = {
        'single': [],
        'chain': [('p', 'q')],
        'branch': [('p', 'q'), ('p', 'r')],
        'cycle': [('p', 'q'), ('q', 'p')],
        'err': [('p', 'e'), ('p', 'q'), ('q', 'e')],
        'loop': [('p', 'p'), ('p', 'q')],
        'mix': [('p', 'q'), ('q', 'r'), ('r', 'p'), ('q', 'e'), ('p', 'r')],
    }
    dyns = [('dint', 'rot', 'gen'), ('rot', 'gen', 'zero'), ('spiral', 'saddle', 'rot')]
    guards = [('xge', 'yle', 'corner', 'band', 'xge'), ('band', 'xge', 'yle', 'corner', 'true'),
              ('yle', 'corner', 'xge', 'xge', 'band')]
    resets = [('id', 'id', 'id', 'id', 'id'), ('lin', 'swap', 'id', 'collapse', 'lin')]
    invs = [('none', 'none', 'none'), ('xle', 'two', 'none'), ('three', 'xyle', 'xle')]

    if quick:
        resets = resets[1:]
        guards = guards[:2]

    for (top, edges), dyn, gl, rl, il, urg in itertools.product(sorted(tops.items()), dyns, guards, resets, invs, (False, True)):
        if urg and top in ('cycle', 'loop', 'mix'):
            continue # may take transitions for ever without time passing

        if not edges and (gl is not guards[0] or urg):
            continue

        names = sorted({x for e in edges for x in e} | {'p'})
        modes = {}

        for k, nm in enumerate(x for x in names if x != 'e'):
            modes[nm] = {'A': A[dyn[k]], 'inv': INV[il[k]]}

        if 'e' in names:
            modes['e'] = {'A': None}

        trans = [dict({'from': s, 'to': d, 'guard': GUARD[gl[k]]}, **RESETS[rl[k]]) for k, (s, d) in enumerate(edges)]
        yield {'h': 0.4, 'n': 6, 'modes': modes, 'trans': trans, 'set': {'process_urgent_guards': urg}}

    # the invariant of the target restricts the guard: other bounds in the direction of the guard, nearly equal bounds,
    # multiples, duplicates, equalities, contradictions (the simulator goes on in p) and an error mode behind
    for (_, cons), (k, d), urg in itertools.product((('xge', [[[-1, 0], -1.31]]), ('yle', [[[0, 1], 0.37]]),
                                                     ('both', [[[-1, 0], -0.71], [[0, 1], 0.93]]), ('true', [])),
                                                    enumerate(dyns), (False, True)):
        rows = cons or [[[-1, 0], -0.3]]

        for inv in ([[r, b + e] for r, b in rows for e in (-0.007,)], [[r, b - 0.24] for r, b in rows],
                    [[r, b + 0.3] for r, b in rows], [[list(2 * np.array(r)), 2 * b - 0.1] for r, b in rows],
                    [[rows[-1][0], rows[-1][1] - 0.31]], [[rows[0][0], rows[0][1]], [rows[0][0], rows[0][1] - 0.17]],
                    [[list(-np.array(rows[0][0])), -rows[0][1] + 0.41]], [[[-1, 0.01], -1.3]],
                    [[list(-np.array(rows[0][0])), -rows[0][1] - 0.13]]):
            inv = [[[float(x) for x in r], b] for r, b in inv]
            yield {'h': 0.2, 'n': 9, 'modes': {'p': {'A': A[d[0]]}, 'q': {'A': A[d[1]], 'inv': inv}, 'e': {'A': None},
                                               'r': {'A': A[d[2]], 'inv': INV['xle'] if k else []}},
                   'trans': [{'from': 'p', 'to': 'q', 'guard': cons},
                             {'from': 'p', 'to': 'r', 'guard': [[[0.3, -1], -0.41]]},
                             {'from': 'q', 'to': 'e', 'guard': [[[-1, 0.3], -1.71]]}],
                   'set': {'process_urgent_guards': urg}}

    # with a change of the number of dimensions
    yield {'h': 0.3, 'n': 8, 'modes': {'p': {'A': A['rot']}, 'q': {'A': A3}, 'r': {'A': A['gen'], 'inv': INV['xle']}},
           'trans': [{'from': 'p', 'to': 'q', 'guard': GUARD['xge'], 'R': [[1, 0], [0, 1], [0.5, 0.5]]},
                     {'from': 'q', 'to': 'r', 'guard': [[[0, 1, 0], -0.2]], 'R': [[0, 1, 0], [1, 0, 0.5]]}],
           'set': {'process_urgent_guards': False}}


def configs(tier):
    'automata'

    for k, spec in enumerate(automata(tier)):
        spec = dict(spec)
        spec['strategy'] = ('unaggregated', 'aggregated', 'avoid')[k % 3]
        yield spec


def in_all(cons, pt):
    'does the point satisfy the constraints?'

    rv = True

    for c in cons:
        diff = float(np.dot(c[0], pt)) - c[1]

        if abs(diff) < 1e-9:
            raise Marginal()

        if diff > 0 or (len(c) == 3 and diff < 0):
            rv = False

    return rv


def expected_lines(spec, start):
    'all lines (lists of (steps, point, mode)) of the simulation from a point'

    rv = []
    todo = [('p', np.array(start, dtype=float), 0)]

    while todo:
        name, pt, steps = todo.pop()
        phi = model._cached_mats(spec['modes'][name], spec['h'])[0] # pylint: disable=protected-access
        line = [(steps, pt, name)]
        rv.append(line)
        try_guards = spec['set']['process_urgent_guards']

        while steps < spec['n']:
            taken = None

            if try_guards:
                for t in spec['trans']:
                    if t['from'] != name:
                        continue

                    cons = list(t['guard'])

                    if t.get('R') is None and t['to'] != name:
                        cons += spec['modes'][t['to']].get('inv') or [] # such guards are strengthened

                    if in_all(cons, pt):
                        taken = t
                        break

            if taken:
                post = pt if taken.get('R') is None else np.array(taken['R'], dtype=float) @ pt
                line.append((steps, post, taken['to']))

                if spec['modes'][taken['to']].get('A') is not None:
                    todo.append((taken['to'], post, steps))
                break

            if not in_all(spec['modes'][name].get('inv') or [], pt):
                break

            try_guards = True
            pt = phi @ pt
            steps += 1
            line.append((steps, pt, name))

    return rv


def simulate(spec, box, num, seed):
    'run the simulation: lines as arrays of (time, x0, x1)'

    ha, modes = model.build_ha(spec)
    s = model.build_settings(spec)
    s.plot.plot_mode = PlotSettings.PLOT_IMAGE
    s.plot.filename = '/dev/null'
    s.plot.xdim_dir = [None, 0, None]
    s.plot.ydim_dir = [0, 1, np.array([0.5, -2.0])]
    s.plot.label = [LabelSettings() for _ in range(3)]
    s.random_seed = seed

    if spec['strategy'] != 'unaggregated':
        s.aggstrat = aggstrat.Aggregated()

        if spec['strategy'] == 'avoid':
            s.aggstrat.sim_avoid_modes = ['q']

    dims = {len(m['A']) for m in spec['modes'].values() if m.get('A') is not None}

    if dims != {2}: # direction vectors need one size
        s.plot.xdim_dir, s.plot.ydim_dir, s.plot.label = s.plot.xdim_dir[:2], s.plot.ydim_dir[:2], s.plot.label[:2]

    try:
        res = Core(ha, s).simulate(modes['p'], box, num)
    finally:
        plt.close('all')

    if len(res.sim_lines) != len(s.plot.xdim_dir):
        raise Violation(f'lines for {len(res.sim_lines)} plots, should be {len(s.plot.xdim_dir)}')

    rv = []

    for i, seg in enumerate(res.sim_lines[0]):
        group = []

        for j, line in enumerate(seg):
            others = [res.sim_lines[k][i][j] for k in range(1, len(res.sim_lines))]

            if any(len(o) != len(line) for o in others):
                raise Violation('the plots have lines of different lengths')

            for k, (t, x) in enumerate(line):
                if others[0][k][0] != x:
                    raise Violation('the plots show different simulations')

                if len(others) > 1 and (others[1][k][0] != t or
                                        abs(0.5 * x - 2 * others[0][k][1] - others[1][k][1]) > 1e-9):
                    raise Violation(f'the point {others[0][k]} is shown as {others[1][k]} at time {t} in a plot of time '
                                    'and direction [0.5, -2]')

            group.append([(t, x, others[0][k][1]) for k, (t, x) in enumerate(line)])

        rv.append(group)

    return rv


def near(a, b):
    'equal up to rounding'
    return len(a) == len(b) and all(abs(x - y) < 1e-6 * max(1, abs(y)) for x, y in zip(a, b))


def check_run(spec, groups, box, num, ref_obs, what, st):
    'compare the lines of a simulation'

    starts = [line[0] for line in groups[0]]

    if len(starts) != num:
        raise Violation(f'{what}: {len(starts)} simulations, should be {num}')

    for s in starts:
        if s[0] != 0 or any(not lo - 1e-9 <= x <= hi + 1e-9 for x, (lo, hi) in zip(s[1:], box)):
            raise Violation(f'{what}: start {s} at time 0 should be in {box}')

    want = []

    for s in starts:
        want += expected_lines(spec, s[1:])

    got = [line for g in groups for line in g]

    if len(got) != len(want):
        raise Violation(f'{what}: {len(got)} lines, should be {len(want)}')

    left = list(got)

    for w in want:
        flat = [(s * spec['h'], p[0], p[1]) for s, p, _ in w]
        hit = next((g for g in left if len(g) == len(flat) and all(near(x, y) for x, y in zip(g, flat))), None)

        if hit is None:
            raise Violation(f'{what}: no line {np.round(flat, 4).tolist()} (time, x0, x1); lines: '
                            f'{[np.round(g, 4).tolist() for g in got]}')

        left.remove(hit)
        st.transitions += len(w)

    # every state is reachable
    for s, line in [(None, w) for w in want]:
        for k, (steps, pt, name) in enumerate(line):
            if name != line[0][2]:
                continue # after the reset: checked as the start of the next line

            sets = [pts for (m, total, _), lst in ref_obs.items() if m == name and total == steps for _, pts in lst]

            if k == 0 and not in_all(spec['modes'][name].get('inv') or [], pt):
                continue # outside of the invariant from the beginning: shown, but not reachable

            if not any(ce.in_polytope(np.array(p), np.array(pt), 1e-6) for p in sets) and not zero_mode(spec, name):
                raise Violation(f'{what}: {pt} in {name} at step {steps} is not in the reachable set')

            st.states += 1

    st.count('lines', len(want))


def zero_mode(spec, name):
    'no dynamics: the state after the step is not observed in the reference'
    return not np.any(spec['modes'][name]['A'])


def check(cfg):
    'one automaton'

    st = Stats()
    saved = matplotlib.figure.Figure.savefig, plt.savefig
    matplotlib.figure.Figure.savefig = plt.savefig = lambda *_args, **_kwargs: None # drawing takes long

    try:
        spec = cfg
        spec['init'] = [['p', 'box', BOX]]
        ref_obs = model.Ref(spec).run(urgent=spec['set']['process_urgent_guards'])
        corners = [[x, y] for x in BOX[0] for y in BOX[1]] + [[0.5, 0.8]]

        for c in corners:
            box = [[v, v] for v in c]
            groups = simulate(spec, box, 1, 0)

            try:
                check_run(spec, groups, box, 1, ref_obs, f'from {c}', st)
            except Marginal:
                st.count('ties')

        first = simulate(spec, BOX, 6, 3)
        check_run(spec, first, BOX, 6, ref_obs, 'from 6 random points', st)

        if len({line[0] for line in first[0]}) != 6:
            raise Violation('the random starts are not different')

        again = simulate(spec, BOX, 6, 3)

        if again != first:
            raise Violation('the same seed gives other simulations')

        part = simulate(spec, BOX, [2, 6], 3)
        check_run(spec, part, BOX, 4, ref_obs, 'simulations 2 to 6', st)

        if [line[0] for line in part[0]] != [line[0] for line in first[0]][2:]:
            raise Violation('skipping simulations changes the others')
    finally:
        matplotlib.figure.Figure.savefig, plt.savefig = saved

    st.traces += 8
    st.sample = {'lines': len(first)}
    return st


def min_counts(_tier):
    'vacuity guard'
    return {'lines': 1000}
