'C28: the features keep their guarantees in combination'

import contextlib
import io
import itertools

import numpy as np

from mc import model, poly, ce
from mc.c01_exact_reach import A, INV, GUARD, RESET, INIT
from mc.c02_inputs_exact import INP
from mc.c11_approx import must_cover
from mc.engine import Stats, Violation

from hylaa import aggstrat
from hylaa.core import Core
from hylaa.settings import HylaaSettings, PlotSettings

PROP = 'C28'

DESCRIPTION = {
    'what': 'Automata with five modes are built from seventeen features (dynamics, inputs, invariants, kinds of guards, resets and initial sets, '
            'clocks, aggregation and deaggregation strategies, order of work, approximation models, urgent guards, guard '
            'strengthening, the time-triggered shortcut, stored plots, stop settings). Every triple of levels of these features '
            'occurs together (in the thorough tier: nearly every four of them). Each automaton is run, and every set of '
            'the reference semantics must be inside of a visited one, errors must be found, counterexamples must be '
            'genuine, and if nothing overapproximates the visited sets must be exactly those of the reference.',
    'bounds': 'every triple of levels of the features; 5 modes, 5 steps, 1-4 variables, 0-3 inputs',
    'assumptions': ['12 (2-d) / 18 (3-d) support directions, relative tolerance 1e-4', 'ties within 1e-5 not judged'],
}

FEATURES = {
    'dyn': (('dint', 'rot'), ('rot', 'gen'), ('gen', 'spiral'), ('saddle', 'dint')),
    'clock': (False, True), # the first transition is forced by a clock
    'inputs': (('none', 'none'), ('sym', 'none'), ('none', 'tri2'), ('box2', 'three')), # of the first two modes
    'inv': (('none', 'none'), ('xle', 'none'), ('none', 'three'), ('two', 'xyle')),
    'guard': ('xge', 'corner', 'band', 'slice'),
    'reset': ('id', 'lin', 'mink', 'mink2'),
    'second': ('same', 'down', 'up', 'still'), # the third mode has the same, less or more variables, or does not move
    'init': (('box',), ('tri',), ('zono', 'seg'), ('q', 'pt')),
    'shape': ('tree', 'join'), # of the graph of modes
    'strat': ('U', 'A0', 'A1', 'D0', 'D1', 'D2', 'X', 'G'), # (convex hulls: C05, C11) X: not only sets of the same path, G: without guards
    'pop': (0, 1, 2),
    'approx': (HylaaSettings.APPROX_NONE, HylaaSettings.APPROX_CHULL, HylaaSettings.APPROX_LGG),
    'urgent': (False, True),
    'auto': ((False, False), (True, False), (False, True), (True, True)), # guard strengthening, time-triggered shortcut
    'plot': (False, True),
    'skip': (False, True), # of modes without dynamics
    'stop': (False, True),
}


def ext(rows, fill):
    'rows for the variables with a clock and a constant'
    return [list(r) + fill for r in rows]


def build(f):
    'the automaton with these features'

    clock = f['clock']
    modes = {}

    for name, a, inv, inp in zip('pqs', f['dyn'] + ('gen',), f['inv'] + ('none',), f['inputs'] + ('none',)):
        m = {'A': A[a], 'inv': INV[inv], **INP[inp]}

        if clock:
            m['A'] = ext(m['A'], [0, 0]) + [[0, 0, 0, 1], [0, 0, 0, 0]]
            m['inv'] = [[list(c[0]) + [0, 0]] + list(c[1:]) for c in m['inv']]

            if name == 'p':
                m['inv'] = m['inv'] + [[[0, 0, 1, 0], 0.62]]

            if 'B' in m:
                num = len(m['B'][0])
                m['B'] = m['B'] + [[0] * num, [0] * num]

        modes[name] = m

    def guard(rows):
        'guard'
        return [[list(c[0]) + ([0, 0] if clock else [])] + list(c[1:]) for c in rows]

    first = {'from': 'p', 'to': 'q', 'guard': [[[0, 0, -1, 0], -0.62]] if clock else GUARD[f['guard']], **RESET[f['reset']]}

    if clock:
        r = first.get('R') or [[1, 0], [0, 1]]
        first['R'] = ext(r, [0, 0]) + [[0, 0, 0, 0], [0, 0, 0, 1]]

        if 'M' in first:
            first['M'] = first['M'] + [[0] * len(first['M'][0])] * 2

    n = 4 if clock else 2
    second = {'from': 'q', 'to': 'r', 'guard': guard(GUARD['yle' if f['guard'] == 'band' else 'xge'])}
    modes['r'] = {'A': {'same': modes['s']['A'], 'still': [[0] * n] * n, 'down': [[0.4]],
                        'up': [[0, 1, 0], [-0.5, 0, 0.3], [0, 0, 0.2]]}[f['second']]}
    bad = guard([[[-1, -0.4], -1.9]])

    if f['second'] == 'down':
        second['R'] = [[0.5, -0.4] + [0] * (n - 2)]
        bad = [[[-1], -0.4]]
    elif f['second'] == 'up':
        second['R'] = ext([[1, 0], [0, 1], [0.3, -0.2]], [0] * (n - 2))
        bad = [[[-1, 0, 0.5], -1.4], [[0, 0, -1], 0.3]]
    elif f['second'] == 'still':
        modes['r']['inv'] = guard([[[1, 0], 2.4]])

    modes['e'] = {'A': None}
    trans = [first, second, {'from': 'p', 'to': 's', 'guard': guard(GUARD['corner'])},
             {'from': 's', 'to': 'e', 'guard': guard([[[0.3, 1], -1.3]])},
             {'from': 'r', 'to': 'e', 'guard': bad}, {'from': 'q', 'to': 'e', 'guard': guard([[[-1, -0.3], -2.6]])}]

    if f['shape'] == 'join':
        trans.insert(0, {'from': 's', 'to': 'q', 'guard': guard(GUARD['band'])})

    init = []

    for x in f['init']:
        if x == 'q':
            init.append(['q'] + INIT['box'])
        else:
            init.append(['p'] + INIT[x])

    if clock:
        init = [[m, kind, lift(kind, data)] for m, kind, data in init]

    strengthen, shortcut = f['auto']
    return {'h': 0.3, 'n': 5, 'modes': modes, 'trans': trans, 'init': init,
            'set': {'approx_model': f['approx'], 'process_urgent_guards': f['urgent'], 'do_guard_strengthening': strengthen,
                    'optimize_tt_transitions': shortcut, 'stop_on_concrete_error': f['stop'], 'make_counterexample': f['stop'],
                    'skip_zero_dynamics_modes': f['skip']}}


def lift(kind, data):
    'the initial set with a clock at zero, and the constant one'

    if kind == 'box':
        return data + [[0, 0], [1, 1]]

    if kind == 'con':
        return [ext(data[0], [0, 0]) + [[0, 0, 1, 0], [0, 0, -1, 0], [0, 0, 0, 1], [0, 0, 0, -1]], data[1] + [0, 0, 1, -1]]

    return [data[0] + [0, 1]] + [ext(data[1], [0, 0])] + data[2:]


def rows(tier):
    'combinations of levels, so that every triple (thorough: nearly every four) of levels occurs'

    names = sorted(FEATURES)
    sizes = [len(FEATURES[n]) for n in names]
    total = int(np.prod(sizes))
    num = 2600 if tier == 'quick' else 30000
    step = int(total * 0.6180339887) | 1

    while np.gcd(step, total) != 1:
        step += 2

    missing = {(i, j, k, a, b, c) for i, j, k in itertools.combinations(range(len(names)), 3)
               for a in range(sizes[i]) for b in range(sizes[j]) for c in range(sizes[k])}
    triples = list(itertools.combinations(range(len(names)), 3))

    def cover(row):
        'remove what the row covers'
        missing.difference_update((i, j, k, row[i], row[j], row[k]) for i, j, k in triples)

    for n in range(num):
        index = n * step % total
        row = []

        for s in sizes:
            row.append(index % s)
            index //= s

        cover(row)
        yield {name: x for name, x in zip(names, row)}

    while missing: # what is left
        i, j, k, a, b, c = min(missing)
        row = [0] * len(names)
        row[i], row[j], row[k] = a, b, c
        cover(row)
        yield {name: x for name, x in zip(names, row)}


def configs(tier):
    'levels of all features'
    yield from rows(tier)


class Watch(Core):
    'records the sets'

    def __init__(self, ha, settings):
        self.seen = {}
        self.pairs = {}
        self.steps = 0
        super().__init__(ha, settings)

    def do_step(self):
        super().do_step()
        self.steps += 1
        s = self.aggdag.get_cur_state()

        if self.steps > 3000:
            raise Violation('does not terminate')

        if s is not None:
            sup = model.lpi_supports(s.lpi, poly.directions(s.lpi.dims))
            lo, hi = s.cur_steps_since_start
            self.seen.setdefault((s.mode.name, (lo, hi), s.cur_step_in_mode), []).append(sup)
            self.pairs.setdefault((s.mode.name, s.cur_step_in_mode), []).append((lo, hi, sup))


def check(cfg):
    'run it'

    st = Stats()
    f = {k: FEATURES[k][v] for k, v in cfg.items()}
    spec = build(f)
    ref = model.Ref(spec)
    robs = ref.run(urgent=f['urgent'], skip_zero=f['skip'], max_states=20000)
    unsafe = bool(ref.error_hits)
    st.states, st.transitions = ref.states, ref.transitions

    ha, modes = model.build_ha(spec)
    settings = model.build_settings(spec)

    if f['strat'] != 'U':
        kind = int(f['strat'][1]) if f['strat'][0] == 'A' else 0
        strat = settings.aggstrat = aggstrat.Aggregated(kind, deaggregate=f['strat'][0] == 'D')
        strat.pop_type = f['pop']

        if f['strat'][0] == 'D':
            strat.deagg_preference = int(f['strat'][1])
        elif f['strat'] == 'X':
            strat.require_same_path = False
        elif f['strat'] == 'G':
            strat.add_guard = False

    if f['plot']:
        settings.plot.store_plot_result = True
        settings.plot.num_angles = 8
        settings.plot.xdim_dir, settings.plot.ydim_dir = [0, None], [0, 0]

    settings.plot.plot_mode = PlotSettings.PLOT_NONE
    core = Watch(ha, settings)

    with contextlib.redirect_stdout(io.StringIO()):
        res = core.run(model.build_init(spec, modes))

    agg, con = res.has_aggregated_error, res.has_concrete_error
    exact = f['strat'] == 'U' and f['approx'] == HylaaSettings.APPROX_NONE

    if unsafe and not (agg or con):
        raise Violation(f'{f}: an error mode is reachable ({ref.error_hits[0]}), but no error was reported')

    if f['approx'] == HylaaSettings.APPROX_NONE:
        if con and not unsafe:
            raise Violation(f'{f}: a concrete error was reported, but no error mode is reachable')
        if f['strat'][0] in 'UD' and con != unsafe:
            raise Violation(f'{f}: the reported concrete error: {con}, should be {unsafe}')
        if f['strat'] == 'U' and agg:
            raise Violation(f'{f}: aggregated error without aggregation')

        if f['stop'] and con:
            ce.validate(spec, res.counterexample, f['urgent'])
            st.count('counterexamples')

    if f['stop'] and con: # it does not go on
        st.count('stopped')
        return st

    if exact:
        model.compare_exact(robs, core.seen)
        st.count('exact')
    else:
        for (mode, total, inmode), lst in sorted(robs.items()):
            for path, pts in lst:
                must_cover(f'{f}: the states of mode {mode} at step {total} ({inmode} in mode) of path {path}', core.pairs,
                           (mode, inmode), total, pts)

        st.count('covered')

    if f['plot'] and f['strat'][0] != 'D':
        num = sum(len(v) for v in core.seen.values())

        for objs in res.plot_data.mode_to_obj_list:
            have = sum(len(v) for v in objs.values())

            if have != num:
                raise Violation(f'{f}: {have} polygons are stored, but {num} sets were visited')

        st.count('plots')

    st.traces = 1
    st.count('unsafe' if unsafe else 'safe')
    return st


def min_counts(_tier):
    'vacuity guard'
    return {'exact': 50, 'covered': 1000, 'counterexamples': 100, 'plots': 500, 'unsafe': 200, 'safe': 200}
