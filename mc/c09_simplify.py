'C09: automatic simplifications of the automaton preserve its behaviour, also when the automaton is used again'

import itertools

from mc import model, poly
from mc.c01_exact_reach import A, INV, GUARD, RESET, INIT
from mc.c02_inputs_exact import INP
from mc.c08_time_triggered import RefTT
from mc.engine import Stats, Violation

from hylaa import aggstrat
from hylaa.core import Core
from hylaa.settings import PlotSettings

PROP = 'C09'

DESCRIPTION = {
    'what': 'Automata with invariants that are added to guards, modes without dynamics (with and without inputs), clocks '
            'and error modes are run under every combination of the options for guard strengthening, skipping of modes '
            'without dynamics and the time-triggered shortcut, with each aggregation strategy. Histories: every sequence '
            'of two (thorough: three) runs from an alphabet of options, step sizes, aborted runs and simulations on one '
            'automaton object. Every run of every history must give exactly the sets and the verdict of the reference.',
    'bounds': '2-4 dims, 2-4 modes, 4-6 steps, 1-3 runs of one automaton object',
    'assumptions': ['sets are compared through 12-24 support directions with relative tolerance 2e-4',
                    'configurations with ties within 1e-5 are not judged'],
}

H = {'a': (0.3, 5), 'b': (0.2, 4), 'c': (0.45, 3)}


def two(p, q, trans, init=None, extra=None):
    'a plain automaton'
    modes = {'p': p, 'q': q}
    modes.update(extra or {})
    return {'modes': modes, 'trans': trans, 'init': init or [['p'] + INIT['box']]}


def mode(a, inv='none', inp='none'):
    'mode spec'
    m = {'A': A[a], 'inv': INV[inv] if isinstance(inv, str) else inv}
    m.update(INP[inp])
    return m


ERR = {'e': {'A': None}}


def plain_automata(tier):
    'without clocks'

    quick = tier == 'quick'

    # two modes, the guard is (not) implied by, contains, or contradicts the target's invariant
    invq = {'three': INV['three'], 'two': INV['two'],
            'same': [[[-1, 0], -1.31]], 'scaled': [[[-2, 0], -2.62]], 'eq': [[[0.2, 1], 0.71], [[-0.2, -1], -0.71]],
            'opposite': [[[1, 0], 1.17]], 'more': [[[1, 0], 1.55], [[0, 1], 0.73], [[-1, 0.2], -0.51]],
            'dup': [[[1, 0], 1.83], [[1, 0], 1.83], [[2, 0], 3.66]]}
    dyns = (('dint', 'rot'), ('rot', 'zero'), ('zero', 'gen')) if quick else \
        (('dint', 'rot'), ('rot', 'zero'), ('zero', 'gen'), ('spiral', 'saddle'), ('gen', 'zero'), ('zero', 'zero'))

    for (d1, d2), iq, g, r, u in itertools.product(dyns, sorted(invq), ('xge', 'corner', 'true') if quick else
                                                   ('xge', 'yle', 'corner', 'band', 'true', 'slice'),
                                                   ('id', 'ident', 'lin', 'mink2') if quick else
                                                   ('id', 'ident', 'lin', 'mink', 'mink2', 'swap'),
                                                   ('none', 'sym')):
        rr = {'R': [[1, 0], [0, 1]]} if r == 'ident' else RESET[r]
        yield two(mode(d1, 'xyle'), mode(d2, invq[iq], u),
                  [{'from': 'p', 'to': 'q', 'guard': GUARD[g], **rr},
                   {'from': 'q', 'to': 'e', 'guard': [[[0.3, -1], -0.77]]}], extra=ERR)

    # three modes: strengthening on a cycle, self loop, two transitions into the same mode, an error behind
    for d, il, inp in itertools.product((('dint', 'rot', 'gen'), ('rot', 'zero', 'dint'), ('zero', 'gen', 'zero')),
                                        (('xle', 'two', 'three'), ('three', 'xle', 'none'), ('two', 'xyle', 'two')),
                                        ('none', 'sym')):
        ms = {n: mode(x, i, inp if n == 'q' else 'none') for n, x, i in zip('pqr', d, il)}
        yield {'modes': dict(ms, e={'A': None}),
               'trans': [{'from': 'p', 'to': 'q', 'guard': GUARD['band']},
                         {'from': 'p', 'to': 'q', 'guard': GUARD['yle'], **RESET['lin']},
                         {'from': 'q', 'to': 'r', 'guard': GUARD['corner']},
                         {'from': 'r', 'to': 'p', 'guard': GUARD['xge'], **RESET['collapse']},
                         {'from': 'p', 'to': 'e', 'guard': [[[-1, -0.4], -2.31]]},
                         {'from': 'r', 'to': 'e', 'guard': [[[-0.2, 1], -0.61]]}],
               'init': [['p'] + INIT['box'], ['r'] + INIT['tri']]}
        yield {'modes': dict(ms, e={'A': None}),
               'trans': [{'from': 'p', 'to': 'p', 'guard': GUARD['xge'], **RESET['lin']},
                         {'from': 'p', 'to': 'q', 'guard': GUARD['true']},
                         {'from': 'q', 'to': 'r', 'guard': GUARD['xge']},
                         {'from': 'q', 'to': 'e', 'guard': [[[0.1, 1], -0.37]]}],
               'init': [['p'] + INIT['zono']]}


def clock_automata(tier):
    'clocks: x, y, t, a with t\' = a'

    # 0.6: on the grid of 'a', 'b'; 0.9: of 'a', 'c'; 0.6003: just after the grid
    for kk, xg, urgi in itertools.product((0.6, 0.71, 0.9, 0.60031) if tier == 'quick' else (0.4, 0.6, 0.71, 0.9, 0.60031, 0.90017),
                                          ([], [[[-1, 0, 0, 0], -0.237]]), ([], [[[1, 0.3, 0, 0], 0.813]])):
        p = {'A': [[0, 1, 0, 0], [-1, 0, 0, 0], [0, 0, 0, 1], [0, 0, 0, 0]], 'inv': [[[0, 0, 1, 0], kk]]}
        q = {'A': [[0.1, -0.7, 0, 0], [0.4, 0.2, 0, 0], [0, 0, 0, 1], [0, 0, 0, 0]],
             'inv': [[[0, 0, 1, 0], kk + 0.41]] + urgi}
        yield {'clock': True, 'modes': {'p': p, 'q': q, 'e': {'A': None}},
               'trans': [{'from': 'p', 'to': 'q', 'guard': [[[0, 0, -1, 0], -kk]] + xg},
                         {'from': 'q', 'to': 'p', 'guard': [[[0, 0, -1, 0], -kk - 0.41]],
                          'R': [[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 0, 0], [0, 0, 0, 1]]},
                         {'from': 'q', 'to': 'e', 'guard': [[[-1, 0, 0, 0], -0.377]]}],
               'init': [['p', 'box', [[0.1, 0.5], [0.2, 0.6], [0, 0], [1, 1]]]]}


OPTS = [(g, z, t) for g in (0, 1) for z in (0, 1) for t in (0, 1)]


def run_alphabet(grids, strats):
    'all runs'
    return [[gr, list(o), s] for gr in grids for o in OPTS for s in strats]


def configs(tier):
    'the whole space'

    quick = tier == 'quick'
    clocks = list(clock_automata(tier))
    plains = list(plain_automata(tier))

    # single runs under all options
    for spec in plains + clocks:
        for run in run_alphabet('a' if quick else 'ac', 'UAD'):
            yield {'spec': spec, 'runs': [run]}

    first = [['a', [1, 1, 1], 'U'], ['c', [1, 1, 1], 'A'], ['b', [0, 0, 1], 'D'], ['a', [0, 1, 0], 'U'], ['x', [1, 0, 1], 'U'],
             ['a', [1, 1, 1], 'abort3'], ['a', [1, 0, 1], 'abort6'], ['a', [1, 1, 1], 'sim']]
    last = run_alphabet('ab', 'UA') + [['c', [1, 1, 1], 'D'], ['a', [0, 0, 0], 'D']]
    hist = plains[7::41] + plains[-4:-1] + clocks if quick else plains[3::60] + clocks

    for spec, f, g in itertools.product(hist, first, last):
        yield {'spec': spec, 'runs': [f, g]}

    if not quick:
        for spec, f, g, k in itertools.product(plains[7::140] + clocks[::2], first, first[:5], last[::2]):
            yield {'spec': spec, 'runs': [f, g, k]}


GRIDX = (0.5, 1) # one big step: a big tolerance in the time-triggered shortcut
_REF = {}


def grid(name):
    'step size, steps'
    return GRIDX if name == 'x' else H[name]


def reference(spec, run):
    'observations and error hits of the reference for a run'

    gname, (_, zero, ttopt), _ = run
    h, n = grid(gname)
    sub = dict(spec, h=h, n=n)
    key = repr((sub, zero, ttopt))

    if key in _REF:
        return _REF[key]

    if spec.get('clock') and ttopt:
        # (without the shortcut, a clock that is exactly at the threshold is a tie that is not judged)
        ref = RefTT(sub)
        ref.never = [m for m, d in spec['modes'].items() if any(any(row[:2]) for row, _ in d.get('inv', []))]
        robs = ref.run_tt(False)
    else:
        ref = model.Ref(sub)
        robs = ref.run(skip_zero=bool(zero), max_states=20000)

    if len(_REF) > 50:
        _REF.clear()

    _REF[key] = (robs, list(ref.error_hits), ref.states, ref.transitions)

    return _REF[key]


def settings_for(spec, run):
    'settings'

    gname, (strength, zero, ttopt), strat = run
    h, n = grid(gname)
    s = model.build_settings(dict(spec, h=h, n=n, set={}))
    s.do_guard_strengthening, s.skip_zero_dynamics_modes, s.optimize_tt_transitions = bool(strength), bool(zero), bool(ttopt)

    if strat in ('A', 'D'):
        s.aggstrat = aggstrat.Aggregated()
        s.aggstrat.deaggregate = strat == 'D'

    return s


def one_run(spec, ha, modes, run, where, st):
    'a run on the automaton object'

    strat = run[2]
    settings = settings_for(spec, run)

    if strat == 'sim':
        settings.plot.plot_mode = PlotSettings.PLOT_IMAGE
        settings.plot.filename = '/dev/null'
        core = Core(ha, settings)
        name = spec['init'][0][0]
        core.plotman.create_plot = lambda: None
        core.plotman.compute_and_animate = lambda: None
        core.simulate(modes[name], [[0.1, 0.4]] * len(spec['modes'][name]['A']), 2)
        core.sim_states = None
        core.plotman.commit_cur_sims = lambda: None

        while not core.is_finished():
            try:
                core.do_step()
            except AssertionError: # simulation with inputs is not supported
                break
        return

    core = Core(ha, settings)
    core.setup(model.build_init(spec, modes))

    if strat.startswith('abort'):
        for _ in range(int(strat[5:])):
            core.do_step()
        return

    robs, hits, _, _ = reference(spec, run)
    res = core.result

    if strat == 'U':
        iobs = model.explore_impl(core, max_steps=20000)

        try:
            model.compare_exact(robs, iobs, 2e-4)
        except Violation as e:
            raise Violation(f'{where}{e}') from None

        if res.has_concrete_error != bool(hits) or res.has_aggregated_error:
            raise Violation(f'{where}error reachable: {bool(hits)}, reported: {res.has_concrete_error}')

        st.count('exact_runs')
    else:
        covered(core, robs, where)

        if hits and not (res.has_concrete_error or res.has_aggregated_error) or res.has_concrete_error and not hits or \
                strat == 'D' and bool(hits) != bool(res.has_concrete_error):
            raise Violation(f'{where}error reachable: {bool(hits)}, reported: concrete {res.has_concrete_error}, aggregated '
                            f'{res.has_aggregated_error}')

        st.count('aggregated_runs')

    st.traces += sum(len(v) for v in robs.values())
    st.count('error_runs', 1 if hits else 0)


def covered(core, robs, where):
    'run an aggregated computation; every set of the reference is covered'

    iobs = {}
    steps = 0

    while not core.is_finished():
        core.do_step()
        steps += 1

        if steps > 20000:
            raise Violation(f'{where}does not terminate')

        s = core.aggdag.get_cur_state()

        if s is not None:
            sup = model.lpi_supports(s.lpi, poly.directions(s.lpi.dims))
            iobs.setdefault((s.mode.name, s.cur_step_in_mode), []).append((list(s.cur_steps_since_start), sup))

    for (name, total, inmode), lst in robs.items():
        for path, pts in lst:
            sup = poly.supports(pts, poly.directions(pts.shape[1]))
            gaps = [float((sup - x).max()) for (lo, hi), x in iobs.get((name, inmode), []) if lo <= total <= hi]

            if not gaps or min(gaps) > 2e-4 * max(1.0, float(abs(sup).max())):
                raise Violation(f'{where}mode {name} at step {total} ({inmode} in mode), path {path}: not covered')


def check(cfg):
    'a history of runs on one automaton object'

    st = Stats()
    spec = cfg['spec']

    for run in cfg['runs']: # undecided ties of any run: not judged
        if run[2] in 'UAD':
            r = reference(spec, run)
            st.states += r[2]
            st.transitions += r[3]

    ha, modes = model.build_ha(spec)

    for k, run in enumerate(cfg['runs']):
        where = f'run {k + 1} of {cfg["runs"]}: ' if len(cfg['runs']) > 1 else f'options {run}: '
        one_run(spec, ha, modes, run, where, st)

    st.count('histories' if len(cfg['runs']) > 1 else 'single_runs')
    st.sample = {'runs': cfg['runs']}
    return st


def min_counts(_tier):
    'vacuity guard'
    return {'histories': 500, 'single_runs': 1000, 'exact_runs': 1000, 'aggregated_runs': 500, 'error_runs': 200}
