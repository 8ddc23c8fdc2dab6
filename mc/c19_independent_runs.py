'C19: runs are deterministic and independent of earlier runs'

import contextlib
import hashlib
import io
import itertools
import json
import os
import pickle
import subprocess
import sys
import tempfile

import numpy as np

from mc import model, poly
from mc.c01_exact_reach import A, INV, GUARD, RESET, INIT
from mc.c02_inputs_exact import INP
from mc.engine import Stats, Violation, REPO, VERIF

from hylaa import aggstrat, lputil
from hylaa.check_trace import check as check_trace
from hylaa.core import Core
from hylaa.settings import HylaaSettings, PlotSettings
from hylaa.stateset import StateSet
from hylaa.timerutil import Timers

PROP = 'C19'

DESCRIPTION = {
    'what': 'Every history up to the bound over an alphabet of runs (all strategies, inputs, counterexamples, approximation '
            'models, clocks, stored plots, images, simulations, other verbosity) and disturbances (runs that fail during '
            'setup or in the middle, abandoned runs, use of the random generators and the printing options) is executed '
            'in a process of its own; the complete result of every run of the history (all sets, verdicts, counterexample, '
            'polygons, image file) must be bit-identical to that of the run alone in a fresh process. Automaton and '
            'settings objects are created anew, used again, or all created before the first run is started; an automaton is also analyzed '
            'again with other settings, step sizes and initial sets. The runs are repeated with other hash seeds.',
    'bounds': 'histories of 2 runs (thorough: 3; quick: 3 with a disturbance in the middle); 19 runs, 7 disturbances',
    'assumptions': ['a result is what Core.run() returns and the sets observed after each step'],
}

SHARED = {}
SHARE = {False: '', True: ' (same objects)', 'automaton': ' (same automaton)', 'before': ' (all constructed before the first one is run)'}


class Observed(Core):
    'core which records the sets after each step'

    def __init__(self, ha, settings):
        self.seen = []
        Core.__init__(self, ha, settings)

    def do_step(self):
        Core.do_step(self)

        if self.doing_simulation:
            for s in self.sim_states or []:
                self.seen.append(None if s is None else (s[0].name, [float(x) for x in s[1]], int(s[2])))
            return

        s = self.aggdag.get_cur_state()

        if s is None:
            self.seen.append(None)
        else:
            sup = model.lpi_supports(s.lpi, poly.directions(s.lpi.dims)[:4])
            self.seen.append((s.mode.name, [int(x) for x in s.cur_steps_since_start], s.cur_step_in_mode, s.is_concrete,
                              [float(x) for x in sup], s.aggstring, s.lpi.get_num_rows(), s.lpi.get_num_cols()))


def md(a, inv='none', inp='none'):
    'mode'
    m = {'A': A[a] if isinstance(a, str) else a, 'inv': INV[inv] if isinstance(inv, str) else inv}
    m.update(INP[inp])
    return m


BIG = {'h': 0.3, 'n': 6,
       'modes': {'p': md('dint', 'xyle', 'sym'), 'q': md('rot', 'three', 'box2'), 'r': md('gen'), 'e': {'A': None}},
       'trans': [{'from': 'p', 'to': 'q', 'guard': GUARD['xge'], **RESET['lin']},
                 {'from': 'p', 'to': 'r', 'guard': GUARD['corner'], **RESET['mink']},
                 {'from': 'q', 'to': 'r', 'guard': GUARD['band'], **RESET['id']},
                 {'from': 'r', 'to': 'e', 'guard': [[[-1, -0.4], -1.9]]},
                 {'from': 'q', 'to': 'e', 'guard': [[[-0.3, -1], -1.6]]}],
       'init': [['p'] + INIT['box'], ['q'] + INIT['tri']]}

A3 = [[0.0, 1.0, 0.0], [-1.0, 0.0, 0.3], [0.1, 0.0, -0.5]]
ARN = {'h': 0.3, 'n': 5,
       'modes': {'p': {'A': A3}, 'q': {'A': np.zeros((3, 3)).tolist()}, 's': {'A': A3, 'inv': [[[1, 0, 0], 1.7]]}, 'e': {'A': None}},
       'trans': [{'from': 'p', 'to': 's', 'guard': [[[-1, 0, 0], -0.4]]},
                 {'from': 'p', 'to': 'q', 'guard': [[[0, -1, 0], -0.3]], 'R': [[1, 0, 0], [0, 0, 0], [0, 0, 1]]},
                 {'from': 's', 'to': 'e', 'guard': [[[0, 0, 1], -0.3]]}],
       'init': [['p', 'box', [[0.1, 0.3], [0.6, 0.9], [0, 0.2]]]]}

NOIN = {'h': 0.4, 'n': 6,
        'modes': {'p': md('rot', 'none'), 'q': md('gen', 'xle'), 'r': md('zero'), 'e': {'A': None}},
        'trans': [{'from': 'p', 'to': 'q', 'guard': GUARD['xge']},
                  {'from': 'q', 'to': 'r', 'guard': GUARD['yle'], **RESET['lin']},
                  {'from': 'p', 'to': 'e', 'guard': [[[0.3, 1], -1.9]]}],
        'init': [['p'] + INIT['box']]}

CLK = {'h': 0.25, 'n': 6,
       'modes': {'p': md([[0, 1, 0, 0], [-1, 0, 0, 0], [0, 0, 0, 1], [0, 0, 0, 0]], [[[0, 0, 1, 0], 0.5]]),
                 'q': md([[0.1, -0.7, 0, 0], [0.4, 0.2, 0, 0], [0, 0, 0, 1], [0, 0, 0, 0]], [[[0, 0, 1, 0], 0.87]]),
                 'e': {'A': None}},
       'trans': [{'from': 'p', 'to': 'q', 'guard': [[[0, 0, -1, 0], -0.5]]},
                 {'from': 'q', 'to': 'p', 'guard': [[[0, 0, -1, 0], -0.87]], 'R': [[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 0, 0], [0, 0, 0, 1]]},
                 {'from': 'q', 'to': 'e', 'guard': [[[1, 0.5, 0, 0], -0.31]]}],
       'init': [['p', 'box', [[0.1, 0.5], [0.2, 0.6], [0, 0], [1, 1]]]]}

# the guard is strengthened by the invariant of the target
STR = {'h': 0.25, 'n': 6, 'modes': {'p': md('dint'), 'q': md('rot', [[[-1, 0], -0.8]]), 'e': {'A': None}},
       'trans': [{'from': 'p', 'to': 'q', 'guard': [[[-1, 0], -0.3]]}, {'from': 'q', 'to': 'e', 'guard': [[[0, 1], -0.5]]}],
       'init': [['p'] + INIT['box']]}

# name: (spec, strategy, settings, plot settings)
RUNS = {
    'unagg': (BIG, 'U', {}, {}),
    'ce': (dict(BIG, init=[['p'] + INIT['box']]), 'U', {'stop_on_concrete_error': True, 'make_counterexample': True}, {}),
    'agg': (BIG, 'A', {}, {}),
    'arnoldi': (ARN, 'A', {}, {}),
    'seed': (ARN, 'A', {'random_seed': 3}, {}),
    'deagg': (dict(BIG, init=[['p'] + INIT['box']]), 'D', {}, {}),
    'arndeagg': (ARN, 'D', {'stop_on_concrete_error': True, 'make_counterexample': True}, {}),
    'hull': (BIG, 'H', {'stop_on_aggregated_error': True}, {}),
    'lgg': (dict(BIG, n=3, init=[['q'] + INIT['tri']]), 'U', {'approx_model': HylaaSettings.APPROX_LGG, 'process_urgent_guards': True}, {}),
    'chull': (ARN, 'A', {'approx_model': HylaaSettings.APPROX_CHULL}, {}),
    'clock': (CLK, 'U', {'optimize_tt_transitions': True}, {}),
    'noskip': (NOIN, 'A', {'skip_zero_dynamics_modes': False, 'do_guard_strengthening': False}, {}),
    'store': (NOIN, 'D', {}, {'store_plot_result': True}),
    'plots': (NOIN, 'A', {}, {'store_plot_result': True, 'xdim_dir': [0, None], 'ydim_dir': [1, 1], 'num_angles': 16}),
    'image': (NOIN, 'A', {}, {'plot_mode': PlotSettings.PLOT_IMAGE, 'plot_size': (2, 2), 'num_angles': 16}),
    'sim': (NOIN, 'A', {}, {'plot_mode': PlotSettings.PLOT_IMAGE, 'plot_size': (2, 2)}),
    'simguard': (STR, 'A', {}, {'plot_mode': PlotSettings.PLOT_IMAGE, 'plot_size': (2, 2)}),
    'simfree': (STR, 'A', {'do_guard_strengthening': False}, {'plot_mode': PlotSettings.PLOT_IMAGE, 'plot_size': (2, 2)}),
    'strong': (STR, 'U', {}, {}),
}

LOUD = {'stdout': HylaaSettings.STDOUT_DEBUG}
DISTURB = ('badinit', 'midfail', 'simfail', 'abort1', 'abort9', 'random', 'trace')


def settings_of(name, loud=False, half=False):
    'new settings object'

    spec, strat, extra, plot = RUNS[name]

    if half:
        spec = dict(spec, h=spec['h'] / 2)

    s = model.build_settings(dict(spec, set=dict(extra, **(LOUD if loud else {}))))

    if strat != 'U':
        s.aggstrat = aggstrat.Aggregated(aggstrat.Aggregated.AGG_CONVEX_HULL if strat == 'H' else
                                         aggstrat.Aggregated.AGG_ARNOLDI_BOX)
        s.aggstrat.deaggregate = strat == 'D'

    for k, v in plot.items():
        assert hasattr(s.plot, k)
        setattr(s.plot, k, list(v) if isinstance(v, list) else v)

    return s


def result_of(core, res, folder):
    'everything that is returned'

    ce = None

    if res.counterexample:
        ce = [(seg.mode.name, [float(x) for x in seg.start], [float(x) for x in seg.end], int(seg.steps),
               [[float(y) for y in x] for x in seg.inputs], None if seg.outgoing_transition is None else
               str(seg.outgoing_transition)) for seg in res.counterexample]

    plots = None

    if res.plot_data is not None:
        plots = []

        for sub in range(core.plotman.num_subplots):
            for mode in sorted(core.hybrid_automaton.modes):
                lst = res.plot_data.get_verts_list(mode, sub)
                plots.append((mode, [[float(c) for v in p for c in v] for p in lst]))

    lines = None

    if getattr(res, 'sim_lines', None):
        lines = repr(res.sim_lines)

    image = None
    path = os.path.join(folder, 'out.png')

    if os.path.exists(path):
        with open(path, 'rb') as f:
            image = hashlib.sha1(f.read()).hexdigest()
        os.remove(path)

    return {'concrete': res.has_concrete_error, 'aggregated': res.has_aggregated_error, 'ce': ce, 'plots': plots, 'lines': lines,
            'image': image, 'sets': core.seen,
            'last': None if res.last_cur_state is None else (res.last_cur_state.mode.name, res.last_cur_state.cur_step_in_mode)}


def construct(name, loud=False):
    'a run which is prepared but not started'

    ha, modes = model.build_ha(RUNS[name][0])
    return name, modes, Observed(ha, settings_of(name, loud)), model.build_init(RUNS[name][0], modes)


def start(prepared):
    'start a prepared run'

    name, modes, core, init = prepared

    with tempfile.TemporaryDirectory() as folder:
        if core.settings.plot.plot_mode != PlotSettings.PLOT_NONE:
            core.settings.plot.filename = os.path.join(folder, 'out.png')

        return finish(name, core, modes, init, folder)


def finish(name, core, modes, init, folder):
    'run and collect the results'

    if name.startswith('sim'):
        res = core.simulate(modes['p'], [[0.1, 0.9], [0.4, 1.2]], 4)
    else:
        res = core.run(init)

    rv = result_of(core, res, folder)

    if not name.startswith('sim'):
        t = res.top_level_timer
        rv['timers'] = (t.name, t.num_calls, sorted((c.name, c.num_calls) for c in t.children))

    return rv


def group_of(name):
    'runs of the same automaton'

    return [n for n in sorted(RUNS) if RUNS[n][0]['modes'] is RUNS[name][0]['modes']]


def do_run(name, share, loud=False, half=False):
    'one run of the alphabet'

    spec, _, _, _ = RUNS[name]
    key = group_of(name)[0] if share == 'automaton' else name

    if share and key in SHARED:
        ha, modes, settings = SHARED[key]
    else:
        ha, modes = model.build_ha(spec)
        settings = settings_of(name, loud, half)
        SHARED[key] = (ha, modes, settings)

    if share == 'automaton':
        settings = settings_of(name, loud, half)

    with tempfile.TemporaryDirectory() as folder:
        if settings.plot.plot_mode != PlotSettings.PLOT_NONE:
            settings.plot.filename = os.path.join(folder, 'out.png')

        return finish(name, Observed(ha, settings), modes, model.build_init(spec, modes), folder)


def do_disturb(name):
    'something else'

    if name == 'badinit':
        ha, modes = model.build_ha(BIG)
        core = Core(ha, model.build_settings(BIG))

        try:
            core.run([StateSet(lputil.from_box([[7, 8], [7, 8]], modes['p']), modes['p'])]) # not in the invariant
            raise Violation('initial set outside of the invariant accepted')
        except RuntimeError:
            pass
    elif name == 'midfail':
        # unbounded initial set: aggregation in the middle of the run fails
        ha, modes = model.build_ha(BIG)
        s = settings_of('agg')
        core = Core(ha, s)

        try:
            core.run([StateSet(lputil.from_constraints([[-1, 0], [0, 1], [0, -1]], [-0.1, 1.2, -0.4], modes['p']), modes['p'])])
        except (RuntimeError, AssertionError):
            pass
    elif name == 'simfail':
        ha, modes = model.build_ha(BIG)
        s = settings_of('sim')
        s.plot.filename = os.devnull
        core = Core(ha, s)

        try:
            core.simulate(modes['p'], [[0.1, 0.9], [0.4, 1.2]], 2)
        except AssertionError:
            pass
    elif name.startswith('abort'):
        ha, modes = model.build_ha(BIG)
        core = Core(ha, settings_of('deagg'))
        core.setup(model.build_init(BIG, modes))

        for _ in range(int(name[5:])):
            core.do_step()
    elif name == 'random':
        import random
        random.seed(77)
        np.random.seed(99)
        np.random.rand(5)
        np.set_printoptions(precision=2, suppress=True)
    elif name == 'trace':
        Timers.reset()
        Timers.tic('own')
        lpi = lputil.from_box([[0, 1], [0, 1]], model.build_ha(NOIN)[1]['p'])

        try:
            lpi.minimize([1, 0], columns=[5000])
        except (AssertionError, RuntimeError, IndexError):
            pass

        check_trace(np.array([[0, 1], [-1, 0]]), np.array([[0], [1]]), 0.1, 0.1, [1, 0], [[0.5]], [1, 0], 0.99, quick=True,
                    stdout=False)
    else:
        raise AssertionError(name)


def outcome(event, share):
    'result of an event'

    with contextlib.redirect_stdout(io.StringIO()):
        if event in DISTURB:
            do_disturb(event)
            return None
        if event.endswith('+loud'):
            return do_run(event[:-5], False, True)
        if event.endswith('+half'):
            return do_run(event[:-5], share, False, True)
        return do_run(event, share)


def forked(events, share):
    'execute events in a process of its own; returns their pickled results'

    r, w = os.pipe()
    pid = os.fork()

    if pid == 0:
        code = 1
        try:
            os.close(r)
            out = []

            if share == 'before':
                # the cores of all runs are constructed before the first run is started
                prepared = [construct(e) for e in events]

            for i, e in enumerate(events):
                try:
                    if share == 'before':
                        with contextlib.redirect_stdout(io.StringIO()):
                            out.append(start(prepared[i]))
                    else:
                        out.append(outcome(e, share))
                except Exception as ex: # pylint: disable=broad-except
                    out.append(('exception', type(ex).__name__, str(ex)[:200]))

            with os.fdopen(w, 'wb') as f:
                f.write(pickle.dumps([repr(x) for x in out]))
            code = 0
        finally:
            os._exit(code) # pylint: disable=protected-access

    os.close(w)

    with os.fdopen(r, 'rb') as f:
        data = f.read()

    _, status = os.waitpid(pid, 0)

    if status != 0 or not data:
        raise Violation(f'history {events}: the process died (status {status})')

    return pickle.loads(data)


_BASE = {}


def baseline(event):
    'result of a run alone'

    name = event if event.endswith('+half') else event.split('+')[0]

    if name not in _BASE:
        _BASE[name] = forked([name], False)[0]

    return _BASE[name]


def configs(tier):
    'histories'

    quick = tier == 'quick'
    names = sorted(RUNS)
    loud = [n + '+loud' for n in ('agg', 'deagg', 'lgg', 'ce', 'clock')]

    for seed in range(4 if quick else 12):
        yield {'kind': 'hash', 'seed': seed}

    for share in (False, True):
        for a, b in itertools.product(names + loud + list(DISTURB), names + ([] if share else loud)):
            yield {'kind': 'history', 'events': [a, b], 'share': share}

    for share in (True,) if quick else (False, True):
        mids = list(DISTURB) if quick else names + list(DISTURB)
        firsts = ('agg', 'arnoldi', 'deagg', 'image', 'clock') if quick else names + ['agg+loud']

        for a, m, b in itertools.product(firsts, mids, names):
            yield {'kind': 'history', 'events': [a, m, b], 'share': share}

    # constructed before others are run
    for a, b in itertools.product(names, names):
        yield {'kind': 'history', 'events': [a, b], 'share': 'before'}

    # one automaton, analyzed with different settings, step sizes and initial sets
    for name in sorted(set(group_of(n)[0] for n in names)):
        group = [n + x for n in group_of(name) for x in ('', '+half')]

        for a, b in itertools.product(group, group):
            yield {'kind': 'history', 'events': [a, b], 'share': 'automaton'}

        for a, m, b in itertools.product(group, ('badinit', 'midfail') if quick else group, group):
            if not quick or group.index(a) % 4 == 1:
                yield {'kind': 'history', 'events': [a, m, b], 'share': 'automaton'}

    # the same run again and again
    for n in names:
        yield {'kind': 'history', 'events': [n] * 5, 'share': True}
        yield {'kind': 'history', 'events': [n] * 5, 'share': False}


def first_difference(a, b):
    'short text'

    k = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return f'...{a[max(0, k - 60):k + 40]}... alone, ...{b[max(0, k - 60):k + 40]}... here'


def check(cfg):
    'one history'

    st = Stats()

    if cfg['kind'] == 'hash':
        env = dict(os.environ, PYTHONHASHSEED=str(cfg['seed']), PYTHONPATH=os.pathsep.join([VERIF, REPO]), HYLAA_REPO=REPO,
                   MPLBACKEND='Agg')
        proc = subprocess.run([sys.executable, '-W', 'ignore', '-c', 'from mc import c19_independent_runs as c; c.main()'],
                              env=env, capture_output=True, text=True, timeout=140, cwd=VERIF, check=False)

        if proc.returncode != 0:
            raise Violation(f'runs with hash seed {cfg["seed"]} failed: {proc.stderr[-300:]}')

        got = json.loads(proc.stdout.splitlines()[-1])

        for name in RUNS:
            st.traces += 1

            if got[name] != baseline(name):
                raise Violation(f'run {name} with hash seed {cfg["seed"]}: {first_difference(baseline(name), got[name])}')

        st.count('hash_seeds')
        return st

    res = forked(cfg['events'], cfg['share'])

    for k, (e, r) in enumerate(zip(cfg['events'], res)):
        if e in DISTURB:
            if r != 'None':
                raise Violation(f'event {k + 1} of {cfg["events"]}: {r}')
            continue

        want = baseline(e)

        if want.startswith("('exception"):
            raise Violation(f'run {e} fails: {want}')

        if r != want:
            raise Violation(f'run {k + 1} of {cfg["events"]}{SHARE[cfg["share"]]} differs from the run '
                            f'alone: {first_difference(want, r)}')

        st.states += r.count('(')
        st.traces += 1

    st.transitions += len(cfg['events'])
    st.count('histories')
    st.sample = {'events': cfg['events']}
    return st


def main():
    'print the results of all runs'

    print(json.dumps({n: forked([n], False)[0] for n in sorted(RUNS)}))


def min_counts(_tier):
    'vacuity guard'
    return {'histories': 500, 'hash_seeds': 4}
