'C25: live and interactive plotting obey the user and do not change the computation'

import contextlib
import io
import itertools
import os
import tempfile
import time

import matplotlib.pyplot as plt
import numpy as np
from matplotlib import animation
from matplotlib.axes import Axes
from matplotlib.backend_bases import MouseEvent
from matplotlib.collections import LineCollection, PolyCollection

from mc import model
from mc.c01_exact_reach import A, INV, GUARD, RESET, INIT
from mc.engine import Stats, Violation

from hylaa import aggstrat
from hylaa.core import Core
from hylaa.settings import HylaaSettings, LabelSettings, PlotSettings

PROP = 'C25'

DESCRIPTION = {
    'what': 'The real interactive and live plots run under a controlled clock and a controlled user: the window (plt.show) is '
            'replaced by a driver which fires the timer and presses the buttons, clicks into the plot, and closes the window, and '
            'every sequence of these events up to a length is run, then the user clicks on until the end. After every event the '
            'number of computed steps, the pauses, what is drawn, highlighted, printed and the limits of the axes are compared '
            'with a small model of the user interface over the run without a plot. At the end the result must be that run\'s.',
    'bounds': 'event sequences up to length 3 (thorough: 4), over timer / next / step, with single clicks, diagrams and closing of '
              'the window at every point; stride 1-3, skip count 0-2; 2-5 modes, up to 6 steps',
    'assumptions': ['the drawing backend is Agg; drawing of single artists is left out in most runs (it takes long)'],
}

LETTERS = 'TNS' # timer, next, step
EXTRAS = 'IOBDC' # click inside, outside, beside the axes, save the diagram, close the window


def automata():
    'automata, with 2 to 5 modes'

    modes = {'p': {'A': A['dint'], 'inv': INV['xle']}, 'q': {'A': A['rot']}, 'e': {'A': None}}
    yield {'h': 0.4, 'n': 3, 'modes': modes,
           'trans': [{'from': 'p', 'to': 'q', 'guard': GUARD['xge'], **RESET['lin']},
                     {'from': 'q', 'to': 'e', 'guard': [[[-1, -0.4], -1.6]]}],
           'init': [['p'] + INIT['box']], 'set': {}}

    modes = {nm: {'A': A[x], 'inv': INV['xle'] if nm == 'p' else []} for nm, x in zip('pqrs', ('dint', 'rot', 'gen', 'saddle'))}
    modes['e'] = {'A': None}
    yield {'h': 0.35, 'n': 4, 'modes': modes,
           'trans': [{'from': 'p', 'to': 'q', 'guard': GUARD['xge'], **RESET['lin']},
                     {'from': 'p', 'to': 'r', 'guard': GUARD['corner'], **RESET['id']},
                     {'from': 'q', 'to': 's', 'guard': GUARD['true'], **RESET['swap']},
                     {'from': 'r', 'to': 's', 'guard': GUARD['band'], **RESET['id']},
                     {'from': 's', 'to': 'e', 'guard': [[[-1, -0.4], -1.6]]}],
           'init': [[m] + INIT[x] for m, x in zip('qr', ('tri', 'box'))], 'set': {}}

    # the error is refuted by splitting; the initial set is flat, and moves along its line at first
    yield {'h': 0.5, 'n': 4, 'modes': {'p': {'A': [[0, 1], [0, 0]]}, 'q': {'A': A['dint']}, 'r': {'A': A['rot']}, 'e': {'A': None}},
           'trans': [{'from': 'p', 'to': 'q', 'guard': [[[-1, 0], -0.9]], **RESET['id']},
                     {'from': 'q', 'to': 'r', 'guard': [[[-1, 0], -1.1]], **RESET['id']},
                     {'from': 'r', 'to': 'e', 'guard': [[[-0.4, 1], -1.34]]}],
           'init': [['p', 'box', [[0.2, 0.9], [0.4, 0.4]]]], 'set': {}}


NUM_AUTOMATA = 3
STRATS = ('unagg', 'agg', 'deagg')
LIMITS = (-3.0, 3.0, -2.0, 2.5)
PLOTS = {'xy': ([0], [1]), 'two': ([0, None], [1, 0])}


def prefixes(tier):
    'event sequences'

    length = 3 if tier == 'quick' else 4

    for n in range(length + 1):
        for seq in itertools.product(LETTERS, repeat=n):
            yield ''.join(seq)

    # one other event, somewhere
    for n in range(length):
        for seq in itertools.product('TN', repeat=n):
            for x in EXTRAS:
                yield ''.join(seq) + x


def configs(tier):
    'automaton x strategy x events x stride x skip'

    quick = tier == 'quick'

    for a, strat in itertools.product(range(NUM_AUTOMATA), STRATS):
        for k, seq in enumerate(prefixes(tier)):
            for j, (stride, skip, plot) in enumerate(itertools.product((1, 2, 3), (0, 1, 2), sorted(PLOTS))):
                special = seq[-1:] in EXTRAS and seq

                if quick and ((j + k) % 6 or special and (stride, skip) != (1, 0)) and not (special and j == 0):
                    continue

                if not quick and (j + k) % 3:
                    continue

                yield {'auto': a, 'strat': strat, 'events': seq, 'stride': stride, 'skip': skip, 'plot': plot,
                       'mode': 'interactive', 'full': (j + k) % 36 == 0}

        for stride, plot, stop in itertools.product((1, 2, 3), sorted(PLOTS), (False, True)):
            for t in (None, 0, 1, 2, 5): # number of timer events until the window is closed
                yield {'auto': a, 'strat': strat, 'events': None if t is None else 'T' * t + 'C', 'stride': stride, 'skip': 0,
                       'plot': plot, 'mode': 'live', 'stop': stop, 'full': t is None}

    # simulations
    for a, nsim, limits in itertools.product((0, 1, 2), (1, 2), (False, True)):
        for k, seq in enumerate(prefixes(tier)):
            if seq[-1:] != 'I' and (not quick or k % 3 == 0):
                yield {'auto': a, 'sims': nsim, 'events': seq, 'stride': 1 + k % 3, 'skip': k % 2, 'plot': sorted(PLOTS)[k % 2],
                       'mode': 'interactive', 'limits': limits}


# ------------------------------------------------------------------------------------------------------------ the run


class Watch(Core):
    'logs what every step of the computation was'

    def __init__(self, ha, settings):
        self.extra = None
        self.log = [] # (is it a point to pause at, description of the current set or simulations)
        super().__init__(ha, settings)

    def do_step(self):
        if self.is_finished():
            super().do_step()
            return

        if self.doing_simulation:
            event = not self.sim_states
        else:
            man = self.aggdag.deagg_man # every merged set which is split is a point to pause at, too
            event = self.aggdag.get_cur_state() is None and (not man.doing_replay() or man.replay_step is None)

        super().do_step()

        if self.doing_simulation:
            what = [None if x is None else (x[0].name, np.round(x[1], 9).tolist(), x[2]) for x in self.sim_states or []]
        else:
            cur = self.aggdag.get_cur_state()
            what = None if cur is None else (cur.mode.name, cur.cur_step_in_mode, tuple(cur.cur_steps_since_start))

        self.log.append((event, what))


def make_core(cfg, plot_mode):
    'core and initial states'

    spec = list(automata())[cfg['auto']]
    ha, modes = model.build_ha(spec)
    s = model.build_settings(spec)
    s.stdout = HylaaSettings.STDOUT_NORMAL
    s.stop_on_concrete_error = cfg.get('stop', False)
    strat = cfg.get('strat', 'unagg')

    if strat != 'unagg':
        s.aggstrat = aggstrat.Aggregated(0, deaggregate=strat == 'deagg')

    s.plot.plot_mode = plot_mode
    s.plot.store_plot_result = True
    s.plot.filename = '/dev/null'
    s.plot.plot_size = (3, 3)
    s.plot.num_angles = 16
    s.plot.xdim_dir, s.plot.ydim_dir = [list(x) for x in PLOTS[cfg['plot']]]

    if len(s.plot.xdim_dir) == 1:
        s.plot.xdim_dir, s.plot.ydim_dir = s.plot.xdim_dir[0], s.plot.ydim_dir[0]
    elif cfg['stride'] > 1: # (otherwise a single one)
        s.plot.label = [LabelSettings() for _ in s.plot.xdim_dir]

    s.plot.draw_stride = cfg['stride']
    s.plot.interactive_skip_count = cfg['skip']
    extra = [[], []]

    if cfg['events'] is not None and len(cfg['events']) % 3 == 1: # the user adds something
        col = LineCollection([[(0.1, 0.2), (0.3, 0.4)]], color='g', animated=True)
        n = len(PLOTS[cfg['plot']][0])
        extra[n - 1].append(col)
        s.plot.extra_collections = [col] if n == 1 else [[], [col]]

    core = Watch(ha, s)
    core.extra = extra

    if cfg.get('limits'):
        for label in s.plot.label if isinstance(s.plot.label, list) else [s.plot.label]:
            label.axes_limits = LIMITS

    return spec, core, modes


def start(cfg, core, spec, modes):
    'run it'

    if 'sims' in cfg:
        core.simulate(modes['p'], [[0.2, 1.1], [0.3, 0.7]], cfg['sims'])
        return core.result

    return core.run(model.build_init(spec, modes))


class Model: # pylint: disable=too-few-public-methods
    'model of the user interface over the log of the computation'

    def __init__(self, log, cfg):
        self.log = log
        self.pos = 0
        self.paused = False
        self.step = cfg['mode'] == 'interactive'
        self.skip = cfg['skip'] if cfg['mode'] == 'interactive' else 0
        self.stride = cfg['stride']
        self.interactive = cfg['mode'] == 'interactive'
        self.frames = [] # the position after each frame which was computed

    def tick(self):
        'the timer'

        if self.pos == len(self.log):
            return

        if self.paused and self.interactive:
            if self.skip > 0:
                self.skip -= 1
                self.paused = False
            return

        for _ in range(self.stride):
            if self.pos == len(self.log):
                if self.interactive and self.step:
                    self.paused, self.step = True, False
                break

            event = self.log[self.pos][0]
            self.pos += 1

            if self.interactive and (event or self.step):
                self.paused, self.step = True, False
                break

        self.frames.append(self.pos)

    def press(self, what):
        'a button'

        self.paused = False

        if what == 'S':
            self.step = True


class Closed(Exception):
    'the user is gone'


class User:
    'the window and its user'

    def __init__(self, cfg, core, mod, st):
        self.cfg, self.core, self.mod, self.st = cfg, core, mod, st
        self.anim = None
        self.out = None
        self.closed = False
        self.shown = 0
        self.drawn = []
        self.extra = [[], []] # collections of the user in the subplots

    def draw(self, _axes, artist):
        'instead of drawing an artist'

        self.drawn.append(artist)

    def show(self, *_args, **_kwargs):
        'instead of plt.show'

        self.shown += 1
        fig = plt.gcf()
        fig.canvas.draw()
        events = self.cfg['events']

        for e in events or '':
            self.event(fig, e)

            if self.closed:
                return

        # go on to the end
        limit = 3 * len(self.mod.log) + 10

        while not self.core.is_finished():
            if self.cfg['mode'] == 'interactive' and self.mod.paused and self.mod.skip == 0:
                self.event(fig, 'N')

            self.event(fig, 'T')
            limit -= 1

            if limit == 0:
                raise Violation('the computation does not end')

        for e in 'TTNT' if self.cfg['mode'] == 'interactive' else 'TT': # nothing happens any more
            self.event(fig, e)

    def event(self, fig, e):
        'one event'

        if e == 'T':
            self.drawn.clear()

            if self.anim.event_source is not None:
                self.anim.event_source._on_timer() # pylint: disable=protected-access

            self.mod.tick()
        elif e in 'NSD':
            if e == 'D':
                before = set(os.listdir('.'))

            self.press_button(fig, {'N': 'Next', 'S': 'Step', 'D': 'Save Aggdag'}[e])

            if e != 'D':
                self.mod.press(e)
            elif len(set(os.listdir('.')) - before) != 1:
                raise Violation('pressing the diagram button did not save one new file')
        elif e in 'IOB':
            self.click(fig, e)
        elif e == 'C':
            self.closed = True

        self.compare(fig, e)
        self.st.transitions += 1

    def press_button(self, fig, name):
        'press the button in the middle'

        for ax in fig.axes:
            if any(t.get_text() == name for t in ax.texts):
                x, y = ax.transAxes.transform((0.5, 0.5))
                break
        else:
            raise Violation(f'there is no button {name}')

        mouse(fig, x, y)

    def click(self, fig, e):
        'click somewhere'

        n = len(PLOTS[self.cfg['plot']][0])

        if e == 'B':
            mouse(fig, 1, 1)
            return

        for i, ax in enumerate(fig.axes[:n]):
            if e == 'O':
                x0, x1 = ax.get_xlim()
                y0, y1 = ax.get_ylim()
                corners = [(x0 + a * (x1 - x0), y0 + b * (y1 - y0)) for a in (0.01, 0.99) for b in (0.01, 0.99)]
                pts = [p for p in corners if self.inside(*p, i) is None][:1]
            else:
                objs = [o for m in self.core.result.plot_data.mode_to_obj_list[i].values() for o in m if len(o[0]) >= 4]
                pts = [tuple(np.array(o[0][1:], dtype=float).mean(axis=0)) for o in objs[:1] + objs[-1:] + sorted(objs, key=lambda o: len(o[0]))[:1]]
                pts = [p for p in pts if self.inside(*p, i)]

            for p in pts:
                x, y = ax.transData.transform(p)
                pos = self.out.tell()
                mouse(fig, x, y)
                self.out.seek(pos)
                text = self.out.read()

                if e == 'I' and not any(str(o[1:]).replace(' ', '') in text.replace(' ', '') or
                                        all(str(v) in text for v in o[1:] if not hasattr(v, 'mode')) for o in self.inside(*p, i)):
                    raise Violation(f'clicked at {p} in subplot {i}, which is in {[o[1:] for o in self.inside(*p, i)]}, printed {text!r}')

                self.st.count('clicks_inside' if e == 'I' else 'clicks_outside')

    def inside(self, x, y, subplot):
        'the stored polygons around the point (or None)'

        rv = []

        if self.core.result.plot_data is None: # simulation
            return None

        for objs in self.core.result.plot_data.mode_to_obj_list[subplot].values():
            for o in objs:
                v = np.array(o[0], dtype=float)

                if len(v) >= 4 and in_hull(v[1:], x, y):
                    rv.append(o)

        return rv or None

    def compare(self, fig, e):
        'compare with the model'

        core, mod = self.core, self.mod
        where = f'after {e!r} of {self.cfg["events"]!r}'
        self.st.states += 1

        if len(core.log) != mod.pos:
            raise Violation(f'{where}: {len(core.log)} steps were computed, should be {mod.pos} (paused: {mod.paused})')

        if core.log != mod.log[:mod.pos]:
            raise Violation(f'{where}: the computation went another way than without plotting: {core.log[-1]}')

        n = len(PLOTS[self.cfg['plot']][0])

        for i, ax in enumerate(fig.axes[:n]):
            self.compare_axes(ax, i, where)

            if e == 'T' and self.drawn:
                self.compare_drawn(ax, i, where)

    def compare_drawn(self, ax, i, where):
        'the background is clean at the start of a frame, what is not on it has to be drawn'

        drawn = {id(a) for a in self.drawn}
        artists = [a for a in ax.collections if a.get_paths()] + [a for a in ax.lines if len(a.get_xdata())]

        for a in artists + [ax.xaxis, ax.yaxis]:
            if a.get_animated() and id(a) not in drawn:
                raise Violation(f'{where}: {a} of subplot {i} was not drawn in this frame')

        for a in self.extra[i]:
            if id(a) not in drawn and (a.get_animated() or a not in ax.collections):
                raise Violation(f'{where}: the collection of the user was not drawn in subplot {i}')

        self.st.count('frames_drawn', len(artists))

    def compare_sims(self, ax, i, where):
        'simulations in a subplot'

        core, mod, cfg = self.core, self.mod, self.cfg
        lines = [np.array(line.get_xydata()) for line in ax.lines]
        lines += [p.vertices for col in ax.collections if isinstance(col, LineCollection) and col not in self.extra[i]
                  for p in col.get_paths()]
        lines = [line for line in lines if len(line) and not np.isnan(line).any()]
        dims = [x[i] for x in PLOTS[cfg['plot']]]

        for now in mod.log[mod.pos - 1][1] if mod.pos else []:
            if now is not None:
                want = [now[2] * core.settings.step_size if d is None else now[1][d] for d in dims]

                if not any(np.abs(line[-1] - want).max() < 1e-6 for line in lines):
                    raise Violation(f'{where}: no line ends at {want} in subplot {i}; ends: {[line[-1].tolist() for line in lines]}')

        box = ax.get_xlim() + ax.get_ylim()

        if cfg['limits']:
            if not np.allclose(box, LIMITS):
                raise Violation(f'{where}: subplot {i} shows {box}, should be {LIMITS}')
        elif lines:
            pts = np.concatenate(lines)

            if (pts.min(axis=0) < np.array(box[::2]) - 1e-6).any() or (pts.max(axis=0) > np.array(box[1::2]) + 1e-6).any():
                raise Violation(f'{where}: subplot {i} shows {box}, but there are points in {pts.min(axis=0)}, {pts.max(axis=0)}')

            self.st.count('limits')

    def compare_axes(self, ax, i, where):
        'what is drawn in a subplot'

        core, mod, cfg = self.core, self.mod, self.cfg

        if 'sims' in cfg:
            self.compare_sims(ax, i, where)
            return

        polys, marked = [], []

        for col in ax.collections:
            if isinstance(col, PolyCollection) and col not in self.extra[i]:
                (polys if col.get_alpha() is not None else marked).extend(
                    np.round(p.vertices, 9).tolist() for p in col.get_paths() if len(p.vertices) > 2)

        points = [np.round(p, 9).tolist() for line in ax.lines if line.get_marker() == 'o' and line.get_alpha() is not None
                  for p in zip(line.get_xdata(), line.get_ydata()) if not np.isnan(p).any()]
        stored = [np.round(np.array(o[0], dtype=float), 9).tolist()
                  for objs in core.result.plot_data.mode_to_obj_list[i].values() for o in objs]

        if sorted(polys) != sorted(v for v in stored if len(v) > 2) or sorted(points) != sorted(v[0] for v in stored if len(v) <= 2):
            raise Violation(f'{where}: {len(polys)} polygons and {len(points)} points are drawn, {len(stored)} are stored, or they differ')

        # every frame shows its set
        if cfg['strat'] != 'deagg':
            want = sum(mod.log[p - 1][1] is not None for p in mod.frames)

            if len(stored) != want:
                raise Violation(f'{where}: {len(stored)} sets are drawn, should be {want}')

        now = mod.log[mod.pos - 1][1] if mod.pos else None

        if now is not None:
            cur = np.round(np.array(core.aggdag.get_cur_state().verts(core.plotman, subplot=i), dtype=float), 9).tolist()

            if len(cur) > 2 and cur not in marked:
                raise Violation(f'{where}: the current set {now} is not highlighted')

        # all of it can be seen
        pts = np.array([p for v in stored for p in v])

        if len(pts):
            (x0, x1), (y0, y1) = sorted(ax.get_xlim()), sorted(ax.get_ylim())
            (px0, py0), (px1, py1) = pts.min(axis=0), pts.max(axis=0)

            if px0 < x0 - 1e-6 or px1 > x1 + 1e-6 or py0 < y0 - 1e-6 or py1 > y1 + 1e-6:
                raise Violation(f'{where}: subplot {i} shows {x0, x1} x {y0, y1}, but there are sets in {px0, px1} x {py0, py1}')

            self.st.count('limits')


def in_hull(pts, x, y):
    'is the point well inside of the hull of the points (given in order)?'

    signs = set()

    for a, b in zip(pts, np.roll(pts, -1, axis=0)):
        if np.abs(a - b).max() < 1e-9:
            continue

        cross = (b[0] - a[0]) * (y - a[1]) - (b[1] - a[1]) * (x - a[0])
        signs.add(0 if abs(cross) < 1e-6 else 1 if cross > 0 else -1)

    return len(signs) == 1 and 0 not in signs


def mouse(fig, x, y):
    'press and release the mouse'

    for name in ('button_press_event', 'button_release_event'):
        fig.canvas.callbacks.process(name, MouseEvent(name, fig.canvas, x, y, button=1))


def final(core, res, cfg):
    'what the run results in'

    if 'sims' in cfg:
        return [[np.round(np.array(v, dtype=float), 9).tolist() for line in lines for v in line] for lines in res.sim_lines or []]

    data = [sorted((m, o[2], np.round(np.array(o[0], dtype=float), 9).tolist()) for m in objs for o in objs[m])
            for objs in res.plot_data.mode_to_obj_list]
    return res.has_concrete_error, res.has_aggregated_error, data, core.is_finished()


def check(cfg): # pylint: disable=too-many-locals
    'one session'

    st = Stats()

    # the run without a window
    spec, core0, modes0 = make_core(cfg, PlotSettings.PLOT_IMAGE)
    saved = (plt.savefig, plt.show, time.sleep, animation.FuncAnimation, Axes.draw_artist)
    plt.savefig = lambda *_args, **_kwargs: None
    cwd = os.getcwd()
    text0, text = io.StringIO(), io.StringIO()

    try:
        with contextlib.redirect_stdout(text0):
            res0 = start(cfg, core0, spec, modes0)

        want = final(core0, res0, cfg)
        plt.close('all')

        spec, core, modes = make_core(cfg, PlotSettings.PLOT_LIVE if cfg['mode'] == 'live' else PlotSettings.PLOT_INTERACTIVE)
        user = User(cfg, core, Model(core0.log, cfg), st)
        user.out, user.extra = text, core.extra

        class Anim(saved[3]): # pylint: disable=abstract-method
            'tells the user about the animation'

            def __init__(self, *args, **kwargs):
                user.anim = self
                super().__init__(*args, **kwargs)

        animation.FuncAnimation = Anim
        plt.show = user.show
        time.sleep = lambda _secs: None

        if not cfg.get('full'):
            Axes.draw_artist = lambda axes, artist: user.draw(axes, artist)

        with tempfile.TemporaryDirectory() as tmp:
            os.chdir(tmp)

            with contextlib.redirect_stdout(text):
                res = start(cfg, core, spec, modes)

            os.chdir(cwd)

        if not user.shown:
            raise Violation('no window was shown')

        safe = 'System is safe' in text.getvalue()

        if user.closed and not core.is_finished():
            if safe:
                raise Violation('the system is said to be safe, although the window was closed before the end')

            st.count('closed')
        elif 'sims' not in cfg:
            if safe != ('System is safe' in text0.getvalue()):
                raise Violation(f'the verdict is not that without a window: {safe}')

        if not user.closed:
            got = final(core, res, cfg)

            if cfg['stride'] > 1 and 'sims' not in cfg: # only some sets are drawn
                got, want = (x[:2] + x[3:] for x in (got, want))

            if got != want:
                raise Violation(f'the result is not that without a window: {got}, should be {want}')
    finally:
        plt.savefig, plt.show, time.sleep, animation.FuncAnimation, Axes.draw_artist = saved
        os.chdir(cwd)
        plt.close('all')

    st.traces += 1
    st.sample = {'steps': len(core.log)}
    return st


def min_counts(_tier):
    'vacuity guard'
    return {'closed': 30, 'clicks_inside': 30, 'clicks_outside': 30, 'limits': 1000, 'frames_drawn': 1000}
