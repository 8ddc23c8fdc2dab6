'C27: saved images and videos are complete and follow the plot settings'

import contextlib
import io
import itertools
import re

import matplotlib.pyplot as plt
import numpy as np
from matplotlib import animation
from matplotlib.animation import AbstractMovieWriter
from matplotlib.collections import LineCollection, PolyCollection
from matplotlib.colors import to_rgb

from mc import c25_interactive as ui
from mc import model
from mc.engine import Stats, Violation

from hylaa import aggstrat
from hylaa.settings import HylaaSettings, LabelSettings, PlotSettings

PROP = 'C27'

DESCRIPTION = {
    'what': 'Every run of a family (automata, strategies, simulations) is saved as a video through the real animation code with '
            'every combination of the video settings (stride, pause frames, extra frames, frame counter, subplots, fixed limits); '
            'the figure is read at every frame which is grabbed, and the sequence of frames is compared with a model of the '
            'video over the run without a plot (which step each frame shows, for how long it stands still, what is drawn, '
            'highlighted and visible). Images are saved with every combination of the appearance settings; the figure is read when '
            'it is saved.',
    'bounds': '3 automata, 3 strategies, 1-2 simulations; stride 1-3, 0-8 pause frames, 0-4 extra frames; 15 appearance settings',
    'assumptions': ['the frames of a pause: the number in the settings, or up to two more', 'the figure is read, not the pixels'],
}

PLOTS = dict(ui.PLOTS, dirs=([[1.0, 1.0], None], [0, [0.5, -1.0]]), swap=([1], [0]))


def configs(tier):
    'runs x settings'

    quick = tier == 'quick'
    runs = [{'auto': a, 'strat': s} for a in range(ui.NUM_AUTOMATA) for s in ui.STRATS] + \
           [{'auto': a, 'sims': n} for a in range(ui.NUM_AUTOMATA) for n in (1, 2)]

    for r, run in enumerate(runs):
        for k, (stride, pause, extra, show, plot, limits) in enumerate(itertools.product(
                (1, 2, 3), (0, 1, 8), (0, 1, 4), (False, True), ('xy', 'two'), (False, True))):
            if not quick or (k + r) % 5 == 0:
                yield dict(run, kind='video', stride=stride, pause=pause, extra=extra, show=show, plot=plot, limits=limits)

    for r, run in enumerate(runs):
        for k, (plot, title, xlab, ylab, limits, tics, extra, sizes, one) in enumerate(itertools.product(
                sorted(PLOTS), (None, 'A title'), (None, 'some x'), (None, ''), (None, 'first', 'last'), (None, 'x', 'both', 'off'),
                (None, 'flat', 'nested'), (False, True), (False, True))):
            if (k + 7 * r) % (151 if quick else 11) == 0:
                yield dict(run, kind='image', plot=plot, title=title, xlab=xlab, ylab=ylab, limits=limits, tics=tics, extra=extra,
                           sizes=sizes, one=one)


# ------------------------------------------------------------------------------------------------------------ the run


class Recorder(AbstractMovieWriter): # pylint: disable=abstract-method
    'a video writer which looks at the figure'

    made = [] # (arguments of the constructor, writer)
    look = None

    def __init__(self, *args, **kwargs):
        self.args = (args, kwargs)
        self.frames = []
        self.ended = False
        Recorder.made.append(self)
        super().__init__(*args, **kwargs)

    @classmethod
    def isAvailable(cls):
        'yes'
        return True

    def setup(self, fig, outfile, dpi=None):
        'start'
        self.fig, self.outfile, self.dpi = fig, outfile, dpi

    def grab_frame(self, **_):
        'look'
        self.frames.append(Recorder.look(self.fig)) # pylint: disable=not-callable

    def finish(self):
        'end'
        self.ended = True


def look(fig, core, num):
    'what the figure shows: number of steps, and the contents of the subplots'

    axes = []

    for ax in fig.axes[:num]:
        polys, marked, lines = [], [], []

        for col in ax.collections:
            if isinstance(col, PolyCollection):
                verts = [np.round(p.vertices, 9).tolist() for p in col.get_paths() if len(p.vertices) > 2]
                (polys if col.get_alpha() is not None else marked).extend(verts)
            elif isinstance(col, LineCollection):
                lines += [np.round(p.vertices, 9).tolist() for p in col.get_paths()]

        points = []

        for line in ax.lines:
            xy = [[float(x), float(y)] for x, y in zip(line.get_xdata(), line.get_ydata()) if not np.isnan([x, y]).any()]

            if line.get_marker() == 'o':
                points += [np.round(p, 9).tolist() for p in xy] if line.get_alpha() is not None else []
            elif xy:
                lines.append(np.round(xy, 9).tolist())

        axes.append({'polys': sorted(polys), 'marked': sorted(marked), 'lines': sorted(lines), 'points': sorted(points),
                     'xlim': tuple(sorted(ax.get_xlim())), 'ylim': tuple(sorted(ax.get_ylim())),
                     'texts': [t.get_text() for t in ax.texts]})

    now = None

    if not core.doing_simulation and core.aggdag.get_cur_state() is not None:
        now = [np.round(np.array(core.aggdag.get_cur_state().verts(core.plotman, subplot=i), dtype=float), 9).tolist()
               for i in range(num)]

    return len(core.log), axes, now


def make_core(cfg, plot_mode):
    'core and modes'

    spec = list(ui.automata())[cfg['auto']]
    ha, modes = model.build_ha(spec)
    s = model.build_settings(spec)
    s.stdout = HylaaSettings.STDOUT_NONE
    strat = cfg.get('strat', 'unagg')

    if strat != 'unagg':
        s.aggstrat = aggstrat.Aggregated(0, deaggregate=strat == 'deagg')

    p = s.plot
    p.plot_mode = plot_mode
    p.store_plot_result = True
    p.plot_size = (3, 3)
    p.xdim_dir, p.ydim_dir = [[np.array(d) if isinstance(d, list) else d for d in x] for x in PLOTS[cfg['plot']]]

    if len(p.xdim_dir) == 1:
        p.xdim_dir, p.ydim_dir = p.xdim_dir[0], p.ydim_dir[0]

    return ui.Watch(ha, s), spec, modes


def stored_sets(core, i):
    'the stored polygons of a subplot'

    return [np.round(np.array(o[0], dtype=float), 9).tolist() for objs in core.result.plot_data.mode_to_obj_list[i].values()
            for o in objs]


# --------------------------------------------------------------------------------------------------------------- videos

LIMITS = (-3.0, 3.0, -2.0, 2.5)


def check_video(cfg, st):
    'one video'

    core0, spec, modes = make_core(cfg, PlotSettings.PLOT_IMAGE)
    saved = plt.savefig
    plt.savefig = lambda *_args, **_kwargs: None

    try:
        ui.start(dict(cfg), core0, spec, modes)
    finally:
        plt.savefig = saved
        plt.close('all')

    core, spec, modes = make_core(cfg, PlotSettings.PLOT_VIDEO)
    p = core.settings.plot
    p.draw_stride, p.video_pause_frames, p.video_extra_frames, p.video_show_frame = \
        cfg['stride'], cfg['pause'], cfg['extra'], cfg['show']
    own = cfg['extra'] != 1
    p.filename = 'name.mp4' if cfg['limits'] else None
    num = core.plotman.num_subplots

    if own:
        p.make_video_writer_func = Recorder
    else:
        p.video_fps = 17 # the default writer

    if cfg['limits']:
        p.label = [LabelSettings() for _ in range(num)]
        p.label[-1].axes_limits = LIMITS

    Recorder.made = []
    Recorder.look = staticmethod(lambda fig: look(fig, core, num))
    registry = dict(animation.writers._registered) # pylint: disable=protected-access
    animation.writers.register('ffmpeg')(Recorder)

    try:
        ui.start(dict(cfg), core, spec, modes)
    finally:
        animation.writers._registered.clear() # pylint: disable=protected-access
        animation.writers._registered.update(registry) # pylint: disable=protected-access
        plt.close('all')

    if len(Recorder.made) != 1 or not Recorder.made[0].ended:
        raise Violation(f'{len(Recorder.made)} video writers were used')

    writer = Recorder.made[0]

    if writer.outfile != (p.filename or 'anim.mp4'):
        raise Violation(f'saved to {writer.outfile}, the file name is {p.filename}')

    if not own and (writer.args[1].get('fps') or (writer.args[0] or [None])[0]) != 17:
        raise Violation(f'the default writer is made with {writer.args}, 17 frames per second are wanted')

    if core.log != core0.log:
        raise Violation('the computation went another way than without a video')

    check_frames(cfg, core0.log, writer.frames, st)
    check_contents(cfg, core, writer.frames, st)


def expected(log, stride):
    'positions which are shown, and whether there is a pause'

    pos, rv = 0, []

    while pos < len(log):
        event = False

        for _ in range(stride):
            if pos == len(log):
                break

            event = log[pos][0]
            pos += 1

            if event:
                break

        rv.append((pos, event))

    return rv


def check_frames(cfg, log, frames, st):
    'which steps are shown, for how many frames, and the frame counter'

    want = expected(log, cfg['stride'])
    got = [(k, len(list(g))) for k, g in itertools.groupby(f[0] for f in frames)]

    # a first frame may show the empty plot
    if got and got[0][0] == 0:
        got = got[1:]

    if [k for k, _ in got] != [k for k, _ in want]:
        raise Violation(f'the frames show steps {[k for k, _ in got]}, should be {[k for k, _ in want]}')

    for (pos, n), (_, event) in zip(got, want):
        low = 1 + (cfg['pause'] if event and pos < len(log) else 0)
        high = low + (2 if event and pos < len(log) else 0)

        if pos == len(log):
            low, high = low + cfg['extra'], high + cfg['extra'] + (cfg['pause'] + 2 if event else 0)

        if not low <= n <= high:
            raise Violation(f'step {pos} of {len(log)} {"(a pause) " if event else ""}is shown for {n} frames, should be {low} to {high}')

        st.count('pauses' if event else 'frames')

    numbers = []

    for _, axes, _ in frames:
        text = [t for a in axes for t in a['texts']]

        if not cfg['show'] and text:
            raise Violation(f'there is text {text} in the video')
        if cfg['show']:
            found = re.findall(r'\d+', ' '.join(text))

            if len(found) != 1 and not (not numbers and not found):
                raise Violation(f'the frame counter is {text}')

            numbers += [int(x) for x in found]

    body = len(frames) - cfg['extra']

    if cfg['show'] and (any(a >= b for a, b in zip(numbers[1:], numbers[2:])) or
                        any(b - a != 1 for a, b in zip(numbers[1:], numbers[2:body - 1]))):
        raise Violation(f'the frame counter goes {numbers}')

    st.transitions += len(frames)


def check_contents(cfg, core, frames, st):
    'what is drawn'

    log = core.log
    visible = [0] * core.plotman.num_subplots
    final = [stored_sets(core, i) for i in range(len(visible))] if 'sims' not in cfg else None
    last = None

    for pos, axes, now in frames:
        st.states += 1

        for i, a in enumerate(axes):
            where = f'at step {pos} of {len(log)}, subplot {i}'

            if last and last[0] == pos and (a['polys'], a['points'], a['lines']) != tuple(last[1][i][k] for k in ('polys', 'points', 'lines')):
                raise Violation(f'{where}: the picture changes although nothing is computed')

            if last and last[0] == pos and a['marked'] != last[1][i]['marked']:
                raise Violation(f'{where}: the highlighted set changes although nothing is computed')

            pts = [q for v in a['polys'] + a['lines'] for q in v] + a['points']

            if cfg['limits'] and i == len(axes) - 1:
                if a['xlim'] != LIMITS[:2] or a['ylim'] != LIMITS[2:]:
                    raise Violation(f'{where}: the limits are {a["xlim"]} x {a["ylim"]}, should be {LIMITS}')
            elif pts:
                low, high = np.min(pts, axis=0), np.max(pts, axis=0)

                if low[0] < a['xlim'][0] - 1e-6 or high[0] > a['xlim'][1] + 1e-6 or low[1] < a['ylim'][0] - 1e-6 or \
                        high[1] > a['ylim'][1] + 1e-6:
                    raise Violation(f'{where}: {a["xlim"]} x {a["ylim"]} is shown, the sets go from {low} to {high}')

            if 'sims' in cfg:
                check_lines(cfg, log[:pos], a['lines'], i, where, st)
                continue

            if now is not None and len(now[i]) > 2 and now[i] not in a['marked']:
                raise Violation(f'{where}: the current set is not highlighted')

            num = len(a['polys']) + len(a['points'])

            if cfg['strat'] != 'deagg':
                want = sum(log[p - 1][1] is not None for p, _ in expected(log, cfg['stride']) if p <= pos)

                if num != want:
                    raise Violation(f'{where}: {num} sets are drawn, should be {want}')

            if now is not None and now[i] not in a['polys'] and not any(v in a['points'] for v in now[i]) and \
                    now[i] not in [x[::-1] for x in a['polys']]:
                raise Violation(f'{where}: the current set is not drawn')

        last = (pos, axes)

    if final is not None:
        for i, sets in enumerate(final):
            if sorted(v for v in sets if len(v) > 2) != axes[i]['polys'] or \
                    sorted(v[0] for v in sets if len(v) <= 2) != axes[i]['points']:
                raise Violation(f'subplot {i}: the last frame does not show what is stored')

    st.traces += 1
    st.count('videos')


def sim_lines(cfg, log, subplot):
    'points of the simulation lines which belong to the steps: one set of lines per group of states'

    h = list(ui.automata())[cfg['auto']]['h']
    dims = [PLOTS[cfg['plot']][k][subplot] for k in (0, 1)]
    rv = []

    for event, what in log:
        if event:
            rv.append({})

        for j, s in enumerate(what or []):
            if s is not None:
                rv[-1].setdefault(j, []).append([h * s[2] if d is None else float(np.dot(d, s[1])) if isinstance(d, list) else s[1][d]
                                                 for d in dims])

    return [x for group in rv for x in group.values()]


def check_lines(cfg, log, lines, subplot, where, st):
    'simulations: with stride 1, the lines which are drawn are those of the steps so far'

    if cfg.get('stride', 1) > 1:
        return

    want = sorted(np.round(x, 6).tolist() for x in sim_lines(cfg, log, subplot))
    got = sorted(np.round(x, 6).tolist() for x in lines)

    if len(want) != len(got) or any(len(a) != len(b) or not np.allclose(a, b, atol=1e-5) for a, b in zip(want, got)):
        raise Violation(f'{where}: lines {got} are drawn, should be {want}')

    st.count('simulation_lines', len(want))


# --------------------------------------------------------------------------------------------------------------- images


def collections(cfg, num):
    'extra collections: (the setting, those of each subplot)'

    def make(k):
        return LineCollection([[(0, 0), (1, k)]], colors='red')

    if cfg['extra'] is None:
        return None, [[] for _ in range(num)]

    if cfg['extra'] == 'flat':
        rv = [make(1), make(2)]
        return rv, [rv] + [[] for _ in range(num - 1)]

    rv = [[make(k) for k in range(i + 1)] for i in range(num)]
    return rv, rv


TICS = [-0.5, 0.25, 0.75, 1.0]
YTICS = [-1.5, 0.0, 0.5]


def check_image(cfg, st):
    'one image'

    core, spec, modes = make_core(cfg, PlotSettings.PLOT_IMAGE)
    p = core.settings.plot
    num = core.plotman.num_subplots
    single = cfg['one'] and cfg['limits'] is None
    labels = [LabelSettings() for _ in range(1 if single else num)]

    for k, lab in enumerate(labels):
        lab.x_label = None if cfg['xlab'] is None else cfg['xlab'] + str(k)
        lab.y_label = cfg['ylab']
        lab.title = cfg['title']

        if cfg['sizes']:
            lab.title_size, lab.label_size, lab.tick_label_size = 11 + k, 7 + k, 5 + k

    if cfg['limits'] is not None:
        labels[0 if cfg['limits'] == 'first' else -1].axes_limits = LIMITS

    p.label = labels[0] if single else labels
    p.grid = cfg['tics'] != 'off'
    p.grid_xtics = TICS if cfg['tics'] in ('x', 'both') else None
    p.grid_ytics = YTICS if cfg['tics'] == 'both' else None
    p.extra_collections, extra = collections(cfg, num)

    if cfg['sizes']:
        p.plot_size, p.reachable_poly_width, p.sim_line_width, p.sim_line_color = (4, 2.5), 3.5, 0.75, 'blue'

    core.hybrid_automaton.name = 'The Automaton'
    p.filename = 'x.png' if cfg['sizes'] else None
    files = []

    def save(*args, **kwargs):
        fname = args[0] if args else kwargs['fname']
        files.append((fname, core.is_finished()))
        compare(cfg, core, plt.gcf(), labels if not single else labels * num, extra, st)

    saved = plt.savefig
    plt.savefig = save

    try:
        with contextlib.redirect_stdout(io.StringIO()):
            ui.start(dict(cfg), core, spec, modes)
    finally:
        plt.savefig = saved
        plt.close('all')

    if files != [(p.filename or 'plot.png', True)]:
        raise Violation(f'images are saved to {files}, should be to {p.filename}, when the computation is complete')

    st.traces += 1
    st.count('images')


def expect(what, got, want):
    'compare'

    if got != want:
        raise Violation(f'{what}: {got}, should be {want}')


def compare(cfg, core, fig, labels, extra, st): # pylint: disable=too-many-locals
    'what is in the figure'

    p = core.settings.plot
    num = core.plotman.num_subplots
    expect('size of the figure', tuple(float(x) for x in fig.get_size_inches()), tuple(float(x) for x in p.plot_size))
    expect('number of subplots', len(fig.axes), num)
    colors = {}
    _, shown, _ = look(fig, core, num)

    for i, ax in enumerate(fig.axes):
        what = f'subplot {i}'
        lab = labels[i]
        st.states += 1
        st.transitions += 1

        if i == 0:
            expect('title', ax.get_title(), 'The Automaton' if cfg['title'] is None else cfg['title'])
            expect('size of the title', ax.title.get_fontsize(), lab.title_size)
        else:
            expect(f'{what}: title', ax.get_title(), '')

        for axis, given, dim in ((ax.xaxis, lab.x_label, PLOTS[cfg['plot']][0][i]), (ax.yaxis, lab.y_label, PLOTS[cfg['plot']][1][i])):
            text = axis.get_label_text()
            expect(f'{what}: size of a label', axis.label.get_fontsize(), lab.label_size)

            if given is not None:
                expect(f'{what}: label', text, given)
            elif dim is None:
                expect(f'{what}: label', text.lower(), 'time')
            elif isinstance(dim, int):
                expect(f'{what}: number in the label', re.findall(r'\d+', text), [str(dim)])
            else:
                expect(f'{what}: label', text, '')

            for t in axis.get_major_ticks()[:1]:
                expect(f'{what}: size of the tick labels', t.label1.get_fontsize(), lab.tick_label_size)
                expect(f'{what}: grid', t.gridline.get_visible(), p.grid)

        for given, got in ((p.grid_xtics, ax.get_xticks()), (p.grid_ytics, ax.get_yticks())):
            if given is not None:
                expect(f'{what}: ticks', [float(x) for x in got], given)

        if lab.axes_limits is not None:
            expect(f'{what}: limits', shown[i]['xlim'] + shown[i]['ylim'], LIMITS)
        else:
            pts = [q for v in shown[i]['polys'] for q in v] + shown[i]['points']

            if pts:
                (x0, y0), (x1, y1) = np.min(pts, axis=0), np.max(pts, axis=0)
                (l0, l1), (m0, m1) = shown[i]['xlim'], shown[i]['ylim']

                if x0 < l0 - 1e-6 or x1 > l1 + 1e-6 or y0 < m0 - 1e-6 or y1 > m1 + 1e-6:
                    raise Violation(f'{what}: {l0, l1} x {m0, m1} is shown, the sets are in {x0, x1} x {y0, y1}')

        for j, cols in enumerate(extra):
            for col in cols:
                expect(f'{what}: extra collections of subplot {j} are there', any(c is col for c in ax.collections), i == j)

        if 'sims' in cfg:
            lines = [x for x in shown[i]['lines'] if x not in [[[0.0, 0.0], [1.0, float(k)]] for k in range(9)]]
            check_lines({'plot': cfg['plot'], 'auto': cfg['auto']}, core.log, lines, i, what, st)

            for col in ax.collections:
                if isinstance(col, LineCollection) and not any(col is c for c in extra[i]):
                    expect(f'{what}: width of the lines', float(col.get_linewidth()[0]), float(p.sim_line_width))
                    expect(f'{what}: color of the lines', tuple(col.get_colors()[0][:3]), to_rgb(p.sim_line_color))

            continue

        check_colors(core, ax, i, what, colors)

    st.count('colors', len(colors))

    if len(set(colors.values())) != len(colors):
        raise Violation(f'modes have the same color: {colors}')


def check_colors(core, ax, i, what, colors):
    'the sets of a mode have the color of the mode'

    p = core.settings.plot
    where = {}

    for name, objs in core.result.plot_data.mode_to_obj_list[i].items():
        for o in objs:
            v = np.round(np.array(o[0], dtype=float), 9).tolist()

            if len(v) > 2:
                where.setdefault(repr(v), set()).add(name)

    left = dict(where)

    for col in ax.collections:
        if not isinstance(col, PolyCollection) or col.get_alpha() is None:
            continue

        expect(f'{what}: width of the outlines', float(col.get_linewidth()[0]), float(p.reachable_poly_width))
        color = tuple(round(float(x), 6) for x in col.get_edgecolor()[0][:3])

        for path in col.get_paths():
            key = repr(np.round(path.vertices, 9).tolist())

            if len(path.vertices) <= 2:
                continue

            if key not in where:
                raise Violation(f'{what}: a set is drawn which is not stored')

            left.pop(key, None)

            if len(where[key]) == 1:
                name = next(iter(where[key]))

                if colors.setdefault(name, color) != color:
                    raise Violation(f'{what}: sets of mode {name} are drawn in {color} and in {colors[name]}')

    if left:
        raise Violation(f'{what}: {len(left)} stored sets are not drawn')


def check(cfg):
    'one video or image'

    st = Stats()
    {'video': check_video, 'image': check_image}[cfg['kind']](cfg, st)
    st.sample = cfg
    return st


def min_counts(_tier):
    'vacuity guard'
    return {'videos': 100, 'images': 100, 'pauses': 200, 'frames': 500, 'simulation_lines': 100, 'colors': 100}
