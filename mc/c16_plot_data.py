'C16: stored and drawn plot data is the history of the computation'

import itertools

import matplotlib.figure
import matplotlib.pyplot as plt
import numpy as np
from matplotlib.animation import AbstractMovieWriter
from matplotlib.backends.backend_agg import FigureCanvasAgg
from matplotlib.collections import PolyCollection

from mc import model, poly
from mc.c01_exact_reach import A, INV, GUARD, RESET, INIT
from mc.c02_inputs_exact import INP
from mc.engine import Stats, Violation

from hylaa import aggstrat
from hylaa.core import Core
from hylaa.settings import PlotSettings, LabelSettings

PROP = 'C16'

DESCRIPTION = {
    'what': 'Every automaton of the family is run under every plot setting (nothing drawn, image, video; with and without '
            'storing; one to three subplots over variables, directions, time and per-mode directions) and every strategy '
            '(no aggregation, aggregation, deaggregation). The stored polygons must be exactly one per visited set in '
            'each subplot (compared with the path-wise reference, or with the sets the computation itself passes through), '
            'what is drawn must be what is stored, and the verdict must not depend on plotting. With deaggregation, '
            'replaced sets must be gone from all subplots, nothing may be there twice and every reachable set covered.',
    'bounds': '2-3 dims, up to 5 modes, up to 6 steps, up to 3 subplots',
    'assumptions': ['16 directions in the plane; polygons may cut off a 1/500 of the width of a set (documented accuracy)'],
}

DIRS2 = [(np.cos(a), np.sin(a)) for a in np.arange(16) * (2 * np.pi / 16)]

# name: list of (x, y); dict: direction per mode
PLOTS = {
    'xy': [(0, 1)],
    'mark': [(None, 1), (0, 1)],
    'two': [(None, 0), (1, 0)],
    'three': [(0, [1.0, 1.0]), ([0.5, -2.0], None), (None, 1)],
    'dict': [({'p': 0, 'q': 1, 'r': [1.0, -1.0], 's': 0}, {'p': 1, 'q': None, 'r': 1, 's': [0.3, 1.0]}), (1, 1)],
}

OUT = ('none', 'image', 'video', 'imageonly')
STRATS = ('unagg', 'agg0', 'agg1', 'deagg', 'deaggpop')


def automata(tier):
    'the automata'

    quick = tier == 'quick'
    ths = (-1.6, -2.4) if quick else (-0.9, -1.6, -2.1, -2.6)
    pt = ['con', [[[1, 0], [-1, 0], [0, 1], [0, -1]], [0.7, -0.7, 0.3, -0.3]]]
    flat = ['box', [[0.2, 0.9], [0.4, 0.4]]]

    for d, i, th, init, u in itertools.product((('dint', 'rot', 'gen'), ('rot', 'zero', 'dint')), ('xle', 'three'), ths,
                                               (INIT['box'], pt, flat), ('none', 'sym')):
        if quick and u == 'sym' and init is not pt:
            continue

        modes = {nm: {'A': A[a], 'inv': INV[i] if nm == 'p' else INV['xyle'] if nm == 'r' else []}
                 for nm, a in zip('pqr', d)}
        modes['p'].update(INP[u])
        modes['e'] = {'A': None}
        yield {'h': 0.3, 'n': 5, 'modes': modes,
               'trans': [{'from': 'p', 'to': 'q', 'guard': GUARD['xge'], **RESET['lin']},
                         {'from': 'q', 'to': 'r', 'guard': GUARD['corner'], **RESET['id']},
                         {'from': 'q', 'to': 'e', 'guard': [[[-1, -0.4], th]]},
                         {'from': 'r', 'to': 'e', 'guard': [[[-0.3, -1], th]]}],
               'init': [['p'] + init], 'set': {}}

    for d, th, ini in itertools.product((('dint', 'rot', 'gen', 'saddle'), ('rot', 'gen', 'dint', 'spiral')), ths,
                                        (('p',), ('q', 'r', 'p'))):
        modes = {nm: {'A': A[x], 'inv': INV['xle'] if nm == 'p' else []} for nm, x in zip('pqrs', d)}
        modes['e'] = {'A': None}
        yield {'h': 0.35, 'n': 4, 'modes': modes,
               'trans': [{'from': 'p', 'to': 'q', 'guard': GUARD['xge'], **RESET['lin']},
                         {'from': 'p', 'to': 'r', 'guard': GUARD['corner'], **RESET['id']},
                         {'from': 'q', 'to': 's', 'guard': GUARD['true'], **RESET['swap']},
                         {'from': 'r', 'to': 's', 'guard': GUARD['band'], **RESET['id']},
                         {'from': 's', 'to': 'e', 'guard': [[[-1, -0.4], th]]}],
               'init': [[m] + INIT[x] for m, x in zip(ini, ('box', 'tri', 'seg'))], 'set': {}}

    for d, th in itertools.product((('dint', 'rot'), ('gen', 'dint')), ths):
        yield {'h': 0.4, 'n': 4, 'modes': {'p': {'A': A[d[0]], 'inv': INV['three']}, 'q': {'A': A[d[1]]}, 'e': {'A': None}},
               'trans': [{'from': 'p', 'to': 'q', 'guard': GUARD['xge'], **RESET['collapse']},
                         {'from': 'q', 'to': 'p', 'guard': GUARD['band'], **RESET['id']},
                         {'from': 'q', 'to': 'e', 'guard': [[[-1, -0.4], th]]}],
               'init': [['p'] + INIT['box']], 'set': {}}

    # points which are aggregated to a segment, and look like a point in some plots
    def point(x, y):
        return ['p', 'con', [[[1, 0], [-1, 0], [0, 1], [0, -1]], [x, -x, y, -y]]]

    for ini, th, dyn in itertools.product(([(0.75, 0.4), (0.8, 0.4)], [(0.4, 0.4), (0.75, 0.4), (0.7, 0.4)],
                                           [(0.5, 0.4), (0.5, 0.43)]), ths + (-0.8, -1.3), ('dint', 'gen')):
        yield {'h': 0.4, 'n': 4, 'modes': {'p': {'A': A['dint']}, 'q': {'A': A[dyn]}, 'e': {'A': None}},
               'trans': [{'from': 'p', 'to': 'q', 'guard': [[[-1, 0], -0.83], [[1, 0], 0.99]], **RESET['id']},
                         {'from': 'p', 'to': 'e', 'guard': [[[-1, -0.4], th]]},
                         {'from': 'q', 'to': 'e', 'guard': [[[-1, -0.4], th - 0.3]]}],
               'init': [point(*x) for x in ini], 'set': {}}


def configs(tier):
    'automata x plots x output x strategy; quick: a third of the combinations, all pairs are met'

    for k, spec in enumerate(automata(tier)):
        for j, (p, o, s) in enumerate(itertools.product(sorted(PLOTS), OUT, STRATS)):
            if o == 'imageonly' and s not in ('unagg', 'deagg'):
                continue

            marked = p == 'mark' and o == 'image' and s == 'deaggpop' # some subplots show points

            if tier != 'quick' or (j + k) % 4 == 0 or marked:
                stop = (j // 3 + k) % 3 == 0
                yield dict(spec, plot=p, out=o, strat=s, stop=stop)


class StubWriter(AbstractMovieWriter): # pylint: disable=abstract-method
    'a video writer which writes nothing'

    @classmethod
    def isAvailable(cls):
        'yes'
        return True

    def setup(self, fig, outfile, dpi=None):
        'nothing to set up'
        self.fig, self.outfile, self.dpi = fig, outfile, dpi

    def grab_frame(self, **_):
        'nothing to grab'

    def finish(self):
        'nothing to finish'


def axis_dirs(cfg, subplot, mode, dims):
    'x vector, y vector and whether each is time'

    rv = []

    for axis in PLOTS[cfg['plot']][subplot]:
        d = axis[mode] if isinstance(axis, dict) else axis

        if d is None:
            rv.append((np.zeros(dims), 1.0))
        elif isinstance(d, int):
            rv.append((np.eye(dims)[d], 0.0))
        else:
            rv.append((np.array(d, dtype=float), 0.0))

    return rv


def combine(cfg, subplot, mode, dims):
    'for every direction of the plane: (direction of the state space, coefficient of time)'

    (xv, xt), (yv, yt) = axis_dirs(cfg, subplot, mode, dims)
    return [(a * xv + b * yv, a * xt + b * yt) for a, b in DIRS2]


def num_subplots(cfg):
    'number of subplots'
    return len(PLOTS[cfg['plot']])


class Watch(Core):
    'notes every set the computation passes through'

    def __init__(self, ha, settings, cfg):
        self.watch_cfg = cfg
        self.watched = [[] for _ in range(num_subplots(cfg))] # (mode, in-mode step, interval, supports)
        super().__init__(ha, settings)

    def do_step(self):
        super().do_step()
        cur = self.aggdag.get_cur_state()

        if cur is None or (self.watched[0] and self.watched[0][-1][4] is cur and
                           self.watched[0][-1][1] == cur.cur_step_in_mode):
            return

        lpi = cur.lpi.clone()

        for i, lst in enumerate(self.watched):
            sup = []

            for d, ct in combine(self.watch_cfg, i, cur.mode.name, lpi.dims):
                t = max(ct * x * self.settings.step_size for x in cur.cur_steps_since_start)
                sup.append(t + model.lpi_supports(lpi, [d])[0] if d.any() else t)

            lst.append((cur.mode.name, cur.cur_step_in_mode, tuple(cur.cur_steps_since_start), sup, cur))


def expand(d):
    'plot dimension as hylaa wants it'

    if isinstance(d, dict):
        return {k: expand(v) for k, v in d.items()}

    return np.array(d, dtype=float) if isinstance(d, list) else d


def run(cfg):
    'run it: result, core, lists of drawn polygons and markers per subplot'

    ha, modes = model.build_ha(cfg)
    s = model.build_settings(cfg)
    s.plot.plot_mode = {'none': PlotSettings.PLOT_NONE, 'video': PlotSettings.PLOT_VIDEO}.get(cfg['out'],
                                                                                         PlotSettings.PLOT_IMAGE)
    s.plot.store_plot_result = cfg['out'] != 'imageonly'
    s.plot.filename = '/dev/null'
    s.plot.make_video_writer_func = StubWriter
    s.plot.video_extra_frames = 3
    s.plot.video_pause_frames = 2
    s.stop_on_concrete_error = cfg['stop']
    plots = PLOTS[cfg['plot']]

    if len(plots) == 1:
        s.plot.xdim_dir, s.plot.ydim_dir = plots[0]
    else:
        s.plot.xdim_dir = [expand(x) for x, _ in plots]
        s.plot.ydim_dir = [expand(y) for _, y in plots]

        if not cfg['stop']: # (otherwise a single one)
            s.plot.label = [LabelSettings() for _ in plots]

    strat = cfg['strat']

    if strat != 'unagg':
        s.aggstrat = aggstrat.Aggregated(1 if strat == 'agg1' else 0, deaggregate=strat.startswith('deagg'))

        if strat == 'deaggpop':
            s.aggstrat.pop_type = 1
            s.aggstrat.deagg_preference = 1
            s.aggstrat.require_same_path = False

    core = Watch(ha, s, cfg)
    drawn = None

    try:
        res = core.run(model.build_init(cfg, modes))

        if cfg['out'] != 'none':
            drawn = []

            for axes in plt.gcf().axes[:len(plots)]:
                polys, points = [], []

                for col in axes.collections:
                    if isinstance(col, PolyCollection) and col.get_alpha() is not None:
                        polys += [p.vertices.tolist() for p in col.get_paths() if len(p.vertices) > 2]

                for line in axes.lines:
                    if line.get_marker() == 'o' and line.get_alpha() is not None:
                        points += [p for p in zip(line.get_xdata(), line.get_ydata()) if not np.isnan(p).any()]

                drawn.append((polys, points))
    finally:
        plt.close('all')

    return res, core, drawn


def poly_sup(verts):
    'supports of a polygon'
    return [max(a * x + b * y for x, y in verts) for a, b in DIRS2]


def inside(inner, outer, tol):
    'is the set with the first supports inside the one with the second?'
    return all(x <= y + tol for x, y in zip(inner, outer))


def width(sup):
    'smallest width'
    return min(sup[i] + sup[i + 8] for i in range(8))


def same_set(got, want):
    'is the polygon (supports) the set, up to the documented accuracy?'

    size = max(1, max(abs(x) for x in want))
    slack = max(min(want[0] + want[8], want[4] + want[12]), 1e-5) / 250 + 1e-5 * size
    return inside(got, want, 1e-5 * size) and inside(want, got, slack)


def match(stored, expected, what, st):
    'compare the polygons with the expected sets: lists of (key, supports)'

    left = list(stored)

    for key, sup in expected:
        hit = next((i for i, (k, s) in enumerate(left) if k == key and same_set(s, sup)), None)

        if hit is None:
            if any(k == key for k, _ in left):
                raise Violation(f'{what}: the polygons of {key} are not the set with supports {np.round(sup, 4).tolist()}: '
                                f'{[np.round(s, 4).tolist() for k, s in left if k == key]}')

            raise Violation(f'{what}: no polygon of {key} (mode, step in mode)')

        left.pop(hit)
        st.transitions += 1

    if left:
        raise Violation(f'{what}: more polygons than sets were visited: {[k for k, _ in left]}')


def check_stored(cfg, core, ref_obs, stored, st): # pylint: disable=too-many-locals
    'stored: list per subplot of (mode, step, verts, state)'

    complete = not (cfg['stop'] and core.result.has_concrete_error)
    ids = [[(m, s, id(state)) for m, s, _, state in lst] for lst in stored]

    if any(x != ids[0] for x in ids[1:]):
        raise Violation('the subplots do not show the same sets: ' + str([[x[:2] for x in i] for i in ids]))

    if len(set(ids[0])) != len(ids[0]):
        raise Violation('a set is stored twice: ' + str([x[:2] for x in ids[0]]))

    for i, lst in enumerate(stored):
        got = [((m, s), poly_sup(verts)) for m, s, verts, _ in lst]

        for m, s, verts, _ in lst:
            if list(verts[0]) != list(verts[-1]):
                raise Violation(f'polygon of {m} at {s} does not wrap around: {verts}')

        # the sets of the reference in the plane of the plot
        want = []

        for (m, total, inmode), sets in ref_obs.items():
            for _, pts in sets:
                arr = np.array(pts)
                want.append(((m, inmode), [float((arr @ d).max()) + ct * total * cfg['h']
                                           for d, ct in combine(cfg, i, m, arr.shape[1])]))

        if cfg['strat'] == 'unagg' and complete:
            match(got, want, f'subplot {i}', st)

        watched = [((m, s), sup) for m, s, _, sup, _ in core.watched[i]]

        if not cfg['strat'].startswith('deagg'):
            match(got, watched, f'subplot {i} (visited sets)', st)
        else:
            for key, sup in got:
                if key[1] == 1 and not np.any(cfg['modes'][key[0]]['A']):
                    continue # modes without dynamics are left before their step is seen, but it is replayed

                if not any(k == key and inside(sup, w, 1e-5 * max(1, max(map(abs, w)))) for k, w in watched):
                    raise Violation(f'subplot {i}: polygon of {key} is not inside any visited set')

        if complete and cfg['strat'] != 'unagg':
            for key, sup in want:
                slack = max(width(sup), 0) / 250 + 1e-4

                if not any(k == key and inside(sup, s, slack + max(min(s[0] + s[8], s[4] + s[12]), 0) / 250)
                           for k, s in got):
                    raise Violation(f'subplot {i}: reachable set of {key} is not in any polygon: '
                                    f'{np.round(sup, 4).tolist()}; polygons {[np.round(s, 4).tolist() for k, s in got if k == key]}')

                st.states += 1


def check_drawn(drawn, stored):
    'what is drawn is what is stored'

    for i, ((polys, points), lst) in enumerate(zip(drawn, stored)):
        want_polys = sorted(np.array(v, dtype=float).round(9).tolist() for _, _, v, _ in lst if len(v) > 2)
        want_points = sorted(tuple(np.array(v[0], dtype=float).round(9).tolist()) for _, _, v, _ in lst if len(v) <= 2)
        got_polys = sorted(np.array(v, dtype=float).round(9).tolist() for v in polys)
        got_points = sorted(tuple(np.array(v, dtype=float).round(9).tolist()) for v in points)

        if got_polys != want_polys:
            raise Violation(f'subplot {i}: {len(got_polys)} polygons are drawn, {len(want_polys)} are stored, '
                            f'or they differ: drawn only {[p for p in got_polys if p not in want_polys][:2]}, '
                            f'stored only {[p for p in want_polys if p not in got_polys][:2]}')

        if got_points != want_points:
            raise Violation(f'subplot {i}: the points {got_points} are drawn, {want_points} are stored')


def check_lookup(res, stored, st):
    'PlotData.get_verts_list and get_plot_data'

    data = res.plot_data

    for i, lst in enumerate(stored):
        for m in sorted({m for m, _, _, _ in lst}) + ['nothere']:
            got = data.get_verts_list(m, i)
            want = [v for mode, _, v, _ in lst if mode == m]

            if [np.array(v).tolist() for v in got] != [np.array(v).tolist() for v in want]:
                raise Violation(f'get_verts_list of mode {m} in subplot {i} is {got}, should be {want}')
            if i == 0 and [np.array(v).tolist() for v in data.get_verts_list(m)] != [np.array(v).tolist() for v in want]:
                raise Violation(f'get_verts_list of mode {m} without a subplot is not that of the first one')

        st.count('lookups')

        # the polygon at a point
        big = [(m, s, np.array(v, dtype=float)) for m, s, v, _ in lst if len(v) >= 4]

        for m, s, v in big[:1] + big[-1:]:
            x, y = v[1:].mean(axis=0)
            obj = data.get_plot_data(x, y, i) if i else data.get_plot_data(x, y)

            if obj is None:
                raise Violation(f'subplot {i}: nothing is found at {x, y}, although it is in the polygon of {m} at {s}')

            sup = poly_sup(obj[0])

            if not inside([a * x + b * y for a, b in DIRS2], sup, 1e-9):
                raise Violation(f'subplot {i}: at {x, y} the polygon {obj[0]} is found')

        if data.get_plot_data(1000.0, -1000.0, i) is not None:
            raise Violation(f'subplot {i}: a polygon is found far away')

    if sum(len(x) for m in data.mode_to_obj_list for x in m.values()) != sum(len(x) for x in stored):
        raise Violation('looking up changed the data')


def check(cfg):
    'one run'

    st = Stats()
    saved = (matplotlib.figure.Figure.savefig, plt.savefig, FigureCanvasAgg.draw)
    matplotlib.figure.Figure.savefig = plt.savefig = lambda *_args, **_kwargs: None # drawing takes long
    FigureCanvasAgg.draw = lambda *_args, **_kwargs: None

    try:
        ref = model.Ref(cfg)
        ref_obs = ref.run(max_states=20000)
        res, core, drawn = run(cfg)
        unsafe = bool(ref.error_hits)

        if cfg['strat'] == 'unagg' or cfg['strat'].startswith('deagg'):
            if res.has_concrete_error != unsafe:
                raise Violation(f'concrete error is {res.has_concrete_error}, should be {unsafe}')
        elif unsafe and not (res.has_concrete_error or res.has_aggregated_error):
            raise Violation('error missed')

        if cfg['out'] == 'imageonly':
            if res.plot_data is not None:
                raise Violation('data is stored, although it is not asked for')

            other, _, _ = run(dict(cfg, out='image'))
            data = other.plot_data
        else:
            data = res.plot_data

        stored = []

        for objs in data.mode_to_obj_list:
            stored.append([(m, o[2], o[0], o[1]) for m in sorted(objs) for o in objs[m]])

        if len(stored) != num_subplots(cfg):
            raise Violation(f'data of {len(stored)} subplots')

        if cfg['out'] != 'imageonly':
            check_stored(cfg, core, ref_obs, stored, st)

            if cfg['out'] == 'image' and cfg['strat'] == 'unagg' and cfg['plot'] in ('two', 'dict') and not cfg['stop']:
                check_lookup(res, stored, st) # takes long

        if drawn is not None:
            check_drawn(drawn, stored)
            st.count('drawn', len(drawn[0][0]) + len(drawn[0][1]))
    finally:
        matplotlib.figure.Figure.savefig, plt.savefig, FigureCanvasAgg.draw = saved

    st.traces += 1
    st.count('polygons', sum(len(x) for x in stored))
    st.count('subsets', cfg['strat'].startswith('deagg') and len(stored[0]) or 0)
    st.sample = {'polygons': len(stored[0])}
    return st


def min_counts(_tier):
    'vacuity guard'
    return {'polygons': 5000, 'drawn': 1000}
