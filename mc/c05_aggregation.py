'C05: aggregation never loses a state, and is no coarser than its template'

import itertools

import numpy as np

from mc import model, poly, sets
from mc.c01_exact_reach import A, INV, GUARD, RESET, INIT
from mc.c02_inputs_exact import INP
from mc.engine import Stats, Violation

from hylaa import aggregate, aggstrat, lputil
from hylaa.stateset import StateSet

PROP = 'C05'

DESCRIPTION = {
    'what': 'Set level: every list of 2-3 (2-d: also 4-5) sets from a pool of constructions is aggregated with the '
            'convex-hull and with template methods; the hull must be exact, the template polytope must be exactly the '
            'template bounds, the arguments must be left as they were. Run level: every automaton of a family is run '
            'under every aggregation type / pop order / guard-direction / same-path setting, and every set of every '
            'path of the reference model must be inside an aggregated set of that mode whose step interval contains it; '
            'every aggregated set must be no larger than the bounding box of what was aggregated.',
    'bounds': 'dims 1-3; run level: 2-3 modes, up to 6 steps',
    'assumptions': ['12-26 support directions, tolerance 1e-4'],
}


# ------------------------------------------------------------------------------------------------- set level

TEMPL = {
    1: [[[1.0]], [[2.0], [-0.5]]],
    2: [[[1.0, 0], [0, 1]], [[0.6, 0.8], [-0.8, 0.6], [1, 0], [0, 1]], [[1, 0], [0, 1], [1, 1], [0, 0], [-3, 0.2]]],
    3: [np.identity(3).tolist(), [[1, 0, 0], [0, 1, 0], [0, 0, 1], [1, 1, 1], [0.5, -2, 0]]],
}


def set_configs(tier):
    'lists of sets'

    for dims in (1, 2, 3):
        names = sets.NAMES[dims]

        for r in (2, 3):
            if r == 3 and dims == 3:
                names = ('box', 'flat', 'cut', 'reset')

            for combo in itertools.permutations(names, r) if r == 2 else itertools.combinations(names, r):
                yield {'kind': 'sets', 'dims': dims, 'list': list(combo)}

    for r in (4, 5) if tier == 'quick' else (4, 5, 6, 7):
        for combo in itertools.combinations(('box', 'tri', 'pt', 'negbox', 'stepped', 'resetm', 'inputs'), r):
            yield {'kind': 'sets', 'dims': 2, 'list': list(combo)}


IVALS = ([0, 0], [2, 2], [1, 4], [2, 6], [3, 5], [7, 9])


def state_configs(tier):
    'lists of state sets with their step intervals'

    for r in (2, 3) if tier == 'quick' else (2, 3, 4):
        for ivals in itertools.product(range(len(IVALS)), repeat=r):
            yield {'kind': 'states', 'ivals': list(ivals)}


def check_states(cfg, st):
    'aggregation of state sets: interval, set, concreteness'

    pool = ('box', 'pt', 'negbox', 'seg')
    made = [sets.make(2, pool[k]) for k in range(len(cfg['ivals']))]
    mode = sets.mode_of(2)
    ivals = [IVALS[k] for k in cfg['ivals']]
    lst = [StateSet(m[0], mode, list(v)) for m, v in zip(made, ivals)]
    dirs = poly.directions(2)
    want = poly.supports(poly.hull([m[1] for m in made]), dirs)

    for kind in ('chull', 'box', 'arnoldi'):
        if kind == 'chull':
            rv = aggregate.aggregate_chull(lst, [None] * len(lst), lambda _: None)
        else:
            rv = aggregate.aggregate_box_arnoldi(lst, [None] * len(lst), kind == 'box', kind == 'arnoldi', True,
                                                 lambda _: None)

        if list(rv.cur_steps_since_start) != [min(v[0] for v in ivals), max(v[1] for v in ivals)]:
            raise Violation(f'{kind}: aggregating sets with step intervals {ivals} gives {rv.cur_steps_since_start}')
        if rv.is_concrete or rv.mode is not mode or rv.cur_step_in_mode != 0:
            raise Violation(f'{kind}: the aggregation is not marked as such')

        got = model.lpi_supports(rv.lpi, dirs)

        if (want - got).max() > 1e-5 or kind == 'chull' and np.abs(want - got).max() > 1e-5:
            raise Violation(f'{kind}: wrong aggregated set, off by {np.abs(want - got).max():.2e}')

        st.states += 1

    if [list(x.cur_steps_since_start) for x in lst] != [list(v) for v in ivals]:
        raise Violation('aggregation changed the step intervals of its arguments')

    st.transitions += 3 * len(lst)
    st.traces += 1
    st.count('state_lists')


def check_sets(cfg, st):
    'one list of sets'

    dims = cfg['dims']
    made = [sets.make(dims, n) for n in cfg['list']]
    lpis = [m[0] for m in made]
    pts = [m[1] for m in made]
    dirs = poly.directions(dims, True)
    mode = sets.mode_of(dims)
    want = poly.supports(poly.hull(pts), dirs)
    tol = 2e-5 * max(1.0, float(np.abs(want).max()))

    agg = lputil.aggregate_chull(lpis, mode)
    got = model.lpi_supports(agg, dirs)

    if np.abs(got - want).max() > tol:
        w = int(np.abs(got - want).argmax())
        raise Violation(f'convex hull of {cfg["list"]}: max of {np.round(dirs[w], 3).tolist()} * x is {got[w]:.6f}, '
                        f'must be {want[w]:.6f}')

    for tmpl in TEMPL[dims]:
        mat = np.array(tmpl, dtype=float)
        agg = lputil.aggregate(lpis, mat, mode)
        got = model.lpi_supports(agg, dirs)

        if (want - got).max() > tol:
            raise Violation(f'template aggregation of {cfg["list"]} with {tmpl} does not contain the sets: '
                            f'{(want - got).max():.2e}')

        rows = mat[np.abs(mat).sum(axis=1) > 0]
        both = np.concatenate([rows, -rows])
        exact = poly.supports(poly.hull(pts), both)
        got = model.lpi_supports(agg, both)

        if np.abs(got - exact).max() > tol * 5:
            raise Violation(f'template aggregation of {cfg["list"]} with {tmpl} is not tight in its own directions: '
                            f'{np.abs(got - exact).max():.2e}')

        st.states += 1

    for lpi, p, n in zip(lpis, pts, cfg['list']):
        if np.abs(model.lpi_supports(lpi, dirs) - poly.supports(p, dirs)).max() > tol:
            raise Violation(f'aggregation modified its argument {n}')

    st.states += 1
    st.transitions += len(lpis)
    st.traces += 1
    st.count('set_lists')


# ------------------------------------------------------------------------------------------------- run level

def run_configs(tier):
    'automata x strategies'

    quick = tier == 'quick'
    dyns = (('dint', 'rot'), ('gen', 'zero')) if quick else \
        (('dint', 'rot'), ('rot', 'gen'), ('gen', 'zero'), ('spiral', 'saddle'), ('zero', 'dint'))
    strats = [(k, pop, grd, same) for k in (0, 1, 2) for pop in (0, 1, 2) for grd in (True, False)
              for same in (True, False)]

    # which path is taken in the strategy space is independent of most of the model alphabet: pairs
    for (d, g, r, i, u), (k, pop, grd, same) in itertools.product(
            itertools.product(dyns, ('xge', 'corner', 'true'), ('id', 'lin', 'mink', 'collapse'),
                              ('none', 'two') if quick else ('none', 'two', 'xyle'),
                              (('none', 'none'), ('sym', 'box2'))), strats):
        if u[0] == 'none' and (pop == 2) and not same:
            continue

        p = {'A': A[d[0]], 'inv': INV['three']}
        p.update(INP[u[0]])
        q = {'A': A[d[1]], 'inv': INV[i]}
        q.update(INP[u[1]])
        yield {'kind': 'run', 'strat': [k, pop, grd, same], 'h': 0.3, 'n': 5 if quick else 7, 'modes': {'p': p, 'q': q},
               'trans': [{'from': 'p', 'to': 'q', 'guard': GUARD[g], **RESET[r]},
                         {'from': 'q', 'to': 'p', 'guard': [[[-0.2, -1], -1.07]], 'R': [[0.6, 0], [0, 0.3]]}],
               'init': [['p'] + INIT['box']], 'set': {}}

    # two incoming transitions, two initial sets, equality guards, dimension change
    for (k, pop, grd, same), d, g1, g2, ini in itertools.product(
            strats, (('dint', 'rot', 'gen'), ('rot', 'gen', 'spiral')), ('xge', 'slice'), ('yle', 'band'),
            ((['p', 'box'],), (['p', 'tri'], ['r', 'seg']), (['r', 'zono'], ['q', 'pt'], ['p', 'box']))):
        modes = {nm: {'A': A[x], 'inv': INV['xle'] if nm == 'p' else []} for nm, x in zip('pqr', d)}
        yield {'kind': 'run', 'strat': [k, pop, grd, same], 'h': 0.35, 'n': 5, 'modes': modes,
               'trans': [{'from': 'p', 'to': 'q', 'guard': GUARD[g1], **RESET['lin']},
                         {'from': 'p', 'to': 'q', 'guard': GUARD[g2], **RESET['id']},
                         {'from': 'r', 'to': 'q', 'guard': GUARD['true'], **RESET['swap']},
                         {'from': 'p', 'to': 'r', 'guard': GUARD['corner'], **RESET['mink2']}],
               'init': [[m] + INIT[x] for m, x in ini], 'set': {}}

    for (k, pop, grd, same), rr in itertools.product(strats, ([[1, 0.5]], [[0, 1]])):
        yield {'kind': 'run', 'strat': [k, pop, grd, same], 'h': 0.3, 'n': 6,
               'modes': {'p': {'A': A['rot']}, 'q': {'A': [[0.4]], 'inv': [[[1], 2.3]]},
                         's': {'A': [[0, 1, 0], [0, 0, 1], [0, 0, 0]]}},
               'trans': [{'from': 'p', 'to': 'q', 'guard': GUARD['xge'], 'R': rr},
                         {'from': 'q', 'to': 's', 'guard': [[[-1], -1.1]], 'R': [[1], [0.5], [0]],
                          'M': [[0], [0], [1]], 'MC': [[[1], [-1]], [1.0, -0.8]]}],
               'init': [['p'] + INIT['box']], 'set': {}}


_REF = {}


def reference(cfg):
    'observations of the reference'

    key = repr((cfg['h'], cfg['n'], cfg['modes'], cfg['trans'], cfg['init']))

    if key not in _REF:
        ref = model.Ref(cfg)
        _REF.clear()
        _REF[key] = (ref.run(max_states=20000), ref.states, ref.transitions)

    return _REF[key]


def check_run(cfg, st):
    'one run'

    k, pop, grd, same = cfg['strat']
    robs, states, trans = reference(cfg)

    core = model.build_core(cfg)
    strat = aggstrat.Aggregated(k)
    strat.pop_type, strat.add_guard, strat.require_same_path = pop, grd, same
    core.settings.aggstrat = strat

    iobs = {}
    steps = 0

    while not core.is_finished():
        before = list(core.aggdag.waiting_list) if core.aggdag.get_cur_state() is None else None
        core.do_step()
        steps += 1

        if steps > 20000:
            raise Violation('does not terminate')

        state = core.aggdag.get_cur_state()

        if state is None:
            continue

        dirs = poly.directions(state.lpi.dims)
        sup = model.lpi_supports(state.lpi, dirs)
        iobs.setdefault((state.mode.name, state.cur_step_in_mode), []).append((list(state.cur_steps_since_start), sup))

        if before is not None and not state.is_concrete and len(state.aggdag_op_list) > 1:
            # just aggregated: no larger than the bounding box of the parts (trimmed by the invariant)
            st.count('aggregations')
            st.count('aggregated_sets', len(state.aggdag_op_list))
            dims = state.lpi.dims
            axes = np.concatenate([np.identity(dims), -np.identity(dims)])
            parts = [model.lpi_supports(op.poststate.lpi, axes) for op in state.aggdag_op_list]
            lim = np.max(parts, axis=0)
            mine = model.lpi_supports(state.lpi, axes)

            if (mine - lim).max() > 1e-5 * max(1.0, np.abs(lim).max()):
                raise Violation(f'the aggregated set in {state.mode.name} is larger than the bounding box of its parts '
                                f'by {(mine - lim).max():.2e}')

            los = [op.poststate.cur_steps_since_start for op in state.aggdag_op_list]

            if list(state.cur_steps_since_start) != [min(x[0] for x in los), max(x[1] for x in los)]:
                raise Violation(f'step interval of the aggregated set is {state.cur_steps_since_start}, parts: {los}')


    for (mode, total, inmode), lst in sorted(robs.items()):
        for path, pts in lst:
            sup = poly.supports(pts, poly.directions(pts.shape[1]))
            tol = 1e-4 * max(1.0, float(np.abs(sup).max()))
            best = None

            for (lo, hi), isup in iobs.get((mode, inmode), []):
                if lo <= total <= hi:
                    gap = float((sup - isup).max())

                    if best is None or gap < best:
                        best = gap

            if best is None or best > tol:
                raise Violation(f'the states of mode {mode} at step {total} ({inmode} in mode) reached on path {path} are '
                                f'not covered by the aggregated computation ({"nothing there" if best is None else best})')

            st.traces += 1

    st.states += states
    st.transitions += trans
    st.count('runs')


def configs(tier):
    'the whole space'

    yield from set_configs(tier)
    yield from state_configs(tier)
    yield from run_configs(tier)


def check(cfg):
    'one configuration'

    st = Stats()

    if cfg['kind'] == 'sets':
        check_sets(cfg, st)
    elif cfg['kind'] == 'states':
        check_states(cfg, st)
    else:
        check_run(cfg, st)

    st.sample = {'kind': cfg['kind'], 'compared': st.traces}
    return st


def min_counts(_tier):
    'vacuity guard'
    return {'set_lists': 200, 'aggregations': 1000, 'runs': 500}
