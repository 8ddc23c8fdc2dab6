'C06: deaggregation refines exactly: error states and verdicts are those without aggregation'

import itertools

import numpy as np

from mc import model, poly
from mc.c01_exact_reach import A, INV, GUARD, RESET, INIT
from mc.c02_inputs_exact import INP
from mc.engine import Stats, Violation

from hylaa import aggstrat

PROP = 'C06'

DESCRIPTION = {
    'what': 'Every automaton of the family is run to the end with aggregation and deaggregation under every combination '
            'of aggregation type, pop order, deaggregation preference, guard direction and same-path setting. The sets '
            'that finally enter an error mode must be exactly those the path-wise reference reaches (same step, same '
            'transition, same set, all of them concrete), and the verdict must be that of the reference.',
    'bounds': '2-d and 3-d, 3-4 modes + errors, up to 3 nested aggregations, 4-8 steps',
    'assumptions': ['12 support directions, tolerance 1e-4', 'configurations with ties within 1e-5 are not judged'],
}


def strategies():
    'all strategy settings'

    return list(itertools.product((0, 1, 2), (0, 1, 2), (0, 1, 2), (True, False), (True, False)))


def automata(tier):
    'the automata: name, spec'

    quick = tier == 'quick'
    ths = (-0.9, -1.6, -2.1, -2.6) if quick else (-0.7, -0.9, -1.2, -1.6, -1.9, -2.1, -2.4, -2.6, -3.1)

    # chain with nested aggregation, errors leaving every mode
    for d, u, r, th, src in itertools.product((('dint', 'rot', 'gen'), ('rot', 'zero', 'dint')),
                                              (('none', 'none', 'none'), ('sym', 'none', 'box2')), ('lin', 'mink'),
                                              ths, ('q', 'r')):
        modes = {}

        for nm, a, i in zip('pqr', d, u):
            modes[nm] = {'A': A[a], 'inv': INV['xle'] if nm == 'p' else INV['none'] if nm == 'q' else INV['xyle']}
            modes[nm].update(INP[i])

        modes['e'] = {'A': None}
        yield 'chain', {'h': 0.3, 'n': 5, 'modes': modes,
                        'trans': [{'from': 'p', 'to': 'q', 'guard': GUARD['xge'], **RESET[r]},
                                  {'from': 'q', 'to': 'r', 'guard': GUARD['corner'], **RESET['id']},
                                  {'from': src, 'to': 'e', 'guard': [[[-1, -0.4], th]]}],
                        'init': [['p'] + INIT['box']], 'set': {}}

    # joins: two predecessors, two transitions between the same modes, a diamond whose tip is aggregated
    for d, th, ini, g2 in itertools.product((('dint', 'rot', 'gen', 'saddle'), ('rot', 'gen', 'dint', 'spiral')), ths,
                                            (('p',), ('p', 'q'), ('q', 'r', 'p')), ('corner', 'yle')):
        modes = {nm: {'A': A[x], 'inv': INV['xle'] if nm == 'p' else []} for nm, x in zip('pqrs', d)}
        modes['e'] = {'A': None}
        modes['f'] = {'A': None}
        yield 'join', {'h': 0.35, 'n': 4, 'modes': modes,
                       'trans': [{'from': 'p', 'to': 'q', 'guard': GUARD['xge'], **RESET['lin']},
                                 {'from': 'p', 'to': 'r', 'guard': GUARD[g2], **RESET['id']},
                                 {'from': 'q', 'to': 's', 'guard': GUARD['true'], **RESET['swap']},
                                 {'from': 'r', 'to': 's', 'guard': GUARD['band'], **RESET['id']},
                                 {'from': 's', 'to': 'e', 'guard': [[[-1, -0.4], th]]},
                                 {'from': 'q', 'to': 'f', 'guard': [[[0.3, -1], th + 0.4]]}],
                       'init': [[m] + INIT[x] for m, x in zip(ini, ('box', 'tri', 'seg'))], 'set': {}}

    # transitions taken upon entering a mode
    for d, th, ini, g2 in itertools.product((('dint', 'rot', 'gen', 'saddle'), ('rot', 'gen', 'dint', 'spiral')), ths,
                                            (('p',), ('q', 'r', 'p')), ('corner', 'yle')):
        modes = {nm: {'A': A[x], 'inv': INV['xle'] if nm == 'p' else []} for nm, x in zip('pqrs', d)}
        modes['e'] = {'A': None}
        yield 'urgent', {'h': 0.3, 'n': 4, 'modes': modes,
                         'trans': [{'from': 'p', 'to': 'q', 'guard': GUARD['xge'], **RESET['lin']},
                                   {'from': 'q', 'to': 'r', 'guard': GUARD[g2], **RESET['id']},
                                   {'from': 'q', 'to': 's', 'guard': GUARD['true'], **RESET['swap']},
                                   {'from': 'r', 'to': 's', 'guard': GUARD['band'], **RESET['id']},
                                   {'from': 'r', 'to': 'e', 'guard': [[[-1, -0.4], th]]},
                                   {'from': 's', 'to': 'e', 'guard': [[[-1, -0.4], th + 0.3]]}],
                         'init': [[m] + INIT[x] for m, x in zip(ini, ('box', 'tri', 'seg'))],
                         'set': {'process_urgent_guards': True}}

    # cycle
    for d, th in itertools.product((('dint', 'rot'), ('gen', 'dint')), ths):
        yield 'cycle', {'h': 0.4, 'n': 4,
                        'modes': {'p': {'A': A[d[0]], 'inv': INV['three']}, 'q': {'A': A[d[1]]}, 'e': {'A': None}},
                        'trans': [{'from': 'p', 'to': 'q', 'guard': GUARD['xge'], **RESET['lin']},
                                  {'from': 'q', 'to': 'p', 'guard': GUARD['band'], **RESET['id']},
                                  {'from': 'q', 'to': 'e', 'guard': [[[-1, -0.4], th]]},
                                  {'from': 'p', 'to': 'e', 'guard': [[[-0.3, -1], th]]}],
                        'init': [['p'] + INIT['box']], 'set': {}}

    # a merged set is left several steps after it was entered, and again later, with inputs at every step
    for d, u, th, inv, two in itertools.product(('rot', 'spiral'), ('none', 'sym', 'asym', 'tri2'), (-0.9, -1.3, -1.7) if quick else
                                                (-0.7, -0.9, -1.1, -1.3, -1.5, -1.7, -2.0), ('none', 'xyle'), (False, True)):
        q = {'A': A[d], 'inv': INV[inv]}
        q.update(INP[u])
        yield 'late', {'h': 0.45, 'n': 7 if u == 'none' else 6,
                       'modes': {'p': {'A': A['dint'], 'inv': INV['xle']}, 'q': q, 'r': {'A': A['gen']}, 'e': {'A': None},
                                 'f': {'A': None}},
                       'trans': [{'from': 'p', 'to': 'q', 'guard': GUARD['xge'], **RESET['id']},
                                 {'from': 'q', 'to': 'e', 'guard': [[[1, 0.2], th]]}] +
                                ([{'from': 'q', 'to': 'r', 'guard': [[[-0.3, 1], -0.8]], **RESET['id']},
                                  {'from': 'r', 'to': 'f', 'guard': [[[1, 0.3], th]]}] if two else []),
                       'init': [['p'] + INIT['box']], 'set': {}}

    # parts of a merged set leave the invariant before others, some steps after they were merged
    for c, th, two, inp in itertools.product((1.05, 1.23, 1.37, 1.9), (2.42, 2.56, 2.87), (False, True), (False, True)):
        q = {'A': [[0, 0, 0.3], [0, 0, 0.5], [0, 0, 0]], 'inv': [[[0.1, 1, 0], c + 0.2]]}

        if inp:
            q.update({'B': [[0.1], [-0.2], [0]], 'U': [[[1], [-1]], [0.2, 0.1]]})

        yield 'leave', {'h': 1.0, 'n': 6,
                        'modes': {'p': {'A': [[0, 0, 2], [0, 0, 0.6], [0, 0, 0]], 'inv': [[[1, 0, 0], 3.51 if two else 1.51]]},
                                  'q': q, 'e': {'A': None}},
                        'trans': [{'from': 'p', 'to': 'q', 'guard': [[[-1, 0, 0], 0.49]]},
                                  {'from': 'q', 'to': 'e', 'guard': [[[-1, 0, 0], -th]]}],
                        'init': [['p', 'box', [[-2, -1.8], [-0.47, -0.3 if two else -0.17], [1, 1]]]], 'set': {}}


def configs(tier):
    'automata x strategies'

    strats = strategies()

    for k, (name, spec) in enumerate(automata(tier)):
        # quick: every strategy meets every kind of automaton, each automaton meets a third of the strategies
        for j, s in enumerate(strats):
            if tier != 'quick' or (j + k) % 3 == 0:
                yield dict(spec, kind=name, strat=list(s))


_REF = {}


def reference(cfg):
    'error hits of the reference: {(error transition, total): [vertices]}'

    key = repr((cfg['h'], cfg['n'], cfg['modes'], cfg['trans'], cfg['init'], cfg['set']))

    if key not in _REF:
        ref = model.Ref(cfg)
        obs = ref.run(urgent=bool(cfg['set'].get('process_urgent_guards')), max_states=60000)
        hits = {}

        # the state of each hit: the observed set on that path intersected with the guard
        by_path = {}

        for (mode, total, _), lst in obs.items():
            for path, pts in lst:
                by_path[(path, total, mode)] = pts

        for path, total, i in ref.error_hits:
            t = cfg['trans'][i]
            pts = by_path.get((path, total, t['from']))
            val = None if pts is None else poly.clip_all(pts, t['guard'])
            hits.setdefault((t['to'], total), []).append((path, val))

        _REF.clear()
        _REF[key] = (hits, ref.states, ref.transitions)

    return _REF[key]


def check(cfg):
    'one run'

    st = Stats()
    hits, _, _ = reference(cfg)

    core = model.build_core(cfg)
    kind, pop, pref, grd, same = cfg['strat']
    strat = aggstrat.Aggregated(kind, deaggregate=True)
    strat.pop_type, strat.deagg_preference, strat.add_guard, strat.require_same_path = pop, pref, grd, same
    core.settings.aggstrat = strat

    got = {}
    last = None
    steps = 0

    while not core.is_finished():
        core.do_step()
        steps += 1

        if steps > 20000:
            raise Violation('does not terminate')

        cur = core.aggdag.get_cur_state()

        if cur is not None:
            st.states += 1

        pop = core.result.last_cur_state

        if pop is not None and pop is not last:
            last = pop

            if pop.mode.is_error():
                lo, hi = pop.cur_steps_since_start

                if lo != hi or not pop.is_concrete:
                    raise Violation(f'an aggregated set (steps {lo}-{hi}) was left in error mode {pop.mode.name}')

                if lo > cfg['n']:
                    raise Violation(f'an error is reported at step {lo}, past the bound of {cfg["n"]}')

                got.setdefault((pop.mode.name, int(lo)), []).append(
                    model.lpi_supports(pop.lpi, poly.directions(pop.lpi.dims)))

    st.transitions = steps

    for key, lst in sorted(hits.items()):
        for path, pts in lst:
            st.traces += 1

            if pts is None: # through a zero-dynamics mode: the set at the hit is not observed, only the step
                if key not in got:
                    raise Violation(f'error {key} on path {path} is never reached')
                continue

            want = poly.supports(pts, poly.directions(pts.shape[1]))

            if not any(close(want, g) for g in got.get(key, [])):
                raise Violation(f'error mode and step {key}: the set reached on path {path} is not among the '
                                f'{len(got.get(key, []))} sets found after deaggregation')

    for key, lst in sorted(got.items()):
        if key not in hits:
            raise Violation(f'error mode and step {key} are reported, but not reachable')

        if len(lst) != len(hits[key]):
            raise Violation(f'error mode and step {key}: reached on {len(hits[key])} paths, but reported {len(lst)} times')

        if any(p is None for _, p in hits[key]):
            continue

        wants = [poly.supports(p, poly.directions(p.shape[1])) for _, p in hits[key]]

        for g in lst:
            if not any(close(w, g) for w in wants):
                raise Violation(f'error mode and step {key}: a set is reported that no path reaches')

    if core.result.has_concrete_error != bool(hits):
        raise Violation(f'verdict: concrete error {core.result.has_concrete_error}, but the reference reaches an error: '
                        f'{bool(hits)}')

    st.count('unsafe' if hits else 'safe')
    st.count('error_sets', sum(len(x) for x in got.values()))

    if core.result.has_aggregated_error:
        st.count('deaggregated')
        if not hits:
            st.count('spurious_errors_refuted')

    st.sample = {'errors': sorted(str(k) for k in got)[:3]}
    return st


def close(a, b):
    'equal supports'

    return len(a) == len(b) and float(np.abs(a - b).max()) <= 1e-4 * max(1.0, float(np.abs(a).max()))


def min_counts(_tier):
    'vacuity guard'
    return {'unsafe': 300, 'safe': 300, 'deaggregated': 300, 'spurious_errors_refuted': 20}
