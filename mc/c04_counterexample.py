'C04: every counterexample is a genuine execution of the automaton'

import itertools
import math

from mc import model, ce
from mc.c01_exact_reach import A, INV, GUARD, RESET, INIT
from mc.c02_inputs_exact import INP
from mc.engine import Stats, Violation

from hylaa import aggstrat
from hylaa.result import replay_counterexample

PROP = 'C04'

DESCRIPTION = {
    'what': 'All automata of a bounded family with error modes (chains of 1-3 modes, branching, cycles, inputs, '
            'minkowski resets, dimension changes, up to 26 modes, 24 transitions, 12 variables, several initial sets, urgent guards, aggregation + deaggregation) '
            'are run; each counterexample is re-executed from the definition: initial set, every step with its input, '
            'invariant at every step, guard, reset, time bound, final error transition; where the public replay '
            'function supports the model it must accept the trace.',
    'bounds': 'dims 1-3 (and 9-12), up to 8 steps, up to 4 segments',
    'assumptions': ['numerical tolerance 2e-5 on every condition'],
}


def family_chain(tier):
    'p -> q -> error, p -> error'

    dyn = (('rot', 'gen'), ('dint', 'zero'), ('saddle', 'spiral'))
    inp = (('none', 'none'), ('sym', 'none'), ('none', 'box2'), ('tri2', 'asym'), ('three', 'scaled'))
    invs = (('none', 'none'), ('xle', 'two'), ('three', 'xyle'))
    errs = ([[[-1, 0], -1.53]], [[[0, 1], 0.09]], [[[-1, 0.2], -1.61], [[0.3, -1], 0.11]], [[[1, -0.5], 1.917, '==']])
    guards = ('xge', 'corner', 'slice', 'true')
    resets = ('id', 'lin', 'mink', 'mink2', 'const') if tier == 'quick' else sorted(RESET)
    inits = ('box', 'tri', 'zono') if tier == 'quick' else sorted(INIT)

    for (d1, d2), (u1, u2), (i1, i2), e, g, r, x0, urg in itertools.product(
            dyn, inp, invs, errs, guards, resets, inits, (False, True)):
        p = {'A': A[d1], 'inv': INV[i1]}
        p.update(INP[u1])
        q = {'A': A[d2], 'inv': INV[i2]}
        q.update(INP[u2])
        t = {'from': 'p', 'to': 'q', 'guard': GUARD[g]}
        t.update(RESET[r])
        # a decoy transition and a decoy mode shift the transition and mode indices
        yield {'h': 0.4, 'n': 6,
               'modes': {'decoy': {'A': A['rot']}, 'q': q, 'e': {'A': None}, 'p': p},
               'trans': [{'from': 'p', 'to': 'decoy', 'guard': [[[1, 0], -50.0]]}, t,
                         {'from': 'q', 'to': 'decoy', 'guard': [[[0, 1], -70.0]]},
                         {'from': 'q', 'to': 'e', 'guard': e}],
               'init': [['p'] + INIT[x0]], 'set': {'process_urgent_guards': urg, 'stop_on_concrete_error': True,
                                                   'make_counterexample': True}}


def family_long(tier):
    'cycles, three modes, several initial sets'

    edges = [('p', 'q', 'xge', 'lin'), ('q', 'r', 'yle', 'mink'), ('r', 'p', 'band', 'id'), ('q', 'p', 'corner', 'const')]

    for dyn, inv, (u1, u2, u3), e, src, ini, stop in itertools.product(
            (('rot', 'gen', 'dint'), ('dint', 'rot', 'spiral'), ('gen', 'dint', 'rot')),
            (('none', 'none', 'none'), ('xle', 'xyle', 'three')),
            (('none', 'none', 'none'), ('sym', 'asym', 'box2'), ('none', 'tri2', 'none')),
            ([[[-1, 0], -1.93]], [[[0, 1], -0.41]], [[[1, 1], -0.27]], [[[-1, -1], -2.61]]),
            ('p', 'q', 'r'),
            ([['p'] + INIT['box']], [['q'] + INIT['tri'], ['p'] + INIT['seg']], [['r'] + INIT['zono'], ['p'] + INIT['pt']]),
            (True, False)):
        modes = {}

        for nm, d, i, u in zip('pqr', dyn, inv, (u1, u2, u3)):
            modes[nm] = {'A': A[d], 'inv': INV[i]}
            modes[nm].update(INP[u])

        modes['e'] = {'A': None}
        trans = []

        for s, d, g, r in edges:
            t = {'from': s, 'to': d, 'guard': GUARD[g]}
            t.update(RESET[r])
            trans.append(t)

        trans.append({'from': src, 'to': 'e', 'guard': e})
        yield {'h': 0.5, 'n': 5, 'modes': modes, 'trans': trans, 'init': ini,
               'set': {'stop_on_concrete_error': stop, 'make_counterexample': True}}


def family_dims(_tier):
    'dimension changes'

    a1 = ([[0.5]], [[-0.4]])
    a3 = ([[0, 1, 0], [0, 0, 1], [0, 0, 0]], [[-0.2, 0.3, 0.1], [0, 0.25, -0.7], [0.3, 0.1, -0.1]])
    u1 = ({}, {'B': [[1, -2]], 'U': [[[1, 0], [-1, 0], [0, 1], [0, -1]], [0.2, 0.1, 0.05, 0.1]]})
    u3 = ({}, {'B': [[1, 0], [0, 0], [0.5, 1]], 'U': [[[1, 1], [-1, 0], [0, -1]], [0.3, 0.1, 0.1]]})

    for x1, x3, v1, v3, m, e, i3 in itertools.product(a1, a3, u1, u3, (0, 1), ([[[-1], -0.57]], [[[1], -0.13]], [[[-1], -0.9]]),
                                                      ([], [[[1, 0.5, 0], 1.67]])):
        p = {'A': x3, 'inv': i3}
        p.update(v3)
        q = {'A': x1}
        q.update(v1)
        t = {'from': 'p', 'to': 'q', 'guard': [[[-1, 0, 0], -0.73]], 'R': [[0.5, -0.4, 0.3]]}

        if m:
            t.update({'M': [[1, 2]], 'MC': [[[1, 1], [-1, 0], [0, -1]], [0.3, 0.0, 0.05]]})

        yield {'h': 0.5, 'n': 6, 'modes': {'p': p, 'q': q, 'e': {'A': None}},
               'trans': [t, {'from': 'q', 'to': 'e', 'guard': e}],
               'init': [['p', 'box', [[0.1, 0.5], [0.2, 0.7], [0.9, 1.1]]]],
               'set': {'stop_on_concrete_error': True, 'make_counterexample': True}}


def family_deagg(_tier):
    'counterexamples found through aggregation followed by deaggregation'

    for dyn, agg, pref, e, g, r, ini in itertools.product(
            (('dint', 'rot'), ('gen', 'dint'), ('rot', 'saddle')), (0, 1, 2), (0, 1, 2),
            ([[[-1, 0], -1.83]], [[[0, 1], 0.09]], [[[-1, 0.2], -1.61], [[0.3, -1], 0.11]]), ('xge', 'corner', 'true'),
            ('id', 'lin', 'mink'), ('box', 'tri')):
        t = {'from': 'p', 'to': 'q', 'guard': GUARD[g]}
        t.update(RESET[r])
        yield {'h': 0.3, 'n': 8, 'modes': {'p': {'A': A[dyn[0]], 'inv': INV['xle']},
                                           'q': {'A': A[dyn[1]], 'inv': []}, 'e': {'A': None}},
               'trans': [t, {'from': 'q', 'to': 'e', 'guard': e}], 'init': [['p'] + INIT[ini]],
               'agg': [agg, pref], 'set': {'stop_on_concrete_error': True, 'make_counterexample': True}}


def family_many(_tier):
    'more than ten modes, transitions of a mode, variables, inputs and fresh variables'

    for decoys, where, dyn, r, u in itertools.product((1, 9, 10, 11, 12, 23), (0, 1), (('rot', 'gen'), ('dint', 'rot')),
                                                      ('id', 'lin', 'mink'), ('none', 'three')):
        names = [f'd{k}' for k in range(decoys)]
        p = dict({'A': A[dyn[0]], 'inv': INV['xle']}, **INP[u])
        modes = {'p': p, 'q': {'A': A[dyn[1]], 'inv': []}, 'e': {'A': None}}
        some = {n: {'A': A['rot'], 'inv': []} for n in names}
        modes = dict(some, **modes) if where else dict(modes, **some)
        trans = [{'from': 'p', 'to': n, 'guard': [[[-1, 0], -50.0 - k]]} for k, n in enumerate(names)]
        trans += [{'from': 'p', 'to': 'q', 'guard': GUARD['xge'], **RESET[r]}]
        trans += [{'from': 'q', 'to': n, 'guard': [[[0, -1], -50.0 - k]]} for k, n in enumerate(names)]
        trans += [{'from': 'q', 'to': 'e', 'guard': g} for g in ([[[-1, 0], -90.0]], [[[0, 1], 0.09]])]
        yield {'h': 0.4, 'n': 6, 'modes': modes, 'trans': trans, 'init': [['p'] + INIT['box']],
               'set': {'stop_on_concrete_error': True, 'make_counterexample': True}}

    for dims, inputs, fresh in itertools.product((9, 10, 11, 12), (0, 1, 10, 11), (0, 10, 11)):
        mat = [[0.0] * dims for _ in range(dims)]

        for k in range(dims):
            mat[k][k] = 0.1 - 0.07 * k
            mat[k][(k + 1) % dims] = 0.4

        p = {'A': mat, 'inv': [[[1] + [0] * (dims - 1), 1.6]]}

        if inputs:
            p['B'] = [[1.0 if k % dims == d else 0.25 if k == d + 1 else 0.0 for k in range(inputs)] for d in range(dims)]
            p['U'] = [[[sgn if k == j else 0 for k in range(inputs)] for j in range(inputs) for sgn in (1, -1)],
                      [b for j in range(inputs) for b in (0.05 + 0.01 * j, 0.02 * j)]]

        q = {'A': [row[::-1] for row in mat[::-1]], 'inv': []}
        t = {'from': 'p', 'to': 'q', 'guard': [[[-1] + [0] * (dims - 1), -1.03]]}

        if fresh:
            t.update({'R': [[1.0 if i == j else 0.0 for j in range(dims)] for i in range(dims)],
                      'M': [[1.0 if i == (j + 1) % dims else 0.0 for j in range(fresh)] for i in range(dims)],
                      'MC': [[[sgn if k == j else 0 for k in range(fresh)] for j in range(fresh) for sgn in (1, -1)],
                             [b for j in range(fresh) for b in (0.02 + 0.01 * j, 0.0)]]})

        yield {'h': 0.4, 'n': 6, 'modes': {'p': p, 'q': q, 'e': {'A': None}},
               'trans': [t, {'from': 'q', 'to': 'e', 'guard': [[[0] * (dims - 1) + [-1], -1.02]]}],
               'init': [['p', 'box', [[0.5, 1.0 if k < 3 else 0.5] for k in range(dims)]]],
               'set': {'stop_on_concrete_error': True, 'make_counterexample': True}}


def configs(tier):
    'the whole space'

    families = (family_many, family_chain, family_long, family_dims, family_deagg)

    for k, cfg in enumerate(cfg for family in families for cfg in family(tier)):
        if k % 3 == 1: # the transition into the error mode has a reset, too
            for t in cfg['trans']:
                if t['to'] == 'e':
                    dims = len(cfg['modes'][t['from']]['A'])
                    t['R'] = [[0.5 - 0.3 * i + j for i in range(dims)] for j in range(dims)]

                    if k % 2:
                        t.update({'M': [[1.0]] * len(t['R']), 'MC': [[[1], [-1]], [0.2, 0.1]]})

        yield cfg


def check(cfg):
    'validate the counterexample of one automaton'

    st = Stats()
    urgent = cfg['set'].get('process_urgent_guards', False)
    core = model.build_core(cfg)

    if 'agg' in cfg:
        strat = aggstrat.Aggregated(cfg['agg'][0], deaggregate=True)
        strat.deagg_preference = cfg['agg'][1]
        core.settings.aggstrat = strat

    steps = 0

    while not core.is_finished():
        core.do_step()
        steps += 1

        if core.aggdag.get_cur_state() is not None:
            st.states += 1

        if steps > 20000:
            raise Violation('does not terminate')

    st.transitions = steps
    res = core.result

    if not res.has_concrete_error:
        if res.counterexample:
            raise Violation('counterexample without a concrete error')

        st.count('safe')
        return st

    ce.validate(cfg, res.counterexample, urgent)
    st.traces = 1
    st.count('validated')
    st.count('segments', len(res.counterexample))

    if 'agg' in cfg:
        st.count('validated_deaggregated')

    plain = all(m.get('B') is None for m in cfg['modes'].values()) and all(t.get('M') is None for t in cfg['trans'])

    if plain:
        # the library's own replay must accept it
        pts, times = replay_counterexample(res.counterexample, core.hybrid_automaton, core.settings)
        end = res.counterexample[-1].end
        total = sum(s.steps for s in res.counterexample) * cfg['h']

        if not any(max(abs(a - b) for a, b in zip(p, end)) < 1e-4 for p in pts if len(p) == len(end)):
            raise Violation('replay_counterexample does not pass through the final state')
        if len(pts) != len(times) or not math.isclose(max(times), total, rel_tol=1e-9, abs_tol=1e-9):
            raise Violation(f'replay_counterexample: times end at {max(times)} and not {total}')

        st.count('library_replays')

    st.sample = {'segments': [[s.mode.name, [float(x) for x in s.start], int(s.steps)] for s in res.counterexample]}
    return st


def min_counts(_tier):
    'vacuity guard'
    return {'validated': 1000, 'validated_deaggregated': 30, 'library_replays': 50}
