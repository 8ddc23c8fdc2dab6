'C02: reachable sets of modes with time-varying inputs are exact (piecewise-constant inputs, chosen anew at every step)'

import itertools

from mc import model
from mc.c01_exact_reach import A, INV, GUARD, RESET, INIT
from mc.engine import Stats

PROP = 'C02'

DESCRIPTION = {
    'what': 'All automata of a bounded family whose modes have input sets (or which move between modes with and '
            'without inputs, and between different numbers of inputs) run through the real core step by step; every '
            'observed set equals the reference recursion X(k+1) = Phi (X(k) n Inv) + Psi U.',
    'bounds': 'dims 1-3, 0-3 inputs, polytopic input sets, up to 7 steps, one or two modes plus cycles',
    'assumptions': ['12 (2-d) / 18 (3-d) support directions, relative tolerance 1e-4', 'ties within 1e-5 not judged'],
}

INP = {
    'none': {},
    'sym': {'B': [[0], [1]], 'U': [[[1], [-1]], [0.3, 0.3]]},
    'asym': {'B': [[1], [-0.5]], 'U': [[[1], [-1]], [0.4, -0.1]]},
    'box2': {'B': [[1, 0], [0, 1]], 'U': [[[1, 0], [-1, 0], [0, 1], [0, -1]], [0.2, 0.1, 0.5, -0.3]]},
    'tri2': {'B': [[1, 0.3], [-0.2, 1]], 'U': [[[-1, 0], [0, -1], [1, 1]], [0.1, 0.0, 0.3]]},
    'three': {'B': [[1, 0, 0.5], [0, 1, -0.5]], 'U': [[[1, 0, 0], [-1, 0, 0], [0, 1, 0], [0, -1, 0], [0, 0, 1],
                                                      [0, 0, -1], [1, 1, 1]], [.1, .1, .2, 0, .3, .1, .4]]},
    'scaled': {'B': [[0.7], [0.0]], 'U': [[[2], [-4]], [0.5, 0.6]]},
}


def family_single(tier):
    'one mode'

    hs = (0.4,) if tier == 'quick' else (0.4, 0.15)

    for a, i, u, x0, h, sz in itertools.product(sorted(A), sorted(INV), sorted(INP), sorted(INIT), hs, (True, False)):
        if u == 'none' or (a != 'zero' and not sz):
            continue

        m = {'A': A[a], 'inv': INV[i]}
        m.update(INP[u])
        yield {'h': h, 'n': 6 if tier == 'quick' else 8, 'modes': {'p': m}, 'trans': [], 'init': [['p'] + INIT[x0]],
               'set': {'skip_zero_dynamics_modes': sz}}


def family_pair(tier):
    'transitions between modes with inputs'

    dyn = (('rot', 'gen'), ('dint', 'zero'), ('zero', 'spiral')) if tier == 'quick' else \
        tuple(itertools.product(('rot', 'dint', 'zero', 'gen'), ('spiral', 'zero', 'saddle', 'gen')))
    inv = (('none', 'none'), ('xle', 'two'), ('three', 'xyle'))
    inp = (('sym', 'none'), ('none', 'asym'), ('box2', 'tri2'), ('tri2', 'sym'), ('three', 'box2'), ('asym', 'three'),
           ('scaled', 'scaled'))
    guards = ('xge', 'corner', 'slice') if tier == 'quick' else ('xge', 'corner', 'slice', 'band', 'yle')
    resets = ('id', 'lin', 'mink', 'mink2') if tier == 'quick' else sorted(RESET)
    inits = ('box', 'tri') if tier == 'quick' else ('box', 'tri', 'seg', 'pt')

    for (a1, a2), (i1, i2), (u1, u2), g, r, x0, urg, back in itertools.product(
            dyn, inv, inp, guards, resets, inits, (False, True), (False, True)):
        if urg and back:
            continue

        p = {'A': A[a1], 'inv': INV[i1]}
        p.update(INP[u1])
        q = {'A': A[a2], 'inv': INV[i2]}
        q.update(INP[u2])
        t = {'from': 'p', 'to': 'q', 'guard': GUARD[g]}
        t.update(RESET[r])
        trans = [t]

        if back:
            trans.append({'from': 'q', 'to': 'p', 'guard': [[[0.3, 1], 0.11]], 'R': [[1, 0.1], [0, 0.9]]})

        yield {'h': 0.4, 'n': 4 if back else 5, 'modes': {'p': p, 'q': q}, 'trans': trans,
               'init': [['p'] + INIT[x0]], 'set': {'process_urgent_guards': urg}}


def family_dims(_tier):
    'dimension changes between modes with inputs'

    a1 = ([[0.5]], [[-0.4]], [[0.0]])
    u1 = ({}, {'B': [[1]], 'U': [[[1], [-1]], [0.2, 0.1]]},
          {'B': [[1, -2]], 'U': [[[1, 0], [-1, 0], [0, 1], [0, -1]], [0.2, 0.1, 0.05, 0.1]]})
    a3 = ([[0, 1, 0], [0, 0, 1], [0, 0, 0]], [[-0.2, 0.3, 0.1], [0, 0.25, -0.7], [0.3, 0.1, -0.1]])
    u3 = ({}, {'B': [[0], [1], [0]], 'U': [[[1], [-1]], [0.3, 0.2]]},
          {'B': [[1, 0], [0, 0], [0.5, 1]], 'U': [[[-1, -1], [1, 0], [0, 1]], [0.3, 0.1, 0.1]]})
    g = ([[[-1, 0, 0], -0.93]], [[[0.2, -1, 0.1], -0.37], [[1, 0, 0], 1.91]])
    inv3 = ([], [[[1, 0.5, 0], 1.67], [[0, 0, 1], 1.37]])

    for x1, v1, x3, v3, gg, i3, m in itertools.product(a1, u1, a3, u3, g, inv3, (0, 1)):
        if not v1 and not v3:
            continue

        p = {'A': x3, 'inv': i3}
        p.update(v3)
        q = {'A': x1, 'inv': [[[1], 2.13]]}
        q.update(v1)
        t = {'from': 'p', 'to': 'q', 'guard': gg, 'R': [[0.5, -1, 0.3]]}

        if m:
            t.update({'M': [[1, 2]], 'MC': [[[1, 1], [-1, 0], [0, -1]], [0.3, 0.0, 0.05]]})

        yield {'h': 0.5, 'n': 4, 'modes': {'p': p, 'q': q},
               'trans': [t, {'from': 'q', 'to': 'p', 'guard': [[[-1], -0.27]], 'R': [[1], [0.5], [0.2]]}],
               'init': [['p', 'box', [[0.1, 0.5], [0.2, 0.7], [0.9, 1.1]]]], 'set': {}}


def configs(tier):
    'the whole space'

    yield from family_single(tier)
    yield from family_pair(tier)
    yield from family_dims(tier)


def check(cfg):
    'compare one automaton'

    st = Stats()
    ref = model.Ref(cfg)
    robs = ref.run(urgent=cfg['set'].get('process_urgent_guards', False),
                   skip_zero=cfg['set'].get('skip_zero_dynamics_modes', True))

    if not robs:
        return st

    core = model.build_core(cfg)
    iobs = model.explore_impl(core)
    model.compare_exact(robs, iobs)

    st.states = ref.states
    st.transitions = ref.transitions
    st.traces = sum(len(v) for v in robs.values())
    st.count('jumps', ref.taken)
    st.count('input_steps', sum(len(v) for (m, _, s), v in robs.items() if s > 0 and m in ref.upoly))
    st.sample = {'sets compared': st.traces, 'jumps': ref.taken}
    return st


def min_counts(_tier):
    'vacuity guard'
    return {'jumps': 1000, 'input_steps': 5000}
