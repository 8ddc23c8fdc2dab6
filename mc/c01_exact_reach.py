'C01: unaggregated reachable sets are exactly the discrete-time semantics, on every path and at every step'

import itertools

from mc import model
from mc.engine import Stats

PROP = 'C01'

DESCRIPTION = {
    'what': 'Every automaton of the bounded family below is run through the real computation core one do_step() at a '
            'time (unaggregated); the multiset of observed (mode, step, steps in mode, set) is compared, by support '
            'functions, with the one enumerated by the explicit-state reference model (vertex polytopes).',
    'bounds': 'dims 1-4, 2-4 modes, 1-5 transitions, up to 10 steps, all products of the alphabets in '
              'mc/c01_exact_reach.py (dynamics x invariants x guards x resets x initial sets x urgent flag)',
    'assumptions': ['sets are compared through 12-24 support directions with relative tolerance 1e-4',
                    'configurations where a guard or invariant touches a set within 1e-5 are not judged',
                    'GLPK solves these small LPs to its default tolerances'],
}

# ---- alphabets (2-d)
A = {
    'dint': [[0, 1], [0, 0]],
    'rot': [[0, 1], [-1, 0]],
    'spiral': [[-0.2, 1.1], [-0.9, -0.3]],
    'saddle': [[0.3, 0], [0, -0.5]],
    'gen': [[0.1, -0.7], [0.4, 0.2]],
    'zero': [[0, 0], [0, 0]],
}

INV = {
    'none': [],
    'xle': [[[1, 0], 2.03]],
    'xyle': [[[1, 1], 3.07]],
    'two': [[[1, 0.3], 2.41], [[0, -1], 0.63]],
    'three': [[[1, 0], 2.53], [[-1, 0.2], 0.91], [[0.1, -1], 1.23]],
}

GUARD = {
    'xge': [[[-1, 0], -1.31]],
    'yle': [[[0.1, 1], 0.47]],
    'band': [[[-1, 0], -0.83], [[1, 0], 1.77]],
    'corner': [[[-1, 0.2], -0.79], [[0.3, -1], -0.21]],
    'slice': [[[1, -0.5], 0.617, '==']],
    'true': [],
}

RESET = {
    'id': {},
    'swap': {'R': [[0, 1], [1, 0]]},
    'lin': {'R': [[0.5, -0.25], [0.3, 0.8]]},
    'collapse': {'R': [[1, 0], [0, 0]]},
    'mink': {'R': [[1, 0], [0, 0]], 'M': [[0], [1]], 'MC': [[[1], [-1]], [0.6, -0.2]]},
    'mink2': {'M': [[1, 0.5], [0, 1]], 'MC': [[[1, 0], [-1, 0], [0, 1], [0, -1], [1, 1]], [0.2, 0.1, 0.3, 0.1, 0.4]]},
    'const': {'R': [[0, 0], [0, 1]], 'M': [[1], [0]], 'MC': [[[1], [-1]], [0.413, -0.413]]},
}

INIT = {
    'box': ['box', [[0.1, 0.9], [0.4, 1.2]]],
    'seg': ['box', [[0.3, 0.3], [0.2, 1.3]]],
    'pt': ['box', [[0.57, 0.57], [0.83, 0.83]]],
    'tri': ['con', [[[-1, 0], [0, -1], [1, 1]], [0.12, -0.21, 1.58]]],
    'zono': ['zono', [[0.5, 0.7], [[0.3, 0.1], [-0.1, 0.25], [0.15, 0.15]]]],
}


def family_pair(dyn1, dyn2, inv1, inv2, guards, resets, inits, urgents, nsteps, h):
    'mode p -> mode q'

    for a1, a2, i1, i2, g, r, x0, u in itertools.product(dyn1, dyn2, inv1, inv2, guards, resets, inits, urgents):
        t = {'from': 'p', 'to': 'q', 'guard': GUARD[g]}
        t.update(RESET[r])
        yield {'h': h, 'n': nsteps,
               'modes': {'p': {'A': A[a1], 'inv': INV[i1]}, 'q': {'A': A[a2], 'inv': INV[i2]}},
               'trans': [t], 'init': [['p'] + INIT[x0]], 'set': {'process_urgent_guards': u}}


def family_topology(tier):
    'several modes and transitions: branching, joining, self loops, cycles, error modes, several initial sets'

    tops = {
        'branch': [('p', 'q'), ('p', 'r')],
        'diamond': [('p', 'q'), ('p', 'r'), ('q', 's'), ('r', 's')],
        'loop': [('p', 'p'), ('p', 'q')],
        'cycle': [('p', 'q'), ('q', 'p')],
        'dup': [('p', 'q'), ('p', 'q')],
        'err': [('p', 'e'), ('p', 'q'), ('q', 'e')],
        'mix': [('p', 'q'), ('q', 'r'), ('r', 'p'), ('q', 'e'), ('p', 'p')],
    }
    dyns = [('dint', 'rot', 'gen', 'saddle'), ('rot', 'gen', 'zero', 'dint'), ('spiral', 'zero', 'rot', 'rot')]
    glists = [('xge', 'yle', 'corner', 'band', 'slice'), ('band', 'xge', 'slice', 'yle', 'corner'),
              ('slice', 'band', 'xge', 'corner', 'yle')]
    rlists = [('id', 'id', 'id', 'id', 'id'), ('lin', 'mink', 'id', 'swap', 'const'),
              ('const', 'id', 'mink', 'lin', 'collapse')]
    ilists = [('none', 'none', 'none', 'none'), ('xle', 'two', 'none', 'xyle'), ('three', 'none', 'xle', 'two')]
    inits = [[['p'] + INIT['box']], [['p'] + INIT['tri'], ['q'] + INIT['seg']], [['p'] + INIT['pt']],
             [['q'] + INIT['box'], ['p'] + INIT['zono'], ['p'] + INIT['pt']]]
    ns = [4] if tier == 'quick' else [4, 5]

    for (_, edges), dyn, gl, rl, il, ini, u, n in itertools.product(
            sorted(tops.items()), dyns, glists, rlists, ilists, inits, (False, True), ns):
        names = sorted({x for e in edges for x in e} | {'p', 'q'})
        modes = {}

        for k, nm in enumerate(x for x in names if x != 'e'):
            modes[nm] = {'A': A[dyn[k]], 'inv': INV[il[k]]}

        if 'e' in names:
            modes['e'] = {'A': None}

        trans = []

        for k, (s, d) in enumerate(edges):
            t = {'from': s, 'to': d, 'guard': GUARD[gl[k]]}
            t.update(RESET[rl[k]])
            trans.append(t)

        if u and any(s == d for s, d in edges):
            # an urgent self loop can be taken for ever without time passing (zeno): not a terminating computation
            continue

        if u and _instant_cycle(edges):
            continue

        yield {'h': 0.4, 'n': n, 'modes': modes, 'trans': trans, 'init': ini, 'set': {'process_urgent_guards': u}}


def _instant_cycle(edges):
    'does the graph have a cycle?'

    nodes = {x for e in edges for x in e}
    while True:
        leafs = {n for n in nodes if not any(s == n and d in nodes for s, d in edges)}
        if not leafs:
            return bool(nodes)
        nodes -= leafs


def family_dims(tier):
    'dimension changing resets, 1-d / 3-d / 4-d modes with affine variables'

    a1 = [[[0.5]], [[-0.4]], [[0.0]]]
    a3 = [[[0, 1, 0], [0, 0, 1], [0, 0, 0]], [[0.1, 1, 0], [-1, 0, 0.2], [0, 0, 0]],
          [[-0.2, 0.3, 0.1], [0, 0.25, -0.7], [0.3, 0.1, -0.1]]]
    a4 = [[[0, 1, 0, 0], [-1, 0, 0, 1], [0, 0, 0, 1], [0, 0, 0, 0]]]
    g3 = [[[[-1, 0, 0], -0.93]], [[[0.2, -1, 0.1], -0.37], [[1, 0, 0], 1.91]], []]
    r31 = [[[1, 0, 0]], [[0.5, -1, 0.3]]]
    i3 = [[['box', [[0.1, 0.5], [0.2, 0.7], [1, 1]]], 'aff'], [['box', [[0, 0.4], [0.3, 0.3], [0.1, 0.6]]], 'full']]
    inv1 = [[], [[[1], 1.47]], [[[1], 1.83], [[-1], 0.21]]]
    inv3 = [[], [[[1, 0, 0], 1.29]], [[[1, 0.5, 0], 1.67], [[0, 0, 1], 1.37]]]
    mink = [{}, {'M': [[1]], 'MC': [[[1], [-1]], [0.25, 0.1]]}, {'M': [[1, 2]], 'MC': [[[1, 1], [-1, 0], [0, -1]],
                                                                                      [0.3, 0.0, 0.05]]}]
    n = 5

    for x3, (ini, _), g, r, mk, y1, v1, v3 in itertools.product(a3, i3, g3, r31, mink, a1, inv1, inv3):
        t = {'from': 'p', 'to': 'q', 'guard': g, 'R': r}
        t.update(mk)
        yield {'h': 0.5, 'n': n, 'modes': {'p': {'A': x3, 'inv': v3}, 'q': {'A': y1, 'inv': v1}}, 'trans': [t],
               'init': [['p'] + ini], 'set': {}}

    # grow 1 -> 3 -> 1, and 2 -> 4
    for y1, x3, g, mk, v3, v1 in itertools.product(a1, a3, ([[[-1], -0.61]], [[[1], 0.71]], []), (0, 1), inv3, inv1):
        t1 = {'from': 'p', 'to': 'q', 'guard': g, 'R': [[1], [0.5], [0]]}
        t2 = {'from': 'q', 'to': 'p', 'guard': [[[-1, 0, 0.3], -1.03]], 'R': [[0.4, 0, 0.1]]}

        if mk:
            t1.update({'M': [[0], [0], [1]], 'MC': [[[1], [-1]], [1.0, -0.8]]})

        yield {'h': 0.5, 'n': n, 'modes': {'p': {'A': y1, 'inv': v1}, 'q': {'A': x3, 'inv': v3}}, 'trans': [t1, t2],
               'init': [['p', 'box', [[0.3, 0.8]]]], 'set': {}}

    for x4, dyn, g, v in itertools.product(a4, ('rot', 'dint', 'gen'), ('xge', 'yle', 'true'), ('none', 'xle')):
        yield {'h': 0.5, 'n': n,
               'modes': {'p': {'A': A[dyn], 'inv': INV[v]},
                         'q': {'A': x4, 'inv': [[[0, 0, 1, 0], 1.41]]}},
               'trans': [{'from': 'p', 'to': 'q', 'guard': GUARD[g], 'R': [[0, 1], [1, 0], [0, 0], [0, 0]],
                          'M': [[0, 0], [0, 0], [1, 0], [0, 1]],
                          'MC': [[[1, 0], [-1, 0], [0, 1], [0, -1]], [0.3, 0, 1, -1]]},
                         {'from': 'q', 'to': 'p', 'guard': [[[0, 0, -1, 0], -0.9]],
                          'R': [[1, 0, 0, 0], [0, 0, 0.5, 0.1]]}],
               'init': [['p'] + INIT['box']], 'set': {}}


def family_turn(tier):
    '''sets that turn around, so that an invariant condition cuts at several steps and earlier cuts remain relevant after
    later ones (with guards and resets in between)'''

    quick = tier == 'quick'
    dyns = ([[0, 1], [-1, 0]], [[-0.1, 1.3], [-0.9, 0.1]], [[0.2, -1], [1.1, -0.3]])
    invs = ([[[1, 0], 1.21]], [[[-0.4, 1], 0.83]], [[[1, 0], 1.09], [[0.2, -1], 0.97]],
            [[[-1, 0.1], 0.71], [[0.5, 1], 1.33], [[1, -1], 1.07]])
    inits = (['box', [[-0.5, 0.5], [0.5, 2.0]]], ['box', [[-1.4, 0.3], [-0.2, 1.1]]],
             ['con', [[[-1, 0], [0, -1], [1, 1]], [0.9, 0.4, 1.9]]])
    trans = (None, ([[[-0.3, -1], -0.31]], {}), ([[[0.9, -0.2], 0.27]], {'R': [[1, 0.2], [-0.1, 0.9]]}))

    for a, inv, ini, tr, h, back in itertools.product(dyns, invs, inits, trans, (0.4, 0.7) if quick else (0.25, 0.4, 0.7),
                                                      (False, True)):
        if back and tr is None:
            continue

        n = (9 if h < 0.5 else 7) + (0 if quick else 4)
        tl = []

        if tr is not None:
            tl.append({'from': 'p', 'to': 'q', 'guard': tr[0], **tr[1]})
            n = 5 if back else 7

            if back:
                tl.append({'from': 'q', 'to': 'p', 'guard': [[[0.4, 1], 0.23]]})

        yield {'h': h, 'n': n, 'modes': {'p': {'A': a, 'inv': inv}, 'q': {'A': dyns[0], 'inv': invs[2]}},
               'trans': tl, 'init': [['p'] + ini], 'set': {}}

    # 3-d
    a3 = [[[0, 1, 0], [-1, 0, 0.3], [0, 0, -0.2]], [[0.1, 0.9, 0], [-0.8, 0, 0.5], [0.2, -0.6, 0]]]
    i3 = [[[[1, 0, 0.1], 0.87]], [[[1, 0, 0], 0.83], [[0, 0.3, 1], 0.91]]]

    for a, inv, h in itertools.product(a3, i3, (0.4, 0.7)):
        yield {'h': h, 'n': 9, 'modes': {'p': {'A': a, 'inv': inv}}, 'trans': [],
               'init': [['p', 'box', [[-0.3, 0.5], [0.2, 1.3], [0.4, 0.9]]]], 'set': {}}


def configs(tier):
    'the whole space'

    if tier == 'quick':
        yield from family_pair(('dint', 'rot', 'spiral'), ('rot', 'saddle', 'zero'), ('none', 'xle', 'three'),
                               ('none', 'two'), ('xge', 'corner', 'slice', 'true'), ('id', 'lin', 'mink', 'const'),
                               ('box', 'tri', 'seg'), (False, True), 5, 0.4)
    else:
        yield from family_pair(sorted(A), sorted(A), sorted(INV), ('none', 'two', 'xyle'), sorted(GUARD),
                               sorted(RESET), sorted(INIT), (False, True), 6, 0.4)

    yield from family_turn(tier)
    yield from family_topology(tier)
    yield from family_dims(tier)


def check(cfg):
    'compare one automaton'

    st = Stats()
    ref = model.Ref(cfg)
    robs = ref.run(urgent=cfg['set'].get('process_urgent_guards', False))

    if not robs:
        st.count('empty')
        return st

    core = model.build_core(cfg)
    iobs = model.explore_impl(core)
    model.compare_exact(robs, iobs)

    if bool(ref.error_hits) != bool(core.result.has_concrete_error):
        raise model.Violation(f'error mode reachable in the model: {bool(ref.error_hits)}, reported: '
                              f'{core.result.has_concrete_error}')

    st.states = ref.states
    st.transitions = ref.transitions
    st.traces = sum(len(v) for v in robs.values())
    st.count('jumps', ref.taken)
    st.count('automata')
    st.sample = {'sets compared': st.traces, 'jumps': ref.taken}
    return st


def min_counts(_tier):
    'vacuity guard'
    return {'jumps': 1000, 'automata': 1000}
