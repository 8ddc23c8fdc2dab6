'C12: time-elapse matrices are right for every order of queries'

import copy
import itertools
import math

import numpy as np
from scipy.sparse import csr_matrix

from mc import model, poly
from mc.engine import Stats, Violation

from hylaa import lputil
from hylaa.core import Core
from hylaa.hybrid_automaton import HybridAutomaton
from hylaa.stateset import StateSet

PROP = 'C12'

DESCRIPTION = {
    'what': 'Every sequence of queried step numbers (with the change to the lgg input model at every position, with one or '
            'two interleaved modes) up to the depth, on every system of the family: after each query both matrices must '
            'equal the matrix exponential and the input integral of that step (series in extended precision) and earlier '
            'answers must not have changed. And every sequence of operations (single steps, jumps, cuts by the invariant) '
            'on two interleaved state sets of the same mode, each compared with vertex polytopes after each operation.',
    'bounds': 'query depth 4 over {0,1,2,3,7} (thorough: 5 over {0,1,2,3,5,8}); operation depth 4 (thorough 5); dims 1-12, 0-3 inputs',
    'assumptions': ['matrices are compared with relative tolerance 1e-8'],
}

SYS = {
    'scalar': ([[-0.7]], None),
    'scalarin': ([[0.4]], [[1.5]]),
    'zero': ([[0, 0], [0, 0]], None),
    'zeroin': ([[0, 0], [0, 0]], [[1, 0], [0.5, 2]]),
    'rot': ([[0, 1], [-1, 0]], [[0], [1]]),
    'nilp': ([[0, 1, 0], [0, 0, 1], [0, 0, 0]], [[0], [0], [1]]),
    'gap': ([[0, 1, 0], [-2, -0.3, 0], [0, 0, 0]], [[0, 0, 1], [0, 0, -1], [0, 0, 0.5]]), # input columns without effect
    'wide': ([[-0.2, 0.9], [-1.3, 0.1]], [[1, 0, 0.3], [0, -1, 0.7]]),
    'stiff': ([[-30, 29.5], [0, -0.5]], [[1], [2]]),
    'saddle': ([[1.2, 0.3], [0.1, -0.8]], None),
    'chain': ([[-1 if i == j else 1.5 if j == i - 1 else 0 for j in range(12)] for i in range(12)],
              [[1 if i == 0 else 0, 0.3 if i == 7 else 0] for i in range(12)]),
}



def series(a, b, t):
    'exp(A t), integral of exp(A s) B over [0, t]: Taylor series with halving, extended precision'

    a = np.array(a, dtype=np.longdouble)
    n = len(a)
    halvings = max(0, int(math.ceil(math.log2(max(1e-9, float(np.abs(a).sum()) * t)))) + 3)
    s = np.longdouble(t) / 2**halvings
    phi = np.identity(n, dtype=np.longdouble)
    integ = phi * s
    term = phi.copy()

    for k in range(1, 30):
        term = term @ a * (s / k)
        phi = phi + term
        integ = integ + term * (s / (k + 1))

    for _ in range(halvings):
        integ = integ + phi @ integ
        phi = phi @ phi

    return phi, None if b is None else integ @ np.array(b, dtype=np.longdouble)


_REF = {}


def reference(name, h, k, lgg):
    'the two matrices at step k'

    key = (name, h, k, lgg)

    if key not in _REF:
        a, b = SYS[name]
        phi, _ = series(a, b, h * k)
        ie = None

        if k > 0 and b is not None:
            prev, _ = series(a, b, h * (k - 1))
            ie = np.hstack([prev @ (np.array(b, dtype=float) * h), prev]) if lgg else prev @ series(a, b, h)[1]
            ie = np.array(ie, dtype=float)

        _REF[key] = (np.array(phi, dtype=float), ie)

    return _REF[key]


def make_mode(ha, name, h, form='list'):
    'a mode with the dynamics'

    a, b = SYS[name]
    m = ha.new_mode(name + str(len(ha.modes)))

    if form == 'csr':
        a = csr_matrix(np.array(a, dtype=float))
        b = None if b is None else csr_matrix(np.array(b, dtype=float))

    m.set_dynamics(a)

    if b is not None:
        k = len(SYS[name][1][0])
        c = np.vstack([np.identity(k), -np.identity(k)]).tolist()
        m.set_inputs(b, c, [0.3 + 0.1 * i for i in range(k)] + [0.2] * k)

    m.init_time_elapse(h)
    return m


# ------------------------------------------------------------------------------------------- operations on state sets

OPSYS = {
    'rot': {'A': [[0, 1], [-1, 0]], 'B': [[0], [1]], 'U': [[[1], [-1]], [0.2, 0.35]]},
    'wide': {'A': [[-0.2, 0.9], [-1.3, 0.1]], 'B': [[1, 0], [0.4, -1]],
             'U': [[[1, 0], [-1, 0], [0, 1], [0, -1], [1, 1]], [0.2, 0.3, 0.4, 0.1, 0.5]]},
    'free': {'A': [[0.1, -0.7], [0.4, 0.2]]},
}

OPINV = {'none': [], 'one': [[[1, 0.3], 0.731]], 'two': [[[1, 0.3], 0.731], [[-0.4, 1], 0.913]]}

# (which state set, operation): steps forward or a cut by the invariant
OPS = [(0, 1), (0, 2), (0, 'inv'), (1, 1), (1, 3), (1, 'inv')]


def configs(tier):
    'the whole space'

    depth = 4 if tier == 'quick' else 5
    steps = [0, 1, 2, 3, 7] if tier == 'quick' else [0, 1, 2, 3, 5, 8]

    for name in SYS:
        for h in (0.1, 0.5) if name != 'stiff' else (0.1,):
            for first in steps:
                yield {'kind': 'query', 'sys': name, 'h': h, 'first': first, 'depth': depth, 'form': 'list', 'steps': steps}

    for pair in (('rot', 'wide'), ('wide', 'rot'), ('saddle', 'gap'), ('rot', 'rot')):
        for first in itertools.product((0, 1), (1, 2, 5)):
            yield {'kind': 'pair', 'sys': list(pair), 'h': 0.2, 'first': list(first), 'depth': depth, 'form': 'csr'}

    for name in OPSYS:
        for inv in OPINV:
            for first in itertools.product(range(len(OPS)), repeat=2):
                yield {'kind': 'ops', 'sys': name, 'inv': inv, 'first': list(first), 'depth': depth}


def close(got, want, what):
    'compare matrices'

    if (got is None) != (want is None):
        raise Violation(f'{what}: {"no matrix" if got is None else "a matrix"} returned')

    if got is None:
        return

    got = np.asarray(got)

    if got.shape != want.shape:
        raise Violation(f'{what}: shape {got.shape} instead of {want.shape}')

    err = float(np.abs(got - want).max(initial=0)) / max(1.0, float(np.abs(want).max(initial=0)))

    if not err <= 1e-8:
        raise Violation(f'{what}: wrong by {err:.3g} (relative)')


def check_query(cfg, st):
    'one mode: depth-first over queries, the object is copied at every branch'

    name, h = cfg['sys'], cfg['h']
    has_inputs = SYS[name][1] is not None
    mode = make_mode(HybridAutomaton(), name, h, cfg['form'])

    def visit(elapser, k, seq, lgg, kept):
        'query step k'

        bm, ie = elapser.get_basis_matrix(k)
        seq = seq + (k,)
        st.transitions += 1
        rb, ri = reference(name, h, k, lgg)
        what = f'{name}, step size {h}, queries {seq}'
        close(bm, rb, what + ': basis matrix')
        close(ie, ri, what + ': input effects')
        kept = kept + [(bm, rb, ie, ri)]

        for i, old in enumerate(kept[:-1]):
            close(old[0], old[1], f'{what}: answer #{i} was changed (basis matrix)')
            close(old[2], old[3], f'{what}: answer #{i} was changed (input effects)')

        if sum(1 for x in seq if x != 'lgg') == cfg['depth']:
            st.traces += 1
            st.count('query_histories')
            return

        for switch in (False, True) if has_inputs and not lgg else (False,):
            for nxt in cfg['steps']:
                copied, ckept = branch(elapser, kept)

                if switch: # the lgg model is switched on here
                    copied.use_lgg_approx()
                    visit(copied, nxt, seq + ('lgg',), True, ckept)
                else:
                    visit(copied, nxt, seq, lgg, ckept)

    def branch(elapser, kept):
        'copies of the object and of the answers it gave (these may share arrays)'
        return copy.deepcopy((elapser, kept), {id(mode): mode})

    visit(mode.time_elapse, cfg['first'], (), False, [])


def check_pair(cfg, st):
    'two modes, interleaved queries'

    alphabet = list(itertools.product((0, 1), (1, 2, 5)))

    for rest in itertools.product(alphabet, repeat=cfg['depth'] - 1):
        ha = HybridAutomaton()
        modes = [make_mode(ha, n, cfg['h'], cfg['form']) for n in cfg['sys']]
        seq = (tuple(cfg['first']),) + rest

        for i, (w, k) in enumerate(seq):
            bm, ie = modes[w].time_elapse.get_basis_matrix(k)
            rb, ri = reference(cfg['sys'][w], cfg['h'], k, False)
            close(bm, rb, f'{cfg["sys"]} (mode, step) queries {seq[:i+1]}: basis matrix')
            close(ie, ri, f'{cfg["sys"]} (mode, step) queries {seq[:i+1]}: input effects')
            st.transitions += 1

        st.traces += 1
        st.count('pair_histories')


_POLY = {}


def check_ops(cfg, st):
    'operations on two state sets of a mode'

    h = 0.4
    m = OPSYS[cfg['sys']]
    spec = {'h': h, 'n': 9, 'modes': {'m': dict(m, inv=OPINV[cfg['inv']])}, 'trans': [],
            'init': [['m', 'box', [[0.1, 0.5], [0.2, 0.7]]], ['m', 'con', [[[1, 1], [-1, 0], [0, -1]], [0.6, 0.2, 0.1]]]]}
    ref = model.Ref(spec)
    init = [p for _, p in model.init_polys(spec)]

    def ref_set(which, hist):
        'the set after a history of operations, None if empty; memoized'

        key = (cfg['sys'], cfg['inv'], which, hist)

        if key not in _POLY:
            if not hist:
                rv = init[which]
            else:
                rv = ref_set(which, hist[:-1])
                if rv is not None:
                    if hist[-1] == 'inv':
                        rv = poly.clip_all(rv, ref.inv('m'))
                    else:
                        for _ in range(hist[-1]):
                            rv = ref.step('m', rv)
            _POLY[key] = rv

        return _POLY[key]

    dirs = poly.directions(2)

    for rest in itertools.product(range(len(OPS)), repeat=cfg['depth'] - len(cfg['first'])):
        seq = cfg['first'] + list(rest)

        if cfg['inv'] == 'none' and any(OPS[k][1] == 'inv' for k in seq):
            continue

        ha = HybridAutomaton()
        mode = ha.new_mode('m')
        mode.set_dynamics(m['A'])

        if OPINV[cfg['inv']]:
            mode.set_invariant([r for r, _ in OPINV[cfg['inv']]], [b for _, b in OPINV[cfg['inv']]])
        if 'B' in m:
            mode.set_inputs(m['B'], *m['U'])

        mode.init_time_elapse(h)
        ss = [StateSet(lputil.from_box(spec['init'][0][2], mode), mode),
              StateSet(lputil.from_constraints(spec['init'][1][2][0], spec['init'][1][2][1], mode), mode)]
        core = Core(ha, model.build_settings(spec))
        hist = [(), ()]

        for k in seq:
            w, op = OPS[k]
            hist[w] = hist[w] + (op,)
            want = ref_set(w, hist[w])
            st.transitions += 1

            if op == 'inv':
                ok = core.intersect_invariant(ss[w], add_ops_to_aggdag=False)

                if ok != (want is not None):
                    raise Violation(f'{cfg["sys"]}: after {hist[w]} the set is {"not " if ok else ""}empty')
                if not ok:
                    break
            else:
                ss[w].step(ss[w].cur_step_in_mode + op)

            if ss[w].cur_step_in_mode != sum(x for x in hist[w] if x != 'inv'):
                raise Violation(f'{cfg["sys"]}: after {hist[w]} the step is {ss[w].cur_step_in_mode}')
        else:
            for w in (0, 1):
                want = ref_set(w, hist[w])
                got = model.lpi_supports(ss[w].lpi, dirs)
                exp = poly.supports(want, dirs)

                if float(np.abs(got - exp).max()) > 1e-4:
                    i = int(np.abs(got - exp).argmax())
                    raise Violation(f'{cfg["sys"]}: state set {w} after {hist[w]} (all: {[OPS[k] for k in seq]}): max of '
                                    f'{dirs[i].round(3).tolist()} is {exp[i]:.6f}, the implementation has {got[i]:.6f}')

                st.states += 1

            st.count('op_histories')

        st.traces += 1


def check(cfg):
    'one part of the space'

    st = Stats()
    {'query': check_query, 'pair': check_pair, 'ops': check_ops}[cfg['kind']](cfg, st)
    st.states += st.transitions
    st.sample = {k: cfg[k] for k in ('kind', 'sys', 'first')}
    return st


def min_counts(_tier):
    'vacuity guard'
    return {'query_histories': 10000, 'pair_histories': 1000, 'op_histories': 5000}
