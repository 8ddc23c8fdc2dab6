'C22: the trace checker measures what the dynamics say'

import contextlib
import io
import itertools

import numpy as np
from scipy.linalg import expm

from mc import model
from mc.engine import Stats, Violation

from hylaa import check_trace
from hylaa.core import Core

PROP = 'C22'

DESCRIPTION = {
    'what': 'All traces of a family of systems (1-3 variables, 0-2 inputs, all input sequences over an alphabet up to a length, '
            'repeated and different inputs, several step sizes and sampling densities) are given to the trace checker: every '
            'simulated state is compared with matrix exponentials at its time, the reported errors with the exact ones, for '
            'genuine and for altered end values; counterexamples computed by the library are checked segment by '
            'segment; the plot of each trace is compared with the trace.',
    'bounds': 'up to 5 steps, 2-4 different input vectors',
    'assumptions': ['integration tolerance 1e-6 (quick integration 1e-4)'],
}

SYS = {
    'one': ([[-0.4]], [[1.5]]),
    'one_auto': ([[0.3]], None),
    'osc': ([[0.1, 1.0], [-1.0, 0.0]], [[0.0], [1.0]]),
    'osc_auto': ([[0.0, 1.0], [-1.0, 0.0]], None),
    'two': ([[-0.5, 0.3], [0.2, -1.0]], [[1.0, 0.0], [0.5, -1.0]]),
    'aff': ([[0.0, 1.0, 0.0], [-0.7, -0.2, 0.5], [0.0, 0.0, 0.0]], [[0.0, 1.0], [1.0, 0.0], [0.0, 0.0]]),
    'aff_auto': ([[0.0, 1.0, 0.0], [-0.7, -0.2, 0.5], [0.0, 0.0, 0.0]], None),
    'zero': ([[0.0, 0.0], [0.0, 0.0]], [[1.0], [-2.0]]),
}

ALPHABET = {1: ([0.0], [1.0], [-0.5]), 2: ([0.0, 0.0], [1.0, -0.25], [-0.5, 1.0])}
STARTS = {1: [1.25], 2: [1.0, -0.5], 3: [0.5, -1.0, 1.0]}
NORMALS = {1: [[-2.0]], 2: [[1.0, 0.0], [-0.6, 0.8]], 3: [[0.0, 1.0, 0.0], [1.0, -0.5, 0.25]]}


def exact(a, b, start, inputs, step, t):
    'state at time t'

    a = np.array(a, dtype=float)
    n = len(a)
    x = np.array(start, dtype=float)
    k = 0

    while t > 1e-12:
        dt = min(t, step)
        u = np.zeros(n) if b is None else np.array(b, dtype=float) @ np.array(inputs[min(k, len(inputs) - 1)], dtype=float)
        big = np.zeros((n + 1, n + 1))
        big[:n, :n] = a
        big[:n, n] = u
        x = (expm(big * dt) @ np.append(x, 1.0))[:n]
        t -= dt
        k += 1

    return x


def configs(tier):
    'systems x steps x lengths'

    quick = tier == 'quick'

    for name in SYS:
        for step in (0.1, 0.25, 0.7) + (() if quick else (1.0, 0.05)):
            for steps in (1, 2, 3, 4) + (() if quick else (5, 6)):
                yield {'kind': 'trace', 'sys': name, 'step': step, 'steps': steps}

    for name in SYS:
        for steps in (1, 2, 3, 4):
            yield {'kind': 'plot', 'sys': name, 'step': 0.1, 'steps': steps}

    for i in range(len(HYBRID)):
        yield {'kind': 'ce', 'index': i}


def run_check(what, a, b, step, steps, start, inputs, normal, end, quick, samples, talk):
    'call the checker'

    args = [None if a is None else np.array(a), None if b is None else np.array(b), step, step * steps, list(start),
            None if inputs is None else [list(u) for u in inputs], list(normal), end]
    out = io.StringIO()

    try:
        with contextlib.redirect_stdout(out):
            rv = check_trace.check(*args, quick=quick, stdout=talk, approx_samples=samples)
    except Exception as e: # pylint: disable=broad-except
        raise Violation(f'{what}: {type(e).__name__}: {e}') from e

    if talk == (not out.getvalue()):
        raise Violation(f'{what}: printing is {"not done" if talk else "not off"}')

    if args[4] != list(start) or args[5] != (None if inputs is None else [list(u) for u in inputs]) or \
            args[6] != list(normal):
        raise Violation(f'{what}: the arguments were changed')

    return rv


def check_one(cfg, inputs, normal, delta, quick, samples, talk, st):
    'one trace'

    a, b = SYS[cfg['sys']]
    step, steps = cfg['step'], cfg['steps']
    start = STARTS[len(a)]
    what = f'{cfg["sys"]}, {steps} steps of {step}, inputs {inputs}, normal {normal}, end off by {delta}, quick={quick}, ' \
           f'samples {samples}'
    real_inputs = inputs if b is not None and inputs is not None else [[0.0] * (1 if b is None else len(b[0]))] * steps
    final = exact(a, b, start, real_inputs, step, step * steps)
    val = float(final @ np.array(normal))
    tol = 1e-4 if quick else 1e-6

    states, times, data = run_check(what, a, b, step, steps, start, inputs, normal, val + delta, quick, samples, talk)
    st.states += 1

    if len(states) != len(times):
        raise Violation(f'{what}: {len(states)} states at {len(times)} times')

    if abs(times[0]) > 1e-12 or abs(times[-1] - step * steps) > 1e-9 or any(s >= t for s, t in zip(times, times[1:])):
        raise Violation(f'{what}: times go from {times[0]} to {times[-1]}, should increase from 0 to {step * steps}')

    if len(times) < min(samples, 1000) * 0.5 + 1:
        raise Violation(f'{what}: only {len(times)} samples')

    for i in sorted(set(list(range(0, len(times), max(1, len(times) // 12))) + [0, len(times) - 1])):
        want = exact(a, b, start, real_inputs, step, times[i])
        st.transitions += 1

        if np.abs(np.array(states[i]) - want).max() > tol:
            raise Violation(f'{what}: state at time {times[i]:.4f} is {np.array(states[i]).tolist()}, should be '
                            f'{want.tolist()}')

    if abs(data.abs_error - abs(delta)) > tol * 3:
        raise Violation(f'{what}: absolute error is reported as {data.abs_error}, is {abs(delta)}')

    rel = 0 if val == 0 else abs(delta) / abs(val)

    if abs(val) > 0.05 and abs(data.rel_error - rel) > 100 * tol:
        raise Violation(f'{what}: relative error is reported as {data.rel_error}, is {rel}')

    if abs(data.sim_time - step * steps) > 1e-9:
        raise Violation(f'{what}: simulated time is reported as {data.sim_time}')

    st.traces += 1
    st.count('genuine' if delta == 0 else 'altered')


def check_sys(cfg, st):
    'all input sequences'

    _, b = SYS[cfg['sys']]

    if b is None:
        seqs = [None, []]
    else:
        seqs = [list(s) for s in itertools.product(ALPHABET[len(b[0])], repeat=cfg['steps'])] + [None]

        # slowly changing inputs: neighbours are close, the first and the last are not
        m = len(b[0])
        seqs += [[[u * r ** k for u in [1.0, -0.25][:m]] for k in range(cfg['steps'])] for r in (1.0015, 0.992, 1.05)]
        seqs += [[[1.0, -0.25][:m]] * k + [[1.0, -0.254][-m:]] * (cfg['steps'] - k) for k in range(cfg['steps'])]

    variants = [(False, 200, False), (True, 50, False), (False, 1, False), (False, 7, True)]
    k = 0

    for s in seqs:
        for normal in NORMALS[len(SYS[cfg['sys']][0])]:
            for delta in (0.0, 0.31, -0.02):
                quick, samples, talk = variants[k % 4]
                k += 1
                check_one(cfg, s, normal, delta, quick, samples, talk, st)


def check_plot(cfg, st):
    'plots of traces'

    import matplotlib.pyplot as plt # pylint: disable=import-outside-toplevel

    a, b = SYS[cfg['sys']]
    step, steps = cfg['step'], cfg['steps']
    start, normal = STARTS[len(a)], NORMALS[len(a)][-1]

    if b is None:
        seqs = [None]
    else:
        alpha = ALPHABET[len(b[0])]
        seqs = [None, [alpha[1]] * steps, [alpha[(i + 1) % 3] for i in range(steps)]]

    for inputs in seqs:
        for dims in (None, (0, 1), (1, 0)):
            if dims and len(a) < 2:
                continue

            what = f'plot of {cfg["sys"]}, {steps} steps of {step}, inputs {inputs}, dimensions {dims}'
            states, times, _ = run_check(what, a, b, step, steps, start, inputs, normal, 0.5, True, 40, False)
            given = None if inputs is None else [list(u) for u in inputs]
            plt.close('all')

            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    check_trace.plot(states, times, given, normal, 0.5, step * steps, step,
                                     xdim=dims and dims[0], ydim=dims and dims[1])
            except Exception as e: # pylint: disable=broad-except
                raise Violation(f'{what}: {type(e).__name__}: {e}') from e

            if inputs is not None and given != [list(u) for u in inputs]:
                raise Violation(f'{what}: the inputs were changed')

            axes = plt.gcf().axes

            if dims:
                want = np.array([[s[dims[0]], s[dims[1]]] for s in states])
            else:
                want = np.array([[t, float(np.dot(s, normal))] for s, t in zip(states, times)])

            if not any(line.get_xydata().shape == want.shape and np.allclose(line.get_xydata(), want)
                       for line in axes[0].lines):
                raise Violation(f'{what}: the trace is not drawn')

            if inputs is not None:
                for j in range(len(inputs[0])):
                    check_input_line(what, [line.get_xydata() for line in axes[1].lines], [u[j] for u in inputs], step)

            st.states += 1
            st.transitions += len(states)
            st.traces += 1
            st.count('plots')

    plt.close('all')


def check_input_line(what, lines, vals, step):
    'one of the lines is the piecewise constant function'

    for xy in lines:
        if xy[0, 0] != 0 or abs(xy[-1, 0] - step * len(vals)) > 1e-9:
            continue

        ok = True

        for i, v in enumerate(vals):
            mid = (i + 0.5) * step
            left = [p for p in xy if p[0] < mid][-1]
            right = [p for p in xy if p[0] > mid][0]
            ok = ok and left[1] == v and right[1] == v

        if ok:
            return

    raise Violation(f'{what}: no line shows the input {vals}')


HYBRID = [
    {'h': 0.25, 'n': 8, 'modes': {'p': {'A': [[0.0, 1.0], [-1.0, 0.0]]}, 'e': {'A': None}},
     'trans': [{'from': 'p', 'to': 'e', 'guard': [[[0, 1], -0.61]]}], 'init': [['p', 'box', [[0.8, 1.0], [-0.1, 0.1]]]]},
    {'h': 0.1, 'n': 12, 'modes': {'p': {'A': [[0.0, 1.0], [-1.0, 0.0]], 'B': [[0.0], [1.0]], 'U': ([[1], [-1]], [0.5, 0.5])},
                                 'e': {'A': None}},
     'trans': [{'from': 'p', 'to': 'e', 'guard': [[[0, 1], -1.0]]}], 'init': [['p', 'box', [[0.8, 1.0], [-0.1, 0.1]]]]},
    {'h': 0.2, 'n': 12, 'modes': {'p': {'A': [[0.0, 1.0], [-1.0, 0.0]], 'B': [[0.0, 1], [1.0, 0.5]],
                                       'U': ([[1, 0], [-1, 0], [0, 1], [0, -1], [1, 1]], [0.5, 0.5, 0.2, 0.1, 0.55])},
                                 'q': {'A': [[-0.2, 0.4], [0.1, 0.3]]}, 'e': {'A': None}},
     'trans': [{'from': 'p', 'to': 'q', 'guard': [[[0, 1], -0.7]], 'R': [[0.0, -1.0], [1.0, 0.5]]},
               {'from': 'q', 'to': 'e', 'guard': [[[0, -1], -1.0]]}], 'init': [['p', 'box', [[0.8, 1.0], [-0.1, 0.1]]]]},
]


def check_ce(cfg, st):
    'counterexamples of the library'

    spec = dict(HYBRID[cfg['index']])
    spec['set'] = {'stop_on_concrete_error': True, 'make_counterexample': True}
    ha, modes = model.build_ha(spec)
    res = Core(ha, model.build_settings(spec)).run(model.build_init(spec, modes))

    if not res.counterexample:
        raise Violation('there is an error, but no counterexample')

    for seg in res.counterexample:
        mode = seg.mode

        if mode.a_csr is None:
            continue

        steps = seg.steps
        given = seg.inputs if mode.b_csr is not None else None
        what = f'segment of counterexample {cfg["index"]} in {mode.name}'
        b = None if mode.b_csr is None else mode.b_csr.toarray()

        for inputs in ([given] if given is not None else [None, list(seg.inputs)]):
            for normal in NORMALS[len(seg.start)]:
                end = float(np.dot(seg.end, normal))
                _, _, data = run_check(what, mode.a_csr.toarray(), b, spec['h'], steps, seg.start, inputs,
                                       normal, end, False, 200, False)

                if data.abs_error > 1e-5:
                    raise Violation(f'{what}: error {data.abs_error} is reported for a genuine trace')

                _, _, data = run_check(what, mode.a_csr.toarray(), b, spec['h'], steps, seg.start, inputs,
                                       normal, end + 0.1, False, 200, False)

                if abs(data.abs_error - 0.1) > 1e-5:
                    raise Violation(f'{what}: error {data.abs_error} is reported for a trace which is off by 0.1')

                st.states += 1
                st.transitions += 2 * steps
                st.traces += 2
                st.count('counterexample_segments')


def check(cfg):
    'one part of the space'

    st = Stats()
    {'trace': check_sys, 'plot': check_plot, 'ce': check_ce}[cfg['kind']](cfg, st)
    st.sample = cfg
    return st


def min_counts(_tier):
    'vacuity guard'
    return {'genuine': 100, 'altered': 100, 'plots': 10, 'counterexample_segments': 4}
