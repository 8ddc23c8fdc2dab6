'independent validation of counterexamples: forward simulation from the definition of the semantics'

import numpy as np

from mc import model, poly
from mc.engine import Violation

TOL = 2e-5


def in_polytope(pts, x, tol):
    'is x in the convex hull of pts (support test in many directions)?'

    dims = pts.shape[1]
    dirs = poly.directions(dims, True)
    rel = max(1.0, float(np.abs(pts).max()))

    return bool((dirs @ x <= poly.supports(pts, dirs) + tol * rel).all())


def check_cons(what, cons, x, tol):
    'check a x <= b constraints'

    for c in cons:
        a = np.array(c[0], dtype=float)
        val = float(a @ x) - c[1]
        rel = tol * max(1.0, float(np.abs(a).max()), abs(c[1]))

        if val > rel or (len(c) == 3 and val < -rel):
            raise Violation(f'counterexample: {what} {c} is violated by {np.round(x, 6).tolist()} by {val:.2e}')


def validate(spec, segs, urgent=False):
    'raise Violation unless segs (result.counterexample) is a genuine execution of spec that ends in an error mode'

    if not segs:
        raise Violation('an error was reported as concrete, but there is no counterexample')

    total = 0
    prev = None # required start of this segment
    ntrans = {}

    for t in spec['trans']:
        ntrans.setdefault(t['from'], []).append(t)

    for k, seg in enumerate(segs):
        name = seg.mode.name
        m = spec['modes'][name]

        if m.get('A') is None:
            raise Violation('counterexample: passes through an error mode')

        dims = len(m['A'])
        start = np.array(seg.start, dtype=float)
        end = np.array(seg.end, dtype=float)

        if start.shape != (dims,) or end.shape != (dims,):
            raise Violation(f'counterexample: segment {k} in a {dims}-dimensional mode has a start with '
                            f'{len(start)} and an end with {len(end)} entries')

        scale = max(1.0, float(np.abs(start).max()), float(np.abs(end).max()))
        tol = TOL * scale

        if prev is None:
            if not any(mode == name and in_polytope(pts, start, TOL) for mode, pts in model.init_polys(spec)):
                raise Violation(f'counterexample: start {start.tolist()} is not in an initial set of mode {name}')
        elif np.abs(prev[1] - start).max() > tol or prev[0] != name:
            raise Violation(f'counterexample: segment {k} does not start where the reset ends: {name} '
                            f'{start.tolist()} vs {prev}')

        inv = m.get('inv') or []
        check_cons('invariant at the start', inv, start, TOL)

        if seg.steps < (0 if urgent else 1):
            raise Violation(f'counterexample: segment {k} has {seg.steps} steps')

        phi, psi = model._cached_mats(m, spec['h']) # pylint: disable=protected-access
        x = start
        inputs = list(seg.inputs)

        if psi is not None and len(inputs) != seg.steps:
            raise Violation(f'counterexample: segment {k} takes {seg.steps} steps but has {len(inputs)} inputs')
        if psi is None and inputs:
            raise Violation(f'counterexample: segment {k} has inputs in a mode without inputs')

        for j in range(seg.steps):
            check_cons(f'invariant at step {j} of segment {k}', inv, x, TOL)
            x = phi @ x

            if psi is not None:
                u = np.array(inputs[j], dtype=float)

                if u.shape != (psi.shape[1],):
                    raise Violation(f'counterexample: segment {k} input {j} has {len(u)} entries')

                check_cons('input constraint', list(zip(m['U'][0], m['U'][1])), u, TOL)
                x = x + psi @ u

        total += seg.steps

        if np.abs(x - end).max() > tol:
            raise Violation(f'counterexample: segment {k} ({name}, {seg.steps} steps) ends at {np.round(x, 6).tolist()} '
                            f'and not at the claimed {np.round(end, 6).tolist()}')

        t = seg.outgoing_transition

        if t is None or t.from_mode is not seg.mode:
            raise Violation(f'counterexample: segment {k} has a wrong outgoing transition {t}')

        ts = ntrans[name][t.from_mode.transitions.index(t)]
        check_cons(f'guard at the end of segment {k}', ts['guard'], end, TOL)

        if k == len(segs) - 1:
            if not t.to_mode.is_error():
                raise Violation('counterexample: does not end in an error mode')
        else:
            nxt = end if ts.get('R') is None else np.array(ts['R'], dtype=float) @ end

            if ts.get('M') is not None:
                y = np.array(seg.reset_minkowski_vars, dtype=float)
                mm = np.array(ts['M'], dtype=float)

                if y.shape != (mm.shape[1],):
                    raise Violation(f'counterexample: segment {k} has {len(y)} reset variables, not {mm.shape[1]}')

                check_cons('reset variable constraint', list(zip(ts['MC'][0], ts['MC'][1])), y, TOL)
                nxt = nxt + mm @ y
            elif len(seg.reset_minkowski_vars):
                raise Violation(f'counterexample: segment {k} has reset variables without a minkowski reset')

            prev = (ts['to'], nxt)

    if total > spec['n']:
        raise Violation(f'counterexample: takes {total} steps, past the time bound of {spec["n"]}')

    return total
