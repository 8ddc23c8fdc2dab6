'C03: the safety verdict is right, and the computation stops exactly when the settings say so'

import contextlib
import io
import re
import itertools

from mc import model
from mc.c01_exact_reach import A, INV, GUARD, RESET, INIT
from mc.c02_inputs_exact import INP
from mc.engine import Stats, Violation

from hylaa import aggstrat
from hylaa.settings import HylaaSettings

PROP = 'C03'

DESCRIPTION = {
    'what': 'Every automaton of the family (error guards at swept thresholds, so that the error is first reachable at '
            'every possible step, only past the bound, or never) is run to completion through the public run() under '
            'every strategy (unaggregated; box / arnoldi / convex-hull aggregation with and without deaggregation, '
            'every pop order) and every combination of stop settings; verdict, stopping point and the printed result '
            'are compared with the explicit-state reference.',
    'bounds': '2-d, up to 3 modes + error, 1-6 steps',
    'assumptions': ['configurations where an error guard touches a reachable set within 1e-5 are not judged'],
}

STRATS = ['un'] + [f'agg{k}{d}' for k in (0, 1, 2) for d in ('', 'd')]


def make_strat(name, pop=1, same=True, pref=2):
    'strategy from its name'

    if name == 'un':
        return aggstrat.Unaggregated()

    rv = aggstrat.Aggregated(int(name[3]), deaggregate=name.endswith('d'))
    rv.pop_type = pop
    rv.require_same_path = same
    rv.deagg_preference = pref
    return rv


def family(tier):
    'thresholds x steps x strategies x stop settings'

    dyns = (('dint', 'rot'), ('rot', 'dint'), ('gen', 'saddle')) if tier == 'quick' else \
        (('dint', 'rot'), ('rot', 'dint'), ('gen', 'saddle'), ('spiral', 'zero'), ('zero', 'spiral'))
    directions = ([-1, 0], [0.3, 1])
    ths = (-0.9, -1.3, -1.6, -1.9, -2.2, 0.1, 0.9) if tier == 'quick' else (-0.5, -0.9, -1.3, -1.6, -1.9, -2.2, -2.7, 0.1, 0.5, 0.9)
    stops = ((False, False), (True, False), (False, True), (True, True)) # aggregated, concrete
    ns = (1, 2, 3, 5) if tier == 'quick' else (1, 2, 3, 4, 5, 6)

    for d, c, th, n, strat, src in itertools.product(dyns, directions, ths, ns, STRATS, ('p', 'q')):
        # stop settings are rotated over the parameters that they are independent of, but all of them meet every strategy
        for s in stops if (n == ns[-1] or tier != 'quick') else stops[:1]:
            yield {'h': 0.4, 'n': n,
                   'modes': {'p': {'A': A[d[0]], 'inv': INV['xle'] if src == 'q' else []}, 'q': {'A': A[d[1]]},
                             'e': {'A': None}},
                   'trans': [{'from': 'p', 'to': 'q', 'guard': GUARD['xge'], **RESET['lin']},
                             {'from': src, 'to': 'e', 'guard': [[c, th]]}],
                   'init': [['p'] + INIT['box']], 'strat': strat,
                   'set': {'stop_on_aggregated_error': s[0], 'stop_on_concrete_error': s[1],
                           'make_counterexample': n == 3}}


def family_branch(tier):
    'branching, several error transitions, inputs, every pop order'

    for d, u, th, strat, pop, stop, ini in itertools.product(
            (('dint', 'rot', 'gen'), ('rot', 'gen', 'dint')), (('none',) * 3, ('sym', 'none', 'box2')),
            (-1.2, -1.9, -2.6, -3.3) if tier == 'quick' else (-1.2, -1.6, -1.9, -2.2, -2.6, -3.0, -3.3),
            STRATS, (0, 1, 2), ((False, False), (False, True)),
            (('box',), ('tri', 'seg'))):
        if strat == 'un' and pop:
            continue

        modes = {'e': {'A': None}}

        for nm, a, i in zip('pqr', d, u):
            modes[nm] = {'A': A[a], 'inv': INV['xle'] if nm == 'p' else []}
            modes[nm].update(INP[i])

        modes['f'] = {'A': None}
        yield {'h': 0.3, 'n': 5, 'modes': modes, 'pop': pop,
               'trans': [{'from': 'p', 'to': 'q', 'guard': GUARD['xge'], **RESET['mink']},
                         {'from': 'p', 'to': 'r', 'guard': GUARD['corner']},
                         {'from': 'q', 'to': 'e', 'guard': [[[-1, -0.4], th]]},
                         {'from': 'r', 'to': 'f', 'guard': [[[-0.2, -1], th + 0.3]]}],
               'init': [['p'] + INIT[x] for x in ini], 'strat': strat,
               'set': {'stop_on_aggregated_error': stop[0], 'stop_on_concrete_error': stop[1]}}


def family_chain(tier):
    '''an aggregation, then modes that are entered by a single set each (a clock window opens for one or two steps), then
    an error that is reachable, or only because of the overapproximation, or not at all'''

    quick = tier == 'quick'
    xy = {'rot': ([0, 1], [-1, 0]), 'dint': ([0, 1], [0, 0]), 'gen': ([0.1, -0.7], [0.4, 0.2]), 'still': ([0, 0], [0, 0])}

    def mat(name, clock):
        return [xy[name][0] + [0, 0], xy[name][1] + [0, 0], [0, 0, 0, clock], [0, 0, 0, 0]]

    wins = (0.45, 0.75) if quick else (0.45, 0.75, 1.05)

    for dyn, chain, (win, wide), c, th, strat, stop in itertools.product(
            (('rot', 'still', 'still'), ('dint', 'rot', 'still'), ('gen', 'dint', 'rot')), (2, 3),
            [(w, x) for w in wins for x in (0.14, 0.4)], ([-1, 0.9], [1, 1], [0.3, -1]),
            [0.3 * k - 2.03 for k in range(0, 14, 2 if quick else 1)], STRATS[1:],
            ((False, False), (False, True))):
        if stop[1] and not (strat.endswith('d') or c[0] == 1):
            continue
        if quick and chain == 3 and (wide > 0.2 or dyn[0] == 'dint'):
            continue

        names = 'pqrs'[:chain + 1]
        modes = {nm: {'A': mat(dyn[min(k, 2)], 0 if k == 0 else 1)} for k, nm in enumerate(names)}
        modes['e'] = {'A': None}
        trans = [{'from': 'p', 'to': 'q', 'guard': [[[-1, 0, 0, 0], -0.37]], 'R': (
            [[1, 0.3, 0, 0], [-0.2, 1, 0, 0], [0, 0, 0, 0], [0, 0, 0, 1]])}]

        for a, b in zip(names[1:], names[2:]):
            trans.append({'from': a, 'to': b, 'guard': [[[0, 0, -1, 0], -win], [[0, 0, 1, 0], win + wide]],
                          'R': [[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 0, 0], [0, 0, 0, 1]]})

        trans.append({'from': names[-1], 'to': 'e', 'guard': [[c + [0, 0], th]]})
        yield {'h': 0.3, 'n': 6 if chain == 2 else 8, 'modes': modes, 'trans': trans,
               'init': [['p', 'box', [[0.1, 0.5], [0.2, 0.6], [0, 0], [1, 1]]]], 'strat': strat,
               'set': {'stop_on_aggregated_error': stop[0], 'stop_on_concrete_error': stop[1]}}


def configs(tier):
    'the whole space'

    yield from family_chain(tier)

    yield from family(tier)
    yield from family_branch(tier)


_REF = {}


def ref_unsafe(cfg):
    'steps at which an error mode is reached according to the reference semantics'

    key = repr((cfg['h'], cfg['n'], cfg['modes'], cfg['trans'], cfg['init']))

    if key not in _REF:
        ref = model.Ref(cfg)
        ref.run()
        _REF.clear()
        _REF[key] = (sorted(set(h[1] for h in ref.error_hits)), ref.states, ref.transitions)

    return _REF[key]


def check_text(text, unsafe, agg, con, left, name):
    'the printed result is the verdict'

    lines = [x for x in text.splitlines() if x.startswith('Result:')]

    if len(lines) != 1:
        raise Violation(f'printed results: {lines}')

    line = lines[0]
    safe, claim, maybe = 'System is safe' in line, 'Error modes are reachable' in line, 'may be safe or unsafe' in line
    what = f'"{line.strip()}" is printed, but an error mode is {"" if unsafe else "not "}reachable (aggregated error {agg}, ' \
           f'concrete error {con}, {"not " if left else ""}complete)'

    if claim != con or (safe and (unsafe or left)) or (maybe and not agg):
        raise Violation(what)

    if not left and not con and safe != (not agg or name.endswith('d')) and not (maybe and agg):
        raise Violation(what)


def check_report(text, hits, cfg, agg, con):
    'the printed step and time of the first errors'

    found = re.findall(r'Unsafe Mode \((\w+)\) Reached at Step: (.*?) / (\d+), time (.*)', text)

    if sorted(f[0] for f in found) != ['aggregated'] * agg + ['concrete'] * con:
        raise Violation(f'aggregated error {agg}, concrete error {con}, printed: {found}')

    for kind, steps, total, times in found:
        step, time = ([float(x) for x in re.findall(r'[-+.e0-9]+', t)] for t in (steps, times))
        what = f'error at step {steps} of {total}, time {times} ({kind}) is printed'

        if int(total) != cfg['n'] or len(step) != len(time) or len(step) not in (1, 2) or step != sorted(step):
            raise Violation(what)

        if any(abs(s * cfg['h'] - t) > 1e-9 for s, t in zip(step, time)):
            raise Violation(f'{what}, the step size is {cfg["h"]}')

        if kind == 'concrete' and (step[0] != step[-1] or step[0] not in hits):
            raise Violation(f'{what}, errors are reached at steps {hits}')


def check(cfg):
    'compare the verdict'

    st = Stats()
    hits, st.states, st.transitions = ref_unsafe(cfg)
    unsafe = bool(hits)
    first = hits[0] if hits else None
    s = cfg['set']
    name = cfg['strat']

    ha, modes = model.build_ha(cfg)
    settings = model.build_settings(cfg)
    settings.aggstrat = make_strat(name, cfg.get('pop', 1))
    settings.stdout = HylaaSettings.STDOUT_NORMAL
    core = model.Core(ha, settings)
    out = io.StringIO()

    with contextlib.redirect_stdout(out):
        res = core.run(model.build_init(cfg, modes))

    text = out.getvalue()
    st.traces = 1
    agg, con = res.has_aggregated_error, res.has_concrete_error

    if con and not unsafe:
        raise Violation('a concrete error was reported, but no error mode is reachable')
    if unsafe and not (agg or con):
        raise Violation(f'an error mode is reachable at step {first}, but no error was reported')
    if name == 'un' and agg:
        raise Violation('an unaggregated computation reported an aggregated error')
    if unsafe and (name == 'un' or name.endswith('d')) and not con and not (agg and s['stop_on_aggregated_error']):
        raise Violation(f'an error mode is reachable at step {first}, but no concrete error was reported '
                        f'(strategy {name})')
    if unsafe and 'System is safe' in text:
        raise Violation(f'an error mode is reachable at step {first}, but the system was reported to be safe')
    if bool(res.counterexample) != bool(con and s.get('make_counterexample', False)):
        raise Violation(f'counterexample given: {bool(res.counterexample)}, concrete error: {con}')

    # stopping: when no stop setting applies the whole space is explored, otherwise nothing happens after the error
    stopped = (s['stop_on_concrete_error'] and con) or (s['stop_on_aggregated_error'] and (agg or con))
    left = core.aggdag.get_cur_state() is not None or bool(core.aggdag.waiting_list)

    if not stopped and left:
        raise Violation('the computation ended before it was complete, and no stop setting asked for it')

    stepped = _step_run(cfg, s)

    if (stepped[0], stepped[1]) != (agg, con):
        raise Violation(f'verdict of run() is {(agg, con)}, verdict of single stepping is {stepped[:2]}')

    check_text(text, unsafe, agg, con, left, name)
    check_report(text, hits, cfg, agg, con)
    st.count('unsafe' if unsafe else 'safe')
    st.count('stopped_early' if stopped and left else 'complete')
    if agg and not unsafe:
        st.count('false_alarm_of_aggregation')
        if con:
            raise Violation('spurious concrete error')
    st.sample = {'first error step': first, 'aggregated': agg, 'concrete': con}
    return st


def _step_run(cfg, s):
    'single stepping: the computation must be finished right at the step that finds the error the settings stop at'

    core = model.build_core(cfg)
    core.settings.aggstrat = make_strat(cfg['strat'], cfg.get('pop', 1))

    steps = 0

    while not core.is_finished():
        core.do_step()
        steps += 1

        r = core.result
        must = (s['stop_on_concrete_error'] and r.has_concrete_error) or \
               (s['stop_on_aggregated_error'] and (r.has_aggregated_error or r.has_concrete_error))

        if must and not core.is_finished():
            raise Violation('an error was found and the settings ask to stop there, but the computation goes on')

        if steps > 20000:
            raise Violation('does not terminate')

    return core.result.has_aggregated_error, core.result.has_concrete_error, steps


def min_counts(_tier):
    'vacuity guard'
    return {'unsafe': 500, 'safe': 500, 'stopped_early': 100, 'complete': 500, 'false_alarm_of_aggregation': 5}
