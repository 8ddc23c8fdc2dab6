'C24: the strategy settings decide what is explored, merged and split'

import copy
import itertools

from mc import model
from mc.c01_exact_reach import A, INV, GUARD, RESET, INIT
from mc.c06_deaggregation import automata as deagg_automata
from mc.engine import Stats, Violation

from hylaa import aggstrat
from hylaa.deaggregation import OpTransition

PROP = 'C24'

DESCRIPTION = {
    'what': 'Runs: every automaton of a family is run under every combination of pop order, same-path setting, '
            'deaggregation and its preference; at every step where a set is taken off the waiting list or a merged set is split, '
            'the decision is judged on the waiting list and the history of the run at that point, and so is what the computation '
            'then does with it. Lists: every waiting list up to a length over an alphabet of sets (mode, predecessor, '
            'transition, step interval) is given to every strategy, and every list of waiting simulations with every list '
            'of modes to avoid.',
    'bounds': '2-d, 2-5 modes, 4-6 steps; waiting lists of up to 3 (thorough: 4) of 24 sets, waiting simulations of up to 4 of 9',
    'assumptions': ['which one of equally ranked choices is taken is not judged'],
}

POPS = {'lowest min time': lambda iv: iv[0], 'lowest average time': lambda iv: iv[0] + iv[1],
        'largest max time': lambda iv: -iv[1]}
PREFS = ('leaves first', 'root first', 'most states')


def make_strategy(pop, same, deagg, pref, cls=aggstrat.Aggregated, *args):
    'strategy with these settings'

    s = cls(*args)
    s.pop_type = (aggstrat.Aggregated.POP_LOWEST_MINTIME, aggstrat.Aggregated.POP_LOWEST_AVGTIME,
                  aggstrat.Aggregated.POP_LARGEST_MAXTIME)[list(POPS).index(pop)]
    s.require_same_path = same
    s.deaggregate = deagg
    s.deagg_preference = (aggstrat.Aggregated.DEAGG_LEAVES_FIRST, aggstrat.Aggregated.DEAGG_ROOT_FIRST,
                          aggstrat.Aggregated.DEAGG_MOST_STATES)[PREFS.index(pref)]
    return s


# ------------------------------------------------------------------------------------------------- oracles

def show(op):
    'a waiting set'
    return f'{op.poststate.mode.name}@{list(op.poststate.cur_steps_since_start)} through {op.transition}'


def has(lst, op):
    'is the object in the list'
    return any(x is op for x in lst)


def judge_pop(waiting, popped, pop, same):
    'the popped sets are the group of a best one'

    if not popped or any(not has(waiting, op) for op in popped) or \
            len({id(op) for op in popped}) != len(popped):
        raise Violation(f'taken off the waiting list: {[show(o) for o in popped]}, which are not sets of '
                        f'{[show(o) for o in waiting]}')

    rank = POPS[pop]
    best = min(rank(op.poststate.cur_steps_since_start) for op in waiting)
    ids = {id(op) for op in popped}

    for b in waiting:
        if rank(b.poststate.cur_steps_since_start) != best:
            continue

        group = {id(op) for op in waiting if op.poststate.mode is b.poststate.mode and
                 (not same or op.transition is b.transition and op.parent_node is b.parent_node)}

        if group == ids:
            return

    raise Violation(f'pop order {pop}, same path {same}: {[show(o) for o in popped]} are taken off '
                    f'{[show(o) for o in waiting]}: not all sets that '
                    f'{"took the path of" if same else "are in the mode of"} one which comes first')


def chains(node, cap=200):
    'all chains of nodes from a root to the node'

    rv = []

    for parent in {id(op.parent_node): op.parent_node for op in node.parent_ops}.values():
        if parent is None:
            rv.append([node])
        else:
            rv += [c + [node] for c in chains(parent, cap)]

        if len(rv) > cap:
            break

    return rv


def judge_split(waiting, chosen, deagg, pref):
    'the node chosen to be split'

    waits = [op for op in waiting if not op.poststate.is_concrete]
    needed = {id(op.parent_node): op.parent_node for op in waits if op.poststate.mode.is_error()}

    for a, b in itertools.combinations(waits, 2):
        if a.parent_node is b.parent_node and a.transition is not b.transition:
            needed[id(a.parent_node)] = a.parent_node

    if not deagg or not needed:
        if chosen is not None:
            raise Violation(f'a set is split, although {"no merged set needs it" if deagg else "splitting is off"}')
        return False

    if chosen is None:
        raise Violation(f'no set is split, although merged sets need it: {[show(o) for o in waiting]}')

    good = []

    for node in needed.values():
        for chain in chains(node):
            merged = [n for n in chain if len(n.parent_ops) > 1]

            if not merged:
                continue

            if pref == 'root first':
                good.append(merged[0])
            elif pref == 'leaves first':
                good.append(merged[-1])
            else:
                most = max(len(n.parent_ops) for n in merged)
                good += [n for n in merged if len(n.parent_ops) == most]

    if not has(good, chosen):
        raise Violation(f'preference {pref}: the set of {chosen} is split, should be one of {[str(x) for x in good]}')

    return True


class Watched(aggstrat.Aggregated):
    'records the decisions, for the settings of the check'

    def __init__(self, cfg, st):
        self.cfg = cfg
        self.st = st
        self.log = []
        aggstrat.Aggregated.__init__(self, aggstrat.Aggregated.AGG_BOX)

    def pop_waiting_list(self, waiting_list):
        'judged'
        before = list(waiting_list)
        rv = aggstrat.Aggregated.pop_waiting_list(self, waiting_list)

        if len(waiting_list) != len(before) or any(x is not y for x, y in zip(waiting_list, before)):
            raise Violation('the waiting list is changed by the choice')

        judge_pop(before, list(rv), self.cfg['pop'], self.cfg['same'])
        self.log.append(('pop', before, list(rv)))
        return rv

    def get_deagg_node(self, aggdag):
        'judged'
        before = list(aggdag.waiting_list)
        rv = aggstrat.Aggregated.get_deagg_node(self, aggdag)

        if judge_split(before, rv, self.cfg['deagg'], self.cfg['pref']):
            self.log.append(('split', before, rv))

        return rv


# ------------------------------------------------------------------------------------------------- runs

def own_automata(tier):
    'several predecessors with the same transition and the same mode, several initial sets'

    quick = tier == 'quick'

    for d, r, inits, g in itertools.product((('rot', 'dint', 'gen'), ('dint', 'gen', 'rot')), ('id', 'lin'),
                                            ((('p', 'box'),), (('p', 'box'), ('p', 'tri')), (('p', 'box'), ('q', 'seg'), ('p', 'pt'))),
                                            ('corner', 'band') if quick else ('corner', 'band', 'true', 'yle')):
        modes = {nm: {'A': A[x], 'inv': INV['xyle'] if nm == 'p' else []} for nm, x in zip('pqr', d)}
        modes['e'] = {'A': None}
        yield {'h': 0.35, 'n': 4, 'modes': modes,
               'trans': [{'from': 'p', 'to': 'q', 'guard': GUARD['xge'], **RESET[r]},
                         {'from': 'p', 'to': 'q', 'guard': GUARD[g], **RESET['swap']},
                         {'from': 'q', 'to': 'r', 'guard': GUARD[g], **RESET['id']},
                         {'from': 'r', 'to': 'e', 'guard': [[[-1, -0.4], -1.3]]}],
               'init': [[m] + INIT[x] for m, x in inits], 'set': {}}

    # a merged set with two transitions to the same mode
    for d, r, g, g2 in itertools.product((('dint', 'rot', 'gen'), ('rot', 'dint', 'gen'), ('rot', 'gen', 'rot')), ('id', 'lin'),
                                         ('corner', 'band', 'true'), ('true', 'yle')):
        modes = {nm: {'A': A[x], 'inv': INV['xyle'] if nm == 'p' else []} for nm, x in zip('pqr', d)}
        yield {'h': 0.35, 'n': 4, 'modes': modes,
               'trans': [{'from': 'p', 'to': 'q', 'guard': GUARD['xge'], **RESET[r]},
                         {'from': 'q', 'to': 'r', 'guard': GUARD[g], **RESET['id']},
                         {'from': 'q', 'to': 'r', 'guard': GUARD[g2], **RESET['swap']}],
               'init': [['p'] + INIT['box']], 'set': {}}


def configs(tier):
    'runs and lists'

    quick = tier == 'quick'
    autos = list(own_automata(tier)) + [s for _, s in deagg_automata(tier)][::4 if quick else 1]

    for k, (spec, pop, same, (deagg, pref)) in enumerate(itertools.product(
            autos, POPS, (True, False), [(False, PREFS[0])] + [(True, p) for p in PREFS])):
        yield {'kind': 'run', 'spec': spec, 'pop': pop, 'same': same, 'deagg': deagg, 'pref': pref}

    for spec in autos[::3]:
        yield {'kind': 'first', 'spec': spec}

    for pop, same in itertools.product(POPS, (True, False)):
        for first in range(24):
            yield {'kind': 'lists', 'pop': pop, 'same': same, 'first': first, 'len': 3 if quick else 4}

    for avoid in ([], ['p'], ['q'], ['p', 'r'], ['p', 'q', 'r'], ['x']):
        yield {'kind': 'sims', 'avoid': avoid}


def check_run(cfg, st):
    'one run'

    core = model.build_core(cfg['spec'])
    strat = make_strategy(cfg['pop'], cfg['same'], cfg['deagg'], cfg['pref'], Watched, cfg, st)
    core.settings.aggstrat = strat
    dag = core.aggdag
    steps = 0

    while not core.is_finished():
        strat.log.clear()
        core.do_step()
        steps += 1
        st.transitions += 1

        if steps > 20000:
            raise Violation('does not terminate')

        for what, before, res in strat.log:
            if what == 'pop':
                done_pop(dag, before, res, st)
            else:
                done_split(dag, before, res, st)

    st.traces += 1


def done_pop(dag, before, popped, st):
    'what was popped becomes one node'

    taken = [op for op in before if not has(dag.waiting_list, op)]
    st.states += 1

    if any(not has(popped, op) for op in taken):
        raise Violation('a set that was not chosen is taken off the waiting list')

    error = popped[0].poststate.mode.is_error()
    initial = [op for op in popped if op.parent_node is None]

    if error or initial: # one at a time
        if len(taken) != 1 or initial and not has(initial, taken[0]):
            raise Violation(f'{len(taken)} {"error" if error else "initial"} sets are explored together')
    elif len(taken) != len(popped):
        raise Violation(f'{len(popped)} sets were chosen, but {len(taken)} are explored')

    node = taken[0].child_node

    if node is None or any(op.child_node is not node for op in taken) or len(node.parent_ops) != len(taken) or \
            any(not has(node.parent_ops, op) for op in taken):
        raise Violation('the chosen sets are not the predecessors of what is explored next')

    if len(taken) == 1:
        st.count('single')
    else:
        st.count('merged')


def done_split(dag, before, node, st):
    'the node was split'

    kids = {id(op.child_node): op.child_node for op in node.parent_ops}

    if id(node) in kids or None in kids.values() or len(kids) < 2:
        raise Violation(f'{node} was to be split, but was not')

    for kid in kids.values():
        if any(op.child_node is not kid for op in kid.parent_ops) or any(not has(node.parent_ops, op) for op in kid.parent_ops):
            raise Violation('a part of a split set consists of other sets')

    def below(op):
        'was this found from the split set'
        todo, seen = [op.parent_node], set()

        while todo:
            x = todo.pop()

            if x is node:
                return True

            if x is not None and id(x) not in seen:
                seen.add(id(x))
                todo += [o.parent_node for o in x.parent_ops]

        return False

    if any(below(op) for op in dag.waiting_list):
        raise Violation('after a split, successors of the merged set are still on the waiting list')

    # (only what was found from the split set is removed)
    if any(not below(op) and not has(dag.waiting_list, op) for op in before):
        raise Violation('a split removes waiting sets which were not found from the split set')

    st.states += 1
    st.count('splits')


def check_first(cfg, st):
    'without a strategy: first in, first out'

    class Fifo(aggstrat.Unaggregated): # pylint: disable=too-few-public-methods
        'records'
        log = []

        def pop_waiting_list(self, waiting_list):
            'record'
            before = list(waiting_list)
            rv = aggstrat.Unaggregated.pop_waiting_list(self, waiting_list)

            if len(rv) != 1 or rv[0] is not before[0]:
                raise Violation(f'{[show(o) for o in rv]} are taken off {[show(o) for o in before]}, not the first one')

            self.log.append((before, list(rv)))
            return rv

    core = model.build_core(cfg['spec'])
    core.settings.aggstrat = strat = Fifo()
    order = []

    while not core.is_finished():
        core.do_step()
        st.transitions += 1

        for op in core.aggdag.waiting_list:
            if not has(order, op):
                order.append(op)

        while strat.log:
            _, (op,) = strat.log.pop()
            st.states += 1

            if has(order, op):
                if order[0] is not op:
                    raise Violation(f'{show(op)} is explored before {show(order[0])}, which was found earlier')

                order.pop(0)

    st.traces += 1
    st.count('fifo')


# ------------------------------------------------------------------------------------------------- lists

_POOL = []


def pool():
    'the alphabet of waiting sets: modes, predecessors, transitions, step intervals'

    if not _POOL:
        spec = next(own_automata('quick'))
        spec = dict(spec, init=[['p'] + INIT['box'], ['q'] + INIT['tri']])
        core = model.build_core(spec)
        nodes = []
        ops = {}

        while not core.is_finished():
            core.do_step()
            node = core.aggdag.cur_node

            if node is not None and not has(nodes, node):
                nodes.append(node)

            for op in core.aggdag.waiting_list:
                if op.transition is not None:
                    ops.setdefault((op.transition.from_mode.name, op.transition.transition_index), op)

        froms = [nodes[0], nodes[-1]]

        for _, op in sorted(ops.items())[:4]:
            for node, iv in itertools.product(froms, ([2, 2], [1, 4], [3, 3])):
                _POOL.append((op, node, iv))

    return _POOL


def check_lists(cfg, st):
    'all lists which start with a given set'

    alpha = pool()

    if len(alpha) != 24:
        raise RuntimeError(f'alphabet has {len(alpha)} sets')

    strat = make_strategy(cfg['pop'], cfg['same'], False, PREFS[0])

    def make(k):
        'a waiting set'
        op, node, iv = alpha[k]
        state = copy.copy(op.poststate)
        state.cur_steps_since_start = list(iv)
        return OpTransition(1, node, None, op.transition, state)

    for num in range(cfg['len']):
        for rest in itertools.product(range(len(alpha)), repeat=num):
            lst = [make(k) for k in (cfg['first'],) + rest]
            judge_pop(list(lst), list(strat.pop_waiting_list(lst)), cfg['pop'], cfg['same'])
            st.states += 1

    st.transitions = st.states
    st.traces = st.states
    st.count('lists', st.states)


def check_sims(cfg, st):
    'all waiting simulations'

    spec = next(own_automata('quick'))
    _, modes = model.build_ha(spec)
    strat = aggstrat.Aggregated()
    strat.sim_avoid_modes = list(cfg['avoid'])
    first = aggstrat.Unaggregated()
    alpha = list(itertools.product('pqr', (0, 2, 5)))

    for num in (1, 2, 3, 4):
        for lst in itertools.product(alpha, repeat=num):
            waiting = [(modes[m], [0.1, 0.2], s) for m, s in lst]
            got = strat.get_simulation_pop_mode(list(waiting)).name
            allowed = [(m, s) for m, s in lst if m not in cfg['avoid']]
            good = {m for m, s in allowed if s == min(x for _, x in allowed)} if allowed else {m for m, _ in lst}

            if got not in good:
                raise Violation(f'of the simulations {lst}, those of {got} go on (to avoid: {cfg["avoid"]})')

            if first.get_simulation_pop_mode(list(waiting)) is not waiting[0][0]:
                raise Violation('without a strategy, the first simulation does not go on first')

            st.states += 1

    st.transitions = st.states
    st.traces = st.states
    st.count('simulation_lists', st.states)


def check(cfg):
    'dispatch'

    st = Stats()
    {'run': check_run, 'first': check_first, 'lists': check_lists, 'sims': check_sims}[cfg['kind']](cfg, st)
    st.sample = {'kind': cfg['kind']}

    return st


def min_counts(_tier):
    'vacuity guard'
    return {'merged': 1000, 'splits': 200, 'fifo': 20, 'lists': 10000, 'simulation_lists': 5000}
