'C07: any order of work and any choice of what to aggregate is sound'

import itertools

import numpy as np

from mc import model, poly
from mc.c01_exact_reach import A, INV, GUARD, RESET, INIT
from mc.engine import Stats, Violation

from hylaa.aggstrat import Aggregated, AggType

PROP = 'C07'

DESCRIPTION = {
    'what': 'The aggregation strategy is replaced by a controlled scheduler through the public strategy interface; every '
            'decision it can take is a branch (which waiting set is popped, with which other waiting sets of its mode it '
            'is merged, with which template, and whether an aggregated ancestor is split first). Depth-first search over '
            'choice prefixes (delay-bounded) runs the real code once per schedule, until no schedule is left. Orders without merging must '
            'visit exactly the sets of the reference; with merging and splitting every reference set must be covered, '
            'every set marked concrete must be a reference set, every reachable error must be reported, no '
            'concrete error may be spurious, and every schedule must end.',
    'bounds': '2-d, 2-3 modes + error, 3-4 steps, up to 7 waiting sets, at most 2 splits per schedule; all schedules '
              'with at most 1-2 (quick) or 2-3 (thorough) deviations from first-in-first-out and from last-in-first-out order',
    'assumptions': ['merged sets are in the same mode'],
}

CAP = 40000
CHUNK = 1


class Chooser:
    'one schedule: a prefix of choices, the default (first alternative in, or last if lifo) afterwards'

    def __init__(self, prefix, bound, share, lifo):
        self.prefix = list(prefix)
        self.bound = bound
        self.share = share
        self.lifo = lifo
        self.made = []
        self.widths = []

    def choose(self, num):
        'choose one of num alternatives'

        k = len(self.made)
        val = self.prefix[k] if k < len(self.prefix) else 0
        deviations = sum(1 for x in self.made if x)

        # alternatives that may be explored here: none once the bound is used up
        allowed = deviations < self.bound and (deviations > 0 or k % self.share[1] == self.share[0])
        self.made.append(val)
        self.widths.append(num if allowed else 1)

        return (num - 1 - val) if self.lifo else val


def schedules(run, bound, share, lifo):
    '''depth-first enumeration of all schedules with at most bound deviations from the default order; run(chooser).
    share (i, n): only those whose first deviation is at a decision k with k % n == i'''

    prefix = []
    num = 0

    while True:
        ch = Chooser(prefix, bound, share, lifo)
        run(ch)

        if prefix or share[0] == 0:
            num += 1

        k = len(ch.made) - 1

        while k >= 0 and ch.made[k] + 1 >= ch.widths[k]:
            k -= 1

        if k < 0:
            return num

        prefix = ch.made[:k] + [ch.made[k] + 1]

        if num > CAP:
            raise RuntimeError('more schedules than intended')


class Controlled(Aggregated):
    'a strategy where every decision is a choice of the explorer'

    def __init__(self, chooser, merge, types, splits):
        self.ch = chooser
        self.merge = merge
        self.types = types
        self.splits = splits
        Aggregated.__init__(self, Aggregated.AGG_ARNOLDI_BOX)

    def pop_waiting_list(self, waiting_list):
        'which state to pop, and what to merge it with'

        wl = list(waiting_list)

        if not self.merge:
            return [wl[self.ch.choose(len(wl))]]

        # canonical subsets: groups of the same mode, every nonempty subset
        options = []

        for mode in dict.fromkeys(op.poststate.mode.name for op in wl):
            group = [op for op in wl if op.poststate.mode.name == mode]
            initial = [op for op in group if op.parent_node is None]

            if group[0].poststate.mode.is_error():
                options += [[group[0]]] # one at a time: the order within does not matter here
            elif initial:
                # initial sets are popped alone, also when they are asked for together with other sets
                options += [[initial[0]]]

                if len(initial) < len(group):
                    succ = [op for op in group if op.parent_node is not None]
                    options += [succ, succ + initial[:1], group]
            elif self.merge == 'all':
                for r in range(len(group), 0, -1):
                    options += [list(c) for c in itertools.combinations(group, r)]
            else: # contiguous runs starting with the first
                options += [group[:r] for r in range(len(group), 0, -1)]

        return options[self.ch.choose(len(options))]

    def get_agg_type(self, op_list):
        'which template'

        k = self.types[self.ch.choose(len(self.types))] if len(self.types) > 1 else self.types[0]

        return AggType(k == 0, k == 1, k == 2, True)

    def get_deagg_node(self, aggdag):
        'split something?'

        if not self.splits:
            return None

        nodes = []

        def visit(node):
            if node is None or node in nodes:
                return
            nodes.append(node)
            for op in node.parent_ops:
                visit(op.parent_node)

        for op in aggdag.waiting_list:
            visit(op.parent_node)

        cands = [n for n in nodes if len(n.parent_ops) > 1]

        if not cands:
            return None

        k = self.ch.choose(len(cands) + 1)

        if k == 0:
            return None

        self.splits -= 1
        return cands[k - 1]


# ------------------------------------------------------------------------------------------------- configurations


def systems(tier):
    'name -> spec'

    quick = tier == 'quick'
    rv = {}

    for k, (d, r, th) in enumerate(itertools.product((('dint', 'rot'), ('rot', 'dint')), ('lin', 'mink'), (-1.0, -1.7))):
        rv[f'pair{k}'] = {'h': 0.4, 'n': 4 if quick else 5, 'modes': {'p': {'A': A[d[0]], 'inv': INV['xle']}, 'q': {'A': A[d[1]]},
                                                     'e': {'A': None}},
                          'trans': [{'from': 'p', 'to': 'q', 'guard': GUARD['xge'], **RESET[r]},
                                    {'from': 'q', 'to': 'e', 'guard': [[[-1, -0.4], th]]}],
                          'init': [['p'] + INIT['box']], 'set': {}}

    for k, d in enumerate((('dint', 'rot', 'gen'), ('rot', 'saddle', 'dint'))):
        rv[f'fork{k}'] = {'h': 0.45, 'n': 3, 'modes': {nm: {'A': A[x]} for nm, x in zip('pqr', d)},
                          'trans': [{'from': 'p', 'to': 'q', 'guard': GUARD['corner'], **RESET['lin']},
                                    {'from': 'p', 'to': 'r', 'guard': GUARD['xge'], **RESET['id']},
                                    {'from': 'q', 'to': 'r', 'guard': GUARD['band'], **RESET['swap']}],
                          'init': [['p'] + INIT['box'], ['q'] + INIT['seg']], 'set': {}}

    rv['inits'] = {'h': 0.5, 'n': 2, 'modes': {nm: {'A': A[x]} for nm, x in zip('pqr', ('dint', 'rot', 'gen'))},
                   'trans': [{'from': 'p', 'to': 'q', 'guard': GUARD['xge'], **RESET['lin']},
                             {'from': 'r', 'to': 'q', 'guard': GUARD['true'], **RESET['id']}],
                   'init': [['p'] + INIT['box'], ['r'] + INIT['pt'], ['q'] + INIT['tri'], ['p'] + INIT['zono']], 'set': {}}

    for k, th in enumerate((-1.0, -1.9)):
        rv[f'both{k}'] = {'h': 0.5, 'n': 2, 'modes': {'p': {'A': A['dint']}, 'q': {'A': A['rot']}, 'e': {'A': None}},
                          'trans': [{'from': 'p', 'to': 'q', 'guard': GUARD['true'], **RESET['lin']},
                                    {'from': 'q', 'to': 'e', 'guard': [[[-1, -0.4], th]]}],
                          'init': [['p'] + INIT['box'], ['q'] + INIT['tri']], 'set': {}}

    for k, th in enumerate((-1.5, -2.2)):
        rv[f'chain{k}'] = {'h': 0.4, 'n': 3 if quick else 4,
                           'modes': {**{nm: {'A': A[x]} for nm, x in zip('pqr', ('dint', 'rot', 'gen'))}, 'e': {'A': None}},
                           'trans': [{'from': 'p', 'to': 'q', 'guard': GUARD['xge'], **RESET['id']},
                                     {'from': 'q', 'to': 'r', 'guard': GUARD['true'], **RESET['lin']},
                                     {'from': 'r', 'to': 'e', 'guard': [[[-1, -0.4], th]]}],
                           'init': [['p'] + INIT['box']], 'set': {}}

    for k, (d, th) in enumerate(itertools.product((('dint', 'rot', 'gen'), ('rot', 'spiral', 'dint')), (-1.3, -2.4))):
        rv[f'join{k}'] = {'h': 0.4, 'n': 3,
                          'modes': {**{nm: {'A': A[x]} for nm, x in zip('pqs', d)}, 'e': {'A': None}},
                          'trans': [{'from': 'p', 'to': 'q', 'guard': GUARD['xge'], **RESET['lin']},
                                    {'from': 'p', 'to': 's', 'guard': GUARD['corner'], **RESET['id']},
                                    {'from': 'q', 'to': 's', 'guard': GUARD['true'], **RESET['swap']},
                                    {'from': 's', 'to': 'e', 'guard': [[[-1, -0.4], th]]}],
                          'init': [['p'] + INIT['box']], 'set': {}}

    return rv


def configs(tier):
    'systems x kinds of choices'

    quick = tier == 'quick'

    for name, spec in systems(tier).items():
        big = name.startswith(('fork', 'join', 'inits'))
        bound = (1 if big else 3 if name.startswith('both') else 2) + (0 if quick else 1)
        shares = (2 if big else 4) if quick else 16

        for merge, types, splits in (
                (None, [0], 0),
                ('all', [0], 0), ('all', [2], 0),
                ('run', [0, 1, 2], 0),
                ('all', [2], 1), ('all', [0], 1), ('run', [2], 2), ('run', [1], 2)):
            for lifo in (False, True):
                for share in range(shares):
                    yield dict(spec, name=name, merge=merge, types=types, splits=splits, share=[share, shares], lifo=lifo,
                               bound=bound)


def check(cfg):
    'all schedules of one configuration'

    st = Stats()
    ref = model.Ref(cfg)
    robs = ref.run(max_states=20000)
    rkeys = {}

    for (mode, total, inmode), lst in robs.items():
        for path, pts in lst:
            sup = poly.supports(pts, poly.directions(pts.shape[1]))
            rkeys.setdefault((mode, inmode), []).append((total, path, sup))

    hits = {}

    for path, total, i in ref.error_hits:
        hits.setdefault((cfg['trans'][i]['to'], total), []).append(path)

    pure = cfg['merge'] is None

    def run(ch):
        core = model.build_core(cfg)
        core.settings.aggstrat = Controlled(ch, cfg['merge'], cfg['types'], cfg['splits'])
        iobs = {}
        plain = {}
        errs = []
        last = None
        steps = 0

        while not core.is_finished():
            core.do_step()
            steps += 1

            if steps > 5000:
                raise Violation(f'schedule {ch.made}: does not terminate')

            state = core.aggdag.get_cur_state()

            if state is not None:
                sup = model.lpi_supports(state.lpi, poly.directions(state.lpi.dims))
                lo, hi = (int(x) for x in state.cur_steps_since_start)
                iobs.setdefault((state.mode.name, state.cur_step_in_mode), []).append((lo, hi, sup, state.is_concrete))
                plain.setdefault((state.mode.name, (lo, hi), state.cur_step_in_mode), []).append(sup)
                st.states += 1

            pop = core.result.last_cur_state

            if pop is not None and pop is not last:
                last = pop
                if pop.mode.is_error():
                    lo, hi = (int(x) for x in pop.cur_steps_since_start)
                    errs.append((pop.mode.name, lo, hi, pop.is_concrete))

        st.traces += 1
        st.transitions += len(ch.made)

        if pure:
            try:
                model.compare_exact(robs, plain)
            except Violation as e:
                raise Violation(f'schedule {ch.made}: {e}') from None
        else:
            covered(ch, iobs)

        for mode, lo, hi, concrete in errs:
            if concrete and ((mode, lo) not in hits or lo != hi):
                raise Violation(f'schedule {ch.made}: spurious concrete error at step {lo}-{hi}')

        for (mode, total), paths in hits.items():
            if not any(m == mode and lo <= total <= hi for m, lo, hi, _ in errs):
                raise Violation(f'schedule {ch.made}: the error reached on path {paths[0]} at step {total} is missed')

        res = core.result

        if hits and not (res.has_aggregated_error or res.has_concrete_error):
            raise Violation(f'schedule {ch.made}: the reachable error is not reported')
        if res.has_concrete_error and not hits:
            raise Violation(f'schedule {ch.made}: spurious concrete error')
        if pure and res.has_concrete_error != bool(hits):
            raise Violation(f'schedule {ch.made}: error not reported as concrete')

    def covered(ch, iobs):
        for (mode, inmode), lst in rkeys.items():
            have = iobs.get((mode, inmode), [])

            for total, path, sup in lst:
                tol = 1e-4 * max(1.0, float(np.abs(sup).max()))

                if not any(lo <= total <= hi and float((sup - isup).max()) <= tol for lo, hi, isup, _ in have):
                    raise Violation(f'schedule {ch.made}: the set of mode {mode} at step {total} ({inmode} in mode) on path '
                                    f'{path} is not covered')

        for (mode, inmode), lst in iobs.items():
            for lo, hi, isup, concrete in lst:
                if not concrete:
                    continue

                if not any(total == lo == hi and float(np.abs(sup - isup).max()) <= 1e-4 * max(1.0, np.abs(sup).max())
                           for total, _, sup in rkeys.get((mode, inmode), [])):
                    raise Violation(f'schedule {ch.made}: a set of mode {mode} at step {lo}-{hi} is marked concrete, but no '
                                    'path of the model reaches it')

    num = schedules(run, cfg['bound'], cfg['share'], cfg['lifo'])
    st.count('schedules', num)
    st.count(f'schedules_merge_{cfg["merge"]}_splits_{cfg["splits"]}', num)
    st.sample = {'system': cfg['name'], 'schedules': num}
    return st
