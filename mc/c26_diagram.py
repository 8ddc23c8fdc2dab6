'C26: the saved diagram of a computation shows its sets and transitions'

import itertools
import re

import graphviz

from mc import model
from mc.c06_deaggregation import automata as deagg_automata
from mc.c24_policy import POPS, PREFS, make_strategy, own_automata
from mc.engine import Stats, Violation

from hylaa import aggstrat

PROP = 'C26'

DESCRIPTION = {
    'what': 'Every automaton of a family is run under every strategy, and the diagram is saved after every single step (at every '
            'place where a user could ask for it). The source of the diagram given to graphviz is parsed and compared with the '
            'history which was recorded from outside: one node for each set which was taken off the waiting list and not split '
            'since, labelled with its mode and number of steps; dashed nodes for what is waiting; and for each successor one '
            'edge for every maximal interval of steps at which it was found.',
    'bounds': '2-d, 2-5 modes, 4-8 steps',
    'assumptions': ['rendering by graphviz itself is not judged', 'identity of nodes: by their names in the diagram'],
}

STRATS = ('unagg', 'agg', 'agg_any', 'deagg', 'deagg_any')


def configs(tier):
    'automata x strategies'

    quick = tier == 'quick'
    autos = list(own_automata(tier)) + [s for _, s in deagg_automata(tier)][::6 if quick else 1]

    for k, spec in enumerate(autos):
        for j, (strat, pop) in enumerate(itertools.product(STRATS, POPS)):
            if strat == 'unagg' and pop != list(POPS)[0]:
                continue

            yield {'spec': spec, 'strat': strat, 'pop': pop, 'pref': PREFS[(j + k) % 3], 'stop': (j + k) % 4 == 0}


NODE = re.compile(r'^\s*("?\w+"?)\s*(\[.*\])?\s*$')
EDGE = re.compile(r'^\s*("?\w+"?)\s*->\s*("?\w+"?)\s*(\[.*\])?\s*$')


def attr(text, name):
    'attribute of a node or an edge'

    m = re.search(name + r'=("([^"]*)"|([^\s\]]+))', text or '')
    return None if m is None else m.group(2) if m.group(2) is not None else m.group(3)


def parse(source):
    'nodes {name: (label, style)} and edges [(from, to, label)]'

    nodes, edges = {}, []
    lines = source.strip().splitlines()

    if not lines[0].startswith('digraph') or lines[-1].strip() != '}':
        raise Violation(f'not a diagram: {source!r}')

    for line in lines[1:-1]:
        m = EDGE.match(line)

        if m:
            edges.append((m.group(1), m.group(2), re.sub(r'^\[(\d+), \1\]$', r'\1', attr(m.group(3), 'label') or '')))
        elif NODE.match(line):
            m = NODE.match(line)

            if m.group(1) in ('graph', 'node', 'edge'):
                continue

            if m.group(1) in nodes and attr(m.group(2), 'style') != 'dashed':
                raise Violation(f'node {line} is drawn twice')

            nodes[m.group(1)] = (attr(m.group(2), 'label'), attr(m.group(2), 'style'))
        elif '=' not in line:
            raise Violation(f'line of the diagram: {line!r}')

    return nodes, edges


class History:
    'what happened so far, seen from outside'

    def __init__(self, core):
        self.core = core
        self.ops = [] # everything that was on the waiting list
        self.nodes = [] # the sets which were explored
        self.known = set()
        self.update()

    def update(self):
        'look at the waiting list and the current set'

        dag = self.core.aggdag

        for op in dag.waiting_list:
            if id(op) not in self.known:
                self.known.add(id(op))
                self.ops.append(op)

        for op in self.ops:
            if op.child_node is not None and id(op.child_node) not in self.known:
                self.known.add(id(op.child_node))
                self.nodes.append(op.child_node)


def intervals(steps):
    'maximal intervals, as labels'

    rv, run = [], []

    for s in sorted(steps) + [None]:
        if run and s != run[-1] + 1 if s is not None else run:
            rv.append(str(run[0]) if len(run) == 1 else f'[{run[0]}, {run[-1]}]')
            run = []

        run.append(s)

    return rv


def structure(dag):
    'the ops and nodes of the computation, from the roots'

    ops, nodes, todo = [], [], list(dag.roots)

    while todo:
        node = todo.pop()

        if any(node is n for n in nodes):
            continue

        nodes.append(node)

        for op in node.op_list:
            if hasattr(op, 'poststate') and hasattr(op, 'child_node'):
                ops.append(op)

                if op.child_node is not None:
                    todo.append(op.child_node)

    return ops, nodes


def label_of(node):
    'mode and steps'

    state = node.get_cur_state()
    mode = node.stateset.mode.name

    if state is not None:
        return f'{mode} (incomplete, {node.stateset.cur_step_in_mode} so far)'

    last = node.op_list[-1]
    return f'{mode} ({last.step}*)' if last.reached_time_bound else f'{mode} ({last.step})'


def compare(source, ops, nodes, st): # pylint: disable=too-many-locals
    'compare the diagram with these ops and nodes'

    got_nodes, got_edges = parse(source)
    solid = sorted(lab for lab, style in got_nodes.values() if style is None)
    want = sorted(label_of(n) for n in nodes)

    if solid != want:
        raise Violation(f'the sets in the diagram are {solid}, should be {want}')

    # successors, by identity of the nodes: names have to be unique
    edges = {}

    for op in ops:
        if op.parent_node is not None:
            child = id(op.child_node) if op.child_node is not None else (id(op.parent_node), id(op.transition))
            edges.setdefault((id(op.parent_node), child), (op, set()))[1].add(op.step)

    want_edges = []

    for op, steps in edges.values():
        child = f'waiting {op.transition.to_mode.name}' if op.child_node is None else label_of(op.child_node)
        want_edges += [(label_of(op.parent_node), child, i) for i in intervals(steps)]

    names = {name: f'waiting {lab}' if style == 'dashed' else lab for name, (lab, style) in got_nodes.items()}
    starts = [e for e in got_edges if got_nodes.get(e[0], (0, 0))[1] == 'invis']
    have_edges = [(names.get(a), names.get(b), lab) for a, b, lab in got_edges if got_nodes.get(a, (0, 0))[1] != 'invis']

    if sorted(map(str, have_edges)) != sorted(map(str, want_edges)):
        raise Violation(f'the transitions in the diagram are {sorted(map(str, have_edges))}, should be {sorted(map(str, want_edges))}')

    roots = [n for n in nodes if any(op.parent_node is None for op in n.parent_ops)]

    if sorted(names[b] for _, b, _ in starts) != sorted(label_of(n) for n in roots):
        raise Violation('the initial sets are not marked as such')

    # same shape: number of edges into each node
    into = sorted((label_of(n), len({id(o.parent_node) for o in n.parent_ops if o.parent_node is not None})) for n in nodes)
    have = sorted((lab, len({a for a, b, _ in got_edges if b == name and got_nodes[a][1] != 'invis'}))
                  for name, (lab, style) in got_nodes.items() if style is None)

    if into != have:
        raise Violation(f'numbers of predecessors in the diagram are {have}, should be {into}')

    st.states += 1
    st.count('nodes', len(solid))
    st.count('waiting', len([1 for _, style in got_nodes.values() if style == 'dashed']))
    st.count('intervals', len([1 for _, _, lab in have_edges if lab.startswith('[')]))
    st.count('incomplete', sum('incomplete' in lab for lab in solid))


def check(cfg):
    'one run'

    st = Stats()
    core = model.build_core(cfg['spec'])
    core.settings.stop_on_concrete_error = cfg['stop']

    if cfg['strat'] != 'unagg':
        core.settings.aggstrat = make_strategy(cfg['pop'], not cfg['strat'].endswith('_any'), cfg['strat'].startswith('deagg'),
                                               cfg['pref'], aggstrat.Aggregated, aggstrat.Aggregated.AGG_BOX)

    sources = []
    saved = graphviz.Digraph.render
    graphviz.Digraph.render = lambda self, *args, **kwargs: sources.append((self.source, args, kwargs))
    hist = History(core)
    files = []
    k = 0

    try:
        while True:
            if core.aggdag.roots:
                files.append(core.aggdag.save_viz())
                ops, nodes = structure(core.aggdag)

                if core.aggdag.deagg_man.doing_replay():
                    st.count('during_replay') # shown as far as it is known
                else:
                    compare(sources[-1][0], ops, nodes, st)

                    if not cfg['strat'].startswith('deagg'):
                        compare(sources[-1][0], hist.ops, hist.nodes, st)

            if core.is_finished():
                break

            core.do_step()
            hist.update()
            st.transitions += 1
            k += 1

            if k > 20000:
                raise Violation('does not terminate')
    finally:
        graphviz.Digraph.render = saved

    if len(set(files)) != len(files) or len(files) != len(sources):
        raise Violation(f'a diagram was overwritten: {files}')

    st.traces += 1
    st.sample = {'diagrams': len(files)}
    return st


def min_counts(_tier):
    'vacuity guard'
    return {'nodes': 10000, 'waiting': 1000, 'intervals': 1000, 'incomplete': 1000, 'during_replay': 50}
