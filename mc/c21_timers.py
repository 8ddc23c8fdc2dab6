'C21: timers nest correctly in every history'

import contextlib
import io
import itertools
import re
import time as real_time

from mc.engine import Stats, Violation

from hylaa import timerutil
from hylaa.timerutil import Timers

PROP = 'C21'

DESCRIPTION = {
    'what': 'Every sequence of starts, stops and resets of timers up to the depth is driven on the real Timers under a virtual clock, '
            'next to a reference tree; after every operation the running timers and the whole tree (names, nesting, counts, times) '
            'are compared, rejected operations must leave everything as it was; at the end the statistics are printed and parsed.',
    'bounds': '3 timer names, sequences of depth 7 (thorough 8), properly nested ones 3 longer',
    'assumptions': ['a new top-level timer with another name replaces the former one, as documented in the code'],
}

NAMES = ('top', 'mid', 'low')
OPS = [('tic', n) for n in NAMES] + [('toc', n) for n in NAMES] + [('reset', None)]


class Clock:
    'virtual clock'

    def __init__(self):
        self.now = 0.0
        self.ticks = 0

    def perf_counter(self):
        'time'
        return self.now

    time = monotonic = perf_counter


@contextlib.contextmanager
def virtual_time():
    'replace the clock used by the timers'

    clock = Clock()
    saved = {}
    funcs = {real_time.perf_counter: clock.perf_counter, real_time.time: clock.perf_counter,
             real_time.monotonic: clock.perf_counter}

    for name, val in list(vars(timerutil).items()):
        if val is real_time:
            saved[name] = val
            setattr(timerutil, name, clock)
        elif callable(val) and val in funcs:
            saved[name] = val
            setattr(timerutil, name, funcs[val])

    try:
        yield clock
    finally:
        for name, val in saved.items():
            setattr(timerutil, name, val)

        Timers.reset()


class Node:
    'reference timer'

    def __init__(self, name, parent):
        self.name, self.parent = name, parent
        self.calls, self.total, self.start, self.children = 0, 0.0, None, []


class Ref:
    'reference implementation'

    def __init__(self):
        self.top, self.stack = None, []

    def apply(self, op, name, now):
        'returns False when the operation has to be rejected'

        if op == 'reset':
            self.top, self.stack = None, []
        elif op == 'tic':
            if self.stack:
                siblings = self.stack[-1].children
                node = next((c for c in siblings if c.name == name), None)

                if node is None:
                    node = Node(name, self.stack[-1])
                    siblings.append(node)
            else:
                if self.top is None or self.top.name != name:
                    self.top = Node(name, None)
                node = self.top

            node.calls += 1
            node.start = now
            self.stack.append(node)
        else:
            if not self.stack or self.stack[-1].name != name:
                return False

            node = self.stack.pop()
            node.total += now - node.start
            node.start = None

        return True


def tree(td):
    'tree of real timers as nested tuples'
    return None if td is None else (td.name, td.num_calls, td.total_secs, td.last_start_time,
                                    tuple(tree(c) for c in td.children))


def ref_tree(n):
    'tree of the reference as nested tuples'
    return None if n is None else (n.name, n.calls, n.total, n.start, tuple(ref_tree(c) for c in n.children))


def full_name(n):
    'dotted name'
    return n.name if n.parent is None else full_name(n.parent) + '.' + n.name


def preorder(n, level=0):
    'all nodes'
    return [(n, level)] + sum((preorder(c, level + 1) for c in n.children), [])


LINE = re.compile(r'^( *)(\S+) Time \((\d+) calls\): ([\d.]+) sec(?: \(([\d.]+)%\))?$')


def check_print(ref, what, st):
    'the printed statistics'

    out = io.StringIO()

    try:
        with contextlib.redirect_stdout(out):
            Timers.print_stats()
    except Exception as e: # pylint: disable=broad-except
        if ref.top is not None and ref.top.start is None:
            raise Violation(f'{what}: print_stats fails: {type(e).__name__}: {e}') from e
        return

    if ref.stack:
        raise Violation(f'{what}: print_stats accepts running timers')

    if ref.top is None:
        return

    text = re.sub(r'\x1b\[[0-9;]*m', '', out.getvalue())
    got = [m for m in map(LINE.match, text.splitlines()) if m]
    want = preorder(ref.top)
    st.count('statistics')

    if len(got) != len(want):
        raise Violation(f'{what}: {len(got)} timers are printed, there are {len(want)}:\n{text}')

    for m, (n, level) in zip(got, want):
        if m[2].lower() != n.name or int(m[3]) != n.calls or abs(float(m[4]) - n.total) > 0.0051 or \
                len(m[1]) != 2 * level:
            raise Violation(f'{what}: printed {m[0]!r}, but {n.name} at level {level} was started {n.calls} times '
                            f'and ran {n.total} s')

        if n.parent is not None and (m[5] is None or abs(float(m[5]) - 100 * n.total / n.parent.total) > 0.051):
            raise Violation(f'{what}: printed {m[0]!r}, but it ran {n.total} of {n.parent.total} s')

    others = [float(m[1]) for m in re.finditer(r'Other: ([\d.]+) sec', text)]
    want_others = []

    def visit(n):
        for c in n.children:
            visit(c)
        if n.children:
            want_others.append(n.total - sum(c.total for c in n.children))

    visit(ref.top)

    if len(others) != len(want_others) or any(abs(a - b) > 0.0051 for a, b in zip(others, want_others)):
        raise Violation(f'{what}: other times are printed as {others}, should be {want_others}')


def run(seq, st, clock):
    'one history'

    Timers.reset()
    ref = Ref()

    for i, (op, name) in enumerate(seq):
        clock.now += 1.0 + 0.25 * (i % 3)

        try:
            if op == 'reset':
                Timers.reset()
            elif op == 'tic':
                Timers.tic(name)
            else:
                Timers.toc(name)
            exc = None
        except Exception as e: # pylint: disable=broad-except
            exc = e

        ok = ref.apply(op, name, clock.now)
        st.transitions += 1

        if ok != (exc is None):
            what = [f'{o} {n or ""}'.strip() for o, n in seq[:i + 1]]
            raise Violation(f'{what}: ' + ('accepted, although not properly nested' if exc is None else
                                           f'rejected: {type(exc).__name__}: {exc}'))

        if tree(Timers.top_level_timer) != ref_tree(ref.top) or [t.name for t in Timers.stack] != [n.name for n in ref.stack]:
            what = [f'{o} {n or ""}'.strip() for o, n in seq[:i + 1]]
            raise Violation(f'{what}: timers (name, calls, time, started, children) are {tree(Timers.top_level_timer)}, '
                            f'running {[t.name for t in Timers.stack]}; should be {ref_tree(ref.top)}, running '
                            f'{[n.name for n in ref.stack]}')

        if not ok:
            st.count('rejected')

    what = [f'{o} {n or ""}'.strip() for o, n in seq]

    for t, n in zip(Timers.stack, ref.stack):
        if t.full_name() != full_name(n):
            raise Violation(f'{what}: full name {t.full_name()}, should be {full_name(n)}')

    if ref.top is not None:
        for name in NAMES:
            got = [t.full_name() for t in Timers.top_level_timer.get_children_recursive(name)]
            want = [full_name(n) for n, _ in preorder(ref.top) if n.name == name]

            if got != want:
                raise Violation(f'{what}: timers named {name} are {got}, should be {want}')

    check_print(ref, what, st)
    st.states += 1
    st.traces += 1


def configs(tier):
    'prefixes of histories'

    depth = 7 if tier == 'quick' else 8

    for a in range(len(OPS)):
        for b in range(len(OPS)):
            for c in range(len(OPS)):
                yield {'prefix': [a, b, c], 'depth': depth}


def check(cfg):
    'all continuations'

    st = Stats()

    with virtual_time() as clock:
        for rest in itertools.product(OPS, repeat=cfg['depth'] - len(cfg['prefix'])):
            run([OPS[i] for i in cfg['prefix']] + list(rest), st, clock)

        # deeper, along properly nested histories only
        if cfg['prefix'] == [0, 1, 2]:
            nested(cfg['depth'] + 3, st, clock)

    st.sample = cfg
    return st


def nested(depth, st, clock):
    'all properly nested histories with two names (no reset), every one closed in the end'

    def rec(seq, stack):
        if len(seq) + len(stack) > depth:
            return

        if not stack and seq:
            run(seq, st, clock)
            st.count('nested')

        for n in NAMES[:2]:
            rec(seq + [('tic', n)], stack + [n])

        if stack:
            rec(seq + [('toc', stack[-1])], stack[:-1])

    rec([], [])


def min_counts(_tier):
    'vacuity guard'
    return {'rejected': 1000, 'statistics': 1000, 'nested': 100}
