'C18: matrices extracted from symbolic expressions mean the same as the expressions'

from fractions import Fraction as F

import numpy as np

from mc.engine import Stats, Violation

from hylaa import symbolic

PROP = 'C18'

DESCRIPTION = {
    'what': 'Every syntax tree up to the depth over variables, numbers, constants and + - * / and negation is printed, translated by '
            'the library, and compared with an exact evaluation of the tree (rational functions over fractions): the same '
            'affine map when it is affine, an exception when it is not; all pairs of trees for conditions with <= and >=; all '
            'orders of variables, with and without affine variable, as dynamics, resets and conditions.',
    'bounds': 'trees of depth 2 over 2 variables, 3 numbers, 2 constants (thorough: more atoms and variables); sides of '
              'conditions of depth 1',
    'assumptions': ['an expression which is affine, but only after cancellation of non-affine parts, may be accepted or rejected'],
}

CONSTS = {'alpha': 3, 'beta': 0.5}
NUMS = {'2': F(2), '0.25': F(1, 4), '0': F(0)}
MORE = {'I': None, '7': F(7)} # variable with a name which is something else in sympy


# polynomials in the variables: dict (sorted tuple of variable names) -> coefficient

def padd(a, b, sign=1):
    'sum'
    rv = dict(a)
    for k, v in b.items():
        rv[k] = rv.get(k, 0) + sign * v
        if rv[k] == 0:
            del rv[k]
    return rv


def pmul(a, b):
    'product'
    rv = {}
    for k, v in a.items():
        for l, w in b.items():
            key = tuple(sorted(k + l))
            rv[key] = rv.get(key, 0) + v * w
            if rv[key] == 0:
                del rv[key]
    return rv


def is_const(p):
    'constant polynomial?'
    return all(k == () for k in p)


class Val:
    'value of a tree: a quotient of polynomials, None when it divides by zero; simple when only affine operations were used'

    def __init__(self, num, den, simple):
        self.num, self.den, self.simple = num, den, simple


ONE = {(): F(1)}


def evaluate(t):
    'meaning of a tree'

    if isinstance(t, str):
        if t in CONSTS:
            return Val({(): F(CONSTS[t])}, ONE, True)
        if t in NUMS:
            return Val({(): NUMS[t]} if NUMS[t] else {}, ONE, True)
        if t == '7':
            return Val({(): F(7)}, ONE, True)
        return Val({(t,): F(1)}, ONE, True)

    if t[0] == 'neg':
        a = evaluate(t[1])
        return a and Val(padd({}, a.num, -1), a.den, a.simple)

    a, b = evaluate(t[1]), evaluate(t[2])

    if a is None or b is None:
        return None

    if t[0] in '+-':
        sign = 1 if t[0] == '+' else -1
        return Val(padd(pmul(a.num, b.den), pmul(b.num, a.den), sign), pmul(a.den, b.den), a.simple and b.simple)

    if t[0] == '*':
        simple = a.simple and b.simple and (is_const(a.num) or is_const(b.num))
        return Val(pmul(a.num, b.num), pmul(a.den, b.den), simple)

    if not b.num:
        return None

    return Val(pmul(a.num, b.den), pmul(a.den, b.num), a.simple and b.simple and is_const(b.num))


def affine(val, variables):
    'coefficients (one per variable, and the constant) of a value, None when it is not affine'

    monos = [(v,) for v in variables] + [()]

    # find c with num = c * den: compare at the leading monomial of den
    lead = max(val.den, key=lambda m: (len(m), m))
    rest = dict(val.num)
    coef = {m: F(0) for m in monos}

    for m in sorted(monos, key=lambda m: (-len(m), m), reverse=False):
        key = tuple(sorted(lead + m))
        c = rest.get(key, F(0)) / val.den[lead]
        coef[m] = c
        rest = padd(rest, pmul({m: c}, val.den) if c else {}, -1)

    return None if rest else [coef[m] for m in monos]


PREC = {'+': 1, '-': 1, '*': 2, '/': 2, 'neg': 3}


def show(t, style=0):
    'print a tree, style 0: only necessary parentheses, 1: all of them'

    if isinstance(t, str):
        return t

    if t[0] == 'neg':
        inner = show(t[1], style)
        if not isinstance(t[1], str):
            inner = f'({inner})'
        return f'-{inner}'

    left, right = show(t[1], style), show(t[2], style)

    if not isinstance(t[1], str) and (style or PREC[t[1][0]] < PREC[t[0]]):
        left = f'({left})'

    if not isinstance(t[2], str) and (style or t[2][0] == 'neg' or PREC[t[2][0]] < PREC[t[0]] or
                                      PREC[t[2][0]] == PREC[t[0]] and t[0] in '-/'):
        right = f'({right})'

    return f'{left}{t[0]}{right}' if style else f'{left} {t[0]} {right}'


def trees(depth, atoms):
    'all trees up to a depth'

    rv = list(atoms)

    for _ in range(depth):
        rv = list(atoms) + [('neg', t) for t in rv] + [(op, a, b) for op in '+-*/' for a in rv for b in rv]

    return rv


def configs(tier):
    'left subtree x operation'

    quick = tier == 'quick'
    atoms = ['x', 'y', '2', '0.25', 'alpha', 'beta'] + ([] if quick else ['I', '7', '0'])
    small = ['x', 'y', '0.25', 'alpha'] if quick else atoms
    subs = trees(1, small)

    for i in range(len(subs)):
        for op in '+-*/':
            yield {'kind': 'expr', 'atoms': small, 'op': op, 'left': i}

    subs = trees(1, ['x', 'y', '2', 'beta', '0'] if quick else atoms)

    for i in range(len(subs)):
        for op in ('<=', '>='):
            yield {'kind': 'cond', 'atoms': ['x', 'y', '2', 'beta', '0'] if quick else atoms, 'op': op, 'left': i}

    # three-level chains with an atom on one side
    for a in atoms:
        for op in '+-*/':
            yield {'kind': 'chain', 'atoms': small, 'atom': a, 'op': op}

    yield {'kind': 'bad'}


def translate(func, *args, **kwargs):
    'call the library: result or exception'

    try:
        return func(*args, **kwargs), None
    except Exception as e: # pylint: disable=broad-except
        return None, e


def check_row(what, row, want, st):
    'compare a matrix row'

    if len(row) != len(want) or not np.allclose(np.array(row, dtype=float), np.array([float(w) for w in want]), rtol=1e-12,
                                                atol=1e-12):
        raise Violation(f'{what}: row {row}, should be {[float(w) for w in want]}')

    st.count('accepted')


def check_expr(t, index, st):
    'one tree, as dynamics and reset'

    val = evaluate(t)
    orders = (['x', 'y'], ['y', 'x'], ['I', 'x', 'y'], ['y', 'z', 'I', 'x'])
    variables = orders[index % 4] # every tree in one order; the orders of subtrees are covered by other trees

    if index % 4 < 2 and 'I' in leaves(t):
        variables = orders[2 + index % 2]

    want = None if val is None else affine(val, variables)
    text = show(t, index % 2)
    n = len(variables)

    for aff in (False, True):
        for func in (symbolic.make_dynamics_mat, symbolic.make_reset_mat):
            if func is symbolic.make_reset_mat and index % 3 != (0 if aff else 1):
                continue

            what = f'{func.__name__}({variables}, {text!r}, {CONSTS}, has_affine_variable={aff})'
            ders = [text] + ['0'] * (n - 2) + [f'{variables[0]} + 2*{variables[1]}']
            vcopy, dcopy, ccopy = list(variables), list(ders), dict(CONSTS)
            mat, exc = translate(func, vcopy, dcopy, ccopy, **affine_arg(aff, index))
            st.states += 1

            if vcopy != variables or dcopy != ders or ccopy != CONSTS:
                raise Violation(f'{what}: changes its arguments')

            if want is None or (not aff and want[-1] != 0):
                if exc is None:
                    raise Violation(f'{what}: gives {mat}, but the expression is not '
                                    f'{"affine" if aff else "linear"}')
                st.count('rejected')
                continue

            if exc is not None:
                if val.simple:
                    raise Violation(f'{what}: rejected although affine: {exc}')

                st.count('cancelling')
                continue

            check_row(what, mat[0], want if aff else want[:-1], st)
            rows = n + (1 if aff else 0)

            if len(mat) != rows:
                raise Violation(f'{what}: {len(mat)} rows, should be {rows}')

            check_row(what, mat[n - 1], [1, 2] + [0] * (rows - 2), st)

            if aff:
                last = [0] * n + [1 if func is symbolic.make_reset_mat else 0]
                check_row(what, mat[-1], last, st)


def affine_arg(aff, index):
    'the optional argument'
    return {'has_affine_variable': aff} if aff or index % 2 else {}


def leaves(t):
    'atoms'
    return [t] if isinstance(t, str) else sum((leaves(s) for s in t[1:]), [])


def check_cond(left, right, op, index, st):
    'one condition'

    variables = (['x', 'y'], ['y', 'x'])[index % 2] if 'I' not in leaves(left) + leaves(right) else ['y', 'I', 'x']
    diff = evaluate(('-', left, right) if op == '<=' else ('-', right, left))
    want = None if diff is None else affine(diff, variables)
    text = f'{show(left)} {op} {show(right)}' if index % 3 else f'{show(left)}{op}{show(right)}'

    for aff in (False, True):
        what = f'make_condition({variables}, {text!r}, {CONSTS}, has_affine_variable={aff})'
        conds = [text, 'y <= x + 2'] if index % 2 else ['y <= x + 2', text]
        pos = 0 if index % 2 else 1
        copy = list(conds)
        rv, exc = translate(symbolic.make_condition, variables, copy, dict(CONSTS), **affine_arg(aff, index))
        st.states += 1

        if conds != copy:
            raise Violation(f'{what}: changes its argument')

        if want is None:
            if exc is None:
                raise Violation(f'{what}: gives {rv}, but the condition is not affine')
            st.count('rejected')
            continue

        if exc is not None:
            if diff.simple:
                raise Violation(f'{what}: rejected although affine: {exc}')
            st.count('cancelling')
            continue

        mat, rhs = rv
        check_row(what, mat[pos], want[:-1] + ([0] if aff else []), st)
        check_row(what, mat[1 - pos], [{'x': -1, 'y': 1, 'I': 0}[v] for v in variables] + ([0] if aff else []), st)
        check_row(what + ' right-hand sides', [rhs[pos], rhs[1 - pos]], [-want[-1], 2], st)


BAD_CONDS = ['x', 'x < 1', 'x > 1', 'x == 1', 'x = 1', '0 <= x <= 1', '0 >= x >= 1', 'x <= 1 >= y', 'x + y', 'x <= w',
             'x <= x * y', 'x*x <= 1', 'x <= ', '<= x', 'x <= 1 & y <= 1', 'x != 1']
BAD_DERS = ['w', 'x*y', 'x**2', 'sin(x)', '1/x', 'x/y', 'exp(y)', 'abs(x)', '2**x', 'x <= 1', 'x +', '', '(x', 'x y', '2 x',
            'max(x,y)', 'alpha**x', 'sqrt(x)', 'x*sin(y)', 'x + w*y', 'I*x', 'I', 'gamma*x', 'alpha*w']


def check_bad(st):
    'texts which have no meaning'

    for c in BAD_CONDS:
        for other in ([], ['x <= 1']):
            for conds in ([c] + other, other + [c]):
                rv, exc = translate(symbolic.make_condition, ['x', 'y'], conds, dict(CONSTS))
                st.states += 1
                if exc is None:
                    raise Violation(f'make_condition accepts {conds}: {rv}')
                st.count('rejected')

    for d in BAD_DERS:
        for func in (symbolic.make_dynamics_mat, symbolic.make_reset_mat):
            for ders in ([d, 'x'], ['x', d]):
                for aff in (False, True):
                    rv, exc = translate(func, ['x', 'y'], ders, dict(CONSTS), has_affine_variable=aff)
                    st.states += 1
                    if exc is None:
                        raise Violation(f'{func.__name__} accepts {ders}: {rv}')
                    st.count('rejected')


def check(cfg):
    'one part of the space'

    st = Stats()

    if cfg['kind'] == 'bad':
        check_bad(st)
    else:
        subs = trees(1, cfg['atoms'])

        if cfg['kind'] == 'expr':
            for j, right in enumerate(subs):
                check_expr((cfg['op'], subs[cfg['left']], right), cfg['left'] + j, st)
        elif cfg['kind'] == 'cond':
            for j, right in enumerate(subs):
                check_cond(subs[cfg['left']], right, cfg['op'], cfg['left'] + j, st)
        else:
            for j, t in enumerate(subs):
                op, a = cfg['op'], cfg['atom']

                if not isinstance(t, str):
                    for k, u in enumerate([(op, a, t), (op, t, a), ('neg', (op, a, t)), ('-', a, (op, t, a))]):
                        check_expr(u, j + k, st)

    st.transitions = st.traces = st.states
    st.sample = cfg
    return st


def min_counts(_tier):
    'vacuity guard'
    return {'accepted': 10000, 'rejected': 10000}
