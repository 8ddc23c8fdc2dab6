'exact linear programming over the rationals (two-phase simplex with the rule of Bland): a reference for small programs'

from fractions import Fraction

LE, GE, EQ = '<=', '>=', '='


def solve(rows, obj):
    '''minimize obj * x subject to rows: (coefficients, type, rhs), x free.

    returns ('optimal', value), ('unbounded', None) or ('infeasible', None)'''

    n = len(obj)
    nrows = len(rows)

    # columns: x+ (n), x- (n), one slack per inequality, one artificial per row
    slack = [i for i, r in enumerate(rows) if r[1] != EQ]
    ncols = 2 * n + len(slack) + nrows
    tab = []
    basis = []

    for i, (coefs, ty, rhs) in enumerate(rows):
        line = [Fraction(0)] * (ncols + 1)

        for j, c in enumerate(coefs):
            line[j] = Fraction(c)
            line[n + j] = -Fraction(c)

        if ty != EQ:
            line[2 * n + slack.index(i)] = Fraction(1 if ty == LE else -1)

        line[-1] = Fraction(rhs)

        if line[-1] < 0:
            line = [-x for x in line]

        line[2 * n + len(slack) + i] = Fraction(1)
        basis.append(2 * n + len(slack) + i)
        tab.append(line)

    nart = 2 * n + len(slack)

    def run(cost, allowed):
        'pivot until optimal; cost is reduced in place. False if unbounded'

        while True:
            enter = next((j for j in range(allowed) if cost[j] < 0), None)

            if enter is None:
                return True

            leave = None

            for i, line in enumerate(tab):
                if line[enter] > 0:
                    ratio = (line[-1] / line[enter], basis[i])
                    if leave is None or ratio < leave[0]:
                        leave = (ratio, i)

            if leave is None:
                return False

            pivot(leave[1], enter, cost)

    def pivot(i, j, cost):
        'make column j basic in row i'

        p = tab[i][j]
        tab[i] = [x / p for x in tab[i]]
        line = tab[i]

        for k, other in enumerate(tab):
            if k != i and other[j]:
                f = other[j]
                tab[k] = [x - f * y for x, y in zip(other, line)]

        if cost[j]:
            f = cost[j]
            cost[:] = [x - f * y for x, y in zip(cost, line)]

        basis[i] = j

    # phase one: sum of the artificials
    cost = [Fraction(0)] * (ncols + 1)

    for line in tab:
        for j in range(nart):
            cost[j] -= line[j]
        cost[-1] -= line[-1]

    run(cost, nart)

    if cost[-1] != 0:
        return 'infeasible', None

    # drive the artificials out of the basis (a row where this is impossible is redundant)
    for i in range(nrows - 1, -1, -1):
        if basis[i] >= nart:
            j = next((j for j in range(nart) if tab[i][j]), None)

            if j is None:
                del tab[i]
                del basis[i]
            else:
                pivot(i, j, cost)

    cost = [Fraction(0)] * (ncols + 1)

    for j, c in enumerate(obj):
        cost[j] = Fraction(c)
        cost[n + j] = -Fraction(c)

    for i, b in enumerate(basis):
        if cost[b]:
            f = cost[b]
            cost = [x - f * y for x, y in zip(cost, tab[i])]

    if not run(cost, nart):
        return 'unbounded', None

    return 'optimal', float(-cost[-1])
