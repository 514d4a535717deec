"""reference: the layout of the instance files."""


def parsed_c(rows, j):
    return round(rows[1][j], 1)


def parsed_a(rows, s, i, j):
    return round(rows[2 + s*int(rows[0][1]) + i][j], 1)


def parsed_b(rows, i):
    return round(rows[-1][i], 1)


def items(rows):
    return int(rows[0][0])


def constraints(rows):
    return int(rows[0][1])


def scenarios(rows):
    return int(rows[0][2])


def number(arg):
    return int(arg)


def profit(rows, j):
    return float(rows[1][j])


def weight(rows, i, j):
    return float(rows[2 + i][j])


def spread(rows, i, j):
    return abs(float(rows[2 + i][j])*0.1)


def capacity(rows, i):
    return float(rows[2 + int(rows[0][1])][i])


def clipped(x):
    if x < 0:
        return 0
    if x > 1:
        return 1
    return x


def clipped2(x):
    return min(1, max(0, x))


def clipped3(x):
    return max(0, min(1, x))


def sampled(x, fails):
    v = x*(1 - fails)
    if v < 0:
        v = 0
    return round(v, 4)


def name(rows, n, index):
    return ('ccmknap-' + str(int(rows[0][0])) + '-' + str(int(rows[0][1])) + '-' + str(int(n))
            + '-' + str(index) + '.csv')
