"""Meaning of library functions the lowering has no dedicated normal form for, written in
the analysed language itself; the interpreter inlines these bodies like any other function."""
import numpy as np

_none = object


def reduce(f, seq):
    first = True
    acc = 0
    for x in seq:
        if first:
            acc = x
            first = False
        else:
            acc = f(acc, x)
    return acc


def reduce_init(f, seq, init):
    acc = init
    for x in seq:
        acc = f(acc, x)
    return acc


def accumulate(seq):
    out = []
    acc = 0
    for x in seq:
        acc = acc + x
        out.append(acc)
    return out


def bisect_left(a, x):
    n = 0
    for y in a:
        if y < x:
            n += 1
    return n


def bisect_right(a, x):
    n = 0
    for y in a:
        if y <= x:
            n += 1
    return n


def insort(a, x):
    a.append(x)
    a.sort()


def nlargest(n, seq):
    return sorted(seq, reverse=True)[:n]


def nsmallest(n, seq):
    return sorted(seq)[:n]


def nlargest_key(n, seq, key):
    return sorted(seq, key=key, reverse=True)[:n]


def nsmallest_key(n, seq, key):
    return sorted(seq, key=key)[:n]


def takewhile(p, seq):
    out = []
    for x in seq:
        if not p(x):
            break
        out.append(x)
    return out


def pairwise(seq):
    return [(seq[i], seq[i + 1]) for i in range(len(seq) - 1)]


def compress(seq, sel):
    return [x for x, s in zip(seq, sel) if s]


def filterfalse(p, seq):
    return [x for x in seq if not p(x)]


def starmap(f, seq):
    return [f(*x) for x in seq]


def repeat_n(x, n):
    return [x for _ in range(n)]


def tile1(a, n):
    return np.array([a[i % len(a)] for i in range(len(a) * n)])


def tile2(a, r, n):
    return np.array([[a[i % len(a)] for i in range(len(a) * n)] for _ in range(r)])


def tile22(a, r, n):
    return np.array([[a[j % len(a)][i % len(a[0])] for i in range(len(a[0]) * n)]
                     for j in range(len(a) * r)])


def np_repeat(a, n):
    return np.array([a[i // n] for i in range(len(a) * n)])


def np_repeat0(a, n):
    return np.array([a[i // n] for i in range(len(a) * n)])


def np_delete(a, i):
    return np.array([a[j] for j in range(len(a)) if j != i])


def np_delete_seq(a, s):
    return np.array([a[j] for j in range(len(a)) if j not in s])


def np_diff(a):
    return np.array([a[j + 1] - a[j] for j in range(len(a) - 1)])


def np_clip(a, lo, hi):
    return np.minimum(np.maximum(a, lo), hi)


def np_outer(a, b):
    return np.array([[x * y for y in b] for x in a])


def np_ptp(a):
    return np.max(a) - np.min(a)


def np_stack(seq):
    return np.array([x for x in seq])


def np_column_stack(seq):
    return np.array([[x[i] for x in seq] for i in range(len(seq[0]))])


def np_vstack(seq):
    return np.array([x for x in seq])


def np_vstack2(seq):
    return np.array([r for x in seq for r in x])


def np_argwhere(m):
    return np.array([[i] for i in range(len(m)) if m[i]])


def np_take(a, ix):
    return np.array([a[i] for i in ix])


def np_quantile(a, q):
    s = np.sort(a)
    p = q * (len(s) - 1)
    i = int(p)
    if i >= len(s) - 1:
        return s[len(s) - 1]
    return s[i] + (s[i + 1] - s[i]) * (p - i)


def np_percentile(a, q):
    return np_quantile(a, q / 100)


def np_quantile_lower(a, q):
    s = np.sort(a)
    return s[int(q * (len(s) - 1))]


def np_quantile_higher(a, q):
    s = np.sort(a)
    p = q * (len(s) - 1)
    i = int(p)
    if i < p:
        i += 1
    return s[i]


def np_median(a):
    return np_quantile(a, 0.5)


def np_setdiff1d(a, b):
    return np.array([x for x in np.unique(a) if x not in b])


def np_intersect1d(a, b):
    return np.array([x for x in np.unique(a) if x in b])


def np_union1d(a, b):
    return np.unique(np.concatenate((a, b)))


def np_bincount(a, n):
    out = [0] * n
    for x in a:
        out[x] += 1
    return np.array(out)


def np_array_split(a, n):
    return [a[i] for i in range(n)]


def np_fromiter(a):
    return np.array([x for x in a])


def np_select_default(a):
    return a


def np_ix0(a):
    return a


def np_var(a):
    m = np.mean(a)
    return np.mean(np.array([(x - m) ** 2 for x in a]))


def np_linspace(a, b, n):
    return np.array([a + (b - a) * i / (n - 1) for i in range(n)])


def np_eye(n):
    return np.array([[1.0 if i == j else 0.0 for j in range(n)] for i in range(n)])


def repeat_np(x, n):
    return np.array([x for _ in range(n)])


def norm2(a):
    return np.linalg.norm(a)


def np_argpartition(a, k):
    return np.argsort(a)


def norm1(a):
    return np.sum(np.abs(a))


def norminf(a):
    return np.max(np.abs(a))


def np_partition(a, k):
    return np.sort(a)


def statistics_mean(a):
    return sum(a) / len(a)


def math_prod(a):
    acc = 1
    for x in a:
        acc = acc * x
    return acc


def op_add(a, b):
    return a + b


def op_sub(a, b):
    return a - b


def op_mul(a, b):
    return a * b


def op_truediv(a, b):
    return a / b


def op_lt(a, b):
    return a < b


def op_le(a, b):
    return a <= b


def op_gt(a, b):
    return a > b


def op_ge(a, b):
    return a >= b


def op_eq(a, b):
    return a == b


def op_ne(a, b):
    return a != b


def op_and(a, b):
    return a & b


def op_or(a, b):
    return a | b


def op_not(a):
    return not a


def op_neg(a):
    return -a


def op_contains(a, b):
    return b in a


def op_getitem(a, b):
    return a[b]


def np_average_w(a, w):
    return sum([x * y for x, y in zip(a, w)]) / sum(w)


def np_average_w2(a, w):
    return np.array([sum([a[i][j] * w[i] for i in range(len(a))])
                     for j in range(len(a[0]))]) / sum(w)


def np_hypot(a, b):
    return (a * a + b * b) ** 0.5


def np_sum_where(a, w):
    return sum([a[i] for i in range(len(a)) if w[i]])


def np_max_initial(a, v):
    return max([x for x in a] + [v])


def np_min_initial(a, v):
    return min([x for x in a] + [v])


def sum2_axis1(a):
    return np.array([sum(x) for x in a])
