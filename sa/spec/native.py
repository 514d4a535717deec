"""Reference of the pairwise violations on flat arrays."""
from vclib import vsort, vnew


class Ratio:
    def __init__(self):
        self.p = None
        self.po = 0
        self.w = None
        self.wo = 0

    def __call__(self, i, j):
        if self.p[self.po + i] == 0 and self.w[self.wo + i] == 0:
            return False
        if self.p[self.po + j] == 0 and self.w[self.wo + j] == 0:
            return True
        return self.p[self.po + i]*self.w[self.wo + j] > self.p[self.po + j]*self.w[self.wo + i]


def fill(p, po, loss, lo, w, wo, cap, co, n, best, bo, order, back):
    value = -loss[lo]
    used = 0.0
    for a in range(n):
        i = order[a]
        if w[wo + i] <= 1e-6:
            value += p[po + i]
    for a in (range(n - 1, -1, -1) if back else range(0, n, 1)):
        j = order[a]
        if w[wo + j] <= 1e-6:
            continue
        used += w[wo + j]
        if used >= cap[co] - 1e-6:
            value += p[po + j]*(cap[co] - (used - w[wo + j]))/w[wo + j]
            break
        value += p[po + j]
        if value >= best[bo] + 1e-6:
            break
    if value < best[bo]:
        best[bo] = value


def pair(A, b, V, order, less, n, si, ti, sr, tr, sv, tv):
    less.p = A
    less.po = si
    less.w = A
    less.wo = ti
    vsort(order, 0, n, less)
    fill(A, si, b, sr, A, ti, b, tr, n, V, sv, order, False)
    fill(A, ti, b, tr, A, si, b, sr, n, V, tv, order, True)


def kernel(A, b, k, n, m, V):
    less = Ratio()
    order = vnew(n)
    for j in range(n):
        order[j] = j
    for s in range(k):
        for i in range(m):
            for l in range(i + 1, m):
                pair(A, b, V, order, less, n, s*m*n + i*n, s*m*n + l*n, s*m + i, s*m + l,
                     s*k*m + s*m + i, s*k*m + s*m + l)
    for s in range(k):
        for t in range(s + 1, k):
            for i in range(m):
                for l in range(m):
                    pair(A, b, V, order, less, n, s*m*n + i*n, t*m*n + l*n, s*m + i, t*m + l,
                         s*k*m + t*m + i, t*k*m + s*m + l)
