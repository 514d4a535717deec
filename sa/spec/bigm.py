"""Reference big-M values."""
import math
import numpy as np
import gurobipy as gp
from gurobipy import GRB


def knapsack(profit, const, weight, cap):
    """largest value of profit.x - const over x in [0, 1] with weight.x <= cap."""
    value = -const
    zeros = np.where(weight == 0.0)[0]
    for j in zeros:
        value += profit[j]
    p = profit[weight != 0.0]
    w = weight[weight != 0.0]
    order = np.argsort(-np.divide(p, w))
    used = 0.0
    for j in order:
        left = cap - used
        if left <= 0.0:
            break
        part = min(left / w[j], 1.0)
        if p[j] > 0.0:
            value += p[j]*part
            used += w[j]*part
    return value


def belotti_mip(sizes, rows, rhs, N, n, c, vUB):
    model = gp.Model("BigMKnapsackModel")
    x = model.addVars(n, lb=0, ub=1, vtype=GRB.BINARY, name="x")
    model.addConstr(gp.quicksum(c[j]*x[j] for j in range(n)) <= vUB)
    out = []
    for s in range(N):
        out.append([])
        for i in range(sizes[s]):
            model.setObjective(gp.quicksum(rows(s, i, j)*x[j] for j in range(n)) - rhs(s, i),
                               GRB.MAXIMIZE)
            model.optimize()
            if model.status == GRB.INTERRUPTED:
                raise KeyboardInterrupt
            out[s].append(model.ObjBound)
    return out


def belotti_plain(A, b, N, m, n, c, vUB):
    return belotti_mip([m for s in range(N)], lambda s, i, j: A[s][i][j], lambda s, i: b[s][i],
                       N, n, c, vUB)


def belotti_part(A, b, P, L, m, n, c, vUB):
    return belotti_mip([m*len(P[s]) for s in range(L)],
                       lambda s, i, j: A[P[s][i // m]][i % m][j],
                       lambda s, i: b[P[s][i // m]][i % m], L, n, c, vUB)


def song_plain(viol, s, i, N, eps):
    v = [viol[s, t, i] for t in range(N)]
    v.sort()
    return v[min(int(math.floor(eps*N + 1e-6) + 1), N - 1)]


def song_part(viol, P, L, c, j, m, eps):
    v = [min([viol[P[c][j // m], t, j % m] for t in P[d]]) for d in range(L)]
    v.sort()
    return v[min(int(math.floor(eps*L + 1e-6) + 1), L - 1)]
