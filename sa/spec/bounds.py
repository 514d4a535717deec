"""Reference bounding rules."""
import numpy as np


def quantile_bound(costs, proba, eps, tol):
    order = np.argsort(costs)
    total = 0
    for s in order:
        total += proba[s]
        if total >= eps + tol:
            return costs[s]


def selected(index, proba, eps, tol):
    order = np.argsort(index)
    total = 0
    count = 0
    for s in order:
        count += 1
        total += proba[s]
        if total >= 1 - eps - tol:
            return [order[i] for i in range(count)]


def violation_index(A, b, x, N, m, tol):
    out = np.zeros(N)
    for s in range(N):
        for i in range(m):
            v = max(A[s][i].dot(x) - b[s][i], 0)
            if v < tol:
                v = 0
            nrm = np.linalg.norm(A[s][i])
            if nrm != 0:
                v = v/nrm
            out[s] = max(out[s], v)
    return out


def largest_cost(costs, sols):
    t = np.argmax(costs)
    z = np.zeros(len(costs))
    z[t] = 1
    return sols[t], z, costs[t], costs[t]


def best_incumbent(cands, c, vUB, vLB, inst, tol):
    objs = np.matmul(np.array(cands), c)
    order = np.argsort(-objs)
    for i in order:
        if objs[i] <= vUB and objs[i] >= vLB + tol:
            if inst.is_feasible(cands[i])[0]:
                return True, cands[i], objs[i]
    return False, None, None


def project(model, prev, sel, vLB, prevLB, cut):
    model.remove([s for s in prev if s not in sel])
    model.add([s for s in sel if s not in prev])
    if cut:
        if vLB >= prevLB:
            model.grb_model.addConstr(model.grb_objective >= vLB)
    model.solve()
