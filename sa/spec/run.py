"""Reference: time budget, gap, warm starts, result rows, instance files."""
import csv
import time
import numpy as np
from gurobipy import GRB


def gap(vLB, vUB):
    if vLB == -np.inf or vUB == np.inf:
        return np.inf
    if vLB == 0:
        return 0.0 if vUB <= 1e-8 else np.inf
    return (vUB - vLB)/vLB


def warm_start(zUB, deleted):
    out = dict()
    count = 0
    for i in range(len(zUB)):
        if i not in deleted:
            if zUB[i] == 1:
                out[count] = 1
            count += 1
    return out


def instance_name(inst, scen, idx):
    return inst + "-" + str(scen) + "-" + str(idx)


def output_name(out, inst, eps, cont, method):
    return (out + inst + "-" + "{:.0f}".format(eps*100) + "-" + str(cont) + "-" + str(method)
            + ".csv")


def trace_name(out, inst, eps, cont, method):
    return (out + inst + "-" + "{:.0f}".format(eps*100) + "-" + str(cont) + "-" + str(method)
            + "-iter.csv")


def adaptive_row(name, n, m, N, cont, eps, limit, gap, big, codes, iteration, subsets, time,
                 vLB, vUB, final_gap):
    return ([name, n, m, N, cont*1, eps, limit, gap*100, big*1] + codes
            + [iteration, subsets, time, vLB, vUB, final_gap*100])


def milp_row(name, n, m, N, cont, eps, limit, gap, big, code, bigtime, time, vLB, vUB,
             final_gap):
    return [name, n, m, N, cont*1, eps, limit, gap*100, big*1, code, bigtime, time, vLB, vUB,
            final_gap*100]


def summary(results, m, ids, required, milp, part, TOL, TIME, ITER, GAP):
    all_solved = True
    nb = 0
    for j in ids:
        if results[j-1][GAP] <= required + TOL:
            nb += 1
        else:
            all_solved = False
    if m in milp:
        avg = [0.0]
    else:
        avg = [0.0, 0.0]
    for j in ids:
        row = results[j-1]
        if all_solved:
            avg[0] += row[TIME]
        else:
            avg[0] += row[GAP]
        if m in part:
            avg[1] += row[ITER]
    avg = [avg[i]/len(ids) for i in range(len(avg))]
    time, gap = np.inf, np.inf
    if all_solved:
        time = avg[0]
    else:
        gap = avg[0]
    text = "{:.2f}".format(avg[0])
    if all_solved:
        avg[0] = text + 's'
    else:
        avg[0] = text + '\\%(' + str(nb) + ')'
    return time, nb, gap, avg


def read_name(path, i, s, j, e, cont, m):
    return (path + i + "-" + str(s) + "-" + str(j) + "-" + "{:.0f}".format(e*100) + "-"
            + str(cont) + "-" + str(m) + ".csv")


def read_cells(row):
    return [row[0]] + [float(cell) for cell in row[1:]]


class Tracer:
    """rows recorded by the solver callback."""

    def __init__(self, elapsed):
        self.elapsed = elapsed
        self.start = time.time()
        self.best = None
        self.bound = None
        self.rows = []

    def step(self, model, where):
        if where == GRB.Callback.MIP:
            best = model.cbGet(GRB.Callback.MIP_OBJBST)
            bound = model.cbGet(GRB.Callback.MIP_OBJBND)
            if best != self.best or bound != self.bound:
                self.best = best
                self.bound = bound
                self.rows.append([time.time() - self.start + self.elapsed, -best, -bound])


def trace_rows(model, elapsed):
    tracer = Tracer(elapsed)
    model.optimize(lambda m, where: tracer.step(m, where))
    return tracer.rows


def iteration_row(iteration, subsets, vLB, vUB, gap, now, start):
    return [iteration, now - start, -vLB, -vUB, gap*100, subsets]
