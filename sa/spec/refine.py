"""Reference splitting, merging and initial partitions."""
import random
import numpy as np
import math


def infeasible_members(part, bad):
    out = [0] * len(part)
    if len(bad) == 0:
        return out
    for c in range(len(part)):
        for s in part[c]:
            if s in bad:
                out[c] += 1
    return out


def missing(part, bad, eps, N):
    cnt = infeasible_members(part, bad)
    q = 0
    for c in range(len(part)):
        if cnt[c] != 0:
            q += 1
    return math.floor(eps*N + 1e-6) + 1 - q


def halves(xs):
    if len(xs) >= 2:
        return xs[0:len(xs):2], xs[1:len(xs):2]
    return xs, []


def refine_random(old, flag, bad, eps, N):
    part = [list(p) for p in old]
    new = []
    mu = missing(part, bad, eps, N)
    done = 0
    while done < mu:
        order = list(range(len(part)))
        random.shuffle(order)
        cnt = infeasible_members(part, bad)
        for c in order:
            if done < mu and cnt[c] >= 2:
                done += 1
                xs = random.sample(part[c], len(part[c]))
                li, ri = halves([s for s in xs if flag[s]])
                lf, rf = halves([s for s in xs if not flag[s]])
                part[c] = li + lf
                part.append(ri + rf)
                if c not in new:
                    new.append(c)
                new.append(len(part) - 1)
    return len(part), part, new


class CostSplitter:
    def __init__(self, bad, costs, vUB, ref):
        self.bad = bad
        self.costs = costs
        self.vUB = vUB
        self.ref = ref
        self.mem_value = dict()
        self.mem_left = dict()
        self.mem_right = dict()

    def look(self, c):
        sc = self.part[c]
        inf = [s for s in sc if s in self.bad]
        key = (frozenset(sc), frozenset(inf))
        if key not in self.mem_value:
            v, le, ri = self.ref.accurate_obj_split(sc, inf)
            self.value[c] = v
            self.left[c] = le
            self.right[c] = ri
            self.mem_value[key] = v
            self.mem_left[key] = le
            self.mem_right[key] = ri
        else:
            self.value[c] = self.mem_value[key]
            self.left[c] = self.mem_left[key]
            self.right[c] = self.mem_right[key]

    def first(self):
        cnt = infeasible_members(self.part, self.bad)
        order = np.argsort(np.array(self.costs)).tolist()
        todo = [c for c in order if cnt[c] >= 2]
        self.value = dict()
        self.left = dict()
        self.right = dict()
        for i in range(min(len(todo), len(order))):
            self.look(todo[i])

    def step(self):
        free = [c for c, v in self.value.items() if v <= self.vUB]
        if len(free) > 0:
            pick = -1
            top = -1e6
            for c in free:
                if self.value[c] >= top:
                    pick = c
                    top = self.value[c]
        else:
            pick = min(self.value, key=self.value.get)
        self.part[pick] = self.left[pick]
        self.part.append(self.right[pick])
        cnt = infeasible_members(self.part, self.bad)
        if cnt[pick] >= 2:
            self.look(pick)
        else:
            self.value.pop(pick)
        last = len(self.part) - 1
        if cnt[last] >= 2:
            self.look(last)
        self.done += 1
        if pick not in self.new:
            self.new.append(pick)
        self.new.append(len(self.part) - 1)

    def refine(self, old, eps, N):
        self.new = []
        self.part = [list(p) for p in old]
        self.mu = missing(self.part, self.bad, eps, N)
        self.done = 0
        self.first()
        while self.done < self.mu:
            self.step()
        return len(self.part), self.part, self.new


def refine_cost(old, bad, eps, N, costs, vUB, ref):
    return CostSplitter(bad, costs, vUB, ref).refine(old, eps, N)


def merge_all(part, group):
    low = min(group)
    target = []
    deleted = []
    for s in group:
        if s != low:
            if min(low, s) not in target:
                target.append(min(low, s))
            part[min(low, s)] = part[min(low, s)] + part[max(low, s)]
            deleted.append(max(low, s))
    for c in np.sort(deleted)[::-1]:
        del part[c]
    return part, len(part), target, deleted


def margin(c, inst, x):
    m = inst.get_nb_constraints(c)
    A = inst.get_matrix_A(c)
    b = inst.get_vector_b(c)
    out = np.inf
    for i in range(m):
        v = b[i] - A[i, :].dot(x)
        nrm = np.linalg.norm(A[i, :])
        if nrm != 0:
            v = v/nrm
        out = min(v, out)
    return out


def margins(group, inst, x):
    return [margin(c, inst, x) for c in group]


def merge_feasible(part, x, group, mu, inst):
    v = dict()
    for c in group:
        v[c] = margin(c, inst, x)
    return merge_all(part, sorted(v, key=v.get, reverse=True)[:mu + 1])


def random_partition(N, k):
    xs = random.sample(list(range(N)), N)
    return [xs[i::k] for i in range(k)]


def cost_partition(costs, N, k):
    order = np.argsort(-np.array(costs))
    out = []
    for i in range(k):
        p = []
        for j in range(i, N, k):
            p.append(order[j])
        out.append(p)
    return out


def cheap(new, part, ev, vUB):
    return max([ev.subset_cost(part[c])[0] for c in new]) <= vUB


def with_costliest(feasible, costs, n):
    order = [c for _, c in sorted(zip(costs, range(n)), reverse=True)]
    for s in order:
        if s not in feasible:
            top = s
            break
    return feasible + [top]
