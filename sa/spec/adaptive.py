"""Reference bookkeeping of the adaptive method."""
import numpy as np


def split_update(costs, sols, new, part, ev):
    for c in new:
        v, x = ev.subset_cost(part[c])
        if c < len(costs):
            costs[c] = v
            sols[c] = x
        else:
            costs.append(v)
            sols.append(x)


def merge_update(costs, sols, deleted, target, part, ev):
    for c in np.sort(deleted)[::-1]:
        del costs[c]
        del sols[c]
    for c in target:
        v, x = ev.subset_cost(part[c])
        costs[c] = v
        sols[c] = x
