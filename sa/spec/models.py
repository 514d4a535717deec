"""Reference formulations.  Lowered by the same front end as the repository and
compared with it; never executed."""
import gurobipy as gp
from gurobipy import GRB
import numpy as np


def var_x(model, n, cont):
    return model.addVars(n, lb=np.full(n, 0.0), ub=np.full(n, 1.0),
                         vtype=[GRB.CONTINUOUS if cont else GRB.BINARY for j in range(n)])


def base(n, c, cont):
    model = gp.Model()
    x = var_x(model, n, cont)
    model.setObjective(gp.quicksum(c[j]*x[j] for j in range(n)), GRB.MAXIMIZE)
    return model, x


def row(a, x, n):
    return gp.quicksum(a[j]*x[j] for j in range(n))


def chance(model, z, L, p, eps):
    model.addConstr(gp.quicksum(p[s]*z[s] for s in range(L)) >= 1 - eps)


def cclp(N, n, m, A, b, c, p, eps, cont):
    model, x = base(n, c, cont)
    z = model.addVars(N, vtype=GRB.BINARY)
    for s in range(N):
        for i in range(m):
            model.addGenConstrIndicator(z[s], True, row(A[s][i], x, n) <= b[s][i])
    chance(model, z, N, p, eps)
    return z


def cclp_part(P, L, n, m, A, b, c, p, eps, cont):
    model, x = base(n, c, cont)
    z = model.addVars(L, vtype=GRB.BINARY)
    for t in range(L):
        for l in range(len(P[t])):
            for i in range(m):
                model.addGenConstrIndicator(
                    z[t], True, row(A[P[t][l]][i], x, n) <= b[P[t][l]][i])
    chance(model, z, L, p, eps)
    return z


def warm(z, zs):
    for s in zs:
        z[s].start = zs[s]


def bigm(finder, N, n, m, A, b, c, p, eps, cont, tol):
    model, x = base(n, c, cont)
    z = model.addVars(N, vtype=GRB.BINARY)
    for s in range(N):
        M = finder.get_vector_big_M(s)
        for i in range(m):
            if M[i] >= tol:
                model.addConstr(row(A[s][i], x, n) <= b[s][i] + M[i]*(1 - z[s]))
            else:
                if not cont:
                    model.addConstr(row(A[s][i], x, n) <= b[s][i] + M[i])
    chance(model, z, N, p, eps)
    return z


def bigm_part(finder, P, L, n, m, A, b, c, p, eps, cont, tol):
    model, x = base(n, c, cont)
    z = model.addVars(L, vtype=GRB.BINARY)
    for t in range(L):
        M = finder.get_vector_big_M(t)
        for l in range(len(P[t])):
            for i in range(m):
                r = row(A[P[t][l]][i], x, n)
                if M[l*m + i] >= tol:
                    model.addConstr(r <= b[P[t][l]][i] + M[l*m + i]*(1 - z[t]))
                else:
                    if not cont:
                        model.addConstr(r <= b[P[t][l]][i] + M[l*m + i])
    chance(model, z, L, p, eps)
    return z


def fix(model, z, s):
    model.addConstr(z[s] == 0)


def deter(S, n, m, A, b, c, cont):
    model, x = base(n, c, cont)
    for l in range(len(S)):
        for i in range(m):
            model.addConstr(row(A[S[l]][i], x, n) <= b[S[l]][i])
    return model, x


def add_one(model, x, s, n, m, A, b):
    for i in range(m):
        model.addConstr(row(A[s][i], x, n) <= b[s][i])


def add_many(model, x, S, n, m, A, b):
    for l in range(len(S)):
        for i in range(m):
            model.addConstr(row(A[S[l]][i], x, n) <= b[S[l]][i])


def remove_one(cons, model, s, m):
    for i in range(m):
        model.remove(cons[s][i])


def belotti(s, i, n, A, b, c, cont, vub):
    model = gp.Model()
    x = var_x(model, n, cont)
    model.addConstr(row(c, x, n) <= vub)
    model.setObjective(row(A[s][i], x, n) - b[s][i], GRB.MAXIMIZE)


def accurate(S, infeasible, n, m, A, b, c):
    model = gp.Model()
    T = len(S)
    alpha = model.addVar(lb=-GRB.INFINITY, ub=GRB.INFINITY, vtype=GRB.CONTINUOUS)
    model.setObjective(alpha, GRB.MINIMIZE)
    left = model.addVars(T, vtype=GRB.BINARY)
    right = model.addVars(T, vtype=GRB.BINARY)
    side(model, alpha, left, S, T, n, m, A, b, c)
    side(model, alpha, right, S, T, n, m, A, b, c)
    for s in range(T):
        model.addConstr(left[s] + right[s] == 1)
    model.addConstr(gp.quicksum(left[s] for s in range(T) if S[s] in infeasible) >= 1)
    model.addConstr(gp.quicksum(right[s] for s in range(T) if S[s] in infeasible) >= 1)


def side(model, alpha, pi, S, T, n, m, A, b, c):
    # LP dual of  max c x  s.t.  A_s x <= b_s (s on this side),  0 <= x <= 1
    lam = model.addVars(2*n)
    eta = [model.addVars(m) for s in range(T)]
    model.addConstr(alpha >= gp.quicksum(lam[n + j] for j in range(n)) + gp.quicksum(
        gp.quicksum(b[S[s]][i]*eta[s][i] for i in range(m)) for s in range(T)))
    for j in range(n):
        model.addConstr(lam[n + j] - lam[j] + gp.quicksum(
            gp.quicksum(A[S[s]][i][j]*eta[s][i] for i in range(m))
            for s in range(T)) == c[j])
    for s in range(T):
        for i in range(m):
            model.addGenConstrIndicator(pi[s], False, eta[s][i] == 0)
