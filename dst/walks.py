"""Reference model: what the walks that follow a step law do. Plain computations, independent of the library."""

import math

from .target import T


def reach(p):
    n = len(p)
    r = [[i == j or p[i][j] > 0 for j in range(n)] for i in range(n)]
    for k in range(n):
        for i in range(n):
            if r[i][k]:
                for j in range(n):
                    if r[k][j]:
                        r[i][j] = True
    return r


def classes(p):
    """-> (communicating classes as lists, the set of indices of the closed ones)"""
    n, r = len(p), reach(p)
    seen, out, closed = set(), [], set()
    for i in range(n):
        if i not in seen:
            c = [j for j in range(n) if r[i][j] and r[j][i]]
            seen.update(c)
            if all(r[j][i] for j in range(n) if r[i][j]):
                closed.add(len(out))
            out.append(c)
    return out, closed


def period(p, c):
    """The greatest common divisor of the lengths of the cycles inside the class; 0 without any."""
    c = list(c)
    dist, queue, g = {c[0]: 0}, [c[0]], 0
    for u in queue:
        for v in c:
            if p[u][v] > 0:
                if v not in dist:
                    dist[v] = dist[u] + 1
                    queue.append(v)
                else:
                    g = math.gcd(g, dist[u] + 1 - dist[v])
    return abs(g)


def cyclic(p):
    """The cyclic classes of an irreducible chain."""
    n = len(p)
    d = period(p, range(n))
    dist, queue = {0: 0}, [0]
    for u in queue:
        for v in range(n):
            if p[u][v] > 0 and v not in dist:
                dist[v] = dist[u] + 1
                queue.append(v)
    return [sorted(v for v in range(n) if dist[v] % d == k) for k in range(d)]


def hit_prob(p, targets):
    np = T.np
    p = np.asarray(p, dtype=float)
    n, r, targets = len(p), reach(p), sorted(targets)
    h = np.zeros(n)
    h[targets] = 1.0
    s = [i for i in range(n) if i not in targets and any(r[i][t] for t in targets)]
    if s:
        h[s] = np.linalg.solve(np.eye(len(s)) - p[np.ix_(s, s)], p[np.ix_(s, targets)].sum(axis=1))
    return h


def sure(p, targets):
    """The states from which the targets are hit with probability one: those that cannot reach a state that cannot reach the targets without passing a target."""
    n, targets = len(p), set(targets)
    q = [[(1.0 if i == j else 0.0) if i in targets else p[i][j] for j in range(n)] for i in range(n)]
    r = reach(q)
    lost = [i for i in range(n) if not any(r[i][t] for t in targets)]
    return [i for i in range(n) if i in targets or not any(r[i][x] for x in lost)]


def hit_time(p, targets):
    np = T.np
    p = np.asarray(p, dtype=float)
    n = len(p)
    t = np.full(n, np.inf)
    t[list(targets)] = 0.0
    s = [i for i in sure(p.tolist(), targets) if i not in targets]
    if s:
        t[s] = np.linalg.solve(np.eye(len(s)) - p[np.ix_(s, s)], np.ones(len(s)))
    return t


def stationary(p, c):
    """The long-run frequencies inside the closed class c."""
    np = T.np
    p = np.asarray(p, dtype=float)
    q = p[np.ix_(c, c)]
    k = len(c)
    a = np.vstack((q.T - np.eye(k), np.ones(k)))
    b = np.zeros(k + 1)
    b[k] = 1.0
    x = np.linalg.lstsq(a, b, rcond=None)[0]
    out = np.zeros(len(p))
    out[c] = x
    return out


def first_passage(p, i, targets, steps):
    np = T.np
    p = np.asarray(p, dtype=float)
    out, d, targets = [], p[i].copy(), list(targets)
    for _ in range(steps):
        out.append(float(d[targets].sum()))
        d[targets] = 0.0
        d = d @ p
    return out


def visits(p):
    """Expected number of visits after the start."""
    np = T.np
    p = np.asarray(p, dtype=float)
    n, r = len(p), reach(p)
    cl, closed = classes(p.tolist())
    v = np.zeros((n, n))
    tr = sorted(s for k, c in enumerate(cl) if k not in closed for s in c)
    if tr:
        v[np.ix_(tr, tr)] = np.linalg.inv(np.eye(len(tr)) - p[np.ix_(tr, tr)]) - np.eye(len(tr))
    for k in closed:
        for j in cl[k]:
            for i in range(n):
                if r[i][j]:
                    v[i, j] = np.inf
    return v
