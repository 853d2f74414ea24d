"""The step law of simulated walks, measured: the simulator chooses the draws and finds where the outcome changes."""

from . import mt
from .target import T

EPS = 2.0 ** -40


class Unmeasurable(Exception):
    """The outcome is not a step function of the one draw: only statistics can decide."""


def cells(f, fixed, points=17, depth=0):
    """f(u) -> outcome, a step function on [0, 1); -> {outcome: measure}. `fixed` lists alternatives of f that must agree."""
    seen, f0 = {}, f

    def f(u):  # noqa
        seen[u] = f0(u)
        return seen[u]
    grid = [(i + 0.5) / points for i in range(points)]
    grid = [0.0] + grid + [mt.MAX]
    vals = [f(u) for u in grid]
    for g in fixed:
        for u, v in list(zip(grid, vals))[:: 3]:
            if g(u) != v:
                raise Unmeasurable
    out = {}

    def add(v, w):
        out[v] = out.get(v, 0.0) + w

    def split(a, va, b, vb, level):
        # the outcome may take other values in between: found by looking at the middle, level by level
        if b - a <= EPS or level > 45:
            add(va, (b - a) / 2)
            add(vb, (b - a) / 2)
            return
        if va == vb:
            add(va, b - a)
            return
        c = (a + b) / 2
        vc = f(c)
        split(a, va, c, vc, level + 1)
        split(c, vc, b, vb, level + 1)
    for k in range(len(grid) - 1):
        split(grid[k], vals[k], grid[k + 1], vals[k + 1], 0)
    line = [seen[u] for u in sorted(seen)]
    if line != sorted(line) and line != sorted(line, reverse=True):
        raise Unmeasurable
    return out


def mc_row(m, s, n, f=None):
    """The law of the step from s, as a list."""
    def go(tail):
        def g(u):
            mt.set_doubles([u] + tail)
            return int(m.next(s, output_index=True))
        return g
    c = cells(go([0.3, 0.9]), [go([0.8, 0.1])])
    if any(not 0 <= k < n for k in c):
        raise Unmeasurable
    return [c.get(j, 0.0) for j in range(n)]


def mc_law(m):
    n = len(m.states)
    return [mc_row(m, s, n) for s in range(n)]


def hmm_law(m):
    """-> p, e: the law of the next state from each state, and of the symbol emitted from each state that can be entered."""
    n, k = len(m.states), len(m.symbols)
    p, reach = [], {}
    for s in range(n):
        def go(u0, u2):
            def g(u):
                mt.set_doubles([u0, u, u2, 0.7])
                return int(m.next(s, target='state', output_index=True))
            return g
        c = cells(go(0.3, 0.9), [go(0.8, 0.1), go(0.05, 0.5)])
        p.append([c.get(j, 0.0) for j in range(n)])
        for i in range(60):
            u = (i + 0.5) / 60
            mt.set_doubles([0.3, u, 0.9, 0.7])
            reach.setdefault(int(m.next(s, target='state', output_index=True)), []).append((s, u))
    e = [None] * n
    for j, ways in reach.items():
        rows = []
        for s, u1 in (ways[0], ways[-1]):
            def go(u0):
                def g(u):
                    mt.set_doubles([u0, u1, u, 0.7])
                    a, b = m.next(s, target='both', output_index=True)
                    if int(a) != j:
                        raise Unmeasurable
                    return int(b)
                return g
            c = cells(go(0.3), [go(0.9)])
            rows.append([c.get(y, 0.0) for y in range(k)])
        if any(abs(a - b) > 1e-9 for a, b in zip(*rows)):
            raise Unmeasurable
        e[j] = rows[0]
    return p, e
