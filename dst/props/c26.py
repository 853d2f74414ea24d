import itertools
import math

from .. import law, models
from .base import Base, T
from .c25 import measured


def two_urns(n2, i):
    """Ehrenfest: one of all balls, each equally likely, changes its urn; i balls are in the first."""
    out = {}
    for b in range(n2):
        j = i - 1 if b < i else i + 1
        out[j] = out.get(j, 0.0) + 1 / n2
    return out


def exchange(n2, i):
    """Bernoulli-Laplace: two urns of n2 balls, as many white as black in all; i white balls in the first; one ball of each is exchanged."""
    out = {}
    for a in range(n2):
        for b in range(n2):
            j = i - (a < i) + (b < n2 - i)
            out[j] = out.get(j, 0.0) + 1 / n2 ** 2
    return out


def moran(n, i, s, u, v, loss):
    """One individual dies and one, chosen by fitness, has an offspring that may mutate; i individuals of the first type."""
    if i in (0, n):
        return {i: 1.0}
    out = {}
    f = (1 - s) * i + (n - i)
    first = ((1 - s) * i / f, (n - i) / f)
    for dies, pd in ((1, i / n), (0, (n - i) / n)):
        for parent, pp in ((1, first[0]), (0, first[1])):
            for child in (1, 0):
                pm = (1 - u if child else u) if parent else (v if child else 1 - v)
                j = i - dies + child
                out[j] = out.get(j, 0.0) + pd * pp * pm
    if loss:       # what the library does: the backward rate takes the place of the forward one in the loss of an individual
        down = i / n * ((1 - s) * i * v + (n - i) * (1 - v)) / f
        up = out.get(i + 1, 0.0)
        out = {i - 1: down, i: 1 - down - up, i + 1: up}
    return out


def wright_fisher(n, i, s, u, v):
    """Every individual of the next generation draws its type: mutation, then selection."""
    if i in (0, n):
        return {i: 1.0}
    x = i / n
    x = x * (1 - u) + (1 - x) * v
    x = x * (1 + s) / (x * (1 + s) + 1 - x)
    out = {}
    if n > 8:
        return {j: math.comb(n, j) * x ** j * (1 - x) ** (n - j) for j in range(n + 1)}
    for types in itertools.product((0, 1), repeat=n):
        w = 1.0
        for t in types:
            w *= x if t else 1 - x
        j = sum(types)
        out[j] = out.get(j, 0.0) + w
    return out


def gauss(x):
    return 0.5 * math.erfc(-x / math.sqrt(2.0))


def rouwenhorst(n, i, rho):
    """The sum of n - 1 independent chains of two states with the given persistence; i of them are up."""
    z = (1 + rho) / 2
    out = {}
    for a in range(i + 1):
        for b in range(n - i):
            w = math.comb(i, a) * z ** a * (1 - z) ** (i - a) * math.comb(n - 1 - i, b) * (1 - z) ** b * z ** (n - 1 - i - b)
            out[a + b] = out.get(a + b, 0.0) + w
    return out


def tauchen(n, i, rho, k):
    """One step of the process from a point of an even grid, which is then moved to the closest point of the grid."""
    top = k / math.sqrt(1 - rho * rho)           # (in units of the innovation)
    x = [-top + 2 * top * j / (n - 1) for j in range(n)]
    cuts = [-math.inf] + [(a + b) / 2 for a, b in zip(x, x[1:])] + [math.inf]
    return {j: gauss(cuts[j + 1] - rho * x[i]) - gauss(cuts[j] - rho * x[i]) for j in range(n)}


def adda_cooper(n, i, rho):
    """The stationary process seen through n cells of the same probability."""
    np = T.np
    from scipy.special import ndtr, ndtri
    s = math.sqrt(1 - rho * rho)
    z = ndtri(np.arange(n + 1) / n)
    x = ndtri((i + (np.arange(4000) + 0.5) / 4000) / n)
    row = [float(np.mean(ndtr((z[j + 1] - rho * x) / s) - ndtr((z[j] - rho * x) / s))) for j in range(n)]
    return {j: v / sum(row) for j, v in enumerate(row)}


def tauchen_hussey(n, i, alpha, sigma, rho, k, wide):
    """One step of the process to the nodes of the quadrature for the normal law of deviation k, by the importance of the nodes."""
    x, w = T.np.polynomial.hermite.hermgauss(n)
    nodes = [alpha + (2.0 if wide else math.sqrt(2.0)) * k * v for v in x]
    mean = (1 - rho) * alpha + rho * nodes[i]
    logs = [math.log(v) - ((y - mean) / sigma) ** 2 / 2 + ((y - alpha) / k) ** 2 / 2 if v else -math.inf for v, y in zip(w, nodes)]
    row = [math.exp(v - max(logs)) for v in logs]
    return {j: v / sum(row) for j, v in enumerate(row)}


APPROXIMATIONS = ('adda-cooper', 'rouwenhorst', 'tauchen', 'tauchen-hussey')


class C26(Base):
    id = 'C26'
    episodes = {'quick': 500, 'thorough': 9000}
    rule = ('A run draws a process (gambler\'s ruin, birth-death, Ehrenfest, Bernoulli-Laplace, Moran, Wright-Fisher, standing still), a size and parameters, generates the chain and measures its step law by walks '
            'over chosen draws. The reference runs the mechanism itself over all outcomes of its random choices. Non-trivial: every law was measured. Distinct = distinct (process, parameters).')
    measure = 'distinct (process, parameters) pairs'
    assumptions = ['fixation ends the Moran and the Wright-Fisher process', 'the selection intensity lowers the fitness of the first type in the Moran process and raises it in the Wright-Fisher process, as recorded by the tests of the library']

    def generate(self, rng, i, tier):
        kind = rng.choice(['ruin', 'birth_death', 'birth_death', 'ehrenfest', 'bernoulli-laplace', 'moran', 'moran', 'wright-fisher', 'wright-fisher', 'identity', 'adda-cooper', 'rouwenhorst', 'tauchen', 'tauchen-hussey'])
        big = rng.random() < 0.15
        huge = rng.random() < 0.08

        def prob():
            return rng.choice([0.0, 1.0, 0.5, 0.25, 0.1, 0.3, round(rng.random(), 3), 2.0 ** -rng.randint(3, 34), 1.0 - 2.0 ** -rng.randint(3, 34), rng.random()])
        if kind == 'ruin':
            n = rng.randint(16, 60) if huge else rng.randint(3, 15 if big else 7)
            a = [n, rng.choice([0.5, 0.25, 0.1, round(rng.uniform(0.001, 0.999), 3), rng.uniform(1e-6, 1 - 1e-6)])]
        elif kind == 'birth_death':
            n = rng.randint(16, 60) if huge else rng.randint(2, 12 if big else 6)
            p, q = [], []
            for k in range(n):
                x, y = prob(), prob()
                if x + y > 1:
                    x, y = x / 2, y / 2
                p.append(x if k < n - 1 else 0.0)
                q.append(y if k else 0.0)
            a = [p, q]
        elif kind in ('ehrenfest', 'bernoulli-laplace'):
            a = [rng.randint(8, 24) if huge else rng.randint(1, 6 if big else 3)]
            n = 2 * a[0] + 1
        elif kind in APPROXIMATIONS:
            n = rng.randint(8, {'adda-cooper': 12}.get(kind, 40)) if huge else rng.randint(2, 6)
            sigma = rng.choice([1.0, 0.1, round(rng.uniform(0.01, 9), 3), 2.0 ** rng.randint(-20, 12)])
            rho = rng.choice([0.0, 1.0, -1.0, 0.5, 0.9, -0.25, 0.99, round(rng.uniform(-0.99, 0.99), 3)] * 2 + [rng.choice([1, 1, -1]) * (1 - 2.0 ** -rng.uniform(6, 20))] * 4)
            if 0.98 < abs(rho) < 1 and kind != 'adda-cooper' and rng.random() < 0.6:      # (a finer grid, so that something moves)
                n = rng.randint(8, 40)
            k = None
            if kind == 'tauchen' and rng.random() < 0.6:
                k = rng.choice([1.0, 2.0, 3.0, round(rng.uniform(1, 6), 2)])
            if kind == 'tauchen-hussey' and rng.random() < 0.6:
                k = sigma * rng.choice([1.0, 0.5, 2.0, round(rng.uniform(0.2, 4), 2), 2.0 ** rng.randint(-4, 10)])
            a = [n, rng.choice([0.0, 1.0, -3.0, round(rng.uniform(-50, 50), 2)]), sigma, rho, k]
        elif kind == 'identity':
            n = rng.randint(16, 60) if huge else rng.randint(2, 6)
            a = [n]
        else:
            a = [rng.randint(16, 60) if huge else rng.randint(2, 8 if big else 5), rng.choice([0.0, 0.1, -0.1, round(rng.uniform(-0.9, 0.9), 2), 0.99 if kind == 'moran' else 3.0])]
            hi = 0.2499 / a[0] if kind == 'wright-fisher' else 0.9
            u = rng.choice([0.0, 1e-9, round(rng.uniform(0.001, hi), 4), rng.uniform(0.0001, hi)])
            a += [u, u if rng.random() < 0.4 else rng.choice([1e-9, rng.uniform(0.0001, hi)])]
            n = a[0] + 1
        return {'kind': kind, 'args': a, 'labels': models.gen_labels(rng, n), 'n': n, 'arrays': rng.random() < 0.5}

    def execute(self, ep, ctx):
        kind, a, n = ep['kind'], ep['args'], ep['n']
        labels = ep['labels']
        what = f'{kind} {a} with labels {labels}'
        alt, near = None, 1e-8
        if kind == 'ruin':
            m = T.MC.gamblers_ruin(a[0], a[1], labels)
            law_of = [{i: 1.0} if i in (0, n - 1) else {i - 1: 1 - a[1], i + 1: a[1]} for i in range(n)]
        elif kind == 'birth_death':
            v = [T.np.array(x) if ep['arrays'] else list(x) for x in a]
            m = T.MC.birth_death(v[0], v[1], labels)
            law_of = [{i - 1: a[1][i], i: 1 - a[0][i] - a[1][i], i + 1: a[0][i]} for i in range(n)]
            near = 2e-11
        elif kind == 'identity':
            m = T.MC.identity(a[0], labels)
            law_of = [{i: 1.0} for i in range(n)]
        elif kind in ('ehrenfest', 'bernoulli-laplace'):
            m = T.MC.urn_model(kind, a[0], labels)
            law_of = [(two_urns if kind == 'ehrenfest' else exchange)(2 * a[0], i) for i in range(n)]
        elif kind in APPROXIMATIONS:
            alpha, sigma, rho, k = a[1:]
            m = T.MC.approximation(a[0], kind, alpha, sigma, rho, labels, **({} if k is None else {'k': k}))
            if kind == 'rouwenhorst':
                law_of = [rouwenhorst(n, i, rho) for i in range(n)]
            elif abs(rho) == 1.0 and (kind == 'adda-cooper' or kind == 'tauchen'):
                law_of = [{i if rho > 0 else n - 1 - i: 1.0} for i in range(n)]
            elif kind == 'tauchen':
                law_of = [tauchen(n, i, rho, 3.0 if k is None else k) for i in range(n)]
            elif kind == 'adda-cooper':
                law_of = [adda_cooper(n, i, rho) for i in range(n)]
            else:
                r = math.copysign(min(abs(rho), 1 - 1e-8), rho)
                c = 0.5 + r / 4
                k = c * sigma + (1 - c) * sigma / math.sqrt(1 - r * r) if k is None else k
                law_of = [tauchen_hussey(n, i, alpha, sigma, r, k, False) for i in range(n)]
                alt = [tauchen_hussey(n, i, alpha, sigma, r, k, True) for i in range(n)]
            near = {'adda-cooper': 1e-4 if abs(rho) < 0.995 else 2e-2, 'tauchen': 1e-8 if abs(rho) < 1 else 1e-3, 'tauchen-hussey': 1e-6}.get(kind, near)
        else:
            m = T.MC.population_genetics_model(kind, *a, labels)
            if kind == 'moran':
                law_of = [moran(*([a[0], i] + a[1:]), False) for i in range(n)]
                alt = [moran(*([a[0], i] + a[1:]), True) for i in range(n)]
            else:
                law_of = [wright_fisher(*([a[0], i] + a[1:])) for i in range(n)]
        ctx.stat('process ' + kind)
        if list(m.states) != (labels or [str(i) for i in range(1, n + 1)]):
            ctx.fail('labels', f'{what}: {m.states}')
        L = measured(m, ctx)
        off = [i for i in range(n) if any(abs(L[i][j] - law_of[i].get(j, 0.0)) > near for j in range(n))]
        ctx.log(kind, a)
        ctx.nontrivial = True
        ctx.key(kind, a)
        if off:
            i = off[0]
            known = alt is not None and not any(abs(L[x][j] - alt[x].get(j, 0.0)) > near for x in off for j in range(n))
            ctx.fail('law', f'{what}: from state {i} the walk has the law {L[i]}, the process {[law_of[i].get(j, 0.0) for j in range(n)]}', ('moran-loss-by-the-forward-mutation-rate' if kind == 'moran' else 'tauchen-hussey-nodes-too-wide') if known else None)


PROP = C26()
