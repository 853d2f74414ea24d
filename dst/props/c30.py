import math
from fractions import Fraction

from .. import law, models, walks
from .base import Base, T


def growth(p):
    """The factor by which the number of possible walks grows with every step, and how clearly."""
    np = T.np
    cl, _ = walks.classes(p)
    out = []
    for c in cl:
        a = np.array([[1.0 if p[i][j] > 0 else 0.0 for j in c] for i in c])
        out.append(float(np.abs(np.linalg.eigvals(a)).max()) if len(c) > 1 else float(a[0, 0]))
    top = max(out)
    return top, [c for c, x in zip(cl, out) if x > top - 1e-6]


def eliminated(rows):
    """-> (rank, determinant) in exact arithmetic"""
    a = [[Fraction(x) for x in r] for r in rows]
    n, rank, det = len(a), 0, Fraction(1)
    for c in range(n):
        k = next((i for i in range(rank, n) if a[i][c]), None)
        if k is None:
            det = Fraction(0)
            continue
        if k != rank:
            a[k], a[rank] = a[rank], a[k]
            det = -det
        det *= a[rank][c]
        for i in range(rank + 1, n):
            f = a[i][c] / a[rank][c]
            if f:
                a[i] = [x - f * y for x, y in zip(a[i], a[rank])]
        rank += 1
    return rank, det


class C30(Base):
    id = 'C30'
    episodes = {'quick': 800, 'thorough': 30000}
    rule = ('A run builds a chain (reducible, periodic, reversible, nearly uncoupled, ...), measures the step law of its walks through chosen draws, and compares entropies, spectral gaps, mixing and relaxation rates, timescales, sensitivities, rank, '
            'determinant and the kinds of symmetry, asked for in a drawn order, with what follows from the measured law: the mean surprise of a stationary step, the growth of the number of possible walks, the speed at which walks '
            'forget where they started, and the stationary law of walks whose steps were changed a little. Distinct = distinct chains; non-trivial: at least eight quantities were compared.')
    measure = 'distinct chains'
    stub = ['the global NumPy generator, whose next uniform numbers are chosen by the simulator (while the step law is measured)']
    assumptions = ['rates are compared where the second eigenvalue is at least 1e-4, ranks where the singular values are clearly separated, order relations where no rounding decides them']

    def generate(self, rng, i, tier):
        n = models.size(rng, 7, 30)
        style = rng.choice(models.STYLES) if n <= 7 else rng.choice(['dense', 'sparse', 'ring', 'absorbing', 'reducible', 'reversible', 'doubly', 'lumpable'])
        d = models.gen_mc(rng, n=n, style=style, exact=rng.random() < 0.7)
        if rng.random() < 0.12:         # all but uncoupled
            e = 2.0 ** -rng.randint(8, 30)
            d['p'] = [[(1.0 - e) * (i == j) + e * x for j, x in enumerate(r)] for i, r in enumerate(d['p'])]
        if rng.random() < 0.2:          # rows that are alike, sorted or mirrored
            p = [list(r) for r in d['p']]
            how = rng.randrange(4)
            if how == 0:
                a, b = rng.sample(range(n), 2)
                p[a] = list(p[b])
            elif how == 1:
                # every row is the former one with some probability moved to the right
                row = models._row_units(rng, n, list(range(n)), 16 * n)
                p = []
                for _ in range(n):
                    p.append([x / (16 * n) for x in row])
                    a, b = sorted(rng.sample(range(n), 2))
                    t = rng.randint(0, row[a])
                    row[a] -= t
                    row[b] += t
                if rng.random() < 0.3:
                    a, b = rng.sample(range(n), 2)
                    p[a], p[b] = p[b], p[a]
            elif how == 2:
                p = [[p[min(i, j)][max(i, j)] / n for j in range(n)] for i in range(n)]
                for x in range(n):
                    p[x][x] = 0.0
                    p[x][x] = 1.0 - sum(p[x])
                if rng.random() < 0.3:
                    t = min(p[0][-1], p[0][0]) / 2 ** rng.randint(1, 12)
                    p[0][0] += t
                    p[0][-1] -= t
            d = dict(d, p=p)
        return {'model': d, 'order': rng.getrandbits(30), 'labels': rng.random() < 0.5, 'state': rng.randrange(n), 'moves': [[rng.randrange(n), rng.randrange(n), rng.randrange(n)] for _ in range(4)]}

    def execute(self, ep, ctx):
        import random
        np, d = T.np, ep['model']
        m = models.build(d)
        n, names = len(d['p']), models.states_of(d)
        p = m.p.copy()
        try:
            lw = np.array(law.mc_law(m))
            ctx.stat('laws measured')
            ctx.stat('fault:draws chosen by the simulator', 2 * n)
            if not np.allclose(lw, p, rtol=0, atol=1e-9):
                p = lw
        except law.Unmeasurable:
            ctx.stat('laws not measurable')
        pl = p.tolist()
        cl, closed = walks.classes(pl)
        ergodic = len(cl) == 1 and walks.period(pl, cl[0]) == 1
        text = f'{d}'
        done = [0]

        def check(what, have, want, tol=1e-6):
            done[0] += 1
            ctx.stat('compared ' + what)
            if have is None or want is None:
                if have is not want:
                    ctx.fail('quantity', f'{what}: {have}, the walks give {want}; {text}')
                return
            a, b = np.asarray(have, dtype=float), np.asarray(want, dtype=float)
            if a.shape != b.shape or not np.allclose(a, b, rtol=tol, atol=tol):
                ctx.fail('quantity', f'{what}: {a.tolist()}, the walks give {b.tolist()}; {text}')

        top, where = growth(pl)
        clear = len(where) == 1         # (several classes of the same growth make a badly conditioned problem)

        def entropies():
            if clear:
                check('topological_entropy', m.topological_entropy, math.log(top), 1e-5)
            if len(closed) > 1:
                check('entropy_rate', m.entropy_rate, None)
                check('entropy_rate_normalized', m.entropy_rate_normalized, None)
                return
            pi = walks.stationary(pl, cl[sorted(closed)[0]])
            if np.linalg.cond(np.eye(n) - p + np.outer(np.ones(n), pi)) > 1e10:
                return
            h = -math.fsum(pi[i] * x * math.log(x) for i in range(n) for x in pl[i] if x > 0)
            check('entropy_rate', m.entropy_rate, h)
            if clear and (h > 1e-6 or h < 1e-10):
                check('entropy_rate_normalized', m.entropy_rate_normalized, h / math.log(top) if h > 1e-6 else 0.0, 1e-5)

        def forgetting():
            if not ergodic:
                for name in ('spectral_gap', 'mixing_rate', 'relaxation_rate', 'implied_timescales'):
                    check(name, getattr(m, name), None)
                return
            pi = walks.stationary(pl, list(range(n)))
            # what is left of a start after a step, without the part that is never forgotten
            ev = np.sort(np.abs(np.linalg.eigvals(p - np.outer(np.ones(n), pi))))[::-1][:n - 1]
            g = 1.0 - ev[0]
            cond = float(np.linalg.cond(np.linalg.eig(p)[1]))          # (how far rounding moves the eigenvalues)
            loose = 1e-6 + 1e-15 * (100 + cond) / g if g > 0 else 1
            if 1e-4 < ev[0] and loose < 1e-2:
                check('spectral_gap', m.spectral_gap / g, 1.0, loose)
                check('relaxation_rate', m.relaxation_rate * g, 1.0, loose)
                check('mixing_rate', m.mixing_rate * -math.log(ev[0]), 1.0, loose)
                if cond > 1e6:
                    return
                it = m.implied_timescales
                if it is None or len(it) != n or it[0] != np.inf:
                    ctx.fail('quantity', f'implied_timescales: {it}; {text}')
                k = sum(x > 1e-4 for x in ev)
                check('implied_timescales', 1.0 / np.asarray(it[1:k + 1], dtype=float), -np.log(ev[:k]), 1e-5)

        def algebra():
            rank, det = eliminated(pl if p is not m.p else m.p.tolist())
            s = np.linalg.svd(p, compute_uv=False)
            if all(x > 1e-7 or x < 1e-14 for x in s) and sum(x > 1e-7 for x in s) == rank:
                check('rank', m.rank, rank)
            check('determinant', m.determinant, float(det), 1e-9)

        def shapes():
            off = np.abs(p.sum(axis=0) - 1.0).max()
            if off < 1e-9 or off > 1e-4:
                check('is_doubly_stochastic', m.is_doubly_stochastic, bool(off < 1e-9))
            off = np.abs(p - p.T).max()
            if off < 1e-10 or off > 1e-4:
                check('is_symmetric', m.is_symmetric, bool(off < 1e-10))
            tails = [[Fraction(0)] * n for _ in range(n)]
            for i in range(n):
                for k in range(n):
                    tails[i][k] = sum(Fraction(x) for x in d['p'][i][k:])
            gaps = [float(tails[i + 1][k] - tails[i][k]) for i in range(n - 1) for k in range(1, n)]
            exact = all(x * 4096 == int(x * 4096) for r in d['p'] for x in r)
            if all(abs(x) > 1e-9 for x in gaps) or exact:
                check('is_stochastically_monotone', m.is_stochastically_monotone, min(gaps) >= 0)
            edges = sum(pl[i][j] > 0 for i in range(n) for j in range(n) if i != j)
            check('density', m.density, edges / (n * (n - 1)))
            want = np.zeros((n, n * n))
            for i in range(n):
                for j in range(n):
                    if i != j:
                        want[i, i * n + j] = want[j, i * n + j] = 1.0
            check('incidence_matrix', m.incidence_matrix, want)
            if len(closed) == 1:
                pi = walks.stationary(pl, cl[sorted(closed)[0]])
                flow = pi[:, None] * p
                off = np.abs(flow - flow.T).max()
                if np.linalg.cond(np.eye(n) - p + np.outer(np.ones(n), pi)) < 1e10 and (off < 1e-11 or off > 1e-4):
                    check('is_reversible', m.is_reversible, bool(off < 1e-11))
            else:
                check('is_reversible', m.is_reversible, False)

        def sensitivity():
            s = ep['state']
            if len(cl) > 1:
                check('sensitivity', m.sensitivity(names[s] if ep['labels'] else s), None)
                return
            have = np.asarray(m.sensitivity(names[s] if ep['labels'] else s), dtype=float)
            pi = walks.stationary(pl, list(range(n)))
            if have.shape != (n, n):
                ctx.fail('quantity', f'sensitivity: {have.tolist()}; {text}')
            z = np.eye(n) - p + np.outer(np.ones(n), pi)
            if np.linalg.cond(z) > 1e6:
                return
            z = np.linalg.inv(z)
            scale = float(np.abs(z).max())
            if scale > 1e5:
                return
            for i, a, b in ep['moves']:
                # some of the probability of the steps from i to a goes to the steps from i to b: to first order in it
                check('sensitivity', (have[i, b] - have[i, a]) / scale, pi[i] * (z[b, s] - z[a, s]) / scale, 1e-6)

        def rows():
            for i in range(n):
                x = names[i] if ep['labels'] else i
                check('conditional_probabilities', m.conditional_probabilities(x), p[i], 1e-9)
                y = ep['moves'][0][0] % n
                check('transition_probability', m.transition_probability(names[y] if ep['labels'] else y, x), p[i, y], 1e-9)

        todo = [entropies, forgetting, algebra, shapes, sensitivity, rows]
        random.Random(ep['order']).shuffle(todo)
        for f in todo:
            f()
        ctx.log(done[0])
        ctx.key(d['p'])
        ctx.nontrivial = done[0] >= 8


PROP = C30()
