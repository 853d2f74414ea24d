import math
import random

from .. import law, models, mt
from .base import Base, T

LEVEL = 1e-14


def tail(k, n, p):
    """The probability of a count at least as far out as k on its side, of n trials of probability p."""
    from scipy.stats import binom
    return min(1.0, 2.0 * min(binom.cdf(k, n, p), binom.sf(k - 1, n, p)))


class Counts:

    def __init__(self):
        self.c = {}

    def add(self, cond, v, n):
        r = self.c.get(cond)
        if r is None:
            r = self.c[cond] = [0] * n
        r[v] += 1


class C15(Base):
    id = 'C15'
    episodes = {'quick': 160, 'thorough': 4000}
    rule = ('A run measures the step law of a chain or hidden model from every state, by choosing the draw of a step and locating (to 2^-40) the points where the outcome changes, and then records long walks made under '
            'all kinds of calls from one state of the global generator and from seeds; conditional frequencies (given state, previous state, symbol, time, start) are compared with the model. '
            'Distinct = distinct models; non-trivial: the law was measured and at least 1000 steps were recorded.')
    measure = 'distinct models'
    stub = ['the global NumPy generator, whose next uniform numbers are chosen by the simulator']
    assumptions = ['NumPy\'s Mersenne Twister is a fair source of uniform numbers', 'walk frequencies: a deviation is reported when its probability is below 1e-14; deviations too small for that show only in the measured law']

    def generate(self, rng, i, tier):
        if rng.random() < 0.5:
            d = models.gen_mc(rng, n=models.size(rng, rng.choice([3, 5, 9]), 40), exact=rng.random() < 0.4)
        else:
            d = models.gen_hmm(rng, n=models.size(rng, rng.choice([3, 5]), 14), k=models.size(rng, rng.choice([3, 5]), 14), exact=rng.random() < 0.4)
            if rng.random() < 0.5:           # at least two symbols of good weight, so that correlations can show
                k = len(d['e'][0])
                d['e'] = [[(x + y) / 2 for x, y in zip(r, [1.0 / k] * k)] for r in d['e']]
        if rng.random() < 0.35:
            n = len(d['p'])
            d['p'] = [[(x + y) / 2 for x, y in zip(r, [1.0 / n] * n)] for r in d['p']]
        return {'model': d, 'seed': rng.getrandbits(32), 'walks': 24 if tier == 'quick' else 60}

    def execute(self, ep, ctx):
        np, d = T.np, ep['model']
        hmm = d['k'] == 'hmm'
        p, e, n = d['p'], d.get('e'), len(d['p'])
        m = models.build(d)
        ctx.key(d)

        # 1. the law of one step, measured
        try:
            if hmm:
                lp, le = law.hmm_law(m)
            else:
                lp, le = law.mc_law(m), None
            ctx.stat('laws measured')
            for name, have, want in (('transition', lp, p), ('emission', le, e)):
                for i, r in enumerate(have or []):
                    if r is None:
                        continue
                    t = sum(want[i])
                    for j, x in enumerate(r):
                        if abs(x - want[i][j] / t) > 1e-9:
                            ctx.fail('step-law', f'{name} law from state {i} of {d}: measured {r}, the model says {want[i]}')
            # the steps of a long walk are the same function of their draws (chains: one draw each)
        except law.Unmeasurable:
            ctx.stat('laws not measurable')

        # 2. recorded walks
        rng = random.Random(ep['seed'])
        np.random.seed(ep['seed'])
        k = len(e[0]) if hmm else 0
        tr, em, start = Counts(), Counts(), [0] * n
        starts = total = 0
        for w in range(ep['walks']):
            steps = rng.choice([2, 3, 10, 200, 600])
            reps = max(1, 300 // steps)
            init = rng.choice([None, None, rng.randrange(n)])
            final = rng.randrange(n) if rng.random() < 0.3 else None
            fsym = rng.randrange(k) if hmm and rng.random() < 0.3 else None
            seeded = rng.random() < 0.3
            for rep in range(reps):
                kw = {'output_indices': True, 'final_state': final, 'seed': (ep['seed'] + 1000 * w + rep) % 2 ** 31 if seeded else None}
                if hmm:
                    kw['final_symbol'] = fsym
                out = m.simulate(steps, init, **kw)
                walk = [int(x) for x in (out[0] if hmm else out)]
                sym = [int(x) for x in out[1]] if hmm else []
                if init is None:
                    starts += 1
                    start[walk[0]] += 1
                for t in range(1, len(walk)):
                    a, b = walk[t - 1], walk[t]
                    for cond in (('s', a), ('s-2', a, walk[t - 2] if t > 1 else None), ('t', a, min(t, 4)), ('f', a, final), ('w', a, init is None, seeded)):
                        tr.add(cond, b, n)
                    if hmm:
                        tr.add(('y', a, sym[t - 1]), b, n)
                        for cond in (('s', b), ('s-1', b, a), ('y-1', b, sym[t - 1]), ('t', b, min(t, 4)), ('f', b, final, fsym)):
                            em.add(cond, sym[t], k)
                if hmm:
                    em.add(('start', walk[0]), sym[0], k)
                total += len(walk) - 1
                ctx.log(walk[-1], len(walk))
        # next, from every state
        for s in range(n):
            for rep in range(120):
                if hmm:
                    a, b = m.next(s, output_index=True)
                    tr.add(('next', s), int(a), n)
                    em.add(('next', int(a), s), int(b), k)
                    if rep % 3 == 0:
                        tr.add(('next state', s), int(m.next(s, target='state', output_index=True)), n)
                        em.add(('next symbol from', s), int(m.next(s, target='symbol', output_index=True)), k)
                else:
                    tr.add(('next', s), int(m.next(s, output_index=True)), n)
        tests = 0
        for name, counts, law_ in (('transition', tr, p), ('emission', em, e)):
            for cond, r in sorted(counts.c.items(), key=repr):
                if cond[0] == 'next symbol from':
                    q = [sum(p[cond[1]][j] * e[j][y] for j in range(n)) for y in range(k)]
                else:
                    q = law_[cond[1]]
                tot, t = sum(r), sum(q)
                for j, c in enumerate(r):
                    x = min(q[j] / t, 1.0)
                    tests += 1
                    if (x == 0.0 and c > 0) or tail(c, tot, x) < LEVEL:
                        ctx.fail('frequencies', f'{name}s of {d} given {cond}: {r} of {tot} observed, the model says {q}; outcome {j}')
        for j, c in enumerate(start):
            if starts and tail(c, starts, 1.0 / n) < LEVEL:
                ctx.fail('start', f'unspecified start states of {d}: {start} of {starts}')
        total += self._repeats(ep, ctx, m, rng)
        ctx.stat('steps recorded', total)
        ctx.stat('frequencies compared', tests)
        ctx.stat('fault:draw chosen by the simulator', 1)
        ctx.nontrivial = total >= 1000

    def _repeats(self, ep, ctx, m, rng):
        """No stretch of a long history is a repetition of an earlier one that is too unlikely to be one."""
        d, total = ep['model'], 0
        hmm, p, e = d['k'] == 'hmm', d['p'], d.get('e')
        parts = rng.choice([[rng.randint(2500, 6000)], [900, 900, 900], [2100, 700]])
        seeded = rng.random() < 0.5 and len(parts) == 1
        path, cost = [], [0.0]
        for steps in parts:
            out = m.simulate(steps, None, output_indices=True, seed=ep['seed'] % 2 ** 31 if seeded else None)
            walk = [int(x) for x in (out[0] if hmm else out)]
            sym = [int(x) for x in out[1]] if hmm else None
            total += len(walk) - 1
            for t in range(1, len(walk)):
                a, b = walk[t - 1], walk[t]
                x = p[a][b] / sum(p[a])
                if hmm:
                    x *= e[b][sym[t]] / sum(e[b])
                path.append((b, sym[t] if hmm else 0))
                if x <= 0.0:
                    ctx.fail('impossible-step', f'{walk[t - 1:t + 1]} at {t} of {d}')
                cost.append(cost[-1] - math.log(x))
        # the shortest length such that every stretch of it has a probability below e^-52
        n = len(path)
        need = 0
        j = 0
        for i in range(n):
            j = max(j, i)
            while j < n and cost[j] - cost[i] < 52.0:
                j += 1
            if j >= n:
                break
            need = max(need, j - i)
        if need == 0 or need > n // 4:
            ctx.stat('histories too regular to look for repetitions')
            return total
        k = len(e[0]) if hmm else 1
        data = ','.join(str(a * k + b) for a, b in path).split(',')
        seen = {}
        for i in range(n - need):
            if cost[i + need] - cost[i] < 52.0:
                continue
            w = hash(tuple(data[i:i + need]))
            if w in seen:
                i0 = seen[w]
                if data[i0:i0 + need] == data[i:i + need]:
                    ctx.fail('repetition', f'{parts} steps of {d}: the {need} steps from {i0} on are repeated from {i} on, which has a probability below 1e-15')
            seen[w] = i
        ctx.stat('histories searched for repetitions')
        return total


PROP = C15()
