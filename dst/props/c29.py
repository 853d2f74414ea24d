import math
from fractions import Fraction

from .. import models, mt
from .base import Base, T
from .c18 import C18

NAN = float('nan')


def contingency(table):
    """The statistic of independence of a table, with the correction for tables of two by two; None if some count is not to be expected at all."""
    rows, cols = [sum(r) for r in table], [sum(c) for c in zip(*table)]
    t = sum(rows)
    if not all(rows) or not all(cols):
        return None
    x = 0.0
    for r, a in zip(table, rows):
        for v, b in zip(r, cols):
            e = a * b / t
            d = abs(v - e)
            if len(rows) == len(cols) == 2:
                d -= min(0.5, d)
            x += d * d / e
    return x


def first_order(seq, n):
    chi2 = 0.0
    for s in range(n):
        t = [[0] * n for _ in range(n)]
        for a, b, c in zip(seq, seq[1:], seq[2:]):
            if b == s:
                t[a][c] += 1
        x = contingency(t) if any(map(any, t)) else None
        if x is None:
            return None
        chi2 += x
    return chi2, n * (n - 1) ** 2


def homogeneity(seqs, n):
    if not any(set(a) & set(b) for i, a in enumerate(seqs) for b in seqs[:i]):
        return None
    fs = [{} for _ in seqs]
    pooled = {}
    for f, seq in zip(fs, seqs):
        for e in zip(seq, seq[1:]):
            f[e] = f.get(e, 0) + 1
            pooled[e] = pooled.get(e, 0) + 1
    t = sum(pooled.values())
    return 2 * math.fsum(v * math.log(t * v / (sum(f.values()) * pooled[e])) for f in fs for e, v in f.items()), n * (n - 1) * (len(seqs) - 1)


def markov(seq, n):
    exits, pairs = {}, {}
    for a, b in zip(seq, seq[1:]):
        exits[a] = exits.get(a, 0) + 1
        pairs[a, b] = pairs.get((a, b), 0) + 1
    triples = set(zip(seq, seq[1:], seq[2:]))
    dof = len(triples) - len(pairs) + len(set(seq)) - 1
    sample = seq[:len(seq) - len(seq) % 3]
    first, seen = {}, {}
    for a, b, c in zip(sample, sample[1:], sample[2:]):
        first[a, b] = first.get((a, b), 0) + 1
        seen[a, b, c] = seen.get((a, b, c), 0) + 1
    return math.fsum((v - w) ** 2 / w for (a, b, c), v in seen.items() for w in [first[a, b] * pairs[b, c] / exits[b]]), dof


def stationarity(seq, n, blocks, rounded=False):
    chi2 = 0.0
    for s in range(n):
        t = [[Fraction(0)] * n for _ in range(blocks)]
        for i, (a, b) in enumerate(zip(seq, seq[1:])):
            if a == s:
                if rounded:      # (as floating point numbers, which may put a step at the border of two blocks into the next one)
                    t[math.ceil((i + 1) / (len(seq) / blocks)) - 1][b] += 1
                    continue
                t[math.ceil(Fraction((i + 1) * blocks, len(seq))) - 1][b] += 1
        t = [[x / sum(r) for x in r] if any(r) else [Fraction(1, n)] * n for r in t]
        if blocks == 1:
            x = sum((v - Fraction(1, n)) ** 2 * n for v in t[0])
        else:
            x = contingency(t)
            if x is None:
                return None
        chi2 += x
    return float(chi2), n * (n - 1) * (blocks - 1)


def compatibility(seq, p, by_arrivals=False):
    n = len(p)
    f = [[0] * n for _ in range(n)]
    for a, b in zip(seq, seq[1:]):
        f[a][b] += 1
    if any(f[i][j] and not p[i][j] for i in range(n) for j in range(n)):
        return 'impossible'
    terms = []
    for i in range(n):
        t = sum(f[k][i] for k in range(n)) if by_arrivals else sum(f[i])
        for j in range(n):
            if f[i][j]:
                terms.append(f[i][j] * math.log(f[i][j] / (t * p[i][j])) if t else math.inf)
    return 2 * math.fsum(terms), n * (n - 1) - sum(x == 0 for r in p for x in r)


class C29(Base):
    id = 'C29'
    episodes = {'quick': 1100, 'thorough': 30000}
    rule = ('A run records histories of one to four drawn chains (under seeds or under draws chosen by the simulator; one after the other, joined with a break in the middle, or with a memory of two steps) and hands them to the five '
            'assessments, as labels, indices or NumPy integers, with the states in a drawn order and under labels that run into each other; the statistic, the degrees of freedom, the p-value and the verdict are compared with a '
            'reference that counts the steps of the history. Distinct = distinct (history, assessment); non-trivial: a statistic was compared.')
    measure = 'distinct (history, assessment) pairs'
    stub = ['in part of the runs the global NumPy generator, whose next uniform numbers are chosen by the simulator']
    assumptions = ['the assessment of the Markov property counts the longest beginning of the history whose length is a multiple of three']

    def generate(self, rng, i, tier):
        n = rng.choice([2, 2, 2, 3, 3, 4, 5, rng.randint(6, 12)])
        ms = []
        for _ in range(rng.choice([1, 1, 2, 2, 3, 4])):
            d = models.gen_mc(rng, n=n, exact=rng.random() < 0.7)
            if rng.random() < 0.5:      # (every step possible, so that the tables are full)
                d['p'] = [[x / sum(r) for x in r] for r in ([models._row_units(rng, n, list(range(n)), 8 * n) for _ in range(n)])]
            ms.append(d)
        ms[0]['style'] = 'assessed'
        if rng.random() < 0.4:
            a = rng.choice(['a', 'x1', '1'])
            ms[0]['states'] = rng.sample([a * k for k in range(1, n + 1)], n) if rng.random() < 0.5 else rng.sample([x + y for x in ('', 'a', 'b', 'ab', 'ba') for y in ('a', 'b', 'bb', 'aab')], 20)[:3 * n]
            ms[0]['states'] = list(dict.fromkeys(ms[0]['states']))[:n]
            if len(ms[0]['states']) < n:
                ms[0]['states'] = models.gen_labels(rng, n)
        histories = []
        for _ in range(rng.choice([1, 1, 2, 2, 3])):
            how = {'seed': rng.choice([0, 1, rng.getrandbits(31)])} if rng.random() < 0.6 else {'draws': mt.pattern(rng, n=60)[1]}
            if rng.random() < 0.1:
                how['frames'] = 2
            histories.append(dict(how, of=[rng.randrange(len(ms)) for _ in range(rng.choice([1, 1, 2, 3]))], steps=rng.choice([1, 2, 3, 4, 5, 8, 20, 60, 150] + [600] * (n < 5)), start=rng.choice([None, 0, n - 1])))
        return {'ms': ms, 'histories': histories, 'order': rng.sample(range(n), n), 'form': rng.choice(['labels', 'labels', 'indices', 'npint', 'mixedint']), 'blocks': [rng.choice([1, 2, 3, 4, 7, rng.randint(1, 12)]) for _ in range(2)],
                'alpha': rng.choice([0.05, 0.05, 0.01, 0.2, 0.1, round(rng.uniform(0.001, 0.2), 3)]), 'default': rng.random() < 0.3}

    def shrinkable(self, ep):
        return [('histories',)]

    def execute(self, ep, ctx):
        np = T.np
        d = ep['ms'][0]
        n, names = len(d['p']), models.states_of(d)
        chains = [models.build(x) for x in ep['ms']]
        walks = []
        for rec in ep['histories']:
            seq = []
            for x in rec['of']:
                kw = {}
                if 'seed' in rec:
                    kw['seed'] = rec['seed']
                else:
                    ctx.stat('fault:draws chosen by the simulator')
                    mt.set_doubles(rec['draws'], skip_words=() if rec['start'] is not None or seq else (0x12345678,))
                seq += [int(s) for s in chains[x].simulate(max(2, rec['steps']), initial_state=seq[-1] if seq else rec['start'], output_indices=True, **kw)][bool(seq):]
            if rec['steps'] == 1:
                seq = seq[:2]
            if rec.get('frames'):
                seq = [s for s, t in zip(seq, seq[1:]) for s in (s, t)][:len(seq)]
            if len(seq) > 1:
                walks.append(seq)
        if not walks:
            return
        # the same history over the states in another order
        order = ep['order']
        possible = [names[x] for x in order]
        at = {x: k for k, x in enumerate(order)}
        moved = [[at[s] for s in seq] for seq in walks]
        forms = [C18.form(np, ep['form'], seq, possible) for seq in moved]
        late = []
        rest = [] if ep['default'] else [ep['alpha']]
        alpha = 0.05 if ep['default'] else ep['alpha']

        def check(what, call, want, also=None, borders=None):
            ctx.log(what)
            rejected, p, stats = call()
            if borders is not None and want is not None and borders != want and math.isclose(float(stats['chi2']), borders[0], rel_tol=1e-8):
                want = borders
            chi2, dof = float(stats['chi2']), stats['dof']
            if sorted(stats) != ['chi2', 'dof']:
                ctx.fail('statistics', f'{what}: {stats}')
            ctx.stat('assessed')
            if want is None or want == 'impossible':
                v = None if want is None else True
                ctx.stat('not assessable' if want is None else 'impossible steps')
                if rejected is not v or not math.isnan(chi2) or not math.isnan(dof) or not (math.isnan(p) if v is None else p == 0.0):
                    ctx.fail('verdict', f'{what}: {(rejected, p, stats)}, while the history {"is not enough to tell" if want is None else "contains impossible steps"}')
                return
            ctx.nontrivial = True

            def agrees(w):
                return dof == w[1] and (chi2 == w[0] or math.isclose(chi2, w[0], rel_tol=1e-8, abs_tol=1e-8))
            if not agrees(want):
                text = f'{what}: {(rejected, p, stats)}, the steps of the history give {want[0]} with {want[1]} degrees of freedom'
                if also is None or not agrees(also):
                    ctx.fail('statistic', text)
                late.append(text)
                if dof == 0:
                    return
            if dof == 0:
                # nothing is left to chance: never compatible by convention, or nothing to say
                good = (p == 0.0 and rejected) or (bool(chi2 == 0.0) and not rejected and (math.isnan(p) or p == 1.0))
            else:
                good = abs(p - T.chi2_tail(chi2, dof)) < 1e-9 and bool(rejected) is bool(p < alpha)
            if not good:
                ctx.fail('verdict', f'{what}: {(rejected, p, stats)}, the p-value of the statistic is {T.chi2_tail(chi2, dof)}, the significance {alpha}')
            ctx.stat('rejected' if rejected else 'not rejected')

        if not hasattr(T, 'chi2_tail'):
            from scipy.special import gammaincc
            T.chi2_tail = lambda x, k: float(gammaincc(k / 2, x / 2))
        P = T.pydtmc
        p = [[d['p'][a][b] for b in order] for a in order]
        mc = T.MC(np.array(p, dtype=float), possible)
        for seq, form in zip(moved, forms):
            text = f'{[possible[s] for s in seq[:60]]}{"..." if len(seq) > 60 else ""} ({len(seq)} states, possible {possible})'
            ctx.key(seq, possible)
            if len(seq) > 2:
                check(f'assess_first_order of {text}', lambda: P.assess_first_order(possible, form, *rest), first_order(seq, n))
                check(f'assess_markov_property of {text}', lambda: P.assess_markov_property(possible, form, *rest), markov(seq, n))
            for blocks in ep['blocks']:
                check(f'assess_stationarity with {blocks} blocks of {text}', lambda: P.assess_stationarity(possible, form, blocks, *rest), stationarity(seq, n, blocks), borders=stationarity(seq, n, blocks, True))
            c = compatibility(seq, mc.p.tolist())
            check(f'assess_theoretical_compatibility with {p} of {text}', lambda: P.assess_theoretical_compatibility(mc, form, *rest), c, None if isinstance(c, str) else compatibility(seq, mc.p.tolist(), True))
        if len(moved) > 1:
            check(f'assess_homogeneity of {[s[:40] for s in moved]}', lambda: P.assess_homogeneity(possible, forms, *rest), homogeneity(moved, n))
        if late:
            ctx.fail('statistic', late[0], 'compatibility-weighs-arrivals')


PROP = C29()
