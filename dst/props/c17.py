import math
import random

from .. import models, mt, walks
from .base import Base, T

# A chain on which the unrepaired defect of is_aperiodic shows (see known findings): the walks end in a cycle of length three.
PROBE = [[0.5625, 0.0, 0.0, 0.4375], [0.0, 0.0, 1.0, 0.0], [0.0, 0.0, 0.0, 1.0], [0.0, 1.0, 0.0, 0.0]]


def big(rng):
    """Large chains: dense, dense without loops, long rings with and without a chord, layered rings, long paths, blocks."""
    kind = rng.choice(['dense', 'noloops', 'ring', 'chord', 'layers', 'path', 'blocks', 'sparse'])
    n = rng.randint(17, 45) if kind != 'dense' else rng.randint(17, 32)
    perm = list(range(n))
    if rng.random() < 0.7:
        rng.shuffle(perm)
    sup = [set() for _ in range(n)]
    if kind == 'dense':
        sup = [set(range(n)) for _ in range(n)]
    elif kind == 'noloops':
        sup = [set(range(n)) - {i} for i in range(n)]
    elif kind in ('ring', 'chord'):
        sup = [{(i + 1) % n} for i in range(n)]
        if kind == 'chord':
            i = rng.randrange(n)
            sup[i].add((i + rng.choice([0, 2, 3, n // 2])) % n)
    elif kind == 'layers':
        k = rng.randint(2, 6)
        size = n // k
        n = k * size
        perm = [x for x in perm if x < n]
        sup = [{((i // size + 1) % k) * size + rng.randrange(size) for _ in range(2)} | {((i // size + 1) % k) * size + i % size} for i in range(n)]
        sup[0].add(size + 1 % size)
        for i in range(size):                # so that every state is entered from the layer before
            sup[i].add(size + (i + 1) % size)
    elif kind == 'path':
        sup = [{i, min(i + 1, n - 1)} if rng.random() < 0.5 else {min(i + 1, n - 1)} for i in range(n)]
        if rng.random() < 0.5:
            sup[n - 1] = {n - 1, rng.randrange(n)}
    elif kind == 'blocks':
        k = rng.randint(2, 5)
        sup = [{j for j in range(n) if j % k == i % k and rng.random() < 0.3} | {(i + k) % n if (i + k) < n else i % k} for i in range(n)]
        for _ in range(rng.randint(0, 2)):
            i, j = rng.randrange(n), rng.randrange(n)
            if i % k < j % k:
                sup[i].add(j)
    else:
        sup = [{rng.randrange(n) for _ in range(rng.randint(1, 3))} for _ in range(n)]
    p = [[0.0] * n for _ in range(n)]
    for i in range(n):
        row = sorted(sup[i])
        w = [rng.choice([1.0, 1.0, 2.0, 5.0]) for _ in row]
        for j, x in zip(row, w):
            p[perm[i]][perm[j]] = x / sum(w)
    return p


class C17(Base):
    id = 'C17'
    episodes = {'quick': 900, 'thorough': 20000}
    rule = ('A run builds a chain (up to 45 states; dense, periodic, layered, reducible, absorbing, with shuffled states and labels), lets walks take steps under draws chosen so that every possible step is taken, adds long '
            'walks under free draws, and compares the classification with the graph of the recorded steps. Distinct = distinct chains; non-trivial: more than one class, a period above one, or more than 16 states.')
    measure = 'distinct chains'
    stub = ['the global NumPy generator, whose next uniform numbers are chosen by the simulator']
    assumptions = ['a step of positive probability is a step the walks can take; all of them are recorded by choosing the draw in the middle of their cumulative interval']

    def generate(self, rng, i, tier):
        if i == 0:
            return {'model': {'k': 'mc', 'p': PROBE, 'states': None, 'style': 'probe'}, 'seed': 1, 'order': 1}
        if rng.random() < 0.2:
            p = big(rng)
            return {'model': {'k': 'mc', 'p': p, 'states': models.gen_labels(rng, len(p), rng.choice(['plain', 'num', 'revnum', 'bignum', 'words', 'uni'])), 'style': 'big'}, 'seed': rng.getrandbits(31), 'order': rng.getrandbits(30)}
        d = models.gen_mc(rng, n=rng.randint(2, 10), style=rng.choice(['dense', 'sparse', 'sparse', 'ring', 'cycle', 'absorbing', 'reducible', 'reducible', 'birthdeath', 'identity']), exact=rng.random() < 0.5)
        if rng.random() < 0.15:         # walks that hardly ever leave some of the states
            e = 2.0 ** -rng.randint(8, 40)
            d['p'] = [[(1.0 - e) * (i == j) + e * x for j, x in enumerate(r)] if rng.random() < 0.6 else r for i, r in enumerate(d['p'])]
        return {'model': d, 'seed': rng.getrandbits(31), 'order': rng.getrandbits(30)}

    def execute(self, ep, ctx):
        np, d = T.np, ep['model']
        p, n, names = d['p'], len(d['p']), models.states_of(d)
        m = models.build(d)
        text = lambda: f'{d}'  # noqa

        # the steps that walks take
        steps, recorded = [set() for _ in range(n)], []
        for i in range(n):
            t, c = sum(p[i]), 0.0
            for j in range(n):
                if p[i][j] > 0.0:
                    mt.set_doubles([min((c + p[i][j] / 2) / t, mt.MAX)])
                    steps[i].add(int(m.next(i, output_index=True)))
                    ctx.stat('fault:draw chosen by the simulator')
                c += p[i][j]
        np.random.seed(ep['seed'])
        for _ in range(4):
            walk = m.simulate(max(2, 6 * n), output_indices=True)
            recorded.append([int(x) for x in walk])
            for a, b in zip(walk, walk[1:]):
                steps[a].add(int(b))
        s = [[1.0 if j in steps[i] else 0.0 for j in range(n)] for i in range(n)]
        r = walks.reach(s)
        cl, closed = walks.classes(s)
        pers = [walks.period(s, c) for c in cl]
        ctx.log(n, sorted(len(c) for c in cl), pers)
        ctx.key(p)
        ctx.nontrivial = n > 16 or len(cl) > 1 or pers[0] > 1
        ctx.stat('steps recorded', sum(len(w) - 1 for w in recorded))

        def same(what, have, want):
            ctx.stat('compared')
            if have != want:
                ctx.fail('classification', f'{what}: {have}, the walks show {want}; {text()}')

        def sets(x):
            return sorted(sorted(names.index(v) for v in c) for c in x)

        def flat(x):
            return sorted(names.index(v) for v in x)
        rec = sorted(sorted(c) for k, c in enumerate(cl) if k in closed)
        tra = sorted(sorted(c) for k, c in enumerate(cl) if k not in closed)
        rec_s, tra_s = sorted(x for c in rec for x in c), sorted(x for c in tra for x in c)
        ab = [i for i in range(n) if steps[i] == {i}]
        irreducible = len(cl) == 1
        cyc = [sorted(c) for c in walks.cyclic(s)] if irreducible else []
        rng = random.Random(ep['order'])
        pairs = [(rng.randrange(n), rng.randrange(n)) for _ in range(12)]

        def c1():
            same('adjacency_matrix', [[int(x != 0) for x in row] for row in m.adjacency_matrix.tolist()], [[int(x) for x in row] for row in s])
            same('accessibility_matrix', [[bool(x) for x in row] for row in m.accessibility_matrix.tolist()], r)

        def c2():
            same('communication_matrix', [[bool(x) for x in row] for row in m.communication_matrix.tolist()], [[r[i][j] and r[j][i] for j in range(n)] for i in range(n)])
            for i, j in pairs:
                same(f'is_accessible({j} from {i})', bool(m.is_accessible(j, names[i])), r[i][j])
                same(f'are_communicating({i}, {j})', bool(m.are_communicating(names[i], j)), r[i][j] and r[j][i])

        def c3():
            same('communicating_classes', sets(m.communicating_classes), sorted(sorted(c) for c in cl))
            same('recurrent_classes', sets(m.recurrent_classes), rec)
            same('transient_classes', sets(m.transient_classes), tra)

        def c4():
            same('recurrent_states', flat(m.recurrent_states), rec_s)
            same('transient_states', flat(m.transient_states), tra_s)
            same('absorbing_states', flat(m.absorbing_states), ab)
            for i in range(n):
                same(f'is_recurrent_state({i})', bool(m.is_recurrent_state(i)), i in rec_s)
                same(f'is_transient_state({i})', bool(m.is_transient_state(names[i])), i in tra_s)
                same(f'is_absorbing_state({i})', bool(m.is_absorbing_state(i)), i in ab)

        def c5():
            same('is_irreducible', bool(m.is_irreducible), irreducible)
            same('is_absorbing', bool(m.is_absorbing), bool(ab) and all(any(r[i][a] for a in ab) for i in range(n)))
            same('is_ergodic', bool(m.is_ergodic), irreducible and pers[0] == 1)
            same('is_regular', bool(m.is_regular), irreducible and pers[0] == 1)
            same('is_canonical', bool(m.is_canonical), not tra_s or not rec_s or max(tra_s) < min(rec_s))

        def c6():
            have = list(m.periods)
            order = [sorted(names.index(v) for v in c) for c in m.communicating_classes]
            if len(have) != len(order):
                ctx.fail('classification', f'{len(have)} periods of {len(order)} classes; {text()}')
            for c, x in zip(order, have):
                k = [sorted(y) for y in cl].index(c)
                # a class that is left for good has no asymptotic period: one is accepted, and its own cycles are too
                same(f'period of the class {c}', x in ((pers[k],) if k in closed else (1, pers[k])), True)
            if irreducible:
                same('period', m.period, pers[0])
                same('is_aperiodic', bool(m.is_aperiodic), pers[0] == 1)

        def c7():
            same('cyclic_classes', sets(m.cyclic_classes), sorted(cyc))
            same('cyclic_states', flat(m.cyclic_states), sorted(x for c in cyc for x in c))
            for i in range(n):
                same(f'is_cyclic_state({i})', bool(m.is_cyclic_state(i)), irreducible)

        def c8():
            # the recorded walks, step by step
            trans = set(flat(m.transient_states))
            per = m.period if irreducible else None
            where = {x: k for k, c in enumerate(sets(m.cyclic_classes)) for x in c} if irreducible else {}
            for w in recorded:
                left = set()
                for t, (a, b) in enumerate(zip(w, w[1:])):
                    if a not in trans and b in trans:
                        ctx.fail('walk-contradicts', f'the walk {w} leaves a recurrent class at step {t}; {text()}')
                    if r[b][a] is False:
                        left.add(a)
                    if b in left:
                        ctx.fail('walk-contradicts', f'the walk {w} returns at step {t}; {text()}')
                if per:
                    first = {}
                    for t, a in enumerate(w):
                        if (t - first.setdefault(where[a], t)) % per:
                            ctx.fail('walk-contradicts', f'the walk {w} enters a cyclic class out of turn at step {t}; {text()}')
        todo = [c1, c2, c3, c4, c5, c6, c7, c8]
        rng.shuffle(todo)
        for f in todo:
            f()
        if not irreducible:
            lcm = 1
            for k in closed:
                lcm = lcm * pers[k] // math.gcd(lcm, pers[k])
            have = (bool(m.is_aperiodic), m.period)
            if have != (lcm == 1, lcm):
                ctx.fail('classification', f'is_aperiodic and period of a reducible chain: {have}, the walks end in cycles of {lcm}; {text()}', sig='reducible-periodic-called-aperiodic' if have == (True, 1) else None)


PROP = C17()
