from .. import hist, law, models, ops
from .base import Base, T

KINDS = ['lazy', 'lazy', 'nth', 'bounded', 'merge', 'sub', 'canonical', 'lump', 'lump', 'partitions', 'aggregate', 'reversible']


def measured(m, ctx):
    """The step law of a chain as its walks show it."""
    try:
        L = law.mc_law(m)
        ctx.stat('laws measured by walks')
    except law.Unmeasurable:
        n = len(m.states)
        ctx.stat('laws read from the model')
        L = [[float(m.transition_probability(j, i)) for j in range(n)] for i in range(n)]
    return L


def reachable(L, start):
    seen = list(start)
    for s in seen:
        for j, x in enumerate(L[s]):
            if x > 1e-11 and j not in seen:
                seen.append(j)
    return sorted(seen)


def project(L, parts):
    """-> (the law of the projected walk or None, how clearly)"""
    out, worst = [], 0.0
    for a in parts:
        rows = [[sum(L[i][j] for j in b) for b in parts] for i in a]
        worst = max([worst] + [abs(x - y) for r in rows for x, y in zip(r, rows[0])])
        out.append([sum(r[k] for r in rows) / len(rows) for k in range(len(parts))])
    return out, worst


def all_partitions(n):
    """The partitions into runs of consecutive states, the only ones that the library takes."""
    for mask in range(1, 2 ** (n - 1) - 1):
        cuts = [0] + [i + 1 for i in range(n - 1) if mask >> i & 1] + [n]
        yield [list(range(a, b)) for a, b in zip(cuts, cuts[1:])]


def groupings(n, k):
    """The partitions of n states into k groups, as the group of every state."""
    def rec(at, used):
        if len(at) == n:
            if used == k:
                yield list(at)
            return
        if n - len(at) < k - used:
            return
        for g in range(min(used + 1, k)):
            yield from rec(at + [g], max(used, g + 1))
    return rec([], 0)


def stationary(L):
    """The only stationary distribution of a law with one recurrent class."""
    n = len(L)
    a = T.np.vstack((T.np.array(L, dtype=float).T - T.np.eye(n), T.np.ones((1, n))))
    return T.np.linalg.lstsq(a, T.np.array([0.0] * n + [1.0]), rcond=None)[0].tolist()


def grouped(L, pi, where, k):
    """The law of the stationary walk seen through the groups of its states."""
    n = len(L)
    mass = [sum(pi[i] for i in range(n) if where[i] == g) for g in range(k)]
    flow = [[sum(pi[i] * L[i][j] for i in range(n) if where[i] == g for j in range(n) if where[j] == h) for h in range(k)] for g in range(k)]
    return [[x / m for x in r] for r, m in zip(flow, mass)]


def same_up_to_order(a, b):
    """Is b the law a with its states in another order?"""
    k = len(a)

    def rec(order):
        x = len(order)
        if x == k:
            return True
        for c in range(k):
            if c not in order and abs(a[c][c] - b[x][x]) < 1e-7 and all(abs(a[o][c] - b[y][x]) < 1e-7 and abs(a[c][o] - b[x][y]) < 1e-7 for y, o in enumerate(order)):
                if rec(order + [c]):
                    return True
        return False
    return rec([])


def gen_lumpable(rng, n):
    """A chain that can be lumped on a drawn partition."""
    idx = list(range(n))
    k = rng.randint(2, n - 1)
    cuts = sorted(rng.sample(range(1, n), k - 1))
    parts = [sorted(idx[a:b]) for a, b in zip([0] + cuts, cuts + [n])]
    units = rng.choice([16, 10, 12, 30])
    p = [[0.0] * n for _ in range(n)]
    for a in parts:
        w = models._row_units(rng, k, sorted(rng.sample(range(k), rng.randint(1, k))), units)
        for i in a:
            for b, x in zip(parts, w):
                split = models._row_units(rng, len(b), list(range(len(b))), max(x, len(b)) if x else 1) if x else [0] * len(b)
                t = sum(split)
                for j, y in zip(b, split):
                    p[i][j] = (x * y / t) / units if x else 0.0
    for r in p:      # sums within rounding of one
        t = sum(r)
        for j in range(n):
            r[j] /= t
    return p, parts


def lumpable_exactly(rng, n, sizes):
    parts, at = [], 0
    for s in sizes:
        parts.append(list(range(at, at + s)))
        at += s
    p = [[0.0] * n for _ in range(n)]
    for a in parts:
        w = models._row_units(rng, len(parts), sorted(rng.sample(range(len(parts)), rng.randint(1, len(parts)))), 16)
        for i in a:
            for b, x in zip(parts, w):
                for j, y in zip(b, models._row_units(rng, len(b), sorted(rng.sample(range(len(b)), rng.randint(1, len(b)))), 4 * x, 0) if x else []):
                    p[i][j] = y / 64
    return p, parts


class C25(Base):
    id = 'C25'
    episodes = {'quick': 900, 'thorough': 9000}
    rule = ('A run derives one to three chains in a row from a drawn chain (lazy, n-th order, bounded, merged, subchain, canonical form, lumped) or restricts a hidden model, and measures the step law of '
            'the original and of the derived model by walks over chosen draws: the simulator looks for the draws at which the next state changes. The reference applies the mechanism to the measured law of the original. '
            'Non-trivial: at least one derived model was measured, or refused as the mechanism says. Distinct = distinct (chain, derivations).')
    measure = 'distinct (model, derivations) tuples'
    assumptions = ['the mechanisms are those of the documentation of the methods', 'step laws are resolved to 2^-40']

    def generate(self, rng, i, tier):
        if rng.random() < 0.18:
            d = models.gen_hmm(rng, exact=rng.random() < 0.5, nmax=5)
            n, k = len(d['p']), len(d['e'][0])
            st = None if n < 3 or rng.random() < 0.35 else sorted(rng.sample(range(n), rng.randint(2, n - 1)))
            sy = None if k < 3 or (st is not None and rng.random() < 0.35) else sorted(rng.sample(range(k), rng.randint(2, k - 1)))
            if st is None and sy is None:
                return self.generate(rng, i, tier)
            if rng.random() < 0.35:
                # rows that give away all but little, so that a restriction may keep only the little
                d['e'], d['p'] = [list(r) for r in d['e']], [list(r) for r in d['p']]
                for rows in (d['p'], d['e']):
                    for r in rows:
                        if rng.random() < 0.6:
                            eps, c = 2.0 ** -rng.choice([8, 14, 20, 24, 30, 36]), rng.randrange(len(r))
                            r[:] = [eps * v for v in r]
                            r[c] += 1.0 - eps
            for s in (st, sy):
                if s is not None and rng.random() < 0.4:
                    rng.shuffle(s)
            return {'m': d, 'restrict': [st, sy, rng.random() < 0.5]}
        n = rng.choice([2, 3, 3, 4, 4, 5, 6]) if rng.random() < 0.95 else rng.randint(7, 11)
        exact = rng.random() < 0.6
        parts = None
        if n > 2 and rng.random() < 0.3:
            if n > 6 or rng.random() < 0.1:       # (blocks of 1, 2 or 4 states and binary fractions: no rounding)
                n, sizes = rng.randint(7, 10), []
                while sum(sizes) < n:
                    sizes.append(min(rng.choice([1, 2, 2, 4]), n - sum(sizes)))
                sizes = [x for s in sizes for x in ([2, 1] if s == 3 else [s])]
                rng.shuffle(sizes)
                p, parts = lumpable_exactly(rng, n, sizes)
            else:
                p, parts = gen_lumpable(rng, n)
            d = {'k': 'mc', 'p': p, 'states': models.gen_labels(rng, n), 'style': 'lumpable'}
        else:
            d = models.gen_mc(rng, n=n, exact=exact)
        steps = []
        for s in range(rng.choice([1, 1, 1, 2, 3])):
            kind = rng.choice(KINDS) if parts is None or s else rng.choice(['lump', 'lump', 'partitions'])
            if kind == 'lazy':
                a = rng.choice([0.5, 0.25, 0, 1, 0.0, 1.0, round(rng.random(), 3)]) if rng.random() < 0.5 else [rng.choice([0.0, 1.0, 0.5, round(rng.random(), 3)]) for _ in range(n)]
            elif kind == 'nth':
                a = rng.randint(2, 7)
            elif kind == 'bounded':
                a = rng.choice(['absorbing', 'reflecting', 0.25, 0.5, 0, 1, 0.0, 1.0, round(rng.random(), 3)])
            elif kind == 'merge':
                a = [models.gen_mc(rng, n=n, exact=exact)['p'], rng.choice([0.5, 0.25, round(rng.uniform(0.01, 0.99), 3)])]
            elif kind == 'sub':
                a = [rng.sample(range(n), rng.randint(1, n)), rng.random() < 0.5]
            elif kind == 'aggregate':
                a = [rng.randint(2, max(2, n - 1)), rng.choice(['adaptive', 'spectral-bottom-up', 'spectral-top-down', 'spectral-top-down'])]
            elif kind == 'reversible':
                dist = None if rng.random() < 0.3 else models._row_units(rng, n, list(range(n)), rng.choice([16, 20, 64]))
                if dist is not None:
                    dist = [x / sum(dist) for x in dist]
                others = [[models._row_units(rng, n, list(range(n)), 16) for _ in range(n)] for _ in range(4)]
                a = [dist, rng.random() < 0.4, [[[x / sum(r) for x in r] for r in o] for o in others]]
            elif kind == 'lump':
                a = parts if parts is not None and not s and rng.random() < 0.8 else None
                if a is None:
                    cuts = sorted(rng.sample(range(1, n), rng.randint(1, max(1, n - 2))))
                    a = [list(range(x, y)) for x, y in zip([0] + cuts, cuts + [n])]
                a = [a, rng.random() < 0.5]
            else:
                a = None
            steps.append([kind, a])
        return {'m': d, 'steps': steps}

    def shrinkable(self, ep):
        return [['steps']] if 'steps' in ep else []

    def execute(self, ep, ctx):
        if 'restrict' in ep:
            self._restrict(ep, ctx)
            return
        d = ep['m']
        m = models.build(d)
        L = measured(m, ctx)
        names = models.states_of(d)
        done = []
        for kind, a in ep['steps']:
            n = len(names)
            before = ops.canon(m)
            what = f'{kind} {a} after {done} of {d}'
            want, labels, raises, got = None, list(names), False, None
            try:
                if kind == 'lazy':
                    if isinstance(a, list):
                        a = (a + a * n)[:n]
                    w = a if isinstance(a, list) else [a] * n
                    got = m.to_lazy_chain(T.np.array(a, dtype=float) if isinstance(a, list) else a)
                    want = [[(1 - w[i]) * L[i][j] + (w[i] if i == j else 0.0) for j in range(n)] for i in range(n)]
                elif kind == 'nth':
                    got = m.to_nth_order(a)
                    want = L
                    for _ in range(a - 1):
                        want = [[sum(want[i][x] * L[x][j] for x in range(n)) for j in range(n)] for i in range(n)]
                elif kind == 'bounded':
                    got = m.to_bounded_chain(a)
                    want = [list(r) for r in L]
                    inward = {'absorbing': 0.0, 'reflecting': 1.0}.get(a, a)
                    for end, step in ((0, 1), (n - 1, n - 2)):
                        want[end] = [0.0] * n
                    want[0][0] += 1 - inward
                    want[0][1] += inward
                    if not isinstance(a, str):
                        # a number is the probability of the first transition of each end row away from / at the edges, as documented
                        want[n - 1][n - 1] += a
                        want[n - 1][n - 2] += 1 - a
                    else:
                        want[n - 1][n - 1] += 1 - inward
                        want[n - 1][n - 2] += inward
                elif kind == 'merge':
                    if len(a[0]) != n:
                        continue
                    other = T.MC(T.np.array(a[0], dtype=float))
                    got = m.merge_with(other, a[1])
                    M = measured(other, ctx)
                    want = [[(1 - a[1]) * L[i][j] + a[1] * M[i][j] for j in range(n)] for i in range(n)]
                    labels = None
                elif kind == 'sub':
                    keep = sorted({x % n for x in a[0]})
                    if len(keep) == n:
                        continue
                    inside = reachable(L, keep)
                    raises = len(inside) == 1
                    given = [names[x] for x in a[0] if x < n] if a[1] else [x for x in a[0] if x < n]
                    if sorted(x for x in a[0] if x < n) != keep or not given:
                        continue
                    got = m.to_subchain(given)
                    want = [[L[i][j] for j in inside] for i in inside]
                    labels = [names[x] for x in inside]
                elif kind == 'canonical':
                    # the states that a walk may leave forever, then the others
                    to = [reachable(L, [s]) for s in range(n)]
                    trans = [s for s in range(n) if any(s not in to[x] for x in to[s])]
                    order = trans + [s for s in range(n) if s not in trans]
                    got = m.to_canonical_form()
                    want = [[L[i][j] for j in order] for i in order]
                    labels = [names[x] for x in order]
                elif kind == 'lump':
                    parts = [[x for x in b if x < n] for b in a[0]]
                    parts = [b for b in parts if b]
                    if not 2 <= len(parts) < n or sum(map(len, parts)) != n:
                        continue
                    want, worst = project(L, parts)
                    if 1e-10 < worst < 1e-4:
                        continue
                    raises = worst >= 1e-4
                    labels = [','.join(names[x] for x in b) for b in parts]
                    if len(set(labels)) < len(labels):
                        continue
                    got = m.lump([[names[x] for x in b] for b in parts] if a[1] else parts)
                elif kind == 'aggregate':
                    if not 2 <= a[0] <= n - 1 or n > 8:
                        continue
                    raises = not m.is_ergodic
                    got = m.aggregate(*a)
                    if not raises:
                        self._aggregated(ctx, got, L, a[0], what)
                    want, labels = got.p.tolist(), None
                elif kind == 'reversible':
                    if a[0] is not None and len(a[0]) != n:
                        continue
                    raises = m.is_reversible or None
                    try:
                        got = m.closest_reversible(*([] if a[0] is None else [T.np.array(a[0], dtype=float)]), weighted=a[1])
                    except ValueError:       # (a failure of the solver, which is documented)
                        ctx.stat('closest reversible not found')
                        continue
                    if raises:
                        want, raises = [list(r) for r in L], False
                    else:
                        want = got.p.tolist()
                        self._reversible(ctx, want, L, a, what)
                else:
                    self._partitions(ctx, m, L, n, what)
                    continue
            except ValueError as ex:
                if not raises:
                    ctx.fail('refused', f'{what}: {type(ex).__name__}: {ex}; the derived law is {want}')
                ctx.stat('refused as expected')
                ctx.nontrivial = True
                done.append(kind)
                if not ops.same(ops.canon(m), before, rtol=0, atol=0):
                    ctx.fail('original-changed', what)
                continue
            if raises:
                ctx.fail('accepted', f'{what}: gives {got.p.tolist()}, the mechanism is not a chain')
            ctx.stat('derived ' + kind)
            ctx.log(kind)
            if labels is not None and list(got.states) != labels:
                ctx.fail('labels', f'{what}: states {got.states}, expected {labels}')
            if len(got.states) != len(want):
                ctx.fail('size', f'{what}: {len(got.states)} states')
            if got is m or not ops.same(ops.canon(m), before, rtol=0, atol=0):
                ctx.fail('original-changed', what)
            new = measured(got, ctx)
            for i, (r, w) in enumerate(zip(new, want)):
                if any(abs(x - y) > 1e-8 for x, y in zip(r, w)):
                    ctx.fail('law', f'{what}: from state {i} the walk of the derived chain has the law {r}, the mechanism {w}')
            m, L, names = got, new, list(got.states)
            done.append(kind)
            ctx.nontrivial = True
        if hist.definition_changed(models.build(d), d):
            ctx.fail('original-changed', f'{d}')
        if ctx.nontrivial:
            ctx.key(ep)

    @staticmethod
    def _aggregated(ctx, got, L, k, what):
        if len(got.states) != k:
            ctx.fail('size', f'{what}: {len(got.states)} states')
        pi = stationary(L)
        if min(pi) < 1e-3:     # (a group of rare states has a law that is hard to compute)
            return
        law_ = got.p.tolist()
        for where in groupings(len(L), k):
            if same_up_to_order(grouped(L, pi, where, k), law_):
                return
        ctx.fail('law', f'{what}: gives {law_}, which is the law of the stationary walk of the original seen through no grouping of its states')

    @staticmethod
    def _reversible(ctx, q, L, a, what):
        n = len(L)
        d = a[0] or [1.0 / n] * n
        for i in range(n):
            if min(q[i]) < -1e-12 or abs(sum(q[i]) - 1) > 1e-9:
                ctx.fail('law', f'{what}: gives {q}')
            for j in range(i):
                if abs(d[i] * q[i][j] - d[j] * q[j][i]) > 1e-9:
                    ctx.fail('not-reversible', f'{what}: gives {q}, walks from the distribution {d} do not look the same backwards')

        def far(z):
            return sum((z[i][j] - L[i][j]) ** 2 * (d[i] / d[j] if a[1] else 1.0) for i in range(n) for j in range(n))
        best = far(q)
        for o in a[2] + [L]:
            z = [[min(d[i] * o[i][j], d[j] * o[j][i]) / d[i] for j in range(n)] for i in range(n)]
            for i in range(n):
                z[i][i] = 1.0 - sum(z[i][j] for j in range(n) if j != i)
            for e in (1.0, 0.1, 0.01):
                y = [[x + e * (c - x) for x, c in zip(r, w)] for r, w in zip(q, z)]
                if far(y) < best - 1e-4 * (1 + best):
                    ctx.fail('not-closest', f'{what}: gives {q}, at the squared distance {best}; {y} is reversible too, and at {far(y)}')

    @staticmethod
    def _partitions(ctx, m, L, n, what):
        if n < 3:
            return
        got = m.lumping_partitions
        ctx.stat('partitions listed', len(got))
        ctx.nontrivial = True
        listed = [sorted(sorted(int(x) for x in b) for b in parts) for parts in got]
        missing = []
        for parts in all_partitions(n):
            worst = project(L, parts)[1]
            if 1e-10 < worst < 1e-4:
                continue
            there = sorted(sorted(b) for b in parts) in listed
            if there and worst >= 1e-4:
                ctx.fail('lists-wrong-partition', f'{what}: lists {parts}, on which the projected walk has no law of its own')
            if not there and worst < 1e-4:
                missing.append(parts)
        for parts in missing:
            # are sums and averages over the blocks free of rounding, in whatever order they are taken?
            free = all(x * 4096 == int(x * 4096) for r in m.p.tolist() for x in r) and all(len(b) in (1, 2, 4) for b in parts)
            ctx.fail('misses-partition', f'{what}: {parts} is lumpable and not listed among {got}', None if free else 'lumpable-up-to-rounding-not-listed')

    def _restrict(self, ep, ctx):
        d = ep['m']
        st, sy, by_label = ep['restrict']
        m = models.build(d)
        names, syms = models.states_of(d), models.symbols_of(d)
        n, k = len(names), len(syms)
        what = f'restriction to states {st} and symbols {sy} of {d}'
        before = ops.canon(m)
        got = m.restrict(None if st is None else [names[x] for x in st] if by_label else st, None if sy is None else [syms[x] for x in sy] if by_label else sy)
        if not ops.same(ops.canon(m), before, rtol=0, atol=0):
            ctx.fail('original-changed', what)
        st, sy = sorted(st or range(n)), sorted(sy or range(k))
        if list(got.states) != [names[x] for x in st] or list(got.symbols) != [syms[x] for x in sy]:
            ctx.fail('labels', f'{what}: {got.states}, {got.symbols}')

        def cut(rows, cols):
            out = []
            for r in rows:
                r = [r[c] for c in cols]
                t = sum(r)
                out.append([x / t for x in r] if t > 0 else [1 / len(r)] * len(r))
            return out
        wp, we = cut([d['p'][x] for x in st], st), cut([d['e'][x] for x in st], sy)
        try:
            p, e = law.hmm_law(got)
            ctx.stat('laws measured by walks')
        except law.Unmeasurable:
            p, e = got.p.tolist(), got.e.tolist()
            ctx.stat('laws read from the model')
        for text, a, b in (('transitions', p, wp), ('emissions', e, we)):
            for i, (r, w) in enumerate(zip(a, b)):
                if r is not None and any(abs(x - y) > 1e-8 for x, y in zip(r, w)):
                    ctx.fail('law', f'{what}: {text} from state {i} have the law {r}, expected {w}')
        ctx.stat('derived restrict')
        ctx.nontrivial = True
        ctx.key(ep)


PROP = C25()
