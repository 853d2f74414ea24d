from .. import law, models, walks
from .base import Base, T

# Histories on which the unrepaired defect (long horizons through a real-valued eigendecomposition) shows; see DESIGN.md.
COMPLEX = [[0.6, 0.3, 0.1], [0.2, 0.3, 0.5], [0.4, 0.1, 0.5]]
DEFECTIVE = [[0.0, 1.0, 0.0, 0.0], [0.0, 0.0, 1.0, 0.0], [0.0, 0.0, 0.0, 1.0], [0.0, 0.0, 0.0, 1.0]]
PROBES = [(f, name) for name in ('complex', 'defective') for f in ('expected_transitions', 'time_correlations', 'time_relaxations')] + [('mixing_time', 'jump'), ('mixing_time', 'slow')]


class C16(Base):
    id = 'C16'
    episodes = {'quick': 800, 'thorough': 20000}
    rule = ('A run builds a chain (reducible, periodic, absorbing, reversible, ... with permuted states), measures the step law of its walks through chosen draws, records walks, and compares every probability, time and '
            'reward that the library computes with the value that a small walk model derives from the measured law. Distinct = distinct chains; non-trivial: at least ten quantities were compared.')
    measure = 'distinct chains'
    stub = ['the global NumPy generator, whose next uniform numbers are chosen by the simulator (while the step law is measured)']
    assumptions = ['chains have at most 40 states (mostly at most 7) and transition probabilities of at least about 1/64, so that the reference is well conditioned (relative tolerance 1e-6); times are not compared where they exceed 10^4 steps in chains of more than 7 states',
                   'horizons beyond the number of states are explored for chains with a real, well-conditioned spectrum only (see known findings)']

    def generate(self, rng, i, tier):
        if i < len(PROBES):
            return {'probe': i}
        n = models.size(rng, 7, 40)
        style = rng.choice([s for s in models.STYLES if s != 'upset']) if n <= 7 else rng.choice(['dense', 'sparse', 'ring', 'absorbing', 'reducible', 'reversible', 'doubly', 'lumpable'])
        d = models.gen_mc(rng, n=n, style=style, exact=rng.random() < 0.7)
        if n <= 7 and rng.random() < 0.12:         # walks that hardly ever leave
            e = 2.0 ** -rng.randint(6, 24)
            d['p'] = [[(1.0 - e) * (i == j) + e * x for j, x in enumerate(r)] if rng.random() < 0.7 else r for i, r in enumerate(d['p'])]
        ep = {'model': d, 'targets': sorted(rng.sample(range(n), rng.randint(1, n))), 'init': rng.randrange(n), 'steps': rng.choice([1, 2, 3, 5, 9, 17]),
              'rewards': [rng.randint(-3, 5) for _ in range(n)], 'dist': [rng.choice([0, 0, 1, 2, 5]) for _ in range(n)], 'origins': sorted(rng.sample(range(n), rng.randint(1, n))),
              'seq': [[rng.randrange(n) for _ in range(rng.randint(2, 9))] for _ in range(2)], 'tp': sorted(rng.sample(range(0, n + 1), rng.randint(1, min(3, n)))), 'walk': rng.getrandbits(31), 'labels': rng.random() < 0.5,
              'pick': rng.getrandbits(30), 'order': rng.getrandbits(30)}
        if not sum(ep['dist']):
            ep['dist'][rng.randrange(n)] = 1
        return ep

    @staticmethod
    def _probe(ctx, k):
        np = T.np
        f, name = PROBES[k]
        if f == 'mixing_time':
            m = T.MC([[0.9, 0.1], [0.05, 0.95]] if name == 'jump' else [[0.999, 0.001], [0.001, 0.999]])
            jump, want = (3, 12) if name == 'jump' else (1, 693)
            have = m.mixing_time([1.0, 0.0], jump, 'traditional')
            ctx.stat('probes')
            if have != want:
                ctx.fail('mixing-time', f'mixing_time of {m.p.tolist()} from [1, 0] in jumps of {jump}: {have}, the walks are mixed with the jump to step {want}', sig=f'mixing_time-{name}-{have}')
            return
        p = np.array(COMPLEX if name == 'complex' else DEFECTIVE)
        n = len(p)
        m = T.MC(p)
        d = np.array([0.7, 0.15, 0.15] if n == 3 else [1.0, 0.0, 0.0, 0.0])
        steps = (24 if f == 'expected_transitions' else 4) if n == 3 else 9
        o = np.array([2.0, 1.0, 1.0] if n == 3 else [1.0, 1.0, 1.0, 1.0])
        seq = [i for i in range(n) for _ in range(int(o[i]))]
        pn = np.linalg.matrix_power(p, steps)
        try:
            if f == 'expected_transitions':
                s = sum(d @ np.linalg.matrix_power(p, t) for t in range(steps))
                want, have = s[:, None] * p, m.expected_transitions(steps, d)
            elif f == 'time_correlations':
                want, have = (o * m.pi[0]) @ pn @ o, m.time_correlations(seq, None, steps)
            else:
                want, have = d @ pn @ o, m.time_relaxations(seq, d, steps)
        except Exception as ex:  # noqa
            ctx.fail('long-horizon', f'{f} over {steps} steps of {p.tolist()}: {type(ex).__name__}: {ex}', sig=f'{f}-{name}-{type(ex).__name__}')
        ctx.stat('probes')
        if not np.allclose(have, want, rtol=1e-6, atol=1e-9):
            x = np.ravel(np.asarray(have, dtype=float))[0]
            ctx.fail('long-horizon', f'{f} over {steps} steps of {p.tolist()}: {np.asarray(have).tolist()}, the walks give {np.asarray(want).tolist()}', sig=f'{f}-{name}-{x:.4f}')

    def execute(self, ep, ctx):
        if 'probe' in ep:
            self._probe(ctx, ep['probe'])
            return
        import random
        np, d = T.np, ep['model']
        m = models.build(d)
        n, names = len(d['p']), models.states_of(d)
        p = np.array(d['p'])
        rng = random.Random(ep['walk'])
        try:
            lw = np.array(law.mc_law(m))
            ctx.stat('laws measured')
            ctx.stat('fault:draws chosen by the simulator', 2 * n)
            if not np.allclose(lw, p, rtol=0, atol=1e-9):
                p = lw
        except law.Unmeasurable:
            ctx.stat('laws not measurable')
        pl = p.tolist()
        r = walks.reach(pl)
        cl, closed = walks.classes(pl)
        tr = sorted(s for k, c in enumerate(cl) if k not in closed for s in c)
        irreducible = len(cl) == 1
        ergodic = irreducible and walks.period(pl, cl[0]) == 1
        ab = [i for i in range(n) if p[i, i] == 1.0]
        absorbing = bool(ab) and all(any(r[i][a] for a in ab) for i in range(n))
        lab = (lambda x: names[x]) if ep['labels'] else (lambda x: x)
        labs = lambda xs: [lab(x) for x in xs]  # noqa
        tg, i0, steps = ep['targets'], ep['init'], ep['steps']
        dist = np.array(ep['dist'], dtype=float)
        dist /= dist.sum()
        w = np.array(ep['rewards'], dtype=float)
        done = [0]

        def check(what, have, want, tol=1e-6):
            done[0] += 1
            ctx.stat('compared ' + what)
            if have is None or want is None:
                if have is not want:
                    ctx.fail('quantity', f'{what}: {have}, the walks give {want}; {self._text(ep)}')
                return
            a, b = np.asarray(have, dtype=float), np.asarray(want, dtype=float)
            if a.shape != b.shape or not np.allclose(a, b, rtol=tol, atol=tol):
                ctx.fail('quantity', f'{what}: {a.tolist()}, the walks give {b.tolist()}; {self._text(ep)}')

        def recorded():
            for _ in range(2):
                walk = m.simulate(rng.choice([2, 3, 6]), i0, output_indices=True, seed=rng.getrandbits(31))
                q = 1.0
                for a, b in zip(walk, walk[1:]):
                    q *= p[a, b]
                check('sequence_probability', m.sequence_probability(labs(walk)), q, 1e-9)
            check('sequence_probability', m.sequence_probability(labs(ep['seq'][0])), float(np.prod([p[a, b] for a, b in zip(ep['seq'][0], ep['seq'][0][1:])])), 1e-9)

        def predict():
            x, path = i0, [i0]
            for _ in range(steps):
                top = [j for j in range(n) if abs(p[x, j] - p[x].max()) < 1e-12]
                if len(top) > 1:
                    if p[x, top[0]] == p[x, top[-1]]:
                        path = None
                        break
                    return                   # too close to call
                x = top[0]
                path.append(x)
            have = m.predict(steps, lab(i0), output_indices=True)
            if have != path:
                ctx.fail('quantity', f'predict: {have}, the most probable steps are {path}; {self._text(ep)}')
            done[0] += 1

        def stationary():
            have = [np.asarray(x) for x in m.pi]
            want = [walks.stationary(pl, cl[k]) for k in sorted(closed)]
            if len(have) != len(want):
                ctx.fail('quantity', f'pi: {len(have)} stationary distributions, the walks have {len(want)} closed classes; {self._text(ep)}')
            for x in want:
                if not any(np.allclose(x, y, rtol=1e-6, atol=1e-9) for y in have):
                    ctx.fail('quantity', f'pi: {[y.tolist() for y in have]} lacks {x.tolist()}; {self._text(ep)}')
            done[0] += 1

        def redistribute():
            ds = [dist]
            for _ in range(steps):
                ds.append(ds[-1] @ p)
            check('redistribute', m.redistribute(steps, dist), ds[-1])
            check('redistribute', m.redistribute(steps, dist, output_last=False), ds)
            check('redistribute', m.redistribute(steps, lab(i0)), np.linalg.matrix_power(p, steps)[i0])
            check('redistribute', m.redistribute(steps), np.full(n, 1.0 / n) @ np.linalg.matrix_power(p, steps))

        def rewards():
            check('expected_rewards', m.expected_rewards(steps, w), sum(np.linalg.matrix_power(p, k) @ w for k in range(steps + 1)))
            others = [t for t in tg if t != i0][:n - 2]
            if n > 2 and others:
                o = [i for i in range(n) if i not in others]
                q, x, tot = p[np.ix_(o, o)], np.zeros(len(o)), 0.0
                x[o.index(i0)] = 1.0
                for _ in range(steps):
                    x = x @ q
                    tot += x @ w[o]
                check('first_passage_reward', m.first_passage_reward(steps, lab(i0), labs(others), w), tot)

        def transitions():
            h = steps if steps <= n else (steps if self._tame(p) else n)
            s, x = np.zeros(n), dist.copy()
            for _ in range(h):
                s += x
                x = x @ p
            check('expected_transitions' + (' beyond the size' if h > n else ''), m.expected_transitions(h, dist), s[:, None] * p)
            x = np.full(n, 1.0 / n)
            check('expected_transitions', m.expected_transitions(2, None) if n >= 2 else None, (x + x @ p)[:, None] * p)

        def passages():
            check('first_passage_probabilities', m.first_passage_probabilities(steps, lab(i0)), np.array([walks.first_passage(p, i0, [j], steps) for j in range(n)]).T)
            check('first_passage_probabilities to one', m.first_passage_probabilities(steps, lab(i0), lab(tg[0])), walks.first_passage(p, i0, [tg[0]], steps))
            if len(tg) > 1:                  # to several states: the first passage to any of them, or the sum over each of them
                have = np.asarray(m.first_passage_probabilities(steps, lab(i0), labs(tg)), dtype=float)
                any_, each = np.array(walks.first_passage(p, i0, tg, steps)), sum(np.array(walks.first_passage(p, i0, [t], steps)) for t in tg)
                if not any(have.shape == x.shape and np.allclose(have, x, rtol=1e-6, atol=1e-6) for x in (any_, each)):
                    check('first_passage_probabilities to several', have, each)

        def hitting():
            check('hitting_probabilities', m.hitting_probabilities(labs(tg)), walks.hit_prob(p, tg))
            check('hitting_times', m.hitting_times(labs(tg)), walks.hit_time(p, tg))
            if ep['pick'] & 1:
                check('hitting_probabilities', m.hitting_probabilities(), np.ones(n))
                check('hitting_times', m.hitting_times(), np.zeros(n))

        def counts():
            check('mean_number_visits', m.mean_number_visits(), walks.visits(p), 1e-5)

        def absorption():
            if absorbing and tr:
                check('absorption_probabilities', m.absorption_probabilities(), np.array([walks.hit_prob(p, [a])[tr] for a in ab]))
                check('mean_absorption_times', m.mean_absorption_times(), walks.hit_time(p, ab)[tr])
                check('fundamental_matrix', m.fundamental_matrix, walks.visits(p)[np.ix_(tr, tr)] + np.eye(len(tr)), 1e-5)
                check('kemeny_constant', m.kemeny_constant, float(np.trace(walks.visits(p)[np.ix_(tr, tr)]) + len(tr)), 1e-5)
            else:
                check('absorption_probabilities', m.absorption_probabilities(), None)
                check('mean_absorption_times', m.mean_absorption_times(), None)

        def ergodics():
            if not ergodic:
                check('mean_first_passage_times_to', m.mean_first_passage_times_to(labs(tg)), None)
                check('mean_recurrence_times', m.mean_recurrence_times(), None)
                return
            pi = walks.stationary(pl, list(range(n)))
            check('mean_first_passage_times_to', m.mean_first_passage_times_to(), np.array([walks.hit_time(p, [j]) for j in range(n)]).T, 1e-5)
            check('mean_first_passage_times_to', m.mean_first_passage_times_to(labs(tg)), walks.hit_time(p, tg), 1e-5)
            ret = [1.0 + p[j] @ walks.hit_time(p, [j]) for j in range(n)]
            check('mean_recurrence_times', m.mean_recurrence_times(), ret, 1e-5)
            t2 = tg if len(tg) < n else tg[:-1]
            o = ep['origins'] if len(ep['origins']) < n else ep['origins'][1:]
            if t2 and o:
                check('mean_first_passage_times_between', m.mean_first_passage_times_between(labs(o), labs(t2)), (pi[o] / pi[o].sum()) @ walks.hit_time(p, t2)[o], 1e-5)
            b = [i for i in range(n) if i not in t2]
            rb = random.Random(ep['pick'])
            b = sorted(rb.sample(b, rb.randint(1, len(b)))) if b else []
            if b and t2:
                def race(q, lose, win):
                    q = [[(1.0 if i == j else 0.0) if i in lose or i in win else q[i][j] for j in range(n)] for i in range(n)]
                    return walks.hit_prob(q, win)
                check('committor_probabilities forward', m.committor_probabilities('forward', labs(t2), labs(b)), race(p.tolist(), t2, b))
                back = (p.T * pi[None, :]) / pi[:, None]
                check('committor_probabilities backward', m.committor_probabilities('backward', labs(t2), labs(b)), race(back.tolist(), b, t2))

        def mixing():
            if not ergodic:
                return
            pi = walks.stationary(pl, list(range(n)))
            kind = ('natural', 'traditional')[ep['pick'] & 1]
            cut = (0.5 * np.exp(-1.0), 0.25)[ep['pick'] & 1]
            x, dists = dist, []
            for _ in range(90):
                x = x @ p
                dists.append(float(np.abs(x - pi).sum()))
            if min(abs(y - cut) for y in dists) > 1e-9 and min(dists) < cut:
                check('mixing_time', m.mixing_time(dist, 1, kind), 1 + next(t for t, y in enumerate(dists) if y < cut))
                j = 2 + ep['pick'] % 7
                x, k = dist @ np.linalg.matrix_power(p, j), j
                while np.abs(x - pi).sum() > cut:
                    x, k = x @ np.linalg.matrix_power(p, j), k + j
                have = m.mixing_time(dist, j, kind)
                if have != j * (1 + next(t for t, y in enumerate(dists) if y < cut)):         # (see known findings)
                    check('mixing_time in jumps', have, k)

        def times():
            if len(closed) > 1:
                check('time_correlations', m.time_correlations(labs(ep['seq'][0]), None, ep['tp']), None)
                check('time_relaxations', m.time_relaxations(labs(ep['seq'][0]), dist, ep['tp']), None)
                return
            pi = walks.stationary(pl, cl[sorted(closed)[0]])
            o1, o2 = (np.bincount(s, minlength=n).astype(float) for s in ep['seq'])
            tp = list(ep['tp'])
            if self._tame(p) and ep['pick'] & 6:
                tp = sorted(set(tp + [n + 1 + (ep['pick'] >> 3) % 9]))
            long = ' beyond the size' if tp[-1] > n else ''
            pw = [np.linalg.matrix_power(p, t) for t in tp]
            check('time_correlations' + long, m.time_correlations(labs(ep['seq'][0]), labs(ep['seq'][1]), tp), [(o1 * pi) @ x @ o2 for x in pw], 1e-5)
            check('time_correlations' + long, m.time_correlations(labs(ep['seq'][0]), None, tp[-1]), (o1 * pi) @ pw[-1] @ o1, 1e-5)
            check('time_relaxations' + long, m.time_relaxations(labs(ep['seq'][1]), dist, tp), [dist @ x @ o2 for x in pw], 1e-5)

        if n > 7:
            x = np.array([walks.hit_time(p, [j]) for j in range(n)])
            if x[np.isfinite(x)].max() > 1e4 or np.nanmax(walks.visits(p)[np.isfinite(walks.visits(p))], initial=0.0) > 1e4:
                ctx.stat('large chains too slow to compare times')
                hitting = counts = absorption = ergodics = lambda: None  # noqa
            ctx.stat('large chains')
        todo = [recorded, predict, stationary, redistribute, rewards, transitions, passages, hitting, counts, absorption, ergodics, mixing, times]
        random.Random(ep['order']).shuffle(todo)
        for f in todo:
            f()
        ctx.log(done[0])
        ctx.key(d['p'])
        ctx.nontrivial = done[0] >= 10

    @staticmethod
    def _tame(p):
        np = T.np
        ev, v = np.linalg.eig(p)
        return bool(np.abs(ev.imag).max() < 1e-12 and np.linalg.cond(v) < 1e4 and all(abs(x - 1) > 1e-3 or abs(x - 1) < 1e-10 for x in ev.real))

    @staticmethod
    def _text(ep):
        return {k: v for k, v in ep.items() if k not in ('walk', 'pick', 'order')}


PROP = C16()
