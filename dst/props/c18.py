import math

from .. import models, mt
from .base import Base, T


class C18(Base):
    id = 'C18'
    episodes = {'quick': 1200, 'thorough': 30000}
    rule = ('A run builds a chain or a hidden model, records histories of it under a seed or under draws chosen by the simulator, and hands them (as labels, indices, or NumPy integers; whole, cut, or with states that were never '
            'seen) to the estimators; the result is compared with a count of the record. Distinct = distinct recorded histories; non-trivial: a history with more than one kind of step.')
    measure = 'distinct recorded histories'
    stub = ['in part of the runs the global NumPy generator, whose next uniform numbers are chosen by the simulator']
    assumptions = ['the smoothing constant is not documented: any positive constant common to all pairs of states is accepted']

    def generate(self, rng, i, tier):
        hid = rng.random() < 0.35
        d = models.gen_hmm(rng, n=models.size(rng, 5, 24), k=models.size(rng, 5, 24)) if hid else models.gen_mc(rng, n=models.size(rng, 7, 40), exact=rng.random() < 0.6)
        recs = []
        for _ in range(rng.randint(1, 4)):
            if rng.random() < 0.5:
                how = {'seed': rng.choice([0, 1, rng.getrandbits(31)])}
            else:
                how = {'draws': mt.pattern(rng, n=60)[1]}
            recs.append(dict(how, steps=rng.choice([2, 2, 3, 5, 10, 30, 120] + ([1500] if rng.random() < 0.1 else [])), form=rng.choice(['labels', 'indices', 'npint', 'mixedint']), cut=rng.choice([0, 0, 1, 2]),
                             call=rng.choice(['mle', 'mle', 'map', 'map-param', 'smooth', 'mle-omitted']), start=rng.choice([None, 0, len(d['p']) - 1])))
        n = len(d['p'])
        return {'model': d, 'records': recs, 'extra': rng.choice([0, 0, 0, 1, 3]), 'order': rng.sample(range(n), n) if rng.random() < 0.5 else list(range(n)),
                'prior': [[rng.choice([1, 1, 1, 2, 3, 10]) for _ in range(n + 3)] for _ in range(n + 3)], 'odd': [rng.randrange(n) for _ in range(rng.choice([2, 3, 4, 8]))]}

    def shrinkable(self, ep):
        return [('records',)]

    @staticmethod
    def form(np, kind, idx, names):
        if kind == 'labels':
            return [names[x] for x in idx]
        if kind == 'npint':
            return [np.int64(x) for x in idx]
        if kind == 'mixedint':
            return [np.int32(x) if k % 2 else int(x) for k, x in enumerate(idx)]
        return [int(x) for x in idx]

    def execute(self, ep, ctx):
        np, d = T.np, ep['model']
        n, names, hid = len(d['p']), models.states_of(d), d['k'] == 'hmm'
        syms = models.symbols_of(d) if hid else []
        m = models.build(d)
        p = d['p']
        possible = [names[x] for x in ep['order']] + [f'zz{x}' for x in range(ep['extra'])]
        where = {v: k for k, v in enumerate(possible)}
        size = len(possible)

        def near(what, have, want):
            have = np.asarray(have, dtype=float)
            want = np.asarray(want, dtype=float)
            ctx.stat('compared')
            if have.shape != want.shape or not np.allclose(have, want, rtol=1e-9, atol=1e-12):
                ctx.fail('estimate', f'{what}: {have.tolist()}, the history contains {want.tolist()}')

        def shares(counts, weight=0.0):
            out = []
            for row in counts:
                row = [x + weight for x in row]
                t = sum(row)
                out.append([x / t for x in row] if t else [1 / len(row)] * len(row))
            return out

        for k, rec in enumerate(ep['records']):
            if 'seed' in rec:
                kw = {'seed': rec['seed']}
            else:
                kw = {}
                ctx.stat('fault:draws chosen by the simulator')
                mt.set_doubles(rec['draws'], skip_words=() if rec['start'] is not None else (0x12345678,))
            if hid:
                states, symbols = m.simulate(rec['steps'], initial_state=rec['start'], output_indices=True, **kw)
                states, symbols = [int(x) for x in states], [int(x) for x in symbols]
            else:
                states = [int(x) for x in m.simulate(rec['steps'], initial_state=rec['start'], output_indices=True, **kw)]
            ctx.key(d, states)
            ctx.log(k, states, symbols if hid else '')
            if len(set(zip(states, states[1:]))) > 1:
                ctx.nontrivial = True
            if hid:
                if rec['cut'] and len(states) > 2 + rec['cut']:
                    states, symbols = states[rec['cut']:], symbols[rec['cut']:]
                if len(states) < 2 or len(states) != len(symbols):
                    continue
                order = [where[names[x]] for x in states]
                f, g = [[0] * size for _ in range(size)], [[0] * len(syms) for _ in range(size)]
                for a, b in zip(order, order[1:]):
                    f[a][b] += 1
                for a, b in zip(order, symbols):
                    g[a][b] += 1
                e = T.HMM.estimate(possible, syms, self.form(np, rec['form'], order, possible), self.form(np, rec['form'], symbols, syms))
                near('estimated transitions', e.p, shares(f))
                near('estimated emissions', e.e, shares(g))
                if list(e.states) != possible or list(e.symbols) != syms:
                    ctx.fail('estimate', f'the labels {e.states} {e.symbols} instead of {possible} {syms}')
                continue
            # the probability of the history, and of an arbitrary one, under the model
            for seq in (states[:40], ep['odd'], [states[0], states[-1]], states[-2:] if len(states) > 2 else states):
                want = math.prod(p[a][b] for a, b in zip(seq, seq[1:]))
                have = float(m.sequence_probability(self.form(np, rec['form'], seq, names)))
                ctx.stat('compared')
                if not math.isclose(have, want, rel_tol=1e-9, abs_tol=1e-300):
                    ctx.fail('sequence-probability', f'{seq}: {have}, the product of the steps is {want}; {d}')
            if float(m.sequence_probability(states[:25])) <= 0.0:
                ctx.fail('sequence-probability', f'the produced history {states[:40]} has no probability')
            if rec['cut'] and len(states) > 2 + rec['cut']:
                states = states[rec['cut']:]
            order = [where[names[x]] for x in states]
            if len(order) < 2:
                continue
            f = [[0] * size for _ in range(size)]
            for a, b in zip(order, order[1:]):
                f[a][b] += 1
            seq = self.form(np, rec['form'], order, possible)
            call = rec['call']
            if call == 'mle':
                fit = T.MC.fit_sequence('mle', possible, seq, False)
                near('maximum likelihood fit', fit.p, shares(f))
            elif call == 'mle-omitted':
                fit = T.MC.fit_sequence('mle', possible, seq)
                near('maximum likelihood fit (no smoothing requested)', fit.p, shares(f))
            elif call == 'smooth':
                fit = T.MC.fit_sequence('mle', possible, seq, True)
                q = fit.p.tolist()
                # the constant follows from one row: q = (f + c) / (t + size * c)
                t = sum(f[order[0]])
                c = None
                for j in range(size):
                    x, y = q[order[0]][j], f[order[0]][j]
                    if abs(1 - size * x) > 1e-9:
                        c = (t * x - y) / (1 - size * x)
                        break
                if c is None:
                    c = 1.0           # equal counts: any constant gives the same row
                    rows = [r for r in range(size) if sum(f[r]) == 0]
                    near('smoothed rows never left', [q[r] for r in rows], [[1 / size] * size for r in rows])
                else:
                    if not 0.0 < c <= 1.0 + 1e-9:
                        ctx.fail('estimate', f'smoothing by {c}: {q}; counts {f}')
                    have = np.asarray(q)
                    if not np.allclose(have, np.asarray(shares(f, c)), rtol=1e-6, atol=1e-9):
                        ctx.fail('estimate', f'smoothed fit {q} of the counts {f} is not that of one constant')
            else:
                prior = [row[:size] for row in ep['prior'][:size]] if call == 'map-param' else [[1] * size for _ in range(size)]
                want = [[f[a][b] + prior[a][b] - 1 for b in range(size)] for a in range(size)]
                fit = T.MC.fit_sequence('map', possible, seq, np.array(prior, dtype=float)) if call == 'map-param' else T.MC.fit_sequence('map', possible, seq)
                near(f'maximum a posteriori fit ({call})', fit.p, shares(want))
            if list(fit.states) != possible:
                ctx.fail('estimate', f'the labels {fit.states} instead of {possible}')


PROP = C18()
