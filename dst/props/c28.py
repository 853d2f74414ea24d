import math

from .. import core, faults, models, mt, ops
from .base import Base, T


def counts(np, p, e, pi, seqs):
    """Expected counts of steps and emissions (exact posterior expectations), and the log-probability; impossible histories are left out."""
    n, k = e.shape
    pc, ec, total, left_out = np.zeros((n, n)), np.zeros((n, k)), 0.0, 0
    for o in seqs:
        f, c, ok = [np.array(pi, dtype=float)], [1.0], True
        for y in o:
            v = (f[-1] @ p) * e[:, y]
            s = float(v.sum())
            if s <= 0.0:
                ok = False
                break
            f.append(v / s)
            c.append(s)
        if not ok:
            left_out += 1
            continue
        total += sum(math.log(x) for x in c[1:])
        b = np.ones(n)
        for t in range(len(o), 0, -1):
            ec[:, o[t - 1]] += f[t] * b
            w = e[:, o[t - 1]] * b / c[t]
            pc += f[t - 1][:, None] * p * w[None, :]
            b = p @ w
    return total, pc, ec, left_out


class C28(Base):
    id = 'C28'
    episodes = {'quick': 260, 'thorough': 8000}
    soft = 200.0
    rule = ('A run simulates 1-4 histories of a hidden model (seeded, or under draws chosen by the simulator), draws a guess (near the truth, far from it, or with null probabilities) and trains a model on the recorded symbols; half of '
            'the runs end the training at a drawn call boundary by an injected exception first. Distinct = distinct (guess, histories, kind) triples; non-trivial: the training converged to a model other than the guess.')
    measure = 'distinct (guess, histories, kind of training) triples'
    stub = ['in part of the runs the global NumPy generator, whose next uniform numbers are chosen by the simulator']
    assumptions = ['the training stops when a round changes the parameters by less than about 1e-6 each: one more round may change them by 1e-4 at most']

    def generate(self, rng, i, tier):
        d = models.gen_hmm(rng, n=models.size(rng, rng.choice([2, 3, 3, 4]), 9, 0.04), k=models.size(rng, rng.choice([2, 3, 3, 4]), 9, 0.04))
        n, k = len(d['p']), len(d['e'][0])
        x = rng.random()
        if x < 0.45:
            mix = rng.choice([0.5, 0.3, 0.1])
            g = {'p': [[(1 - mix) * v + mix / n for v in r] for r in d['p']], 'e': [[(1 - mix) * v + mix / k for v in r] for r in d['e']]}
        elif x < 0.9:
            q = models.gen_hmm(rng, n=n, k=k, exact=rng.random() < 0.5)
            g = {'p': q['p'], 'e': q['e']}
            if rng.random() < 0.5:
                g = {'p': [[(v + 1 / n) / 2 for v in r] for r in g['p']], 'e': [[(v + 1 / k) / 2 for v in r] for r in g['e']]}
        else:
            g = {'p': d['p'], 'e': d['e']}
        recs = []
        for _ in range(rng.choice([1, 1, 2, 3, 4])):
            recs.append({'steps': rng.choice([2, 3, 6, 12, 25]), 'seed': rng.getrandbits(31)} if rng.random() < 0.7 else {'steps': rng.choice([3, 6, 12, 25]), 'draws': mt.pattern(rng, n=60)[1]})
        pi = rng.choice([None, None, 'state', 'dist'])
        if pi == 'dist':
            pi = [v / models.D for v in models._row_units(rng, n, range(n))]
        elif pi == 'state':
            pi = rng.randrange(n)
        return {'model': d, 'guess': g, 'records': recs, 'pi': pi, 'kind': rng.choice(['baum-welch', 'baum-welch', 'baum-welch', 'map', 'mle', 'viterbi']), 'form': rng.choice(['labels', 'indices']),
                'fault': rng.choice([None, rng.random()]), 'exc': rng.choice(['MemoryError', 'KeyboardInterrupt', 'LinAlgError', 'FloatingPointError'])}

    def shrinkable(self, ep):
        return [['records']]

    def execute(self, ep, ctx):
        np, d = T.np, ep['model']
        m = models.build(d)
        names, syms = models.states_of(d), models.symbols_of(d)
        n = len(names)
        seqs = []
        for rec in ep['records']:
            kw = {}
            if 'seed' in rec:
                kw['seed'] = rec['seed']
            else:
                ctx.stat('fault:draws chosen by the simulator')
                mt.set_doubles(rec['draws'], skip_words=(0x12345678,))
            seqs.append([int(x) for x in m.simulate(rec['steps'], output_indices=True, **kw)[1]])
        if not seqs:
            return
        pi = [1.0 / n] * n if ep['pi'] is None else ep['pi'] if isinstance(ep['pi'], list) else [1.0 if j == ep['pi'] else 0.0 for j in range(n)]
        given = [[syms[y] for y in s] if ep['form'] == 'labels' else list(s) for s in seqs]
        if len(given) == 1:
            given = given[0]    # one history is given as it is
        pg, eg = np.array(ep['guess']['p'], dtype=float), np.array(ep['guess']['e'], dtype=float)
        args = [ep['kind'], list(names), list(syms), pg, eg, given] + ([] if ep['pi'] is None else [names[ep['pi']] if isinstance(ep['pi'], int) else np.array(pi)])
        before = ops.canon(args)
        text = f'{ep["kind"]} from the guess {ep["guess"]} on {seqs}, initial {ep["pi"]}'

        def train():
            try:
                return ['ok', T.HMM.fit(*args)]
            except Exception as ex:  # noqa
                if type(ex) is not ValueError:
                    ctx.fail('undocumented-error', f'{type(ex).__name__}: {ex}; {text}')
                return ['error', str(ex)]

        ctx.key(ep['guess'], seqs, ep['kind'])
        if ep['fault'] is not None:
            # a training that is ended on its way
            k = 1 + int(ep['fault'] ** 3 * 4000)
            inj = faults.Injector(T.prefix, at=k, exc=ep['exc'])
            inj.start()
            try:
                T.HMM.fit(*args)
            except BaseException as ex:  # noqa
                del ex
            inj.stop()
            if inj.fired:
                ctx.stat('fault:' + ep['exc'])
                ctx.log('ended at', inj.fired[0])
            if ops.canon(args) != before:
                ctx.fail('arguments-changed', f'after a training ended at {inj.fired}: {text}')
        res = train()
        if ops.canon(args) != before:
            ctx.fail('arguments-changed', text)
        again = train()
        if res[0] != again[0] or (res[0] == 'ok' and (not np.array_equal(res[1].p, again[1].p) or not np.array_equal(res[1].e, again[1].e))):
            ctx.fail('not-repeatable', text)
        ctx.log(res[0], ops.canon(res[1].p) if res[0] == 'ok' else res[1])
        first = counts(np, pg, eg, pi, seqs)
        if res[0] != 'ok':
            ctx.stat('not converged or degenerate')
            return
        fit = res[1]
        if list(fit.states) != list(names) or list(fit.symbols) != list(syms):
            ctx.fail('labels', f'{fit.states} {fit.symbols}; {text}')
        p, e = fit.p, fit.e
        for x in (p, e):
            if not np.all(np.isfinite(x)) or np.any(x < 0.0) or not np.allclose(x.sum(axis=1), 1.0, atol=1e-9):
                ctx.fail('malformed', f'{x.tolist()}; {text}')
        ctx.stat('converged')
        if not (np.allclose(p, pg) and np.allclose(e, eg)):
            ctx.nontrivial = True
        if first[3] == len(seqs):
            ctx.fail('impossible-training', f'no history can be produced by the guess, and a model was given: {text}')
        if ep['kind'] == 'baum-welch':
            have = counts(np, p, e, pi, seqs)
            # what the guess cannot do stays impossible
            if np.any(p[pg == 0.0] > 1e-12) or np.any(e[eg == 0.0] > 1e-12):
                ctx.fail('null-probabilities', f'{p.tolist()} {e.tolist()}; {text}')
            if have[3] > first[3]:
                ctx.fail('histories-became-impossible', f'{have[3]} of {len(seqs)}, {first[3]} before; {p.tolist()} {e.tolist()}; {text}')
            if have[3] == first[3] and have[0] < first[0] - 1e-6 * (1.0 + abs(first[0])):
                ctx.fail('less-probable', f'log-probability {first[0]} under the guess, {have[0]} under the model {p.tolist()} {e.tolist()}; {text}')
            pc, ec = have[1], have[2]
            what = 'expected'
        else:
            pc, ec = np.zeros_like(p), np.zeros_like(e)
            for s in seqs:
                a = [s] + ([] if ep['pi'] is None else [args[-1]])
                got = fit.predict(ep['kind'], *a, output_indices=True)
                if got is None:
                    continue
                path = [int(x) for x in got[1]]
                pq, eq = np.zeros_like(p), np.zeros_like(e)
                for a, b in zip(path, path[1:]):
                    pq[a, b] += 1.0
                for a, b in zip(path, s):
                    eq[a, b] += 1.0
                # every history has the same weight
                pc += pq / np.maximum(pq.sum(axis=1, keepdims=True), 1.0)
                ec += eq / np.maximum(eq.sum(axis=1, keepdims=True), 1.0)
            what = 'predicted'
        # the model is a fixed point: one more round changes nothing
        for name, x, c in (('transitions', p, pc), ('emissions', e, ec)):
            t = c.sum(axis=1, keepdims=True)
            keep = t[:, 0] > 1e-9
            y = c[keep] / t[keep]
            if np.any(np.abs(y - x[keep]) > 1e-4):
                ctx.fail('not-stationary', f'{name} {x.tolist()}, the {what} counts are {c.tolist()}; {text}')
        ctx.stat('compared')


PROP = C28()
