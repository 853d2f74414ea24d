import math

from .. import models, mt
from .base import Base, T

DISTS = [('uniform', {}), ('uniform', {'low': -1.0, 'high': 1.0}), ('exponential', {}), ('exponential', {'scale': 1e300}), ('normal', {}), ('beta', {'a': 1.0, 'b': 2.0}),
         ('beta', {'a': 1e-3, 'b': 1e-3}), ('poisson', {'lam': 2.0}), ('poisson', {'lam': 0.01}), ('gamma', {'shape': 0.7}), ('gamma', {'shape': 1e-3}), ('lognormal', {'sigma': 1.0}), ('lognormal', {'sigma': 400.0}),
         ('binomial', {'n': 4, 'p': 0.3}), ('triangular', {'left': -1.0, 'mode': 0.5, 'right': 3.0}), ('geometric', {'p': 0.4}), ('pareto', {'a': 0.01}), ('pareto', {'a': 2.0}), ('weibull', {'a': 0.01}),
         ('weibull', {'a': 2.0}), ('gumbel', {}), ('laplace', {}), ('logistic', {}), ('rayleigh', {}), ('power', {'a': 5.0}), ('chisquare', {'df': 0.1}), ('f', {'dfnum': 1.0, 'dfden': 0.05}),
         ('vonmises', {'mu': 0.0, 'kappa': 4.0}), ('wald', {'mean': 1.0, 'scale': 2.0}), ('zipf', {'a': 3.0}), ('logseries', {'p': 0.5}), ('negative_binomial', {'n': 2, 'p': 0.5}), ('hypergeometric', {'ngood': 3, 'nbad': 4, 'nsample': 3})]


def gen_mask(rng, rows, cols):
    """-> (mask with None for undefined, verdict): 'ok' or 'bad' (must be refused)"""
    out, verdict = [], 'ok'
    for _ in range(rows):
        row = [None] * cols
        x = rng.random()
        if x < 0.2:
            pass
        elif x < 0.35:                       # completely fixed
            row = [v / models.D for v in models._row_units(rng, cols, sorted(rng.sample(range(cols), rng.randint(1, cols))))]
        elif x < 0.45:                       # sums to one, the rest undefined
            k = rng.randint(1, max(1, cols - 1))
            v = models._row_units(rng, k, range(k))
            for j, c in enumerate(rng.sample(range(cols), k)):
                row[c] = v[j] / models.D
        elif x < 0.52:                       # only zeros but one
            row = [0.0] * cols
            row[rng.randrange(cols)] = None
        elif x < 0.56 and cols > 1:          # fixed, not summing to one
            row = [1.0 / 32] * cols
            if cols != 32:
                verdict = 'bad'
        elif x < 0.66 and x >= 0.59 and cols > 1:          # all but a little is given away
            k = rng.randint(1, cols - 1)
            v = models._row_units(rng, k, range(k))
            cs = rng.sample(range(cols), k)
            for j, c in enumerate(cs):
                row[c] = v[j] / models.D
            row[max(cs, key=lambda c: row[c])] -= 2.0 ** -rng.randint(6, 14)
        elif x < 0.59:
            row[0] = 0.75
            row[cols - 1] = 0.5
            verdict = 'bad'
        else:
            left = models.D
            for c in rng.sample(range(cols), rng.randint(1, cols - 1)):
                v = rng.choice([0, 0, 1, 2, 4, left // 2])
                if v <= left:
                    row[c] = v / models.D
                    left -= v
        out.append(row)
    return out, verdict


def capacity(mask):
    """The largest number of additional zeros that a mask admits."""
    n = 0
    for row in mask:
        s = sum(x for x in row if x is not None)
        free = sum(x is None for x in row)
        if abs(s - 1.0) > 1e-9 and free:
            n += free - 1
    return n


class C13(Base):
    id = 'C13'
    episodes = {'quick': 1400, 'thorough': 30000}
    rule = ('A run draws a generator (random chain, random hidden model, random distribution, Dirichlet process) with its arguments, masks and zeros, and calls it under six streams of uniform numbers chosen by the '
            'simulator (all zeros, all maximal, alternating extremes, bursts, mixtures, plain) placed in the global generator. Distinct = distinct (arguments, stream) pairs; non-trivial: a stream with extremes was consumed.')
    measure = 'distinct (arguments, stream) pairs'
    stub = ['the global NumPy generator, whose next 200 uniform numbers are chosen by the simulator']
    assumptions = ['at most the first 200 uniform numbers of a call are chosen; later ones follow from the generator']

    def generate(self, rng, i, tier):
        kind = rng.choice(['random', 'random', 'random', 'hmm', 'hmm', 'dist', 'dist', 'dirichlet'])
        n = models.size(rng, 7, 40)
        ep = {'kind': kind, 'n': n, 'labels': models.gen_labels(rng, n), 'streams': [], 'list': rng.random() < 0.3}
        if kind == 'random':
            ep['mask'], ep['verdict'] = (None, 'ok') if rng.random() < 0.4 else gen_mask(rng, n, n)
            cap = n * n - n if ep['mask'] is None else capacity(ep['mask'])
            ep['zeros'] = rng.choice([0, cap, rng.randint(0, max(cap, 0)), rng.randint(0, max(cap, 0))]) if rng.random() < 0.9 else cap + rng.randint(1, 3)
            ep['cap'] = cap
        elif kind == 'hmm':
            k = models.size(rng, 6, 30)
            ep['k'] = k
            ep['labels'] = models.gen_labels(rng, n + k, rng.choice(['words', 'letters', 'num', None]))
            for key, cols in (('p', n), ('e', k)):
                m, v = (None, 'ok') if rng.random() < 0.4 else gen_mask(rng, n, cols)
                cap = n * cols - n if m is None else capacity(m)
                ep[key] = {'mask': m, 'verdict': v, 'cap': cap, 'zeros': rng.choice([0, cap, rng.randint(0, max(cap, 0))]) if rng.random() < 0.93 else cap + rng.randint(1, 3)}
        elif kind == 'dist':
            ep['f'], ep['kw'] = rng.choice(DISTS)
        else:
            ep['df'] = rng.randint(1, n)
            ep['bias'] = rng.choice([None, None, 0.5, 1.0, 1e-6, 5.0])
            ep['shift'] = rng.random() < 0.5
        for _ in range(6):
            name, us = mt.pattern(rng, special=[0.25, 0.5, 0.75])
            m = len(us)
            while m > 1 and us[m - 1] == us[m - 2]:
                m -= 1
            ep['streams'].append([name, rng.getrandbits(40)])
        return ep

    def shrinkable(self, ep):
        return [['streams']]

    @staticmethod
    def _rows(ctx, name, m, mask, zeros, text, besides_full):
        np = T.np
        rows = m.tolist()
        for i, r in enumerate(rows):
            if not all(math.isfinite(x) and 0.0 <= x <= 1.0 + 1e-12 for x in r) or abs(sum(r) - 1.0) > 1e-7:
                ctx.fail('malformed-row', f'{text}: row {i} of {name} is {r}')
        if mask is not None:
            for i, r in enumerate(mask):
                for j, x in enumerate(r):
                    if x is not None and abs(rows[i][j] - x) > 1e-7:
                        ctx.fail('mask-not-honoured', f'{text}: {name}[{i}][{j}] is {rows[i][j]}, fixed at {x}; mask {mask}')
        fixed = sum(x == 0.0 for r in (mask or []) for x in r if x is not None)
        # a row whose fixed values sum to one has no choice left: its undefined entries are null in any case
        full = 0 if not besides_full else sum(x is None for r in (mask or []) for x in r if abs(sum(y for y in r if y is not None) - 1.0) < 1e-9)
        have = int(np.sum(m == 0.0))
        if have < zeros + fixed + full:
            ctx.fail('zeros-missing', f'{text}: {name} has {have} zeros, {zeros} were asked for besides {fixed + full} that the mask fixes; {rows}')

    def execute(self, ep, ctx):
        import random
        np = T.np

        def nd(mask):
            if mask is None:
                return None
            x = [[float('nan') if v is None else v for v in r] for r in mask]
            return x if ep['list'] else np.array(x, dtype=float)
        n = ep['n']
        for name, sseed in ep['streams']:
            r = random.Random(sseed)
            while True:
                got, us = mt.pattern(r, special=[0.25, 0.5, 0.75])
                if got == name:
                    break
            text = f'{ {k: v for k, v in ep.items() if k != "streams"} } with a stream of kind {name} ({us[:6]}...)'
            skip = [] if r.random() < 0.5 else [r.choice([0, 0xffffffff, r.getrandbits(32)]) for _ in range(r.choice([1, 2, n]))]
            mt.set_doubles(us, skip)
            bad, m, error = False, None, None
            try:
                if ep['kind'] == 'random':
                    bad = ep['verdict'] == 'bad' or ep['zeros'] > ep['cap']
                    m = T.MC.random(n, ep['labels'], ep['zeros'], nd(ep['mask']))
                elif ep['kind'] == 'hmm':
                    bad = any(ep[k]['verdict'] == 'bad' or ep[k]['zeros'] > ep[k]['cap'] for k in 'pe')
                    st, sy = (None, None) if ep['labels'] is None else (ep['labels'][:n], ep['labels'][n:])
                    m = T.HMM.random(n, ep['k'], st, ep['p']['zeros'], nd(ep['p']['mask']), sy, ep['e']['zeros'], nd(ep['e']['mask']))
                elif ep['kind'] == 'dist':
                    f = ep['f'] if not ep['list'] else getattr(np.random, ep['f'])
                    m = T.MC.random_distribution(n, f, ep['labels'], **ep['kw'])
                else:
                    m = T.MC.dirichlet_process(n, ep['df'], ep['labels'], ep['bias'], ep['shift'])
            except Exception as ex:  # noqa
                error = ex
            drew = np.random.get_state()[2] != 0
            ctx.log(ep['kind'], name, type(error).__name__)
            if drew:
                ctx.stat('fault:stream ' + name)
                ctx.nontrivial = ctx.nontrivial or name != 'random'
                ctx.key(ep, name, sseed)
            if error is not None:
                if not isinstance(error, T.ValidationError):
                    ctx.fail('undocumented-error', f'{text}: {type(error).__name__}: {error}')
                if not bad:
                    if ep['kind'] == 'dist' and 'ValueError' in type(error).__name__:
                        continue
                    ctx.fail('refused', f'{text}: {type(error).__name__}: {error}')
                ctx.stat('refused')
                continue
            if bad:
                ctx.fail('not-refused', f'{text}: cannot be met, gave {m.p.tolist()}')
            ctx.stat('generated')
            if ep['kind'] == 'hmm':
                self._rows(ctx, 'p', m.p, ep['p']['mask'], ep['p']['zeros'], text, False)
                self._rows(ctx, 'e', m.e, ep['e']['mask'], ep['e']['zeros'], text, False)
                want = (ep['labels'][:n], ep['labels'][n:]) if ep['labels'] is not None else ([f'P{i}' for i in range(1, n + 1)], [f'E{i}' for i in range(1, ep['k'] + 1)])
                if (list(m.states), list(m.symbols)) != want:
                    ctx.fail('labels', f'{text}: labels {m.states} {m.symbols}')
            else:
                self._rows(ctx, 'p', m.p, ep.get('mask'), ep.get('zeros', 0), text, True)
                want = ep['labels'] if ep['labels'] is not None else [str(i) for i in range(1, n + 1)]
                if list(m.states) != want:
                    ctx.fail('labels', f'{text}: labels {m.states}')
            try:
                m.simulate(3, 0, seed=1)
            except Exception as ex:  # noqa
                ctx.fail('unusable-model', f'{text}: simulate: {type(ex).__name__}: {ex}')


PROP = C13()
