import math
from fractions import Fraction as F

from .. import models, mt, ops
from .base import Base, T


def log(q):
    return math.log(q.numerator) - math.log(q.denominator) if q > 0 else -math.inf


def exact(rows):
    return [[F(x) for x in r] for r in rows]


class Reference:
    """What a history of symbols tells about the states, in exact arithmetic: the first state is drawn, every step moves and then emits."""

    def __init__(self, p, e, pi, y):
        n, f = len(p), len(y)
        self.n, self.f, self.p, self.e, self.pi, self.y = n, f, p, e, pi, y
        self.alpha = [list(pi)]
        for t in y:
            a = self.alpha[-1]
            self.alpha.append([sum((a[i] * p[i][j] for i in range(n) if a[i] and p[i][j]), F(0)) * e[j][t] for j in range(n)])
        self.beta = [[F(1)] * n]
        for t in reversed(y):
            b = self.beta[0]
            self.beta.insert(0, [sum((p[i][j] * e[j][t] * b[j] for j in range(n) if b[j] and p[i][j] and e[j][t]), F(0)) for i in range(n)])
        self.total = sum(self.alpha[-1])
        self.sums = [sum(a) for a in self.alpha]

    def enumerate(self):
        """The same by enumeration of all paths of states (short histories): -> total, posterior"""
        n, f = self.n, self.f
        total, post = F(0), [[F(0)] * f for _ in range(n)]

        def go(t, w, path):
            nonlocal total
            if not w:
                return
            if t == f:
                total += w
                for i, s in enumerate(path):
                    post[s][i] += w
                return
            prev = path[-1] if path else None
            for j in range(n):
                go(t + 1, w * (self.p[prev][j] if path else 1) * self.e[j][self.y[t]], path + [j])
        # the state before the first emission, then the paths
        first = [sum(self.pi[i] * self.p[i][j] for i in range(n)) for j in range(n)]
        for j in range(n):
            go(1, first[j] * self.e[j][self.y[0]], [j])
        return total, post

    def best(self, twice):
        """The largest log-probability of a path; `twice`: the state before the first emission emits the first symbol as well."""
        n = self.n
        v = [log(self.pi[i] * (self.e[i][self.y[0]] if twice else 1)) for i in range(n)]
        for t in self.y:
            v = [max(v[i] + log(self.p[i][j]) for i in range(n)) + log(self.e[j][t]) for j in range(n)]
        return max(v)

    def score(self, path, twice):
        n = self.n
        v = max(log(self.pi[i] * (self.e[i][self.y[0]] if twice else 1)) + log(self.p[i][path[0]]) for i in range(n)) + log(self.e[path[0]][self.y[0]])
        for a, b, t in zip(path, path[1:], self.y[1:]):
            v += log(self.p[a][b]) + log(self.e[b][t])
        return v


BEYOND = F(179, 100) * 10 ** 308


def close(a, b):
    return a == b or abs(a - b) <= 1e-8 * (1 + abs(b))


class C24(Base):
    id = 'C24'
    episodes = {'quick': 1200, 'thorough': 40000}
    rule = ('A run lets a hidden model produce a history under draws that the simulator chooses, disturbs the symbols (lost, duplicated, reordered, garbled, or an arbitrary sequence) and decodes and predicts it, '
            'with and without scaling, from a drawn initial status; the reference computes in exact arithmetic, and by enumeration of all paths for short histories. Histories have 2 to 400 symbols (up to 2000 for models whose states explain them with weights hundreds of orders of magnitude apart). '
            'Non-trivial: the history is possible and has more than one possible path, or is impossible. Distinct = distinct (model, status, symbols).')
    measure = 'distinct (model, initial status, symbols) triples'
    assumptions = ['the state before the first emission follows the initial status, as the documentation of the library has it for decoding']

    def generate(self, rng, i, tier):
        d = models.gen_hmm(rng, exact=rng.random() < 0.6, n=models.size(rng, 5, 20, 0.04), k=models.size(rng, 5, 20, 0.04))
        n, k = len(d['p']), len(d['e'][0])
        x = rng.random()
        status = None if x < 0.3 else (['state', rng.randrange(n), rng.random() < 0.5] if x < 0.6 else ['dist', [v / models.D for v in models._row_units(rng, n, sorted(rng.sample(range(n), rng.randint(1, n))))], rng.random() < 0.5])
        x = rng.random()
        steps = rng.randint(2, 7) if x < 0.7 else (rng.randint(8, 40) if x < 0.9 else rng.randint(100, 400))
        if rng.random() < 0.05:
            # a long history that is far from what the initial status suggests: the weights of the states part by hundreds of orders of magnitude
            n, k = rng.randint(2, 4), rng.randint(2, 3)
            p, e = [], []
            for i in range(n):
                other = rng.randrange(n)
                eps = rng.choice([0.0, 0.0, 0.0625, 2.0 ** -20])
                r = [0.0] * n
                r[i] += 1.0 - eps
                r[other] += eps
                p.append(r)
                units = models._row_units(rng, k, sorted(rng.sample(range(k), rng.randint(1, k))))
                e.append([v / models.D for v in units])
            d = dict(d, p=p, e=e, states=None, symbols=None, style='remote')
            y = [v for _ in range(rng.randint(1, 4)) for v in [rng.randrange(k)] * rng.choice([1, 40, 200, 330, 500])]
            status = rng.choice([None, ['state', rng.randrange(n), False], ['dist', [v / models.D for v in models._row_units(rng, n, range(n))], True]])
            return {'m': d, 'restrict': None, 'status': status, 'steps': len(y), 'draws': None, 'seed': 0, 'faults': [], 'symbols': y, 'labels': rng.random() < 0.5, 'scaling': rng.random() < 0.6, 'kind': rng.choice(['map', 'mle', 'viterbi'])}
        faults = []
        for _ in range(rng.choice([0, 0, 0, 1, 1, 2, 4])):
            faults.append([rng.choice(['lost', 'duplicated', 'reordered', 'garbled']), rng.random(), rng.randrange(k)])
        return {'m': d, 'restrict': None, 'status': status, 'steps': steps, 'draws': [rng.choice([0.0, mt.MAX, rng.random(), rng.random()]) for _ in range(8)] if rng.random() < 0.3 else None,
                'seed': rng.randint(0, 2**31 - 1), 'faults': faults, 'symbols': [rng.randrange(k) for _ in range(steps)] if rng.random() < 0.15 else None, 'labels': rng.random() < 0.5,
                'scaling': rng.random() < 0.6, 'kind': rng.choice(['map', 'mle', 'viterbi'])}

    def shrinkable(self, ep):
        return [['faults']] + ([['symbols']] if ep['symbols'] else [])

    def simpler(self, ep):
        if ep['steps'] > 2 and not ep['symbols']:
            for s in (2, ep['steps'] // 2, ep['steps'] - 1):
                if 2 <= s < ep['steps']:
                    yield dict(models.clone(ep), steps=s)

    def execute(self, ep, ctx):
        np = T.np
        d = ep['m']
        m = models.build(d)
        n, k = len(d['p']), len(d['e'][0])
        names, syms = models.states_of(d), models.symbols_of(d)
        st = ep['status']
        if st is None:
            status, pi = None, [F(1.0 / n)] * n
        elif st[0] == 'state':
            status, pi = (names[st[1]] if st[2] else st[1]), [F(int(j == st[1])) for j in range(n)]
        else:
            status, pi = (np.array(st[1]) if st[2] else list(st[1])), [F(x) for x in st[1]]
        # the history
        if ep['symbols'] is not None:
            y = list(ep['symbols'])
            ctx.stat('fault:arbitrary')
        else:
            if ep['draws'] is not None:
                mt.set_doubles(ep['draws'])
                ctx.stat('fault:draws chosen')
                _, y = m.simulate(ep['steps'], 0, output_indices=True)
            else:
                _, y = m.simulate(ep['steps'], output_indices=True, seed=ep['seed'])
            y = [int(t) for t in y]
        for kind, at, s in ep['faults']:
            a = int(at * len(y))
            if kind == 'lost' and len(y) > 2:
                y.pop(a)
            elif kind == 'duplicated':
                y.insert(a, y[a])
            elif kind == 'reordered' and a + 1 < len(y):
                y[a], y[a + 1] = y[a + 1], y[a]
            elif kind == 'garbled':
                y[a] = s
            else:
                continue
            ctx.stat('fault:symbol ' + kind)
        if len(y) < 2:
            return
        r = Reference(exact(d['p']), exact(d['e']), pi, y)
        given = [syms[t] for t in y] if ep['labels'] else list(y)
        got = m.decode(given, status, ep['scaling'])
        what = f'{"scaled" if ep["scaling"] else "unscaled"} decoding of {y} from {st} by {d}'
        ctx.log(y, got is None)
        ctx.stat('decodings')
        if n ** r.f <= 700:
            total, post = r.enumerate()
            if total != r.total:
                raise RuntimeError('the references disagree')
            ctx.stat('paths enumerated', n ** r.f)
        ctx.nontrivial = True
        ctx.key(d['p'], d['e'], st, y)
        if (got is None) != (r.total == 0):
            ctx.fail('possible' if got is None else 'impossible', f'{what}: the history has probability {float(r.total)} and is reported as {"impossible" if got is None else "possible"}')
        if got is not None:
            ctx.stat('possible')
            lp, post, back, forw, scale = got
            if not close(lp, log(r.total)):
                ctx.fail('log-probability', f'{what}: {lp}, it is {log(r.total)}')
            if np.shape(post) != (n, r.f) or np.shape(back) != (n, r.f + 1) or np.shape(forw) != (n, r.f + 1) or (scale is None) == ep['scaling'] or (scale is not None and np.shape(scale) != (r.f + 1,)):
                ctx.fail('shape', f'{what}: shapes {np.shape(post)}, {np.shape(back)}, {np.shape(forw)}, {np.shape(scale)}')
            for t in range(r.f + 1):
                if ep['scaling']:
                    c = F(1) if t == 0 else r.sums[t] / r.sums[t - 1]
                    if not close(float(scale[t]), float(c)):
                        ctx.fail('scaling-factor', f'{what}: factor {t} is {float(scale[t])}, it is {float(c)}')
                for s in range(n):
                    a, b = r.alpha[t][s], r.beta[t][s]
                    if ep['scaling']:
                        a, b = (a / r.sums[t] if t else a), b * r.sums[t] / r.total
                    for text, g, w in (('forward', forw[s][t], a), ('backward', back[s][t], b)):
                        if w > BEYOND:
                            if not g > 1.79e308:
                                ctx.fail(text, f'{what}: {text} probability of state {s} at time {t} is {float(g)!r}, it is beyond the largest number')
                            continue
                        w = float(w)
                        if not (abs(g - w) <= 1e-8 * abs(w) + (0 if w > 1e-280 else 1e-280)):
                            ctx.fail(text, f'{what}: {text} probability of state {s} at time {t} is {float(g)!r}, it is {w!r}')
                    if t:
                        w = float(r.alpha[t][s] * r.beta[t][s] / r.total)
                        if not abs(post[s][t - 1] - w) <= 1e-9:
                            ctx.fail('posterior', f'{what}: the posterior probability of state {s} at time {t} is {float(post[s][t - 1])!r}, it is {w!r}')
        kind = ep['kind']
        ans = m.predict(kind, given, status, not ep['labels'])
        what = f'{kind} prediction of {y} from {st} by {d}'
        ctx.stat('prediction ' + kind)
        path = None
        if ans is not None:
            lp, path = float(ans[0]), [names.index(s) if ep['labels'] else int(s) for s in ans[1]]
            if len(path) != r.f:
                ctx.fail('path-length', f'{what}: {len(path)} states for {r.f} symbols')
        if kind == 'map':
            if (ans is None) != (r.total == 0):
                ctx.fail('possible' if ans is None else 'impossible', f'{what}: {ans}, the history has probability {float(r.total)}')
            if ans is not None:
                if not close(lp, log(r.total)):
                    ctx.fail('log-probability', f'{what}: {lp}, it is {log(r.total)}')
                for t, s in enumerate(path):
                    w = [float(r.alpha[t + 1][j] * r.beta[t + 1][j] / r.total) for j in range(n)]
                    if w[s] < max(w) - 1e-9:
                        ctx.fail('not-maximal', f'{what}: state {s} at time {t + 1}, the posterior probabilities are {w}')
            return
        verdicts = {}
        for twice in (False, True):
            b = r.best(twice)
            if ans is None or b == -math.inf:
                verdicts[twice] = None if (ans is None) == (b == -math.inf) else f'{ans}, the best path has log-probability {b}'
            elif not close(lp, b):
                verdicts[twice] = f'log-probability {lp}, the best path has {b}'
            elif r.score(path, twice) < b - 1e-8 * (1 + abs(b)):
                verdicts[twice] = f'path {path} has log-probability {r.score(path, twice)}, the best has {b}'
            else:
                verdicts[twice] = None
        if verdicts[False] is not None:
            if verdicts[True] is None:
                ctx.fail('viterbi', f'{what}: {verdicts[False]}; the first symbol is counted twice', 'first-symbol-emitted-twice')
            ctx.fail('viterbi', f'{what}: {verdicts[False]}; if the first symbol is emitted twice: {verdicts[True]}')


PROP = C24()
