import random

from .. import models, mt
from .base import Base, T


def odd_rows(rng, p):
    """Replaces some rows by ones that are hard to draw from: tiny, uneven, unnormalised within the tolerance, with leading and trailing zeros."""
    n = len(p[0])
    for i in range(len(p)):
        x = rng.random()
        if x < 0.3:
            sup = sorted(rng.sample(range(n), rng.randint(1, n)))
            w = [rng.choice([1e-300, 1e-17, 2.0 ** -53, 1e-9, 0.1, 1.0, 1.0, 1.0 / 3.0]) if j in sup else 0.0 for j in range(n)]
            t = sum(w)
            p[i] = [x / t for x in w]
        elif x < 0.4:
            f = 1.0 + rng.choice([-5e-9, 5e-9, 1e-12, -1e-12])
            r = [v * f for v in p[i]]
            if max(r) <= 1.0:
                p[i] = r
        elif x < 0.5 and n > 2:              # ten times a tenth, and the like: the sum misses one
            sup = sorted(rng.sample(range(n), rng.randint(2, n)))
            p[i] = [1.0 / len(sup) if j in sup else 0.0 for j in range(n)]
    return p


def boundaries(rows):
    out = []
    for r in rows:
        c = 0.0
        for x in r:
            c += x
            out.append(min(c, 1.0))
    return sorted(set(out))


class C14(Base):
    id = 'C14'
    episodes = {'quick': 900, 'thorough': 24000}
    rule = ('A run builds a chain or a hidden model (also with tiny, uneven and unnormalised rows) and makes 12 walks (simulate, next) whose uniform numbers the simulator chooses: extremes of the range, '
            'boundaries of the cumulative rows and their neighbours, bursts, plain ones, or a seed. Each recorded walk is checked step by step. Distinct = distinct (model, call, stream); non-trivial: a step was drawn from chosen numbers.')
    measure = 'distinct (model, call, stream) triples'
    stub = ['the global NumPy generator, whose next 200 uniform numbers are chosen by the simulator (part of the walks)']
    assumptions = ['at most the first 200 uniform numbers of a walk are chosen; later ones follow from the generator']

    def generate(self, rng, i, tier):
        if rng.random() < 0.5:
            d = models.gen_mc(rng, n=models.size(rng, rng.choice([3, 6, 12]), 70), exact=rng.random() < 0.5)
            odd_rows(rng, d['p']) if rng.random() < 0.6 else None
        else:
            d = models.gen_hmm(rng, n=models.size(rng, rng.choice([3, 6]), 40), k=models.size(rng, rng.choice([3, 6]), 40), exact=rng.random() < 0.5)
            if rng.random() < 0.6:
                odd_rows(rng, d['p'])
                odd_rows(rng, d['e'])
        n, hmm = len(d['p']), d['k'] == 'hmm'
        calls = []
        for _ in range(12):
            c = {'op': 'simulate' if rng.random() < 0.75 else 'next', 'indices': rng.random() < 0.5, 'init': rng.randrange(n), 'label': rng.random() < 0.5,
                 'seed': rng.getrandbits(32) if rng.random() < 0.25 else None, 'stream': rng.getrandbits(40)}
            if c['op'] == 'simulate':
                c['steps'] = rng.choice([2, 2, 3, 5, 10, 30, 90] + ([300, 1100] if rng.random() < 0.15 else []))
                if rng.random() < 0.3:
                    c['init'] = None
                c['final'] = rng.randrange(n) if rng.random() < 0.4 else None
                if hmm:
                    c['final_symbol'] = rng.randrange(len(d['e'][0])) if rng.random() < 0.4 else None
            elif hmm:
                c['target'] = rng.choice(['both', 'state', 'symbol'])
            calls.append(c)
        return {'model': d, 'calls': calls}

    def shrinkable(self, ep):
        return [['calls']]

    def execute(self, ep, ctx):
        np, d = T.np, ep['model']
        hmm = d['k'] == 'hmm'
        p, n = d['p'], len(d['p'])
        states = models.states_of(d)
        symbols = models.symbols_of(d) if hmm else None
        m = models.build(d)
        special = boundaries(p + (d['e'] if hmm else []))
        fin = lambda x, labels, lab: None if x is None else (labels[x] if lab else x)  # noqa
        for c in ep['calls']:
            kind, us = mt.pattern(random.Random(c['stream']), special)
            if c['seed'] is None:
                mt.set_doubles(us, [0x80000000] if c['init'] is None and random.Random(c['stream']).random() < 0.5 else [])
                ctx.stat('fault:stream ' + kind)
                ctx.nontrivial = True
            text = f'{c["op"]}({ {k: v for k, v in c.items() if k not in ("op", "stream")} }) of {d} with draws {kind} {us[:4] if c["seed"] is None else ""}'
            if c['op'] == 'next':
                kw = {'output_index': c['indices'], 'seed': c['seed']}
                if hmm:
                    kw['target'] = c['target']
                out = m.next(fin(c['init'], states, c['label']), **kw)
                if hmm:
                    s, y = out if c['target'] == 'both' else ((out, None) if c['target'] == 'state' else (None, out))
                else:
                    s, y = out, None
                walk = [c['init']] if s is None else [c['init'], self._index(ctx, s, states, c['indices'], text)]
                sym = [] if y is None else [None, self._index(ctx, y, symbols, c['indices'], text)]
                want, final, final_symbol = 1, None, None
                if s is None:                # only the symbol is known: some state must explain it
                    if not any(p[c['init']][j] > 0 and d['e'][j][sym[1]] > 0 for j in range(n)):
                        ctx.fail('impossible-symbol', f'{text}: gave {out!r}')
                    ctx.stat('steps')
                    continue
            else:
                want, final, final_symbol = c['steps'], c['final'], c.get('final_symbol')
                kw = {'output_indices': c['indices'], 'seed': c['seed'], 'final_state': fin(final, states, c['label'])}
                if hmm:
                    kw['final_symbol'] = fin(final_symbol, symbols, c['label'])
                out = m.simulate(c['steps'], fin(c['init'], states, c['label']), **kw)
                walk = [self._index(ctx, s, states, c['indices'], text) for s in (out[0] if hmm else out)]
                sym = [self._index(ctx, s, symbols, c['indices'], text) for s in out[1]] if hmm else []
            ctx.log(kind, walk, sym)
            ctx.key(d, c)
            if c['init'] is not None and walk[0] != c['init']:
                ctx.fail('wrong-start', f'{text}: starts in {walk[0]}')
            if sym and len(sym) != len(walk):
                ctx.fail('length', f'{text}: {len(walk)} states and {len(sym)} symbols')
            if len(walk) > want + 1:
                ctx.fail('length', f'{text}: {len(walk) - 1} steps')
            for t in range(1, len(walk)):
                if not p[walk[t - 1]][walk[t]] > 0.0:
                    ctx.fail('impossible-transition', f'{text}: step {t} goes from {walk[t - 1]} to {walk[t]}, whose probability is {p[walk[t - 1]][walk[t]]}; walk {walk}')
                ctx.stat('steps')
            for t, y in enumerate(sym):
                if y is not None and not d['e'][walk[t]][y] > 0.0:
                    ctx.fail('impossible-symbol', f'{text}: symbol {y} at step {t} from state {walk[t]}, whose probability is {d["e"][walk[t]][y]}; walk {walk} {sym}')
            hit = [t for t in range(1, len(walk)) if (final is not None and walk[t] == final) or (sym and final_symbol is not None and sym[t] == final_symbol)]
            if hit and hit[0] != len(walk) - 1:
                ctx.fail('stop-missed', f'{text}: the stop condition is met at step {hit[0]} of {walk} {sym}')
            if not hit and len(walk) != want + 1:
                ctx.fail('length', f'{text}: {len(walk) - 1} steps without a stop condition: {walk} {sym}')
            if hit:
                ctx.stat('stopped')

    @staticmethod
    def _index(ctx, x, labels, indices, text):
        if indices:
            if isinstance(x, str) or int(x) != x or not 0 <= x < len(labels):
                ctx.fail('output', f'{text}: {x!r} is no index')
            return int(x)
        if x not in labels:
            ctx.fail('output', f'{text}: {x!r} is no label')
        return labels.index(x)


PROP = C14()
