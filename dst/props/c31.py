import math

from .. import law, models
from .base import Base, T

# how a number of a message is damaged so that it cannot be a probability or a weight any more
ROTTEN = {'nan': math.nan, 'inf': math.inf, 'negative': -0.25, 'text': 'x', 'none': None, 'complex': 1 + 1j}


def shuffled(rng, xs):
    xs = list(xs)
    rng.shuffle(xs)
    return xs


class Party:
    """What the simulator knows of the model that is handed on: labels and probabilities, independently of the library."""

    def __init__(self, d):
        self.k = d['k']
        self.states = models.states_of(d)
        self.symbols = models.symbols_of(d) if self.k == 'hmm' else None
        self.p = {(a, b): x for a, r in zip(self.states, d['p']) for b, x in zip(self.states, r)}
        self.e = {(a, b): x for a, r in zip(self.states, d['e']) for b, x in zip(self.symbols, r)} if self.k == 'hmm' else None

    def rows(self, what):
        cols = self.states if what == 'p' else self.symbols
        t = getattr(self, what)
        return [[t[a, b] for b in cols] for a in self.states]


def normalised(row):
    top = max(row)
    if top == 0:
        return [1.0 / len(row)] * len(row)
    row = [x / top for x in row]
    t = math.fsum(row)
    return [x / t for x in row]


class C31(Base):
    id = 'C31'
    episodes = {'quick': 1200, 'thorough': 40000}
    rule = ('A run hands a model on from party to party: each exports what it received (as a dictionary, a directed graph, a multigraph or matrices), the simulated channel reorders the entries, scales the weights of a row, changes the container and the '
            'number format, and now and then loses, garbles or changes a part of the message, and the next party imports what arrives. Every party must hold the model that the message describes, or refuse a damaged one with a documented error; the last '
            'one is simulated, and the step law of its walks is compared with the one of the first. Distinct = distinct (models, hops); non-trivial: at least two hops were made.')
    measure = 'distinct (models, hops) tuples'
    stub = ['the channel between the parties, and the global NumPy generator while the step law is measured']
    assumptions = ['when the channel reorders the entries of a message, labels may be listed in any order; otherwise they are listed in the order in which they were exported',
                   'parallel edges carry the same share of the weights of their row, so that it does not matter whether they are added up or the last one counts']

    def generate(self, rng, i, tier):
        if rng.random() < 0.4:
            d = models.gen_hmm(rng, exact=rng.random() < 0.5)
        else:
            d = models.gen_mc(rng, exact=rng.random() < 0.5)
        if rng.random() < 0.15:
            e = 2.0 ** -rng.randint(6, 40)
            d['p'] = [[(1.0 - e) * (i == j) + e * x for j, x in enumerate(r)] if rng.random() < 0.7 else r for i, r in enumerate(d['p'])]
        return {'model': d, 'hops': [[rng.choice(['dictionary', 'graph', 'graph', 'multigraph', 'matrix', 'matrix', 'constructor']), rng.getrandbits(30), rng.random() < 0.3] for _ in range(rng.choice([1, 2, 2, 3, 5]))]}

    def shrinkable(self, ep):
        return [['hops']]

    # messages

    def _exported(self, ctx, m, know, text):
        """What a model says about itself in all of its forms."""
        np = T.np
        hmm = know.k == 'hmm'

        def same(what, have, want):
            ctx.stat('compared ' + what)
            if not (have == want):
                ctx.fail('export', f'{text}: {what} gives {have!r}, the model is {want!r}')
        rows, erows = m.p.tolist(), m.e.tolist() if hmm else None
        if hmm:
            want = {}
            for a, r, q in zip(know.states, rows, erows):
                want.update({('P', a, b): x for b, x in zip(know.states, r)})
                want.update({('E', a, b): x for b, x in zip(know.symbols, q)})
            same('to_matrices', [x.tolist() for x in m.to_matrices()], [rows, erows])
            nodes = [(s, {'layer': 1}) for s in know.states] + [(s, {'layer': 0}) for s in know.symbols]
            edges = {(k[1], k[2]): {'type': k[0], 'weight': x} for k, x in want.items() if x > 0}
            same('sizes', (m.n, m.k, tuple(m.size)), (len(know.states), len(know.symbols), (len(know.states), len(know.symbols))))
        else:
            want = {(a, b): x for a, r in zip(know.states, rows) for b, x in zip(know.states, r)}
            same('to_matrix', m.to_matrix().tolist(), rows)
            nodes = [(s, {}) for s in know.states]
            edges = {k: {'weight': x} for k, x in want.items() if x > 0}
            same('sizes', (m.n, m.size), (len(know.states),) * 2)
        have = m.to_dictionary()
        same('to_dictionary', {k: float(v) for k, v in have.items()}, want)
        g = m.to_graph()
        same('to_graph', (list(g.nodes(data=True)), {(a, b): {k: float(v) if k == 'weight' else v for k, v in x.items()} for a, b, x in g.edges(data=True)}), (nodes, edges))
        for k, x in want.items():
            a, b = k[-2:]
            if k[0] == 'E' and hmm:
                same('emission_probability', float(m.emission_probability(b, a)), x)
            else:
                same('transition_probability', float(m.transition_probability(b, a)), x)
        if not np.array_equal(m.p, np.array(rows)):
            ctx.fail('export', f'{text}: reading the model changes it')

    def _held(self, ctx, m, know, text, ordered):
        """The model that was imported against the one the message describes."""
        np = T.np
        for what, have, want in [('states', m.states, know.states)] + ([('symbols', m.symbols, know.symbols)] if know.k == 'hmm' else []):
            if list(have) != want if ordered else sorted(have) != sorted(want):
                ctx.fail('labels', f'{text}: {what} {list(have)}, sent {want}')
        know.states = list(m.states)
        if know.k == 'hmm':
            know.symbols = list(m.symbols)
        for what in ['p'] + (['e'] if know.k == 'hmm' else []):
            have, want = getattr(m, what), np.array(know.rows(what))
            ctx.stat('matrices compared')
            if have.shape != want.shape or not np.all(np.abs(have - want) <= 1e-13 + 1e-11 * want) or not np.array_equal(have > 0, want > 0):
                ctx.fail('probabilities', f'{text}: {what} is {have.tolist()} for the labels {know.states}, the message says {want.tolist()}')
            t = getattr(know, what)
            cols = know.states if what == 'p' else know.symbols
            for i, a in enumerate(know.states):
                for j, b in enumerate(cols):
                    t[a, b] = float(have[i, j])

    def execute(self, ep, ctx):
        import random
        np, d = T.np, ep['model']
        m, know = models.build(d), Party(d)
        first = Party(d)
        done = 0
        for form, seed, damaged in ep['hops']:
            rng = random.Random(seed)
            self._exported(ctx, m, know, f'after {done} hops of {d}')
            text = f'{form} (seed {seed}) after {done} hops of {d}'
            m = getattr(self, '_' + ('matrix' if form == 'constructor' else 'graph' if form == 'multigraph' else form))(ctx, rng, m, know, text, form, damaged)
            done += 1
            ctx.stat('hops by ' + form)
            ctx.log(form, ctx_model(m))
        self._exported(ctx, m, know, f'after {done} hops of {d}')
        # the walks of the last party are those of the first
        try:
            lw = law.mc_law(m) if know.k == 'mc' else law.hmm_law(m)
            if know.k == 'hmm':
                lw = lw[0] if isinstance(lw, tuple) else None
            if lw is not None:
                ctx.stat('laws measured')
                for i, a in enumerate(know.states):
                    for j, b in enumerate(know.states):
                        if a in first.states and b in first.states and len(first.states) == len(know.states) and abs(lw[i][j] - know.p[a, b]) > 1e-9:
                            ctx.fail('law', f'after the hops {ep["hops"]} of {d}: walks go from {a} to {b} with probability {lw[i][j]}, sent was {know.p[a, b]}')
        except law.Unmeasurable:
            ctx.stat('laws not measurable')
        ctx.key(d, ep['hops'])
        ctx.nontrivial = done >= 2

    def _refused(self, ctx, make, text, kind):
        """A message that describes no model must be refused with a documented error."""
        ctx.stat('fault:message ' + kind)
        try:
            m = make()
        except (T.ValidationError, ValueError):
            return
        ctx.fail('accepted', f'{text}: a message with {kind} gives a model: {ctx_model(m)}')

    def _dictionary(self, ctx, rng, m, know, text, form, damaged):
        cls = T.MC if know.k == 'mc' else T.HMM
        items = list(m.to_dictionary().items())
        if damaged:
            for kind in rng.sample(['an entry lost', 'a rotten value', 'a garbled label', 'a changed value', 'an empty label', 'a foreign key', 'a value above one'], 2):
                msg = list(items)
                i = rng.randrange(len(msg))
                k, v = msg[i]
                if kind == 'an entry lost':
                    msg.pop(i)
                elif kind == 'a rotten value':
                    msg[i] = (k, ROTTEN[rng.choice(sorted(ROTTEN))])
                elif kind == 'a value above one':
                    msg[i] = (k, 1.0 + rng.choice([0.01, 1.0, 1e9]))
                elif kind == 'a garbled label':
                    j = rng.randrange(len(k) - 2, len(k))
                    msg[i] = (k[:j] + (k[j] + '~',) + k[j + 1:], v)
                elif kind == 'an empty label':
                    j = rng.randrange(len(k))
                    msg[i] = (k[:j] + ('',) + k[j + 1:], v)
                elif kind == 'a foreign key':
                    msg.append((rng.choice([k + ('x',), k[:-1], 'xy', 7, None, (1, 2), ('Q',) + k[1:] if know.k == 'hmm' else k + k]), 0.0))
                else:
                    msg[i] = (k, v - 0.01 if v >= 0.5 else v + 0.01)
                self._refused(ctx, lambda: cls.from_dictionary(dict(shuffled(rng, msg))), text, kind)
        ordered = rng.random() < 0.5
        if not ordered:
            items = shuffled(rng, items)
            ctx.stat('fault:entries reordered')
        style = rng.randrange(3)
        items = {k: v if style == 0 else float(v) if style == 1 else (int(v) if v in (0.0, 1.0) else v) for k, v in items}
        keep = dict(items)
        m = cls.from_dictionary(items)
        if list(items.items()) != list(keep.items()):
            ctx.fail('argument', f'{text}: the dictionary was modified')
        self._held(ctx, m, know, text, ordered)
        return m

    def _graph(self, ctx, rng, m, know, text, form, damaged):
        import networkx as nx
        cls = T.MC if know.k == 'mc' else T.HMM
        g = m.to_graph()
        nodes, edges = list(g.nodes(data=True)), list(g.edges(data=True))
        scales = {}

        def built(nodes, edges, kind=None, twice=False):
            h = (kind or (nx.MultiDiGraph if form == 'multigraph' else nx.DiGraph))()
            for a, x in nodes:
                h.add_node(a, **x)
            for a, b, x in edges:
                h.add_edge(a, b, **x)
            return h
        if damaged:
            kinds = ['a rotten weight', 'no weight', 'a weight of zero', 'no direction', 'a node without a name', 'a node that is a number', 'a single node']
            if know.k == 'hmm':
                kinds += ['an unknown layer', 'no layer', 'an unknown type', 'an edge of a symbol']
            for kind in rng.sample(kinds, 2):
                ns, es = [(a, dict(x)) for a, x in nodes], [(a, b, dict(x)) for a, b, x in edges]
                a, b, x = rng.choice(es)
                what = None
                if kind == 'a rotten weight':
                    x['weight'] = ROTTEN[rng.choice(sorted(ROTTEN))]
                elif kind == 'no weight':
                    del x['weight']
                elif kind == 'a weight of zero':
                    x['weight'] = 0.0
                elif kind == 'no direction':
                    what = nx.Graph
                elif kind == 'a node without a name':
                    ns.append((rng.choice(['', ' ', '\t']), {'layer': 1}))
                elif kind == 'a node that is a number':
                    ns.append((3, {'layer': 1}))
                elif kind == 'a single node':
                    ns, es = ns[:1], []
                elif kind == 'an unknown layer':
                    rng.choice(ns)[1]['layer'] = rng.choice([2, -1, 'x', None, 0.5])
                elif kind == 'no layer':
                    del rng.choice(ns)[1]['layer']
                elif kind == 'an unknown type':
                    x['type'] = rng.choice(['p', 'X', '', None, 1])
                else:
                    es.append((rng.choice(know.symbols), rng.choice(know.states + know.symbols), {'type': rng.choice('PE'), 'weight': 1.0}))
                self._refused(ctx, lambda: cls.from_graph(built(ns, es, what)), text, kind)
            if rng.random() < 0.5:
                # an edge is lost on the way: the graph that arrives is another model
                k = rng.randrange(len(edges))
                a, b, _ = edges.pop(k)
                what = 'e' if know.k == 'hmm' and b in know.symbols else 'p'
                getattr(know, what)[a, b] = 0.0
                ctx.stat('fault:an edge lost')
        # rows arrive with weights of any scale
        for a, b, x in edges:
            row = (a, x.get('type'))
            if row not in scales:
                scales[row] = 2.0 ** rng.choice([0, 0, 0, 3, 7, 20, 60, 300, 1000, -3, -20, -30, -60, -300])
            x['weight'] = x['weight'] * scales[row]
        if any(s < 1e-6 for s in scales.values()):
            ctx.stat('fault:tiny weights')
        if any(s > 1e6 for s in scales.values()):
            ctx.stat('fault:huge weights')
        ordered = rng.random() < 0.5
        if not ordered:
            nodes, edges = shuffled(rng, nodes), shuffled(rng, edges)
            ctx.stat('fault:entries reordered')
        h = built(nodes, edges)
        if form == 'multigraph' and rng.random() < 0.5:
            row = rng.choice(sorted(scales, key=repr))
            for a, b, x in [e for e in edges if (e[0], e[2].get('type')) == row]:
                h.add_edge(a, b, **x)
            ctx.stat('fault:edges duplicated')
        for what in ['p'] + (['e'] if know.k == 'hmm' else []):
            self._renormalise(know, what, {a: scales.get((a, None if know.k == 'mc' else what.upper()), 1.0) for a in know.states})
        m = cls.from_graph(h)
        self._held(ctx, m, know, text, ordered)
        return m

    @staticmethod
    def _renormalise(know, what, scale):
        cols = know.states if what == 'p' else know.symbols
        t = getattr(know, what)
        for a in know.states:
            for b, x in zip(cols, normalised([t[a, b] * scale[a] for b in cols])):
                t[a, b] = x

    def _matrix(self, ctx, rng, m, know, text, form, damaged):
        np = T.np
        cls = T.MC if know.k == 'mc' else T.HMM
        build = (cls if form == 'constructor' else cls.from_matrix if know.k == 'mc' else cls.from_matrices)
        mats = [m.to_matrix()] if know.k == 'mc' else list(m.to_matrices())
        labels = [know.states] if know.k == 'mc' else [know.states, know.symbols]
        perm = list(range(len(know.states)))
        if rng.random() < 0.3:
            rng.shuffle(perm)
            mats = [mats[0][np.ix_(perm, perm)]] + [x[perm, :] for x in mats[1:]]
            labels = [[know.states[i] for i in perm]] + labels[1:]
            know.states = list(labels[0])
            ctx.stat('fault:entries reordered')
        if damaged:
            kinds = ['a rotten value', 'a missing row', 'a missing column', 'one row', 'a label too many', 'a label too few', 'a label twice', 'an empty label', 'a third dimension', 'text']
            kinds += ['a changed value'] if form == 'constructor' else []
            kinds += ['a label of both kinds'] if know.k == 'hmm' else []
            for kind in rng.sample(kinds, 2):
                ms, ls = [x.tolist() for x in mats], [list(x) for x in labels]
                w = rng.randrange(len(ms))
                r = rng.choice(ms[w])
                j = rng.randrange(len(r))
                if kind == 'a rotten value':
                    r[j] = ROTTEN[rng.choice(sorted(ROTTEN))]
                elif kind == 'a missing row':
                    ms[w].pop(rng.randrange(len(ms[w])))
                elif kind == 'a missing column':
                    if w or rng.random() < 0.3:
                        r.pop(j)
                    else:
                        for r in ms[w]:
                            r.pop(j)
                elif kind == 'one row':
                    ms[w] = r
                elif kind == 'a label too many':
                    ls[w].append('another')
                elif kind == 'a label too few':
                    ls[w].pop()
                elif kind == 'a label twice':
                    ls[w][0] = ls[w][1]
                elif kind == 'an empty label':
                    ls[w][rng.randrange(len(ls[w]))] = rng.choice(['', ' ', 5, None])
                elif kind == 'a third dimension':
                    ms[w] = [ms[w], ms[w]]
                elif kind == 'text':
                    ms[w] = rng.choice(['0.5', None, 0.5, {'a': 1}, [], [[]], [['0.5', '0.5'], ['0.5', '0.5']]])
                elif kind == 'a label of both kinds':
                    ls[1][rng.randrange(len(ls[1]))] = rng.choice(ls[0])
                else:
                    r[j] += -0.01 if r[j] >= 0.5 else 0.01
                self._refused(ctx, lambda: build(*ms, *ls), text, kind)
        out = []
        for what, x in zip('pe', mats):
            s = np.ones(len(x))
            if form != 'constructor':
                s = np.array([2.0 ** rng.choice([0, 0, 0, 3, 7, 20, 60, 300, 1020, -3, -20, -30, -60, -300]) for _ in x])
                if (s < 1e-6).any():
                    ctx.stat('fault:tiny weights')
                if (s > 1e6).any():
                    ctx.stat('fault:huge weights')
                x = x * s[:, None]
                if damaged and rng.random() < 0.4:
                    i = rng.randrange(len(x))
                    x[i] = 0.0
                    ctx.stat('fault:a row lost')
                    for b in (know.states if what == 'p' else know.symbols):
                        getattr(know, what)[know.states[i], b] = 0.0
                self._renormalise(know, what, {a: float(v) for a, v in zip(know.states, s)})
            out.append(self._contained(ctx, rng, x))
        m = build(*out, *labels)
        self._held(ctx, m, know, text, True)
        return m

    @staticmethod
    def _contained(ctx, rng, x):
        """The same numbers in another container."""
        np = T.np
        import scipy.sparse as sp
        how = rng.choice(['array', 'list', 'fortran', 'view', 'csr', 'coo', 'lil', 'csc', 'single', 'integer', 'wide', 'read-only', 'pandas', 'complex', 'swapped'])
        ctx.stat('container ' + how)
        if how == 'list':
            return x.tolist()
        if how == 'fortran':
            return np.asfortranarray(x)
        if how == 'view':
            y = np.zeros((2 * x.shape[0], 3 * x.shape[1]))
            y[::-2, ::3] = x
            return y[::-2, ::3]
        if how in ('csr', 'csc', 'coo', 'lil'):
            return getattr(sp, how + '_matrix')(x)
        if how == 'single' and np.array_equal(x.astype(np.float32, copy=True), x):
            return x.astype(np.float32)
        if how == 'integer' and (np.abs(x) < 2 ** 50).all() and np.array_equal(np.floor(x), x):
            return x.astype(np.int64)
        if how == 'wide':
            return x.astype(np.longdouble)
        if how == 'read-only':
            x = x.copy()
            x.flags.writeable = False
            return x
        if how == 'pandas':
            try:
                import pandas as pd
            except ImportError:
                return x
            return pd.DataFrame(x, columns=[f'c{i}' for i in range(x.shape[1])])
        if how == 'complex':
            return x.astype(complex)
        if how == 'swapped':
            return x.astype('>f8')
        return x


def ctx_model(m):
    return (m.p.tolist(), list(m.states)) + ((m.e.tolist(), list(m.symbols)) if hasattr(m, 'symbols') else ())


PROP = C31()
