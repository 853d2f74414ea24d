import shutil
import tempfile

from .. import figs, models, ops, simdot
from .base import Base, T
from .c20 import PLOTS, gen_plot

EXTRA = ['a:b', 'graph', 'node', 'a->b', 'b\\', '"', 'x"y', '{z}', '/*c*/', '%s', 'a:b:c', 'Edge', '//', 'a b', '1a', 'a-b', '\\N', 'c:n', '<b>x</b>', 'a>b', 'x<', ';', 'subgraph', '[label=z]']


def rows(fig):
    return [a for a in fig.axes]


def numbers(texts):
    out = []
    for t in texts:
        s = t.strip()
        if '.' in s:
            try:
                out.append((float(s), len(s.split('.')[1])))
            except ValueError:
                pass
    return out


class C27(Base):
    id = 'C27'
    soft = 40
    episodes = {'quick': 420, 'thorough': 9000}
    rule = ('A run draws models (labels including ones with a meaning in the language of Graphviz) and 1-3 plotting calls with a seed, after which the figure, or the graph handed to the simulated Graphviz, is read back and compared with what another '
            'instance of the model reports. Non-trivial: something was read back. Distinct = distinct (plot, options, kind and size of the model).')
    measure = 'distinct (plot, options, extended or standard drawing, interactive mode, kind and size of the model) tuples'
    real = ['the whole pydtmc package from the working tree', 'Matplotlib (Agg), pydot, NumPy, NetworkX, CPython']
    stub = ['Graphviz (a simulated process that parses the graph it is given)', 'the display (figures are recorded, not shown)']
    assumptions = ['the quantities themselves are taken from the model (other properties are about them)', 'the parser of graphs implements the part of the language of Graphviz that the library uses']

    def labels(self, rng, n, prefix):
        if rng.random() < 0.45:
            pool = [x for x in EXTRA + models._ODD if not x.startswith('_')]
            return [prefix + x for x in rng.sample(pool, n)]
        if rng.random() < 0.2:
            return models.gen_labels(rng, n, 'spaced', prefix)
        return models.gen_labels(rng, n, prefix=prefix) if prefix else models.gen_labels(rng, n)

    def generate(self, rng, i, tier):
        a = models.gen_mc(rng, nmax=rng.choice([4, 6, 10]), exact=rng.random() < 0.5)
        a['states'] = self.labels(rng, len(a['p']), '')
        b = models.gen_hmm(rng, nmax=4, exact=rng.random() < 0.5)
        b['states'] = self.labels(rng, len(b['p']), '')
        b['symbols'] = self.labels(rng, len(b['e'][0]), 'y' if b['states'] is not None else '')
        if b['states'] is None:
            b['symbols'] = None
        ms = [a, b]
        calls = [{'op': gen_plot(rng, ms, PLOTS + ['plot_graph', 'plot_graph', 'plot_trellis']), 'interactive': rng.random() < 0.15, 'state': rng.randrange(10 ** 6)} for _ in range(rng.choice([1, 2, 3]))]
        for c in calls:
            if c['op'][0] == 'plot_flow' and rng.random() < 0.5:
                c['op'][2]['palette'] = rng.choice(['jet', 'hot', 'tab10', 'cool', 'cividis', 'Greys', 'Set1', 'hsv', 'turbo', 'coolwarm'])
            if any('$' in str(x) for x in (a['states'] or []) + (b['states'] or [])):
                c['interactive'] = False
        return {'models': ms, 'calls': calls}

    def shrinkable(self, ep):
        return [['calls']]

    def simpler(self, ep):
        for i, c in enumerate(ep['calls']):
            for k in list(c['op'][2]):
                if k != 'seed':
                    e = models.clone(ep)
                    del e['calls'][i]['op'][2][k]
                    yield e

    def execute(self, ep, ctx):
        import matplotlib
        scratch = tempfile.mkdtemp(prefix='dst-c27-')
        world = simdot.World(scratch)
        plt = figs.use()
        world.install()
        world.mode('ok', 'ok')
        try:
            for c in ep['calls']:
                self.one(ep, c, ctx, world, plt, matplotlib)
        finally:
            world.uninstall()
            plt.close('all')
            matplotlib.interactive(False)
            shutil.rmtree(scratch, ignore_errors=True)

    def one(self, ep, c, ctx, world, plt, mpl):
        np = T.np
        name, args, kw = c['op']
        env = [models.build(d) for d in ep['models']]
        other = [models.build(d) for d in ep['models']]
        plt.close('all')
        mpl.interactive(c['interactive'])
        np.random.seed(c['state'])
        text = f'{c["op"]}'
        try:
            getattr(T.pydtmc, name)(*ops.dec(args, env), **ops.dec(kw, env))
        except ValueError as ex:
            if name == 'plot_trellis' and self.trellis_impossible(other, c):
                ctx.stat('walks that cannot be decoded')
                return
            ctx.fail('failed', f'{text}: {type(ex).__name__}: {ex}')
        except Exception as ex:  # noqa
            ctx.fail('failed', f'{text}: {type(ex).__name__}: {ex}')
        finally:
            mpl.interactive(False)
        fig = figs.newest(plt)
        sources = [s for k, m, s in world.take() if k == 'render']
        if fig is None:
            ctx.fail('no-figure', text)
        j = args[0]['__model__'] if isinstance(args[0], dict) else None
        d = ep['models'][j] if j is not None else None
        ctx.nontrivial = True
        ctx.key(name, sorted((k, str(v)) for k, v in kw.items() if k in ('plot_type', 'nodes_color', 'nodes_shape', 'edges_label', 'force_standard', 'underlying_matrices')), bool(sources), c['interactive'], d and d['k'], d and len(d['p']))
        ctx.log(name, kw, len(sources), len(fig.axes))
        graphs = []
        for s in sources:
            try:
                graphs.append(simdot.parse(s))
            except simdot.NotDot as ex:
                ctx.fail('not-a-graph', f'{text}: what Graphviz was given is not a graph ({ex}): {s[:400]}')
        bad = getattr(self, name)(other, d, other[j] if j is not None else None, args, dict(kw), fig, graphs)
        if bad:
            ctx.fail('shows-something-else', f'{text} on {d}: {bad}')

    # each returns a description of what is wrong, or None

    def plot_comparison(self, env, d, m, args, kw, fig, graphs):
        sel = [env[x['__model__']] for x in args[0]]
        want = [x.e if kw.get('underlying_matrices') == 'emission' else x.p for x in sel]
        axes = [a for a in fig.axes if a.images]
        have = [T.np.asarray(a.images[0].get_array()) for a in axes]
        if len(have) != len(want) or any(h.shape != w.shape or not T.np.allclose(h, w) for h, w in zip(have, want)):
            return f'the matrices shown are {[h.tolist() for h in have]}'
        if 'names' in kw and [a.get_title() for a in axes] != kw['names']:
            return f'the names shown are {[a.get_title() for a in axes]}'
        return None

    def plot_eigenvalues(self, env, d, m, args, kw, fig, graphs):
        np = T.np
        want = np.append(np.linalg.eigvals(m.p), 1.0)
        pts = [complex(x, y) for line in fig.axes[0].lines if line.get_marker() == '*' for x, y in zip(line.get_xdata(), line.get_ydata())]
        for w in want:
            if not any(abs(w - p) < 1e-6 for p in pts):
                return f'the eigenvalue {w} is not among the points {pts}'
        for p in pts:
            if not any(abs(w - p) < 1e-6 for w in want):
                return f'the point {p} is no eigenvalue, they are {want.tolist()}'
        return None

    @staticmethod
    def distributions(m, steps, initial):
        """Powers of the matrix, step by step."""
        np = T.np
        n = len(m.p)
        if initial is None:
            v = np.full(n, 1.0 / n)
        elif isinstance(initial, (list, np.ndarray)):
            v = np.array(initial, dtype=float)
        else:
            v = np.zeros(n)
            v[initial if isinstance(initial, int) else list(m.states).index(initial)] = 1.0
        out = [v]
        for _ in range(steps):
            out.append(out[-1] @ m.p)
        return np.array(out)

    @staticmethod
    def legend(ax, states):
        lg = ax.get_legend()
        have = [] if lg is None else [t.get_text() for t in lg.get_texts()]
        want = [s for s in states if not s.startswith('_')]
        if [x for x in have if x in want] != want:
            return f'the legend is {have} instead of {want}'
        return None

    def plot_flow(self, env, d, m, args, kw, fig, graphs):
        steps, interval = args[1], args[2]
        ax = fig.axes[0]
        want = self.distributions(m, steps * interval, kw.get('initial_status'))[::interval]
        labels = {}
        for t in ax.texts:
            labels.setdefault(int(round(t.get_position()[0])), []).append(t.get_text())
        for k, v in enumerate(want):
            x = sorted(f'{y:.3f}' for y in v if y > 0.05 + 1e-9)
            y = sorted(labels.get(k, []))
            if len(x) != len(y) or any(abs(float(a) - float(b)) > 0.0011 for a, b in zip(x, y)):
                if not any(abs(z - 0.05) < 1e-9 for z in v):
                    return f'after {k} intervals the probabilities shown are {y} instead of {x}'
        lo, hi = sorted(ax.get_xlim())
        if lo > 0.0 or hi < steps:
            return f'steps 0 to {steps} are not all within the axis {lo} to {hi}'
        return self.legend(ax, m.states)

    def plot_redistributions(self, env, d, m, args, kw, fig, graphs):
        np = T.np
        want = self.distributions(m, args[1], kw.get('initial_status'))
        ax = fig.axes[0]
        if kw.get('plot_type') == 'heatmap':
            have = np.asarray(ax.images[0].get_array())
            if have.shape != want.T.shape or not np.allclose(have, want.T):
                return f'the redistributions shown are {have.T.tolist()} instead of {want.tolist()}'
            if [t.get_text() for t in ax.get_yticklabels()][:len(m.states)] != list(m.states):
                return f'the states shown are {[t.get_text() for t in ax.get_yticklabels()]}'
        else:
            lines = [x for x in ax.lines if len(x.get_ydata()) == len(want)][:len(m.states)]
            have = np.array([x.get_ydata() for x in lines])
            if have.shape != want.T.shape or not np.allclose(have, want.T):
                return f'the redistributions shown are {have.T.tolist()} instead of {want.tolist()}'
            bad = self.legend(ax, m.states)
            if bad:
                return bad
        lo, hi = sorted(ax.get_xlim())
        return f'steps 0 to {args[1]} are not all within the axis {lo} to {hi}' if lo > 0.0 or hi < args[1] else None

    def plot_sequence(self, env, d, m, args, kw, fig, graphs):
        np = T.np
        steps = args[1]
        walk = m.simulate(steps, initial_state=kw.get('initial_state'), output_indices=True, seed=kw['seed'])
        parts = [(list(m.states), walk)] if d['k'] == 'mc' else [(list(m.states), walk[0]), (list(m.symbols), walk[1])]
        kind = kw.get('plot_type', 'histogram')
        axes = [a for a in fig.axes if (a.patches if kind == 'histogram' else a.images)]
        if len(axes) < len(parts):
            return f'{len(axes)} panels instead of {len(parts)}'
        for ax, (lab, seq) in zip(axes, parts):
            n = len(lab)
            if kind == 'histogram':
                want = np.bincount(seq, minlength=n) / len(seq)
                have = np.array([b.get_height() for b in ax.patches])
                ticks = [t.get_text() for t in ax.get_xticklabels()]
            elif kind == 'matrix':
                want = np.zeros((n, len(seq)))
                want[seq, range(len(seq))] = 1.0
                have = np.asarray(ax.images[0].get_array())
                ticks = [t.get_text() for t in ax.get_yticklabels()]
            else:
                want = np.zeros((n, n))
                for a, b in zip(seq, seq[1:]):
                    want[a, b] += 1.0 / (len(seq) - 1)
                have = np.asarray(ax.images[0].get_array())
                ticks = [t.get_text() for t in ax.get_yticklabels()]
            if have.shape != want.shape or not np.allclose(have, want):
                return f'for the walk {seq} it shows {have.tolist()} instead of {want.tolist()}'
            if ticks[:n] != lab:
                return f'the labels shown are {ticks} instead of {lab}'
        return None

    # graphs

    @staticmethod
    def arrows(ax):
        """[(from, to, colour)] by position"""
        from matplotlib.patches import FancyArrowPatch
        out = []
        for x in ax.patches:
            if isinstance(x, FancyArrowPatch):
                a, b = x._posA_posB
                out.append((tuple(a), tuple(b), tuple(round(float(v), 3) for v in x.get_edgecolor())))
        return out

    @staticmethod
    def near(p, places):
        return min(places, key=lambda k: (places[k][0] - p[0]) ** 2 + (places[k][1] - p[1]) ** 2)

    @staticmethod
    def match(want, have):
        """Probabilities against the texts that show them."""
        if len(want) != len(have):
            return f'{len(have)} probabilities are shown instead of {len(want)}'
        for w, (h, digits) in zip(sorted(want), sorted(have)):
            if abs(w - h) > 0.5001 * 10.0 ** -digits + 1e-9:
                return f'the probabilities shown are {sorted(h for h, _ in have)} instead of {sorted(want)}'
        return None

    def plot_graph(self, env, d, m, args, kw, fig, graphs):
        states = list(m.states)
        symbols = list(m.symbols) if d['k'] == 'hmm' else []
        edges = {(states[i], states[j]): x for i, r in enumerate(d['p']) for j, x in enumerate(r) if x > 0.0}
        if symbols:
            edges.update({(states[i], symbols[j]): x for i, r in enumerate(d['e']) for j, x in enumerate(r) if x > 0.0})
        classes = [sorted(k) for k in m.communicating_classes] if not symbols else None
        transient = set(m.transient_states) if not symbols else set()
        with_labels = kw.get('edges_label', True)
        if graphs:
            nodes, arcs, _ = graphs[0]
            label = {k: simdot.drawn(k, a) for k, a in nodes.items()}
            if sorted(label.values()) != sorted(states + symbols):
                return f'the nodes drawn are {sorted(label.values())} instead of {sorted(states + symbols)}'
            if sorted((label[a], label[b]) for a, b, _ in arcs) != sorted(edges):
                return f'the edges drawn are {sorted((label[a], label[b]) for a, b, _ in arcs)} instead of {sorted(edges)}'
            for a, b, at in arcs:
                if with_labels:
                    bad = self.match([edges[label[a], label[b]]], numbers([at.get('label') or '']))
                    if bad:
                        return f'edge {label[a]} to {label[b]}: {bad}'
                elif (at.get('label') or '').strip():
                    return f'edge {label[a]} to {label[b]} is labelled {at["label"]}'
            colors = {label[k]: a.get('fillcolor') for k, a in nodes.items()}
            shapes = {label[k]: a.get('shape') for k, a in nodes.items()}
        else:
            ax = fig.axes[0]
            places = {t.get_text(): t.get_position() for t in ax.texts if t.get_text() in states + symbols}
            if len(places) != len(states + symbols):
                return f'the nodes drawn are {sorted(places)} instead of {sorted(states + symbols)}'
            have = sorted((self.near(a, places), self.near(b, places)) for a, b, _ in self.arrows(ax))
            if have != sorted(edges):
                return f'the edges drawn are {have} instead of {sorted(edges)}'
            shown = numbers([t.get_text() for t in ax.texts if t.get_text() not in places])
            bad = self.match(list(edges.values()) if with_labels else [], shown)
            if bad:
                return bad
            colors, shapes = {}, {}
            for col in ax.collections:
                if type(col).__name__ == 'PathCollection' and len(col.get_offsets()):
                    for k, o in enumerate(col.get_offsets()):
                        who = self.near(o, places)
                        fc = col.get_facecolor()
                        colors[who] = tuple(round(float(v), 3) for v in fc[min(k, len(fc) - 1)])
                        shapes[who] = len(col.get_paths()[0].vertices)
        if set(colors) != set(states + symbols):
            return f'nodes are drawn for {sorted(colors)}'
        if not symbols:
            want = len(classes) if kw.get('nodes_color', True) else 1
            if len(classes) <= 9 and len({colors[s] for s in states}) != want:
                return f'the nodes have {len({colors[s] for s in states})} colours instead of {want}'
            for k in classes if kw.get('nodes_color', True) else []:
                if len({colors[s] for s in k}) != 1:
                    return f'the class {k} has several colours'
            kinds = {(s in transient) if kw.get('nodes_shape', True) else None: shapes[s] for s in states}
            if any(kinds[(s in transient) if kw.get('nodes_shape', True) else None] != shapes[s] for s in states) or len(set(kinds.values())) != len(kinds):
                return f'the shapes are {shapes}, transient are {sorted(transient)}'
            if graphs and kw.get('nodes_shape', True) and any(shapes[s] != ('box' if s in transient else 'ellipse') for s in states):
                return f'the shapes are {shapes}, transient are {sorted(transient)}'
        else:
            if kw.get('nodes_color', True) and (len({colors[s] for s in states}) != len(states) or len({colors[s] for s in symbols}) != 1 or {colors[s] for s in symbols} & {colors[s] for s in states}):
                return f'the colours are {colors}'
            if kw.get('nodes_shape', True) and (len({shapes[s] for s in states}) != 1 or len({shapes[s] for s in symbols}) != 1 or shapes[states[0]] == shapes[symbols[0]]):
                return f'the shapes are {shapes}'
        return None

    def walk(self, m, args, kw):
        np = T.np
        n = m.n
        init = np.full(n, 1.0 / n)
        s0 = kw.get('initial_state')
        if s0 is not None:
            init = np.zeros(n)
            init[s0 if isinstance(s0, int) else list(m.states).index(s0)] = 1.0
        _, symbols = m.simulate(args[1], initial_state=s0, output_indices=True, seed=kw['seed'])
        return init, symbols, m.decode(symbols, initial_status=init), m.predict('mle', symbols, initial_status=init, output_indices=True)

    def trellis_impossible(self, env, c):
        m = env[c['op'][1][0]['__model__']]
        _, _, a, b = self.walk(m, c['op'][1], c['op'][2])
        return a is None or b is None

    def plot_trellis(self, env, d, m, args, kw, fig, graphs):
        init, symbols, decoding, prediction = self.walk(m, args, kw)
        if decoding is None or prediction is None:
            return 'a walk that cannot be decoded was plotted'
        _, _, backward, forward, _ = decoding
        path = prediction[1]
        n, f = m.n, len(symbols)
        edges = {(r, k, s) for k in range(f - 1) for r in range(n) if k > 0 or init[r] > 0.0 for s in range(n) if d['p'][r][s] > 0.0}
        marked = {e for e in edges if path[e[1]] == e[0] and path[e[1] + 1] == e[2]}
        for which, (matrix, back) in enumerate(((backward, True), (forward, False))):
            title = 'backward' if back else 'forward'
            want = [f'{round(float(matrix[r, k]), 2):.2f}' for r in range(n) for k in range(f)]
            if graphs:
                nodes, arcs, groups = graphs[which]
                cells = {}
                cols = []
                heads = {}
                for a, members in groups:
                    mem = [x for x in members if x in nodes]
                    cols.append((a, mem))
                cols = [c for c in cols if c[1]]
                if len(cols) != f + 1 or any(len(c[1]) != n for c in cols):
                    return f'{title}: the columns are {cols}'
                if [simdot.drawn(x, nodes[x]) for x in cols[0][1]] != list(m.states):
                    return f'{title}: the states shown are {[simdot.drawn(x, nodes[x]) for x in cols[0][1]]}'
                for k, (a, mem) in enumerate(cols[1:]):
                    heads[k] = a.get('label')
                    for r, x in enumerate(mem):
                        cells[x] = (r, k)
                have = {v: simdot.drawn(x, nodes[x]) for x, v in cells.items()}
                have = [have[r, k] for r in range(n) for k in range(f)]
                lit = {v for x, v in cells.items() if nodes[x].get('fillcolor') == nodes[self.at(cells, (path[0], 0))].get('fillcolor')}
                plain = [(cells[a], cells[b], at.get('color')) for a, b, at in arcs if a in cells and b in cells and at.get('style') != 'invis']
                if any(heads[k] != m.symbols[symbols[k]] for k in range(1, f)):
                    return f'{title}: the symbols shown are {heads}'
            else:
                ax = fig.axes[which]
                pos = {(r, k): (k + 1.0, float(n - r)) for r in range(n) for k in range(f)}
                texts = {}
                for t in ax.texts:
                    x, y = t.get_position()
                    for v, p in pos.items():
                        if abs(p[0] - x) < 1e-6 and abs(p[1] - y) < 1e-6:
                            texts[v] = t.get_text()
                have = [texts.get((r, k)) for r in range(n) for k in range(f)]
                others = [t.get_text() for t in ax.texts]
                if any(s not in others for s in m.states) or any(m.symbols[symbols[k]] not in others for k in range(1, f)):
                    return f'{title}: the texts are {others}'
                lit = set()
                fc = ax.collections[0].get_facecolor()
                off = ax.collections[0].get_offsets()
                cols = {}
                for k, o in enumerate(off):
                    for v, p in pos.items():
                        if abs(p[0] - o[0]) < 1e-6 and abs(p[1] - o[1]) < 1e-6:
                            cols[v] = tuple(round(float(z), 3) for z in fc[k])
                lit = {v for v in cols if cols[v] == cols.get((path[0], 0))}
                plain = [(self.near(a, pos), self.near(b, pos), col) for a, b, col in self.arrows(ax)]
            if have != want and not (all(h is not None for h in have) and all(abs(float(h) - float(w)) < 0.011 for h, w in zip(have, want))):
                return f'{title}: the values shown are {have} instead of {want}'
            if lit != {(path[k], k) for k in range(f)}:
                return f'{title}: the highlighted nodes are {sorted(lit)}, the most probable path is {path}'
            seen = [((b[0], b[1], a[0]) if back else (a[0], a[1], b[0])) for a, b, _ in plain]
            if any((a[1] - b[1]) != (1 if back else -1) for a, b, _ in plain) or sorted(seen) != sorted(edges):
                return f'{title}: the edges drawn are {sorted(seen)} instead of {sorted(edges)}'
            on = {x[2] for x, e in zip(plain, seen) if e in marked}
            off = {x[2] for x, e in zip(plain, seen) if e not in marked}
            if on & off or len(on) > 1 or len(off) > 1:
                return f'{title}: the colours do not tell the edges of the most probable path {path} from others: {plain}'
        return None

    @staticmethod
    def at(cells, v):
        return next(x for x, w in cells.items() if w == v)


PROP = C27()
