import os
import re
import shutil
import sys
import tempfile

from .. import core, figs, hist, models, ops, simdot
from .base import Base, T
from .c07 import fds
from .c20 import gen_plot, gen_plot_models


class C21(Base):
    id = 'C21'
    level = 'fault_enumeration'
    soft = 40
    episodes = {'quick': 160, 'thorough': 8000}
    rule = ('A run draws models and 1-6 graph or trellis plots; for each the simulator decides whether Graphviz is found, starts, answers the probe and renders, whether pydot can be imported, whether extended drawing is declined, and the interactive mode. '
            'Non-trivial: a process failed or pydot was missing. Distinct = distinct (plot, pydot, declined, probe, renderer, mode).')
    measure = 'distinct (plot, pydot present, declined, probe outcome, renderer outcome, interactive mode) tuples'
    real = ['the whole pydtmc package from the working tree', 'Matplotlib (Agg), pydot, NumPy, NetworkX, CPython']
    stub = ['Graphviz and the operating system\'s process creation (simulated processes)', 'the display (figures are recorded, not shown)']
    assumptions = ['code that looks for Graphviz does so through process creation or the executables in the path']

    def generate(self, rng, i, tier):
        ms = gen_plot_models(rng, mc=2, hm=1)
        calls = []
        for _ in range(rng.choice([1, 2, 3, 6])):
            op = gen_plot(rng, ms, ['plot_graph', 'plot_graph', 'plot_trellis'])
            op[2].pop('force_standard', None)
            if rng.random() < 0.2:
                op[2]['force_standard'] = True
            elif rng.random() < 0.3:
                op[2]['force_standard'] = False
            calls.append({'op': op, 'probe': rng.choice(simdot.PROBES), 'render': rng.choice(simdot.RENDERS), 'interactive': rng.random() < 0.3, 'state': rng.randrange(10 ** 6)})
        return {'models': ms, 'calls': calls, 'pydot': rng.random() < 0.85}

    def shrinkable(self, ep):
        return [['calls']]

    def simpler(self, ep):
        for i, c in enumerate(ep['calls']):
            for k, v in (('probe', 'ok'), ('render', 'ok'), ('interactive', False)):
                if c[k] != v:
                    e = models.clone(ep)
                    e['calls'][i][k] = v
                    yield e

    def execute(self, ep, ctx):
        if ep['pydot']:
            return self.world(ep, ctx)

        def child():                # a process in which pydot cannot be imported
            c = core.Ctx()
            for m in [m for m in sys.modules if m.split('.')[0] in ('pydtmc', 'pydot')]:
                del sys.modules[m]
            sys.modules['pydot'] = None
            del T.pydtmc
            from .. import target
            target.load()
            bad = None
            try:
                self.world(ep, c)
            except core.Violation as ex:
                bad = [ex.kind, ex.detail]
            return [c.stats, sorted(c.keys), c.log_lines, c.nontrivial, bad]
        status, v = core.in_child(child)
        if status != 'ok':
            raise RuntimeError(f'the process without pydot failed: {v}')
        for k, n in v[0].items():
            ctx.stat(k, n)
        ctx.keys.update(v[1])
        ctx.log_lines.extend(v[2])
        ctx.nontrivial = ctx.nontrivial or v[3]
        if v[4]:
            ctx.fail(*v[4])

    def world(self, ep, ctx):
        import matplotlib
        scratch = tempfile.mkdtemp(prefix='dst-c21-')
        world = simdot.World(scratch)
        plt = figs.use()
        world.install()
        try:
            self.go(ep, ctx, world, plt, matplotlib)
        finally:
            world.uninstall()
            plt.close('all')
            matplotlib.interactive(False)
            shutil.rmtree(scratch, ignore_errors=True)

    def go(self, ep, ctx, world, plt, mpl):
        np = T.np
        env = {j: models.build(d) for j, d in enumerate(ep['models'])}

        def attempt(c, env, **extra):
            name, args, kw = c['op']
            np.random.seed(c['state'])
            figs.Display.shown = []
            n0 = set(plt.get_fignums())
            try:
                r = getattr(T.pydtmc, name)(*ops.dec(args, env), **dict(ops.dec(kw, env), **extra))
                out = ['ok', r]
            except BaseException as ex:  # noqa
                out = ['exc', type(ex).__name__, str(ex)]
                del ex
            fig = figs.newest(plt) if set(plt.get_fignums()) - n0 else None
            return out, fig

        def clean(text):
            left = world.leftovers()
            if left:
                ctx.fail('left-behind', f'{text}: left behind: {left}')
            if fds() != f0:
                ctx.fail('descriptor-left', f'{text}: file descriptors {[x for x in fds() if x not in f0]} remain open')
        f0 = fds()
        for c in ep['calls']:
            name, args, kw = c['op']
            declined = bool(kw.get('force_standard'))
            mpl.interactive(False)
            world.mode('missing', 'missing')
            ref, rfig = attempt(c, {j: models.build(d) for j, d in enumerate(ep['models'])}, force_standard=True)
            rdig = figs.digest(rfig) if ref[0] == 'ok' else None
            plt.close('all')
            used = world.take()
            if any(k == 'render' for k, _, _ in used):
                ctx.fail('declined-but-used', f'{c["op"]}: Graphviz rendered although standard drawing was asked for')
            clean(f'{c["op"]} in standard mode')
            mpl.interactive(c['interactive'])
            world.mode(c['probe'], c['render'])
            out, fig = attempt(c, env)
            used = world.take()
            rendered = [(m, s) for k, m, s in used if k == 'render']
            text = f'{c["op"]} with pydot {"present" if ep["pydot"] else "missing"}, probe {c["probe"]}, renderer {c["render"]}, interactive mode {c["interactive"]}'
            ctx.key(name, ep['pydot'], declined, c['probe'], c['render'] if rendered else '', c['interactive'])
            ctx.log(name, declined, c['probe'], c['render'], [(k, m) for k, m, _ in used], out[0])
            for k, m, _ in used:
                if m != 'ok':
                    ctx.stat(f'fault:{k} {m}')
                    ctx.nontrivial = True
            if not ep['pydot']:
                ctx.stat('fault:pydot missing')
                ctx.nontrivial = True
            clean(text)
            if plt.isinteractive() != c['interactive']:
                ctx.fail('interactive-mode', f'{text}: the interactive mode is now {plt.isinteractive()}')
            available = ep['pydot'] and c['probe'] == 'ok'
            if ref[0] == 'exc':
                if out[0] != 'exc' or out[1:] != ref[1:]:
                    if not (available and not declined):
                        ctx.fail('failed', f'{text}: {out}, in standard mode: {ref}')
                continue
            broken = any(m != 'ok' for m, _ in rendered)
            if available and not declined:
                if not rendered:
                    ctx.fail('not-used', f'{text}: Graphviz is available and was not used')
                if broken:
                    continue
            elif rendered:
                ctx.fail('declined-but-used' if declined else 'unavailable-but-used', f'{text}: Graphviz was asked to render')
            if out[0] == 'exc':
                ctx.fail('failed', f'{text}: {out[1]}: {out[2]}')
            if c['interactive']:
                if out[1] is not None or fig is None or fig not in figs.Display.shown:
                    ctx.fail('not-displayed', f'{text}: returned {out[1]!r}, displayed {fig in figs.Display.shown}')
            elif not isinstance(out[1], tuple) or out[1][0] is not fig:
                ctx.fail('not-returned', f'{text}: returned {out[1]!r}')
            if not rendered:
                d = figs.digest(fig)
                if not figs.alike(d, rdig):
                    ctx.fail('not-standard', f'{text}: the figure is not the one of standard mode: {figs.diff(d, rdig)}')
            else:
                n = len(fig.images) + sum(len(a.images) for a in fig.axes)
                if n == 0:
                    ctx.fail('rendering-discarded', f'{text}: the figure does not contain what Graphviz rendered')
                self.sources(ep, c, rendered, text, ctx)
            plt.close('all')
        for j, d in enumerate(ep['models']):
            if hist.definition_changed(env[j], d):
                ctx.fail('definition-changed', f'model {j} is now p={env[j].p.tolist()}')

    def sources(self, ep, c, rendered, text, ctx):
        m = c['op'][1][0]['__model__']
        d = ep['models'][m]
        want = list(models.states_of(d)) + (list(models.symbols_of(d)) if d['k'] == 'hmm' and c['op'][0] == 'plot_graph' else [])
        for _, s in rendered:
            if s is None:
                ctx.fail('no-source', f'{text}: Graphviz was started without a graph')
            miss = [w for w in want if w not in s]
            if miss:
                ctx.fail('wrong-source', f'{text}: the graph handed to Graphviz does not mention {miss}: {s[:300]}')
            if c['op'][0] == 'plot_graph':
                edges = sum(1 for r in d['p'] + d.get('e', []) for x in r if x > 0.0)
                have = len(re.findall(r'->', s))
                if edges != have:
                    ctx.fail('wrong-source', f'{text}: the graph handed to Graphviz has {have} edges instead of {edges}')


PROP = C21()
