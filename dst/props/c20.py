import os
import shutil
import tempfile

from .. import core, faults, figs, hist, models, ops, simdot
from .base import Base, T

EXCS = ['MemoryError', 'KeyboardInterrupt', 'LinAlgError', 'OSError', 'RuntimeError']
PLOTS = ['plot_comparison', 'plot_eigenvalues', 'plot_flow', 'plot_graph', 'plot_redistributions', 'plot_sequence', 'plot_trellis']
DPI = [75, 100, 150]


def gen_status(rng, d):
    n = len(d['p'])
    lab = models.states_of(d)
    return rng.choice([None, None, rng.randrange(n), rng.choice(lab), [1.0 / n] * n, [1.0] + [0.0] * (n - 1)])


def gen_plot(rng, ms, pool=PLOTS):
    """-> [name, args, kwargs] with references to models"""
    name = rng.choice(pool)
    mcs = list(range(len(ms)))
    hms = [i for i in mcs if ms[i]['k'] == 'hmm']
    j = rng.choice(mcs)
    d = ms[j]
    kw = {}
    if rng.random() < 0.4:
        kw['dpi'] = rng.choice(DPI)
    if name == 'plot_comparison':
        sel = [rng.choice(mcs) for _ in range(rng.choice([2, 2, 3, 4, 5]))]
        if hms and rng.random() < 0.3:
            sel = [rng.choice(hms) for _ in range(2)]
            kw['underlying_matrices'] = 'emission'
        if rng.random() < 0.3:
            kw['names'] = [f'name {i}' for i in range(len(sel))]
        return [name, [[{'__model__': i} for i in sel]], kw]
    if name == 'plot_eigenvalues':
        return [name, [{'__model__': j}], kw]
    if name == 'plot_flow':
        if rng.random() < 0.5:
            kw['initial_status'] = gen_status(rng, d)
        if rng.random() < 0.3:
            kw['palette'] = rng.choice(['viridis', 'plasma', 'magma'])
        return [name, [{'__model__': j}, rng.choice([1, 2, 3, 5]), rng.choice([1, 2, 3])], kw]
    if name == 'plot_graph':
        for k in ('nodes_color', 'nodes_shape', 'edges_label', 'force_standard'):
            if rng.random() < 0.35:
                kw[k] = rng.random() < 0.5
        return [name, [{'__model__': j}], kw]
    if name == 'plot_redistributions':
        if rng.random() < 0.5:
            kw['initial_status'] = gen_status(rng, d)
        if rng.random() < 0.7:
            kw['plot_type'] = rng.choice(['heatmap', 'projection'])
        n = rng.choice([1, 2, 5, 12])
        return [name, [{'__model__': j}, n], kw]
    if name == 'plot_sequence':
        if rng.random() < 0.5:
            kw['initial_state'] = rng.choice([rng.randrange(len(d['p'])), rng.choice(models.states_of(d))])
        if rng.random() < 0.8:
            kw['plot_type'] = rng.choice(['heatmap', 'histogram', 'matrix'])
        kw['seed'] = rng.randrange(1000)
        return [name, [{'__model__': j}, rng.choice([2, 3, 7, 15])], kw]
    j = rng.choice(hms)
    if rng.random() < 0.4:
        kw['initial_state'] = rng.randrange(len(ms[j]['p']))
    kw['seed'] = rng.randrange(1000)
    if rng.random() < 0.5:
        kw['force_standard'] = rng.random() < 0.6
    return [name, [{'__model__': j}, rng.choice([2, 3, 5])], kw]


def gen_plot_models(rng, mc=1, hm=1, most=5):
    return [models.gen_mc(rng, nmax=most, exact=rng.random() < 0.5) for _ in range(mc)] + [models.gen_hmm(rng, nmax=min(most, 4), exact=rng.random() < 0.5) for _ in range(hm)]


class C20(Base):
    id = 'C20'
    level = 'fault_enumeration'
    soft = 45
    episodes = {'quick': 150, 'thorough': 6000}
    rule = ('A run draws models and 1-4 plotting calls, each with the interactive mode on or off and an optional fault: an exception at a seeded call beneath the plotting code, a display that fails, Graphviz that is missing or '
            'breaks down while rendering, or an invalid argument; every faulted call is repeated without the fault. Non-trivial: a call was made in interactive mode or a fault fired. Distinct = distinct (plot, mode, place of the fault, exception).')
    measure = 'distinct (plot, interactive mode, place of the fault, exception) tuples'
    real = ['the whole pydtmc package from the working tree', 'Matplotlib (Agg), pydot, NumPy, SciPy, NetworkX, CPython']
    stub = ['the display (figures are recorded, not shown)', 'Graphviz (simulated processes)', 'the callees at the chosen injection points']
    assumptions = ['a fault surfaces at a call that the plotting code makes to something outside of the library; restoring the interactive mode itself does not fail']

    def generate(self, rng, i, tier):
        ms = gen_plot_models(rng)
        calls = []
        for _ in range(rng.choice([1, 1, 2, 4])):
            f = rng.choice(['none', 'call', 'call', 'call', 'call', 'display', 'render', 'probe', 'argument'])
            calls.append({'op': gen_plot(rng, ms), 'interactive': rng.random() < 0.6, 'fault': f, 'exc': rng.choice(EXCS), 'at': [rng.random() for _ in range(5)] if f == 'call' else [0.5],
                          'how': rng.choice([x for x in (simdot.PROBES if f == 'probe' else simdot.RENDERS) if x != 'ok']), 'state': rng.randrange(10 ** 6), 'keep': rng.random() < 0.5})
        probes = [hist.gen_op(rng, ms, statics=0, bad=0) for _ in range(2)]
        return {'models': ms, 'calls': calls, 'probes': probes}

    def shrinkable(self, ep):
        return [['calls'], ['probes']] + [['calls', i, 'at'] for i in range(len(ep['calls']))]

    def simpler(self, ep):
        return []

    def execute(self, ep, ctx):
        scratch = tempfile.mkdtemp(prefix='dst-c20-')
        world = simdot.World(scratch)
        plt = figs.use()
        import matplotlib
        world.install()
        try:
            self.go(ep, ctx, world, plt, matplotlib)
        finally:
            world.uninstall()
            plt.close('all')
            matplotlib.interactive(False)
            shutil.rmtree(scratch, ignore_errors=True)

    def go(self, ep, ctx, world, plt, mpl):
        np = T.np
        env = {j: models.build(d) for j, d in enumerate(ep['models'])}
        fresh = lambda: {j: models.build(d) for j, d in enumerate(ep['models'])}  # noqa
        probes = [hist.run(p, fresh()) for p in ep['probes']]
        own, ax = plt.subplots()
        ax.plot([1, 2, 3], [3, 1, 2], label='mine')
        own_digest = figs.digest(own)

        def attempt(c, env, prepared=None, form=True):
            """-> outcome, digest of the figure, displayed figures"""
            name, args, kw = c['op']
            np.random.seed(c['state'])
            figs.Display.shown = []
            n0 = set(plt.get_fignums())
            args, kw = prepared if prepared is not None else (ops.dec(args, env), ops.dec(kw, env))
            try:
                r = getattr(T.pydtmc, name)(*args, **kw)
                out = ['ok', r]
            except BaseException as ex:  # noqa
                out = ['exc', type(ex).__name__, str(ex)]
                del ex
            new = sorted(set(plt.get_fignums()) - n0)
            fig = figs.newest(plt) if new else None
            return out, fig, list(figs.Display.shown)

        def judge(c, out, fig, shown, ref, text):
            if out[0] == 'exc':
                if ref[0] != out:
                    ctx.fail('failed', f'{text}: {out[1]}: {out[2]} instead of {ref[0] if ref[0][0] == "exc" else "a figure"}')
                return
            if ref[0][0] == 'exc':
                ctx.fail('no-failure', f'{text}: succeeded, without the history: {ref[0]}')
            self.form(c, out, fig, shown, text, ctx)
            d = figs.digest(fig)
            if not figs.alike(d, ref[1]):
                ctx.fail('figure-differs', f'{text}: the figure differs from the one of an undisturbed call in {figs.diff(d, ref[1])}')

        mpl.interactive(False)
        refs = []
        for c in ep['calls']:
            world.mode('ok', 'ok')
            out, fig, shown = attempt(c, fresh())
            if out[0] == 'ok':
                self.form(dict(c, interactive=False), out, fig, shown, f'{c["op"]}', ctx)
            refs.append((out if out[0] == 'exc' else ['ok'], figs.digest(fig) if out[0] == 'ok' else None))
            if fig is not None:
                plt.close(fig)
        plt.figure(own.number)
        for c, ref in zip(ep['calls'], refs):
            if not c['keep']:
                for num in plt.get_fignums():
                    if num != own.number:
                        plt.close(num)
            mode = c['interactive']
            what = f'{c["op"]} with interactive mode {mode}'
            ats = c['at']
            n = 0
            if c['fault'] == 'call':
                mpl.interactive(mode)
                world.mode('ok', 'ok')
                inj = faults.Injector(T.prefix)
                inj.start()
                try:
                    out, fig, shown = attempt(c, fresh())
                finally:
                    inj.stop()
                n = inj.count
                judge(c, out, fig, shown, ref, what)
                if fig is not None:
                    plt.close(fig)
            for at in ats:
                mpl.interactive(mode)
                rc = dict(mpl.rcParams)
                text = f'{what}, fault {c["fault"]}'
                world.mode(c['how'] if c['fault'] == 'probe' else 'ok', c['how'] if c['fault'] == 'render' else 'ok')
                prepared = (ops.dec(c['op'][1], env), ops.dec(c['op'][2], env))
                if c['fault'] == 'argument':
                    prepared[1]['dpi'] = -1
                before = ops.canon(list(prepared))
                fired = None
                if c['fault'] == 'call':
                    k = 1 + int(at * n) if at < 1 else int(at)
                    inj = faults.Injector(T.prefix, at=k, exc=c['exc'])
                    inj.start()
                    try:
                        out, fig, shown = attempt(c, env, prepared)
                    finally:
                        inj.stop()
                    fired = inj.fired[0] if inj.fired else None
                    text += f' {c["exc"]} at call {k} ({fired})'
                    if fired:
                        ctx.stat('fault:' + c['exc'])
                elif c['fault'] == 'display':
                    figs.Display.fail = faults.make_exc(c['exc'])
                    out, fig, shown = attempt(c, env, prepared)
                    fired = 'display' if figs.Display.fail is None else None
                    figs.Display.fail = None
                    text += f' {c["exc"]}'
                    if fired:
                        ctx.stat('fault:display ' + c['exc'])
                else:
                    out, fig, shown = attempt(c, env, prepared)
                    used = world.take()
                    if c['fault'] in ('render', 'probe') and any(m != 'ok' for _, m, _ in used):
                        fired = c['how']
                        ctx.stat(f'fault:{c["fault"]} {c["how"]}')
                        text += ' ' + c['how']
                    elif c['fault'] == 'argument':
                        fired = 'argument'
                world.take()
                ctx.nontrivial = ctx.nontrivial or mode or fired is not None
                ctx.key(c['op'][0], mode, fired, c['exc'] if c['fault'] in ('call', 'display') else '')
                ctx.log(c['op'][0], mode, c['fault'], fired, out[0])
                if plt.isinteractive() != mode:
                    ctx.fail('interactive-mode', f'{text} ({out[0]}): the interactive mode is now {plt.isinteractive()}')
                if dict(mpl.rcParams) != rc:
                    ctx.fail('setting-left', f'{text}: settings changed: { {k: (v, mpl.rcParams[k]) for k, v in rc.items() if mpl.rcParams[k] != v} }')
                if fired is None:
                    judge(c, out, fig, shown, ref, text)
                elif out[0] == 'ok':
                    self.form(c, out, fig, shown, text, ctx)
                if not ops.same(ops.canon(list(prepared)), before, rtol=0, atol=0):
                    ctx.fail('argument-changed', f'{text}: the arguments are now {ops.brief(ops.canon(list(prepared)))}')
                for j, d in enumerate(ep['models']):
                    if hist.definition_changed(env[j], d):
                        ctx.fail('definition-changed', f'{text}: model {j} is now p={env[j].p.tolist()}')
                if fired is not None:
                    world.mode('ok', 'ok')
                    out, fig, shown = attempt(c, env)
                    judge(c, out, fig, shown, ref, text + ', repeated')
                    if plt.isinteractive() != mode:
                        ctx.fail('interactive-mode', f'{text}, repeated: the interactive mode is now {plt.isinteractive()}')
                if figs.digest(own) != own_digest:
                    ctx.fail('other-figure-changed', f'{text}: a figure of the caller changed in {figs.diff(figs.digest(own), own_digest)}')
        mpl.interactive(False)
        for p, ref in zip(ep['probes'], probes):
            x = hist.run(p, env)
            if not ops.same(x, ref):
                ctx.fail('other-operation-differs', f'after plots: {hist.show(p)} gives {ops.brief(x)} instead of {ops.brief(ref)}')

    def form(self, c, out, fig, shown, text, ctx):
        from matplotlib.axes import Axes
        from matplotlib.figure import Figure
        if c['interactive']:
            if out[1] is not None:
                ctx.fail('returned', f'{text}: returned {out[1]!r} in interactive mode')
            if fig is None or fig not in shown:
                ctx.fail('not-displayed', f'{text}: the figure was not displayed in interactive mode')
            return
        r = out[1]
        axes = list(r[1]) if isinstance(r, tuple) and len(r) == 2 and isinstance(r[1], (list, tuple)) else [r[1]] if isinstance(r, tuple) and len(r) == 2 else []
        if not axes or not isinstance(r[0], Figure) or not all(isinstance(a, Axes) and a.figure is r[0] for a in axes):
            ctx.fail('not-returned', f'{text}: returned {r!r} instead of a figure and its axes')
        if r[0] is not fig:
            ctx.fail('not-returned', f'{text}: the figure returned is not the one that was drawn')
        if shown:
            ctx.fail('displayed', f'{text}: a figure was displayed in non-interactive mode')


PROP = C20()
