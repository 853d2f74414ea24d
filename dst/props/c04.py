import random

from .. import core, hist, models, ops
from .base import Base, T

RANDOM_NAMES = {'next', 'simulate', 'MC.random', 'MC.random_distribution', 'MC.dirichlet_process', 'HMM.random'}
POOL = ['simulate', 'simulate', 'next', 'prop', 'redistribute', 'predict']


class C04(Base):
    id = 'C04'
    episodes = {'quick': 420, 'thorough': 9000}
    rule = ('A run draws models and a history of 4-14 calls in which random ones carry no seed, and replays it from the same global generator state in other processes (once in a secondary thread), after other '
            'preceding activity and with other states of the Python generator. Non-trivial: at least two calls drew. Distinct = distinct histories.')
    measure = 'distinct histories'
    stub = ['states of the global NumPy and Python generators (set by the simulator)']
    assumptions = ['entropy taken from elsewhere (the system, the clock, addresses) differs between the replays with overwhelming probability']

    def generate(self, rng, i, tier):
        ms = hist.gen_models(rng)
        h = []
        for _ in range(rng.randint(4, 14)):
            if rng.random() < 0.4:
                h.append(hist.gen_op(rng, ms, seeded=False, statics=0.5, bad=0, pool=['simulate', 'next'], hpool=['simulate', 'next'],
                                     spool=['random', 'random_distribution', 'dirichlet_process', 'hmm_random']))
            else:
                h.append(hist.gen_op(rng, ms, seeded=rng.random() < 0.3, statics=0.2, bad=0.1))
        return {'models': ms, 'ops': h, 'state': rng.randint(0, 2**32 - 1), 'before': [hist.gen_op(rng, ms, seeded=False, statics=0.3, bad=0.1) for _ in range(3)], 'skip': rng.randint(0, 1400)}

    def shrinkable(self, ep):
        return [['ops'], ['before']]

    def execute(self, ep, ctx):
        np = T.np

        def history(variant):
            env = {j: models.build(d) for j, d in enumerate(ep['models'])}
            random.seed(variant)
            if variant:
                for op in ep['before']:
                    hist.run(op, env)
                env = {j: models.build(d) for j, d in enumerate(ep['models'])}
            np.random.seed(ep['state'])
            np.random.random(ep['skip'])
            out = []
            for op in ep['ops']:
                s = hist.np_state()
                r = hist.run(op, env)
                out.append([r, hist.np_state() != s])
            return out + [[['ok', hist.np_state()[2]], False]]
        a = history(0)
        for variant in (1, 2):
            status, b = core.in_child(lambda: hist.elsewhere(lambda: history(variant)) if variant == 2 else history(variant))
            if status != 'ok':
                raise RuntimeError(f'{status}: {b}')
            ctx.stat('replays')
            for k, op in enumerate(ep['ops'] + [[None, 'state of the generator', [], {}]]):
                if not ops.same(a[k][0], b[k][0]):
                    ctx.fail('not-replayed', f'call {k}, {hist.show(op)}, gave {ops.brief(a[k][0])} and in the replay {ops.brief(b[k][0])}, from the same state of the global generator')
        drew = 0
        for k, op in enumerate(ep['ops']):
            drew += a[k][1]
            ctx.stat('calls')
            ctx.log(op[1], a[k][0][0], a[k][1])
            is_random = op[1] in RANDOM_NAMES and (op[3].get('seed', None) is None if 'seed' in op[3] else (op[2] and op[2][-1] is None and op[1] not in ('next', 'simulate')))
            if a[k][1] and not is_random:
                ctx.fail('generator-touched', f'{hist.show(op)} drew from the global generator')
        # different states give different walks
        for j, d in enumerate(ep['models']):
            if all(max(r) <= 0.75 for r in d['p']):
                m = models.build(d)
                outs = set()
                for s in range(6):
                    np.random.seed((ep['state'] + s) % 2**32)
                    outs.add(repr(ops.canon(m.simulate(50, 0))))
                ctx.stat('state_sensitivity_checked')
                if len(outs) < 6:
                    ctx.fail('generator-ignored', f'simulate gives {len(outs)} different walks from 6 states of the global generator')
                break
        ctx.nontrivial = drew >= 2
        if ctx.nontrivial:
            ctx.key(ep['ops'], ep['state'])


PROP = C04()
