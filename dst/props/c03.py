import random

from .. import core, hist, models, ops
from .base import Base, T

MC_SEEDED = ['next', 'simulate', 'simulate']
HMM_SEEDED = ['next', 'simulate', 'simulate']
STATIC_SEEDED = ['random', 'random', 'random_distribution', 'random_distribution', 'dirichlet_process', 'hmm_random']


class C03(Base):
    id = 'C03'
    episodes = {'quick': 700, 'thorough': 14000}
    rule = ('A run draws models, one seeded call and a history of other calls; the seeded call is made first alone in its own process, then repeatedly in the history, on the '
            'used models and on equal ones, under different states of the global generators. Non-trivial: the call succeeded and the history contains a call that draws. '
            'Distinct = distinct (seeded call, history) pairs.')
    measure = 'distinct (seeded call, surrounding history) pairs'
    stub = ['states of the global NumPy and Python generators (set by the simulator before every call)']
    assumptions = ['the simulator controls the global NumPy and Python generators; a generator seeded from the system entropy differs between the repetitions with overwhelming probability']

    def generate(self, rng, i, tier):
        ms = hist.gen_models(rng)
        if rng.random() < 0.6:
            j = rng.randrange(len(ms))
            op = hist.gen_op(rng, [ms[j]], statics=0, bad=0, pool=MC_SEEDED, hpool=HMM_SEEDED)
            op[0] = j
            if rng.random() < 0.4 and op[1] == 'simulate':
                op[2][0] = rng.randint(10, 60)
        else:
            op = hist.gen_op(rng, [], statics=1, bad=0, spool=STATIC_SEEDED)
        if rng.random() < 0.12:
            self._set_seed(op, rng.choice([0, 1, 2**31 - 1]))
        noise = []
        for _ in range(rng.randint(2, 7)):
            x = rng.random()
            if x < 0.2:
                noise.append(['npseed', rng.randint(0, 2**32 - 1)])
            elif x < 0.3:
                noise.append(['npdraw', rng.randint(1, 700)])
            elif x < 0.4:
                noise.append(['pyseed', rng.randint(0, 999)])
            elif x < 0.55:
                c = models.clone(op)
                self._set_seed(c, rng.randint(0, 5000))
                noise.append(['op', c])
            else:
                noise.append(['op', hist.gen_op(rng, ms, seeded=rng.random() < 0.4, statics=0.3, bad=0.15, pool=['simulate', 'next', 'prop', 'redistribute', 'predict'] if rng.random() < 0.6 else None)])
        return {'models': ms, 'op': op, 'noise': noise, 'np': rng.randint(0, 2**31)}

    @staticmethod
    def _set_seed(op, seed):
        if 'seed' in op[3]:
            op[3]['seed'] = seed
        else:
            op[2][-1] = seed

    def shrinkable(self, ep):
        return [['noise']]

    def execute(self, ep, ctx):
        np = T.np
        op = ep['op']

        def alone():
            np.random.seed(1234567)
            env = {j: models.build(ep['models'][j]) for j in hist.models_used(op)}
            return hist.run(op, env)
        status, ref = core.in_child(alone)
        if status != 'ok':
            raise RuntimeError(f'{status}: {ref}')
        env = {j: models.build(d) for j, d in enumerate(ep['models'])}
        np.random.seed(ep['np'] % 2**32)
        random.seed(ep['np'])
        drew = 0

        def again(where, e):
            before, py = hist.np_state(), random.getstate()
            threaded = 'thread' in where
            out = hist.elsewhere(lambda: hist.run(op, e)) if threaded else hist.run(op, e)
            ctx.stat('seeded_calls')
            if not ops.same(out, ref):
                ctx.fail('seeded-result', f'{hist.show(op)} gives {ops.brief(out)} {where}; alone it gives {ops.brief(ref)}')
            if hist.np_state() != before:
                ctx.fail('global-generator-disturbed', f'{hist.show(op)} changed the state of the global NumPy generator')
            if random.getstate() != py:
                ctx.fail('global-generator-disturbed', f'{hist.show(op)} changed the state of the global Python generator')
        again('at first', env)
        for step in ep['noise']:
            if step[0] == 'npseed':
                np.random.seed(step[1])
            elif step[0] == 'npdraw':
                np.random.random(step[1])
            elif step[0] == 'pyseed':
                random.seed(step[1])
            else:
                before = hist.np_state()
                hist.run(step[1], env)
                drew += hist.np_state() != before
                ctx.stat('history_calls')
            again('after ' + (step[0] if step[0] != 'op' else hist.show(step[1])), env)
        again('in another thread', env)
        again('on equal models at the end', {j: models.build(d) for j, d in enumerate(ep['models'])})
        # the seed decides: among many seeds, a call that can vary does vary
        if op[1] == 'simulate' and op[0] is not None and ref[0] == 'ok':
            d = ep['models'][op[0]]
            if all(max(r) <= 0.75 for r in d['p']) and op[2][2] is None and (d['k'] == 'mc' or op[2][3] is None):
                outs = set()
                c = models.clone(op)
                c[2][0] = 40
                for s in range(8):
                    self._set_seed(c, s)
                    outs.add(repr(hist.run(c, env)))
                ctx.stat('seed_sensitivity_checked')
                if len(outs) < 8:
                    ctx.fail('seed-ignored', f'{hist.show(c)} gives only {len(outs)} different outputs for the seeds 0..7')
        ctx.log(ref[0], op[1], len(ep['noise']), hist.np_state()[2])
        ctx.nontrivial = ref[0] == 'ok' and (drew > 0 or any(s[0] != 'op' for s in ep['noise']))
        if ctx.nontrivial:
            ctx.key(op, ep['noise'])


PROP = C03()
