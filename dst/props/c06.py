from .. import hist, models, ops
from .base import Base, T


class C06(Base):
    id = 'C06'
    episodes = {'quick': 800, 'thorough': 12000}
    rule = ('A run draws models and a history of 6-20 calls, a sixth of which fail (in a third of the runs, calls of a few kinds only); each call is made on the used models and on newly built equal ones. '
            'Non-trivial: at least four calls succeeded on one model. Distinct = distinct histories.')
    measure = 'distinct histories'
    assumptions = ['random calls carry seeds']

    def generate(self, rng, i, tier):
        ms = hist.gen_models(rng, most=2)
        h, pools = [], {}
        if rng.random() < 0.35:              # a few kinds of calls again and again
            pools = {'pool': rng.sample(sorted(set(ops.MC_METHODS)), 3), 'hpool': rng.sample(sorted(set(ops.HMM_METHODS)), 2)}
        for _ in range(rng.randint(6, 20)):
            op = hist.gen_op(rng, ms, statics=0.06, bad=0.16, **pools)
            h.append(op)
            if rng.random() < (0.3 if pools else 0.2):
                h.append(models.clone(op))
        if rng.random() < 0.5 and len(h) > 2:
            # an early call again at the end, after everything else
            h.append(models.clone(h[0]))
            h.append(models.clone(h[1]))
        return {'models': ms, 'ops': h}

    def shrinkable(self, ep):
        return [['ops']]

    def execute(self, ep, ctx):
        env = {j: models.build(d) for j, d in enumerate(ep['models'])}
        good = {}
        for k, op in enumerate(ep['ops']):
            used = hist.run(op, env)
            fresh = hist.run(op, {j: models.build(ep['models'][j]) for j in hist.models_used(op)})
            ctx.stat('calls')
            ctx.stat('outcome:' + used[0])
            ctx.log(op[1], used[0])
            if not ops.same(used, fresh):
                ctx.fail('depends-on-history', f'call {k}, {hist.show(op)}, gives {ops.brief(used)}, on a new model {ops.brief(fresh)}; calls before: {[o[1] for o in ep["ops"][:k]]}')
            if used[0] == 'ok':
                good[op[0]] = good.get(op[0], 0) + 1
            for j, d in enumerate(ep['models']):
                if hist.definition_changed(env[j], d):
                    ctx.fail('definition-changed', f'after call {k}, {hist.show(op)}, model {j} has p={env[j].p.tolist()} states={env[j].states}; it was built as {d}')
        ctx.nontrivial = any(v >= 4 for v in good.values())
        if ctx.nontrivial:
            ctx.key(ep)


PROP = C06()
