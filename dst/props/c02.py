import _thread

from .. import core, faults, models, ops, sched
from .base import Base, T


class C02(Base):
    id = 'C02'
    episodes = {'quick': 640, 'thorough': 9000}
    rule = ('A run draws 1-2 models and 2-4 threads that read 1-4 derived properties each (biased to the same ones), a thread schedule, and in a third of the runs '
            'an exception at the k-th call beneath the library inside one of the first computations. Non-trivial: control passed between threads, or a fault fired. '
            'Distinct = distinct (switch sequence, fault place) pairs.')
    measure = 'distinct (switch sequence, fault place) pairs'
    real = Base.real + ['real Python threads, one running at a time']
    stub = ['threading.Lock and threading.RLock (simulated locks owned by the scheduler)']
    assumptions = ['control passes between threads only at traced lines or instructions of the library and at its lock operations']

    def generate(self, rng, i, tier):
        ms = [models.gen_mc(rng, exact=rng.random() < 0.5) if rng.random() < 0.9 else models.gen_hmm(rng) for _ in range(rng.choice([1, 1, 2]))]
        if len(ms) == 2 and rng.random() < 0.3:
            ms[1] = models.clone(ms[0])
        favourites = {j: rng.sample(ops.MC_PROPS, 2) if d['k'] == 'mc' else ops.HMM_CACHED for j, d in enumerate(ms)}
        threads = []
        for _ in range(rng.choice([2, 2, 3, 4])):
            lst = []
            for _ in range(rng.randint(1, 4)):
                j = rng.randrange(len(ms))
                pool = favourites[j] if rng.random() < 0.6 else (ops.MC_PROPS if ms[j]['k'] == 'mc' else ops.HMM_CACHED)
                lst.append([j, rng.choice(pool)])
            threads.append(lst)
        ep = {'models': ms, 'threads': threads, 'sched': {'seed': rng.getrandbits(48), 'q': rng.choice([0.4, 0.15, 0.05, 0.02, 0.005]), 'ql': rng.choice([0.1, 0.4, 0.8])},
              'opcodes': rng.random() < 0.35, 'fault': None}
        if rng.random() < 0.35:
            ep['fault'] = {'thread': rng.randrange(len(threads)), 'at': rng.choice([1, 1, 2, 2, 3, 4, 5, 6, 8, 10, 14, 20]), 'exc': rng.choice(['MemoryError', 'KeyboardInterrupt', 'LinAlgError'])}
        return ep

    def shrinkable(self, ep):
        out = [['threads']] + [['threads', t] for t in range(len(ep['threads']))]
        if 'switches' in ep['sched']:
            out.insert(0, ['sched', 'switches'])
        return out

    def simpler(self, ep):
        if ep['fault'] is not None:
            c = models.clone(ep)
            c['fault'] = None
            yield c

    def concretise(self, ep):
        status, value = core.in_child(lambda: self._run(ep, core.Ctx(), compare=False))
        if status != 'ok' or value is None:
            return None
        ep = models.clone(ep)
        ep['sched'] = {'switches': value}
        return ep

    def _run(self, ep, ctx, compare=True):
        solo = {}
        if compare:
            for j, d in enumerate(ep['models']):
                for name in sorted({name for lst in ep['threads'] for jj, name in lst if jj == j}):
                    solo[(j, name)] = ops.outcome(lambda: getattr(models.build(d), name))
        env = [models.build(d) for d in ep['models']]
        seen = {}          # (model, property) -> first object obtained
        reads = []
        sim = sched.Sim(ep['sched'], T.traced, opcodes=ep['opcodes'], max_steps=300000)
        f = ep['fault']
        fired = []

        inj = faults.Injector(T.prefix, at=f['at'], exc=f['exc']) if f is not None else None

        def body(t):
            def run():
                mine = inj is not None and f['thread'] == t
                if mine:
                    inj.thread = _thread.get_ident()
                    inj.active = True
                for k, (j, name) in enumerate(ep['threads'][t]):
                    try:
                        x = getattr(env[j], name)
                    except BaseException as ex:  # noqa
                        if mine and inj.fired and not fired:
                            fired.append((t, name, inj.fired[0]))
                            reads.append((t, k, j, name, 'fault', None))
                            continue
                        reads.append((t, k, j, name, 'exc', [type(ex).__name__, str(ex)]))
                        continue
                    reads.append((t, k, j, name, 'ok', x))
                if mine:
                    inj.pause()
            return run

        if inj is not None:
            inj.start()
            inj.pause()
        try:
            sim.run([body(t) for t in range(len(ep['threads']))])
        finally:
            if inj is not None:
                inj.stop()
        if not compare:
            return sim.recorded
        ctx.stat('steps', sim.step)
        ctx.stat('switches', sim.switches)
        if f is not None:
            ctx.stat('faults_planned')
            for t, name, where in fired:
                ctx.stat('fault:' + f['exc'])
        ctx.nontrivial = sim.switches > 0 or bool(fired)
        if ctx.nontrivial:
            ctx.key(sim.recorded, fired)
        ctx.log(sim.step, sim.recorded, fired)
        if sim.deadlock is not None:
            ctx.fail('deadlock', f'threads {sim.deadlock} never finish; reads {ep["threads"]}; faults {fired}')
        for t, k, j, name, kind, x in reads:
            ctx.log(t, k, j, name, kind)
            ctx.stat('reads')
            exp = solo[(j, name)]
            if kind == 'fault':
                continue
            if kind == 'exc':
                if exp[0] != 'exc' or exp[1:] != x:
                    ctx.fail('read-failed', f'{name} raised {x} in thread {t}, alone: {ops.brief(exp)}')
                continue
            if exp[0] != 'ok' or not ops.same(ops.canon(x), exp[1]):
                ctx.fail('wrong-value', f'{name} gave {ops.brief(ops.canon(x))} in thread {t}, alone: {ops.brief(exp)} (faults {fired})')
            if (j, name) in seen:
                if seen[(j, name)] is not x:
                    ctx.fail('two-objects', f'{name} of model {j} was handed out as two different objects (threads {[r[0] for r in reads if r[2] == j and r[3] == name]})')
            else:
                seen[(j, name)] = x
        # afterwards: same object, still not assignable
        for (j, name), x in seen.items():
            y = getattr(env[j], name)
            if y is not x:
                ctx.fail('two-objects', f'{name} of model {j} changed identity after the concurrent phase')
        for (j, name), exp in solo.items():
            got = ops.outcome(lambda: getattr(env[j], name))
            if not ops.same(got, exp):
                ctx.fail('later-value', f'{name} of model {j} gives {ops.brief(got)} later on, alone: {ops.brief(exp)} (faults {fired})')
            before = getattr(env[j], name) if exp[0] == 'ok' else None
            for action in ('set', 'del'):
                try:
                    if action == 'set':
                        setattr(env[j], name, 123)
                    else:
                        delattr(env[j], name)
                except AttributeError:
                    pass
                else:
                    ctx.fail('assignable', f'{name} could be {action}')
            if exp[0] == 'ok' and getattr(env[j], name) is not before:
                ctx.fail('two-objects', f'{name} of model {j} changed identity')
        for lock in sched.ALL_LOCKS:
            if lock.locked():
                ctx.fail('lock-held', f'a lock of the library is still held when nothing runs (faults {fired})')
        return sim.recorded

    def execute(self, ep, ctx):
        self._run(ep, ctx)


PROP = C02()
