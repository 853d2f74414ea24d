from .. import core, models, ops, sched
from .base import Base, T


METHODS = sorted({m for m in ops.MC_METHODS if m not in ('plain', 'prop')}) + ['hmm:' + m for m in sorted({m for m in ops.HMM_METHODS if m != 'plain'})] + ['static:' + m for m in ops.STATIC] + ['prop:' + m for m in ops.MC_PROPS]

ALIASES = {'pi': ['stationary_distributions', 'steady_states'], 'is_stochastically_monotone': ['is_monotone']}


def gen_rivals(rng, i):
    """The same method in every thread, on different models or with different arguments: the method rotates with the run."""
    method = METHODS[i % len(METHODS)]
    kind, _, name = method.rpartition(':')
    n = rng.randint(2, 5)
    ms = []
    if kind != 'static':
        for _ in range(2 if rng.random() < 0.8 else 1):
            k = {} if rng.random() < 0.5 else {'style': 'dense'}
            ms.append(models.gen_hmm(rng, n=n, **k) if kind == 'hmm' else models.gen_mc(rng, n=n if rng.random() < 0.8 else None, exact=rng.random() < 0.5, **k))
    threads = []
    for t in range(rng.choice([2, 2, 2, 3])):
        lst = []
        for _ in range(rng.choice([1, 1, 2])):
            if kind == 'static':
                a, b, c = ops.gen_static_op(rng, pool=[name])
                lst.append([None, a, b, c])
                continue
            m = t % len(ms) if rng.random() < 0.9 else rng.randrange(len(ms))
            if kind == 'prop':
                # the property, another name of it, or a neighbour
                x = rng.random()
                lst.append([m, 'get', [name if x < 0.5 else rng.choice(ALIASES.get(name, [name])) if x < 0.8 else rng.choice(ops.MC_PROPS)], {}])
                continue
            others = [j for j, o in enumerate(ms) if len(o['p']) == len(ms[m]['p'])]
            gen = ops.gen_hmm_op if kind == 'hmm' else ops.gen_mc_op
            a, b, c = gen(rng, ms[m], pool=[name], others=others)
            lst.append([m, a, b, c])
        threads.append(lst)
    schedule = {'seed': rng.getrandbits(48), 'q': rng.choice([0.5, 0.2, 0.1, 0.05, 0.02]), 'ql': rng.choice([0.1, 0.4, 0.8])}
    return {'models': ms, 'threads': threads, 'sched': schedule, 'opcodes': rng.random() < 0.15}


def gen_threads(rng, tier, statics=0.15):
    ms = []
    x = rng.random()
    if x < 0.85:
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            ms.append(models.gen_mc(rng, exact=rng.random() < 0.5) if rng.random() < 0.75 else models.gen_hmm(rng, exact=rng.random() < 0.5))
        if len(ms) > 1 and rng.random() < 0.5 and ms[0]['k'] == 'mc':
            # an equal or a same-sized model
            ms[1] = models.clone(ms[0]) if rng.random() < 0.3 else models.gen_mc(rng, n=len(ms[0]['p']))
    nthreads = rng.choice([2, 2, 2, 3, 3, 4])
    shared_pool = None
    mode = rng.choice(['any', 'props', 'same', 'same', 'same', 'method'])
    threads = []
    template = None
    method = None
    for t in range(nthreads):
        lst = []
        for _ in range(rng.randint(1, 3)):
            if not ms or rng.random() < statics:
                if mode == 'same' and template is not None and rng.random() < 0.7 and template[0] is None:
                    lst.append(template)
                    continue
                name, a, k = ops.gen_static_op(rng, pool=['random_distribution', 'ctor', 'hmm_ctor', 'random', 'random_distribution'] if not ms and rng.random() < 0.5 else None)
                op = [None, name, a, k]
            else:
                if mode == 'same' and template is not None and rng.random() < 0.7:
                    lst.append(template)
                    continue
                m = 0 if rng.random() < 0.6 else rng.randrange(len(ms))
                d = ms[m]
                others = [j for j, o in enumerate(ms) if o['k'] == d['k'] and len(o['p']) == len(d['p'])]
                if d['k'] == 'mc':
                    pool = ['prop'] if mode == 'props' else None
                    if mode == 'method':
                        # the same method on different arguments, on any model
                        method = method or rng.choice([x for x in ops.MC_METHODS if x not in ('plain', 'prop')])
                        pool = [method]
                    name, a, k = ops.gen_mc_op(rng, d, pool=pool, others=others)
                else:
                    pool = None
                    if mode == 'method':
                        pool = ['decode', 'predict', 'simulate', 'next'] if rng.random() < 0.5 else None
                    name, a, k = ops.gen_hmm_op(rng, d, pool=pool, others=others)
                op = [m, name, a, k]
            if template is None:
                template = op
            lst.append(op)
        threads.append(lst)
    schedule = {'seed': rng.getrandbits(48), 'q': rng.choice([0.5, 0.2, 0.1, 0.03, 0.01, 0.003]), 'ql': rng.choice([0.1, 0.4, 0.8])}
    return {'models': ms, 'threads': threads, 'sched': schedule, 'opcodes': rng.random() < 0.25}


def solo_outcomes(ep):
    """Each call alone, on newly built models, in a process of its own."""
    def body():
        out = []
        for lst in ep['threads']:
            row = []
            for op in lst:
                env = {j: models.build(d) for j, d in enumerate(ep['models']) if j == op[0] or '__model__' in repr(op[2])}
                row.append(ops.outcome(lambda: ops.call(op, env)))
            out.append(row)
        return out
    status, value = core.in_child(body)
    if status != 'ok':
        if status == 'error':
            raise RuntimeError(value)
        raise core.Violation('solo-' + status, str(value))
    return value


class C01(Base):
    id = 'C01'
    episodes = {'quick': 1200, 'thorough': 16000}
    rule = ('A run draws models, 2-4 threads with 1-3 public calls each (every other run: one method, rotating with the run, in all threads on rival models; otherwise biased to the same calls on the same model) and a thread schedule; it is non-trivial '
            'when control passed at least twice between threads inside the library. Distinct = distinct sequences of (step, thread) switches actually taken.')
    measure = 'distinct switch sequences taken by the scheduler'
    real = Base.real + ['real Python threads, one running at a time']
    stub = ['threading.Lock and threading.RLock (simulated locks owned by the scheduler)']
    assumptions = ['control passes between threads only at traced lines (in a quarter of the runs: bytecode instructions) of the library and of the copy module, and at the lock operations of the library',
                   'native code beneath the library is atomic']

    def generate(self, rng, i, tier):
        return gen_rivals(rng, i // 2) if i % 2 else gen_threads(rng, tier)

    def shrinkable(self, ep):
        out = []
        if 'switches' in ep['sched']:
            out.append(['sched', 'switches'])
        out.append(['threads'])
        out += [['threads', t] for t in range(len(ep['threads']))]
        return out

    def concretise(self, ep):
        status, value = core.in_child(lambda: self._run(ep, core.Ctx(), compare=False))
        if status != 'ok' or value is None:
            return None
        ep = models.clone(ep)
        ep['sched'] = {'switches': value}
        return ep

    def _run(self, ep, ctx, compare=True):
        solo = solo_outcomes(ep) if compare else None
        env = {j: models.build(d) for j, d in enumerate(ep['models'])}
        results = [[None] * len(lst) for lst in ep['threads']]
        prepared = [[(ops.dec(op[2], env), ops.dec(op[3], env)) for op in lst] for lst in ep['threads']]

        def body(t):
            def run():
                for k, op in enumerate(ep['threads'][t]):
                    results[t][k] = ops.outcome(lambda: ops.call(op, env, *prepared[t][k]))
            return run

        sim = sched.Sim(ep['sched'], T.traced, opcodes=ep.get('opcodes', False), max_steps=400000)
        sim.run([body(t) for t in range(len(ep['threads']))])
        if not compare:
            return sim.recorded
        ctx.stat('steps', sim.step)
        ctx.stat('switches', sim.switches)
        if sim.timeouts:
            ctx.stat('fault:timed wait expired', sim.timeouts)
        ctx.stat('runs_with_contended_lock', 1 if any(t for t in sim.recorded) else 0)
        ctx.nontrivial = sim.switches >= 2
        if ctx.nontrivial:
            ctx.key(sim.recorded)
        ctx.log(sim.step, sim.recorded)
        if sim.deadlock is not None:
            ctx.fail('deadlock', f'threads {sim.deadlock} wait for each other forever; calls {[[o[1:3] for o in l] for l in ep["threads"]]}')
        for t, lst in enumerate(ep['threads']):
            for k, op in enumerate(lst):
                a, b = results[t][k], solo[t][k]
                ctx.log(t, k, op[1], a[0])
                ctx.stat('calls')
                ctx.stat('outcome:' + a[0])
                if not ops.same(a, b):
                    ctx.fail('concurrent-result', f'thread {t}, call {k}: {op[1]}({ops.brief(op[2])}) on model {op[0]} gave {ops.brief(a)}, alone it gives {ops.brief(b)}')
        for j, d in enumerate(ep['models']):
            if env[j].p.tolist() != d['p'] or env[j].states != models.states_of(d):
                ctx.fail('model-changed', f'model {j} changed its definition')
        return sim.recorded

    def execute(self, ep, ctx):
        self._run(ep, ctx)


PROP = C01()
