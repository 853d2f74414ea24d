import copy
import io
import pickle

from .. import core, hist, models, ops, sched
from .base import Base, T
from .c05 import LOCALES, interpreter
from .c08 import mutate

PROTOCOLS = list(range(pickle.HIGHEST_PROTOCOL + 1))
HOWS = ['copy', 'copy', 'deepcopy', 'deepcopy', 'pair', 'results', 'method', 'twice'] + [f'pickle{p}' for p in PROTOCOLS] + [f'pypickle{p}' for p in PROTOCOLS[-2:]]


def pydumps(o, protocol):
    f = io.BytesIO()
    pickle._Pickler(f, protocol).dump(o)
    return f.getvalue()


def make(o, how, results=(), fail=None):
    """A copy of the model o, made in the given way; for a pair, both."""
    if how == 'copy':
        return [copy.copy(o)]
    if how == 'deepcopy':
        return [copy.deepcopy(o)]
    if how == 'twice':
        return [copy.deepcopy(pickle.loads(pickle.dumps(copy.copy(o))))]
    if how == 'pair':
        a = copy.deepcopy({'first': o, 'again': [o, (o,)]})
        if a['first'] is not a['again'][0] or a['first'] is not a['again'][1][0]:
            core.Ctx.fail('identity', 'a model that occurs three times in a container is several models in its copy')
        return [a['first']]
    if how == 'results':
        return [copy.deepcopy([o, list(results)])[0]]
    if how == 'method':
        return [copy.deepcopy(o.simulate).__self__]
    if how.startswith('pypickle'):
        return [pickle._loads(pydumps(o, int(how[8:])))]
    return [pickle.loads(pickle.dumps(o, int(how[6:])))]


class Full(io.BytesIO):
    """A file that fails at its k-th write."""

    def __init__(self, k):
        super().__init__()
        self.k = k

    def write(self, b):
        self.k -= 1
        if self.k < 0:
            raise OSError(28, 'No space left on device')
        return super().write(b)


def behaviour(m):
    out = [ops.canon(m)]
    for s in range(len(m.states)):
        out.append(ops.canon(m.simulate(10, s, seed=5 + s)))
        out.append([ops.canon(m.transition_probability(s, t)) for t in range(len(m.states))])
    return out


class C23(Base):
    id = 'C23'
    episodes = {'quick': 800, 'thorough': 15000}
    rule = ('A run is a history of calls on one or two models, in which models are copied (copy, deepcopy, within containers, pickled by both picklers with every protocol, sent to another interpreter '
            'and back, written to a file that fails), the calls go to the original or to any copy, and the caller modifies results in place; or two to four simulated threads of which some copy a model '
            'while others use it. Every answer is compared with a newly built model. Non-trivial: at least two calls were made on models that were copied or are copies. Distinct = distinct histories.')
    measure = 'distinct (models, steps, schedule) tuples'
    assumptions = ['a shallow copy may share derived results with its original', 'hash seeds and locales of the other interpreters are sampled']
    real = Base.real + ['copy, both picklers of CPython, other CPython interpreters']
    stub = ['threading locks and the thread schedule in the runs with threads']

    def generate(self, rng, i, tier):
        ms = [models.gen_hmm(rng, exact=rng.random() < 0.5) if rng.random() < 0.3 else models.gen_mc(rng, exact=rng.random() < 0.5) for _ in range(rng.choice([1, 1, 2]))]
        if rng.random() < 0.3:
            # threads that copy, threads that use
            threads = []
            for t in range(rng.choice([2, 2, 3, 4])):
                if t == 0 or rng.random() < 0.3:
                    threads.append([['copy', rng.randrange(len(ms)) if t else 0, rng.choice(['copy', 'deepcopy', 'deepcopy', f'pypickle{PROTOCOLS[-1]}', f'pypickle{rng.choice(PROTOCOLS)}'])] for _ in range(rng.randint(1, 2))])
                else:
                    lst = []
                    for _ in range(rng.randint(1, 3)):
                        op = hist.gen_op(rng, ms[:1] if rng.random() < 0.7 else ms, statics=0, bad=0.05)
                        lst.append(['op', op])
                    threads.append(lst)
            return {'models': ms, 'threads': threads, 'sched': {'seed': rng.getrandbits(48), 'q': rng.choice([0.5, 0.2, 0.1, 0.03, 0.01]), 'ql': rng.choice([0.1, 0.4, 0.8])}}
        steps, objs = [], list(range(len(ms)))      # the model behind every object
        far = rng.random() < 0.06
        for _ in range(rng.randint(4, 14)):
            x = rng.random()
            if x < 0.3 and len(objs) < 7:
                w = rng.randrange(len(objs))
                steps.append(['copy', w, rng.choice(HOWS)])
                objs.append(objs[w])
            elif x < 0.36:
                steps.append(['spoil', rng.randrange(len(objs))])
            elif x < 0.4:
                steps.append(['full', rng.randrange(len(objs)), rng.choice(PROTOCOLS), rng.randint(0, 12)])
            elif far and x < 0.5:
                w = rng.randrange(len(objs))
                remote_ops = [op for op in (hist.gen_op(rng, [ms[objs[w]]], statics=0, bad=0.05) for _ in range(4)) if op[1] != 'hash']
                steps.append(['far', w, remote_ops, {'hash': str(rng.randint(1, 2**32 - 1)), 'locale': rng.randrange(len(LOCALES))}])
                objs.append(objs[w])
            else:
                w = rng.randrange(len(objs))
                op = hist.gen_op(rng, [ms[objs[w]]], statics=0, bad=0.06)
                steps.append(['op', w, op])
        return {'models': ms, 'steps': steps}

    def shrinkable(self, ep):
        if 'threads' in ep:
            return ([['sched', 'switches']] if 'switches' in ep['sched'] else []) + [['threads']] + [['threads', t] for t in range(len(ep['threads']))]
        return []

    def simpler(self, ep):
        # without a step; objects are numbered by the copies before them
        if 'steps' not in ep:
            return
        n = len(ep['models'])
        for k in range(len(ep['steps']) - 1, -1, -1):
            st = ep['steps'][k]
            c = models.clone(ep)
            if st[0] in ('copy', 'far'):
                obj = n + sum(s[0] in ('copy', 'far') for s in ep['steps'][:k])
                if any(s[1] == obj for s in ep['steps'][k + 1:]):
                    for s in c['steps'][k + 1:]:
                        if s[1] == obj:
                            s[1] = st[1]
                for s in c['steps'][k + 1:]:
                    s[1] -= s[1] > obj
            c['steps'].pop(k)
            yield c

    def concretise(self, ep):
        if 'threads' not in ep:
            return None
        status, value = core.in_child(lambda: self._threads(ep, core.Ctx(), compare=False))
        if status != 'ok' or value is None:
            return None
        ep = models.clone(ep)
        ep['sched'] = {'switches': value}
        return ep

    @staticmethod
    def _same_model(ctx, a, b, d, how):
        if type(a) is not type(b):
            ctx.fail('type', f'{how} of a {type(b).__name__} is a {type(a).__name__}')
        if not (a == b) or not (b == a) or a != b:
            ctx.fail('not-equal', f'{how} of {d} is not equal to it')
        if hash(a) != hash(b):
            ctx.fail('hash', f'{how} of {d} has another hash')
        for m, text in ((a, how), (b, f'the original, after {how},')):
            if hist.definition_changed(m, d):
                ctx.fail('definition', f'{text} of {d} has p={m.p.tolist()}, states={m.states}' + (f', e={m.e.tolist()}, symbols={m.symbols}' if d['k'] == 'hmm' else ''))

    @staticmethod
    def _variants(d, rng):
        """Other models: nearly the same numbers, the same labels in another order, one other label, the same numbers in another model."""
        for field in (['p'] if d['k'] == 'mc' else ['p', 'e']):
            rows = [j for j, r in enumerate(d[field]) if sum(x >= 0.01 for x in r) >= 2]
            if rows:
                c = models.clone(d)
                r = c[field][rng.choice(rows)]
                a, b = rng.sample([j for j, x in enumerate(r) if x >= 0.01], 2)
                eps = 2.0 ** -rng.choice([8, 16, 24, 30, 36, 42])
                r[a] += eps
                r[b] -= eps
                if r[b] > 0.0:
                    yield f'{field} moved by {eps}', c
        for field, have in [('states', models.states_of(d))] + ([] if d['k'] == 'mc' else [('symbols', models.symbols_of(d))]):
            c = models.clone(d)
            c[field] = list(have)
            a, b = rng.sample(range(len(have)), 2)
            c[field][a], c[field][b] = have[b], have[a]
            yield f'two {field} exchanged', c
            c = models.clone(d)
            c[field] = list(have)
            c[field][a] = have[a] + rng.choice([' ', '_', '0', 'x'])
            if c[field][a] not in have and c[field][a].strip() != have[a].strip():
                yield f'other {field}', c

    def _equality(self, ctx, d, o):
        import random
        rng = random.Random(repr(d))
        same = models.build(models.clone(d))
        if not (same == o) or not (o == same) or o != same or hash(same) != hash(o):
            ctx.fail('equal-definitions', f'two models of the same definition are not equal or have different hashes: {d}')
        for text, c in self._variants(d, rng):
            v = models.build(c)
            ctx.stat('unequal pairs')
            if v == o or o == v or not v != o:
                ctx.fail('unequal-definitions', f'models of different definitions ({text}) are equal: {d}')

    def execute(self, ep, ctx):
        if 'threads' in ep:
            self._threads(ep, ctx)
            return
        ds = ep['models']
        objs = [models.build(d) for d in ds]
        kind = list(range(len(ds)))
        group = list(range(len(ds)))         # objects that may share derived results
        spoiled = set()
        results = [[] for _ in ds]
        copied, used = set(), 0
        for step in ep['steps']:
            w = step[1] % len(objs)
            d = ds[kind[w]]
            if step[0] == 'copy':
                how = step[2]
                ctx.stat('fault:' + how.rstrip('0123456789'))
                new = make(objs[w], how, results[w])[0]
                if new is objs[w]:
                    ctx.fail('same-object', f'{how} of {d} is the model itself')
                self._same_model(ctx, new, objs[w], d, how)
                objs.append(new)
                kind.append(kind[w])
                group.append(group[w] if how == 'copy' else max(group) + 1)
                if group[w] in spoiled:
                    spoiled.add(group[-1])
                results.append([])
                copied |= {w, len(objs) - 1}
                if group[w] not in spoiled:
                    self._equality(ctx, d, new)
            elif step[0] == 'far':
                data = pickle.dumps(objs[w]).hex()
                rops = [[0] + op[1:] for op in step[2]]
                got = interpreter({'jobs': [{'models': [{'k': 'pickled', 'data': data}], 'ops': rops, 'order': list(range(len(rops))), 'back': True}]},
                                  dict(LOCALES[step[3]['locale']], PYTHONHASHSEED=step[3]['hash']))
                ctx.stat('fault:other interpreter')
                for op, x in zip(rops, got['out'][0]):
                    ctx.stat('calls')
                    y = hist.run(op, {0: models.build(d)})
                    if group[w] not in spoiled and not ops.same(x, y):
                        ctx.fail('far-copy-differs', f'{hist.show(op)} on a copy in another interpreter gives {ops.brief(x, 500)}, on a new model {ops.brief(y, 500)}; {d}')
                new = pickle.loads(bytes.fromhex(got['back'][0][0]))
                self._same_model(ctx, new, objs[w], d, 'the copy that another interpreter sent back')
                objs.append(new)
                kind.append(kind[w])
                group.append(max(group) + 1)
                if group[w] in spoiled:
                    spoiled.add(group[-1])
                results.append([])
                copied |= {w, len(objs) - 1}
            elif step[0] == 'full':
                before = behaviour(objs[w])
                try:
                    pickle.dump(objs[w], Full(step[3]), step[2])
                except OSError:
                    ctx.stat('fault:full file')
                if not ops.same(behaviour(objs[w]), before, rtol=0, atol=0):
                    ctx.fail('failed-copy-changes', f'a failed pickle changed the behaviour of {d}')
            elif step[0] == 'spoil':
                refs = [behaviour(o) for o in objs]
                import random
                for r in results[w]:
                    mutate(r, random.Random(1))
                ctx.stat('fault:results modified', len(results[w]))
                results[w] = []
                spoiled.add(group[w])
                for j, o in enumerate(objs):
                    if not ops.same(behaviour(o), refs[j], rtol=0, atol=0):
                        ctx.fail('not-independent', f'after modifying the results of object {w}, object {j} behaves in another way; {d}')
            else:
                op = [0] + step[2][1:]
                env = {0: objs[w]}
                keep = []

                def go():
                    r = ops.call(op, env)
                    keep.append(r)
                    return r
                got = ops.outcome(go)
                want = hist.run(op, {0: models.build(d)})
                ctx.stat('calls')
                ctx.log(w, op[1], got[0])
                results[w] += [r for r in keep if not isinstance(r, (T.MC, T.HMM))]
                if w in copied:
                    used += 1
                if group[w] not in spoiled and not ops.same(got, want):
                    ctx.fail('copy-differs', f'{hist.show(op)} on object {w} ({"a copy or copied" if w in copied else "never copied"}) gives {ops.brief(got, 500)}, on a new model {ops.brief(want, 500)}; {d}')
        ctx.nontrivial = used >= 2
        if ctx.nontrivial:
            ctx.key(ep)

    def _threads(self, ep, ctx, compare=True):
        ds = ep['models']
        env = {j: models.build(d) for j, d in enumerate(ds)}
        got = [[None] * len(lst) for lst in ep['threads']]

        def body(t):
            def run():
                for k, st in enumerate(ep['threads'][t]):
                    if st[0] == 'copy':
                        try:
                            got[t][k] = make(env[st[1]], st[2])[0]
                        except Exception as ex:  # noqa
                            got[t][k] = ex
                    else:
                        got[t][k] = ops.outcome(lambda: ops.call(st[1], env))
            return run
        sim = sched.Sim(ep['sched'], T.traced + (pickle.dumps.__module__ and pickle._Pickler.dump.__code__.co_filename,), max_steps=400000)
        sim.run([body(t) for t in range(len(ep['threads']))])
        if not compare:
            return sim.recorded
        ctx.stat('switches', sim.switches)
        ctx.nontrivial = sim.switches >= 2
        if ctx.nontrivial:
            ctx.key(sim.recorded, [d['k'] for d in ds])
        ctx.log(sim.step, sim.recorded)
        if sim.deadlock is not None:
            ctx.fail('deadlock', f'threads {sim.deadlock} wait for each other forever')
        for t, lst in enumerate(ep['threads']):
            for k, st in enumerate(lst):
                if st[0] == 'op':
                    want = hist.run(st[1], {j: models.build(d) for j, d in enumerate(ds)})
                    ctx.stat('calls')
                    if not ops.same(got[t][k], want):
                        ctx.fail('concurrent-result', f'{hist.show(st[1])} gives {ops.brief(got[t][k])} while the model is copied, alone {ops.brief(want)}')
                    continue
                d = ds[st[1]]
                ctx.stat('fault:concurrent ' + st[2].rstrip('0123456789'))
                if isinstance(got[t][k], Exception):
                    ctx.fail('concurrent-copy', f'{st[2]} of {d} while other threads use it: {type(got[t][k]).__name__}: {got[t][k]}')
                self._same_model(ctx, got[t][k], env[st[1]], d, f'{st[2]} under concurrent use')
                # what the copy knows by now must be what a new model finds
                new = models.build(d)
                for name in (ops.MC_PROPS if d['k'] == 'mc' else ops.HMM_CACHED):
                    op = [0, 'get', [name], {}]
                    a, b = hist.run(op, {0: got[t][k]}), hist.run(op, {0: new})
                    if not ops.same(a, b):
                        ctx.fail('copy-differs', f'{name} of a copy made under concurrent use is {ops.brief(a)}, of a new model {ops.brief(b)}; {d}')


PROP = C23()
