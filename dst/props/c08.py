from .. import hist, models, ops
from .base import Base, T

BUILD_MC = ['array', 'array', 'list', 'fortran', 'view', 'from_matrix', 'from_dictionary', 'from_graph', 'from_graph_multi', 'from_file', 'mask', 'fit', 'birth_death', 'frame', 'sparse']
BUILD_HMM = ['array', 'array', 'list', 'from_matrices', 'from_dictionary', 'from_graph', 'estimate', 'from_file', 'mask', 'view']


def mutate(x, rng, depth=0):
    """Changes an object in place, as deeply as it allows; -> number of changes made."""
    np = T.np
    n = 0
    if depth > 4:
        return 0
    if isinstance(x, np.ndarray):
        if x.size:
            try:
                x[...] = 0.25 if x.dtype.kind in 'fc' else 1
                n += 1
            except ValueError:
                pass
            try:
                x.flat[0] = 77
                n += 1
            except (ValueError, TypeError):
                pass
        return n
    if isinstance(x, (T.MC, T.HMM)):
        for a in ('p', 'states', 'e', 'symbols'):
            if hasattr(x, a):
                n += mutate(getattr(x, a), rng, depth + 1)
        return n
    if isinstance(x, (list, tuple)):
        for v in x:
            n += mutate(v, rng, depth + 1)
        if isinstance(x, list):
            if x:
                x[0] = 'zz' if isinstance(x[0], str) else (99 if not isinstance(x[0], (list, np.ndarray)) else x[0])
                x.reverse()
                x.append(x[0])
                del x[len(x) // 2]
            n += 1
        return n
    if isinstance(x, dict):
        for v in list(x.values()):
            n += mutate(v, rng, depth + 1)
        for k in list(x):
            if isinstance(x[k], (int, float)):
                x[k] = 0.125
        if x:
            x.pop(next(iter(x)))
        x['intruder'] = 1.0
        return n + 1
    if isinstance(x, set):
        x.clear()
        return 1
    if hasattr(x, 'add_edge') and hasattr(x, 'nodes'):
        for u, v, a in list(x.edges(data=True)):
            a['weight'] = 0.33
        for _, a in x.nodes(data=True):
            a['layer'] = 7
        es = list(x.edges())
        if es:
            x.remove_edge(*es[0][:2])
        x.add_edge('intruder', 'intruder2', weight=0.5)
        return 1
    if hasattr(x, 'iloc'):
        try:
            x.iloc[:, :] = 0.5
            n += 1
        except Exception:  # noqa
            pass
        return n
    if hasattr(x, 'tocsr') and hasattr(x, 'data'):
        try:
            x.data[...] = 0.5
            n += 1
        except Exception:  # noqa
            pass
    return n


class C08(Base):
    id = 'C08'
    episodes = {'quick': 700, 'thorough': 14000}
    rule = ('A run builds 1-3 models from caller-owned objects in a drawn way, makes 4-14 calls, and at drawn moments changes in place every object the caller gave or was given so far. '
            'Non-trivial: at least three objects were changed. Distinct = distinct (builders, calls, moments).')
    measure = 'distinct (builders, calls, moments of change) tuples'
    assumptions = ['derived results that are not matrices, labels, graphs, dictionaries or sequences of the model may be shared with its cache; only definitions and simulated transitions are compared']

    def generate(self, rng, i, tier):
        ms, builders = [], []
        for _ in range(rng.choice([1, 1, 2, 3])):
            if rng.random() < 0.65:
                d = models.gen_mc(rng, labels=rng.choice(['words', 'uni', 'letters', 'num']))
                ms.append(d)
                builders.append(rng.choice(BUILD_MC))
            else:
                d = models.gen_hmm(rng, labels=rng.choice(['words', 'letters']))
                ms.append(d)
                builders.append(rng.choice(BUILD_HMM))
        steps = []
        for _ in range(rng.randint(4, 14)):
            x = rng.random()
            if x < 0.3:
                steps.append(['mutate'])
            else:
                op = hist.gen_op(rng, ms, statics=0.12, bad=0.05, pool=['plain', 'plain', 'to_matrix', 'to_dictionary', 'to_graph', 'simulate', 'next', 'to_lazy_chain', 'to_canonical_form', 'to_subchain',
                                 'to_bounded_chain', 'conditional_probabilities', 'predict', 'redistribute', 'prop', 'merge_with', 'to_nth_order', 'closest_reversible'] if rng.random() < 0.6 else None,
                                 hpool=['plain', 'plain', 'to_matrices', 'to_dictionary', 'to_graph', 'simulate', 'restrict', 'decode', 'predict'] if rng.random() < 0.7 else None)
                if op[1] != 'hash':
                    steps.append(['op', op])
        steps.append(['mutate'])
        return {'models': ms, 'builders': builders, 'steps': steps, 'seed': rng.randint(0, 10**6)}

    def shrinkable(self, ep):
        return [['steps']]

    def _build(self, d, how, objs):
        """-> the model; what the caller owns goes to objs"""
        np = T.np
        n = len(d['p'])
        labels = list(d['states'])
        objs.append(labels)

        def keep(x):
            objs.append(x)
            return x
        if d['k'] == 'mc':
            arr = np.array(d['p'], dtype=float)
            if how == 'fortran':
                return T.MC(keep(np.asfortranarray(arr)), labels)
            if how == 'view':
                big = np.zeros((n + 2, n + 2))
                big[1:n + 1, 1:n + 1] = arr
                keep(big)
                return T.MC(big[1:n + 1, 1:n + 1], labels)
            if how == 'list':
                return T.MC(keep([list(r) for r in d['p']]), labels)
            if how == 'from_matrix':
                return T.MC.from_matrix(keep(arr), labels)
            if how == 'from_dictionary':
                return T.MC.from_dictionary(keep({(labels[i], labels[j]): d['p'][i][j] for i in range(n) for j in range(n)}))
            if how.startswith('from_graph'):
                import networkx as nx
                g = nx.MultiDiGraph() if how.endswith('multi') else nx.DiGraph()
                g.add_nodes_from(labels)
                for i in range(n):
                    for j in range(n):
                        if d['p'][i][j] > 0:
                            g.add_edge(labels[i], labels[j], weight=d['p'][i][j])
                return T.MC.from_graph(keep(g))
            if how == 'mask':
                m = np.full((n, n), np.nan)
                m[0, :] = d['p'][0]
                return T.MC.random(n, labels, mask=keep(m), seed=5)
            if how == 'fit':
                return T.MC.fit_sequence('mle', labels, keep([labels[k % n] for k in range(25)] + [labels[0]]), False)
            if how == 'birth_death':
                p = [0.25] * (n - 1) + [0.0]
                q = [0.0] + [0.5] * (n - 1)
                return T.MC.birth_death(keep(np.array(p)), keep(np.array(q)), labels)
            if how == 'frame':
                import pandas as pd
                return T.MC(keep(pd.DataFrame(arr)), labels)
            if how == 'sparse':
                import scipy.sparse as sp
                return T.MC(keep(sp.csr_matrix(arr)), labels)
            return T.MC(keep(arr), labels)
        sym = keep(list(d['symbols']))
        k = len(sym)
        p, e = np.array(d['p'], dtype=float), np.array(d['e'], dtype=float)
        if how == 'list':
            return T.HMM(keep([list(r) for r in d['p']]), keep([list(r) for r in d['e']]), labels, sym)
        if how == 'from_matrices':
            return T.HMM.from_matrices(keep(p), keep(e), labels, sym)
        if how == 'view':
            both = keep(np.hstack([p, e]))
            return T.HMM(both[:, :n], both[:, n:], labels, sym)
        if how == 'from_dictionary':
            items = {('P', labels[i], labels[j]): d['p'][i][j] for i in range(n) for j in range(n)}
            items.update({('E', labels[i], sym[j]): d['e'][i][j] for i in range(n) for j in range(k)})
            return T.HMM.from_dictionary(keep(items))
        if how == 'from_graph':
            return T.HMM.from_graph(keep(models.build(d).to_graph()))
        if how == 'estimate':
            return T.HMM.estimate(labels, sym, keep([labels[x % n] for x in range(30)]), keep([sym[x % k] for x in range(30)]))
        if how == 'mask':
            return T.HMM.random(n, k, labels, p_mask=keep(np.array([d['p'][0]] + [[np.nan] * n] * (n - 1))), symbols=sym, e_mask=keep(np.array([d['e'][0]] + [[np.nan] * k] * (n - 1))), seed=3)
        return T.HMM(keep(p), keep(e), labels, sym)

    @staticmethod
    def _behaviour(m):
        out = [ops.canon(m)]
        for s in range(len(m.states)):
            out.append(ops.canon(m.simulate(12, s, seed=11 + s)))
            out.append(ops.canon(m.next(s, seed=4)))
            out.append([ops.canon(m.transition_probability(s, t)) for t in range(len(m.states))])
        return out

    def execute(self, ep, ctx):
        import random
        rng = random.Random(ep['seed'])
        objs, env, refs = [], {}, {}
        for j, d in enumerate(ep['models']):
            how = ep['builders'][j]
            start = len(objs)
            try:
                m = self._build(d, how, objs)
            except Exception as ex:  # noqa
                # ways of building that this definition does not admit (or inputs the library does not take)
                ctx.stat('builder_refused:' + type(ex).__name__)
                m = models.build(d)
                del objs[start:]
            env[j] = m
        # every model used below is described by what it is now
        for j, m in env.items():
            refs[j] = self._behaviour(m)
        changed = 0
        results = []

        def check(text):
            for j, m in env.items():
                now = self._behaviour(m)
                if not ops.same(now, refs[j], rtol=0, atol=0):
                    k = next(k for k in range(len(now)) if not ops.same(now[k], refs[j][k], rtol=0, atol=0))
                    ctx.fail('model-changed', f'{text}: model {j} (built by {ep["builders"][j]}) was {ops.brief(refs[j][k], 500)} and is {ops.brief(now[k], 500)}')
        for step in ep['steps']:
            if step[0] == 'mutate':
                for o in objs + results:
                    changed += mutate(o, rng)
                ctx.stat('objects_changed', len(objs) + len(results))
                check(f'after changing {[type(o).__name__ for o in objs + results]}')
                objs, results = [], []
            else:
                op = step[1]
                args, kwargs = ops.dec(op[2], env), ops.dec(op[3], env)
                before = ops.canon([args, kwargs])
                try:
                    r = ops.call(op, env, args, kwargs)
                    results.append(r)
                except Exception:  # noqa
                    pass
                ctx.stat('calls')
                ctx.log(op[1])
                if not ops.same(ops.canon([args, kwargs]), before, rtol=0, atol=0):
                    ctx.fail('argument-changed', f'{hist.show(op)} left its arguments as {ops.brief(ops.canon([args, kwargs]))}, they were {ops.brief(before)}')
                objs += [a for a in args if not isinstance(a, (T.MC, T.HMM))]
                if op[1] not in ('get',):
                    check(f'after {hist.show(op)}')
        for j, d in enumerate(ep['models']):
            for a in ('p', 'states', 'e', 'symbols', 'n', 'size', 'k'):
                if hasattr(env[j], a):
                    try:
                        setattr(env[j], a, None)
                    except AttributeError:
                        continue
                    ctx.fail('assignable', f'{a} of model {j} can be assigned')
        check('at the end')
        ctx.nontrivial = changed >= 3
        if ctx.nontrivial:
            ctx.key(ep)


PROP = C08()
