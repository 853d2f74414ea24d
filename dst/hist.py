"""Histories of public calls: generation (with calls that fail), and noise around the call under study."""

from . import models, ops
from .target import T

BAD = [('simulate', [0]), ('simulate', ['x']), ('next', [99]), ('next', [None]), ('predict', [-1, 0]), ('hitting_times', [[]]), ('hitting_times', [['nope']]), ('to_nth_order', [1]),
       ('to_lazy_chain', [-0.5]), ('to_lazy_chain', [{'__nd__': [2.0]}]), ('redistribute', [0]), ('redistribute', [2, [0.5, 0.9]]), ('expected_rewards', [3, [1.0]]), ('mixing_time', [[9, 9]]),
       ('to_subchain', [['?']]), ('lump', [[[0], [0]]]), ('time_correlations', [[0], None, 1]), ('transition_probability', [0, 999]), ('sensitivity', [-1]), ('to_bounded_chain', ['odd']),
       ('first_passage_probabilities', [0, 0]), ('committor_probabilities', ['sideways', [0], [1]]), ('merge_with', [None, 0.5]), ('aggregate', [99]), ('sequence_probability', [[77]])]
BAD_HMM = [('simulate', [0]), ('next', [99]), ('decode', [[]]), ('decode', [['nope', 'no']]), ('predict', ['guess', [0, 1]]), ('restrict', [[], []]), ('emission_probability', [0, 999]),
           ('transition_probability', ['?', 0]), ('predict', ['viterbi', [0, 1], [0.9, 0.9]])]
BAD_STATIC = [('MC', [[[0.5, 0.6], [0.5, 0.5]]]), ('MC', [[[0.5, 0.5], [0.5, 0.5]], ['a', 'a']]), ('MC.random', [1]), ('MC.random', [3, ['a', 'b']]), ('MC.gamblers_ruin', [1, 0.5]),
              ('HMM', [[[1.0, 0.0], [0.0, 1.0]], [[0.3, 0.3], [0.5, 0.5]]]), ('MC.fit_sequence', ['mle', ['a', 'b'], ['c']]), ('HMM.random', [2, 0])]


def gen_models(rng, most=3, hmm=0.3, **kw):
    out = []
    for _ in range(rng.choice([1, 1, 2, most])):
        out.append(models.gen_hmm(rng, exact=rng.random() < 0.5) if rng.random() < hmm else models.gen_mc(rng, exact=rng.random() < 0.5, **kw))
    return out


def gen_op(rng, ms, seeded=True, statics=0.15, bad=0.1, pool=None, hpool=None, spool=None):
    """-> [model or None, name, args, kwargs]"""
    if not ms or rng.random() < statics:
        if rng.random() < bad:
            name, a = rng.choice(BAD_STATIC)
            return [None, name, a, {}]
        name, a, k = ops.gen_static_op(rng, seeded=seeded, pool=spool)
        return [None, name, a, k]
    j = rng.randrange(len(ms))
    d = ms[j]
    if rng.random() < bad:
        name, a = rng.choice(BAD if d['k'] == 'mc' else BAD_HMM)
        return [j, name, a, {}]
    others = [i for i, o in enumerate(ms) if o['k'] == d['k'] and len(o['p']) == len(d['p'])]
    if d['k'] == 'mc':
        name, a, k = ops.gen_mc_op(rng, d, seeded=seeded, pool=pool, others=others)
    else:
        name, a, k = ops.gen_hmm_op(rng, d, seeded=seeded, pool=hpool, others=others)
    return [j, name, a, k]


def elsewhere(fn):
    """fn in a secondary thread."""
    import threading
    out = []
    t = threading.Thread(target=lambda: out.append(fn()))
    t.start()
    t.join()
    return out[0]


def run(op, env):
    return ops.outcome(lambda: ops.call(op, env))


def show(op):
    return f'{op[1]}({ops.brief(op[2], 200)}{", " + ops.brief(op[3], 80) if op[3] else ""})' + (f' on model {op[0]}' if op[0] is not None else '')


def np_state():
    s = T.np.random.get_state()
    return (s[0], s[1].tobytes(), s[2], s[3], s[4])


def models_used(op):
    out = set()
    if op[0] is not None:
        out.add(op[0])

    def walk(a):
        if isinstance(a, dict):
            if '__model__' in a:
                out.add(a['__model__'])
            for v in a.values():
                walk(v)
        elif isinstance(a, list):
            for v in a:
                walk(v)
    walk(op[2])
    walk(op[3])
    return out


def definition_changed(obj, d):
    """The definition of a model compared with its descriptor, bit for bit."""
    if obj.p.tolist() != d['p'] or list(obj.states) != models.states_of(d) or obj.p.shape != (len(d['p']),) * 2:
        return True
    if d['k'] == 'hmm' and (obj.e.tolist() != d['e'] or list(obj.symbols) != models.symbols_of(d)):
        return True
    return False
