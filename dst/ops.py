"""The public operations of the library as data: generation, decoding of arguments, execution, canonical results."""

import math

from . import models
from .target import T

MC_PROPS = ['absorbing_states', 'accessibility_matrix', 'adjacency_matrix', 'communicating_classes', 'communication_matrix', 'cyclic_classes',
            'cyclic_states', 'density', 'determinant', 'entropy_rate', 'entropy_rate_normalized', 'fundamental_matrix', 'implied_timescales',
            'incidence_matrix', 'is_absorbing', 'is_aperiodic', 'is_canonical', 'is_doubly_stochastic', 'is_ergodic', 'is_irreducible', 'is_regular',
            'is_reversible', 'is_stochastically_monotone', 'is_symmetric', 'kemeny_constant', 'lumping_partitions', 'mixing_rate', 'period', 'periods',
            'pi', 'rank', 'recurrent_classes', 'recurrent_states', 'relaxation_rate', 'spectral_gap', 'topological_entropy', 'transient_classes',
            'transient_states']
MC_PLAIN = ['n', 'p', 'size', 'states']
MC_ALIAS_PROPS = ['stationary_distributions', 'steady_states', 'is_monotone']
HMM_CACHED = ['is_ergodic', 'is_regular']
HMM_PLAIN = ['e', 'k', 'n', 'p', 'size', 'states', 'symbols']

MC_ALIASES = {'committor_probabilities': ['crp'], 'conditional_probabilities': ['conditional_distribution', 'cd', 'cp'], 'expected_rewards': ['er'],
              'expected_transitions': ['et'], 'first_passage_probabilities': ['fpp'], 'first_passage_reward': ['fpr'], 'hitting_probabilities': ['hp'],
              'hitting_times': ['ht'], 'mean_absorption_times': ['mat'], 'mean_first_passage_times_between': ['mfpt_between', 'mfptb'],
              'mean_first_passage_times_to': ['mfpt_to', 'mfptt'], 'mean_number_visits': ['mnv'], 'mean_recurrence_times': ['mrt'], 'mixing_time': ['mt'],
              'time_correlations': ['tc'], 'time_relaxations': ['tr'], 'to_bounded_chain': ['to_bounded'], 'to_canonical_form': ['to_canonical'],
              'to_lazy_chain': ['to_lazy'], 'to_nth_order': ['to_nth'], 'to_subchain': ['to_sub']}


# --- arguments ---------------------------------------------------------------------------------------------------

def nd(x):
    return {'__nd__': x}


def _state(rng, labels):
    i = rng.randrange(len(labels))
    return i if rng.random() < 0.5 else labels[i]


def _substates(rng, labels, lo=1, hi=None, allow_single=True):
    hi = hi or len(labels)
    k = rng.randint(lo, max(lo, hi))
    idx = rng.sample(range(len(labels)), min(k, len(labels)))
    if allow_single and len(idx) == 1 and rng.random() < 0.5:
        return _state(rng, labels) if rng.random() < 0.5 else idx[0]
    if rng.random() < 0.5:
        return [labels[i] for i in idx]
    return idx


def _dist(rng, n):
    r = models._row_units(rng, n, sorted(rng.sample(range(n), rng.randint(1, n))))
    v = [x / models.D for x in r]
    return nd(v) if rng.random() < 0.6 else v


def _status(rng, labels):
    x = rng.random()
    if x < 0.3:
        return None
    if x < 0.6:
        return _state(rng, labels)
    return _dist(rng, len(labels))


def _seq(rng, labels, lo=2, hi=12):
    n = rng.randint(lo, hi)
    idx = [rng.randrange(len(labels)) for _ in range(n)]
    return idx if rng.random() < 0.5 else [labels[i] for i in idx]


def _walk(rng, d, lo=2, hi=12, symbols=False):
    """A sequence the model can produce."""
    p = d['p']
    s = rng.randrange(len(p))
    out, syms = [s], []
    for _ in range(rng.randint(lo, hi) - 1):
        s = rng.choices(range(len(p)), [max(x, 0) for x in p[s]])[0]
        out.append(s)
    if not symbols:
        return out
    e = d['e']
    for s in out:
        syms.append(rng.choices(range(len(e[0])), e[s])[0])
    return out, syms


def _rewards(rng, n):
    v = [round(rng.uniform(0, 5), 3) if rng.random() < 0.8 else 0.0 for _ in range(n)]
    return nd(v) if rng.random() < 0.6 else v


def _seed(rng):
    return rng.choice([0, 1, 7, rng.randint(0, 2**31 - 1), rng.randint(0, 1000)])


def lumpings(p):
    """The divisions into blocks of successive states for which the chain is lumpable."""
    n = len(p)
    out = []
    if n > 8:
        return out
    for cuts in range(1, 2 ** (n - 1) - 1):
        blocks, cur = [], [0]
        for i in range(1, n):
            if cuts >> (i - 1) & 1:
                blocks.append(cur)
                cur = []
            cur.append(i)
        blocks.append(cur)
        if all(abs(sum(p[a[0]][j] for j in b) - sum(p[i][j] for j in b)) < 1e-12 for a in blocks for i in a[1:] for b in blocks):
            out.append(blocks)
    return out


def _times(rng, n):
    most = n if rng.random() < 0.7 else n + 12          # (beyond the number of states they are answered in another way)
    return rng.randint(0, most) if rng.random() < 0.5 else sorted(rng.sample(range(0, most + 1), rng.randint(1, n)))


def gen_mc_op(rng, d, seeded=True, pool=None, others=()):
    """-> (name, args, kwargs); others: indices of other chains of the same size (for merge_with)."""
    lab = models.states_of(d)
    n = len(lab)
    name = rng.choice(pool or MC_METHODS)
    kw = {}
    if name == 'prop':
        return ('get', [rng.choice(MC_PROPS)], {})
    if name == 'plain':
        return ('get', [rng.choice(MC_PLAIN + MC_ALIAS_PROPS)], {})
    if name in ('absorption_probabilities', 'mean_absorption_times', 'mean_number_visits', 'mean_recurrence_times', 'to_canonical_form', 'to_dictionary', 'to_graph', 'to_matrix'):
        args = []
    elif name == 'aggregate':
        args = [rng.randint(2, max(2, n - 1)), rng.choice(['spectral-bottom-up', 'spectral-bottom-up', 'spectral-top-down'])]
    elif name in ('are_communicating', 'is_accessible', 'transition_probability'):
        args = [_state(rng, lab), _state(rng, lab)]
    elif name in ('is_absorbing_state', 'is_cyclic_state', 'is_recurrent_state', 'is_transient_state', 'conditional_probabilities', 'sensitivity'):
        args = [_state(rng, lab)]
    elif name == 'closest_reversible':
        args = [None if rng.random() < 0.6 else _dist(rng, n), rng.random() < 0.4]
    elif name == 'committor_probabilities':
        idx = rng.sample(range(n), 2)
        rest = [i for i in range(n) if i not in idx]
        a, b = [idx[0]], [idx[1]]
        for i in rest:
            x = rng.random()
            if x < 0.25:
                a.append(i)
            elif x < 0.5:
                b.append(i)
        args = [rng.choice(['backward', 'forward']), a if rng.random() < 0.5 else [lab[i] for i in a], b if rng.random() < 0.5 else [lab[i] for i in b]]
    elif name == 'expected_rewards':
        args = [rng.randint(1, 12), _rewards(rng, n)]
    elif name == 'expected_transitions':
        args = [rng.randint(1, n if rng.random() < 0.8 else 20), None if rng.random() < 0.4 else _dist(rng, n)]
    elif name == 'first_passage_probabilities':
        args = [rng.randint(1, 8), _state(rng, lab), None if rng.random() < 0.4 else _substates(rng, lab)]
    elif name == 'first_passage_reward':
        i = rng.randrange(n)
        others_ = [x for x in range(n) if x != i]
        t = rng.sample(others_, rng.randint(1, max(1, len(others_) - 1)))
        args = [rng.randint(1, 8), i, t, _rewards(rng, n)]
    elif name in ('hitting_probabilities', 'hitting_times', 'mean_first_passage_times_to'):
        args = [None if rng.random() < 0.3 else _substates(rng, lab)]
    elif name == 'lump' and (good := lumpings(d['p'])) and rng.random() < 0.8:
        part = rng.choice(good)
        args = [part if rng.random() < 0.5 else [[lab[i] for i in b] for b in part]]
    elif name == 'lump':
        idx = list(range(n))
        rng.shuffle(idx)
        k = rng.randint(2, max(2, n - 1))
        parts = [[] for _ in range(k)]
        for j, i in enumerate(idx):
            parts[j if j < k else rng.randrange(k)].append(i)
        args = [parts]
    elif name == 'mean_first_passage_times_between':
        idx = list(range(n))
        rng.shuffle(idx)
        a = rng.randint(1, n - 1)
        b = rng.randint(1, n - a)
        args = [idx[:a], idx[a:a + b]]
    elif name == 'merge_with':
        if not others:
            return ('get', ['p'], {})
        args = [{'__model__': rng.choice(list(others))}, round(rng.uniform(0.05, 0.95), 2)]
    elif name == 'mixing_time':
        args = [None if rng.random() < 0.5 else _dist(rng, n), rng.randint(1, 3), rng.choice(['natural', 'traditional'])]
    elif name == 'next':
        args, kw = [_state(rng, lab), rng.random() < 0.5], {'seed': _seed(rng) if seeded else None}
    elif name == 'predict':
        args = [rng.randint(1, 8), _state(rng, lab), rng.random() < 0.5]
    elif name == 'redistribute':
        args = [rng.randint(1, 8), _status(rng, lab), rng.random() < 0.5]
    elif name == 'sequence_probability':
        args = [_seq(rng, lab) if rng.random() < 0.4 else _walk(rng, d)]
    elif name == 'simulate':
        args = [rng.randint(2, 15), None if rng.random() < 0.4 else _state(rng, lab), None if rng.random() < 0.7 else _state(rng, lab), rng.random() < 0.5]
        kw = {'seed': _seed(rng) if seeded else None}
    elif name == 'time_correlations':
        tp = _times(rng, n)
        args = [_seq(rng, lab), None if rng.random() < 0.5 else _seq(rng, lab), tp]
    elif name == 'time_relaxations':
        tp = _times(rng, n)
        args = [_seq(rng, lab), None if rng.random() < 0.5 else _dist(rng, n), tp]
    elif name == 'to_bounded_chain':
        args = [rng.choice(['absorbing', 'reflecting', 0.25, 0.5, 0, 1])]
    elif name == 'to_lazy_chain':
        args = [rng.choice([0.5, 0.25, 1.0]) if rng.random() < 0.5 else nd([round(rng.uniform(0.1, 0.9), 2) for _ in range(n)])]
    elif name == 'to_nth_order':
        args = [rng.randint(2, 5)]
    elif name == 'to_subchain':
        args = [_substates(rng, lab)]
    elif name in ('str', 'repr', 'hash'):
        args = []
    elif name == 'eq':
        args = [{'__model__': rng.choice(list(others))}] if others else [None]
    else:
        raise ValueError(name)
    if name in MC_ALIASES and rng.random() < 0.2:
        name = rng.choice(MC_ALIASES[name])
    return (name, args, kw)


MC_METHODS = ['prop', 'prop', 'prop', 'prop', 'prop', 'plain', 'absorption_probabilities', 'mean_absorption_times', 'mean_number_visits', 'mean_recurrence_times',
              'to_canonical_form', 'to_dictionary', 'to_graph', 'to_matrix', 'aggregate', 'are_communicating', 'is_accessible', 'transition_probability',
              'is_absorbing_state', 'is_cyclic_state', 'is_recurrent_state', 'is_transient_state', 'conditional_probabilities', 'sensitivity',
              'closest_reversible', 'committor_probabilities', 'expected_rewards', 'expected_transitions', 'first_passage_probabilities',
              'first_passage_reward', 'hitting_probabilities', 'hitting_times', 'mean_first_passage_times_to', 'lump', 'mean_first_passage_times_between',
              'merge_with', 'mixing_time', 'next', 'predict', 'redistribute', 'sequence_probability', 'simulate', 'simulate', 'time_correlations',
              'time_relaxations', 'to_bounded_chain', 'to_lazy_chain', 'to_nth_order', 'to_subchain', 'str', 'eq', 'hash']

HMM_METHODS = ['plain', 'cached', 'decode', 'decode', 'emission_probability', 'next', 'predict', 'predict', 'restrict', 'simulate', 'simulate', 'to_dictionary',
               'to_graph', 'to_matrices', 'transition_probability', 'str', 'hash', 'eq']


def gen_hmm_op(rng, d, seeded=True, pool=None, others=()):
    lab, sym = models.states_of(d), models.symbols_of(d)
    name = rng.choice(pool or HMM_METHODS)
    kw = {}
    if name == 'plain':
        return ('get', [rng.choice(HMM_PLAIN)], {})
    if name == 'cached':
        return ('get', [rng.choice(HMM_CACHED)], {})
    if name in ('to_dictionary', 'to_graph', 'to_matrices', 'str', 'hash'):
        args = []
    elif name == 'decode':
        args = [_walk(rng, d, symbols=True)[1] if rng.random() < 0.6 else _seq(rng, sym), _status(rng, lab), rng.random() < 0.6]
    elif name == 'emission_probability':
        args = [_state(rng, sym), _state(rng, lab)]
    elif name == 'transition_probability':
        args = [_state(rng, lab), _state(rng, lab)]
    elif name == 'next':
        args, kw = [_state(rng, lab), rng.choice(['both', 'state', 'symbol']), rng.random() < 0.5], {'seed': _seed(rng) if seeded else None}
    elif name == 'predict':
        args = [rng.choice(['map', 'mle', 'viterbi']), _walk(rng, d, symbols=True)[1] if rng.random() < 0.6 else _seq(rng, sym), _status(rng, lab), rng.random() < 0.5]
    elif name == 'restrict':
        x = rng.random()
        args = [None if x < 0.3 else _substates(rng, lab, lo=2, allow_single=False), None if x > 0.7 else _substates(rng, sym, lo=2, allow_single=False)]
    elif name == 'simulate':
        args = [rng.randint(2, 12), None if rng.random() < 0.4 else _state(rng, lab), None if rng.random() < 0.7 else _state(rng, lab), None if rng.random() < 0.7 else _state(rng, sym), rng.random() < 0.5]
        kw = {'seed': _seed(rng) if seeded else None}
    elif name == 'eq':
        args = [{'__model__': rng.choice(list(others))}] if others else [None]
    else:
        raise ValueError(name)
    return (name, args, kw)


RANDOM_DISTS = [('uniform', {}), ('exponential', {}), ('normal', {}), ('beta', {'a': 1.0, 'b': 2.0}), ('poisson', {'lam': 2.0}), ('gamma', {'shape': 0.7}),
                ('lognormal', {'sigma': 1.0}), ('binomial', {'n': 4, 'p': 0.3}), ('triangular', {'left': -1.0, 'mode': 0.5, 'right': 3.0}), ('geometric', {'p': 0.4})]

STATIC = ['random', 'random_distribution', 'dirichlet_process', 'approximation', 'birth_death', 'fit_sequence', 'fit_function', 'from_dictionary', 'from_matrix',
          'from_graph', 'gamblers_ruin', 'identity', 'population_genetics_model', 'urn_model', 'hmm_random', 'hmm_estimate', 'hmm_fit', 'hmm_from_matrices',
          'hmm_from_dictionary', 'hmm_from_graph', 'ctor', 'hmm_ctor', 'assess_first_order', 'assess_homogeneity', 'assess_markov_property', 'assess_stationarity', 'assess_theoretical_compatibility']


def _mask(rng, n, m):
    nan = {'__nan__': 1}
    rows = []
    for _ in range(n):
        row, left = [nan] * m, 1.0
        for j in rng.sample(range(m), rng.randint(0, m - 1)):
            v = rng.choice([0.0, 0.0, 0.25, 0.125, 0.5])
            if v <= left:
                row[j] = v
                left -= v
        rows.append(row)
    return rows


def gen_static_op(rng, seeded=True, pool=None):
    name = rng.choice(pool or STATIC)
    seed = _seed(rng) if seeded else None
    if name == 'random':
        n = rng.randint(2, 6)
        m = None if rng.random() < 0.6 else _mask(rng, n, n)
        z = 0 if m is not None else rng.randint(0, n * (n - 1) // 2)
        return ('MC.random', [n, models.gen_labels(rng, n), z, m if m is None else nd(m), seed], {})
    if name == 'random_distribution':
        n = rng.randint(2, 5)
        f, kw = rng.choice(RANDOM_DISTS)
        return ('MC.random_distribution', [n, f, models.gen_labels(rng, n), seed], dict(kw))
    if name == 'dirichlet_process':
        n = rng.randint(2, 6)
        return ('MC.dirichlet_process', [n, rng.randint(1, n), models.gen_labels(rng, n), rng.choice([None, 0.5, 2.0]), rng.random() < 0.5, seed], {})
    if name == 'approximation':
        t = rng.choice(['adda-cooper', 'rouwenhorst', 'tauchen', 'tauchen-hussey'])
        k = None if t in ('adda-cooper', 'rouwenhorst') or rng.random() < 0.4 else rng.choice([1.0, 2.0])
        n = rng.randint(2, 6)
        return ('MC.approximation', [n, t, round(rng.uniform(-1, 1), 2), round(rng.uniform(0.1, 1.0), 2), round(rng.uniform(-0.9, 0.9), 2), models.gen_labels(rng, n), k], {})
    if name == 'birth_death':
        n = rng.randint(2, 6)
        p = [0.0 if i == n - 1 else rng.choice([0.25, 0.5, 0.125]) for i in range(n)]
        q = [0.0 if i == 0 else rng.choice([0.25, 0.5, 0.125]) for i in range(n)]
        return ('MC.birth_death', [nd(p), nd(q), models.gen_labels(rng, n)], {})
    if name == 'fit_sequence':
        lab = models.gen_labels(rng, rng.randint(2, 5), 'words')
        t = rng.choice(['map', 'mle'])
        prm = None if rng.random() < 0.5 else (rng.random() < 0.5 if t == 'mle' else nd([[float(rng.randint(1, 4)) for _ in lab] for _ in lab]))
        return ('MC.fit_sequence', [t, lab, _seq(rng, lab, 2, 25), prm], {})
    if name == 'fit_function':
        n = rng.choice([3, 5])
        return ('MC.fit_function', [rng.choice(['gauss-chebyshev', 'gauss-legendre', 'niederreiter', 'newton-cotes', 'simpson-rule', 'trapezoid-rule']),
                                    models.gen_labels(rng, n, 'words'), {'__f__': rng.choice(['gauss', 'exp', 'lin'])}, None if rng.random() < 0.5 else {'__t__': [0.5, 2.5]}], {})
    if name in ('from_dictionary', 'from_matrix', 'from_graph', 'ctor'):
        d = models.gen_mc(rng, exact=False, labels=rng.choice(['words', 'uni', 'revnum']))
        if name == 'ctor':
            return ('MC', [nd(d['p']), d['states']], {})
        if name == 'from_matrix':
            return ('MC.from_matrix', [nd([[round(x * 7, 3) for x in r] for r in d['p']]), d['states']], {})
        if name == 'from_dictionary':
            return ('MC.from_dictionary', [{'__d__': [[[a, b], d['p'][i][j]] for i, a in enumerate(d['states']) for j, b in enumerate(d['states'])]}], {})
        return ('MC.from_graph', [{'__g__': [d['states'], [[d['states'][i], d['states'][j], d['p'][i][j]] for i in range(len(d['p'])) for j in range(len(d['p'])) if d['p'][i][j] > 0]]}], {})
    if name == 'gamblers_ruin':
        n = rng.randint(3, 7)
        return ('MC.gamblers_ruin', [n, rng.choice([0.25, 0.5, 0.6]), models.gen_labels(rng, n)], {})
    if name == 'identity':
        n = rng.randint(2, 5)
        return ('MC.identity', [n, models.gen_labels(rng, n)], {})
    if name == 'population_genetics_model':
        n = rng.randint(2, 4)
        return ('MC.population_genetics_model', [rng.choice(['moran', 'wright-fisher']), n, rng.choice([0.0, 0.1]), 0.01, 0.02], {})
    if name == 'urn_model':
        return ('MC.urn_model', [rng.choice(['bernoulli-laplace', 'ehrenfest']), rng.randint(1, 3)], {})
    if name == 'hmm_random':
        n, k = rng.randint(2, 4), rng.randint(2, 4)
        pm = None if rng.random() < 0.6 else nd(_mask(rng, n, n))
        em = None if rng.random() < 0.6 else nd(_mask(rng, n, k))
        return ('HMM.random', [n, k, None, rng.randint(0, 2) if pm is None else 0, pm, None, rng.randint(0, 2) if em is None else 0, em, seed], {})
    if name in ('hmm_estimate', 'hmm_fit', 'hmm_from_matrices', 'hmm_from_dictionary', 'hmm_from_graph', 'hmm_ctor'):
        d = models.gen_hmm(rng, exact=False, labels=rng.choice(['words', 'uni']), nmax=3)
        st, sy, n, k = d['states'], d['symbols'], len(d['p']), len(d['e'][0])
        if name == 'hmm_ctor':
            return ('HMM', [nd(d['p']), nd(d['e']), st, sy], {})
        if name == 'hmm_from_matrices':
            return ('HMM.from_matrices', [nd(d['p']), nd(d['e']), st, sy], {})
        if name == 'hmm_from_dictionary':
            items = [[['P', st[i], st[j]], d['p'][i][j]] for i in range(n) for j in range(n)] + [[['E', st[i], sy[j]], d['e'][i][j]] for i in range(n) for j in range(k)]
            return ('HMM.from_dictionary', [{'__d__': items}], {})
        if name == 'hmm_from_graph':
            return ('HMM.from_graph', [{'__hg__': [d['p'], d['e'], st, sy]}], {})
        if name == 'hmm_estimate':
            a, b = _walk(rng, d, 3, 20, symbols=True)
            return ('HMM.estimate', [st, sy, a, b], {})
        pg, eg = [[1 / n] * n for _ in range(n)], models.gen_hmm(rng, n=n, k=k, style='dense')['e']
        eg = [[(x + 0.05) / (1 + 0.05 * k) for x in r] for r in eg]
        seqs = [_walk(rng, d, 3, 8, symbols=True)[1] for _ in range(2)]
        return ('HMM.fit', [rng.choice(['baum-welch', 'map', 'mle', 'viterbi']), st, sy, nd(pg), nd(eg), seqs], {})
    lab = models.gen_labels(rng, rng.randint(2, 3), 'words')
    if name == 'assess_homogeneity':
        return ('fn.assess_homogeneity', [lab, [_seq(rng, lab, 10, 25) for _ in range(2)]], {})
    if name == 'assess_theoretical_compatibility':
        d = models.gen_mc(rng, n=len(lab), style='dense')
        d['states'] = lab
        return ('fn.assess_theoretical_compatibility', [{'__mc__': d}, _seq(rng, lab, 10, 30)], {})
    if name == 'assess_stationarity':
        return ('fn.assess_stationarity', [lab, _seq(rng, lab, 12, 30), rng.randint(1, 2)], {})
    return ('fn.' + name, [lab, _seq(rng, lab, 10, 30)], {})


_FUNCS = {
    'gauss': lambda x_index, x_value, y_index, y_value: math.exp(-(x_value - y_value) ** 2),
    'exp': lambda x_index, x_value, y_index, y_value: math.exp(-x_value * y_value),
    'lin': lambda x_index, x_value, y_index, y_value: 1.0 + x_value + 2.0 * y_value,
}


def dec(a, env=None):
    np = T.np
    if isinstance(a, dict):
        if '__nd__' in a:
            v = dec(a['__nd__'], env)
            return np.array(v, dtype=float)
        if '__ndi__' in a:
            return np.array(a['__ndi__'])
        if '__t__' in a:
            return tuple(dec(x, env) for x in a['__t__'])
        if '__nan__' in a:
            return float('nan')
        if '__inf__' in a:
            return float('inf')
        if '__model__' in a:
            return env[a['__model__']]
        if '__mc__' in a:
            return models.build(a['__mc__'])
        if '__f__' in a:
            return _FUNCS[a['__f__']]
        if '__d__' in a:
            return {tuple(k): v for k, v in a['__d__']}
        if '__g__' in a:
            import networkx as nx
            g = nx.DiGraph()
            g.add_nodes_from(a['__g__'][0])
            for u, v, w in a['__g__'][1]:
                g.add_edge(u, v, weight=w)
            return g
        if '__hg__' in a:
            import networkx as nx
            p, e, st, sy = a['__hg__']
            g = nx.DiGraph()
            g.add_nodes_from(st, layer=1)
            g.add_nodes_from(sy, layer=0)
            for i, u in enumerate(st):
                for j, v in enumerate(st):
                    if p[i][j] > 0:
                        g.add_edge(u, v, type='P', weight=p[i][j])
                for j, v in enumerate(sy):
                    if e[i][j] > 0:
                        g.add_edge(u, v, type='E', weight=e[i][j])
            return g
        if '__obj__' in a:
            return {'object': object(), 'set': {1, 2}, 'bytes': b'x', 'complex': 1j, 'lambda': (lambda: None), 'class': int, 'gen': (i for i in ()), 'ell': ...}[a['__obj__']]
        return {k: dec(v, env) for k, v in a.items()}
    if isinstance(a, list):
        return [dec(x, env) for x in a]
    return a


def call(op, env, args=None, kwargs=None):
    """op: [model index or None, name, args, kwargs] -> the raw result (raises what the call raises)."""
    m, name, a, k = op
    if args is None:
        args, kwargs = dec(a, env), dec(k, env)
    if m is None:
        if name == 'MC':
            return T.MC(*args, **kwargs)
        if name == 'HMM':
            return T.HMM(*args, **kwargs)
        cls, f = name.split('.', 1)
        return getattr({'MC': T.MC, 'HMM': T.HMM, 'fn': T.pydtmc}[cls], f)(*args, **kwargs)
    obj = env[m]
    if name == 'get':
        return getattr(obj, args[0])
    if name == 'str':
        return str(obj)
    if name == 'repr':
        return repr(obj)
    if name == 'hash':
        return hash(obj)
    if name == 'eq':
        return obj == args[0]
    return getattr(obj, name)(*args, **kwargs)


# --- canonical results -------------------------------------------------------------------------------------------

def canon(x, depth=0):
    np = T.np
    if depth > 12:
        return ['deep']
    if x is None or isinstance(x, (bool, str)):
        return x
    if isinstance(x, (np.bool_,)):
        return bool(x)
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, (float, np.floating)):
        x = float(x)
        return {'f': 'nan'} if x != x else ({'f': 'inf' if x > 0 else '-inf'} if x in (math.inf, -math.inf) else {'f': x})
    if isinstance(x, (complex, np.complexfloating)):
        return ['complex', canon(x.real), canon(x.imag)]
    if isinstance(x, np.ndarray):
        return ['nd', list(x.shape), x.dtype.kind, [canon(v) for v in x.ravel().tolist()]]
    if isinstance(x, T.MC):
        return ['MC', list(x.states), canon(x.p)]
    if isinstance(x, T.HMM):
        return ['HMM', list(x.states), list(x.symbols), canon(x.p), canon(x.e)]
    if isinstance(x, tuple):
        return ['t'] + [canon(v, depth + 1) for v in x]
    if isinstance(x, list):
        return ['l'] + [canon(v, depth + 1) for v in x]
    if isinstance(x, (set, frozenset)):
        return ['s'] + sorted((canon(v, depth + 1) for v in x), key=repr)
    if isinstance(x, dict):
        return ['d'] + [[canon(k, depth + 1), canon(v, depth + 1)] for k, v in x.items()]
    if hasattr(x, 'nodes') and hasattr(x, 'edges'):
        return ['G', [[canon(n), canon(dict(a))] for n, a in x.nodes(data=True)], [[canon(u), canon(v), canon(dict(a))] for u, v, a in x.edges(data=True)]]
    return ['obj', type(x).__name__]


def outcome(fn):
    """-> ['ok', canonical result] or ['exc', type, message]"""
    try:
        return ['ok', canon(fn())]
    except Exception as ex:  # noqa
        return ['exc', type(ex).__name__, str(ex)]


def same(a, b, rtol=1e-6, atol=1e-9):
    if isinstance(a, dict) and isinstance(b, dict):
        x, y = a.get('f'), b.get('f')
        if isinstance(x, str) or isinstance(y, str):
            return x == y
        return abs(x - y) <= atol + rtol * max(abs(x), abs(y))
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y, rtol, atol) for x, y in zip(a, b))
    return type(a) is type(b) and a == b


def brief(o, limit=300):
    s = repr(o)
    return s if len(s) <= limit else s[:limit] + '...'
