import inspect
import os
import sys
import threading

from .. import core, models, ops
from .base import Base, T

NAN, INF = {'__nan__': 1}, {'__inf__': 1}
ALIENS = [{'__obj__': k} for k in ('object', 'set', 'bytes', 'complex', 'class', 'ell', 'gen')] + [{}, {'a': 1}]


def other(kind):
    """Things of a wrong type for (nearly) every parameter."""
    return [a for a in ALIENS if kind not in ('dict',) or a != {'a': 1}]


def bad_int(lo=None, hi=None):
    out = [2.5, '3', True, [], [2], NAN, {'__nd__': [2]}, '']
    if lo is not None:
        out += [lo - 1, -10 ** 9]
    if hi is not None:
        out += [hi + 1, 10 ** 9]
    return out


def bad_float(lo=None, hi=None):
    out = ['0.5', True, [], [0.5], NAN, INF, {'__nd__': [0.5]}, '']
    if lo is not None:
        out += [lo - 0.125, -1e9]
    if hi is not None:
        out += [hi + 0.125, 1e9]
    return out


BOOL = [1, 0, 'True', [], [True], 1.0, {'__nd__': [1]}, '']
SEED = [-1, 1.5, 'a', [1], True, 2 ** 32, '']
PATH = [5, '', ' ', '@/model', '@/model.zip', '@/nowhere/model.json', '@/.json', '@/x\0.csv', '@/model.csv.gz', [], True]


def bad_state(lab):
    return [-1, len(lab), 10 ** 6, 1.5, '', '  ', 'no such label', lab[0] + ' ', True, [0], [lab[0]], {'__nd__': [0]}]


def bad_sub(lab):
    n = len(lab)
    return [[], [-1], [n], [0, 0], [lab[0], lab[0]], ['no such label'], [0, lab[-1]], [1.5], [True], [None], {'__t__': [0]}, {'__nd__': [0]}, -1, n, 1.5, '', 'no such label', [[0]]]


def bad_vector(n, low=True, stochastic=True):
    v = [1.0 / n] * n
    one = [1.0] + [0.0] * (n - 1)
    out = [v[:-1], v + [0.0], [], [-0.5, 1.5] + [0.0] * (n - 2), [NAN] + one[1:], [INF] + one[1:], ['x'] * n, {'__nd__': [v, v]}, 'abc', True, [[x] for x in one], [None] * n, {'__nda__': [[0.5, 0.5]] + [[x, 0.0] for x in one[1:]]}]
    if n > 2:
        out += [[-0.5, 0.75, 0.75] + [0.0] * (n - 3), [0.5, 0.625, -0.125] + [0.0] * (n - 3)]
    if stochastic:
        out += [[0.9] + [0.0] * (n - 1), [0.0] * n, {'__nd__': [1.0] * n}]
    return out


def bad_rewards(n):
    v = [1.0] * n
    return [v[:-1], v + [1.0], [], [NAN] + v[1:], {'__nd__': [INF] + v[1:]}, ['x'] * n, {'__nd__': [v, v]}, 'abc', 3, 1.5, True, {'__nda__': [[1.0, 2.0]] * n}]


def bad_seq(lab):
    n = len(lab)
    return [[], [0], [lab[0]], ['no such label', lab[0]], [-1, 0], [0, n], [0.5, 1.0], [0, lab[1]], {'__nd__': [0.0, 1.0]}, {'__t__': [0, 1]}, None, lab[0], 5, [None, None], [True, False], [[0], [1]]]


def bad_matrix(n, cols=None, stochastic=True):
    m = cols or n
    ok = [[1.0] + [0.0] * (m - 1) for _ in range(n)]
    out = [ok[:-1], ok + [ok[0]], [r + [0.0] for r in ok] if cols is None else [r[:1] for r in ok], [[-0.5, 1.5] + [0.0] * (m - 2)] + ok[1:], [[NAN] + ok[0][1:]] + ok[1:], [[INF] + ok[0][1:]] + ok[1:], [['1'] * m] * n, ok[0], [ok],
           [ok[0]] + [ok[1][:-1]] + ok[2:], [], 'abc', 5, None, True, [], {'__nda__': [[[x, 0.5] for x in r] for r in ok]}, [[None] * m] * n, {'__nd__': []}]
    if stochastic:
        out += [[[0.5] + [0.0] * (m - 1)] + ok[1:], [[1.0, 0.5] + [0.0] * (m - 2)] + ok[1:], [[0.0] * m] + ok[1:], [[1.0 + 1e-3] + [0.0] * (m - 1)] + ok[1:], [[1.5, -0.5] + [0.0] * (m - 2)] + ok[1:], [[1.0] * m] * n]
    return out


def bad_mask(n, m):
    ok = [[NAN] * m for _ in range(n)]
    return [ok[:-1], ok + [ok[0]], [r + [NAN] for r in ok], [[-0.5] + ok[0][1:]] + ok[1:], [[1.5] + ok[0][1:]] + ok[1:], [[INF] + ok[0][1:]] + ok[1:], [[0.75, 0.75] + ok[0][2:]] + ok[1:], ok[0], 'abc', 5, True, [['x'] * m] * n,
            {'__nda__': [[[0.0, 0.5]] * m] * n}]


def bad_labels(n, required=False):
    ok = [f's{i}' for i in range(n)]
    out = [ok[:-1], ok + ['t'], ok[:-1] + ok[:1], ok[:-1] + [''], ok[:-1] + ['  '], ok[:-1] + [5], ok[:-1] + [None], {'__t__': ok}, 'abc', 5, [], ok[:-1] + [[]], {'__nds__': ok}, True]
    if required:
        out = [x for x in out if x not in (ok[:-1], ok + ['t'])] + [None, ['a']]
    return out


def bad_partitions(lab):
    n = len(lab)
    return [[], [list(range(n))], [[i] for i in range(n)], [[0], [1]] if n > 2 else [[0]], [[0, 0], list(range(1, n))], [[-1], list(range(n))], [[0], list(range(1, n + 1))], [['no such label'], lab[1:]], [0, 1], 'abc', 5, None, [[0], lab[1:]],
            {'__t__': [[0], list(range(1, n))]}, [[1.5], list(range(1, n))]]


# method -> parameter -> the invalid values; l: labels of the states, y: labels of the symbols, a: the valid arguments by name
P = {
    'are_communicating': {'state1': lambda l, y, a: bad_state(l) + [None], 'state2': lambda l, y, a: bad_state(l) + [None]},
    'aggregate': {'s': lambda l, y, a: bad_int(2, len(l) - 1) + [None], 'method': 'enum'},
    'closest_reversible': {'initial_distribution': lambda l, y, a: bad_vector(len(l)), 'weighted': lambda l, y, a: BOOL},
    'committor_probabilities': {'committor_type': 'enum', 'states1': 'sub', 'states2': 'sub'},
    'expected_rewards': {'steps': 'steps', 'rewards': lambda l, y, a: bad_rewards(len(l)) + [None]},
    'expected_transitions': {'steps': 'steps', 'initial_distribution': lambda l, y, a: bad_vector(len(l))},
    'first_passage_probabilities': {'steps': 'steps', 'initial_state': 'state', 'first_passage_states': lambda l, y, a: bad_sub(l)},
    'first_passage_reward': {'steps': 'steps', 'initial_state': 'state', 'first_passage_states': 'sub', 'rewards': lambda l, y, a: bad_rewards(len(l)) + [None]},
    'hitting_probabilities': {'targets': lambda l, y, a: bad_sub(l)},
    'hitting_times': {'targets': lambda l, y, a: bad_sub(l)},
    'mean_first_passage_times_to': {'targets': lambda l, y, a: bad_sub(l)},
    'mean_first_passage_times_between': {'origins': 'sub', 'targets': 'sub'},
    'lump': {'partitions': lambda l, y, a: bad_partitions(l)},
    'merge_with': {'other': lambda l, y, a: [5, None, 'x', [], {'__mc__': {'k': 'mc', 'p': [[1.0 if i == j else 0.0 for j in range(len(l) + 1)] for i in range(len(l) + 1)], 'states': None}}, {'__hmm__': 1}], 'gamma': lambda l, y, a: bad_float(0.0, 1.0) + [None]},
    'mixing_time': {'initial_distribution': lambda l, y, a: bad_vector(len(l)), 'jump': 'steps', 'cutoff_type': 'enum'},
    'next': {'initial_state': 'state', 'output_index': lambda l, y, a: BOOL + [None], 'seed': lambda l, y, a: SEED, 'target': 'enum'},
    'predict': {'steps': 'steps', 'initial_state': 'state', 'output_indices': lambda l, y, a: BOOL + [None], 'prediction_type': 'enum', 'symbols': lambda l, y, a: bad_seq(y), 'initial_status': lambda l, y, a: bad_vector(len(l)) + [-1, len(l), 'no such label', 1.5]},
    'redistribute': {'steps': 'steps', 'initial_status': lambda l, y, a: bad_vector(len(l)) + [-1, len(l), 'no such label', 1.5], 'output_last': lambda l, y, a: BOOL + [None]},
    'sequence_probability': {'sequence': lambda l, y, a: bad_seq(l)},
    'simulate': {'steps': lambda l, y, a: bad_int(2) + [None], 'initial_state': lambda l, y, a: bad_state(l), 'final_state': lambda l, y, a: bad_state(l), 'final_symbol': lambda l, y, a: bad_state(y), 'output_indices': lambda l, y, a: BOOL + [None],
                 'seed': lambda l, y, a: SEED},
    'time_correlations': {'sequence1': lambda l, y, a: bad_seq(l), 'sequence2': lambda l, y, a: [x for x in bad_seq(l) if x is not None], 'time_points': 'times'},
    'time_relaxations': {'sequence': lambda l, y, a: bad_seq(l), 'initial_distribution': lambda l, y, a: bad_vector(len(l)), 'time_points': 'times'},
    'to_bounded_chain': {'boundary_condition': lambda l, y, a: ['nope', '', -0.25, 1.25, NAN, [], True, None, 'Absorbing', [0.5], 2]},
    'to_lazy_chain': {'inertial_weights': lambda l, y, a: bad_vector(len(l), stochastic=False) + [1.5, -0.25, NAN, None]},
    'to_nth_order': {'order': lambda l, y, a: bad_int(2) + [None]},
    'to_subchain': {'states': 'sub'},
    'transition_probability': {'state_target': 'state', 'state_origin': 'state'},
    'is_accessible': {'state_target': 'state', 'state_origin': 'state'},
    'emission_probability': {'symbol': lambda l, y, a: bad_state(y) + [None], 'state': 'state'},
    'decode': {'symbols': lambda l, y, a: bad_seq(y), 'initial_status': lambda l, y, a: bad_vector(len(l)) + [-1, len(l), 'no such label', 1.5], 'use_scaling': lambda l, y, a: BOOL + [None]},
    'restrict': {'states': lambda l, y, a: [x for x in bad_sub(l)] + [[0]], 'symbols': lambda l, y, a: [x for x in bad_sub(y)] + [[0]]},
    'to_file': {'file_path': lambda l, y, a: PATH + [None]},
    'MC.from_file': {'file_path': lambda l, y, a: PATH + [None, '@/missing.json', '@/empty.json', '@']},
    'HMM.from_file': {'file_path': lambda l, y, a: PATH + [None, '@/missing.json', '@/empty.json', '@']},
    'MC': {'p': lambda l, y, a: bad_matrix(len(a['states'] or [0, 0])), 'states': lambda l, y, a: bad_labels(len(a['p']['__nd__']))},
    'HMM': {'p': lambda l, y, a: bad_matrix(len(a['states'])), 'e': lambda l, y, a: bad_matrix(len(a['states']), len(a['symbols'])), 'states': lambda l, y, a: bad_labels(len(a['states'])) + [a['symbols'][:1] + a['states'][1:]], 'symbols': lambda l, y, a: bad_labels(len(a['symbols']))},
    'MC.random': {'size': lambda l, y, a: bad_int(2) + [None], 'states': lambda l, y, a: bad_labels(a['size']), 'zeros': lambda l, y, a: bad_int(0) + [None, 10 ** 4], 'mask': lambda l, y, a: bad_mask(a['size'], a['size']), 'seed': lambda l, y, a: SEED},
    'MC.random_distribution': {'size': lambda l, y, a: bad_int(2) + [None], 'f': lambda l, y, a: ['nope', '', 'seed', 'shuffle', '__init__', 5, None, [], {'__obj__': 'lambda'}], 'states': lambda l, y, a: bad_labels(a['size']), 'seed': lambda l, y, a: SEED,
                               'kwargs': lambda l, y, a: [{'no_such_parameter': 1.0}]},
    'MC.dirichlet_process': {'size': lambda l, y, a: bad_int(2) + [None], 'diffusion_factor': lambda l, y, a: bad_int(1, a['size']) + [None], 'states': lambda l, y, a: bad_labels(a['size']), 'diagonal_bias_factor': lambda l, y, a: bad_float(0.0),
                             'shift_concentration': lambda l, y, a: BOOL + [None], 'seed': lambda l, y, a: SEED},
    'MC.approximation': {'size': lambda l, y, a: bad_int(2) + [None], 'approximation_type': 'enum', 'alpha': lambda l, y, a: bad_float() + [None], 'sigma': lambda l, y, a: bad_float(0.0) + [None], 'rho': lambda l, y, a: bad_float(-1.0, 1.0) + [None],
                         'states': lambda l, y, a: bad_labels(a['size'])},
    'MC.birth_death': {'p': lambda l, y, a: bad_vector(len(a['p']['__nd__']), stochastic=False)[:-1] + [None, [0.5] * len(a['p']['__nd__'])], 'q': lambda l, y, a: bad_vector(len(a['p']['__nd__']), stochastic=False)[:-1] + [None, [0.5] * len(a['p']['__nd__'])],
                       'states': lambda l, y, a: bad_labels(len(a['p']['__nd__']))},
    'MC.fit_sequence': {'fitting_type': 'enum', 'possible_states': lambda l, y, a: bad_labels(len(a['possible_states']), True), 'sequence': lambda l, y, a: bad_seq(a['possible_states']), 'fitting_param': lambda l, y, a: (
        [x for x in bad_matrix(len(a['possible_states']), stochastic=False) if x is not None] + [[[0.5] * len(a['possible_states'])] * len(a['possible_states']), [[0.0] * len(a['possible_states'])] * len(a['possible_states'])]) if a['fitting_type'] == 'map' else BOOL},
    'MC.fit_function': {'quadrature_type': 'enum', 'possible_states': lambda l, y, a: bad_labels(3, True), 'f': lambda l, y, a: [None, 5, 'x', {'__obj__': 'lambda'}, {'__obj__': 'class'}, []],
                        'quadrature_interval': lambda l, y, a: [{'__t__': [1.0, 1.0]}, {'__t__': [2.0, 1.0]}, {'__t__': [1.0]}, {'__t__': [-1.0, 1.0]}, {'__t__': [0.0, INF]}, {'__t__': [NAN, 1.0]}, [0.0, 1.0], 5, 'x', {'__t__': ['a', 'b']}]},
    'MC.from_dictionary': {'d': 'mcdict'},
    'HMM.from_dictionary': {'d': 'hmmdict'},
    'MC.from_matrix': {'m': lambda l, y, a: bad_matrix(len(a['m']['__nd__']), stochastic=False)[2:], 'states': lambda l, y, a: bad_labels(len(a['m']['__nd__']))},
    'HMM.from_matrices': {'mp': lambda l, y, a: bad_matrix(len(a['states']), stochastic=False), 'me': lambda l, y, a: bad_matrix(len(a['states']), len(a['symbols']), stochastic=False), 'states': lambda l, y, a: bad_labels(len(a['states'])),
                          'symbols': lambda l, y, a: bad_labels(len(a['symbols'])) + [a['states'][:1] + a['symbols'][1:]]},
    'MC.from_graph': {'graph': 'mcgraph'},
    'HMM.from_graph': {'graph': 'hmmgraph'},
    'MC.gamblers_ruin': {'size': lambda l, y, a: bad_int(3) + [None], 'w': lambda l, y, a: bad_float(0.0, 1.0) + [None], 'states': lambda l, y, a: bad_labels(a['size'])},
    'MC.identity': {'size': lambda l, y, a: bad_int(2) + [None], 'states': lambda l, y, a: bad_labels(a['size'])},
    'MC.population_genetics_model': {'model': 'enum', 'n': lambda l, y, a: bad_int(2, 500) + [None], 's': lambda l, y, a: bad_float(-1.0) + [None], 'u': lambda l, y, a: bad_float(0.0, 1.0) + [None], 'v': lambda l, y, a: bad_float(0.0, 1.0) + [None]},
    'MC.urn_model': {'model': 'enum', 'n': lambda l, y, a: bad_int(1) + [None]},
    'HMM.random': {'n': lambda l, y, a: bad_int(2) + [None], 'k': lambda l, y, a: bad_int(2) + [None], 'states': lambda l, y, a: bad_labels(a['n']), 'symbols': lambda l, y, a: bad_labels(a['k']), 'p_zeros': lambda l, y, a: bad_int(0) + [None, 10 ** 4],
                   'e_zeros': lambda l, y, a: bad_int(0) + [None, 10 ** 4], 'p_mask': lambda l, y, a: bad_mask(a['n'], a['n']), 'e_mask': lambda l, y, a: bad_mask(a['n'], a['k']), 'seed': lambda l, y, a: SEED},
    'HMM.estimate': {'possible_states': lambda l, y, a: bad_labels(len(a['possible_states']), True) + [a['possible_symbols']], 'possible_symbols': lambda l, y, a: bad_labels(len(a['possible_symbols']), True),
                     'sequence_states': lambda l, y, a: bad_seq(a['possible_states']), 'sequence_symbols': lambda l, y, a: bad_seq(a['possible_symbols'])},
    'HMM.fit': {'fitting_type': 'enum', 'possible_states': lambda l, y, a: bad_labels(len(a['possible_states']), True), 'possible_symbols': lambda l, y, a: bad_labels(len(a['possible_symbols']), True),
                'p_guess': lambda l, y, a: bad_matrix(len(a['possible_states'])), 'e_guess': lambda l, y, a: bad_matrix(len(a['possible_states']), len(a['possible_symbols'])),
                'symbols': lambda l, y, a: bad_seq(a['possible_symbols'])[:9] + [[[0, 1], 5], [[0, 1], ['no such label', 0]], [[0, 1], []], None, 5, 'x'], 'initial_status': lambda l, y, a: bad_vector(len(a['possible_states'])) + [-1, 99, 'no such label', 1.5]},
    'fn.assess_first_order': {'possible_states': lambda l, y, a: bad_labels(3, True), 'sequence': lambda l, y, a: bad_seq(a['possible_states']), 'significance': lambda l, y, a: bad_float(0.0, 0.2) + [None, 0.0]},
    'fn.assess_markov_property': {'possible_states': lambda l, y, a: bad_labels(3, True), 'sequence': lambda l, y, a: bad_seq(a['possible_states']), 'significance': lambda l, y, a: bad_float(0.0, 0.2) + [None, 0.0]},
    'fn.assess_stationarity': {'possible_states': lambda l, y, a: bad_labels(3, True), 'sequence': lambda l, y, a: bad_seq(a['possible_states']), 'blocks': lambda l, y, a: bad_int(1) + [None], 'significance': lambda l, y, a: bad_float(0.0, 0.2) + [None, 0.0]},
    'fn.assess_homogeneity': {'possible_states': lambda l, y, a: bad_labels(3, True), 'sequences': lambda l, y, a: [[], [[0, 1]], [[0, 1], 5], [[0, 1], [9, 9]], 'x', None, 5], 'significance': lambda l, y, a: bad_float(0.0, 0.2) + [None, 0.0]},
    'fn.assess_theoretical_compatibility': {'mc': lambda l, y, a: [None, 5, 'x', [], {'__hmm__': 1}], 'sequence': lambda l, y, a: bad_seq(a['mc']['__mc__']['states']), 'significance': lambda l, y, a: bad_float(0.0, 0.2) + [None, 0.0]},
}
for _f in ('is_absorbing_state', 'is_cyclic_state', 'is_recurrent_state', 'is_transient_state', 'conditional_probabilities', 'sensitivity'):
    P[_f] = {'state': 'state'}
MODEL = [None, 5, 'x', [], {'__obj__': 'lambda'}]
DPI = bad_int() + [0, 77, 10 ** 6, -100, None]
PLOTS = {
    'fn.plot_comparison': ([[{'__model__': 0}, {'__model__': 0}]], {'models': [[], [{'__model__': 0}], [{'__model__': 0}, 5], None, 5, 'x'], 'underlying_matrices': ['nope', '', 5, None], 'names': [['a'], ['a', ''], 'ab', 5, [], ['a', 5]], 'dpi': DPI}),
    'fn.plot_eigenvalues': ([{'__model__': 0}], {'model': MODEL, 'dpi': DPI}),
    'fn.plot_flow': ([{'__model__': 0}, 3, 1], {'model': MODEL, 'steps': bad_int(1) + [None], 'interval': bad_int(1) + [None], 'initial_status': [-1, 99, 'no such label', [2.0], 1.5], 'palette': ['nope', '', 5, None], 'dpi': DPI}),
    'fn.plot_graph': ([{'__model__': 0}], {'model': MODEL, 'nodes_color': BOOL + [None], 'nodes_shape': BOOL + [None], 'edges_label': BOOL + [None], 'force_standard': BOOL + [None], 'dpi': DPI}),
    'fn.plot_redistributions': ([{'__model__': 0}, 3], {'model': MODEL, 'redistributions': bad_int(1) + [None], 'initial_status': [-1, 99, 'no such label', [2.0], 1.5], 'plot_type': ['nope', '', 5, None], 'dpi': DPI}),
    'fn.plot_sequence': ([{'__model__': 0}, 3], {'model': MODEL, 'steps': bad_int(2) + [None], 'initial_state': [-1, 99, 'no such label', 1.5], 'plot_type': ['nope', '', 5, None], 'seed': SEED, 'dpi': DPI}),
    'fn.plot_trellis': ([{'__hmm__': 1}, 3], {'hmm': MODEL + [{'__mc__': {'k': 'mc', 'p': [[0.5, 0.5], [0.5, 0.5]], 'states': None}}], 'steps': bad_int(2) + [None], 'initial_state': [-1, 99, 'no such label', 1.5], 'seed': SEED, 'force_standard': BOOL + [None], 'dpi': DPI}),
}

SOURCES = ['as is', 'as is', 'unreadable', 'deleted', 'truncated', 'replaced', 'folder gone']
CALLERS = ['plain', 'plain', 'generator', 'no globals', 'null name', 'text', 'thread', 'method', 'lambda', 'comprehension', 'deep', 'callback', 'generator function']
NAMES = ['random', 'from_file', 'from_matrix', 'lump', 'merge_with', 'to_lazy_chain', 'identity', 'fit', 'estimate', 'restrict', '__init__', '<module>', 'fit_sequence', 'to_subchain', 'from_matrices', 'aggregate']


def dec(a, env, home):
    np = T.np
    if isinstance(a, dict):
        if '__nda__' in a:                                    # complex numbers, as pairs
            v = np.array(a['__nda__'], dtype=float)
            return v[..., 0] + 1j * v[..., 1]
        if '__nds__' in a:
            return np.array(a['__nds__'])
        if '__hmm__' in a:
            return T.HMM([[0.5, 0.5], [0.25, 0.75]], [[0.5, 0.5], [0.25, 0.75]])
        if '__badgraph__' in a:
            return badgraph(a['__badgraph__'])
        if '__pairs__' in a:
            return {dec(k, env, home) if not isinstance(k, list) else tuple(k): dec(v, env, home) for k, v in a['__pairs__']}
        if '__t__' in a:
            return tuple(dec(x, env, home) for x in a['__t__'])
        if len(a) == 1 and list(a)[0].startswith('__'):
            return ops.dec(a, env)
        return {k: dec(v, env, home) for k, v in a.items()}
    if isinstance(a, list):
        return [dec(x, env, home) for x in a]
    if isinstance(a, str) and a[:1] == '@':
        return home + a[1:]
    return a


GRAPHS = ['undirected', 'one node', 'numbers', 'empty label', 'negative', 'null weight', 'infinite', 'undefined', 'text weight', 'no weight', 'h: no layers', 'h: bad layer', 'h: one symbol', 'h: no type', 'h: bad type', 'h: from symbol', 'h: emission to state',
          'h: transition to symbol']


def badgraph(kind):
    import networkx as nx
    g = nx.Graph() if kind == 'undirected' else nx.DiGraph()
    hidden = kind.startswith('h: ')
    if not hidden:
        w = {'negative': -1.0, 'null weight': 0.0, 'infinite': float('inf'), 'undefined': float('nan'), 'text weight': '1', 'no weight': None}.get(kind, 1.0)
        a, b = {'numbers': (1, 2), 'empty label': ('a', ' ')}.get(kind, ('a', 'b'))
        g.add_node(a)
        if kind == 'one node':
            g.add_edge(a, a, weight=1.0)
            return g
        g.add_edge(a, b, weight=1.0)
        if w is None:
            g.add_edge(b, a)
        else:
            g.add_edge(b, a, weight=w)
        return g
    if kind == 'h: no layers':
        g.add_nodes_from(['a', 'b', 'x', 'y'])
    elif kind == 'h: bad layer':
        g.add_nodes_from(['a', 'b'], layer=1)
        g.add_nodes_from(['x', 'y'], layer=2)
    elif kind == 'h: one symbol':
        g.add_nodes_from(['a', 'b'], layer=1)
        g.add_nodes_from(['x'], layer=0)
    else:
        g.add_nodes_from(['a', 'b'], layer=1)
        g.add_nodes_from(['x', 'y'], layer=0)
    for u, v in (('a', 'b'), ('b', 'a')):
        g.add_edge(u, v, type='P', weight=1.0)
    for u, v in (('a', 'x'), ('b', 'x')):
        g.add_edge(u, v, type='E', weight=1.0)
    if kind == 'h: no type':
        g.add_edge('a', 'a', weight=1.0)
    elif kind == 'h: bad type':
        g.add_edge('a', 'a', type='Z', weight=1.0)
    elif kind == 'h: from symbol':
        g.add_edge('x', 'a', type='P', weight=1.0)
    elif kind == 'h: emission to state':
        g.add_edge('a', 'a', type='E', weight=1.0)
    elif kind == 'h: transition to symbol':
        g.add_edge('b', 'y', type='P', weight=1.0)
    return g


def bad_dict(a, hidden):
    items = a['d']['__d__']
    out = [{'__pairs__': []}, 5, None, [], 'x', {'__pairs__': items[:-1]}, {'__pairs__': [[k, (-0.5 if i == 0 else v)] for i, (k, v) in enumerate(items)]}, {'__pairs__': [[k, (1.5 if i == 0 else v)] for i, (k, v) in enumerate(items)]},
           {'__pairs__': [[k, (NAN if i == 0 else v)] for i, (k, v) in enumerate(items)]}, {'__pairs__': [[k, (INF if i == 0 else v)] for i, (k, v) in enumerate(items)]}, {'__pairs__': [[k, (str(v) if i == 0 else v)] for i, (k, v) in enumerate(items)]},
           {'__pairs__': [[k, (None if i == 0 else v)] for i, (k, v) in enumerate(items)]}, {'__pairs__': items + [[['only one'], 1.0]]}, {'__pairs__': items + [['text', 1.0]]}, {'__pairs__': items + [[['', 'a'] if not hidden else ['P', '', 'a'], 0.5]]},
           {'__pairs__': items + [[[5, 6] if not hidden else ['P', 5, 6], 0.5]]}]
    if hidden:
        out += [{'__pairs__': items + [[['Q', 'a', 'b'], 0.0]]}]
    return out


def values(name, param, lab, sym, named):
    """The invalid values of one parameter."""
    kind = P[name][param]
    if kind == 'enum':
        return ['nope', '', ' ', 5, None, [], str(named[param]).upper() + 'x', [named[param]], True]
    if kind == 'state':
        return bad_state(lab) + [None]
    if kind == 'sub':
        return bad_sub(lab) + [None]
    if kind == 'steps':
        return bad_int(1) + [None]
    if kind == 'times':
        return [-1, [], [-1], [0, 0], 1.5, [0.5], 'a', None, True, {'__nd__': [1]}, [1, 'a']]
    if kind == 'mcdict':
        return bad_dict(named, False)
    if kind == 'hmmdict':
        return bad_dict(named, True)
    if kind == 'mcgraph':
        return [5, None, 'x', []] + [{'__badgraph__': k} for k in GRAPHS if not k.startswith('h')]
    if kind == 'hmmgraph':
        return [5, None, 'x', []] + [{'__badgraph__': k} for k in GRAPHS if k.startswith('h') or k == 'undirected']
    return kind(lab, sym, named)


class Env:
    """What the interpreter can read of the sources while a call is made, and who makes it."""

    def __init__(self, source):
        self.source = source

    def __enter__(self):
        import linecache
        self.real = linecache.getlines, os.path.exists
        linecache.clearcache()
        get, exists = self.real
        root = os.path.join(core.REPO, 'pydtmc')
        s = self.source
        if s in ('unreadable', 'deleted'):
            linecache.getlines = lambda *a, **k: []
        elif s == 'truncated':
            linecache.getlines = lambda *a, **k: get(*a, **k)[:3]
        elif s == 'replaced':
            linecache.getlines = lambda *a, **k: ['\n', 'x = (\n', '=\n'] * 2000
        if s == 'deleted':
            os.path.exists = lambda p: False if str(p).startswith(root) else exists(p)
        if s == 'folder gone':
            self.cwd = os.getcwd()
            d = self.scratch + '/gone'
            os.mkdir(d)
            os.chdir(d)
            os.rmdir(d)
        return self

    def __exit__(self, *a):
        import linecache
        linecache.getlines, os.path.exists = self.real
        if self.source == 'folder gone':
            os.chdir(self.cwd)


def outside(f, caller, name):
    """Runs f() from the given kind of caller."""
    if caller == 'plain':
        return f()
    if caller in ('generator', 'no globals', 'null name', 'text'):
        g = {'generator': {'__name__': 'application'}, 'no globals': {}, 'null name': {'__name__': None}, 'text': {'__name__': '__main__', '__file__': '/no/such/file.py'}}[caller]
        g['f'] = f
        n = name if name.isidentifier() else 'random'
        exec(compile(f'def {n}():\n    return f()\nout = {n}()\n', '<string>' if caller != 'text' else '/no/such/file.py', 'exec'), g)
        return g['out']
    if caller == 'thread':
        box = []

        def body():
            try:
                box.append((True, f()))
            except BaseException as ex:  # noqa
                box.append((False, ex))
        t = threading.Thread(target=body, name='caller')
        t.start()
        t.join()
        if box[0][0]:
            return box[0][1]
        raise box[0][1]
    if caller == 'method':
        return type('MarkovChain', (), {'random': lambda self: f()})().random()
    if caller == 'lambda':
        return (lambda: f())()
    if caller == 'comprehension':
        return [f() for _ in range(1)][0]
    if caller == 'generator function':
        def gen():
            yield f()
        return next(gen())
    if caller == 'deep':
        def down(k):
            return f() if k == 0 else down(k - 1)
        return down(120)
    box = []

    def callback(x_index, x_value, y_index, y_value):
        if not box:
            try:
                box.append((True, f()))
            except BaseException as ex:  # noqa
                box.append((False, ex))
        return 1.0
    T.MC.fit_function('newton-cotes', ['a', 'b'], callback)
    if box[0][0]:
        return box[0][1]
    raise box[0][1]


class C19(Base):
    id = 'C19'
    level = 'exploration'
    episodes = {'quick': 900, 'thorough': 25000}
    rule = ('A run makes ten or so calls on freshly generated models: an invalid argument (or, as a control, none) in one parameter of a public operation, from one kind of caller, while the source files of the library are readable, unreadable, deleted, '
            'truncated or replaced. Distinct = distinct (operation, parameter, kind of value, caller, state of the sources); non-trivial: at least one invalid argument.')
    measure = 'distinct (operation, parameter, value, caller, sources)'
    stub = ['the reading of source lines (linecache) and the existence of source files, during the calls']
    assumptions = ['the invalid values are those outside of the documented domain of the parameter; values whose validity is debatable are not used']

    def generate(self, rng, i, tier):
        mc, hm = models.gen_mc(rng, n=rng.randint(3, 5)), models.gen_hmm(rng, n=rng.randint(3, 4), k=rng.randint(3, 4))
        calls = []
        while len(calls) < 10:
            kind = rng.choice(['mc', 'mc', 'hmm', 'static', 'static', 'static', 'plot', 'file'])
            where = {'source': rng.choice(SOURCES), 'caller': rng.choice(CALLERS), 'name': rng.choice(NAMES)}
            control = rng.random() < 0.2
            if kind == 'mc':
                lab, sym = models.states_of(mc), []
                op = ops.gen_mc_op(rng, mc, others=[0])
                target, op = 0, list(op)
            elif kind == 'hmm':
                lab, sym = models.states_of(hm), models.symbols_of(hm)
                op = ops.gen_hmm_op(rng, hm, others=[1])
                target, op = 1, list(op)
            elif kind == 'static':
                lab = sym = []
                op = ops.gen_static_op(rng)
                target, op = None, list(op)
            elif kind == 'file':
                lab = sym = []
                n, target = rng.choice([('to_file', 0), ('to_file', 1), ('MC.from_file', None), ('HMM.from_file', None)])
                op, control = [n, ['@/ok.json'], {}], False
            else:
                lab = sym = []
                n = rng.choice(sorted(PLOTS))
                args, bad = PLOTS[n]
                prm = rng.choice(sorted(bad))
                calls.append(dict(where, target=None, op=[n, args, {}], param=prm, value=rng.choice(bad[prm] + [x for x in ALIENS if x not in ({},)])))
                continue
            name = op[0]
            for k, v in ops.MC_ALIASES.items():
                if name in v:
                    name = k
            if name not in P or control:
                if name in ('to_file', 'get', 'str', 'repr', 'hash', 'eq') or name not in P:
                    continue
                calls.append(dict(where, target=target, op=op, param=None, value=None))
                continue
            names = self.params(name, target)
            named = dict(zip(names, op[1]))
            choices = [x for x in P[name] if x in names or x in op[2] or x == 'kwargs']
            prm = rng.choice(choices)
            if name == 'MC.random_distribution' and prm == 'kwargs':
                calls.append(dict(where, target=target, op=op, param='**', value=rng.choice(P[name][prm](lab, sym, named))))
                continue
            try:
                vals = values(name, prm, lab, sym, named)
            except TypeError:              # labels that were left out
                continue
            val = rng.choice(vals) if rng.random() < 0.85 else rng.choice(other('dict' if 'dict' in str(P[name][prm]) else ''))
            calls.append(dict(where, target=target, op=op, param=prm, value=val))
        return {'models': [mc, hm], 'calls': calls}

    @staticmethod
    def params(name, target):
        f = {'MC': T.MC.__init__, 'HMM': T.HMM.__init__}.get(name)
        if f is None:
            if target is None:
                cls, f = name.split('.', 1)
                f = getattr({'MC': T.MC, 'HMM': T.HMM, 'fn': T.pydtmc}[cls], f)
            else:
                f = getattr(T.MC if target == 0 else T.HMM, name)
        return [x for x in inspect.signature(f).parameters if x not in ('self',)]

    def shrinkable(self, ep):
        return [('calls',)]

    def simpler(self, ep):
        for k, c in enumerate(ep['calls']):
            for key, v in (('source', 'as is'), ('caller', 'plain')):
                if c[key] != v:
                    e = models.clone(ep)
                    e['calls'][k][key] = v
                    yield e

    def execute(self, ep, ctx):
        import shutil
        import tempfile
        home = tempfile.mkdtemp(prefix='dst-c19-')
        try:
            self.go(ep, ctx, home)
        finally:
            os.chdir('/')
            shutil.rmtree(home, ignore_errors=True)

    def go(self, ep, ctx, home):
        np = T.np
        env = [models.build(d) for d in ep['models']]
        defs = [ops.canon(m) for m in env]
        env[0].to_file(home + '/ok.json')
        open(home + '/empty.json', 'w').close()
        Env.scratch = home
        for c in ep['calls']:
            name, args, kw = c['op']
            target, prm = c['target'], c['param']
            base = name
            for k, v in ops.MC_ALIASES.items():
                if name in v:
                    base = k
            args, kw = dec(args, env, home), dec(kw, env, home)
            names = self.params(base, target)
            if prm == '**':
                kw.update(c['value'])
            elif prm is not None:
                value = dec(c['value'], env, home)
                if prm in names and names.index(prm) < len(args):
                    args[names.index(prm)] = value
                else:
                    kw[prm] = value
            op = [target, name, None, None]

            def call():
                return ops.call(op, env, args, kw)
            want = None
            if prm is None:
                a2 = dec(c['op'][1], env, home)
                env2 = [models.build(d) for d in ep['models']]
                want = ops.outcome(lambda: ops.call(op, env2, a2, dec(c['op'][2], env, home)))
            shown = f'{name}({", ".join(ops.brief(a, 80) for a in args)}{kw or ""}) parameter {prm} sources {c["source"]} caller {c["caller"]}'
            ctx.stat('fault:sources ' + c['source'])
            ctx.stat('caller ' + c['caller'])
            try:
                with Env(c['source']):
                    r = outside(call, c['caller'], c['name'])
                have = ['ok', ops.canon(r)]
            except T.ValidationError as ex:
                have = ['exc', 'ValidationError', str(ex)]
            except core.Violation:
                raise
            except BaseException as ex:  # noqa
                have = ['exc', type(ex).__name__, str(ex)]
            ctx.log(base, prm, c['source'], c['caller'], have[0], have[1] if have[0] == 'exc' else '')
            ctx.key(base, prm, repr(c['value'])[:60], c['caller'], c['source'])
            if prm is None:
                ctx.stat('controls')
                if have[0] == 'exc' and have[1] == 'ValidationError' and want[0] == 'exc' and want[1] == 'ValidationError':
                    continue
                if not ops.same(have, want):
                    ctx.fail('valid-call-differs', f'{shown}: {ops.brief(have)} instead of {ops.brief(want)}')
                continue
            ctx.nontrivial = True
            ctx.stat('invalid arguments')
            if have[0] == 'ok':
                ctx.fail('accepted', f'{shown}: accepted, result {ops.brief(have[1])}')
            if have[1] != 'ValidationError':
                ctx.fail('wrong-error', f'{shown}: {have[1]}: {have[2]}')
            if not have[2].strip():
                ctx.fail('empty-message', f'{shown}: the error says nothing')
        for m, d in zip(env, defs):
            if ops.canon(m) != d:
                ctx.fail('model-changed', f'{d} became {ops.canon(m)}')


PROP = C19()
