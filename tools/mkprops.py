#!/usr/bin/env python3
"""Writes properties.jsonl (the single source of the property list)."""
import json, os
MCF='pydtmc/markov_chain.py'; HMF='pydtmc/hidden_markov_model.py'
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    a={'files':files,'mechanism':[{'name':n,'where':w} for n,w in mech]}
    if state: a['state']=[{'name':n,'meaning':m} for n,m in state]
    if observe: a['observe_at']=observe
    a['hook_needed']=hook if hook is not None else 'none'
    P.append({'id':id,'title':title,'statement':statement,'quantifier':{'over':over,'text':qtext},'why_tests_cant':why,'anchors':a})

prop('C01','Concurrent use gives the results of solitary use, and always finishes',
 'When several threads use the library at once, on the same models or on different ones, every call returns (or raises) exactly what the same call returns when it is made alone. No interleaving makes a call block forever. Plotting, unseeded random output and simultaneous access to one file path are outside this guarantee.',
 ['schedules','histories'],'all interleavings of the public calls of two or more threads, over all models and call histories',
 'The test suite is single-threaded: it never runs two calls at the same time, so no race, lost update or lock-order cycle can show in it.',
 [MCF,HMF,'pydtmc/decorators.py','pydtmc/utilities.py'],
 [('cached_property lock','pydtmc/decorators.py'),('lazy class attribute of random distributions',MCF+' random_distribution'),('stack/trace inspection of callers','pydtmc/utilities.py create_validation_error, get_caller')],
 [('per-instance cache','values of the derived properties, filled on first access'),('model definition','transition and emission matrices, labels and graph')])
prop('C02','A derived property is one settled value for all of its readers',
 'Every reader of a derived (cached) property of a model, in any thread and at any time, obtains one and the same object, which never changes identity or value afterwards. An attempt whose computation fails leaves nothing behind: the next access computes the value afresh. Derived properties cannot be assigned or deleted.',
 ['schedules','histories','fault_sequences'],'all interleavings of first and later accesses, and all points at which a first computation fails',
 'Tests read each property once per model and in one thread, and never make a computation fail half-way.',
 ['pydtmc/decorators.py',MCF],[('cached_property','pydtmc/decorators.py'),('derived properties',MCF)],[('per-instance cache','values of the derived properties')])
prop('C03','Seeded calls depend only on their arguments and their seed',
 'Every operation that accepts a seed, when given one, produces an output that is a function of its arguments and of the seed alone, whatever was called before or in between, and on whichever equal model. It neither reads nor disturbs the state of the global random number generators. Different draws are really used: the seed 0 and every other admissible seed are honoured.',
 ['histories','inputs'],'all histories of seeded and unseeded calls before and between, all seeds, all models',
 'Tests call each seeded operation once with a few seeds and compare with one recorded output; the history before the call never varies.',
 ['pydtmc/utilities.py',MCF,HMF,'pydtmc/plotting.py'],[('create_rng','pydtmc/utilities.py'),('seeded operations',MCF+' simulate, next, random, random_distribution, dirichlet_process; '+HMF+' simulate, next, random')],[('global NumPy generator','numpy.random state')])
prop('C04','Unseeded randomness comes only from the global NumPy generator',
 'Every operation that produces random output without a seed draws all of its randomness from the global NumPy generator, so that seeding that generator replays any history of operations exactly. Operations that do not produce random output leave that generator untouched.',
 ['histories','inputs'],'all histories of operations after a given state of the global generator',
 'Tests always pass seeds and never look at the state of the global generator before and after a call.',
 ['pydtmc/utilities.py',MCF,HMF,'pydtmc/generators.py','pydtmc/plotting.py'],[('create_rng','pydtmc/utilities.py'),('initial state choice',MCF+' simulate; '+HMF+' simulate')],[('global NumPy generator','numpy.random state')])
prop('C05','Results do not depend on the process they are computed in',
 'The same call made on an equal model in another process gives the same result or error: string-hash randomisation, the locale, and the set of calls that the process made earlier have no influence on it, including the order in which classes, states and partitions are listed.',
 ['configurations','histories'],'all hash seeds, locales and process histories',
 'The suite runs in one process with one hash seed and one locale.',
 [MCF,HMF,'pydtmc/computations.py','pydtmc/files_io.py','pydtmc/validation.py'],[('ordering of classes',MCF+' classes indices'),('find_lumping_partitions, calculate_periods','pydtmc/computations.py'),('label collection from graphs and files','pydtmc/utilities.py, pydtmc/files_io.py')])
prop('C06','What a model answers does not depend on what it was asked before',
 'No read-only operation, successful or failed, changes a model: after any history of operations a model has the same matrices and labels, and answers every operation exactly as a newly built equal model does.',
 ['histories','inputs'],'all finite histories of operations on a model, including rejected and failing ones',
 'Each test builds a model and makes one call on it, so effects of one call on a later one are never exercised.',
 [MCF,HMF,'pydtmc/measures.py','pydtmc/simulations.py','pydtmc/generators.py'],[('operations reading the model',MCF),('in-place array arithmetic','pydtmc/measures.py, pydtmc/generators.py, pydtmc/computations.py')],[('per-instance cache','values of the derived properties'),('model definition','matrices, labels, graph')])
prop('C07','An operation that fails or is interrupted leaves no trace',
 'If an operation is ended at any point by an exception raised beneath it (memory exhaustion, numerical failure, keyboard interrupt, failing I/O), every existing model, the arguments of the caller, the locks of the library and the file descriptors of the process are as they were before, and no other thread is left blocked. Repeating the operation then gives the result that an undisturbed run gives.',
 ['crash_points','fault_sequences','histories'],'every point at which a primitive beneath the library can fail, for every operation',
 'No test makes anything beneath the library fail.',
 [MCF,HMF,'pydtmc/decorators.py','pydtmc/files_io.py','pydtmc/generators.py','pydtmc/fitting.py'],[('cached_property lock and cache','pydtmc/decorators.py'),('file handles','pydtmc/files_io.py')],[('per-instance cache','values of the derived properties'),('locks','of the cached properties')])
prop('C08','Models and the objects of their callers never share mutable state',
 'A model is fixed when it is built: later changes made by the caller to the objects it was built from, or to the matrices, labels, graphs, dictionaries and sequences that the library returned, never change the matrices and labels of any model nor the transitions it simulates. No operation modifies the arguments it is given.',
 ['histories','inputs'],'all histories of calls interleaved with in-place modifications of arguments and returned objects',
 'Tests never modify an argument or a returned object and then look at the model again.',
 [MCF,HMF,'pydtmc/validation.py','pydtmc/utilities.py'],[('copies on input','pydtmc/validation.py, pydtmc/utilities.py extract_numeric'),('copies on output',MCF+' p, states, to_matrix, to_graph, conditional_probabilities; '+HMF+' p, e, states, symbols')])
prop('C09','A saved model is loaded back as the same model',
 'A model with printable labels free of whitespace that is written to a file in any supported format is read back as a model with the same labels in the same order and the same probabilities, under any locale and however the operating system splits, interrupts or buffers reads and writes. Labels that a format cannot hold are refused when the file is written; they are never altered silently.',
 ['inputs','configurations','fault_sequences'],'all models and labels, all formats, all locales, all patterns of short and interrupted reads and writes',
 'Tests save a few ASCII-labelled models in one locale on a disk that never splits a read or a write.',
 ['pydtmc/files_io.py',MCF,HMF],[('readers and writers','pydtmc/files_io.py'),('to_file, from_file',MCF+', '+HMF)])
prop('C10','A save that did not reach the disk is reported',
 'When saving a model returns normally, every byte of it was accepted by the file system: loading the file gives the model back. Any failed open, write or close surfaces to the caller as an exception, and a failed or refused save of one model never affects another.',
 ['fault_sequences','crash_points'],'all single and repeated failures of the file-system calls made by a save',
 'Tests never run on a full, failing or read-only disk.',
 ['pydtmc/files_io.py'],[('writers','pydtmc/files_io.py'),('to_file',MCF+', '+HMF)])
prop('C11','A file cut short by a crash never loads as a different model',
 'If the process or the machine stops at any point of a save, reading what is left on the disk gives the old model, the new model, or a documented error; it never gives a model with other labels or other probabilities (beyond the tolerance with which rows must sum to one).',
 ['crash_points','fault_sequences','inputs'],'all crash points of a save, and all states the unsynchronised file may be left in (lost, truncated, zero-filled)',
 'Tests only ever read files whose writing completed.',
 ['pydtmc/files_io.py',MCF,HMF],[('from_file checks',MCF+', '+HMF+' from_file'),('readers','pydtmc/files_io.py')])
prop('C12','Whatever a file contains, loading it gives a valid model or a documented error',
 'Loading any file, however damaged, either raises one of the documented errors or returns a well-formed model: distinct non-empty labels, finite probabilities between zero and one, and rows that sum to one. The same holds when reading is cut short by I/O errors.',
 ['inputs','fault_sequences'],'all file contents reachable by corruption (bit flips, lost, duplicated, swapped or foreign blocks) and all read failures',
 'Tests read a handful of well-formed files.',
 ['pydtmc/files_io.py',MCF,HMF],[('readers','pydtmc/files_io.py'),('from_file checks',MCF+', '+HMF+' from_file')])
prop('C13','Random models are well-formed whatever is drawn',
 'Every randomly generated model has finite, non-negative rows summing to one, honours the fixed probabilities and at least the number of zeros that were asked for, and uses the labels it was given, whatever values the random number generator delivers, including the extremes of its range. Requests that cannot be met are refused with a validation error.',
 ['inputs','fault_sequences'],'all outcomes of the random number generator, all sizes, masks and zero counts',
 'Tests look at a few seeds, whose draws are never extreme.',
 ['pydtmc/generators.py',MCF,HMF],[('mc_random, hmm_random, mc_dirichlet_process','pydtmc/generators.py'),('random_distribution',MCF)])
prop('C14','Simulated histories are possible histories and follow the stop rules',
 'Every simulated walk starts in the requested state, moves only along transitions (and emits only symbols) of positive probability, has the requested length unless a stop condition ends it, and stops at the first occurrence of the stop condition after the start and nowhere else. This holds whatever values the random number generator delivers, including the extremes of its range.',
 ['inputs','histories','fault_sequences'],'all outcomes of the random number generator, all models, lengths, start states and stop conditions',
 'Tests compare a few seeded walks with recorded ones; impossible transitions need draws that no tested seed produces.',
 ['pydtmc/simulations.py',MCF,HMF],[('mc_simulate, hmm_simulate','pydtmc/simulations.py'),('next, simulate',MCF+', '+HMF)])
prop('C15','Simulated histories follow the probabilities of the model',
 'Over the outcomes of the random number generator, each simulated step moves to each state with exactly the transition probability of the current state, each emission follows the emission probabilities of the state it is made from, steps are independent given the current state, and an unspecified start state is uniformly distributed.',
 ['inputs','histories'],'the whole unit interval of each random draw, all models and states',
 'A handful of seeded walks says nothing about the distribution they are drawn from.',
 ['pydtmc/simulations.py',MCF,HMF],[('mc_simulate, hmm_simulate','pydtmc/simulations.py'),('next, simulate',MCF+', '+HMF)])
prop('C16','Computed probabilities, times and rewards are those of the simulated walks',
 'Stationary distributions, redistributions, expected rewards and transitions, first-passage, hitting, absorption, committor and recurrence quantities, visit counts, time correlations and relaxations agree with the values that follow from the step law of the walks the model simulates, for every chain on which they are defined: reducible, periodic, absorbing, and with any placement of classes. Quantities that are infinite or undefined for those walks are reported as such. The mixing time is the first multiple of the jump at which the distance (sum of absolute differences) to the stationary distribution is at most the documented cut-off; first passages to several states count either the first visit to any of them or the sum over them.',
 ['inputs','histories'],'all chains, horizons, origins, targets, rewards and observed sequences',
 'Tests compare each measure with recorded numbers on a dozen chains and never with the walks.',
 ['pydtmc/measures.py','pydtmc/computations.py','pydtmc/simulations.py',MCF],[('measures','pydtmc/measures.py'),('gth_solve','pydtmc/computations.py'),('mc_redistribute, mc_predict','pydtmc/simulations.py'),('pi',MCF)])
prop('C17','The classification of states describes what the walks can do',
 'Accessibility, communicating, recurrent, transient, absorbing and cyclic classes, periods, and the predicates built on them (irreducible, absorbing, ergodic, regular, aperiodic) agree with the walks that the model can produce, whatever the size of the chain, the order of its states and their labels. Classes and their periods are listed in the same order.',
 ['inputs','histories'],'all chains, including large, sparse, periodic and reducible ones, and all labellings',
 'Tests classify about a dozen small chains with sorted numeric labels.',
 ['pydtmc/computations.py',MCF],[('calculate_periods, find_cyclic_classes','pydtmc/computations.py'),('class properties',MCF)])
prop('C18','What is estimated from a history is what the history contains',
 'Fitting a chain to a recorded sequence and estimating a hidden model from recorded sequences give exactly the observed transition and emission frequencies (uniform rows where nothing was observed, unless smoothing or prior weights are requested), the probability of a sequence is the product of the probabilities of its steps, and histories produced by a model have positive probability under it. The result depends on nothing but the recorded sequences.',
 ['histories','inputs'],'all simulated histories, of any length, over any label order',
 'Tests fit a few fixed sequences.',
 ['pydtmc/fitting.py','pydtmc/generators.py','pydtmc/simulations.py',MCF,HMF],[('mc_fit_sequence','pydtmc/fitting.py'),('hmm_estimate','pydtmc/generators.py'),('mc_sequence_probability','pydtmc/simulations.py')])
prop('C19','Invalid arguments always surface as a validation error',
 'A public operation given an argument outside its documented domain raises a ValidationError, and nothing else, wherever it is called from and even when the source code of the library or of the caller cannot be read at that moment. Models can never be built from invalid matrices or labels, whatever the name and place of the calling function.',
 ['inputs','fault_sequences','configurations'],'all invalid arguments, callers and failures to read source code',
 'Tests exercise the internal validators directly, from one caller, with readable sources.',
 ['pydtmc/validation.py','pydtmc/utilities.py',MCF,HMF],[('create_validation_error','pydtmc/utilities.py'),('get_caller and constructor bypass','pydtmc/utilities.py, '+MCF+', '+HMF)])
prop('C20','Plotting leaves the plotting environment and the model as they were',
 'After a plotting call, successful or failed at any point, the interactive mode of the plotting library and the model plotted are what they were before; in non-interactive mode the figure is returned and in interactive mode nothing is. A repeated call after a failure behaves as if the failure had not happened.',
 ['fault_sequences','crash_points','histories'],'every point at which the plotting library or the renderer can fail, both interactive modes, all plots',
 'Tests plot successfully in non-interactive mode only.',
 ['pydtmc/plotting.py'],[('interactive mode switching','pydtmc/plotting.py')],[('interactive mode','of Matplotlib')])
prop('C21','Graph plots work whether or not Graphviz does',
 'Graph and trellis plots return a figure when Graphviz is missing, cannot be started or cannot be probed, using the standard renderer instead, and use Graphviz when it is available and not declined. No process, pipe or temporary file is left behind.',
 ['fault_sequences','configurations'],'every way in which starting the external renderer can fail',
 'Tests run on one machine, where Graphviz either is or is not installed.',
 ['pydtmc/plotting.py'],[('extended graph probe','pydtmc/plotting.py plot_graph, plot_trellis')])
prop('C22','Transition functions supplied by the user are contained',
 'When a chain is built from a user-supplied transition function, the function is called exactly once for every pair of nodes of the quadrature interval with consistent indices and values, in whatever order it declares its arguments (one preliminary call that probes the function with fixed arguments is allowed), and whatever it does (raising, returning non-numeric, infinite, undefined or negative values, or using the library itself) yields either a well-formed chain or a documented error. The outcome equals that of the same function evaluated outside the library.',
 ['fault_sequences','inputs','histories'],'all behaviours of the callback at each of its calls, including re-entrant use of the library',
 'Tests pass a few well-behaved functions.',
 ['pydtmc/fitting.py',MCF,'pydtmc/validation.py'],[('mc_fit_function','pydtmc/fitting.py'),('validate_transition_function','pydtmc/validation.py')])
prop('C23','Copies of a model are equal to it and independent of it',
 'A model that is copied, deep-copied or pickled and restored, at any point of its history and also in another process, has the same definition and answers every operation as the original does; using or modifying one never affects the other. Two models compare equal exactly if they have the same matrices and the same labels in the same order, and equal models have the same hash within a process.',
 ['histories','configurations'],'all histories of operations before and after the copy, on either side of it',
 'No test copies or pickles a model.',
 [MCF,HMF,'pydtmc/base_classes.py','pydtmc/decorators.py'],[('instance state',MCF+', '+HMF),('caches keyed by instance','pydtmc/decorators.py')])
prop('C24','Decoding a simulated history gives its exact probabilities',
 'For a history of symbols produced by a hidden model, decoding gives the exact log-probability of that history and the exact filtered, backward and posterior state probabilities, with and without scaling, and prediction gives a state path of maximal probability under the convention of the chosen method. Histories that cannot be produced are reported as such rather than decoded.',
 ['histories','inputs'],'all hidden models, initial distributions and symbol histories',
 'Tests decode a few fixed sequences and compare with recorded numbers.',
 ['pydtmc/measures.py','pydtmc/simulations.py',HMF],[('hmm_decode','pydtmc/measures.py'),('hmm_predict','pydtmc/simulations.py')])
prop('C25','Derived chains walk as the transformation says',
 'Chains derived from a chain (lazy, n-th order, bounded, merged, restricted, reordered to canonical form, lumped) simulate exactly the step law that the transformation defines in terms of the original: holding with the inertial weight, skipping steps, reflecting or absorbing at the ends, mixing two chains, staying inside the kept states, renaming, and projecting onto the lumps; a lumping is accepted, and listed, exactly if the projected walk is a chain. An aggregation has the requested number of states and walks as the stationary walk of the original does seen through some grouping of its states. The closest reversible chain has walks that look the same backwards from the given distribution, and is not farther from the original than other such chains. Hidden models restricted to states and symbols keep the relative probabilities of what is left. The original is unaffected.',
 ['inputs','histories'],'all chains and parameters on which the transformation is defined',
 'Tests compare transformed matrices with recorded ones on a few chains.',
 ['pydtmc/generators.py',MCF],[('mc_lazy, mc_bounded, mc_sub, mc_canonical, mc_lump, mc_aggregate_*, mc_closest_reversible','pydtmc/generators.py'),('merge_with, to_nth_order',MCF)])
prop('C26','Process generators walk as the process they are named after',
 'The gambler\'s ruin, birth-death, Ehrenfest, Bernoulli-Laplace, Moran and Wright-Fisher chains simulate exactly the step law of the mechanism they model, for every size and parameter, and the approximations of autoregressive processes walk as the discretised process does (the process moved to an even grid, seen through cells of equal probability, replaced by independent chains of two states, or by the nodes of a quadrature): the step law equals the one obtained by running the mechanism itself over all outcomes of its random choices. Labels appear in the order given.',
 ['inputs','histories'],'all sizes, parameters and outcomes of the random choices of the mechanism',
 'Tests compare a few generated matrices with recorded ones.',
 ['pydtmc/generators.py',MCF],[('mc_gamblers_ruin, mc_birth_death, mc_urn_model, mc_population_genetics_model, mc_approximation','pydtmc/generators.py')])
prop('C27','Plots show what the model reports',
 'Every plot shows the quantities that the model reports for the same arguments: the matrices compared, the eigenvalues, the redistributions at every step, the walk of the given seed, the graph with exactly the states, symbols, transitions, probabilities and communicating classes of the model, and the trellis of the decoded walk with its possible transitions and its most probable path. This holds in the standard and in the extended drawing, in both interactive modes and for all labels, including those with a meaning in the language of the external renderer.',
 ['inputs','configurations','histories'],'all models, labels, options and seeds, both ways of drawing',
 'Tests check that plots succeed, not what they show.',
 ['pydtmc/plotting.py'],[('plot functions, _generate_trellis_standard, _generate_trellis_extended','pydtmc/plotting.py')])
# not claimed (pure numerical facts without schedule, time, I/O, randomness or multi-party behaviour)
prop('C28','Training on recorded histories improves the guess and then rests',
 'Training a hidden model by the Baum-Welch method on recorded histories of symbols gives a well-formed model under which those histories are never less probable than under the guess, keeps impossible what the guess holds impossible, and stops where one more round would change nothing; training by predicted paths (maximum a posteriori or maximum likelihood) stops at a model whose parameters are the frequencies of the paths it predicts itself, every history having the same weight. Otherwise a documented error is raised. Training never modifies its arguments, and a training that was interrupted can be repeated with the result of an undisturbed one.',
 ['histories','inputs','fault_sequences'],'all simulated histories of symbols, guesses and initial distributions, and interruptions at any point',
 'Tests compare with recorded matrices for a few fixed guesses.',
 ['pydtmc/fitting.py',HMF],[('hmm_fit','pydtmc/fitting.py')])
prop('C29','Assessments of a recorded history say what its steps say',
 'The assessments of a history (first order, homogeneity, Markov property, stationarity, compatibility with a chain) report the statistic and the degrees of freedom that the counts of its steps give, the p-value of that statistic and the verdict that the significance draws from it, whatever the states are called and in whatever order they are listed, given as labels or indices; a history with a step that the chain cannot make is always incompatible with it, and a history that is not enough to tell is reported as such.',
 ['histories','inputs'],'all simulated histories of one or more chains, labels, orders of the states, numbers of blocks and levels of significance',
 'Tests compare with recorded values on a few sequences.',
 ['pydtmc/assessments.py'],[('assess_* functions','pydtmc/assessments.py')])
prop('C30','Entropies, gaps and sensitivities are those of the walks',
 'The entropy rate is the mean surprise of the steps of a stationary walk, the topological entropy the growth of the number of possible walks and the normalised rate their ratio; spectral gap, relaxation and mixing rate and the implied timescales tell how fast walks forget where they started, also for slowly mixing chains; the sensitivity tells how the stationary distribution moves when steps are made a little more or less likely; rank, determinant, density, symmetry, reversibility, double stochasticity and monotony are those of the step law. Where a quantity is not defined, nothing is reported.',
 ['inputs','histories'],'all chains and orders of the questions',
 'Tests compare with recorded numbers on a few chains, none of which mixes slowly.',
 [MCF,'pydtmc/computations.py','pydtmc/measures.py'],[('entropy_rate, topological_entropy, spectral_gap, implied_timescales, is_*',MCF),('slem, eigenvalues_sorted','pydtmc/computations.py'),('mc_sensitivity','pydtmc/measures.py')])
prop('C31','A model handed on in any form is the same model',
 'What a model exports (dictionary, directed graph, matrices, single probabilities, sizes) is exactly its labels and probabilities, and importing it again gives the same model, in whatever order the entries, nodes and edges arrive, in whatever container and number format the matrices come, and on whatever scale the weights of a row of a graph or matrix are given: graphs and matrices are normalised row by row, rows without weights become uniform. Messages that were damaged on the way (entries lost, labels garbled, probabilities or weights that are none) are refused with a documented error, and the walks of the last party of any relay are those of the first.',
 ['histories','inputs','fault_sequences'],'all models, relays of exports and imports, orders, scales, containers and damages of the messages',
 'Tests convert a few fixed models forth and back, in order and without scaling.',
 [MCF,HMF,'pydtmc/utilities.py','pydtmc/validation.py'],[('from_dictionary, from_graph, from_matrix, to_*',MCF),('from_dictionary, from_graph, from_matrices, to_*',HMF),('build_mc_graph, build_hmm_graph, handle_overflows, extract_numeric','pydtmc/utilities.py'),('validate_dictionary, validate_graph, validate_matrix','pydtmc/validation.py')])
prop('N02','Aggregations are optimal',
 'Spectral aggregation returns the grouping of the states that minimises the documented divergence.',
 ['inputs'],'all chains and sizes','Tests compare with recorded matrices on a few chains.',
 ['pydtmc/generators.py','pydtmc/computations.py'],[('mc_aggregate_spectral_*','pydtmc/generators.py')])
prop('N04','Autoregressive approximations converge to the process they discretise',
 'The Adda-Cooper, Rouwenhorst, Tauchen and Tauchen-Hussey chains approximate the autoregressive process with the documented accuracy.',
 ['inputs'],'all sizes and process parameters','Tests compare with recorded matrices.',
 ['pydtmc/generators.py'],[('mc_approximation','pydtmc/generators.py')])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for p in P: f.write(json.dumps(p,ensure_ascii=False)+'\n')
