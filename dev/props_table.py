p('P01', 'Layer transformations are exact and backward is their gradient',
  'Activating a layer writes exactly its documented elementwise or gated function of the input (sigmoid, tanh, softsign, relu, linear, gates, switch, LSTM and multi-dimensional LSTM cells). '
  'Its backward pass writes exactly the error multiplied by the derivative of that function, for every input. '
  'Layers with parameters (LSTM peepholes) read them from, and add their derivatives to, the parameter positions they own.',
  ['inputs', 'configurations'], 'all layer dimensions, inputs, outgoing errors, parameters and time offsets',
  'The gradient-check tests sample one network and a handful of random inputs per layer; a wrong factor on a branch (saturated, zero, negative, peephole on/off) or at an offset is not visited.',
  ['structure/modules/sigmoidlayer.py', 'structure/modules/lstm.py', 'structure/modules/mdlstm.py', 'structure/modules/gate.py', 'tools/functions.py'],
  [('forward/backward implementation pairs', 'structure/modules/*.py'), ('sigmoid, sigmoidPrime, tanhPrime, safeExp', 'tools/functions.py')])

p('P02', 'Connections add their map forward and its exact adjoint backward',
  'A connection reads exactly its configured slice of the sending module, adds its linear map (full, full-but-not-self, identity, elementwise linear, permutation, subsampling average, shared weights) into exactly its slice of the receiving module, and leaves everything else untouched. '
  'The backward pass adds the transposed map of the outgoing error into the sender\'s slice and, when the connection has its own or shared weights, adds the exact weight derivatives to what has been accumulated so far (subsampling connections have no backward pass). '
  'A connection between module slices addresses the same absolute positions of the sliced base modules.',
  ['inputs', 'configurations'], 'all slice bounds, time offsets, permutations, block sizes, weights, inputs and previously accumulated buffers',
  'Tests use full-range slices, self-inverse permutations and a single pass, so wrong offsets, overwriting instead of adding and wrong adjoints are invisible.',
  ['structure/connections/connection.py', 'structure/connections/full.py', 'structure/connections/fullnotself.py', 'structure/connections/identity.py', 'structure/connections/linear.py',
   'structure/connections/permutation.py', 'structure/connections/shared.py', 'structure/connections/subsampling.py'],
  [('forward/backward with slices', 'structure/connections/connection.py'), ('_forwardImplementation/_backwardImplementation', 'structure/connections/*.py')])

p('P03', 'Networks activate modules in topological order and backpropagate in reverse',
  'sortModules orders the modules so that every non-recurrent connection goes from an earlier to a later module, deterministically for one structure, and raises when the connection graph has a loop. '
  'Forward activation copies consecutive input segments into the input modules in the order they were added, activates each module before its outgoing connections in sorted order, and concatenates the output modules. '
  'The backward pass visits the sorted modules in reverse, running the outgoing connections before the module, and splits output errors / joins input errors the same way. '
  'A recurrent network runs its recurrent connections from the previous time step only (offset > 0 forward, not at the last time step backward), keeps every module on the network\'s time offset, grows the buffers when the sequence gets longer, and with forget=True keeps only one step.',
  ['inputs', 'configurations', 'histories'], 'all module graphs, sequence lengths, offsets and input/output module counts',
  'Tests build a few small networks with one input and one output module; order, offset and segment arithmetic for several modules or longer histories is not exercised.',
  ['structure/networks/network.py', 'structure/networks/feedforward.py', 'structure/networks/recurrent.py'],
  [('_topologicalSort, sortModules, addModule, addConnection', 'structure/networks/network.py'), ('_forwardImplementation/_backwardImplementation', 'structure/networks/feedforward.py'),
   ('time offsets and recurrent connections', 'structure/networks/recurrent.py')])

p('P04', 'Network parameter vectors partition into the containers that own them',
  'After sortModules the params and derivs arrays of a network are one flat array; every parameterised module, connection and mother connection owns exactly one consecutive slice of it, without gaps or overlaps, in one fixed container order used for setting parameters and derivatives alike. '
  'Setting parameters or derivatives on the network is seen by the owners and vice versa (the slices share memory), setting parameters never replaces a container owned by somebody else, and resetDerivatives zeroes the derivatives in place. '
  'The neuron-wise decomposition of a decomposable network covers every parameter exactly once, and setDecomposition(getDecomposition()) writes every parameter back to its own position.',
  ['inputs', 'configurations'], 'all networks and parameter vectors',
  'Tests look at the length of params for a couple of networks; a permuted, shifted or copied slice still has the right length.',
  ['structure/parametercontainer.py', 'structure/networks/network.py', 'structure/networks/recurrent.py', 'structure/networks/neurondecomposable.py', 'structure/connections/full.py'],
  [('_setParameters/_setDerivatives ownership', 'structure/parametercontainer.py'), ('_containerIterator and slices', 'structure/networks/network.py'), ('decomposition indices', 'structure/networks/neurondecomposable.py')])

p('P05', 'Module buffers are reset, grown and shifted without losing or leaking steps',
  'reset() sets the time offset to zero and zeroes every buffer of a module and of all modules of a network. Growing the buffers doubles the number of time steps and preserves the contents of all existing rows. '
  'Shifting the buffers moves row i to row i+items for the rows that stay and zeroes the vacated rows. activate stores the input at the current offset, runs the forward pass and returns a copy of the output; backActivate does the same for errors. '
  'activateOnDataset resets before the first sample, activates once per sample in order and returns one output row per sample. LSTM layers keep one state row per time step and take the peephole weights only when peepholes are enabled.',
  ['histories', 'inputs'], 'all sequences of activations, resets, growth and shifts',
  'Tests use sequences shorter than the first buffer growth and never look at stale rows.',
  ['structure/modules/module.py', 'structure/networks/network.py', 'structure/modules/neuronlayer.py', 'structure/modules/lstm.py', 'structure/modules/mdlstm.py'],
  [('_resetBuffers, _growBuffers, shift, reset, activate, backActivate', 'structure/modules/module.py'), ('propagation to the modules', 'structure/networks/network.py')])

p('P07', 'Copies of evolvables and networks are independent of the original',
  'copy() of an evolvable or network returns a deep copy: the parameters and derivatives of the copy are arrays of its own, shared with the copy\'s own components and not with the original, so that changing either network never changes the other. '
  'newSimilarInstance copies first and randomises only the copy. A cheaply copiable wrapper copies only its parameter array; before running the shared module it installs its own parameters and derivatives there.',
  ['inputs', 'histories'], 'all sequences of copying and changing parameters',
  'Tests compare a copy once right after copying, not after later changes to either side.',
  ['structure/evolvables/evolvable.py', 'structure/networks/network.py', 'structure/evolvables/cheaplycopiable.py'],
  [('copy, newSimilarInstance', 'structure/evolvables/evolvable.py'), ('Network.copy', 'structure/networks/network.py'), ('CheaplyCopiable', 'structure/evolvables/cheaplycopiable.py')])

p('P08', 'Masked parameters expose exactly the enabled ones and zero the rest',
  'The parameters of the wrapped container always equal mask * maskableParams: disabled parameters are zero, and every operation that changes the mask or the values (set, randomize, mutate, topologyMutate) re-applies the mask. '
  'params lists exactly the enabled values in order (or all values with zeros when returnZeros is set), paramdim is their number, and setting params writes each value to its own position. '
  'Random masks and topology mutation never enable more than maxComplexity parameters, topology mutation leaves at least one enabled, and each bit starts enabled with probability maskOnProbability. '
  'A copy shares the wrapped container but owns its mask and values; masked modules delegate activation to the wrapped module.',
  ['inputs', 'histories'], 'all masks, parameter vectors and sequences of mutations',
  'No stable test covers masks; the invariants concern random histories.',
  ['structure/evolvables/maskedparameters.py', 'structure/evolvables/topology.py', 'structure/evolvables/maskedmodule.py'],
  [('mask application and parameter access', 'structure/evolvables/maskedparameters.py'), ('copy, newSimilarInstance', 'structure/evolvables/topology.py')])

p('P10', 'Structure builders wire exactly the documented topology',
  'buildNetwork creates one input, one hidden layer per given hidden size and one output layer of the requested classes, fully connects consecutive layers, connects a bias (when enabled) to every hidden layer and, with outputbias, to the output, adds recurrent self-connections only for recurrent networks, and returns a sorted network; unknown options are rejected. '
  'A ModuleSlice reads and writes exactly its slice of the base buffers (also a slice of a slice) and a ModuleMesh view cuts a flat layer into equal consecutive pieces, addressed by coordinates. '
  'Swiping, border-swiping, bidirectional, multidimensional, convolutional and capture-game networks connect every unit of the hidden meshes to its neighbour in each swiping direction with the weights shared by the documented position class.',
  ['configurations', 'inputs'], 'all layer sizes, options, mesh dimensions and symmetry settings',
  'Tests build a few small networks and compare printed structures; unequal dimensions, several hidden layers with mixed classes and predefined weights are not visited.',
  ['tools/shortcuts.py', 'structure/moduleslice.py', 'structure/modulemesh.py', 'structure/networks/swiping.py', 'structure/networks/borderswiping.py', 'structure/networks/bidirectional.py',
   'structure/networks/multidimensional.py', 'structure/networks/convolutional.py', 'structure/networks/custom/capturegame.py', 'structure/networks/custom/convboard.py'],
  [('buildNetwork', 'tools/shortcuts.py'), ('slices and meshes', 'structure/moduleslice.py, structure/modulemesh.py'), ('swiping structures', 'structure/networks/swiping.py, structure/networks/borderswiping.py')])

p('P11', 'Linked dataset fields stay in lockstep',
  'All linked fields of a dataset always have the same number of rows: a row is appended to all linked fields at once or not at all, appending to a single linked field and linking fields of different length raise OutOfSyncError, and storage growth, field replacement and clearing keep the recorded length of every field equal to the rows written. '
  'Growing the storage preserves the stored rows, an appended row is stored unchanged at the end, sample constructors register exactly their fields with the given dimensions, a missing importance defaults to ones, and copying or pickling a dataset keeps data, links and lengths.',
  ['histories', 'inputs'], 'all sequences of adding, linking, unlinking, replacing and clearing fields',
  'Doctests append a handful of rows; growth at every size, replacement of linked fields and clearing followed by appending are not covered.',
  ['datasets/dataset.py', 'datasets/supervised.py', 'datasets/unsupervised.py', 'datasets/reinforcement.py', 'datasets/importance.py', 'datasets/sequential.py'],
  [('_appendUnlinked, appendLinked, append, linkFields, _resize, clear', 'datasets/dataset.py'), ('constructors and addSample', 'datasets/*.py')])

p('P12', 'Reading a dataset yields exactly the visible rows, in order',
  'Fields, samples, iteration, batches and error evaluation only ever see the rows below the recorded length, never the storage padding. getLinked returns the row at the marker (or the given index) for every linked field in link order and moves the marker to the next row; an index beyond the end raises IndexError, and iterating visits every sample once, in order. '
  'batches cut the rows into consecutive pieces of size n (the last possibly smaller), in the order of the permutation when given; randomBatches visits every batch exactly once. '
  'Without linked fields the length is that of the longest field. The mean squared error sums half the squared differences (weighted by importance) over all samples and divides by the number of target values (sum of importances).',
  ['histories', 'inputs'], 'all datasets, indices, batch sizes and marker positions',
  'Doctests read back a few rows right after appending; the padding only becomes visible at particular sizes.',
  ['datasets/dataset.py', 'datasets/supervised.py', 'datasets/sequential.py', 'datasets/importance.py', 'datasets/unsupervised.py', 'datasets/reinforcement.py'],
  [('getLinked, getField, getLength, batches', 'datasets/dataset.py'), ('evaluateMSE, _evaluateSequence', 'datasets/supervised.py, datasets/importance.py')])

p('P13', 'Sequences, splits and windows partition the samples',
  'The sequences of a sequential dataset are consecutive, disjoint and cover all samples: sequence i runs from its start index to the next start (the last one to the end of the data), newSequence never creates an empty sequence, and the sequence accessors agree on these bounds. '
  'removeSequence removes exactly the rows of that sequence from every linked field and shifts the later sequence starts. '
  'splitWithProportion puts every sample (sequence) into exactly one of the two parts and the given fraction into the first. Conversion to time windows yields all complete non-overlapping windows of every sequence with the target of their last step. '
  'The dataset normaliser maps each feature linearly from its own stored range to the bounds (or to zero mean and unit deviation).',
  ['histories', 'inputs'], 'all datasets, proportions, window sizes and sequence lengths',
  'The only doctest uses a single sequence; boundaries between sequences, removal and the last sequence are not covered.',
  ['datasets/sequential.py', 'datasets/supervised.py', 'tools/datasettools.py'],
  [('sequence bounds and removal', 'datasets/sequential.py'), ('splitWithProportion', 'datasets/supervised.py, datasets/sequential.py'), ('windows and normalisation', 'tools/datasettools.py')])

p('P14', 'Class labels survive every conversion and split of a classification dataset',
  'The one-of-many conversion writes the member bound exactly at the column of the class of each row and the non-member bound elsewhere, keeps the class numbers in the class field, does nothing on converted data, and is undone by converting back to class numbers. '
  'The class histogram counts each class over all rows. Splitting by class puts exactly the rows of the class left and all others right, with all fields in step. Adding two datasets checks type, dimensions and class count and appends all samples of the second. '
  'The stratified split distributes every sequence of each class to exactly one part in the given fractions; the class of a sequence is that of its last sample. LIBSVM files are read with absent features as zero.',
  ['inputs', 'histories'], 'all label vectors, class counts, bounds and fractions',
  'One doctest converts a single dataset; round trips, splits and sequence classes are not covered.',
  ['datasets/classification.py'],
  [('_convertToOneOfMany, _convertToClassNb, splitByClass, calculateStatistics', 'datasets/classification.py'), ('stratifiedSplit, getSequenceClass', 'datasets/classification.py')])

p('P15', 'Networks stored as XML are rebuilt identically',
  'Writing a network to XML and reading it back yields a network of the same class with the same modules (in the same input, output and hidden roles), the same connections (recurrent ones marked as such, slices included), shared mothers stored once, and the same parameter values. '
  'Every constructor records the arguments needed to rebuild the object; arguments of value None are omitted, classes are stored by their canonic name and modules by name. Names resolve to objects of the same file only. '
  'The XML helpers find the index-th node or the node with the given name, return element children only, and read back the numbers they wrote.',
  ['inputs', 'histories'], 'all networks of XML-buildable modules and connections',
  'The round-trip tests cover a few small networks; slices, shared connections, nested networks, several networks per file and in/out modules are combinations no test samples.',
  ['tools/customxml/networkwriter.py', 'tools/customxml/networkreader.py', 'tools/customxml/handling.py', 'utilities.py', 'structure/connections/connection.py', 'structure/connections/shared.py',
   'structure/connections/permutation.py', 'structure/modules/lstm.py', 'structure/modules/module.py', 'structure/parametercontainer.py'],
  [('writer and reader', 'tools/customxml/*.py'), ('setAllArgs, XMLBuildable', 'utilities.py'), ('argument recording in constructors', 'structure/**')])

p('P16', 'Saving, loading and naming dispatch on the requested format',
  'saveToFile and loadFromFile use the given format or the one belonging to the file extension (pickle when there is none), open the file in binary mode, call exactly the matching save or load method with the remaining arguments, and raise ValueError for an unknown format; a loaded object remembers its file name. '
  'Datasets are saved with their padding trimmed only when a compact copy is requested, and every dataset class is rebuilt by its own class from complete state. '
  'A named object generates its name once, on first use, from its class and a process-wide counter; a name that was set is kept.',
  ['inputs', 'histories'], 'all formats, extensions, dataset classes and naming orders',
  'Doctests save one dataset by pickle through a string; formats, extensions and subclass state are not enumerated.',
  ['utilities.py', 'datasets/dataset.py', 'datasets/supervised.py', 'datasets/unsupervised.py', 'datasets/reinforcement.py', 'datasets/classification.py'],
  [('Serializable', 'utilities.py'), ('Named', 'utilities.py'), ('__reduce__, save_pickle', 'datasets/*.py')])

p('P35', 'Contrastive divergence updates weights by data minus model statistics',
  'One contrastive-divergence step computes the positive statistics from the data row and its hidden probabilities, samples the hidden units, reconstructs the row with the inverse machine and subtracts the statistics of the reconstruction; batches average the updates over their rows. '
  'Weights and hidden biases move by momentum times the last update plus rate times the averaged update (minus the weight cost), momentum switches at the configured iteration, and the inverse machine always has the transposed weights and its own visible bias. '
  'Deep belief training trains each pair of layers on the data propagated through the layers already trained, with the trained weights copied, and leaves the parameters with the network.',
  ['inputs', 'histories'], 'all data sets, dimensions and training configurations',
  'The only test trains one machine on two patterns; unequal dimensions, several batches, momentum and stacked layers are not covered.',
  ['unsupervised/trainers/rbm.py', 'unsupervised/trainers/deepbelief.py', 'structure/networks/rbm.py'],
  [('RbmGibbsTrainer', 'unsupervised/trainers/rbm.py'), ('DeepBeliefTrainer', 'unsupervised/trainers/deepbelief.py'), ('Rbm', 'structure/networks/rbm.py')])

p('P17', 'One training epoch uses every sample once with the gradient of its error',
  'An epoch presents every sequence of the dataset exactly once. For each sequence the module is reset, activated on all inputs in order, and the output errors (target minus output, weighted by importance) are back-propagated in reverse order, so the accumulated derivatives belong to that sequence only; the error returned is half the summed squared (weighted) error over its ponderation. '
  'Online learning updates the parameters after every sequence with derivatives minus weight decay and clears the derivatives again; batch learning and RProp update once per epoch with the derivatives of all sequences. '
  'Epoch counters advance by one per epoch, a dataset must match the dimensions of the module, and mixture-density training uses the gradient of the negative log likelihood.',
  ['inputs', 'histories'], 'all modules, datasets (sequential and importance-weighted included) and training settings',
  'Tests check numerical gradients on a few small networks; batch mode with decay, importance, several sequences and epochs are not covered.',
  ['supervised/trainers/trainer.py', 'supervised/trainers/backprop.py', 'supervised/trainers/rprop.py', 'supervised/trainers/mixturedensity.py'],
  [('train, _calcDerivs', 'supervised/trainers/backprop.py'), ('RPropMinusTrainer', 'supervised/trainers/rprop.py'), ('BackpropTrainerMix', 'supervised/trainers/mixturedensity.py')])

p('P18', 'Training until convergence keeps the best validated parameters',
  'trainUntilConvergence trains only on the training part and validates only on the validation part; it keeps a copy of the parameters whenever the validation error reaches a new minimum and puts exactly those back into the module when it stops, at the latest after maxEpochs. '
  'It stops early only when the last continueEpochs errors all exceed the preceding ones or no longer change, restores the dataset, and returns the error histories up to the best epoch. NaN errors and splits without samples raise. '
  'testOnData sums errors and importances over all sequences with a module reset before each; testOnClassData returns the winning output (and target) index per sample.',
  ['inputs', 'histories'], 'all error histories, epoch limits and dataset splits',
  'One test runs the method once; whether the restored parameters are those of the best epoch depends on the error history.',
  ['supervised/trainers/backprop.py'],
  [('trainUntilConvergence, testOnData, testOnClassData', 'supervised/trainers/backprop.py')])

p('P19', 'Gradient descent follows its documented update rules',
  'Plain descent adds momentum times the last change plus learning rate times the gradient to the current values and decays the learning rate after each step. RProp moves every value by its own step in the direction of the gradient sign, multiplies the step by etaplus when the sign is kept and by etaminus when it switches, keeps it within the step limits and skips the adaptation after a switch. '
  'The natural gradient returns nothing until its sample size is reached, then uses exactly these samples. Initialisation copies the values and resets all step and momentum state; gradients of the wrong length are rejected.',
  ['inputs', 'histories'], 'all gradient sequences and settings',
  'No test examines the update rules themselves.',
  ['auxiliary/gradientdescent.py'],
  [('GradientDescent', 'auxiliary/gradientdescent.py'), ('NaturalGradient', 'auxiliary/gradientdescent.py')])

p('P20', 'Optimizers keep the best evaluation with its own evaluable',
  'Whatever the optimizer, evaluable and evaluator: every evaluation made through the optimizer increases numEvaluations by exactly one and is, when storage is enabled, appended to the evaluation and evaluable histories (as a copy) in the same order. '
  'bestEvaluation and bestEvaluable always belong together and are those of the best evaluation ever seen in the direction of optimization, as a copy that later search steps cannot change. '
  'The initial evaluable supplied by the user is copied, has the declared number of parameters, is wrapped when the optimizer needs flat arrays and handed back unwrapped; populations carried by an optimizer report the most recent evaluations; combining evaluation history with re-evaluation is consistent.',
  ['inputs', 'histories'], 'all optimizers built on BlackBoxOptimizer, evaluables, evaluators and evaluation sequences',
  'Tests run a few optimizers for a few steps on a sphere function; the best-so-far invariant depends on the order of evaluations and on later in-place changes.',
  ['optimization/optimizer.py', 'optimization/hillclimber.py', 'optimization/randomsearch.py', 'optimization/neldermead.py'],
  [('BlackBoxOptimizer._oneEvaluation, setEvaluator', 'optimization/optimizer.py'), ('ContinuousOptimizer, TopologyOptimizer', 'optimization/optimizer.py')])

p('P21', 'Minimization and maximization mirror each other',
  'The direction of optimization is the one requested explicitly, else the one declared by the evaluator, else maximization. An optimizer that can only maximize (or only minimize) works on the negated objective and negated desired evaluation, and the results it returns are negated back exactly once, so the value reported for the best evaluable is its value under the evaluator of the user. '
  'The negated objective negates the function and the desired value and inverts the direction flag. Comparisons of evaluations inside the search (stopping, bests, personal bests, ranking order) use the direction in force.',
  ['inputs', 'configurations'], 'all evaluators and direction settings',
  'Tests exercise one or two direction settings and check only that the search improves.',
  ['optimization/optimizer.py', 'optimization/hillclimber.py', 'optimization/populationbased/pso.py', 'rl/environments/functions/transformations.py'],
  [('_setMinimize, _flipDirection, _bestFound', 'optimization/optimizer.py'), ('oppositeFunction', 'rl/environments/functions/transformations.py')])

p('P22', 'Searches stop at their budgets and criteria, and never before',
  'learn performs learning steps until a stopping criterion holds and no more: the evaluation budget (allowing for the batch the next step needs), the number of learning steps (also the additional ones of a repeated call) and the desired evaluation in the direction of optimization; it notifies listeners once per step and returns the best found. '
  'Algorithm-specific criteria (inner search budgets, hill-climber acceptance of equal or better challengers, convergence of the distribution) are tested as documented.',
  ['inputs', 'histories'], 'all budgets, desired values, step counts and evaluation histories',
  'Off-by-one budgets and criteria that are never reached need histories the tests do not produce.',
  ['optimization/optimizer.py', 'optimization/hillclimber.py', 'optimization/randomsearch.py', 'optimization/memetic/memetic.py'],
  [('learn, _learnStep, _stoppingCriterion', 'optimization/optimizer.py'), ('HillClimber, StochasticHillClimber', 'optimization/hillclimber.py')])

p('P23', 'Population searches preserve their population invariants',
  'Evolution strategies keep populations of exactly mu (+ lambda) pairs of an individual and its own evaluation, each offspring being a mutated copy of a parent that stays unchanged, and rank them best first. Genetic algorithms keep the population size, keep the elite unchanged, select the best evaluated individuals, cross parents at interior points, mutate copies only and respect the bounds. '
  'Particle swarms keep each best position with its own best evaluation, update velocities by the documented rule and use the neighbourhoods of the declared topology (ring: the two adjacent particles). '
  'Memetic searches restore the mutation operator they switched and evaluate each topology by the best result of its own local search.',
  ['inputs', 'histories'], 'all population sizes, operators, bounds, evaluations and generations',
  'The tests only run a few generations and look at the best evaluation; a shared individual, an off-by-one crossover point or a stale fitness is not visible there.',
  ['optimization/populationbased/es.py', 'optimization/populationbased/evolution.py', 'optimization/populationbased/ga.py', 'optimization/populationbased/pso.py', 'optimization/memetic/memetic.py', 'optimization/memetic/innermemetic.py'],
  [('ES', 'optimization/populationbased/es.py'), ('GA', 'optimization/populationbased/ga.py'), ('ParticleSwarmOptimizer', 'optimization/populationbased/pso.py')])

p('P24', 'Multi-objective selection returns non-dominated fronts',
  'A non-dominated front contains exactly the items no other item dominates (for constrained problems: feasible items dominate infeasible ones and less violating items dominate more violating ones); the divide-and-conquer variants merge the fronts of both parts; sorting peels fronts off one by one until nothing is left. '
  'The crowding distance of an item is the sum of the normalised gaps to its neighbours in every objective, with extreme items favoured. NSGA-II selects whole fronts in order until the survivors are complete and cuts only the last one, by decreasing crowding distance; the GA built on it evaluates every new individual once, keeps known evaluations and reports the front with the evaluations belonging to it.',
  ['inputs', 'configurations'], 'all finite sets of items, objectives and constraint violations',
  'Only one example script uses this code; ties, constant objectives and populations above the merge threshold are never tested.',
  ['tools/nondominated.py', 'optimization/populationbased/multiobjective/nsga2.py', 'optimization/populationbased/multiobjective/constnsga2.py'],
  [('non_dominated_front, crowding_distance', 'tools/nondominated.py'), ('nsga2select', 'optimization/populationbased/multiobjective/nsga2.py')])

p('P25', 'Search distributions are updated by their published rules',
  'CMA-ES, SNES, XNES, rank-1 NES, exact and vanilla natural evolution strategies and fitness expectation maximization draw each batch from the current distribution, associate each utility with the sample it was computed from, and update mean, step sizes, covariance factors, paths and mixture weights by the documented formulas, keeping factor, inverse factor and determinant consistent. '
  'Default batch sizes and learning rates are the documented functions of the dimension. Importance mixing reuses an old sample with probability proportional to the density ratio and completes the batch with exactly the missing number of new ones.',
  ['inputs', 'histories'], 'all dimensions, batch sizes, samples, evaluations and generations',
  'The tests check progress on a sphere function; a wrong transposition, factor or pairing of samples with utilities still makes progress there.',
  ['optimization/distributionbased/cmaes.py', 'optimization/distributionbased/snes.py', 'optimization/distributionbased/xnes.py', 'optimization/distributionbased/rank1.py', 'optimization/distributionbased/ves.py',
   'optimization/distributionbased/nes.py', 'optimization/distributionbased/fem.py', 'auxiliary/importancemixing.py'],
  [('_learnStep', 'optimization/distributionbased/*.py'), ('importanceMixing', 'auxiliary/importancemixing.py')])

p('P26', 'Finite-difference searches estimate gradients from matching perturbations',
  'Finite differences, SPSA and PGPE evaluate symmetric or one-sided perturbations of the current parameters, combine each evaluation only with the perturbation it was produced by, and move along the estimated gradient with the configured step sizes; exploration widths, baselines and perturbation decay follow the documented rules. '
  'Fitness shaping functions return one utility per evaluation that depends on the ranks only as documented (equal sums, best first, order preserved).',
  ['inputs', 'histories'], 'all dimensions, batch sizes, perturbations and evaluations',
  'Tests check progress only, with fixed seeds and one configuration.',
  ['optimization/finitedifference/fd.py', 'optimization/finitedifference/spsa.py', 'optimization/finitedifference/pgpe.py', 'tools/rankingfunctions.py'],
  [('FiniteDifferences, SimpleSPSA, PGPE', 'optimization/finitedifference/*.py'), ('shaping functions', 'tools/rankingfunctions.py')])

p('P27', 'Coevolution scores individuals by the games they actually played',
  'Each relative evaluation is recorded for the ordered pair of opponents (wins, games, summed score) and each player knows its opponents; the score of a pair nets both directions over all their games, unknown pairs score zero. Tournaments never match an individual with itself and play both sides. '
  'Generations keep the population size, archive the best individual and its fitnesses, reproduce from the best evaluated individuals only, keep parents unchanged and track the parent of every mutated copy; competitive and multi-population variants evaluate each population against the others and rotate their roles.',
  ['inputs', 'histories'], 'all populations, evaluators and generation counts',
  'The tests look at a small tag game only; bookkeeping across generations, hall-of-fame evaluation and shared sampling are not examined.',
  ['optimization/populationbased/coevolution/coevolution.py', 'optimization/populationbased/coevolution/competitivecoevolution.py', 'optimization/populationbased/coevolution/multipopulationcoevolution.py'],
  [('_relEval, _beats, _doTournament, _oneGeneration', 'optimization/populationbased/coevolution/*.py')])

p('P28', 'The interaction loop pairs each action with its own observation and reward',
  'One interaction step obtains one observation, gives it to the agent, performs the action the agent answers and gives the resulting reward back, exactly once each and in that order. doInteractions performs exactly the requested number of steps; doEpisodes starts every episode with a new episode of the agent and a reset task, interacts until the task is finished, and returns one list of rewards per episode, in order (black-box learners get exactly that many more evaluations instead). A logging agent stores exactly one (observation, action, reward) sample per interaction, when the reward arrives and only while logging is on, rejects steps out of order, and newEpisode and reset separate and clear the log. A learning agent activates its module on the last observation, lets the learner explore only while learning, and forwards new episodes, resets and learning to its learner (only while learning). Queued experiments learn from a full queue, then drop the oldest episode and add one new one. Linear function-approximation agents pass their learner the previous observation, action and reward with the next observation (and next action where asked for), with the configured exploration and its decay per episode.',
  ['inputs', 'histories'], 'all tasks, agents, learners, step and episode counts',
  'The tests run one maze and one cart pole; an observation logged with the next action, a skipped reset or a learner called on the wrong episode does not show there.',
  ['rl/agents/logging.py', 'rl/agents/learning.py', 'rl/agents/linearfa.py', 'rl/experiments/experiment.py', 'rl/experiments/episodic.py', 'rl/experiments/continuous.py', 'rl/experiments/queued.py', 'rl/learners/learner.py'],
  [('_oneInteraction, doInteractions, doEpisodes', 'rl/experiments/*.py'), ('LoggingAgent, LearningAgent', 'rl/agents/*.py')])

p('P29', 'Value-based learners apply exactly their update rules to every logged transition',
  'In batch mode Q, SARSA and Q(lambda) visit every sequence and every transition of the log in order and add alpha times the temporal-difference error of their rule to the value of the state and action the transition started from (greedy next value for Q, the value of the action actually taken for SARSA, the values weighted by lambda to the power of their distance from the end of the log for Q(lambda)), and no other value changes; Q and SARSA learn nothing across the boundary of two sequences. '
  'Action value tables map a state and action to their own cell, and maximum and greedy action are taken over the actions of the queried state only, ties being broken among all maximal actions. Fitted Q builds one training sample per transition within a sequence: the state with the one-of-n coded action taken, and the current estimate moved halfway towards the bootstrapped return. '
  'Linear function-approximation learners keep one weight vector per action, update it by their documented rules (gradient Q, Q(lambda), SARSA(lambda), LSTDQ/LSPI, GQ(lambda)), follow their policies as documented, and reset or decay traces and learning rates at episode ends.',
  ['inputs', 'histories'], 'all transition logs, tables, features, learning rates, discounts and traces',
  'A learner with a shifted reward, a missing discount or a wrong next action still solves the small maze of the tests.',
  ['rl/learners/valuebased/q.py', 'rl/learners/valuebased/sarsa.py', 'rl/learners/valuebased/qlambda.py', 'rl/learners/valuebased/nfq.py', 'rl/learners/valuebased/interface.py', 'rl/learners/valuebased/linearfa.py'],
  [('learn', 'rl/learners/valuebased/{q,sarsa,qlambda,nfq}.py'), ('ActionValueTable, ActionValueNetwork', 'rl/learners/valuebased/interface.py'), ('LinearFALearner and subclasses', 'rl/learners/valuebased/linearfa.py')])

p('P30', 'Explorers perturb as configured and policy gradients use their log-likelihoods',
  'Epsilon-greedy exploration replaces the action by one of the allowed actions with probability epsilon and otherwise passes it through, decaying epsilon by the configured factor per choice; Boltzmann exploration draws among the actions of the state with the softmax of their values at the current temperature, which decays per choice; normal and state-dependent explorers add noise of the configured spread and report the derivative of the log-likelihood of the perturbed action. '
  'A policy-gradient learner connects its explorer behind the policy network once, logs the log-likelihood of every step with the step, and performs one update along the estimated gradient per batch: Reinforce sums likelihood-weighted returns with the per-parameter optimal baseline, ENAC solves the least squares system with one row per sequence.',
  ['inputs', 'histories'], 'all actions, states, sigmas, temperatures and episode logs',
  'Exploration is random: tests only see that learning improves, and a wrong derivative, decay or baseline still does.',
  ['rl/explorers/explorer.py', 'rl/explorers/continuous/normal.py', 'rl/explorers/continuous/sde.py', 'rl/explorers/discrete/discrete.py', 'rl/explorers/discrete/boltzmann.py', 'rl/explorers/discrete/egreedy.py', 'rl/explorers/discrete/discretesde.py', 'rl/learners/directsearch/policygradient.py', 'rl/learners/directsearch/reinforce.py', 'rl/learners/directsearch/enac.py'],
  [('_forwardImplementation, activate', 'rl/explorers'), ('learn, calculateGradient', 'rl/learners/directsearch')])

p('P31', 'Model-based evaluation solves the Bellman equations of the given policy',
  "Rewards belong to the state entered. trueValues sums discount^i * T^(i+1) R over the documented horizon; action values weight the reward plus the discounted value of every successor with its transition probability; collapsing transitions weights the row of each action's transition matrix with the probability the policy gives that action in that state. Greedy policies give each state equal probability over exactly its best actions, random policies are uniform (or deterministic with one random action per state), and policy iteration alternates evaluation and greedy improvement until the policy changes by less than 0.001 or the iteration limit is reached, returning a policy together with its own collapsed transitions. Least-squares TD statistics weight every transition with its probability and discount only the features of the successor; both ways of gathering them agree.",
  ['inputs'], 'all transition tensors, rewards, discounts, features and policies',
  'No unit test covers these functions beyond one example environment.',
  ['rl/learners/modelbased/policyiteration.py', 'rl/learners/modelbased/leastsquares.py'],
  [('trueValues, policyIteration', 'rl/learners/modelbased/policyiteration.py'), ('LSTD_values, LSPI_policy', 'rl/learners/modelbased/leastsquares.py')])

p('P32', 'Tasks scale sensors and actions, count samples and accumulate rewards faithfully',
  'A task passes sensors through normalisation from their limits to [-1, 1] and actions through the inverse, entry by entry, leaving entries without limits untouched and clipping only when enabled; without limits it passes both through unchanged. An episodic task counts every performed action as one sample, adds the reward (multiplied with discount to the power of the samples so far, if a discount is set) to the cumulated reward exactly once per step, after the action, and reset clears counters and rewards together with its environment. Evaluating a module resets it and the task, feeds each observation to the module and its output to the task until the task is finished, and returns the total reward averaged over batchSize such episodes; an agent is evaluated by whole episodes. Function environments check their dimension against the admitted range, evaluate parameter containers by their parameters, deliver the result of an action once as the next sensor reading, and call the function the user reads.',
  ['inputs', 'histories'], 'all limits, sensor readings, actions, rewards, discounts and modules',
  'Tests use tasks without limits or discounts.',
  ['rl/environments/task.py', 'rl/environments/episodic.py', 'rl/environments/fitnessevaluator.py', 'rl/environments/functions/function.py'],
  [('Task.normalize, denormalize', 'rl/environments/task.py'), ('EpisodicTask', 'rl/environments/episodic.py'), ('FunctionEnvironment', 'rl/environments/functions/function.py')])

p('P33', 'Board games enforce their rules and tournaments keep honest scores',
  'In the capture game, gomoku and pente a move is legal exactly on a free field (for the capture game without suicides: one that does not kill the own group); an illegal move is refused and changes nothing but the move count. A legal move places one stone of the mover, updates connected groups and their liberties (merging the groups it touches), and ends the game for the winner exactly when the winning condition is reached: capturing a group (a suicide or resignation loses), five in a row in any of the four directions, or the fifth captured pair; a full board is a draw. Pente removes exactly the captured pairs, those flanked on both ends. Legal, killing and acceptable move lists are exactly the moves with that property, and a board array marks white and black stones in separate positions. A tournament plays every ordered pair of distinct agents once per round, each game from a reset board with alternating moves and the right colours, records each result for the ordered pair that played, and adjusts the Elo scores of both players by the same amount from exactly those results.',
  ['inputs', 'histories'], 'all boards, move sequences and sets of agents',
  'The tests play random games; group merging, liberties at the borders and diagonal lines need particular positions.',
  ['rl/environments/twoplayergames/twoplayergame.py', 'rl/environments/twoplayergames/capturegame.py', 'rl/environments/twoplayergames/gomoku.py', 'rl/environments/twoplayergames/pente.py', 'rl/experiments/tournament.py'],
  [('CaptureGame, GomokuGame, PenteGame', 'rl/environments/twoplayergames'), ('Tournament', 'rl/experiments/tournament.py')])

p('P34', 'Benchmark functions have the documented values, optima and transformations',
  'Every benchmark function (unimodal and multimodal) returns the value of its documented formula at the given point for every admissible dimension, keeps its optimum at the declared location, and does not modify its argument. Translated, rotated, penalized and BBOB-style transformed functions evaluate the base function at the transformed point with the documented distance, conditioning, asymmetry and oscillation, keep dimension, desired value and direction of optimization, and add the boundary penalty in the direction that makes points outside the box worse, only if the base function is not penalized already. The BBOB functions combine the documented base function with the documented transformation options and noise, and the multi-objective benchmarks return the negated documented objectives, with feasibility and violation of the constraints at the evaluated point.',
  ['inputs'], 'all points, dimensions and transformation options',
  'Tests evaluate a few functions at a few points; cross terms, index ranges and weights only matter in higher dimensions.',
  ['rl/environments/functions/unimodal.py', 'rl/environments/functions/multimodal.py', 'rl/environments/functions/transformations.py', 'rl/environments/functions/bbob2010.py', 'rl/environments/functions/multiobjective.py'],
  [('f of every function class', 'rl/environments/functions/{unimodal,multimodal}.py'), ('TranslateFunction, RotateFunction, SoftConstrainedFunction, BBOBTransformationFunction', 'rl/environments/functions/transformations.py')])

p('P36', 'Validation measures compare every output with its own target',
  'Mean squared error, explained sum of squares and classification performance are computed over all pairs of an output and the target at the same position, and refuse arrays of different size; sequence measures restrict or weight the positions exactly by the importance or by the ends of the sequences. Module validation activates the module on every input of the dataset in order (resetting it before each sequence, or once for plain datasets) and compares with the targets of the same samples, with the importances when the dataset has them. k-fold cross validation partitions a permutation of the samples into folds that are disjoint and cover the data, trains a fresh copy of the trainer on all other folds (for the configured number of epochs), evaluates it on the fold left out and averages.',
  ['inputs'], 'all datasets, modules, fold counts and validators',
  'Tests validate one module on one dataset, where misaligned targets or a skipped last sequence may go unnoticed.',
  ['tools/validation.py'],
  [('Validator, ModuleValidator, CrossValidator', 'tools/validation.py')])

p('P37', 'Numerical and combinatorial helpers compute what their names promise',
  'The shared helpers return the documented result for every admissible argument and leave their arguments unchanged: index draws proportional to the probabilities (and softmax draws at a temperature), Gray-code and binary conversions that invert each other, one-of-n coding and decoding, cross products, permutations and block permutations, triangular matrix flattening and its inverse, block matrices, dictionary matching and combinations, random and exhaustive argmax, running percentages and confidence intervals. '
  'Activation functions and their derivatives, safe exponentials, ranking, expln, densities, the chi approximation and matrix roots follow their formulas elementwise on arrays of any shape. Save/load round-trips through the format named by the file extension, object names are unique unless given, and argument dictionaries only set attributes that exist.',
  ['inputs'], 'all arguments in the documented domain',
  'Doctests sample a handful of arguments; boundary values, non-square blocks and ties are not among them.',
  ['utilities.py', 'tools/functions.py'],
  [('helper functions', 'utilities.py'), ('activation and density functions', 'tools/functions.py')])

p('P39', 'Simulated worlds move, sense, reward and end by their documented rules',
  'The bundled simulations follow their documented rules from every state and for every action. Mazes: an action moves one cell in its direction unless a wall blocks it (then the position stays and the bump is recorded), polar mazes turn and move relative to the heading, sensors report the walls around the cell (relative to the heading) with flips and random actions only at the configured probability, and the maze tasks (cheese, T-maze, 4x3, shuttle docking, tiger, fully observable) reward the goal, bumps and other steps as configured, observe what they document and end at the goal or after the step limit. '
  'Cart-pole (one or two poles, linearized, with and without velocities): the state follows the documented equations of motion for the applied force, resets put the cart and poles in the documented range, sensors are in the documented order; balancing tasks scale, discretize, reward and end by angle, position and step limits. Mountain car, acrobot, ship steering, XOR and the simple environment: each step applies the documented dynamics with the documented bounds on speed, position and angle, and counts, rewards and finishes episodes as stated.',
  ['inputs', 'histories'], 'all states, actions, configurations and episode histories; random draws are opaque values',
  'The suite runs a few steps of the 4x3 maze and the mountain car; walls, headings, bounds and boundary states are reached only by particular action sequences.',
  ['rl/environments/mazes', 'rl/environments/cartpole', 'rl/environments/classic', 'rl/environments/shipsteer', 'rl/environments/simple'],
  [('Maze, PolarMaze and their tasks', 'rl/environments/mazes'), ('CartPoleEnvironment, BalanceTask and variants', 'rl/environments/cartpole'), ('MountainCar, AcrobotTask, XORTask', 'rl/environments/classic'), ('ShipSteeringEnvironment, GoNorthwardTask, SimpleEnvironment, MinimizeTask', 'rl/environments/shipsteer, rl/environments/simple')])

p('P06', 'Training and search converge to good solutions',
  'Gradient training decreases the error of learnable problems, optimizers approach the optimum of benchmark functions, and reinforcement learners find rewarding policies for solvable tasks within reasonable budgets.',
  ['inputs', 'histories'], 'all problems a method is documented to solve, all random seeds',
  'Single seeded runs say nothing about other problems or seeds.',
  ['supervised/trainers/backprop.py', 'optimization/optimizer.py'],
  [('train, trainUntilConvergence, learn', 'supervised/trainers, optimization, rl')],
  na='Quantifies over the run-time trajectory of floating-point iterations on unknown objectives; no sound static argument on the source bounds it. The update rules themselves are covered by P17-P19, P22, P25, P26 and P29-P31.')

p('P09', 'Random draws follow their distributions',
  'Samples, noise, initial parameters and shuffles are distributed as documented and independent across draws.',
  ['inputs', 'schedules'], 'all seeds',
  'A finite sample cannot settle a distribution.',
  ['utilities.py', 'rl/explorers/explorer.py'],
  [('drawIndex, drawGibbs, random starts', 'utilities.py')],
  na='The quality of numpy and random generators is outside the source of pybrain; which generator call is made with which arguments, under which condition, is part of the obligations of P19, P25, P30 and P37.')

p('P38', 'Results are numerically accurate and computed in bounded time',
  'Sums, products, matrix inversions and exponentials stay accurate to rounding and every call returns within the time its size suggests.',
  ['inputs'], 'all finite inputs',
  'Overflow, cancellation and slow paths depend on magnitudes a test does not sample.',
  ['tools/functions.py', 'structure/modules/lstm.py'],
  [('safeExp, sigmoid, sqrtm', 'tools/functions.py')],
  na='The analysis compares real-valued formulas; rounding, overflow and running time depend on magnitudes of run-time data that no static argument over unannotated Python bounds. Guards against overflow (safeExp, clipping) are compared as code under P37 and P01.')
