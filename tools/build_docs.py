#!/opt/venv/bin/python
""" Writes properties.jsonl and MANIFEST.json from the definitions below and the check modules which exist. """
import importlib
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, state=()):
    assert len(title) <= 80, title
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': ['aideme/' + f for f in files],
                          'state': [{'name': a, 'meaning': b} for a, b in state],
                          'mechanism': [{'name': a, 'where': 'aideme/' + b} for a, b in mechanism],
                          'observe_at': observe, 'hook_needed': None}})


ONEDIM = 'The reliable tests only sample the one-dimensional convex region; nothing at all is tested here.'

prop('C01', 'Every data point is in exactly one partition, with its own row and label',
     'At every moment of any history of operations on a partitioned dataset, each data point is in exactly one of the labeled, inferred and unknown '
     'partitions, and every view of the dataset (whole, per partition, by index, subsampled, selected, copied) pairs each index with its own data row '
     'and, when labeled, with the label and partial labels the user last gave. Moving points changes only the partition of the named points, and '
     'a subsample never repeats a point nor leaves the requested partition.',
     ['histories', 'inputs', 'configurations'],
     'for all datasets, index styles and histories of moves, clears, label updates, subsampling, selection and copies',
     ONEDIM + ' The invariant spans arbitrarily long histories of in-place swaps.',
     ['explore/partitioned.py', 'explore/index.py', 'explore/labeledset.py'],
     [('row swaps between contiguous partitions', 'explore/partitioned.py:PartitionedDataset'), ('index <-> row map', 'explore/index.py:Index'),
      ('IndexedDataset views', 'explore/partitioned.py:IndexedDataset')],
     ['PartitionedDataset.{data,index,labeled,infered,unknown,training_set,select_cols,copy}', 'IndexedDataset.{sample,get_index,__getitem__}'],
     [('partition sizes', 'contiguous row ranges holding labeled, inferred and unknown points')])

prop('C02', 'A rejected change to the dataset leaves it exactly as it was',
     'An operation on a partitioned dataset which is rejected (an unknown index, a move which its source partition does not allow, malformed labels) changes '
     'nothing: no point changes partition, no label changes, and all later valid operations behave as if the rejected one had never been made.',
     ['histories', 'inputs', 'fault_sequences'],
     'for all histories interleaving valid operations with invalid ones, whatever the position of the invalid element inside a batch',
     'No test feeds invalid moves, let alone batches whose later elements are invalid, in the middle of a history.',
     ['explore/partitioned.py', 'explore/index.py', 'explore/labeledset.py'],
     [('validation before moving', 'explore/partitioned.py:PartitionedDataset'), ('index lookup', 'explore/index.py:Index.get_rows'),
      ('LabeledSet validation', 'explore/labeledset.py:LabeledSet')],
     ['PartitionedDataset after a raised exception'])

prop('C03', 'The learner is trained on exactly the labels the user gave',
     'After every accepted answer, the training data handed to the learner holds each point answered so far exactly once, with its own data row and exactly the '
     'label (and partial labels, for factorized learners) the user gave for it, and nothing else. The answers of the last batch are available to the learner as '
     'such, and an answer whose processing fails is either recorded entirely or not at all.',
     ['schedules', 'inputs', 'fault_sequences'],
     'for all sessions, batch sizes, learners and failures of the learner or interrupts at any point of an iteration',
     'No test runs an exploration; the property relates every iteration to the whole history of answers.',
     ['explore/manager.py', 'explore/partitioned.py', 'explore/labeledset.py', 'active_learning/active_learner.py'],
     [('recording the answer', 'explore/manager.py:ExplorationManager.update'), ('labeled set accumulation', 'explore/partitioned.py:PartitionedDataset.move_to_labeled'),
      ('fit input', 'active_learning/active_learner.py:ActiveLearner.fit_data, FactorizedActiveLearner.fit_data')],
     ['arguments of the learner\'s fit', 'PartitionedDataset.{training_set,last_training_set,labeled}'])

prop('C04', 'The final labeling covers every point once and repeats the user\'s own labels',
     'The labeling of the whole dataset computed from an exploration holds every point exactly once, keeps the user\'s own label for the points the user labeled, '
     'and gives every other point the learner\'s prediction for its own data row. A labeling handed out stays unchanged while the exploration goes on.',
     ['schedules', 'histories', 'configurations'],
     'for all sessions, learners and moments of the exploration at which the labeling is computed',
     'No test computes a labeling; the row and index bookkeeping only goes wrong after particular histories of moves.',
     ['explore/manager.py', 'explore/partitioned.py', 'explore/labeledset.py', 'active_learning/dsm/base.py'],
     [('labeling', 'explore/manager.py:ExplorationManager.compute_user_labels_prediction'), ('predicted user labels', 'explore/partitioned.py:PartitionedDataset.predict_user_labels'),
      ('concatenation', 'explore/labeledset.py:LabeledSet.concat')],
     ['LabeledSet returned by the labeling methods'])

prop('C05', 'Every iteration asks for new points, and exploration ends when all are labeled',
     'Every iteration of an exploration presents at least one point which was not presented before, and an exploration without other convergence '
     'criterion ends, after finitely many steps, exactly when every point is labeled. Once injected failures stop, the same session still finishes.',
     ['schedules', 'configurations', 'fault_sequences'],
     'for all learners, initial samplers, subsampling sizes, batch sizes, datasets and answers (consistent ones, where the learner requires them); for all finite sequences of failures and interrupts of the learner',
     'No test runs an exploration; progress needs whole histories, including the last points, one-class samples and short batches.',
     ['explore/manager.py', 'explore/explore.py', 'active_learning/active_learner.py', 'active_learning/random.py', 'active_learning/margin.py', 'active_learning/dsm/base.py',
      'active_learning/version_space/base.py', 'active_learning/entropy.py', 'active_learning/query_by_disagreement.py', 'initial_sampling.py'],
     [('exploration loop', 'explore/explore.py:PoolBasedExploration'), ('next points', 'explore/manager.py:ExplorationManager.get_next_to_label'),
      ('selection', 'active_learning/active_learner.py:ActiveLearner.next_points_to_label'), ('dual space selection', 'active_learning/dsm/base.py:DualSpaceModelBase.next_points_to_label')],
     ['labeled_indexes of each iteration', 'PartitionedDataset sizes', 'executed lines per session'])

prop('C06', 'The same seed gives the same exploration, whatever happened before',
     'Two runs of the same exploration with the same seed produce the same iterations: same points in the same order, same labels, phases and metrics. This holds '
     'whatever ran before in the process, on a fresh or an already used learner, for a run alone or as a repeat among others, as a generator or as a list, and at any speed.',
     ['schedules', 'histories', 'configurations'],
     'for all learners, seeds, prior uses of the process and of the learner, clock behaviours and repeat positions',
     'Reproducibility relates pairs of executions; no test runs an exploration at all.',
     ['explore/explore.py', 'utils/random.py', 'initial_sampling.py', 'active_learning/active_learner.py', 'active_learning/dsm/base.py', 'active_learning/version_space/base.py',
      'active_learning/factorization/active_learning.py'],
     [('seeding each run', 'explore/explore.py:PoolBasedExploration'), ('tie-breaking', 'utils/random.py'), ('state reset', 'active_learning/active_learner.py:ActiveLearner.clear')],
     ['the metrics of every iteration'])

prop('C07', 'An aborted or failed run leaves no trace on the next one',
     'When an exploration is abandoned, fails or is interrupted at any point, the next exploration started with the same learner and the same exploration object '
     'behaves exactly as if the failed one had never happened: same points, labels, phases and metrics.',
     ['crash_points', 'schedules', 'fault_sequences'],
     'for all learners and all points at which a run can stop: between iterations, inside any seam (learner, callback, sampler, criterion, noise), or at any executed line outside of the dataset bookkeeping',
     'A crash point is a position in an execution; no test interrupts anything.',
     ['explore/explore.py', 'explore/manager.py', 'utils/metric_logger.py', 'active_learning/active_learner.py', 'active_learning/dsm/base.py', 'active_learning/version_space/base.py',
      'active_learning/factorization/active_learning.py'],
     [('reset at the start of a run', 'explore/manager.py:ExplorationManager.clear'), ('metric buffer', 'utils/metric_logger.py'), ('learner reset', 'active_learning/*:clear')],
     ['the metrics of every iteration of the run after the failed one'])

prop('C08', 'Iteration records are complete, immutable, and exact about time',
     'Each iteration record holds the points presented, the labels and partial labels given for them, the phase and the timings of that very iteration, plus exactly the values the '
     'callbacks returned for it, and no value of another iteration. Timings equal the time which elapsed inside the timed step, and a record which was handed out never changes afterwards.',
     ['schedules', 'inputs', 'histories'],
     'for all sessions, callbacks, callback schedules and clock behaviours, including jumps and frozen clocks',
     'Attribution and immutability span several iterations; exact timing needs a controlled clock.',
     ['explore/explore.py', 'explore/manager.py', 'utils/metric_logger.py', 'utils/metrics.py'],
     [('metric logger', 'utils/metric_logger.py'), ('record of an iteration', 'explore/explore.py:PoolBasedExploration'), ('iteration times', 'explore/manager.py:ExplorationManager')],
     ['metrics yielded by the exploration', 'virtual clock'])

prop('C09', 'Runs stop at the first satisfied criterion; callbacks fire on schedule',
     'A run stops after the first iteration at which any given convergence criterion is satisfied or no point is left to label, and not before (a limit of N iterations does not count the first one). Callbacks run after the first iteration, then once every '
     'given number of iterations, and always at the last iteration, and always see the state right after that iteration\'s answer.',
     ['schedules', 'configurations'],
     'for all criteria (iteration limits, metric thresholds, changes of metrics), callback periods and lengths of the run',
     'The schedule concerns every iteration of every configuration; no test runs an exploration.',
     ['explore/explore.py', 'explore/manager.py', 'utils/convergence.py', 'utils/metrics.py'],
     [('convergence', 'explore/manager.py:ExplorationManager.converged'), ('criteria', 'utils/convergence.py'), ('callback schedule', 'explore/explore.py')],
     ['number of iterations', 'calls of each callback and criterion'])

prop('C10', 'Initial samples obey their contract before active learning starts',
     'A run starts with its initial sampler\'s points and then switches, once and for good, to points chosen by the learner. The samplers keep their contract for every seed: stratified samples have the requested numbers of positive and '
     'negative points (negative in all subspaces when asked), random samples the requested size and fixed samples the given points, without repeats and only from the '
     'dataset, any admissible point can be drawn; with a random sampler the initial phase goes on until both classes were seen.',
     ['inputs', 'configurations', 'schedules'],
     'for all datasets, label distributions, index styles, sampler parameters and seeds',
     'No test covers sampling; contracts must hold for every draw.',
     ['initial_sampling.py', 'explore/manager.py'],
     [('samplers', 'initial_sampling.py'), ('phases', 'explore/manager.py:ExplorationManager')],
     ['indexes presented in each phase', 'phase of each record'])

prop('C11', 'Label noise flips only what it may, when it may',
     'With label noise enabled, the labels of the initial sample and of the first skipped iterations are exactly the user\'s, later labels are flipped with the given probability (never at 0, always at 1), '
     'and the final label of a point always agrees with its partial labels. The user\'s own answers are never modified.',
     ['inputs', 'schedules', 'configurations'],
     'for all sessions, noise probabilities, numbers of skipped iterations, batch sizes and partial labels',
     'No test covers noise; the schedule spans the phases of a session.',
     ['utils/noise.py', 'explore/explore.py', 'explore/labeledset.py'],
     [('noise injection', 'utils/noise.py'), ('where noise applies', 'explore/explore.py')],
     ['labels in each record against the user\'s labels'])

prop('C12', 'The caller\'s own data is never damaged',
     'With copying enabled (the default) an exploration never modifies the data, labels, indexes or lists given by the caller, and works on read-only or strided arrays. With copying disabled it may only permute whole rows of '
     'the given data, so that each row still exists exactly once, and everything else stays untouched.',
     ['inputs', 'fault_sequences', 'configurations'],
     'for all sessions, learners and input layouts, also when the session fails in the middle',
     'No test compares inputs before and after an exploration.',
     ['explore/explore.py', 'explore/partitioned.py', 'explore/labeledset.py', 'utils/validation.py', 'utils/metrics.py'],
     [('copy flag', 'explore/partitioned.py:PartitionedDataset'), ('copies of labels and indexes', 'explore/labeledset.py')],
     ['bytes of every array and list of the caller, before and after'])

prop('C13', 'The dual space model never contradicts a truly convex user interest',
     'When the user\'s positive region is convex (per subspace for the factorized model, convex complement in negative mode), every label which the dual space model infers without asking is the label the user would give. '
     'No label it infers is ever contradicted by later answers, however the answers are ordered or batched.',
     ['inputs', 'histories', 'schedules'],
     'for all convex concepts on dyadic grids in 1 to 3 dimensions, all modes, factorizations and orders of answers',
     ONEDIM + ' Soundness needs every combination of answers and points.',
     ['active_learning/dsm/polytope.py', 'active_learning/dsm/model.py', 'active_learning/dsm/base.py', 'active_learning/dsm/convex/convex.py', 'active_learning/dsm/convex/geometry.py', 'active_learning/dsm/convex/one_dim_convex.py'],
     [('positive region and negative cones', 'active_learning/dsm/convex'), ('polytope model', 'active_learning/dsm/polytope.py'), ('cache of inferred labels', 'active_learning/dsm/model.py')],
     ['inferred partition during a session', 'predictions of the polytope model'])

prop('C14', 'Polytope knowledge is exactly what convexity implies, in any order',
     'Once the answers span the space, a polytope model answers positive exactly for the points in the convex hull of the positive answers, negative exactly for the points whose addition to the hull would capture a negative answer, and unknown '
     'otherwise (before that, it may know less but nothing wrong; the corresponding closed forms hold for categorical and multiset data and factorizations). The outcome does not depend on the order or batching of the answers, on predictions made in between, nor on saving and restoring the model, and contradictory answers are reported '
     'without losing the others.',
     ['inputs', 'histories', 'schedules'],
     'for all sequences of labeled batches, interleaved with predictions, pickling, conflicts and interrupted updates which are retried',
     ONEDIM + ' Order independence relates all permutations of a history.',
     ['active_learning/dsm/polytope.py', 'active_learning/dsm/convex/convex.py', 'active_learning/dsm/convex/geometry.py', 'active_learning/dsm/convex/one_dim_convex.py'],
     [('convex hulls and cones', 'active_learning/dsm/convex/convex.py'), ('updates', 'active_learning/dsm/polytope.py'), ('one-dimensional hull', 'active_learning/dsm/convex/one_dim_convex.py')],
     ['predictions of every polytope class after every update'])

prop('C15', 'A dual space session uses what is already known before asking',
     'During a dual space exploration, the inferred partition holds exactly the unlabeled points whose label the current polytope knowledge determines, among those it has examined, and while any undetermined point remains the user is never asked about a point whose '
     'label is already determined. The inner learner is trained on all the user\'s labels, and on the labels of determined points it would have asked, as long as the knowledge supports them; it is trained on no other label. '
     'Predictions are the determined labels, and those of the inner learner elsewhere.',
     ['schedules', 'histories', 'configurations'],
     'for all dual space configurations, orders of answers, batch sizes and noise-induced conflicts',
     'No test covers the dual space model; the invariant relates three data structures across a session.',
     ['active_learning/dsm/base.py', 'active_learning/dsm/dsm.py', 'active_learning/dsm/model.py', 'active_learning/dsm/polytope.py', 'explore/partitioned.py'],
     [('session logic', 'active_learning/dsm/base.py'), ('cached labels', 'active_learning/dsm/model.py')],
     ['inferred partition', 'arguments of the inner learner\'s fit', 'next points to label'])

prop('C16', 'The three-set metric never exceeds the true F-score',
     'For a convex user interest, the three-set metric reported by the dual space model at any moment of a session lies between 0 and the F-score of the model\'s predictions against the user\'s true labels (and that of its certain positives '
     'alone); it equals the share of certain positives among the points not proven negative, and is 1 only when every prediction is correct.',
     ['histories', 'inputs', 'schedules'],
     'for all sessions of the dual space model with convex concepts, at every iteration',
     'No test covers the metric; the bound must hold at each step of each session.',
     ['utils/metrics.py', 'active_learning/dsm/base.py', 'active_learning/dsm/polytope.py'],
     [('three-set metric', 'utils/metrics.py:three_set_metric')],
     ['values returned by the metric'])

prop('C17', 'Version space samples always agree with every label given',
     'Every classifier sampled from a linear or kernel version space agrees with all of the user\'s labels and lies in the unit ball, for cold and warm starts, growing training sets, with or without rounding and caches. It still does '
     'after sampling failed or was interrupted, whether that step is retried or skipped.',
     ['inputs', 'histories', 'fault_sequences'],
     'for all separable training sequences, sampler options, seeds, solver failures and interrupts',
     'No reliable test covers sampling; agreement must hold for all random chains and warm starts.',
     ['active_learning/version_space/hit_and_run/hit_and_run.py', 'active_learning/version_space/hit_and_run/polyhedral_cone.py', 'active_learning/version_space/hit_and_run/rounding.py',
      'active_learning/version_space/hit_and_run/ellipsoid.py', 'active_learning/version_space/linear.py', 'active_learning/version_space/kernel.py', 'active_learning/version_space/bayesian/linear.py'],
     [('hit-and-run', 'active_learning/version_space/hit_and_run/hit_and_run.py'), ('line intersection', 'active_learning/version_space/hit_and_run/polyhedral_cone.py'), ('warm start', 'active_learning/version_space/hit_and_run/hit_and_run.py:HitAndRunSampler')],
     ['samples returned by the sampler', 'predictions on the training set'])

prop('C18', 'The rounding ellipsoid always encloses the version space',
     'After any sequence of cuts, every point of the version space stays inside the rounding ellipsoid, whose factored form stays consistent and positive definite. This also holds when the ellipsoid is reused and extended as labels arrive. Rounding ends; when it is not cut short by a limit, the version space is round: the ellipsoid shrunk about its centre, by a factor which only depends on the dimension, lies within all half-spaces of the labels.',
     ['inputs', 'histories'],
     'for all separable label sequences, rounding strategies, cut options and dimension extensions',
     'No reliable test covers rounding; the invariant concerns every cut of every sequence.',
     ['active_learning/version_space/hit_and_run/ellipsoid.py', 'active_learning/version_space/hit_and_run/rounding.py', 'active_learning/version_space/hit_and_run/hit_and_run.py', 'active_learning/version_space/hit_and_run/polyhedral_cone.py'],
     [('cuts', 'active_learning/version_space/hit_and_run/ellipsoid.py:Ellipsoid.cut'), ('strategies', 'active_learning/version_space/hit_and_run/rounding.py'), ('extension', 'active_learning/version_space/hit_and_run/hit_and_run.py')],
     ['center and factors of the ellipsoid after each cut', 'feasible points computed independently'])

prop('C19', 'Sessions consumed in turns do not influence one another',
     'Several explorations in one process, each with its own learner and consumed step by step in any interleaving, produce exactly the iterations each produces alone: same points, labels, phases, metrics and timings, given that each keeps its '
     'own random state. A failure or abandonment of one leaves the others unaffected.',
     ['schedules', 'fault_sequences'],
     'for all interleavings of the steps of two to four sessions, and failures of any of them at any step',
     'No test runs one exploration, let alone several under controlled interleavings.',
     ['utils/metric_logger.py', 'explore/explore.py', 'explore/manager.py', 'active_learning/factorization/active_learning.py', 'explore/labeledset.py'],
     [('shared metric buffer', 'utils/metric_logger.py'), ('generator of iterations', 'explore/explore.py')],
     ['the metrics of every iteration of every session'])

prop('C20', 'Optimizers carry nothing over between calls, and epochs cover all data',
     'Minimising the same function from the same starting point with the same seed gives the same result, whatever the optimizer minimised before and however that ended (failure, interrupt, limit). Mini-batch passes use every data point exactly once per epoch, whatever the batch '
     'size, and an optimizer never modifies its starting point or the training data.',
     ['histories', 'crash_points', 'inputs'],
     'for all optimizers of the library, batch sizes, objective functions, prior calls and failures inside them',
     'No test covers optimizers; independence relates a call to every possible history before it.',
     ['active_learning/factorization/optimization.py', 'active_learning/factorization/step_size_scheduler.py', 'active_learning/factorization/linear.py', 'active_learning/factorization/learn.py'],
     [('optimizers', 'active_learning/factorization/optimization.py'), ('step sizes', 'active_learning/factorization/step_size_scheduler.py'), ('batches', 'active_learning/factorization/linear.py')],
     ['results of minimisation', 'rows used by each evaluation'])

prop('C21', 'Command line exploration survives any keyboard input',
     'Whatever the user types, the command line exploration never records a label other than a plain 0 or 1 given for the point shown, asks again after anything else, and presents each point at most once. It ends cleanly when asked to stop and when all points are labeled, and at once (with that very exception) at the end of input or when interrupted; the '
     'labels given so far can all be found in the dataset. Every exploration starts afresh: neither the learner nor the metrics seen by convergence criteria carry anything over from an earlier (possibly interrupted) one.',
     ['inputs', 'histories', 'fault_sequences'],
     'for all sequences of input lines, end of input and interrupts at any prompt, and for all learners',
     'No test drives the prompt; the input language is unbounded.',
     ['explore/command_line_explore.py', 'explore/manager.py'],
     [('prompt loop', 'explore/command_line_explore.py')],
     ['labels recorded', 'prompts shown', 'exceptions leaving the call'])

prop('C22', 'A saved and restored exploration continues exactly as the original',
     'An exploration state (dataset, learner and manager) which is saved with pickle at any iteration and restored continues with the same points and labels as the original would, and neither affects the other. '
     'The same holds for deep copies.',
     ['crash_points', 'schedules'],
     'for all picklable learners and all iterations at which the state is saved',
     'No test saves any state; the crash point is any iteration of any session.',
     ['explore/manager.py', 'explore/partitioned.py', 'explore/index.py', 'active_learning/dsm/model.py', 'active_learning/dsm/polytope.py', 'active_learning/dsm/convex/convex.py', 'active_learning/factorization/active_learning.py'],
     [('state objects', 'explore/manager.py:ExplorationManager'), ('hull serialisation', 'active_learning/dsm/convex/convex.py')],
     ['iterations after the restore against the original ones'])

prop('C23', 'The compiled-model cache survives crashes and disk errors',
     'After a crash, a torn or failed write, or a full disk at any point of caching a compiled statistical model, every later construction of the sampler works: it uses either a complete, matching cached model or compiles again, and never a damaged '
     'one. A model cached completely is reused without compiling again.',
     ['crash_points', 'fault_sequences', 'histories'],
     'for all positions of a crash or disk error inside the caching, and all sequences of such constructions',
     'No test touches the cache; crash points lie inside single system calls.',
     ['active_learning/version_space/bayesian/stan.py'],
     [('cache file', 'active_learning/version_space/bayesian/stan.py')],
     ['compilations and models used after each simulated crash'])

prop('C24', 'Swap learners change phase exactly when configured',
     'A swap learner trains and ranks with its first model for the configured number of iterations, then trains its linear model and refines it, for the configured numbers of steps; once the factorization it learned is stable and compatible with the user\'s, it hands it to its factorized model, in the order of the user\'s subspaces, together with the partial labels of this factorization (which consists of the sets of attributes that matter in a sparse version of the linear model, without pruned subspaces). Each change is made once and for good until it is cleared. '
     'An iteration which fails does not count and can be repeated. A cleared learner and an equally configured fresh one behave the same, also after a failure in any of the phases.',
     ['schedules', 'histories', 'fault_sequences'],
     'for all swap configurations, lengths of sessions, failures and reuses of the learner',
     'No test covers these learners; the phases span a whole session.',
     ['active_learning/factorization/active_learning.py', 'active_learning/factorization/learn.py', 'active_learning/factorization/linear.py'],
     [('phase changes', 'active_learning/factorization/active_learning.py:SwapLearner'), ('configuration of the refinement', 'active_learning/factorization/active_learning.py:SimplifiedSwapLearner')],
     ['phase of the learner at each iteration', 'calls to the inner models'])

prop('C25', 'Each question is a most informative one for the labels given so far',
     'In the exploration phase, the points asked next are unlabeled points for which no other unlabeled point (or, with subsampling, no other point of a subsample) is more informative under the documented rule of the learner, '
     'evaluated for a model trained on all labels given so far and on nothing else: distance to the decision boundary for simple margin and its subspatial and dual space versions, closeness of the class probability to one half for uncertainty, version space and categorical learners (the factorized linear sampler trains on from its last weights, with the penalty of its turn), '
     'disagreement of the two biased classifiers for query by disagreement, loss over the subspaces for subspatial learners. Each equally informative point may be asked, and each unlabeled point by the random sampler. '
     'Predicted classes come from the same model. Failed updates and choices which are repeated, and other sessions of the same objects, make no difference.',
     ['schedules', 'histories', 'inputs', 'fault_sequences'],
     'for all histories of labels, learners and their options, subsampling sizes and failures in between',
     'No reliable test covers a learner other than the one-dimensional case; which question is best depends on the whole history of labels.',
     ['active_learning/active_learner.py', 'active_learning/margin.py', 'active_learning/uncertainty.py', 'active_learning/query_by_disagreement.py', 'active_learning/random.py', 'active_learning/version_space', 'active_learning/dsm', 'active_learning/factorization/active_learning.py'],
     [('choice of the points', 'active_learning/active_learner.py:next_points_to_label'), ('rules', 'active_learning/margin.py:SimpleMargin')],
     ['points asked at each iteration', 'predictions'])
prop('C26', 'The scores in an iteration record are exact for the model of that iteration',
     'The classification scores a session reports, over a test set or over the labels given so far, equal the definitions (true and false positives and negatives, accuracy, precision, recall, F-score) counted from what the learner of that very iteration predicts for those very points; '
     'scores without a denominator are zero. The reported entropy of predictions is the one of its probabilities. Each appears under its prefixed name in the records of the iterations where callbacks run, and in no other.',
     ['schedules', 'histories', 'fault_sequences'],
     'for all sessions, test sets, subsets of scores, noise and callback schedules',
     'Not covered by the reliable tests; scores depend on the state of learner and dataset at the time of the callback.',
     ['utils/metrics.py', 'explore/explore.py', 'explore/manager.py'],
     [('scores', 'utils/metrics.py:classification_metrics'), ('scores over the labels', 'utils/metrics.py:training_classification_metrics'), ('entropy', 'utils/metrics.py:prediction_entropy')],
     ['iteration records'])

prop('C27', 'Kernel and Laplace models describe the data of their last completed fit',
     'The class probabilities of a Bayesian version space with the Laplace approximation (sampler \'laplace\', or \'kernel-laplace\' with a Gaussian kernel) are those of the Gaussian approximation at the posterior mode, with its full covariance, for the data, labels, kernel, prior and intercept of the last completed fit. '
     'A factorization learner over kernels (plain, or with one kernel per given subspace; exact or Nystroem features) computes its class and partial probabilities from its weights and the kernel between the points asked about and the data of its last completed fit, and its weights are those the optimizer finds over these very features. '
     'Earlier fits, to data of whatever shape, clears, predictions and other objects make no difference; a fit that fails leaves the previous model in force; data and labels are never modified. Predicted classes are those whose probability exceeds one half.',
     ['histories', 'fault_sequences', 'crash_points', 'inputs'],
     'for all histories of fits, failures inside them, data, labels, kernels, priors and factorizations',
     'No test covers these models; what a model may depend on relates it to every possible history before.',
     ['active_learning/version_space/bayesian/laplace.py', 'active_learning/version_space/bayesian/base.py', 'active_learning/version_space/kernel.py', 'active_learning/factorization/kernel.py', 'active_learning/kernel.py'],
     [('approximation', 'active_learning/version_space/bayesian/laplace.py:LaplaceBayesianLogisticRegressionBase'), ('kernel features', 'active_learning/kernel.py:FactorizedKernelTransform'), ('fit', 'active_learning/factorization/kernel.py:KernelFactorizationLearner')],
     ['class probabilities', 'partial probabilities', 'weights', 'predictions'])

prop('C28', 'Factorization searches return the best valid partition they can reach',
     'A search for a factorization returns a partition of the attributes: each in exactly one, non-empty subspace, no larger than the given dimension. The exhaustive search respects the limit of subspaces, too, and no admissible partition fits the given data better (up to the optimization tolerance); '
     'the greedy search follows, from one subspace per attribute, the best merge as long as it helps; limits nothing can satisfy are refused. A classifier fit to a partition describes this partition, data and starting point: probabilities, classes and loss are those of its weights, subspace by subspace, the loss is stationary and no worse than at the start, '
     'and merging two of its subspaces joins their attributes and weights and keeps all others. '
     'What the learner and the searches did before (other data, other shapes, failures, interrupts) makes no difference, classifiers handed out earlier stay as they are, and data, labels, partitions and starting points are never modified.',
     ['histories', 'fault_sequences', 'crash_points', 'inputs'],
     'for all histories of fits, merges and searches, failures inside them, data, limits and starting points',
     'No reliable test covers the searches; that nothing depends on earlier calls relates each result to every possible history.',
     ['active_learning/factorization/partitioning/learn.py', 'active_learning/factorization/partitioning/linear.py'],
     [('searches', 'active_learning/factorization/partitioning/learn.py:FactorizationSelector'), ('fit', 'active_learning/factorization/partitioning/linear.py:FactorizedLinearLearner'), ('merge', 'active_learning/factorization/partitioning/linear.py:FactorizedLinearClassifier.merge_partitions')],
     ['partitions returned', 'classifier probabilities', 'losses'])

prop('N01', 'Kernels are symmetric and positive semi-definite',
     'Every kernel gives a symmetric positive semi-definite matrix whose diagonal agrees with its diagonal method.',
     ['inputs'], 'for all data matrices', 'Not covered by the reliable tests.', ['active_learning/kernel.py'], [('kernels', 'active_learning/kernel.py')], ['kernel matrices'])
prop('N02', 'Analytic gradients and proximal maps are exact',
     'Gradients of losses and penalties equal the derivative of their value, and proximal maps minimise their objective.',
     ['inputs'], 'for all parameters', 'Not covered by the reliable tests.', ['active_learning/factorization/penalty.py', 'active_learning/factorization/linear.py'],
     [('penalties', 'active_learning/factorization/penalty.py')], ['gradients'])
prop('N04', 'Bayesian posteriors approximate the true posterior',
     'The Laplace and Stan samplers draw from (an approximation of) the posterior of logistic regression.',
     ['inputs'], 'for all training sets', 'Not covered by the reliable tests.', ['active_learning/version_space/bayesian/laplace.py', 'active_learning/version_space/bayesian/stan.py'],
     [('samplers', 'active_learning/version_space/bayesian')], ['samples'])
prop('N05', 'Learned factorizations recover the user\'s subspaces',
     'Factorization heuristics recover the attributes of each subspace of the user interest.',
     ['inputs'], 'for all user interests', 'Not covered by the reliable tests.', ['active_learning/factorization/partitioning/learn.py', 'active_learning/factorization/interaction.py'],
     [('heuristics', 'active_learning/factorization/partitioning')], ['factorizations'])

NA = {
    'N01': 'Pure function of its arguments: no schedule, clock, I/O, randomness or history for a simulator to control; input fuzzing would be another technique.',
    'N02': 'Pure numerical analysis of single function values; nothing for a scheduler or fault injector to decide.',
    'N04': 'Statistical quality of a distribution; needs statistical tests, not schedules, and pystan is not installed. The cache of compiled models, which has I/O, is C23.',
    'N05': 'Heuristic quality without a guarantee: no execution can be called a violation (what the searches owe to data and history is C28).',
}
PENDING = 'The check is under construction.'


def main():
    with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
    checks, na = [], []
    for p in P:
        pid = p['id']
        path = os.path.join(VERIF, 'sim', 'props', pid.lower() + '.py')
        if pid in NA or not os.path.exists(path):
            na.append({'property': pid, 'reason': NA.get(pid, PENDING)})
            continue
        m = importlib.import_module('sim.props.' + pid.lower())
        checks.append({'property': pid, 'quick_cmd': '/opt/venv/bin/python check.py ' + pid, 'thorough_cmd': '/opt/venv/bin/python check.py ' + pid,
                       'technique': 'deterministic simulation with fault injection: seeded search over histories, schedules and faults against a reference model',
                       'level': m.LEVEL,
                       'level_note': 'Seeded exploration of {} runs (quick) or {} runs (thorough); silence is evidence for the executions explored, not a proof. Trusts the '
                                     'simulator and its reference model. Assumes: {}.'.format(m.RUNS['quick'], m.RUNS['thorough'], '; '.join(m.ASSUMPTIONS) or 'nothing else'),
                       'evidence_file': 'evidence/{}.json'.format(pid)})
    manifest = {'version': 1, 'setup_cmd': '/opt/venv/bin/python check.py setup',
                'hooks': {'guard': 'AIDEME_SIM', 'enable': 'No hook was needed: every seam used is public, so /repo has no instrumentation and the variable has no effect.', 'source_commits': []},
                'checks': checks, 'not_applicable': na}
    with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
        json.dump(manifest, f, indent=1)
        f.write('\n')
    import subprocess
    subprocess.run(['python3-vt', '-c', '''
import json, jsonschema
s = json.load(open("/root/.vp/MANIFEST.schema.json")); jsonschema.validate(json.load(open("MANIFEST.json")), s)
s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for l in open("properties.jsonl"): jsonschema.validate(json.loads(l), s)
print("valid")
'''], cwd=VERIF, check=True)


main()
