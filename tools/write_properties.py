#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               observe_at=list(observe), hook_needed=hook)))

p('C01', 'A graph is exactly the history of the edits it accepted',
  'After any sequence of node and edge insertions, overwrites and removals, single or batched, every view of a graph (node order, edge list, end marks, neighbours, degrees, counts, adjacency matrix, data frame, text) shows exactly the accepted edits applied in order. '
  'An edit that is rejected (unknown node, already connected pair, mark not allowed in that kind of graph, absent edge, repeated node) changes nothing. '
  'A batch edit whose supply of items fails or contains a rejected item part-way leaves exactly a prefix of its items applied, and a batch removal may be given the graph\'s own live listing of nodes.',
  ['histories', 'fault_sequences', 'inputs'],
  'every history of edits and queries on general, directed and partially directed graphs, over nodes of any hashable type, with rejected edits, warnings turned into errors and failing item suppliers at any point',
  'The unit tests run a handful of fixed edit sequences on three or four string or integer nodes; none checks all views after a rejected or half-finished edit.',
  ['cdmir/graph/graph.py', 'cdmir/graph/digraph.py', 'cdmir/graph/pdag.py', 'cdmir/graph/edge.py', 'cdmir/graph/mark.py'],
  [('adjacency dictionary kept symmetric with node list and node set', 'cdmir/graph/graph.py:Graph.add_edge, remove_edge, remove_node'),
   ('checks before mutation', 'cdmir/graph/graph.py:Graph.add_edge, cdmir/graph/digraph.py:DiGraph.add_edge, cdmir/graph/pdag.py:PDAG.add_edge')],
  [('_adj/node_list/node_set', 'end marks per ordered pair; insertion order; membership', 'cdmir/graph/graph.py')],
  ['Graph.nodes', 'Graph.edges', 'Graph.get_edge', 'Graph.to_numpy', 'Graph.to_dataframe', 'str(graph)'])

p('C02', 'Directed-graph queries answer for the graph as it is now, for any supply',
  'On every directed acyclic graph, reached by any history of edits, the d-separation answer for two distinct nodes given a set that contains neither agrees with its graph-theoretic definition and is symmetric in the two nodes, and the nodes reported as reachable from a node are exactly the non-conditioned nodes d-connected to it, together with itself. '
  'A topological order lists every node once with every edge pointing forward, and the acyclicity answer is right for cyclic graphs too. '
  'Answers do not depend on how the conditioning nodes are supplied (none, list, set, tuple, one-shot iterator), on node insertion or hash order, or on other clients querying at the same time, and a query that is interrupted or whose supply fails does not affect later ones.',
  ['histories', 'schedules', 'fault_sequences', 'inputs'],
  'every DAG (and, for acyclicity, digraph), every edit history interleaved with queries, every query, every supply kind, every schedule of concurrent readers, interrupts at any point in a query',
  'Tests ask a few d-separation questions on one fixed graph each with lists; no test mutates between queries, passes iterators, fails a query or runs two readers.',
  ['cdmir/graph/digraph.py', 'cdmir/utils/independence/dsep.py'],
  [('two-phase reachability over active trails', 'cdmir/graph/digraph.py:DiGraph.get_reachable_nodes'),
   ('Kahn ordering', 'cdmir/graph/digraph.py:DiGraph.topo_sort, is_acyclic')],
  [], ['DiGraph.is_d_separate', 'DiGraph.get_reachable_nodes', 'DiGraph.topo_sort', 'DiGraph.is_acyclic'])

p('C03', 'The equivalence-class graph of a DAG is exactly its CPDAG',
  'For every directed acyclic graph the computed equivalence-class graph has the same nodes in the same order and the same adjacencies, with an edge directed if and only if every DAG with the same adjacencies and unshielded colliders directs it that way, and undirected otherwise. '
  'The input graph is left unchanged, Markov-equivalent DAGs give the same result, and the result does not depend on node names, insertion order or hash order. '
  'This holds again when a computation is repeated after one that was interrupted at any point, or runs while other clients read the same graph.',
  ['inputs', 'schedules', 'crash_points', 'histories'],
  'every DAG, node naming, node order and hash order; every interruption point of an earlier attempt; every schedule of concurrent readers',
  'The only tests of this conversion fail to run at this commit; the PC test compares the conversion with code sharing its orientation rules, so an error in a rule is invisible to it.',
  ['cdmir/graph/dag2cpdag.py', 'cdmir/graph/pdag.py'],
  [('unshielded colliders then closure under Meek rules', 'cdmir/graph/pdag.py:PDAG.rule0..rule4, orient_by_meek_rules'),
   ('separating sets by d-separation search', 'cdmir/graph/dag2cpdag.py:dag2cpdag')],
  [], ['dag2cpdag(...)'])

p('C04', 'A consistent extension is found whenever one exists, and the search ends',
  'For every partially directed graph that has a consistent extension, the conversion to a directed graph returns a directed acyclic graph on the same nodes in the same order, with the same adjacencies and unshielded colliders, keeping every directed edge. '
  'For a partially directed graph with none it fails with an error within a bounded number of steps instead of running forever. '
  'The input graph is left unchanged, also by failed or interrupted attempts.',
  ['inputs', 'crash_points', 'histories'],
  'every partially directed graph (tail/arrow marks), extendable or not, every node naming and order, every interruption point',
  'The test module of this conversion cannot even load its data at this commit; greedy search only ever feeds it extendable graphs, so non-termination is never sampled.',
  ['cdmir/graph/pdag2dag.py'],
  [('Dor-Tarsi sink removal', 'cdmir/graph/pdag2dag.py:pdag2dag, check2')],
  [], ['pdag2dag(...)'])

p('C05', 'PC with exact independence answers returns the true equivalence class',
  'Given conditional-independence answers that are exactly those of a directed acyclic graph over the variables, constraint-based discovery returns the CPDAG of that graph and its skeleton the undirected version of its adjacencies, with both of the provided adjacency searches, any significance level between the two answer values, any variable naming or order, and any way of passing the arguments. '
  'If an independence test fails or the fit is interrupted anywhere, the error reaches the caller, and fitting again with the same learner (or another one on other data, fitted in alternation or concurrently) gives exactly the result of a fresh learner. ',
  ['inputs', 'schedules', 'crash_points', 'fault_sequences', 'configurations'],
  'every faithful DAG oracle, both adjacency searches, verbosity and alpha settings, every failing test call or interruption point followed by a refit, every interleaving of two fits sharing the graph',
  'The existing test draws 100 random 10-node DAGs with one method, one alpha and no faults, and its oracle shares the orientation rules with the code under test.',
  ['cdmir/discovery/constraint/pc.py', 'cdmir/discovery/constraint/adjacency_search.py', 'cdmir/graph/pdag.py', 'cdmir/utils/independence/dsep.py', 'cdmir/utils/adapters.py'],
  [('level-wise adjacency search with separating sets', 'cdmir/discovery/constraint/adjacency_search.py'),
   ('collider orientation and Meek closure', 'cdmir/graph/pdag.py'),
   ('fit rebuilds all learner state', 'cdmir/discovery/constraint/pc.py:PC.fit')],
  [('causal_graph/skeleton/sep_set/indep_test', 'result of the last fit', 'cdmir/discovery/constraint/pc.py')],
  ['PC.causal_graph', 'PC.skeleton'])

p('C06', 'The PC skeleton is order-independent whatever the tests answer',
  'For arbitrary symmetric independence answers, including mutually inconsistent ones as finite samples give, the default adjacency search ends, and the skeleton and separating sets it produces are exactly those of the level-wise definition (an edge is removed at the end of the level at which some subset of that size of the then-current neighbours of either end separates it; the recorded set is the union of all such subsets). '
  'They are therefore the same for every variable order and naming, every memory of earlier answers, and every earlier failed attempt. '
  'Orientation on top of it ends and yields a graph with the same adjacencies whose edges are all directed or undirected.',
  ['inputs', 'fault_sequences', 'histories', 'configurations'],
  'every table of symmetric p-values, alpha, variable order, naming, and sequence of failing test calls before the run that completes',
  'Tests only feed answers consistent with a DAG or one fixed data set; order dependence appears only with inconsistent answers.',
  ['cdmir/discovery/constraint/adjacency_search.py', 'cdmir/discovery/constraint/pc.py', 'cdmir/graph/pdag.py'],
  [('removals collected and applied per level', 'cdmir/discovery/constraint/adjacency_search.py:adjacency_search')],
  [], ['PC.skeleton', 'PC.sep_set', 'PC.causal_graph'])

p('C07', 'A remembered independence answer is always the freshly computed one',
  'For every history of queries to one conditional-independence test object, by name or by position, repeated, with the two variables exchanged, with conditioning variables permuted or supplied as any iterable or not at all, every query that returns gives the value that a new test object on the same data gives for that query. '
  'This holds with several clients querying the same object concurrently and after queries whose computation failed or was interrupted at any point. '
  'Asking again about a query already answered on the same data never changes its answer.',
  ['histories', 'schedules', 'crash_points', 'fault_sequences'],
  'every query history over one shared test object (correlation-based, d-separation-based, user-defined), every interleaving of clients, every failure or interruption point, every supply of the conditioning set',
  'Tests ask each question once on a new object; no test repeats a query in another form, from another thread, or after a failed evaluation.',
  ['cdmir/utils/independence/basic_independence.py', 'cdmir/utils/independence/fisherz.py', 'cdmir/utils/independence/dsep.py', 'cdmir/utils/independence/functional/fisherz.py'],
  [('memo keyed by canonicalised query', 'cdmir/utils/independence/basic_independence.py:_get_cache_key, ConditionalIndependentTest.itest')],
  [('cache', 'canonical query -> answer', 'cdmir/utils/independence/basic_independence.py')],
  ['ConditionalIndependentTest.test', 'ConditionalIndependentTest.itest'])

p('C08', 'A remembered kernel matrix is always the one of its arguments',
  'For every history of evaluations of one kernel object, every evaluation that returns gives the kernel matrix of the arguments and kernel parameters of that call: for inputs of any size, for inputs that differ in any single entry from earlier ones, for arrays changed in place between calls (also ones that were themselves returned), and for parameters changed between calls. '
  'Centring a matrix, or centring it after regression on another one, gives what its definition says and leaves the matrix it is given as it was. '
  'This holds with several clients evaluating the same kernel object concurrently (including with data-dependent widths) and after evaluations that failed or were interrupted.',
  ['histories', 'schedules', 'crash_points', 'inputs'],
  'every history of evaluations on one Gaussian (each width rule), linear or polynomial kernel, data sizes on both sides of the text-summary threshold, every interleaving and interruption point',
  'Tests evaluate a kernel once or twice on small distinct arrays.',
  ['cdmir/utils/kernel/_base.py', 'cdmir/utils/kernel/gaussian.py', 'cdmir/utils/kernel/linear.py', 'cdmir/utils/kernel/polynomial.py'],
  [('memo keyed by a digest of the arguments', 'cdmir/utils/kernel/_base.py:BaseKernel, cdmir/utils/kernel/gaussian.py:GaussianKernel')],
  [('cache_dict', 'argument digest -> matrix', 'cdmir/utils/kernel/*.py'), ('width', 'current width', 'cdmir/utils/kernel/gaussian.py')],
  ['kernel(xs, ys)'])

p('C09', 'A kernel independence test depends only on its own data and query',
  'The statistic and p-value that a kernel-based conditional-independence test returns for a query are determined by its data, its settings and that query: they are the same whatever other queries, other test objects on other data sets, failed or interrupted evaluations preceded it in the process, and whether variables are given by position or by name. '
  'A repeated query returns the same answer, and in the closed-form mode (with kernel widths that do not subsample rows) the answer is unaffected by, and does not disturb, the state of the global random generator.',
  ['histories', 'fault_sequences', 'crash_points'],
  'every history of queries on several test objects with shared default or explicit kernels, on data sets of equal and different shapes above and below the text-summary threshold, with faults between them',
  'Each unit test builds one object on one data set and asks one question.',
  ['cdmir/utils/independence/kernel_based.py', 'cdmir/utils/independence/_base.py', 'cdmir/utils/kernel/gaussian.py'],
  [('per-object memo and kernels', 'cdmir/utils/independence/_base.py:BaseConditionalIndependenceTest, cdmir/utils/independence/kernel_based.py:KCI')],
  [('cache_dict', 'query -> answer', 'cdmir/utils/independence/_base.py'), ('default kernels', 'kernel objects shared by all tests built with defaults', 'cdmir/utils/independence/kernel_based.py')],
  ['KCI(...)(x, y, z)'])

p('C10', 'A remembered local score is always the freshly computed one',
  'For every history of evaluations of one local score object, every evaluation that returns gives the value that a new score object on the same data gives for that variable and that set of parents, which is the value its definition gives, however the parents are supplied (any iterable, any order, empty). '
  'This holds with several clients sharing the object concurrently and after evaluations that failed or were interrupted at any point.',
  ['histories', 'schedules', 'crash_points', 'fault_sequences'],
  'every evaluation history over a shared BIC, BDeu, cross-validated or marginal-likelihood score object (the latter two for single and grouped variables), every supply of the parents, every interleaving, failure and interruption point',
  'Tests evaluate one or two fixed parent lists on a new object.',
  ['cdmir/utils/local_score/_base.py', 'cdmir/utils/local_score/bic_score.py', 'cdmir/utils/local_score/bdeu_score.py', 'cdmir/utils/local_score/cross_validated_base.py', 'cdmir/utils/local_score/marginal_base.py', 'cdmir/utils/local_score/score_utils.py'],
  [('memo keyed by variable and parents', 'cdmir/utils/local_score/_base.py:BaseLocalScoreFunction._score')],
  [('cache_dict', '(variable, parents) -> score', 'cdmir/utils/local_score/_base.py')],
  ['score(i, parents)'])

p('C11', 'Greedy equivalence search returns the score it claims and the true class',
  'For every data set and every score-equivalent score (provided or user-defined), greedy equivalence search ends and returns the CPDAG of some DAG, the total score it reports equals the sum of the local scores over any DAG of that class, and no deletion of one edge from any DAG of the class improves it. '
  'When the parent limit does not bind, the class returned is the one reached by always moving to the best-scoring class one edge addition away and then one edge removal away while that improves the score, and when the sample statistics are exactly those of a DAG model with strong effects, the class returned is that of the generating DAG. '
  'If a score evaluation fails or the search is interrupted anywhere, the error reaches the caller and searching again, with the same or a fresh search object on the same score object, gives the result of an undisturbed search.',
  ['inputs', 'fault_sequences', 'crash_points', 'histories'],
  'every data set and every exact population model over the variables, every failing evaluation or interruption point followed by a retry, every history of the shared score object',
  'The two tests run one seeded data set each and print the result without checking score consistency or optimality, and no evaluation ever fails.',
  ['cdmir/discovery/score_based/greedy_equivalence_search.py', 'cdmir/utils/local_score/bic_score.py', 'cdmir/graph/pdag2dag.py', 'cdmir/graph/dag2cpdag.py'],
  [('valid insert/delete operators with score differences', 'cdmir/discovery/score_based/greedy_equivalence_search.py'),
   ('per-fit record of local scores', 'cdmir/discovery/score_based/greedy_equivalence_search.py:GES.fit')],
  [('record_local_score', 'parents, score per variable', 'cdmir/discovery/score_based/greedy_equivalence_search.py')],
  ['GES.get_causal_graph', 'GES.get_score'])

p('C12', 'Seeded generators are reproducible whatever else uses randomness',
  'With an explicit seed (an argument, or the seeding function of its module), every data and graph generator returns the same output for the same arguments, whatever random numbers other code drew or seeded before, between or after, and whatever calls failed or were interrupted before. '
  'Different seeds give different output. '
  'Generators documented to own a private random stream (event-sequence simulators) neither read nor disturb the global random streams, so they stay reproducible even when interleaved with other users of randomness, and without a seed every generator still works.',
  ['histories', 'schedules', 'crash_points', 'configurations'],
  'every generator and argument combination, every history of other random-number users before and between calls, every interleaving for the privately seeded generators, every interrupted or rejected earlier call',
  'Tests call each generator a few times with the seed freshly set by the test framework, so ambient state never differs.',
  ['cdmir/datasets/simlulators.py', 'cdmir/datasets/utils.py', 'cdmir/discovery/point_process/SHP.py', 'cdmir/discovery/score_based/entropy_based/entropy_based_discovery/utils.py'],
  [('seeding of all global generators', 'cdmir/datasets/utils.py:set_random_seed'),
   ('private generator', 'cdmir/datasets/simlulators.py:HawkesSimulator')],
  [], ['simulator outputs'])

p('C13', 'Simulated data satisfy the model they were asked for',
  'For every weight matrix, lag structure, noise family, noise scale and random state, generated data have the requested shape, are finite, obey their structural equations exactly for every variable whose noise is switched off, carry noise of the requested family and scale otherwise, and give every variable with noise values that differ between samples. '
  'Randomly generated graphs are acyclic with the requested kind and number of edges and weights inside the requested ranges, and cyclic or malformed requests are rejected with an error. '
  'Simulated event sequences only contain requested event types and sequences at non-negative times, over an acyclic influence graph with the requested numbers of edges and parameters in the requested ranges.',
  ['inputs', 'configurations', 'histories'],
  'every model specification, every random state the simulator can put the generators in, after any history of failed and interrupted calls',
  'The tests of the simulators check only that calls return or raise; almost none looks at the values.',
  ['cdmir/datasets/simlulators.py', 'cdmir/datasets/utils.py', 'cdmir/discovery/score_based/entropy_based/entropy_based_discovery/utils.py'],
  [('ancestral sampling in topological order', 'cdmir/datasets/simlulators.py:IIDSimulator, TimeLagSimulator'),
   ('random acyclic orientation', 'cdmir/datasets/utils.py:erdos_renyi')],
  [], ['simulator outputs'])

p('C14', 'Hawkes structure search is consistent, locally optimal and history-free',
  'For every event table, time unit (or none), penalty, random state and acyclic starting structure, the structure search ends with an acyclic structure whose reported score is the penalised log-likelihood of the reported parameters and which no single edge addition, removal or reversal improves upon, as evaluated by the same object. '
  'Evaluating a structure again gives the same score and parameters whatever was evaluated, failed or was interrupted in between, and whatever the caller did with the arrays it was given, and cyclic structures are never accepted. '
  'With the same seed, new objects give the same result whatever other code does with random numbers or other search objects in between, and the caller\'s event table is left unchanged. A table of events without any time span is refused with an error instead of searched for ever.',
  ['inputs', 'histories', 'crash_points', 'schedules', 'fault_sequences'],
  'every event table, every history of evaluations on one object, every interruption point of an evaluation or search followed by more work, every interleaving with another object or random-number user',
  'The one test runs one seeded data set and checks an aggregate accuracy number.',
  ['cdmir/discovery/point_process/SHP.py'],
  [('likelihood memo per variable and parent set', 'cdmir/discovery/point_process/SHP.py:SHP.EM'),
   ('hill climbing over single edge changes', 'cdmir/discovery/point_process/SHP.py:SHP.Hill_Climb')],
  [('hist_likelihood', 'parent set -> likelihood and parameters', 'cdmir/discovery/point_process/SHP.py')],
  ['SHP.Hill_Climb', 'SHP.EM'])

p('C15', 'Learners never modify caller data and a failed fit leaves nothing behind',
  'Learning methods, tests, scores and simulators leave every array, table, name list and graph passed to them exactly as it was, also when they fail or are interrupted, and work on read-only inputs. '
  'After a failed or interrupted fit, fitting the same learner on any data gives the same result as a fresh learner, and results of an earlier fit handed to the caller are not altered by later fits.',
  ['crash_points', 'fault_sequences', 'histories', 'inputs'],
  'every learner and input form, every sequence of fits on alternating data sets with failures and interruption points between them',
  'Tests fit once on private data and never look at the inputs afterwards.',
  ['cdmir/discovery/constraint/pc.py', 'cdmir/discovery/score_based/greedy_equivalence_search.py', 'cdmir/discovery/funtional_based/lingam_based/ica_lingam.py', 'cdmir/discovery/funtional_based/one_component/olc.py', 'cdmir/discovery/funtional_based/anm/ANM.py', 'cdmir/discovery/point_process/SHP.py', 'cdmir/utils/metrics/graph_evaluation.py', 'cdmir/utils/adapters.py'],
  [('working copies of inputs; state rebuilt per fit', 'the fit entry points of the listed files')],
  [], ['inputs after the call', 'learner results'])

p('C16', 'ICA-LiNGAM recovers a linear non-Gaussian model in any column order',
  'For enough centred data from an acyclic linear model with strong effects and noise of one clearly non-Gaussian family, for every order of the columns and all but isolated states of the random generator, the returned coefficient matrix is acyclic with a zero diagonal, contains every true effect close to its true value, and its graph marks exactly the non-zero coefficients. '
  'Every reported coefficient is the least-squares coefficient of that variable on its reported parents. '
  'The same random state gives the same result whatever fits, failures or interruptions preceded.',
  ['inputs', 'histories', 'crash_points', 'configurations'],
  'every such model, column order, random-generator state, input form, and history of earlier fits',
  'The one test uses one data set whose columns already are in causal order.',
  ['cdmir/discovery/funtional_based/lingam_based/ica_lingam.py'],
  [('permutation search, Wald pruning, regression', 'cdmir/discovery/funtional_based/lingam_based/ica_lingam.py:ICA_LINGAM.fit')],
  [], ['ICA_LINGAM.get_coef', 'ICA_LINGAM.get_causal_graph'])

p('C17', 'Optimisation-based discovery returns an acyclic solution of its problem',
  'For every data set and setting, the weight matrix returned by the continuous-optimisation learners (squared, logistic and Poisson NOTEARS; entropy-based linear learners; neural and Sobolev learners with squared or entropy-based loss) has no entry on the diagonal and none below the edge threshold, is acyclic at ordinary thresholds, and on the edges it keeps before thresholding it is, to optimiser accuracy, a stationary point of the documented penalised objective for that data. '
  'A trained model predicts what its parameters say and the returned weights are the ones its parameters stand for; on data from equal-variance linear models with strong effects the true edges and weights are found. '
  'The bounded optimiser reaches the minimum of a convex problem within the bounds each tensor has when the step is taken. Data are left untouched, and the result depends on the data, settings and initial parameters only, whatever fits, failures, interruptions or concurrent fits preceded or accompany it.',
  ['inputs', 'histories', 'schedules', 'crash_points', 'configurations'],
  'every data set, learner, penalty, threshold, layout, initial parameters, history of fits with interruption points, and schedule of concurrent fits; stationarity and recovery are required of all but isolated data sets',
  'No unit test covers this package; optimality, acyclicity and independence from earlier fits are statements about all data and histories.',
  ['cdmir/discovery/score_based/entropy_based/entropy_based_discovery/linear.py', 'cdmir/discovery/score_based/entropy_based/entropy_based_discovery/linear_ent.py', 'cdmir/discovery/score_based/entropy_based/entropy_based_discovery/nonlinear_ent.py', 'cdmir/discovery/score_based/entropy_based/entropy_based_discovery/nonlinear.py', 'cdmir/discovery/score_based/entropy_based/entropy_based_discovery/lbfgsb_scipy.py', 'cdmir/discovery/score_based/entropy_based/entropy_based_discovery/locally_connected.py', 'cdmir/discovery/score_based/entropy_based/entropy_based_discovery/utils.py'],
  [('augmented Lagrangian with doubled variables', 'linear.py:notears_linear; linear_ent.py:LBFGSB, train_LBFGSB; nonlinear_ent.py:dual_ascent_step, notears_nonlinear'),
   ('flattening of parameters, gradients and bounds', 'lbfgsb_scipy.py:LBFGSBScipy')],
  [], ['notears_linear', 'train_LBFGSB', 'notears_nonlinear', 'LBFGSBScipy.step'])

p('C18', 'Comparison metrics count exactly what they are defined to count',
  'For any two graphs of one kind over the same nodes in the same order, however their edges were inserted, overwritten or removed, equality holds exactly when every pair of nodes has the same edge, the structural Hamming distance is the number of pairs whose edge differs, and precision, recall and F1 of adjacencies, arrowheads and directed edges are those of the sets of adjacencies, arrowheads and directed edges in the two graphs. '
  'Graphs of different kinds or over different nodes are rejected. For matrices, the performance table is that of the entries exceeding the threshold in magnitude (off the diagonal unless asked otherwise), the accuracy counts of an estimated DAG or CPDAG are those documented (correct, reversed, extra, missing), malformed estimates are rejected, and the acyclicity test answers exactly. '
  'Comparing changes nothing, also when it is interrupted, and answers do not depend on earlier or concurrent comparisons.',
  ['inputs', 'histories', 'schedules', 'crash_points'],
  'every pair of graphs reached by any edit history over any node names, every pair of matrices in any layout, every threshold, interleaved and concurrent comparisons, and interruption points',
  'The tests compare a few fixed graphs built edge by edge in one orientation; the matrix metrics have none.',
  ['cdmir/utils/metrics/graph_evaluation.py', 'cdmir/graph/graph.py', 'cdmir/discovery/score_based/entropy_based/entropy_based_discovery/utils.py'],
  [('pairwise comparison of end marks in node order', 'cdmir/utils/metrics/graph_evaluation.py'),
   ('index sets of the flattened matrices', 'cdmir/discovery/score_based/entropy_based/entropy_based_discovery/utils.py:count_accuracy')],
  [], ['graph_equal', 'skeleton_evaluation', 'arrow_evaluation', 'directed_edge_evaluation', 'shd', 'get_performance', 'count_accuracy', 'is_dag'])

p('C19', 'Dependence measures equal their definitions on the data given',
  'For every data set, the Hilbert-Schmidt statistic in its biased, unbiased, normalised, per-column and feature forms, its gamma threshold and the decision made with them, the simplified kernel independence test, the block-wise p-value, partial correlations with their Fisher-z p-values, the additive-noise scores of a pair of variables, nearest-neighbour and histogram estimates of entropy and mutual information, tetrad p-values and the cluster decisions based on them, the weights, decisions, information values and causal orders of generalised independent noise, fourth cumulants, combined p-values, the clusters found among observed variables, and the merging of overlapping clusters are those of their definitions, and introducing a latent variable for a cluster replaces its members by one of them while every other column keeps its name and values. '
  'For pairs generated by a clearly non-linear function plus independent noise the additive-noise score is smaller in the causal direction, and exchanging the two variables exchanges the scores. '
  'The p-values of the permutation and spectral tests are the fraction of simulated null statistics not below the observed one, counting the observed one, of the null they document. Answers depend neither on the layout in which the data are handed over, on string hashing nor (those two tests apart) on the random streams, nor on other questions, failures or interruptions before, or concurrent questions, and data are left as they were.',
  ['inputs', 'histories', 'schedules', 'crash_points'],
  'every data set in any layout, every choice of variables, widths, levels and sample caps, any history of questions with interrupted ones and other users of randomness among them, and every schedule of concurrent questions',
  'The tests of these modules cannot run (missing data generator, ten thousand points in a cubic-time regression) or do not exist.',
  ['cdmir/utils/independence/functional/HSIC.py', 'cdmir/utils/independence/functional/fisherz.py', 'cdmir/utils/independence/functional/kci.py', 'cdmir/discovery/funtional_based/anm/ANM.py', 'cdmir/discovery/funtional_based/one_component/olc.py', 'cdmir/discovery/funtional_based/LearningHierarchicalStructure'],
  [('kernel statistic with gamma approximation', 'cdmir/utils/independence/functional/HSIC.py:hsic_gam'),
   ('regression residuals against the regressor', 'cdmir/discovery/funtional_based/anm/ANM.py:ANM.anm_score'),
   ('Wishart test of a tetrad difference', 'LearningHierarchicalStructure/VanishedTest.py'),
   ('null vector of a cross-covariance', 'LearningHierarchicalStructure/GIN2.py:getomega')],
  [], ['hsic_gam', 'functional.kci.KCI.test', 'ANM.cause_or_effect', 'FastHsicTestGamma', 'entropy', 'mutual_information', 'vanishes_Pval', 'CheckCausalCluster', 'JudgePureCluster', 'GIN', 'GIN_MI', 'LearnCausalOrder', 'FindCausalCluster', 'UpdataData', 'xcum4', 'FisherTest', 'merge_list', 'fisherz', 'HSIC_U_statistic', 'HSICBlockTestObject', 'HSICPermutationTestObject', 'HSICSpectralTestObject'])

p('C20', 'A drawing shows exactly the graph it was given',
  'A drawing of a graph shows, at the time of drawing, one disc with the node\'s text per node at the place the layout gives (centred in the figure), white for the nodes marked latent and grey otherwise, one line per edge that joins the right two discs and touches them, with an arrowhead at exactly the ends that are arrows, a small circle at exactly the ends that are circles and nothing at tails, and nothing else, in a new figure of the size and resolution asked for. '
  'The circular layout puts the nodes evenly on a circle of the scale asked for, clockwise from the top, in node order or sorted by text. '
  'This holds for any hashable nodes with distinct texts and any end marks, whatever figures are open and whatever drawings were made, failed or were interrupted before or run concurrently; drawing changes neither the graph nor earlier figures, and a failing layout makes the drawing fail.',
  ['inputs', 'histories', 'fault_sequences', 'schedules', 'crash_points'],
  'every graph reached by any edit history, every layout, latent marking and size, every history of other figures, failed and interrupted drawings, every schedule of concurrent drawings',
  'The tests draw three graphs and look at nothing; none has an edge between nodes that are not strings.',
  ['cdmir/visual/plot_graph.py', 'cdmir/visual/graph_layout.py'],
  [('explicit figure and axes instead of the process-wide current ones', 'cdmir/visual/plot_graph.py:plot_graph'),
   ('lines shortened by the disc radius and the circle marks', 'cdmir/visual/plot_graph.py:plt_edge'),
   ('equally spaced angles', 'cdmir/visual/graph_layout.py:circular_layout')],
  [], ['plot_graph', 'circular_layout'])

p('C21', 'Matrix exponentials and their derivatives are exact',
  'For every square matrix, nilpotent ones (weights of acyclic graphs) and zero included, and every batch of matrices, the Taylor and the Padé routine give the matrix exponential to the accuracy of the floating-point type used, element by element independent of the rest of the batch, and back-propagation through them gives its exact (Fréchet) derivative. '
  'Answers do not depend on the layout of the matrix in memory, on torch\'s default type, on earlier answers having been overwritten, on earlier failed or interrupted computations or back-propagations, or on concurrent ones; matrices handed in are left as they were and answers are not changed afterwards. '
  'Arguments that are not square matrices are rejected.',
  ['inputs', 'histories', 'schedules', 'crash_points'],
  'every matrix or batch in any layout and precision, every history of computations and back-propagations with interrupted ones among them, every schedule of concurrent ones',
  'No test covers this package; one of its two routines could not be imported or run at the original commit.',
  ['cdmir/discovery/score_based/entropy_based/pytorch_expm/expm_taylor.py', 'cdmir/discovery/score_based/entropy_based/pytorch_expm/expm_pade.py', 'cdmir/discovery/score_based/entropy_based/pytorch_expm/expm32.py', 'cdmir/discovery/score_based/entropy_based/pytorch_expm/expm64.py'],
  [('degree chosen by norm, scaling and squaring per element of a batch', 'expm_taylor.py:expm_taylor, matrix_power_two_batch'),
   ('derivative from the exponential of a block matrix', 'expm_taylor.py:differential, expm_pade.py:differential'),
   ('Padé approximants of increasing order', 'expm64.py:_expm, expm32.py:_expm')],
  [], ['expm_taylor.expm', 'expm_taylor.expm_taylor', 'expm_pade.expm', 'expm32', 'expm64'])

p('C22', 'Orientation rules direct exactly what follows from what is known',
  'Orienting the skeleton of a DAG with separating sets that fit it directs exactly the edges of its unshielded colliders. '
  'When edges of the class graph are directed by hand in a way that some member of the class agrees with, in any order, in one or several rounds, interleaved with single rules, then applying the orientation rules until none applies directs exactly the edges that all those members direct alike; each single application of a rule directs only such edges and reports whether it directed any. '
  'For every other partially directed graph the orientation ends, leaves no undirected edge to which a rule applies, and in every case keeps all nodes, adjacencies and the edges that were directed before. '
  'The outcome does not depend on node names, insertion or hash order, verbosity, on orientations of other graphs that were interrupted before, or on concurrent orientations of other graphs.',
  ['inputs', 'histories', 'schedules', 'crash_points'],
  'every DAG, choice of separating sets, background knowledge in any order and interleaving with rules; every partially directed graph; every interruption point of an earlier orientation; every schedule of concurrent orientations',
  'The PC and conversion tests never need the fourth rule and never add knowledge; no test applies a rule twice or checks what a rule reports.',
  ['cdmir/graph/pdag.py'],
  [('colliders from separating sets', 'cdmir/graph/pdag.py:PDAG.rule0'),
   ('Meek rules to a fixed point', 'cdmir/graph/pdag.py:PDAG.rule1, rule2, rule3, rule4, orient_by_meek_rules')],
  [], ['PDAG.orient_by_meek_rules', 'PDAG.rule0', 'PDAG.rule1', 'PDAG.rule2', 'PDAG.rule3', 'PDAG.rule4', 'PDAG.create_complete_undirected_graph'])

p('C23', 'Learning a hierarchy of latent variables finds its clusters',
  'From data whose covariances are those of a linear model with latent variables, all tetrads of which either vanish or clearly do not, structure learning (Causal_Discovery_LHM) ends and hands the drawing a graph with exactly one latent variable for each latent variable of the model, over exactly its observed children: for measurement models in which every latent variable has at least three observed children, direct effects between two of its (then at least four) children included, whatever the dense relations among the latent variables, which are then joined pairwise; for two-level hierarchies with a root over at least four such latent variables; and for a latent variable with two or three observed children of its own over at least three others. '
  'In each merging step clusters that share their latent parent are merged, however many, pure clusters of their own are introduced, impure ones kept back, a latent variable introduced too early is recognised by the clusters that belong to it and takes over their members, every learned cluster ends in exactly one of these parts, and the rest is reported as remaining. '
  'The merge rules decide by exactly the tetrads they are defined by; the set operations, the index of latent variables built from clusters and causal orders and the one completed by impure clusters are those of their definitions. '
  'Nothing depends on the names or order of the variables, the order of the clusters, string hashing, random streams, earlier learning that failed or was interrupted, or concurrent learning; data are left as they were.',
  ['inputs', 'histories', 'schedules', 'crash_points'],
  'every such model, sample size, level, naming and order of variables and clusters; every interruption point of an earlier run; every schedule of concurrent runs',
  'No test runs this procedure; its test module needs a data generator and packages that are not there.',
  ['cdmir/discovery/funtional_based/LearningHierarchicalStructure'],
  [('clusters by vanishing tetrads, purity, overlap', 'LearningHierarchicalStructure/FindCausalCluster.py'),
   ('merge rules and early-learning test', 'LearningHierarchicalStructure/MergeCluster.py'),
   ('surrogate columns for introduced latent variables', 'LearningHierarchicalStructure/UpdataData.py'),
   ('recursion until nothing more can be learned', 'LearningHierarchicalStructure/Causal_Discovery_in_LHM.py')],
  [], ['Causal_Discovery_LHM', 'MergeCausalCluster', 'TestPureWithPure', 'TestPureWithImpure', 'TestImpureWithImpure', 'Transfer2Index', 'tranImpureToLatentIndex', 'GeneralSetOperator'])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        x['statement'] = x['statement'].strip()
        assert len(x['title']) <= 80, (x['id'], len(x['title']))
        f.write(json.dumps(x, ensure_ascii=False) + '\n')
print(len(P), 'properties')
