# Writes /verif/properties.jsonl. Kept so the list can be edited in one place.
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mechanism],
            observe_at=list(observe), hook_needed=hook)))

prop('P01', 'Parallel map equals sequential map and never hangs',
 'Mapping a function over a list with worker processes returns exactly the list a sequential map returns, in input order, calling the function exactly once per element, for every list length, worker count and worker schedule. If a call raises, returns something that cannot be sent back, or its worker dies, the map raises an error in the caller instead of hanging or returning a partial list. However it ends, no worker is left running and every pipe it opened is closed.',
 ['schedules', 'inputs', 'fault_sequences', 'configurations'],
 'all interleavings of parent and workers at pipe operations; 0..n elements; 1..k workers; workers that raise, exit, are killed at any pipe operation, or return unsendable values; fork and pipe-creation failures',
 'No test drives the parallel map directly; engine tests use it with one happy schedule chosen by the operating system, never with a dead worker, an unsendable result or a chosen interleaving.',
 ['src/utils/parallel_map.py'],
 [('work queue: one pipe pair per worker, results tagged with their index', 'src/utils/parallel_map.py:parallel_map'), ('terminate all workers and re-raise on any error', 'src/utils/parallel_map.py:parallel_map')],
 [('fl', 'result list filled by index', 'src/utils/parallel_map.py'), ('ctr', 'results still outstanding', 'src/utils/parallel_map.py')],
 ['return value and exception of parallel_map', 'liveness of each worker', 'open pipe ends'])

prop('P02', 'An ensemble operation equals per-state execution, all or nothing',
 'For every worker schedule and worker count, an ensemble operation gives the same results, in state order, and leaves the same states as applying it to each selected state one after another; states that were not selected, and their random streams where the operation does not reseed them, do not change. If any worker of a multiprocess operation fails, the operation raises and no state of the ensemble has changed. Adding and dropping states affects only the states added or dropped.',
 ['schedules', 'histories', 'fault_sequences', 'configurations'],
 'histories of ensemble mutations and queries (inference, new rows and columns, forced cells, type changes, composition, alterations, densities, samples, pairwise summaries) over 1..5 states, all state subsets, serial or multiprocess execution per operation, worker faults at any pipe operation',
 'Tests check a few ensemble calls for shape and one seed for repeatability under whatever schedule the machine happened to produce; none injects a failing worker or compares schedules.',
 ['src/crosscat/engine.py', 'src/utils/parallel_map.py'],
 [('arguments built per selected state, results zipped back to the same state numbers', 'src/crosscat/engine.py:Engine'), ('workers act on copies that replace the states only after every worker returned', 'src/crosscat/engine.py:_modify')],
 [('Engine.states', 'the ensemble', 'src/crosscat/engine.py')],
 ['values returned by each Engine method', 'each state read through its public accessors'])

prop('P03', 'Same seed and same history give the same result',
 'A model built from the same data, options and generator seed and then given the same operations ends in the same state and answers every query and simulation identically, whatever the wall clock, the process-wide random generators, the hash seed of the interpreter, or other models used in between in the same process. Operations on a given model draw all randomness from the generator it was given.',
 ['histories', 'schedules', 'configurations'],
 'all generated histories of construction, edits, inference, queries and save/restore; adversarial settings of clock, global numpy and stdlib generators; interleaving with a second unrelated model; different interpreter hash seeds',
 'The seed tests replay one short history twice in the same process, where a stray use of global randomness, time or iteration order often still agrees.',
 ['src/crosscat/state.py', 'src/crosscat/engine.py', 'src/mixtures', 'src/primitives', 'src/utils/general.py'],
 [('every component receives the rng of its owner', 'src/crosscat/state.py:State.__init__'), ('seeds for the states are drawn from the engine generator', 'src/crosscat/engine.py:_get_seeds')],
 [('rng', 'the generator shared by a model and all of its parts', 'src/crosscat/state.py')],
 ['serialized metadata', 'simulate/logpdf/score results'])

prop('P04', 'Partitions stay well formed through every history',
 'After every completed operation, each column belongs to exactly one block of the column partition, each row to exactly one cluster within each block, and all counts, per-column cluster memberships, column and row sets agree with each other and with the stored table; no empty block or cluster remains. A cell counts towards the statistics of its cluster exactly when it is present (for a column that depends on others, when it and its inputs are present). Turning the model\'s own self-checks on (GPMCCDEBUG) changes nothing and they never fail.',
 ['histories', 'inputs', 'configurations'],
 'all generated histories of adding and removing rows and columns, forcing cells, changing column types (including to conditional types), every inference kernel on every subset, relevance queries, save/restore; tables of 1..12 rows and 1..6 columns with missing values; every statistical type',
 'The debug assertions only run when switched on and only over the few fixed histories in tests; rare sequences (emptying a block then refilling it, all-missing columns, last row of a cluster) are never reached.',
 ['src/crosscat/state.py', 'src/mixtures/view.py', 'src/mixtures/dim.py', 'src/primitives/crp.py'],
 [('incremental accounting when a row or column moves', 'src/crosscat/state.py:_migrate_dim'), ('incremental accounting when a row moves', 'src/mixtures/view.py:_migrate_row')],
 [('Zv/Nv', 'column partition and its counts', 'src/crosscat/state.py'), ('Zr/Nk', 'row partition of a view and its counts', 'src/mixtures/view.py'), ('Dim.Zr/Dim.Zi/clusters', 'memberships of present and missing cells', 'src/mixtures/dim.py')],
 ['State.Zv, State.Nv, View.Zr, View.Nk, Dim.clusters'])

prop('P05', 'Scores and predictive densities equal a from-scratch computation',
 'After every completed operation the log score, the log likelihood and the predictive densities of a model equal those computed from nothing but its current table, partitions and hyperparameters by the defining formulas, and those of a model freshly built from the same ingredients. They do not depend on the path of edits and inference by which the model got there.',
 ['histories', 'inputs'],
 'all generated histories of edits and inference; every column type with a closed-form marginal likelihood against an independent implementation of the formula; the other types against rebuilt components with the same parameters',
 'Tests compare a handful of scores at one fixed state; drift between incremental statistics and the data appears only after particular sequences of moves.',
 ['src/crosscat/state.py', 'src/mixtures/view.py', 'src/mixtures/dim.py', 'src/primitives'],
 [('sufficient statistics updated on incorporate/unincorporate', 'src/primitives/*.py'), ('score summed over views and dims', 'src/crosscat/state.py:logpdf_score')],
 [('sufficient statistics', 'N and moments or counts per cluster', 'src/primitives/*.py')],
 ['logpdf_score, logpdf_likelihood, logpdf'])

prop('P06', 'The stored table is exactly what the client put in',
 'The table held by a model is at all times the initial table (as given, or as read by parse_schema, which codes the categories of a column by the order of their names) with exactly the row, column and cell edits the client made, in the order made; inference, queries, hypothetical rows, type changes and serialization never change any cell. Objects the client passed in are never modified by the model, later changes by the client to those objects do not reach the model, and models of the same ensemble do not share table storage.',
 ['histories', 'inputs'],
 'all generated histories of edits interleaved with inference, queries (with hypothetical rows and constraints), serialization, and client-side mutation of previously passed or returned objects; tables read through a schema from a data frame with named categories and missing values; single models and ensembles run serially',
 'Tests look at the table after one or two edits; aliasing shows only when an object is reused after the call.',
 ['src/crosscat/state.py', 'src/crosscat/engine.py', 'src/mixtures/view.py', 'src/utils/data.py'],
 [('data copied at construction', 'src/crosscat/state.py:State.__init__'), ('hypothetical rows appended then popped', 'src/crosscat/state.py:relevance_probability')],
 [('State.X', 'the table, by column', 'src/crosscat/state.py')],
 ['State.X / data_array', 'the caller\'s argument objects'])

prop('P07', 'A rejected operation leaves the model unchanged',
 'When an edit of the model (adding or removing a row or column, forcing a cell, changing a column type, composing another model) or a query is rejected with an error, the model is left exactly as it was: same table, partitions, types, hyperparameters, statistics and scores, and it remains usable.',
 ['histories', 'inputs', 'fault_sequences'],
 'all generated histories in which valid operations are mixed with invalid ones of every documented kind (wrong length, duplicate or unknown column, wrong rowid, values outside the support of the column type, missing values, incompatible type change, invalid composition, invalid evidence), at every reached state',
 'Tests assert that some invalid calls raise, and stop there; whether the model survived is observable only by continuing the history.',
 ['src/crosscat/state.py', 'src/mixtures/view.py', 'src/mixtures/dim.py'],
 [('argument validation before mutation', 'src/crosscat/state.py:incorporate'), ('rollback of a failed composition', 'src/crosscat/state.py:compose_cgpm')],
 [('State', 'the whole model', 'src/crosscat/state.py')],
 ['exceptions raised', 'all public accessors after the exception'])

prop('P08', 'Declared dependence and independence constraints always hold',
 'Columns declared dependent are in the same block and columns declared independent are in different blocks of the column partition, from construction on and after every inference step, edit, external inference run and restore, for every random seed. Contradictory or malformed constraints are rejected at construction, and an operation that cannot respect the constraints raises instead of violating them.',
 ['histories', 'configurations', 'schedules'],
 'all sets of dependence blocks and independence pairs over up to 7 columns, valid and invalid; all random seeds for the initial partition; histories of column inference, column edits, save/restore and external backends',
 'Tests sample the constrained prior for a few fixed constraint sets, and run column inference on one or two tables.',
 ['src/crosscat/state.py', 'src/utils/general.py', 'src/utils/validation.py', 'src/crosscat/lovecat.py'],
 [('constrained prior', 'src/utils/general.py:simulate_crp_constrained'), ('forbidden blocks masked in the column kernel', 'src/crosscat/state.py:_gibbs_transition_dim'), ('constraint validation', 'src/utils/validation.py')],
 [('Cd/Ci', 'declared constraints', 'src/crosscat/state.py')],
 ['State.Zv'])

prop('P09', 'Inference moves have the conditional probabilities of the model',
 'At every reachable state, each inference kernel for rows, columns, concentrations and hyperparameters chooses among its candidate outcomes with probability proportional to the joint score of the model after that outcome (with the auxiliary-component correction for new blocks), never proposes an outcome the model gives zero probability, and offers every existing cluster or block and a new one as candidates; a move of explicit component parameters targets their posterior.',
 ['histories', 'schedules', 'inputs'],
 'all states reached by generated histories; every row, column and hyperparameter; every outcome forced through the random-number seam and scored by an independent model',
 'Tests check that inference runs and that a few large-sample posteriors look plausible; a mis-weighted move still produces a valid state.',
 ['src/mixtures/view.py', 'src/crosscat/state.py', 'src/mixtures/dim.py', 'src/primitives/crp.py', 'src/utils/general.py'],
 [('row kernel', 'src/mixtures/view.py:_gibbs_transition_row'), ('column kernel', 'src/crosscat/state.py:_gibbs_transition_dim'), ('grid kernel', 'src/mixtures/dim.py:transition_hypers')],
 [('random draws', 'categorical draws made by the kernels', 'src/utils/general.py:pflip')],
 ['the probability vector handed to the generator, and the state after each outcome'])

prop('P10', 'Saving and restoring reproduces the model; a torn save never loads',
 'A model or ensemble restored from its metadata, a JSON round trip of it, or a pickle, at any point of any history has the same table, types, partitions, hyperparameters, constraints, diagnostics, compositions, scores and predictive densities, and can continue. A saved snapshot does not change when the original or the restored model moves on. A failed or interrupted save raises and leaves the live model intact, and a truncated file never loads as a model.',
 ['histories', 'crash_points', 'fault_sequences'],
 'crash and restart at every point of generated histories, through metadata, JSON and pickle; write failures, short writes and crashes at any byte of the save; later operations on both the original and the restored model',
 'The serialization test saves one barely used model of one type mix and checks only that nothing raises.',
 ['src/crosscat/state.py', 'src/crosscat/engine.py', 'src/mixtures/view.py'],
 [('to_metadata/from_metadata', 'src/crosscat/state.py'), ('to_pickle/from_pickle', 'src/crosscat/engine.py')],
 [('metadata', 'saved form of a model', 'src/crosscat/state.py')],
 ['metadata, restored model'])

prop('P11', 'Inference respects its iteration and time budget and counts honestly',
 'With an iteration budget, exactly that many full sweeps of the requested kernels run, in order; with a time budget, sweeps continue while time remains and no kernel starts once the budget has elapsed on the clock; with both, whichever is reached first ends the run. Every kernel that ran is counted exactly once in the diagnostics, and a checkpoint is recorded after exactly every k-th completed sweep with the score, concentration and partition of that moment. A kernel restricted to given columns, blocks or rows changes nothing outside them.',
 ['schedules', 'fault_sequences', 'configurations'],
 'all kernel subsets and orders, budgets, checkpoint intervals, and simulated clocks with kernels of arbitrary duration, stalls and forward jumps; foreign kernels of composed models',
 'Tests use real time and iteration counts only, so neither the deadline nor stalls, nor a kernel that consumes the whole budget, can be arranged.',
 ['src/crosscat/state.py', 'src/utils/timer.py'],
 [('budget loop', 'src/crosscat/state.py:_transition_generic')],
 [('diagnostics', 'iteration counts and checkpoint traces', 'src/crosscat/state.py')],
 ['kernel invocations with simulated time stamps', 'State.diagnostics'])

prop('P12', 'Queries never change the model',
 'Densities, simulations, scores, mutual information, dependence, similarity and relevance queries, on observed or hypothetical rows, single or in bulk, successful or failing, leave every observable part of the model unchanged except the position of its random generator; repeating a deterministic query gives the same answer.',
 ['histories', 'inputs', 'fault_sequences'],
 'all generated histories; every query method with all shapes of targets, constraints and hypothetical rows; an injected exception at any random draw inside the query',
 'Tests check two queries for one kind of leftover; a query that leaks state shows up only in what happens afterwards.',
 ['src/crosscat/state.py', 'src/crosscat/sampling.py', 'src/mixtures/view.py', 'src/mixtures/relevance.py'],
 [('hypothetical rows removed again after the query', 'src/crosscat/state.py:relevance_probability')],
 [('State', 'the whole model', 'src/crosscat/state.py')],
 ['all public accessors before and after'])

prop('P13', 'Simulation and density agree and obey the rules of probability',
 'At every reachable state, joint densities satisfy the chain rule, marginalize and normalize, are unaffected by the order in which variables are named, and agree between single, bulk and ensemble forms; evidence that contradicts an observed cell or overlaps the targets is rejected. Simulated rows are independent draws from exactly the distribution whose density is reported, given the evidence, whether drawn one at a time or many at once.',
 ['histories', 'inputs', 'schedules'],
 'all states reached by generated histories; all target and evidence subsets, observed and hypothetical rows; enumeration of discrete outcomes and quadrature for continuous ones; seeded batches of simulations',
 'Tests check a few chain-rule identities at fixed states and compare sample means; dependence between draws of a batch, or across blocks, is invisible to them.',
 ['src/crosscat/sampling.py', 'src/mixtures/view.py', 'src/mixtures/dim.py', 'src/primitives', 'src/crosscat/state.py'],
 [('cluster-weighted prediction', 'src/crosscat/sampling.py:view_logpdf, view_simulate'), ('evidence partition', 'src/utils/validation.py:partition_query_evidence')],
 [('rng', 'source of all draws', 'src/crosscat/state.py')],
 ['logpdf, logpdf_bulk, simulate, simulate_bulk'])

prop('P14', 'Composed models answer as the product of their parts',
 'Whatever order component models are composed in, the joint density of a composite is the product of each component\'s conditional density given its inputs in the directed graph they form, simulation runs each component after its inputs, fixed values stay fixed, and evidence on any variable reaches the answer. Compositions that would duplicate a variable or form a cycle are rejected and leave the model as it was, and removing a component restores the answers from before it was added.',
 ['histories', 'configurations', 'schedules'],
 'all generated directed acyclic compositions of up to 7 components with random graph shapes and insertion orders (components are recording stubs, regressions, or the model itself), compose and decompose histories, invalid compositions',
 'Tests use three or four fixed small graphs with one insertion order.',
 ['src/network/importance.py', 'src/network/helpers.py', 'src/crosscat/state.py'],
 [('topological invocation', 'src/network/importance.py:weighted_sample'), ('graph validation', 'src/network/helpers.py'), ('compose/decompose', 'src/crosscat/state.py')],
 [('hooked_cgpms', 'composed components', 'src/crosscat/state.py')],
 ['logpdf/simulate of composites; dependence answers'])

prop('P15', 'Every component model forgets exactly what is unobserved',
 'For every component model (all primitive distributions, regressions, nearest neighbours, kernel density, factor analysis, mixtures), observing a row and later removing it, in any interleaving with other rows, leaves the model as if the row had never been observed; an observation or input it does not support, a row observed twice or removed when absent is rejected without effect; and its saved form restores a model with the same observations and answers.',
 ['histories', 'inputs', 'crash_points'],
 'all generated histories of observing, removing, rejected operations and save/restore over up to 12 rows for each component model',
 'Tests observe a fixed batch, sometimes remove it, and mostly check that calls do not raise.',
 ['src/primitives', 'src/regressions', 'src/knn/mvknn.py', 'src/kde/mvkde.py', 'src/factor/factor.py', 'src/mixtures/dim.py'],
 [('incorporate/unincorporate', 'src/primitives/*.py, src/regressions/*.py, ...')],
 [('N and sufficient statistics or row store', 'what the component has observed', 'src/primitives/*.py')],
 ['logpdf, logpdf_score, to_metadata'])

prop('P16', 'An external inference backend can only move the latent structure',
 'After an inference run by an external engine, the model holds exactly the column partition, row partitions and concentrations the engine returned, row for row and column for column, its table and column types are unchanged and its statistics agree with the new partitions; the structure handed to the engine is exactly the current one. If the engine fails or returns something invalid, an error is raised and the model is unchanged.',
 ['histories', 'fault_sequences', 'configurations'],
 'all generated histories before the run; stub engines that return arbitrary valid structures, fail at any call, or return malformed structures',
 'The real engines are not part of this repository; tests that use them check only that a run completes.',
 ['src/crosscat/lovecat.py', 'src/crosscat/loomcat.py', 'src/crosscat/state.py'],
 [('export of the current structure', 'src/crosscat/lovecat.py:_crosscat_X_D'), ('import of the returned structure', 'src/crosscat/lovecat.py:_update_state')],
 [('X_L, X_D', 'structure in the engine\'s format', 'src/crosscat/lovecat.py')],
 ['arguments received by the engine; State.Zv, View.Zr after the run'])

prop('P17', 'Dependence, similarity and relevance summaries follow the partitions',
 'At every reachable state, dependence between columns, similarity between rows, and relevance of rows to a target are determined by the current partitions: symmetric where defined to be, 1 for identical arguments, between 0 and 1, with pairwise tables agreeing entry by entry with the single queries. The relevance probability of a mixture equals the ratio of marginal likelihoods obtained by enumerating cluster assignments.',
 ['histories', 'inputs'],
 'all states reached by generated histories; all pairs of rows and columns, all subsets of query rows up to 4, hypothetical rows; brute-force enumeration by an independent model',
 'Tests compute these at a few constructed states.',
 ['src/crosscat/state.py', 'src/mixtures/relevance.py', 'src/crosscat/engine.py'],
 [('relevance by enumeration of tables', 'src/mixtures/relevance.py'), ('partition lookups', 'src/crosscat/state.py')],
 [('Zv, Zr', 'partitions', 'src/crosscat/state.py')],
 ['dependence_probability*, row_similarity*, relevance_probability'])

prop('P18', 'Ensemble weighting follows the likelihood of the evidence',
 'Combining per-state densities under evidence weighs each selected state by the density that state assigns to the evidence, and resampling per-state samples draws from state i with probability proportional to that density, never inventing or duplicating a sample. Without evidence all states weigh the same; evidence, inputs and state selection are each honoured.',
 ['configurations', 'histories', 'schedules'],
 'all generated ensembles of 1..5 states, state subsets, evidence (with and without inputs), and sampled resampling decisions',
 'No test compares the weights with the per-state densities of the evidence.',
 ['src/crosscat/engine.py', 'src/utils/general.py'],
 [('likelihood weighting', 'src/crosscat/engine.py:_likelihood_weighted_integrate, _likelihood_weighted_resample')],
 [('weights', 'log density of the evidence per state', 'src/crosscat/engine.py')],
 ['returned integral and resamples'])

prop('P19', 'Mutual information and entropy estimates are of the asked quantity',
 'The mutual information of two sets of columns given evidence, and the entropy of a set of columns, are averages, over the asked number of draws, of log densities, and so converge on the value the model defines: zero between independent blocks, additive over blocks, conditional on evidence values, averaged over evidence given without values, using only the evidence of the block; a query whose sets overlap without being equal, or overlap the evidence, is rejected; and asking leaves the state as it was.',
 ['histories', 'inputs', 'crash_points'],
 'all states reached by generated histories; all disjoint or equal column sets of up to 3 columns, evidence with and without values, sample sizes',
 'Tests check one or two Gaussian examples with loose tolerances and no evidence.',
 ['src/crosscat/state.py', 'src/crosscat/engine.py', 'src/network/helpers.py'],
 [('partition into independent blocks', 'src/crosscat/state.py:_partition_mutual_information_query'),
  ('Monte Carlo estimators', 'src/crosscat/state.py:_compute_mi, _compute_entropy')])

prop('P20', 'Every component model draws from the density it reports',
 'For every component model that can be composed (primitive distributions, Chinese restaurant process, regressions, nearest neighbours, kernel density, factor analysis, dummy and synthetic two-variable generators), at every state reached by observing, removing, learning and restoring, the reported density of targets given evidence and inputs is that of its documented model for the rows it holds: it sums to one over categories, is zero outside the support, does not depend on naming order, and uses the observed values of an observed row as evidence. Simulation returns exactly the requested variables and number of rows, as separate rows, drawn independently from that density (ordinary least squares, by design, returns its prediction); impossible queries are rejected; and a draw that fails leaves the model as it was.',
 ['histories', 'inputs', 'crash_points'],
 'all generated histories of up to 12 rows for each component model; all target and evidence subsets; batches drawn one at a time, a few or many at once; failures of any single random draw',
 'Tests compare a few histograms by eye or with loose tests, for one fitted model each; most generator tests are disabled.',
 ['src/primitives', 'src/regressions', 'src/knn/mvknn.py', 'src/kde/mvkde.py', 'src/factor/factor.py', 'src/dummy', 'src/uncorrelated', 'src/utils/mvnormal.py', 'src/utils/general.py'],
 [('kernel, locality and Gaussian conditioning', 'src/kde/mvkde.py, src/knn/mvknn.py, src/factor/factor.py'),
  ('simulate_many', 'src/utils/general.py')])

prop('P22', 'Fresh models follow their prior and learning preserves the posterior',
 'A model built without a given structure draws it from its declared prior: column and row partitions from Chinese restaurant processes with the given or grid-uniform concentrations (with dependence constraints, blocks are one customer; with independence constraints, forbidden tables have no weight), hyperparameters uniformly from their grids. Every inference kernel, any schedule of kernels, and any restriction to rows, columns or views maps exact draws from the posterior of structure, concentrations, hyperparameters and component parameters to exact draws from it; a row observed later is placed as a draw from its conditional; and the Metropolis-Hastings, slice and rejection samplers preserve their target.',
 ['histories', 'schedules', 'inputs'],
 'all tables of up to 4 rows and 4 columns of closed-form types for structure and grids (posterior by enumeration), any number of kernels in any order; component parameter samplers for up to 6 observations',
 'Tests run chains on larger data and look at convergence by eye or with loose bounds; a kernel with a wrong stationary law passes.',
 ['src/crosscat/state.py', 'src/mixtures/view.py', 'src/mixtures/dim.py', 'src/primitives', 'src/utils/sampling.py', 'src/utils/general.py'],
 [('Gibbs kernels', 'src/crosscat/state.py:_gibbs_transition_dim, src/mixtures/view.py:_gibbs_transition_row'),
  ('prior', 'src/primitives/crp.py:simulate, src/utils/general.py:simulate_crp_constrained*'),
  ('parameter samplers', 'src/utils/sampling.py')])

prop('P23', 'VentureScript components stay in step with their interpreter',
 'After any sequence of incorporations, removals, queries, inference and restarts - with invalid requests and failing interpreter calls among them - the interpreter behind a VsCGpm conditions on exactly the cells the client incorporated and holds nothing else; a rejected or failed operation changes nothing and can be repeated; samples follow the law of the program given the row, its inputs (in declared order) and the constraints, N are returned when N are asked for, and observed cells are returned as observed; a component restored any number of times from the same metadata is the same component. The same holds for inline expressions, alone or composed with a model, whose density is that of the expression.',
 ['histories', 'faults', 'inputs'],
 'all histories of one component and its restored copies, every interpreter call failing at any point, clocks that stall or jump back',
 'The tests need the Venture interpreter and are skipped without it; none injects a failing call.',
 ['src/venturescript/vscgpm.py', 'src/venturescript/vsinline.py'],
 [('labels of observed cells', 'src/venturescript/vscgpm.py:obs'),
  ('temporary directives', 'src/venturescript/vscgpm.py:simulate, src/venturescript/vsinline.py:simulate')])

prop('P21', 'Rendering and plotting show the data they are given',
 'For every state reached by any history, a drawn matrix of a table, a block or a whole state shows each chosen cell exactly once, at the row and column its labels name, on the scale of its column, missing cells blank. Rows of a cluster are drawn together, smaller clusters first and rows by increasing predictive density, with a line at exactly each cluster boundary; every block of a state is drawn once; a subsample holds the number of rows asked for and is the same for the same seed in every block. A distribution plot shows the observed cells of each column, the share of each occupied cluster and their sum. Matrices of partitions hold, in the asked order, the fraction of partitions that put two columns together, per recorded sweep. Drawing, also when a drawing call or the progress stream fails half way, changes neither the model nor its arguments.',
 ['histories', 'faults', 'inputs'],
 'all states reached by generated histories of tables of up to 30 rows and 9 columns, with missing cells, sparse cluster names and columns that come and go; any single failing drawing call',
 'The rendering tests draw a few figures of fixed fresh states and look at nothing but that no exception is raised.',
 ['src/utils/render.py', 'src/utils/plots.py', 'src/crosscat/state.py', 'src/mixtures/dim.py'],
 [('ordering by partition and boundaries', 'src/utils/render.py:viz_view_raw'),
  ('shares of clusters', 'src/utils/plots.py:plot_dist_continuous, plot_dist_discrete'),
  ('partition matrices', 'src/utils/plots.py:partition_to_zmatrix')])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
