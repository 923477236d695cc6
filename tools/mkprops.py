"""Writes /verif/properties.jsonl (the committed file is this script's output)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text},
        'why_tests_cant': why,
        'anchors': {'files': files,
                    'state': [dict(name=a, meaning=b, where=c) for a, b, c in state],
                    'mechanism': [dict(name=a, where=b) for a, b in mech],
                    'observe_at': list(observe), 'hook_needed': hook}})

prop('C01', 'Crosscat partitions and sufficient statistics stay coherent',
 'After any sequence of State construction, adding or removing rows and columns, filling missing cells, changing a column type and running inference kernels, every column lies in exactly one view and every row in exactly one cluster of each view, with no empty view or cluster. The table counts, the cluster membership of every cell and the sufficient statistics of every component are exactly those implied by the current dataset and partitions, and a missing cell contributes to no component. An operation changes only the part of the partition it names.',
 ['histories', 'inputs'], 'every finite history of State mutations and transitions, for every dataset, column type mix, partition and missing-cell pattern',
 'Tests run a few fixed histories with random kernels and the internal partition checks are disabled unless an environment variable is set; they do not compare sufficient statistics with the data.',
 ['src/crosscat/state.py', 'src/mixtures/view.py', 'src/mixtures/dim.py', 'src/primitives/*.py'],
 [('incorporate/unincorporate bookkeeping', 'State.incorporate, View.incorporate, Dim.incorporate'), ('column migration', 'State._migrate_dim'), ('row migration', 'View._migrate_row')],
 [('crp.data/counts', 'column partition Zv', 'State.crp'), ('view.crp', 'row partition Zr', 'View.crp'), ('dim.clusters/Zr/Zi', 'cell membership', 'Dim')],
 ['State.Zv', 'View.Zr', 'View.Nk', 'Dim.clusters', 'get_suffstats'])

prop('C02', 'The dataset is exactly what was observed; rejected updates do nothing',
 'At every point of a history the State dataset contains exactly the observed values, cell by cell and in column order, with NaN exactly where nothing was observed: inference and queries never alter it, and row or column removal removes exactly that row or column. A request the API rejects (wrong rowid, unknown or duplicate column, wrong length, NaN or out-of-support observation, forcing an observed cell, removing the last row or column, out-of-range or duplicated query targets) raises an exception and leaves dataset, partitions and statistics as they were.',
 ['histories', 'inputs'], 'every history interleaving valid and invalid mutations, inference and queries',
 'Tests assert that some invalid calls raise, on one state each, and never compare the model before and after the rejected call.',
 ['src/crosscat/state.py', 'src/mixtures/view.py', 'src/primitives/*.py'],
 [('argument validation', 'State.incorporate/incorporate_dim/unincorporate/force_cell'), ('dataset X', 'State.X')],
 [('X', 'dataset, column to list of cells', 'State.X')], ['State.X', 'State.data_array', 'State.outputs'])

prop('C03', 'Component scores are exact, order-free and reversible',
 'For every component model with a closed-form marginal (bernoulli, categorical, crp, exponential, geometric, lognormal, normal, poisson, vonmises) the score of a set of observations equals the documented conjugate marginal likelihood, depends only on the multiset of observations, and equals the sum of the one-step predictive log densities along any ordering. Removing an observation restores the score, the predictive densities and the sufficient statistics to those of never having added it.',
 ['histories', 'inputs'], 'every order of incorporate and unincorporate of any in-support observations, for all hyperparameters',
 'Tests check a few random datasets per component with loose tolerances, and only the score before and after removing everything.',
 ['src/primitives/bernoulli.py', 'src/primitives/categorical.py', 'src/primitives/crp.py', 'src/primitives/exponential.py', 'src/primitives/geometric.py', 'src/primitives/lognormal.py', 'src/primitives/normal.py', 'src/primitives/poisson.py', 'src/primitives/vonmises.py'],
 [('sufficient statistics', 'incorporate/unincorporate of each primitive'), ('conjugate updates', 'posterior_hypers, calc_log_Z, calc_predictive_logp, calc_logpdf_marginal')],
 [('suffstats', 'N, sums or counts', 'get_suffstats')], ['logpdf_score', 'logpdf', 'get_suffstats'])

prop('C04', 'Every component is a proper distribution and sampling matches density',
 'For every component model and every reachable sufficient statistic, the predictive density sums or integrates to one over the documented support and is log-zero outside it, and simulate returns only values of the support with the frequencies the density gives. Incorporating a value outside the support raises ValueError and changes nothing; an observed row simulates its own value; parameter transitions of uncollapsed components stay in the parameter domain and target the documented posterior.',
 ['inputs', 'histories'], 'all values in and out of the support, all reachable statistics and hyperparameters',
 'Tests integrate densities for single fixed hyperparameters and do not compare simulation with the predictive density after arbitrary incorporate and unincorporate histories.',
 ['src/primitives/*.py', 'src/utils/sampling.py'],
 [('support checks', 'incorporate/logpdf of each primitive'), ('predictive sampling', 'simulate of each primitive'), ('parameter MH', 'Beta.transition_params, NormalTrunc.transition_params, utils.sampling.mh_sample')],
 [], ['logpdf', 'simulate', 'incorporate', 'transition_params'])

prop('C05', 'Row inference samples clusters from the exact conditional',
 'A row transition moves one row to an existing cluster or to a fresh one with probability proportional to the cluster size without that row (or the concentration, for a fresh cluster) times the predictive density of the row\'s observed cells given the other members of that cluster, and leaves all other rows where they were. A sweep updates exactly the requested rows; incorporating a row without naming its cluster samples it from the same conditional.',
 ['histories', 'inputs', 'configurations'], 'every dataset, row partition, hyperparameter setting, column type mix and row',
 'Tests assert only that inference on synthetic data ends near the generating partition; a kernel with the wrong stationary distribution passes.',
 ['src/mixtures/view.py', 'src/mixtures/dim.py', 'src/primitives/crp.py', 'src/utils/general.py'],
 [('collapsed Gibbs row kernel', 'View._gibbs_transition_row'), ('CRP tables', 'Crp.gibbs_tables/gibbs_logps'), ('categorical draw', 'general.log_pflip')],
 [('Zr', 'row partition', 'View.Zr')], ['State.transition_view_rows', 'View.transition_rows', 'State.incorporate'])

prop('C06', 'Column inference samples views from the exact conditional',
 'A column transition moves one column to an existing view with probability proportional to the number of other columns there times the marginal likelihood of the column under that view\'s row partition, or to a fresh view with the concentration times the marginal likelihood under a row partition drawn from its prior (a lone column\'s own view serving as the fresh one). View labels and storage order have no influence, all other columns and the row partitions of surviving views are unchanged, and a view containing a column declared independent is never chosen.',
 ['histories', 'inputs', 'configurations'], 'every dataset, column and row partition, view labelling, hyperparameter setting and column',
 'Tests assert only that dependence is recovered on synthetic data; the labelling and storage orders that arise after long histories or after loading a model are never sampled.',
 ['src/crosscat/state.py', 'src/mixtures/view.py', 'src/primitives/crp.py'],
 [('Gibbs column kernel', 'State._gibbs_transition_dim'), ('column migration', 'State._migrate_dim')],
 [('Zv', 'column partition', 'State.Zv'), ('views', 'views by label', 'State.views')], ['State.transition_dims', 'State.Zv'])

prop('C07', 'Model score and hyperparameter inference are exact',
 'The model score is the log of the column-partition prior times, per view, the row-partition prior times the marginal likelihood of each column in each cluster under its hyperparameters. Transitions of concentrations and of column hyperparameters draw each hyperparameter from its grid with probability proportional to that score, share the drawn value among all clusters of the column including future ones, and change neither data nor partitions.',
 ['inputs', 'configurations', 'histories'], 'every dataset, partition, hyperparameter grid and transition order',
 'Tests check that scores are finite or increase; no test compares a score or a hyperparameter draw with its exact distribution.',
 ['src/crosscat/state.py', 'src/mixtures/view.py', 'src/mixtures/dim.py', 'src/utils/general.py'],
 [('score assembly', 'State.logpdf_score, View.logpdf_score, Dim.logpdf_score'), ('grid Gibbs', 'Dim.transition_hypers')],
 [('hypers', 'shared hyperparameters', 'Dim.hypers')], ['State.logpdf_score', 'State.logpdf_likelihood', 'Dim.transition_hypers', 'State.alpha'])

prop('C08', 'Conditional density queries are exact',
 'For a hypothetical row the joint density of targets given constraints is the product over views of the cluster mixture, weighted by the cluster prior times the density of that view\'s constraints and including the fresh cluster; for an observed row with missing cells it is the density given the row\'s own cluster. Therefore marginals are sums of joints, the chain rule holds in every order, densities sum to one, conditioning on variables of other views has no effect, and bulk, network and direct paths agree.',
 ['inputs', 'configurations'], 'every model state, row, target set and constraint set',
 'Tests check Bayes rule on a few queries of one fixed state.',
 ['src/crosscat/sampling.py', 'src/crosscat/state.py', 'src/mixtures/view.py', 'src/network/importance.py', 'src/utils/validation.py'],
 [('mixture enumeration', 'sampling.view_logpdf, View.logpdf'), ('query partition', 'validation.partition_query_evidence'), ('constraint population', 'State._populate_constraints, View._populate_constraints')],
 [], ['State.logpdf', 'State.logpdf_bulk', 'View.logpdf'])

prop('C09', 'Simulated rows are independent draws from the queried density',
 'Simulate returns exactly the requested number of rows, each assigning exactly the requested targets, and the rows are independent draws from the joint conditional density that the density query reports for the same row and constraints, jointly across all targets and views and whether or not cluster targets are requested. A single-sample request returns one such row rather than a list.',
 ['inputs', 'configurations'], 'every model state, row, target list, constraint set and sample count',
 'Tests compare one-dimensional marginals of simulated columns visually or by a two-sample test, never joints across views nor the dependence between successive rows.',
 ['src/crosscat/sampling.py', 'src/crosscat/state.py', 'src/mixtures/view.py', 'src/network/importance.py'],
 [('ancestral sampling', 'sampling.state_simulate, sampling.view_simulate, View.simulate')],
 [], ['State.simulate', 'State.simulate_bulk', 'View.simulate'])

prop('C10', 'Queries never change the model',
 'Any logpdf, simulate, dependence, similarity, relevance, mutual information, score or serialization request, whether it succeeds or raises, leaves the dataset, every partition, hyperparameter, component parameter, sufficient statistic, iteration counter and diagnostic of the State or Engine unchanged.',
 ['histories', 'inputs'], 'every interleaving of queries with mutations, including queries that fail',
 'Tests look at returned values; none compares the complete model before and after a query, and none does so for queries that raise.',
 ['src/crosscat/state.py', 'src/crosscat/engine.py', 'src/mixtures/view.py', 'src/mixtures/relevance.py', 'src/network/importance.py'],
 [('hypothetical rows', 'State.relevance_probability'), ('temporary removal', 'relevance.relevance_probability')],
 [], ['State.to_metadata', 'State.Zv', 'View.Zr', 'Dim.clusters'])

prop('C11', 'Saving and loading preserves the model',
 'For every State or Engine reached by any history, and for every serializable component CGPM, the metadata survives JSON or pickle encoding, and rebuilding from it gives a model with the same dataset, outputs, constraints, partitions, concentrations, column types, distribution arguments, hyperparameters, statistics, diagnostics and composed models, hence the same scores and densities and the same behaviour afterwards. The original and the copy share no mutable state.',
 ['histories', 'configurations'], 'every reachable model, encoding and continuation',
 'Tests round-trip a few freshly built models and compare a handful of fields, not models after column removal, view deletion, type changes or composition.',
 ['src/crosscat/state.py', 'src/crosscat/engine.py', 'src/mixtures/view.py', 'src/regressions/*.py', 'src/kde/mvkde.py', 'src/knn/mvknn.py', 'src/factor/factor.py', 'src/utils/general.py'],
 [('metadata', 'to_metadata/from_metadata'), ('pickle', 'to_pickle/from_pickle')],
 [], ['to_metadata', 'from_metadata', 'logpdf_score', 'logpdf'])

prop('C12', 'Dependence and independence constraints always hold',
 'When a State or Engine is built with declared dependent blocks and independent pairs, the initial column partition and the partition after any transition, column removal or reload keeps every dependent block in one view and every independent pair in different views. Contradictory, out-of-range, duplicated or singleton constraint declarations are rejected; the initial partition follows the constrained Chinese restaurant process, and the column score under dependent blocks treats each block as one customer.',
 ['histories', 'inputs', 'configurations'], 'every constraint set over the columns and every history of supported operations',
 'Tests sample a few constraint sets with a few seeds.',
 ['src/crosscat/state.py', 'src/utils/general.py', 'src/utils/validation.py'],
 [('constrained CRP', 'general.simulate_crp_constrained, simulate_crp_constrained_dependent, logp_crp_constrained_dependent'), ('validation', 'validation.validate_crp_constrained_input'), ('avoid list', 'State._gibbs_transition_dim')],
 [('Cd, Ci', 'declared constraints', 'State.Cd, State.Ci')], ['State.Zv', 'State.logpdf_score_crp'])

prop('C13', 'Ensemble operations address the right models in the right order',
 'An Engine query returns one result per requested model, in the order requested (all models in index order by default), each equal to asking that model alone; an Engine update is applied exactly once to each addressed model and to no other. Serial and multiprocess execution give the same results and the same models, adding and removing models keeps the others and their order, and all models share the same dataset and outputs.',
 ['histories', 'inputs', 'schedules'], 'every history of Engine operations with arbitrary model subsets, serial or parallel',
 'Tests call each Engine method once with two or three models and check lengths or types of the result, rarely which model an answer came from.',
 ['src/crosscat/engine.py', 'src/utils/parallel_map.py'],
 [('dispatch', '_modify, _alter, _evaluate, Engine methods'), ('mapper', 'parallel_map')],
 [('states', 'ordered ensemble', 'Engine.states')], ['Engine.*'])

prop('C14', 'Parallel map is equivalent to serial map under every schedule',
 'For every function, input list and degree of parallelism, parallel_map returns the list of results in input order with every input evaluated exactly once, whatever the relative speed of the workers. If evaluating or returning any input fails, the call raises instead of hanging or returning a partial result, and in every case all workers have ended and all pipes are closed when it returns.',
 ['schedules', 'inputs', 'fault_sequences'], 'all interleavings of workers and coordinator, all failing subsets of inputs, all list lengths relative to the number of workers',
 'The tests run one successful map per configuration under whatever schedule the machine gives, and one failure.',
 ['src/utils/parallel_map.py'],
 [('pipes', 'inq, outq, retq'), ('dispatch loop', 'parallel_map'), ('worker loop', 'process_input'), ('collector', 'process_output')],
 [('ctr', 'outstanding tasks', 'parallel_map')], ['parallel_map'])

prop('C15', 'Composed models form a valid directed network',
 'Composing CGPMs accepts exactly the acyclic networks in which every variable has at most one producer, and evaluates every CGPM after all producers of its inputs; a rejected composition leaves the State as before and removing a composed model restores it. Ancestors, descendants, adjacency, producers and connected components reported for a network are exactly those of its variable graph.',
 ['configurations', 'histories', 'inputs'], 'every finite set of CGPMs with arbitrary inputs and outputs and every compose and decompose history',
 'Tests use half a dozen hand-drawn graphs.',
 ['src/network/helpers.py', 'src/network/importance.py', 'src/crosscat/state.py'],
 [('graph helpers', 'network.helpers'), ('compose', 'State.compose_cgpm/decompose_cgpm')],
 [('hooked_cgpms', 'composed models by token', 'State.hooked_cgpms')], ['ImportanceNetwork', 'State.compose_cgpm', 'retrieve_*'])

prop('C16', 'Network queries weight and resample correctly',
 'A network density query evaluates the joint of targets and constraints over the graph: exactly, when every needed parent value is given, and otherwise as a consistent importance estimate whose weight is the density of the constrained variables given the values proposed for their parents, normalised by the estimate for the constraints alone. Simulated rows respect constraints and inputs, contain exactly the targets and follow the network\'s conditional distribution as the number of particles grows.',
 ['inputs', 'configurations'], 'every network, target set, constraint set, external inputs and particle count',
 'Tests compare a few linear-Gaussian networks at one accuracy with wide tolerance.',
 ['src/network/importance.py', 'src/crosscat/state.py'],
 [('likelihood weighting', 'ImportanceNetwork.weighted_sample/logpdf/simulate'), ('row data as constraints', 'State._populate_constraints')],
 [], ['ImportanceNetwork.logpdf', 'ImportanceNetwork.simulate', 'State.logpdf'])

prop('C17', 'Dependence, similarity and relevance summaries are exact',
 'Dependence probability of two variables is 1 when they share a view, a composed model or an upstream source and 0 otherwise, is symmetric and reflexive; row similarity is the fraction of the relevant views in which two rows share a cluster; pairwise matrices hold exactly these values for the requested rows and columns in the requested order. Relevance between rows is 1 or 0 by whether they share the cluster of the context column\'s view, and the view-level relevance probability is the exact posterior probability that the target joins the query rows\' cluster.',
 ['inputs', 'configurations', 'histories'], 'every model state, variable pair, row set, column subset and hypothetical row set',
 'Tests check ranges, symmetry or one example.',
 ['src/crosscat/state.py', 'src/mixtures/relevance.py', 'src/mixtures/view.py', 'src/crosscat/engine.py'],
 [('dependence', 'State.dependence_probability, _dependence_probability_composite'), ('similarity', 'State.row_similarity'), ('relevance', 'State.relevance_probability, relevance.relevance_probability')],
 [], ['State.dependence_probability_pairwise', 'State.row_similarity_pairwise', 'View.relevance_probability'])

prop('C18', 'Mutual information estimates the exact information quantity',
 'Mutual information of two disjoint variable sets is the Monte Carlo average of log joint minus log marginals under the conditional model, and entropy (identical sets) the average negative log density; both equal the exact value in the limit, are zero across independent blocks, honour both fixed-value and marginalised conditions together, and reject overlapping or conditioned-on targets.',
 ['inputs', 'configurations'], 'every model, variable sets, constraint mix and sample sizes',
 'Tests compare bivariate normals with wide tolerance; conditions of both kinds together are not tested for value.',
 ['src/crosscat/state.py', 'src/utils/entropy_estimators.py'],
 [('estimators', 'State.mutual_information, _compute_mi, _compute_entropy, _partition_mutual_information_query')],
 [], ['State.mutual_information'])

prop('C19', 'External inference backends round-trip the model',
 'Handing a State to the lovecat backend describes exactly its dataset, column types, hyperparameters, column partition, row partitions in row order, counts, concentrations and dependence constraints; adopting the backend\'s answer installs exactly the returned column partition, row partitions and concentrations and appends the returned diagnostics, leaves dataset, column types and column hyperparameters as they were (State.transition_lovecat then resamples hyperparameters and concentrations) and keeps all bookkeeping coherent. The kernels, columns, rows, steps and seconds requested are those asked of the backend; a State with other column types is refused, and without an answer nothing changes. A conversion followed by adopting the unchanged answer is the identity up to labels. Likewise a loom project holds exactly the present dataset and column types of the model that uses it (a changed model makes a new one), the passes and sample requested are those run, and the sample\'s kinds and groups, by whatever order loom keeps features and rows in, become the column and row partitions of the State, or of the State of that number in an ensemble.',
 ['histories', 'configurations', 'inputs'], 'every normal/categorical State reached by any history and every valid backend answer',
 'The lovecat tests need a compiled package that is absent, and check only fresh models whose rows were never moved.',
 ['src/crosscat/lovecat.py', 'src/crosscat/state.py', 'src/crosscat/loomcat.py'],
 [('export', 'lovecat._crosscat_M_c/_X_D/_X_L/_T, loomcat.initialize'), ('import', 'lovecat._update_state, loomcat._update_state')],
 [], ['lovecat.transition', 'State.transition_lovecat'])

prop('C20', 'Non-crosscat CGPMs honour the dataset and query contract',
 'For kernel density, nearest neighbour, factor analysis, linear regression, ordinary least squares, random forest and the demonstration CGPMs: incorporate records exactly the given row, unincorporate removes it and restores all statistics, duplicate or unknown rowids and missing inputs are rejected without effect, a query on an observed row uses that row\'s data, simulate returns exactly the requested targets, and densities are those of the documented model, normalised and consistent with conditioning.',
 ['histories', 'inputs'], 'every incorporate, unincorporate and query history with any missing-value pattern',
 'Tests exercise each model on one fixed dataset.',
 ['src/kde/mvkde.py', 'src/knn/mvknn.py', 'src/factor/factor.py', 'src/regressions/linreg.py', 'src/regressions/ols.py', 'src/regressions/forest.py', 'src/dummy/*.py', 'src/uncorrelated/*.py'],
 [('dataset bookkeeping', 'incorporate/unincorporate'), ('query preparation', 'populate_constraints, preprocess'), ('posterior', 'Linreg.posterior_hypers, FactorAnalysis.joint_parameters')],
 [], ['incorporate', 'unincorporate', 'logpdf', 'simulate', 'logpdf_score'])

prop('C21', 'Results depend only on inputs and seed',
 'Two models built with the same arguments and equally seeded generators and taken through the same history give identical results and identical models, whatever else runs in the process and however the global random state stands; no operation consumes or resets the global generators when the model was given one. Different samples within a run are not copies of each other.',
 ['histories', 'schedules', 'inputs'], 'every history and every seed',
 'One test checks that two engines with the same seed agree on one query.',
 ['src/utils/general.py', 'src/crosscat/state.py', 'src/crosscat/engine.py', 'src/primitives/*.py'],
 [('explicit generators', 'rng arguments'), ('per-model seeds', 'Engine._get_seeds')],
 [], ['every public call'])

prop('C22', 'Inference runs exactly the requested kernels',
 'A transition with N iterations runs each requested kernel exactly N times on the requested rows, columns and views and nothing else, recording one iteration per kernel run and one checkpoint of score, concentration and column partition every checkpoint iterations, computed from the model at that moment. Unknown columns are rejected before anything changes, and counters accumulate over successive calls.',
 ['histories', 'inputs', 'configurations'], 'every combination of iterations, kernels, rows, columns, views and checkpoints, over any history',
 'Tests check list lengths of diagnostics for two calls.',
 ['src/crosscat/state.py', 'src/crosscat/engine.py'],
 [('scheduler', 'State._transition_generic'), ('counters', 'State._increment_iterations, _increment_diagnostics')],
 [('diagnostics', 'counters and checkpoints', 'State.diagnostics')], ['State.transition', 'State.diagnostics'])

prop('C23', 'Ensemble averages weight models by how well they explain the evidence',
 'Likelihood-weighted ensemble queries weight each model by the density it gives the constraints: the aggregated density is the weighted mean of the models\' densities, and resampled rows come from model i with probability proportional to that weight, each a draw from that model. Without constraints all models weigh the same, and external inputs are passed on as inputs.',
 ['inputs', 'configurations'], 'every ensemble, targets, constraints, inputs and sample count',
 'Tests check only that the result has the right shape.',
 ['src/crosscat/engine.py', 'src/utils/general.py'],
 [('weights', 'Engine._likelihood_weighted_integrate, _likelihood_weighted_resample'), ('log means', 'general.logmeanexp_weighted, logsumexp')],
 [], ['Engine.logpdf_bulk', 'Engine.simulate_bulk', 'general.*'])

prop('C24', 'Schema and probability helpers meet their definitions',
 'Constraint validation accepts exactly the consistent constraint sets; partitioning a query splits it into exactly the per-group parts; dummy coding maps each categorical value to its indicator block and back-compatible column order; column type names resolve to the documented component with its declared data type and arguments; log-space helpers, normalisation, combinatorics and weighted choice return their mathematical values, including with log-zero and single-element inputs.',
 ['inputs'], 'every argument in the documented domain',
 'Tests sample a few arguments; several helpers are not tested at all.',
 ['src/utils/validation.py', 'src/utils/data.py', 'src/utils/config.py', 'src/utils/general.py', 'src/network/helpers.py'],
 [('validation', 'validation.*'), ('coding', 'data.dummy_code, data.value_to_index'), ('types', 'config.cctype_class'), ('log-space', 'general.logsumexp/log_normalize/logmeanexp/pflip')],
 [], ['utils.validation', 'utils.data', 'utils.config', 'utils.general'])

prop('C25', 'Multivariate normal conditioning is exact',
 'For every mean, covariance and split into observed and unobserved coordinates, the multivariate normal helpers give the exact log density, marginal and conditional mean and covariance, including empty conditioning sets and degenerate covariances as documented, and sampling follows that distribution using only the given generator.',
 ['inputs'], 'every mean vector, covariance matrix, query and evidence index set',
 'Tests use a few fixed matrices.',
 ['src/utils/mvnormal.py', 'src/factor/factor.py'],
 [('conditioning', 'mvnormal.conditional'), ('density', 'mvnormal.logpdf'), ('sampling', 'mvnormal.simulate')],
 [], ['utils.mvnormal'])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if __name__ == '__main__':
    with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps(p) + '\n')
    print(len(P))
