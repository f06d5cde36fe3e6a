"""Writes /verif/properties.jsonl (single source for ids, titles, statements)."""
import json, os
DP='python/dp_accounting/dp_accounting/'
AU='python/dp_auditorium/dp_auditorium/'
CL='learning/clustering/'
P=[]
def p(id,title,statement,over,text,why,files,mech):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
      why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech])))

p('C01','Accountants keep a faithful ledger and refuse atomically',
 'For every sequence of compositions, an accountant\'s ledger holds exactly the accepted events in order and with their multiplicities. An event the accountant reports as unsupported, or a call with an invalid count, is refused with an error and leaves both the ledger and every epsilon and delta it reports unchanged; an event it reports as supported, with valid parameters, is accepted.',
 ['histories','inputs'],'All sequences of compose calls (supported, unsupported, invalid count, nested) on the RDP and PLD accountants, all event parameters.',
 'Tests compose a few fixed events and check one refusal at a time; they do not quantify over histories mixing refusals with accepted events.',
 [DP+'privacy_accountant.py',DP+'dp_event_builder.py',DP+'rdp/rdp_privacy_accountant.py',DP+'pld/pld_privacy_accountant.py'],
 [('compose / supports / ledger',DP+'privacy_accountant.py:PrivacyAccountant'),('_maybe_compose',DP+'rdp/rdp_privacy_accountant.py'),('_maybe_compose',DP+'pld/pld_privacy_accountant.py')])
p('C02','Grouping and repetition of events never change the accounted loss',
 'Composing an event n times, composing it once with count n, composing its n-fold self-composition, and composing the flat or nested composition listing it n times all give the same epsilon at every delta and the same delta at every epsilon, for every event type the accountant supports, up to discretization where a single discretized loss distribution stands for several. Reordering the events changes nothing either.',
 ['histories','inputs'],'All supported event kinds, counts within bounds, nestings within bounds, all mechanism parameters, both accountants.',
 'Tests check self-composition for a few event kinds at single parameter values; a kind or nesting that drops the count is not reached.',
 [DP+'rdp/rdp_privacy_accountant.py',DP+'pld/pld_privacy_accountant.py',DP+'privacy_accountant.py'],
 [('recursive event handling',DP+'rdp/rdp_privacy_accountant.py:_maybe_compose'),('recursive event handling',DP+'pld/pld_privacy_accountant.py:_maybe_compose')])
p('C03','Privacy loss never decreases as events are composed',
 'After any further composition, successful or failed, the epsilon and delta an accountant reports are at least what they were before. A mechanism that adds no noise or is declared non-private makes epsilon infinite and delta one from then on, and a no-op event changes nothing.',
 ['histories','inputs'],'All histories of compose calls with symbolic parameters, including calls whose processing fails half-way.',
 'Tests sample monotonicity at a few parameter points and never observe an accountant after a composition that raised.',
 [DP+'rdp/rdp_privacy_accountant.py',DP+'pld/pld_privacy_accountant.py',DP+'privacy_accountant.py'],
 [('accumulated loss state',DP+'rdp/rdp_privacy_accountant.py:RdpAccountant._rdp'),('accumulated loss state',DP+'pld/pld_privacy_accountant.py:PLDAccountant._pld')])
p('C04','Every event survives conversion to a generic tuple and back',
 'Converting any event, however nested, to its portable named-tuple form and back yields an event equal to the original, with the same type, field values and field order; an accountant that supports the original supports the reconstruction and reports the same loss for it.',
 ['inputs'],'All event classes, nesting within bounds, arbitrary field values.',
 'Tests round-trip a fixed list of example events.',
 [DP+'dp_event.py'],[('to_named_tuple / from_named_tuple',DP+'dp_event.py:DpEvent')])
p('C05','The event builder reproduces the exact composed history',
 'For every sequence of events and positive counts given to the event builder, the built event lists those events in order with their total multiplicities, consecutive repetitions of one event being merged and nothing lost, reordered or invented. Building does not disturb the builder, and invalid counts or non-events are refused without changing it.',
 ['histories'],'All call sequences within bounds, counts symbolic over the positive integers within bounds, arbitrary equality pattern between the events.',
 'Tests run a handful of fixed call sequences.',
 [DP+'dp_event_builder.py'],[('compose/build',DP+'dp_event_builder.py:DpEventBuilder')])
p('C06','Calibration returns a parameter that meets the privacy target',
 'Whenever mechanism calibration returns a value, the accountant\'s epsilon for the event made from that value is at most the target epsilon at the target delta; the value lies within the search interval, is an integer when a discrete parameter was requested, and no value further than the tolerance towards less noise also met the target unless the function is not monotone there. When no such value can be bracketed, an error is raised instead of a value.',
 ['inputs'],'All monotone (increasing or decreasing) epsilon-versus-parameter functions, all intervals, tolerances and guesses within the iteration bound, continuous and discrete.',
 'Tests calibrate a few concrete mechanisms; the result of a root finder on an arbitrary monotone function and the behaviour of bracket search are not covered.',
 [DP+'mechanism_calibration.py'],[('calibrate_dp_mechanism',DP+'mechanism_calibration.py'),('bracket search',DP+'mechanism_calibration.py:_search_for_explicit_bracket_interval')])
p('C07','RDP to epsilon conversion is never below the proven bound\'s minimum',
 'For every list of Renyi orders greater than one and every curve of non-negative (possibly infinite) divergences, the epsilon reported for a delta is non-negative and equals the smallest value the published Renyi-to-approximate-DP conversion gives over the listed orders; it is never smaller than a value justified by one of the orders, and a delta of zero or infinite divergences at all orders give infinity.',
 ['inputs'],'All order lists within the size bound (integer, fractional, infinite), all divergence values, all delta in [0,1].',
 'Tests evaluate a few closed-form curves; the special cases (order one, infinite order, tiny divergences, all-infinite curves) interact in ways they do not enumerate.',
 [DP+'rdp/rdp_privacy_accountant.py'],[('compute_epsilon',DP+'rdp/rdp_privacy_accountant.py')])
p('C08','RDP to delta conversion is never below the proven bound\'s minimum',
 'For every list of Renyi orders greater than one and every curve of non-negative divergences, the delta reported for an epsilon lies in [0,1], equals the smallest value the published conversion gives over the listed orders, never increases with epsilon, and is consistent with the epsilon reported for that delta.',
 ['inputs'],'All order lists within the size bound, all divergence values, all epsilon >= 0.',
 'Tests evaluate a few closed-form curves.',
 [DP+'rdp/rdp_privacy_accountant.py'],[('compute_delta',DP+'rdp/rdp_privacy_accountant.py')])
p('C09','RDP of basic mechanisms matches the Renyi divergence of their outputs',
 'For the Gaussian, Laplace, zero-concentrated, pure-DP style randomized-response and no-op events, the Renyi divergence the accountant adds at every order equals the Renyi divergence (or published bound) for that mechanism, noise multiplier and neighbouring relation, times the count. Zero noise gives infinite divergence and unlimited noise gives none.',
 ['inputs'],'All noise multipliers >= 0, all bucket counts and noise parameters within bounds, all orders considered, both relations.',
 'Tests check a few parameter values at a few orders.',
 [DP+'rdp/rdp_privacy_accountant.py'],[('Laplace RDP',DP+'rdp/rdp_privacy_accountant.py:_laplace_rdp / LaplaceDpEvent'),('randomized response',DP+'rdp/rdp_privacy_accountant.py:RandomizedResponseDpEvent')])
p('C10','RDP of the Poisson-subsampled Gaussian is the exact moment formula',
 'For every sampling probability in [0,1], noise multiplier and order, the Renyi divergence accounted for a Poisson-subsampled Gaussian equals the closed-form binomial moment sum at integer orders above one and, at fractional orders, the two-sided series with its terms in absolute value (which can only overstate); at order one it is positive and at most the plain Gaussian cost; probability zero costs nothing, probability one costs the plain Gaussian, zero noise costs infinity, and several Gaussians under one sampling step cost the same as one Gaussian with their combined noise.',
 ['inputs'],'All sampling probabilities, noise multipliers, integer orders within the bound, fractional orders with the series cut at the bounded number of terms.',
 'Tests compare against numeric integration at a few points with loose tolerance.',
 [DP+'rdp/rdp_privacy_accountant.py'],[('_compute_log_a_int / _compute_log_a_frac',DP+'rdp/rdp_privacy_accountant.py'),('_effective_gaussian_noise_multiplier',DP+'rdp/rdp_privacy_accountant.py')])
p('C11','RDP of sampling without replacement follows the published bound',
 'For every source size, sample size, noise multiplier and order, the Renyi divergence accounted for a Gaussian on a fixed-size sample without replacement equals the published upper bound at integer orders above one, interpolates between neighbouring integer orders at fractional ones, is zero when nothing is sampled and the full replace-one Gaussian cost when everything is.',
 ['inputs'],'All sampling fractions in [0,1], all noise multipliers, orders within the bound.',
 'Tests check a few points and scaling trends.',
 [DP+'rdp/rdp_privacy_accountant.py'],[('_compute_rdp_sample_wor_gaussian_*',DP+'rdp/rdp_privacy_accountant.py')])
p('C12','Tree aggregation cost reflects every restart and the tree depth',
 'For every list of tree step counts and noise multiplier, the Renyi divergence accounted for single-epoch tree aggregation equals the plain Gaussian cost multiplied by the largest depth any tree reaches, and never decreases when a tree grows; negative or missing step counts are refused, trees without steps cost nothing, and zero noise costs infinity.',
 ['inputs'],'All step-count lists within bounds, all noise multipliers and orders.',
 'Tests check a few step counts.',
 [DP+'rdp/rdp_privacy_accountant.py'],[('_compute_rdp_single_epoch_tree_aggregation',DP+'rdp/rdp_privacy_accountant.py')])
p('C13','Repeat-and-select cost follows the published theorem',
 'For every base Renyi curve (finite or infinite), every mean and shape of the repetition-count distribution and every order, the divergence accounted for repeating a mechanism and releasing the best outcome equals the best bound the published theorem permits for that distribution family, never below the theorem\'s minimum over the permitted auxiliary orders, and is added to what was already accounted; with an effectively single run it is not less than the base cost.',
 ['inputs','histories'],'All base divergences, all means and shapes in the documented domain, order lists within bounds, prior history arbitrary.',
 'Tests check a few parameter points for each family.',
 [DP+'rdp/rdp_privacy_accountant.py'],[('_compute_rdp_repeat_and_select',DP+'rdp/rdp_privacy_accountant.py')])
p('C14','No guarantee is given under an unsupported neighbouring relation',
 'An event is accepted only under a neighbouring relation for which its analysis is valid: sampling without replacement only for replace-one, Poisson sampling only for add-or-remove-one or replace-special, tree aggregation only for replace-special and randomized response only for replace-one or replace-special. Everything else is refused with an error naming the event.',
 ['inputs','configurations'],'All neighbouring relations times all event kinds and nestings within bounds, all event parameters, both accountants.',
 'Tests enumerate some relation/event pairs, but not inside nestings and not with arbitrary parameters.',
 [DP+'rdp/rdp_privacy_accountant.py',DP+'pld/pld_privacy_accountant.py'],[('neighboring relation gates',DP+'rdp/rdp_privacy_accountant.py:_maybe_compose'),('neighboring relation gates',DP+'pld/pld_privacy_accountant.py:_maybe_compose')])
p('C15','Delta of a loss distribution is its hockey-stick divergence',
 'For every privacy loss distribution and every epsilon, the reported delta equals the expected positive part of one minus exp(epsilon minus loss) over the distribution plus the infinite-loss mass, lies in [0,1], never increases with epsilon, and is the same for sparse and dense storage and whether epsilons are queried one at a time or as a list. The two-sided delta is the larger of the two directions.',
 ['inputs'],'All probability vectors, discretization intervals, loss offsets within bounds, all real and infinite epsilons.',
 'Tests evaluate fixed distributions at fixed epsilons.',
 [DP+'pld/pld_pmf.py',DP+'pld/privacy_loss_distribution.py'],[('get_delta_for_epsilon',DP+'pld/pld_pmf.py:_get_delta_for_epsilon / _get_delta_for_epsilon_vectorized')])
p('C16','Epsilon of a loss distribution is the smallest that meets delta',
 'For every privacy loss distribution and every delta, the reported epsilon is non-negative and satisfies delta, no smaller non-negative epsilon satisfies it, and infinity is reported exactly when the infinite-loss mass alone exceeds delta. Sparse and dense storage agree and the two-sided epsilon is the larger of the two directions.',
 ['inputs'],'All probability vectors, discretization intervals, loss offsets within bounds, all delta in [0,1].',
 'Tests evaluate fixed distributions at fixed deltas.',
 [DP+'pld/pld_pmf.py',DP+'pld/privacy_loss_distribution.py'],[('get_epsilon_for_delta',DP+'pld/pld_pmf.py:_get_epsilon_for_delta')])
p('C17','Composing two loss distributions convolves them exactly',
 'Composing any two compatible privacy loss distributions gives the distribution of the sum of independent losses, with the infinite-loss mass one minus the product of the finite masses, whatever the storage (sparse, dense or mixed), and does not modify its operands. Distributions with different discretization or opposite estimate direction are refused.',
 ['inputs'],'All probability vectors and infinite masses, supports and offsets within bounds, all storage combinations.',
 'Tests compose a few fixed distributions; storage-dependent paths and extreme masses are sampled.',
 [DP+'pld/pld_pmf.py',DP+'pld/common.py',DP+'pld/privacy_loss_distribution.py'],[('compose / validate_composable',DP+'pld/pld_pmf.py'),('convolve_dictionary',DP+'pld/common.py')])
p('C18','Self-composition equals repeated composition',
 'Self-composing a loss distribution n times gives the same distribution as composing it with itself n-1 times, up to the stated tail truncation, for both storages, and equals the original for n equal to one; non-positive counts are refused.',
 ['inputs'],'All probability vectors, counts and supports within bounds, both storages, both estimate directions.',
 'Tests compare a few fixed distributions and counts.',
 [DP+'pld/pld_pmf.py',DP+'pld/common.py'],[('self_compose',DP+'pld/pld_pmf.py'),('self_convolve*',DP+'pld/common.py')])
p('C19','Truncating tails keeps estimates on the safe side',
 'Whatever tail mass is truncated during composition, self-composition or self-convolution, a pessimistic distribution\'s delta never decreases at any epsilon and rises by at most the truncated mass allowed (twice that for Fourier-based self-composition), an optimistic one\'s never increases and falls by at most that mass. No probability is lost from a pessimistic distribution, and none beyond the allowed mass is created.',
 ['inputs'],'All probability vectors, truncation masses, supports within bounds, both directions, both storages, all epsilons.',
 'Tests check a few fixed vectors; the safe-side guarantee is over all epsilons and masses.',
 [DP+'pld/pld_pmf.py',DP+'pld/common.py'],[('_truncate_tails',DP+'pld/pld_pmf.py'),('compute_self_convolve_bounds',DP+'pld/common.py')])
p('C20','Direct composed-delta queries agree with composing first',
 'Asking for the delta of the composition of two loss distributions without materialising it gives the same value, at every epsilon and for every storage combination, as composing them and then asking for delta, including both directions of asymmetric distributions.',
 ['inputs'],'All probability vectors, infinite masses and supports within bounds, all epsilons, all storage combinations.',
 'Tests compare at a few fixed inputs.',
 [DP+'pld/pld_pmf.py',DP+'pld/privacy_loss_distribution.py'],[('get_delta_for_epsilon_for_composed_PLD',DP+'pld/pld_pmf.py')])
p('C21','Asymmetric loss distributions keep their two directions apart',
 'For any asymmetric pair of remove and add distributions, composition and self-composition act on each direction separately, epsilon and delta report the worse direction, composing with a symmetric distribution uses it for both directions, and the result is symmetric only if both operands are. The identity distribution leaves any distribution unchanged.',
 ['inputs','histories'],'All pairs of distributions within bounds, all composition orders within bounds.',
 'Tests use fixed pairs.',
 [DP+'pld/privacy_loss_distribution.py'],[('compose/self_compose/get_*',DP+'pld/privacy_loss_distribution.py:PrivacyLossDistribution')])
p('C22','Discretized loss distributions bound the true mechanism from the safe side',
 'A pessimistic loss distribution built from two output distributions, from randomized response, from a stated (epsilon, delta) guarantee, or by rounding an additive-noise mechanism has delta at least the mechanism\'s true hockey-stick divergence at every epsilon, an optimistic one at most, and losses move by less than one discretization interval; on-grid losses are reproduced exactly. Probability mass is neither lost nor created.',
 ['inputs'],'All pairs of output distributions within size bounds, all noise parameters, all discretization intervals within bounds, all epsilons.',
 'Tests compare fixed parameter points with precomputed tables.',
 [DP+'pld/privacy_loss_distribution.py',DP+'pld/pld_pmf.py'],[('from_two_probability_mass_functions / from_randomized_response / from_privacy_parameters / _create_pld_pmf_from_additive_noise',DP+'pld/privacy_loss_distribution.py')])
p('C23','Connect-the-dots reproduces the true delta at every grid point',
 'The loss distribution built by connecting the dots has, at every grid epsilon supplied, exactly the hockey-stick divergence supplied for it, has non-negative masses that sum to one when the supplied curve is a valid privacy profile, and between grid points bounds the true curve from above. Both construction variants agree on a uniform grid.',
 ['inputs'],'All valid privacy profiles (decreasing, convex in exp epsilon), grids and intervals within bounds.',
 'Tests use a few mechanisms\' profiles on fixed grids.',
 [DP+'pld/pld_pmf.py',DP+'pld/privacy_loss_distribution.py'],[('create_pmf_pessimistic_connect_dots*',DP+'pld/pld_pmf.py'),('_pld_for_subsampled / connect dots',DP+'pld/privacy_loss_distribution.py')])
p('C24','Privacy loss and its inverse describe the same noise mechanism',
 'For every additive noise mechanism (Gaussian, Laplace, discrete Gaussian, discrete Laplace), direction and sampling probability, the privacy loss at each output is the log ratio of the two output distributions, is non-increasing in the output, and the inverse at any loss value is the largest output whose privacy loss is at least that value, with the documented infinities outside the attainable range.',
 ['inputs'],'All noise scales, sensitivities, sampling probabilities, outputs and loss values.',
 'Tests check a table of parameters.',
 [DP+'pld/privacy_loss_mechanism.py'],[('privacy_loss / inverse_privacy_loss',DP+'pld/privacy_loss_mechanism.py:AdditiveNoisePrivacyLoss and subclasses')])
p('C25','Mechanism delta is the hockey-stick divergence of its two outputs',
 'For every additive noise mechanism, direction, sampling probability and epsilon, the delta it reports equals the probability, under the first output distribution, of outputs whose loss exceeds epsilon, minus exp(epsilon) times their probability under the second; it is non-negative, never increases with epsilon, and list queries agree with single ones. Poisson sampling gives exactly the mixture distribution on the documented side.',
 ['inputs'],'All noise scales, sensitivities, sampling probabilities and epsilons (including infinities).',
 'Tests check a table of parameters.',
 [DP+'pld/privacy_loss_mechanism.py'],[('get_delta_for_epsilon, mu_upper_cdf, mu_lower_log_cdf',DP+'pld/privacy_loss_mechanism.py')])
p('C26','Loss-distribution tails account for all probability outside the grid',
 'For every additive noise mechanism and tail budget, the reported tail range leaves out at most the budgeted probability of the first output distribution on each side, the tail mass that is replaced is charged to losses at least as large as the true ones for pessimistic estimates (at most for optimistic), and the epsilon range used for discretization covers the mechanism\'s losses on the retained range.',
 ['inputs'],'All noise scales, sensitivities, sampling probabilities, tail budgets, both directions and both estimate types.',
 'Tests check a table of parameters.',
 [DP+'pld/privacy_loss_mechanism.py'],[('privacy_loss_tail / connect_dots_bounds',DP+'pld/privacy_loss_mechanism.py')])
p('C27','Gaussian-mixture mechanisms match their defining mixture',
 'For every mixture of sensitivities and probabilities, the mixture mechanism\'s densities, tail probabilities, privacy loss and inverse are those of the stated mixture in each direction, a mixture on zero and one sensitivity coincides with the subsampled Gaussian, and the inverse at any loss value is an output with that loss, to within the documented precision.',
 ['inputs'],'All sensitivities >= 0 and probability vectors within the size bound, all standard deviations, outputs and loss values.',
 'Tests check a table of mixtures.',
 [DP+'pld/privacy_loss_mechanism.py'],[('MixtureGaussianPrivacyLoss',DP+'pld/privacy_loss_mechanism.py')])
p('C28','Monotone inversion returns a sound, near-optimal value',
 'For every monotone function, target and search range, the inversion routine returns a value in range whose function value is at most the target, no value better by more than the tolerance also qualifies, integer searches return an optimal integer (except that an optimum at the end of the range the search moves away from may be missed by one step), and nothing is returned exactly when no value in range qualifies.',
 ['inputs'],'All non-increasing and non-decreasing functions, all targets, ranges, guesses and tolerances within the iteration bound.',
 'Tests invert a few fixed functions.',
 [DP+'pld/common.py'],[('inverse_monotone_function',DP+'pld/common.py')])
p('C29','Noise searches return noise that meets the privacy target',
 'Whenever a smallest-noise search for the Laplace, discrete Laplace, Gaussian or subsampled Gaussian mechanism returns a parameter, the accounted delta of the mechanism with that parameter over the given number of queries and sensitivity is at most the target at the target epsilon, and the fallback bounds used when the search range is exhausted also meet the target.',
 ['inputs'],'All privacy targets, query counts and sensitivities within bounds; the accounting function is an arbitrary function decreasing in noise.',
 'Tests check a few targets.',
 [DP+'pld/accountant.py',DP+'pld/privacy_loss_mechanism.py',DP+'pld/common.py'],[('get_smallest_*',DP+'pld/accountant.py'),('from_privacy_guarantee',DP+'pld/privacy_loss_mechanism.py')])
p('C30','Advanced composition returns the optimal composition bound',
 'For every per-query epsilon and delta, number of queries and total delta, the total epsilon returned is one for which the exact k-fold composition of the worst-case mechanism satisfies total delta, it is the smallest on the theorem\'s grid, and nothing is returned exactly when total delta is below the unavoidable failure mass; the inverse function returns a per-query epsilon that composes back within the target.',
 ['inputs'],'All per-query epsilon, delta and total delta, number of queries within the bound.',
 'Tests check a few tabulated values.',
 [DP+'pld/accountant.py'],[('advanced_composition',DP+'pld/accountant.py'),('get_smallest_epsilon_from_advanced_composition',DP+'pld/accountant.py')])
p('C31','Convolution helpers preserve probability and index alignment',
 'Converting a mass function between dictionary and list form and back preserves every mass and its index, convolving lists or dictionaries gives the exact convolution with the offsets added, and any requested tail truncation removes at most the stated mass and only from the ends; self-convolution by count agrees with repeated convolution.',
 ['inputs'],'All mass vectors, offsets and truncation masses within size bounds.',
 'Tests use small fixed vectors.',
 [DP+'pld/common.py'],[('dictionary_to_list / list_to_dictionary / convolve / self_convolve',DP+'pld/common.py')])
p('C32','Private clustering never spends more than its privacy budget',
 'For every privacy target, radius, tree depth and noise multipliers, the Gaussian and discrete-Laplace noise parameters the clustering budget calculator hands out are exactly those of the event the accountant approved within the target (one noisy sum and one noisy count per tree level), infinite targets alone disable noise, and a parameter set that exceeds the target is rejected by validation.',
 ['inputs','configurations'],'All targets, radii, depths within bounds and multipliers; the accountant is an arbitrary function.',
 'Tests check a few configurations end to end.',
 [CL+'privacy_calculator.py',CL+'clustering_params.py',CL+'clustering_algorithm.py'],[('PrivacyCalculator',CL+'privacy_calculator.py'),('PrivacyCalculatorMultiplier',CL+'clustering_params.py')])
p('C33','Clipping bounds every point by the radius and keeps inner points',
 'For every dataset and radius, clipping returns points whose norm is at most the radius, leaves points already inside unchanged, moves the others along the ray to the origin to norm exactly the radius, and never modifies the original data; the clustering algorithm only ever sums clipped points.',
 ['inputs'],'All datasets within size bounds, all radii > 0.',
 'Tests clip a few fixed points.',
 [CL+'clustering_params.py',CL+'clustering_algorithm.py'],[('Data.clip_by_radius',CL+'clustering_params.py'),('private_lsh_clustering / get_private_coreset',CL+'clustering_algorithm.py')])
p('C34','The hash tree partitions the data, one node per level for each point',
 'For every dataset, set of projection vectors, noise outcome and thresholds, each tree level holds nodes with distinct prefixes of that length, a point belongs to at most one node per level, each node\'s points are exactly its parent\'s points with that next hash bit, only nodes with enough noisy count appear or branch, depth never exceeds the maximum, and the leaves are exactly the nodes without children.',
 ['inputs','histories'],'All datasets, projections, noisy counts and thresholds within bounds.',
 'Tests build a few fixed trees.',
 [CL+'lsh.py',CL+'lsh_tree.py'],[('group_by_next_hash',CL+'lsh.py'),('LshTree / LshTreeNode',CL+'lsh_tree.py')])
p('C35','Private sums and counts are noised exactly as accounted',
 'Every released average is the exact sum of the given points plus Gaussian noise of the stated deviation, independent per coordinate, divided by the private count; every released count is the true count plus discrete Laplace noise of the stated parameter; each is drawn once and reused, counts below one are refused for averaging, and noise is omitted only when its parameter says so.',
 ['inputs','histories'],'All point sets, noise outcomes and parameters within size bounds, all call sequences on a node.',
 'Tests check means of random draws with loose tolerances.',
 [CL+'central_privacy_utils.py',CL+'lsh_tree.py',CL+'default_clustering_params.py'],[('get_private_average / get_private_count',CL+'central_privacy_utils.py')])
p('C36','Clustering results label by nearest center and report consistent metrics',
 'For every dataset and set of centers, each point\'s label is a nearest center and the reported loss is the sum of squared distances to it, inconsistent label/loss/shape combinations are refused, and the reported pair-matching metrics equal their definitions computed from the label histogram.',
 ['inputs'],'All datasets, centers and label assignments within size bounds.',
 'The clustering algorithm module is not importable in the tested environment; its tests use fixed data.',
 [CL+'clustering_algorithm.py'],[('ClusteringResult / ClusteringMetrics',CL+'clustering_algorithm.py')])
p('C37','Sparse-vector mechanisms stop answering once their budget is used',
 'For every query stream, noise outcome and answer limit, each sparse-vector mechanism reports above-threshold exactly for queries whose noisy value reaches the noisy threshold, stops answering after the allowed number of above-threshold answers, uses one threshold noise per sample, and scales its noise as its documented variant prescribes.',
 ['inputs'],'All query values, noise outcomes, epsilons and limits within size bounds, all six variants.',
 'The auditing package is not importable in the tested environment, so no test runs.',
 [AU+'mechanisms/sparse_vector_technique.py'],[('AbstractSVTMechanism.__call__ and variants',AU+'mechanisms/sparse_vector_technique.py')])
p('C38','Audited mean and noisy-max mechanisms noise what they document',
 'For every dataset, configuration and noise outcome, the mean mechanism clips its data, splits its budget when counts are noised, and returns sum over count plus noise of the documented scale, and the noisy-max mechanism returns the index of the largest count plus Gumbel noise of the documented scale.',
 ['inputs','configurations'],'All datasets within size bounds, noise outcomes, epsilon, delta and flag combinations.',
 'The auditing package is not importable in the tested environment, so no test runs.',
 [AU+'mechanisms/mean.py',AU+'mechanisms/noisy_max.py',AU+'mechanisms/mechanisms_utils.py'],[('MeanMechanism',AU+'mechanisms/mean.py'),('NoisyMaxMechanism',AU+'mechanisms/noisy_max.py')])
p('C39','Privacy testers report a lower bound minus their full error allowance',
 'For every pair of sample sets, tester configuration and failure probability, the estimate the histogram and divergence testers report is the empirical divergence of held-out samples minus the complete published error allowance, so that it never exceeds the empirical divergence; test and training samples are disjoint and cover the data, invalid privacy parameters are refused, and the property is rejected only when the bound reaches the claimed one.',
 ['inputs','configurations'],'All sample sets within size bounds, epsilons, deltas, bounds and failure probabilities.',
 'The auditing package is not importable in the tested environment, so no test runs.',
 [AU+'testers/histogram_tester.py',AU+'testers/property_tester_utils.py',AU+'testers/hockey_stick_tester.py'],[('estimate_lower_bound',AU+'testers/histogram_tester.py'),('split_train_test_samples',AU+'testers/property_tester_utils.py')])
p('C40','Released noise in the C++, Go and Java libraries is exactly calibrated',
 'Every noised release of the C++, Go and Java libraries adds noise drawn from the advertised discrete distribution at a granularity that hides floating-point artefacts, for every sensitivity, epsilon and delta and every output of the random source.',
 ['inputs'],'All parameters and random-source outputs.',
 'Tests are statistical and use sampled parameters; none of these libraries is built or tested in this environment.',
 ['cc/algorithms/distributions.cc','go/noise/laplace_noise.go','java/main/com/google/privacy/differentialprivacy/LaplaceNoise.java'],[('secure noise',"go/noise/secure_noise_math.go")])
p('C41','The loss-distribution accountant charges each event its own mechanism',
 'For every event the loss-distribution accountant supports, composing it adds exactly the loss distribution of that mechanism with the event\'s own noise, sampling probability and buckets, under the accountant\'s relation and discretization, as many times as its count. Zero noise makes epsilon infinite and delta one; unlimited noise, a sampling probability of zero, a response independent of the input and a mixture without sensitivity cost nothing.',
 ['inputs','configurations'],'All supported event kinds, parameters including the degenerate ones, counts, relations.',
 'Tests compare a few events with a directly constructed distribution at single parameter values.',
 [DP+'pld/pld_privacy_accountant.py',DP+'pld/privacy_loss_distribution.py'],[('_maybe_compose',DP+'pld/pld_privacy_accountant.py')])
p('C42','An audit tests both directions of every pair and stops at a violation',
 'For every mechanism, dataset generator and property tester, a privacy audit runs the mechanism with the configured number of samples on both datasets of each trial, applies the same post-processing to both sample sets, estimates the divergence in both directions at the configured failure probability and records the larger one, feeds it to the next trial, reports a violation exactly when the tester rejects it, at the first such trial, and otherwise stops at the trial limit. A tested property names exactly one guarantee.',
 ['histories','inputs'],'All sequences of divergence estimates and tester verdicts, trial limits within bounds, all post-processings, all sample values.',
 'The auditing package is not importable in the tested environment, so no test runs.',
 [AU+'privacy_test_runner.py',AU+'configs/privacy_property.py',AU+'configs/privacy_test_runner_config.py'],[('PrivacyTestRunner.test_privacy',AU+'privacy_test_runner.py'),('PrivacyProperty',AU+'configs/privacy_property.py')])
p('C43','The kernel tester bounds delta by the discrepancy less its allowance',
 'For every pair of sample sets, kernel, bandwidth, epsilon and failure probability, the maximum-mean-discrepancy tester averages the pairwise kernel statistic over disjoint sample quadruples, subtracts its worst-case (Hoeffding) and data-dependent (empirical Bernstein) error allowances, solves the published inequality between discrepancy, epsilon and delta, and reports the larger of the two lower bounds on delta; it rejects only above the claimed delta.',
 ['inputs','configurations'],'All sample sets within size bounds, both kernels, all bandwidths, epsilons, deltas and failure probabilities.',
 'The auditing package is not importable in the tested environment, so no test runs.',
 [AU+'testers/mmd_tester.py',AU+'testers/property_tester_utils.py'],[('MMDPropertyTester.estimate_lower_bound',AU+'testers/mmd_tester.py')])
p('C44','Dataset generators hand out neighbouring datasets and report every result',
 'For every history of estimates, each generator returns two datasets that differ by exactly the data of one privacy unit and are built from the values the optimizer suggested for the parameter of that name; every estimate received, zero included, is reported to the optimizer as the result of the trial it belongs to, and a new trial is then requested; the search space holds one parameter per value with the configured range.',
 ['histories','inputs'],'All suggested values, all sequences of estimates within bounds, all generator kinds and sizes within bounds.',
 'The auditing package is not importable in the tested environment, so no test runs.',
 [AU+'generators/vizier_dataset_generator.py',AU+'generators/classification_dataset_generator.py',AU+'generators/pipeline_dp_vizier_dataset_generator.py',AU+'generators/constant_dataset_generator.py'],[('VizierDatasetGenerator.__call__',AU+'generators/vizier_dataset_generator.py'),('get_neighboring_datasets_from_vizier_params',AU+'generators/classification_dataset_generator.py')])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
