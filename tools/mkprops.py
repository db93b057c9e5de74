import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    a={"files":["src/"+f for f in files],"mechanism":[{"name":n,"where":"src/"+w} for n,w in mech]}
    if observe:a["observe_at"]=observe
    if state:a["state"]=state
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

HALO="simulator/halo_simulator.py";PT="simulator/privacy_tracker.py";PUB="simulator/publisher.py"
M3="simulator/m3_strategy.py";SPS="simulator/single_publisher_strategy.py"
PD="data_generators/publisher_data.py";DS="data_generators/data_set.py";DD="data_generators/data_design.py"
RP="models/reach_point.py";TRIAL="driver/experimental_trial.py";DESIGN="driver/experimental_design.py"
p("C01","Every noisy measurement is charged to the privacy ledger with its own budget",
 "Whenever a simulated reach request or a simulated Venn-diagram request applies differential-privacy noise to user-derived counts, by the time the request returns a result the privacy tracker has received one noising event for each mechanism invocation, carrying exactly the epsilon that calibrated that noise and the delta share allotted to it. No request returns noised numbers on any path without having recorded those events, and the tracker keeps every event it is given.",
 ["inputs","configurations","histories"],"all spend vectors, budgets, budget splits, maximum frequencies and histories of requests",
 "The simulator tests need an estimation library that is absent here, sample one or two budgets, and never relate the epsilon given to a noiser to the epsilon recorded on every path.",
 [HALO,PT],[("noise generation and event recording of the three noising steps",HALO+":simulated_reach_by_spend,_add_dp_noise_to_primitive_regions,_scale_up_reach_in_primitive_regions"),("append-only event list",PT+":PrivacyTracker.append")],["PrivacyTracker.privacy_consumption","PrivacyTracker.mechanisms"])
p("C02","No request or modelling strategy spends more than the privacy budget it is given",
 "For every budget and every split, the total epsilon and the total delta used by the noise of one simulated reach or Venn-diagram request equal the budget passed to that request. For every number of publishers, the budgets of all requests a modelling strategy issues while fitting add up to no more than the budget passed to the fit.",
 ["inputs","configurations"],"all budgets, all privacy budget splits, all publisher counts, both modelling strategies",
 "Tests use one budget and at most a few publishers; the bound must hold algebraically for every publisher count and split.",
 [HALO,M3,SPS],[("budget split between noisers",HALO+":simulated_reach_by_spend,simulated_venn_diagram_reach_by_spend"),("per-request share of the fit budget",M3+":M3Strategy.fit")],["PrivacyTracker.privacy_consumption"])
p("C03","User-level data reaches planners only through the noise mechanisms",
 "Every reach value returned by a simulated reach or Venn-diagram request depends on user-level data only through the output of a noise mechanism (reported impressions and clamping by them excepted). While fitting, a modelling strategy reads reach only from simulated (noised) requests; true reach is used only when ground-truth curves were explicitly asked for.",
 ["inputs","configurations"],"all data sets, spends, budgets and strategy configurations",
 "A leak of exact values is invisible to tests that compare noised values within tolerances or with noise mocked out.",
 [HALO,M3,SPS],[("noisers between true counts and returned points",HALO+":simulated_venn_diagram_reach_by_spend"),("strategy queries",M3+":M3Strategy.fit"),("strategy queries",SPS+":SinglePublisherStrategy.fit")])
p("C04","Sketches are mergeable, complete and never see spend beyond the campaign",
 "Every sketch a publisher builds has the length, decay rate and hash seed of the shared system parameters, regardless of publisher, and contains each user reached at the requested spend with that user's full frequency. The spend is capped at the publisher's campaign spend, which is its configured fraction of its own maximum spend. A multi-publisher request merges exactly one sketch per publisher, each built at that publisher's own component of the spend vector.",
 ["inputs","configurations"],"all publishers, spends (including above the campaign spend), system parameters and publisher counts",
 "The sketch library is not installed, so these tests do not run; they also use single parameters and at most two publishers.",
 [PUB,HALO],[("sketch construction and spend cap",PUB+":Publisher.liquid_legions_sketch"),("merge loop",HALO+":simulated_reach_by_spend")])
p("C05","A publisher's impression log answers spend and impression queries coherently",
 "For every impression log in any order: the impressions bought by a spend are exactly those priced at or below it; a number N of impressions buys the N cheapest (all of them if N exceeds the log); the spend for N impressions is the price of the N-th cheapest, capped at the end of the log, and zero for N = 0. Impression counts, user frequency counts, maximum spend, maximum reach and maximum impressions reported by one publisher are mutually consistent with that rule.",
 ["inputs"],"all impression logs (any order, ties, repeated users), all spends and impression numbers",
 "The tests use small logs, almost always already sorted and without ties.",
 [PD],[("sort by spend on construction",PD+":PublisherData.__init__"),("bisection and counters",PD+":PublisherData.impressions_by_spend,user_counts_by_spend,user_counts_by_impressions,spend_by_impressions")])
p("C06","Cross-publisher reach counts each user once, with total frequency",
 "For every data set, the reach reported for a vector of spends or of impressions counts each distinct user once across publishers, with a frequency equal to the sum of that user's impressions over all publishers, each publisher taken at its own component of the vector. The returned point echoes the query and the matching spends or impressions of each publisher in publisher order, and a vector whose length is not the number of publishers is rejected with ValueError.",
 ["inputs"],"all data sets, all query vectors, all maximum frequencies",
 "Tests sample two or three publishers with a handful of impressions.",
 [DS,"models/ground_truth_reach_curve_model.py"],[("per-user accumulation over publishers",DS+":DataSet.reach_by_impressions,reach_by_spend"),("vector length guard",DS+":DataSet.reach_by_impressions,reach_by_spend"),("one publisher restricted view","models/ground_truth_reach_curve_model.py:GroundTruthReachCurveModel")])
p("C07","k+ reach vectors are exact capped tail counts and frequencies their differences",
 "Whenever per-user counts are turned into k+ reaches, entry k is the number of users with at least k impressions, for k from 1 up to the requested maximum frequency, users above the maximum counting in every entry; the vector has exactly that many entries. A reach point returns the k-th entry for k within range and raises ValueError otherwise, its exact-frequency counts are the successive differences, and its histogram including non-reached users sums to the universe size.",
 ["inputs"],"all user counts, all maximum frequencies >= 1, all k",
 "Tests check a few small histograms.",
 [RP,DS,PUB],[("histogram and suffix sums",RP+":ReachPoint.user_counts_to_kplus_reaches,frequencies_to_kplus_reaches"),("histogram and suffix sums",DS+":DataSet._counts_to_histogram"),("accessors",RP+":ReachPoint.reach,frequency,zero_included_histogram")])
p("C08","Inputs are never modified, and later changes to inputs never leak in",
 "No public operation of the data, model, simulator or driver layers modifies an object the caller passed to it, apart from the explicit collaborators it is documented to update (a privacy tracker, a random generator, an open output file, a filesystem, a data design or a model being fitted). Impression logs, publisher lists, training points and reach curves handed to a constructor are copied, so that modifying them afterwards changes no answer.",
 ["inputs","histories"],"all public constructors and methods, all arguments, all later caller-side modifications",
 "Aliasing only shows when a caller reuses an argument afterwards, which no test does for most classes.",
 [PD,DS,RP,"models/reach_surface.py","models/pairwise_union_reach_surface.py","models/generalized_mixture_reach_surface.py","models/kinflated_gamma_poisson_model.py","models/dirac_mixture_single_publisher_model.py","simulator/system_parameters.py","driver/experiment_parameters.py"],
 [("deep copies in constructors",PD+":PublisherData.__init__"),("deep copies in constructors","models/reach_surface.py:ReachSurface.__init__"),("descriptor copies","driver/experiment_parameters.py:ExperimentParameters.update_from_dataset")])
p("C09","Queries are pure: answers do not depend on what was asked before",
 "Asking a data set, publisher log, reach point, privacy tracker or fitted reach model any sequence of queries leaves its later answers unchanged: a query never alters the object's data, parameters or accounting, except for a one-time lazy fit whose outcome does not depend on the query. Results handed out are independent of internal state where they are freshly computed.",
 ["histories","inputs"],"all sequences of queries on all data and model objects",
 "Tests ask each object one or two queries in a fixed order.",
 [PD,DS,RP,PT,"models/goerg_model.py","models/gamma_poisson_model.py","models/kinflated_gamma_poisson_model.py","models/dirac_mixture_single_publisher_model.py","models/pairwise_union_reach_surface.py","models/generalized_mixture_reach_surface.py","models/ground_truth_reach_curve_model.py"],
 [("query methods write no state","models/kinflated_gamma_poisson_model.py:KInflatedGammaPoissonModel.by_impressions"),("lazy fit","models/dirac_mixture_single_publisher_model.py:DiracMixtureSinglePublisherModel._fit")])
p("C10","Single-publisher curves validate queries and convert spend at the training price",
 "Every single-publisher reach curve rejects with ValueError an impression or spend vector that does not have exactly one component, and rejects spend queries when it was trained without spend. Otherwise a spend is converted to impressions at the training cost per impression, the returned point echoes the queried impressions, and its reported spend is those impressions times the same cost, so querying by spend and by the equivalent impressions give the same point.",
 ["inputs"],"all training points, all spends, impression numbers and frequencies, all parametric single-publisher models",
 "Each model's tests check one or two numeric examples; the sibling implementations are never compared.",
 ["models/goerg_model.py","models/gamma_poisson_model.py","models/kinflated_gamma_poisson_model.py","models/dirac_mixture_single_publisher_model.py"],
 [("cost per impression","models/gamma_poisson_model.py:GammaPoissonModel.__init__"),("guards and conversion","models/gamma_poisson_model.py:GammaPoissonModel.by_spend,by_impressions,impressions_for_spend"),("siblings","models/goerg_model.py:GoergModel"),("siblings","models/kinflated_gamma_poisson_model.py:KInflatedGammaPoissonModel"),("siblings","models/dirac_mixture_single_publisher_model.py:DiracMixtureSinglePublisherModel")])
p("C11","Every operation resolves: no unbound name, missing attribute or bad call",
 "No public operation can fail because a name it uses is not bound, because an attribute it reads is never set by the class or its construction, or because it calls another operation of the framework with arguments that operation does not accept. Every concrete class provides each operation its abstract interface requires with a compatible signature.",
 ["inputs","configurations"],"all functions and methods of the framework on all paths",
 "Python resolves names when a line runs; 14 test modules cannot run here and rare paths (defaults, error handling, cloud storage) are not executed by the others.",
 [DS,"driver/experiment_driver.py","filesystem_wrappers/filesystem_wrapper_base.py","models/reach_surface.py"],[("imports and definitions","data_generators/data_set.py:module"),("abstract interface","filesystem_wrappers/filesystem_wrapper_base.py:FilesystemWrapperBase")])
p("C12","Distinct trial configurations have distinct names and are never merged",
 "The textual name of a trial spells out, without rounding or truncation, every setting that determines its outcome: modelling strategy, single- and multi-publisher models and all their options, campaign spend fractions, sketch decay rate and size, privacy epsilon and delta, replica, maximum frequency, test point strategy and all its options. Trials of one design are treated as duplicates, and share a stored result, only when both the data set and this complete name agree; generated data-set names likewise spell out every generation parameter when no explicit name is given.",
 ["configurations"],"all pairs of trial descriptors and of data-set parameter records",
 "Tests compare a few fixed strings; a lost or rounded field only matters for pairs of configurations no test uses.",
 ["driver/trial_descriptor.py","driver/modeling_strategy_descriptor.py","driver/experiment_parameters.py","simulator/system_parameters.py","data_generators/data_set_parameters.py",DESIGN,TRIAL],
 [("string forms of descriptors","driver/trial_descriptor.py:TrialDescriptor.__str__"),("string forms of descriptors","driver/experiment_parameters.py:ExperimentParameters.__str__"),("result path",TRIAL+":ExperimentalTrial._compute_trial_results_path"),("duplicate removal",DESIGN+":ExperimentalDesign._remove_duplicates")])
p("C13","Successful and failed trials produce rows with the same columns",
 "A trial whose modelling fails yields exactly one row with the same set of columns as a successful trial of the same configuration, including the single-publisher analysis columns when that analysis is on. Success is flagged in the row, and on failure every metric is NaN and the row carries the error text.",
 ["inputs","configurations","fault_sequences"],"all trials, analysis types, maximum frequencies and modelling failures",
 "The trial tests do not run here and compare a single configuration.",
 ["driver/test_point_aggregator.py",TRIAL],[("paired row builders","driver/test_point_aggregator.py:aggregate,aggregate_on_exception"),("paired row builders",TRIAL+":_compute_single_publisher_fractions_dataframe,_single_publisher_fractions_dataframe_on_exception")])
p("C14","A modelling failure is contained in its own trial and reported there",
 "Any exception raised while fitting a model, generating test points, querying the fitted or true reach, or computing metrics is caught inside the trial: the trial still returns and stores a complete result row recording the failure, the privacy actually spent and the trial's identity, and the remaining trials run. Failures outside modelling, such as loading the data set or writing the result, are not disguised as modelling failures.",
 ["fault_sequences","inputs"],"all exceptions at any modelling step of any trial",
 "Tests inject one failure at most; containment must hold for a failure at every step.",
 [TRIAL],[("try/except around modelling",TRIAL+":ExperimentalTrial.evaluate")])
p("C15","A stored trial result is reused, complete, and never lost or half-reported",
 "When a readable result of a trial is already stored it is returned without re-evaluating; an unreadable one is discarded and recomputed. When a trial is computed, its result is stored under exactly the location later looked up, contains exactly the row that is returned, and is stored before the trial's pending marker is removed and before the trial returns; the marker exists from before the evaluation starts until then.",
 ["crash_points","histories"],"all interruption points within an evaluation and all later re-runs over the same directories",
 "Tests never interrupt an evaluation; the trial tests do not run here.",
 [TRIAL],[("lookup, marker, store, unmark",TRIAL+":ExperimentalTrial.evaluate"),("result path",TRIAL+":ExperimentalTrial._compute_trial_results_path")])
p("C16","The seed determines every random choice",
 "Every random draw made while generating data sets or evaluating a trial comes from a generator seeded, directly or through a generator passed in, from the experiment's seed or a fixed constant, never from operating-system entropy or time. In particular a trial's result depends only on its configuration, its data set and the seed, not on which trials ran before it in the same process, and the test points of a data set do not depend on the modelling strategy being tested.",
 ["histories","schedules","configurations"],"all seeds, all orders and partitions of trials over processes, all resumptions",
 "Tests run one trial at a time with one seed and cannot observe dependence on earlier trials.",
 [TRIAL,"data_generators/homogeneous_impression_generator.py","data_generators/heterogeneous_impression_generator.py","data_generators/heavy_tailed_impression_generator.py","data_generators/synthetic_data_design_generator.py","driver/latin_hypercube_random_test_point_generator.py","driver/uniformly_random_test_point_generator.py",HALO,"models/restricted_pairwise_union_reach_surface.py","models/generalized_mixture_reach_surface.py"],
 [("per-trial seeding",TRIAL+":ExperimentalTrial.evaluate"),("generator passing","data_generators/synthetic_data_design_generator.py:SyntheticDataDesignGenerator"),("seeded noise",HALO+":simulated_reach_by_spend")])
p("C17","Serial, parallel and distributed execution evaluate the same trials the same way",
 "Whichever execution mode and number of workers is chosen, every trial of the design on every data set is evaluated, each with the experiment's seed and filesystem, and the combined table contains one row per trial, none dropped or added. A trial runs the descriptor of the design unchanged, except for what its data set fills in (generated spend fractions, number of publishers). The driver passes its seed, directories, analysis type, filesystem and design through unchanged and writes the very table it returns.",
 ["schedules","configurations"],"all worker counts, execution modes, data designs and experimental designs",
 "The design tests do not run here, and parallel and distributed paths are sampled with one or two trials.",
 [DESIGN,"driver/experiment.py","driver/experiment_driver.py"],[("three execution paths",DESIGN+":ExperimentalDesign.load"),("trial generation","driver/experiment.py:Experiment.generate_trials"),("driver wiring","driver/experiment_driver.py:ExperimentDriver.execute")])
p("C18","Test points lie inside each publisher's spend range, in the promised number",
 "Every test point has one spend per publisher, each between zero and that publisher's maximum spend and obtained by scaling that publisher's own maximum. The grid strategy yields every combination of evenly spaced interior points; the random strategies yield the requested number of points, raised to the minimum per publisher and limited to the documented bounds.",
 ["inputs","configurations"],"all data sets, publisher counts, grid sizes, point counts and random draws",
 "Tests mock the random source and use one or two publishers.",
 ["driver/test_point_generator.py","driver/grid_test_point_generator.py","driver/uniformly_random_test_point_generator.py","driver/latin_hypercube_random_test_point_generator.py"],
 [("scaling of unit samples","driver/uniformly_random_test_point_generator.py:test_points"),("scaling of unit samples","driver/latin_hypercube_random_test_point_generator.py:test_points"),("grid","driver/grid_test_point_generator.py:test_points")])
p("C19","All experiment input and output goes through the chosen filesystem",
 "Reading and writing data sets, trial results, pending markers, intermediate and final tables happens only through the filesystem object the caller selected, which is handed down unchanged to every layer, so that a run configured for cloud storage touches nothing local and vice versa. The local and the cloud filesystem offer the same operations with the same parameters, each acting on exactly the path given and returning plain strings for paths.",
 ["configurations","inputs"],"all code paths that touch storage, both filesystems",
 "Only the local filesystem is exercised by tests, so a bypass goes unnoticed.",
 ["filesystem_wrappers/filesystem_wrapper_base.py","filesystem_wrappers/filesystem_pathlib_wrapper.py","filesystem_wrappers/filesystem_cloudpath_wrapper.py",DS,DD,TRIAL,DESIGN,"driver/experiment_driver.py"],
 [("wrapper objects","filesystem_wrappers/filesystem_pathlib_wrapper.py:FilesystemPathlibWrapper"),("wrapper objects","filesystem_wrappers/filesystem_cloudpath_wrapper.py:FilesystemCloudpathWrapper"),("handing down",DESIGN+":ExperimentalDesign")])
p("C20","A data design never overwrites a data set and lists exactly what it stores",
 "Adding a data set whose name is already present in the design's directory raises ValueError and leaves the stored data and the listing untouched; otherwise the data set is written under its own name in that directory before it is listed. The count and the sorted list of names reflect exactly the stored data sets, including those found when the directory is opened, and a data set is read back from the location it was written to.",
 ["histories","inputs"],"all sequences of opening, adding and reading, all names",
 "Tests add two or three data sets; the order of check, write and listing is not observable in them.",
 [DD],[("existence check before write",DD+":DataDesign.add"),("directory scan",DD+":DataDesign.__init__"),("lookup",DD+":DataDesign.by_name")])
p("C21","Writing a data set and reading it back loses nothing",
 "Writing a data set stores one file per publisher, named after the publisher, with one line per impression giving the user and the spend in full precision; reading returns every publisher, under the name it was written with and in a reproducible order, with every impression, and a malformed line or file raises an error naming it rather than being skipped. Writing what was read to another directory writes only there.",
 ["inputs","histories"],"all data sets, all file contents, repeated write and read cycles",
 "Tests round-trip one or two tiny logs, never rewrite what they read, and use few malformed inputs.",
 [PD,DS],[("line format",PD+":PublisherData.write_publisher_data,read_publisher_data"),("file per publisher",DS+":DataSet.write_data_set,read_data_set")])
p("C22","Venn regions partition the reached users and unions add the right regions",
 "For every spend vector, each user reached by some active publisher (one with nonzero spend) is counted in exactly one primitive region, the one for precisely the publishers that reached the user, and every nonempty combination of active publishers has a region. The reach reported for a subset of publishers is the sum over the regions meeting that subset, the point reported for it carries the spends and impressions of that subset's publishers and zero for the others, and more active publishers than the limit raises ValueError. Sampling, noising and scaling keep every number with its region: a region's sample is the draw for that region's own users, its noisy number is its own number plus noise and never negative, and scaling multiplies all regions by one factor.",
 ["inputs"],"all data sets, spend vectors and publisher subsets",
 "The simulator tests do not run here and use two or three publishers.",
 [HALO],[("bit-mask regions",HALO+":_form_venn_diagram_regions"),("union by mask",HALO+":_aggregate_reach_in_primitive_venn_diagram_regions"),("points per subset",HALO+":_generate_reach_points_from_venn_diagram")])
p("C23","Metrics compare fitted with true reach on the same points, relative to the truth",
 "A trial evaluates the true and the fitted reach on the same test points, at the same spends and the experiment's maximum frequency, and each metric compares the two point by point. Relative errors are divided by the true reach, each k+ metric uses the k in its name and is NaN when either side lacks that frequency, and errors are true minus fitted.",
 ["inputs","configurations"],"all lists of true and fitted points, all frequencies",
 "Tests check each metric on one or two hand-made points, where swapped roles or a wrong k can cancel.",
 ["driver/test_point_aggregator.py",TRIAL],[("metric table","driver/test_point_aggregator.py:AGGREGATORS"),("same points for both sides",TRIAL+":ExperimentalTrial.evaluate")])
p("C24","Every name and option in the shipped designs is one the framework accepts",
 "Each strategy, model, test-point and generator name used by the experimental and data designs shipped with the framework is registered, and every option they pass is a parameter the registered implementation accepts. Every registered model and strategy can be constructed the way the framework constructs it and offers the operations the framework calls on it.",
 ["configurations"],"all shipped designs and all registered implementations",
 "The designs are never executed by tests; a typo fails only inside a long experiment, where it is recorded as a modelling failure.",
 ["driver/modeling_strategy_descriptor.py","driver/experiment_parameters.py","driver/m3_first_round_experimental_design.py","driver/sample_experimental_design.py","driver/single_publisher_design.py","driver/analysis_example_experimental_design.py","data_generators/m3_data_design.py","data_generators/single_publisher_design.py","data_generators/analysis_example_data_design.py","data_generators/lhs_data_design_example.py","data_generators/simple_data_design_example.py"],
 [("registries","driver/modeling_strategy_descriptor.py:SINGLE_PUB_MODELS,MULTI_PUB_MODELS,MODELING_STRATEGIES"),("registry","driver/experiment_parameters.py:TEST_POINT_STRATEGIES")])
p("C25","Reported privacy consumption is the worst case over all sampling buckets",
 "For every set of noising events, in any order, the consumption reported for one sampling bucket is the sum of the epsilons and the sum of the deltas of exactly the events whose bucket range covers it, ranges being half-open and wrapping around at 1. The overall consumption is the maximum of these over the whole bucket space, epsilon and delta separately, and never decreases when an event is added.",
 ["inputs","histories"],"all sequences of noising events with arbitrary bucket ranges, all sampling buckets",
 "Tests use a few events with hand-picked ranges.",
 [PT],[("sum over covering events",PT+":PrivacyTracker.privacy_consumption_for_sampling_bucket"),("maximum over starting points",PT+":PrivacyTracker.privacy_consumption"),("coverage test",PT+":SamplingBucketIndices.contains")])
p("C26","Synthetic data has the users, prices and overlaps it was asked for",
 "Impression generators give every one of the requested users at least one impression and no other user any; fixed pricing assigns the i-th impression the cumulative cost of i impressions, in order. Imposing an overlap pattern renames users one-to-one within each publisher and keeps every impression's spend, publisher name and order; the design generator builds the requested number of publishers with distinct names from the requested generators.",
 ["inputs","configurations"],"all user counts, distributions, prices, logs and overlap patterns, all random draws",
 "Tests mock the random source; the overlap and design-generator tests do not run here.",
 ["data_generators/homogeneous_impression_generator.py","data_generators/heterogeneous_impression_generator.py","data_generators/fixed_price_generator.py","data_generators/overlap_data_set.py","data_generators/independent_overlap_data_set.py","data_generators/sequentially_correlated_overlap_data_set.py","data_generators/synthetic_data_design_generator.py","data_generators/heavy_tailed_impression_generator.py"],
 [("at least one impression per user","data_generators/homogeneous_impression_generator.py:__call__"),("cumulative price","data_generators/fixed_price_generator.py:__call__"),("relabelling","data_generators/overlap_data_set.py:OverlapDataSet._label_ids"),("assembly","data_generators/synthetic_data_design_generator.py:_generate_data_set")])
p("C27","Multi-publisher surfaces use each publisher's own curve and fit what they show",
 "A reach surface evaluates publisher i's component of an impression or spend vector on publisher i's curve and no other, and returns a point echoing the queried impressions. The pairwise surface predicts the sum of the single-publisher reaches minus the pairwise overlap terms, and the quantities it minimises during fitting are the same overlap terms and sums evaluated at the training points, with a symmetric zero-diagonal overlap matrix. In the restricted surface no coordinate step leaves the feasible region in which every publisher's weight is nonnegative and its product with the sum of the others is at most one.",
 ["inputs"],"all curve lists, training points and query vectors",
 "Tests check fitted values to tolerances on a few symmetric examples where swapped indices go unnoticed.",
 ["models/reach_surface.py","models/pairwise_union_reach_surface.py","models/restricted_pairwise_union_reach_surface.py","models/generalized_mixture_reach_surface.py"],
 [("index alignment","models/reach_surface.py:ReachSurface.by_spend,get_reach_vector"),("prediction","models/pairwise_union_reach_surface.py:PairwiseUnionReachSurface.by_impressions"),("fitted quantities","models/pairwise_union_reach_surface.py:_get_z_and_alpha"),("constraints","models/pairwise_union_reach_surface.py:_get_equality_constraints")])
p("C28","A modelling strategy trains on the measurements it says it takes",
 "Fitting with the multi-publisher strategy measures, at the campaign spends, each publisher alone, all publishers together and, with more than two publishers, all but each one; publisher i's curve is trained on publisher i's own measurement, including its impressions, spend and all measured frequencies, and the surface on the remaining measurements with the curves in publisher order. With one publisher the result is that publisher's curve; the single-publisher strategy refuses any other number of publishers.",
 ["inputs","configurations"],"all publisher counts, spends and registered model combinations",
 "The strategy tests do not run here and check two or three publishers with mocked models.",
 [M3,SPS],[("measurement vectors and training points",M3+":M3Strategy.fit"),("guard",SPS+":SinglePublisherStrategy.fit")])
p("C29","A curve shows the tail sums of the distribution it was fitted with",
 "For each single-publisher model, the k+ reaches reported for a query are the tail sums of the model's own frequency distribution at the queried impressions, scaled by its audience (the fitted maximum reach, or the universe of the training point), one entry per requested frequency; Gamma-Poisson queries beyond the fitted maximum are answered as at the maximum. The objective minimised while fitting compares the training histogram (k+ bucket included) with that same distribution at the training impressions, the stored parameters are those of the best optimisation, each in the role it had in the objective, and the Goerg curve passes exactly through its training point.",
 ["inputs"],"all training points, fitted parameters, queried impressions and frequencies",
 "The tests compare a few fitted values with tolerances; a swapped parameter or shifted bucket can stay inside them.",
 ["models/goerg_model.py","models/gamma_poisson_model.py","models/kinflated_gamma_poisson_model.py","models/dirac_mixture_single_publisher_model.py"],
 [("Goerg formula","models/goerg_model.py:GoergModel.by_impressions"),("Gamma-Poisson objective and query","models/gamma_poisson_model.py:GammaPoissonModel._fit_histogram_chi2_distance"),("k-inflated distribution","models/kinflated_gamma_poisson_model.py:KInflatedGammaPoissonDistribution.__init__"),("Poisson mixture","models/dirac_mixture_single_publisher_model.py:UnivariateMixedPoissonOptimizer.predict")])
# not decidable by this family
p("C40","Fitted reach curves and surfaces are monotone and bounded by the maximum reach",
 "For every training point, the fitted curve's reach is nondecreasing in impressions, its k+ reaches are nonincreasing in k, and neither exceeds its maximum reach or the number of impressions.",
 ["inputs"],"all training points and queries","Depends on numerically fitted parameters.",
 ["models/gamma_poisson_model.py","models/kinflated_gamma_poisson_model.py","models/dirac_mixture_single_publisher_model.py","models/generalized_mixture_reach_surface.py"],[("numerical fits","models/gamma_poisson_model.py:GammaPoissonModel._fit")])
p("C41","Noise has the distribution its epsilon requires",
 "The noise added by each mechanism makes the released value epsilon-differentially private for the epsilon it was given.",
 ["inputs"],"all neighbouring data sets","Statistical property of an external library.",
 [HALO],[("external noisers",HALO+":GeometricEstimateNoiser")])
p("C42","Model fits converge to the best parameters",
 "Each model's fit terminates and returns parameters that minimise its objective to the documented tolerance.",
 ["inputs"],"all training points","Convergence of numerical optimisation.",
 ["models/gamma_poisson_model.py","models/restricted_pairwise_union_reach_surface.py"],[("optimisers","models/gamma_poisson_model.py:_fit_histogram_chi2_distance")])
p("C43","Quantile queries return the largest impressions below the quantile",
 "The impressions or spend at a reach quantile is the largest integer whose modelled reach does not exceed that fraction of the maximum reach.",
 ["inputs"],"all curves and quantiles","Depends on the values of the fitted curve during the search.",
 ["models/reach_curve.py"],[("doubling and bisection","models/reach_curve.py:ReachCurve._by_quantile")])
p("C44","Sketch estimates are accurate to the configured error",
 "The reach estimated from merged sketches deviates from the true reach by no more than the error implied by the sketch parameters and the noise.",
 ["inputs"],"all data sets","Statistical accuracy of an external estimator.",
 [HALO],[("external estimator",HALO+":simulated_reach_by_spend")])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
