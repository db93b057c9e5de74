HOW = {
"C01": "Rule: abstract evaluation of both simulated requests; every application of a noiser (its epsilon term) on every path is matched with a NoisingEvent appended to the tracker with the same epsilon and delta terms under an implied path condition; the tracker's append is a law. Reaches every path and every number of publishers; tests only see one budget and the noisers mocked.",
"C02": "Rule: the epsilon and delta terms of the noise effects of a request are summed symbolically (including per-publisher loops) and compared with the budget; the budgets of the requests of a strategy are summed over loops with the number of publishers symbolic and compared with the budget given.",
"C03": "Rule: information-flow analysis; user-level sources are marked, noise applications are declassifiers, every returned reach term is searched for a path from a source that passes no noiser; in strategies true reach calls are allowed only under the explicit ground-truth condition.",
"C04": "Laws (sa/specs/c04.py): the LiquidLegions constructor arguments and the multiset of ids added by Publisher.liquid_legions_sketch, as functions of an arbitrary log and spend (spend capped at the campaign spend, each user added as often as it was reached, hash seed from the configuration and equal for all publishers), the campaign and maximum spends of every publisher, and the sequence of sketches merged by a request (each publisher's, at its own spend, once). Unbounded in log length and publisher count.",
"C05": "Laws (sa/specs/c05.py) over the public API of PublisherData with a symbolic log of any length and order: each query is compared with its definition over the price-sorted log (counts of entries priced at or below the spend, prefix of length min(N, len)); bisections, hand-written binary searches and counting loops reduce to the same counting term.",
"C06": "Laws for DataSet.reach_by_spend/reach_by_impressions and the ground-truth curve: the multiset of (user, frequency) as scatter sums over publishers.",
"C07": "Laws (sa/specs/c07.py) for ReachPoint and the conversions between user counts, exact frequencies and k+ reaches: suffix sums of capped counts, adjacent differences, index limits and their exceptions.",
"C08": "Rule (sa/rules/c08.py on sa/alias.py): interprocedural may-alias and write-effect analysis. For every class the constructor is run abstractly on symbolic arguments (one abstract object per access path, typed from annotations), then every public operation on the resulting object, with virtual dispatch and calls followed into the repository (bounded depth 14, iterated to a fixpoint); every module-level public function likewise. A write (assignment, augmented assignment, mutating method, in-place library call, out=) that may reach an object rooted in an argument, in an earlier constructor argument or in a mutable default is a violation unless its static type is one of the named collaborators or a model writing itself. Snapshot rule: no mutable object rooted in a log, publisher list, training point list, reach point component or curve list is reachable from the constructed object. 101 obligations, 3 s. Library calls are assumed not to modify their arguments unless listed as mutators.",
"C09": "Rule (sa/rules/c09.py on sa/alias.py): every public query of the data, reach point, tracker and model classes is run abstractly with a symbolic receiver; values carry taint (which query arguments and receiver fields they depend on) and writes carry their control conditions. A write to anything reachable from the receiver is accepted only if it is a one-time initialisation (controlled by a receiver field it also sets, neither value nor later control depends on the query), a memo entry whose key determines every query argument the value depends on, a field nobody reads, or happens inside a query of a part (judged there). Everything else is a violation, as are writes to module globals, draws of random numbers, and handing out the receiver's own containers from a computing method. Methods called only from _fit are fit steps, not queries. 179 obligations, 3 s.",
"C10": "Laws (sa/specs/c10.py), one group per model class: the condition under which each query raises (vector length, unknown price, zero impressions), the impressions at which a spend is evaluated (spend divided by training spend per training impression), and the impressions and spends echoed in the answer.",
"C11": "Rule: scope resolution of every name, attribute existence per class, argument binding of every resolved call, interface conformance.",
"C12": "Rule: str(TrialDescriptor), str(DataSetParameters) and the result path are evaluated to string terms; each leaf setting of the record classes (enumerated from their annotations) must be carried undiminished (formatted whole, or all entries of a list/dict; rounding formats, slices, filters, case changes lose it), with text between adjacent settings. The condition under which generate_trials drops a trial is extracted and its key must carry the same settings. Known finding: the sketch seed is not in the name.",
"C13": "Laws and a key-set comparison (sa/specs/c13.py): the success and failure row builders are evaluated to dictionaries of symbolic key streams (constant names, and names formatted from ranges of fractions and frequencies); the two streams must have the same normal form, and both concatenations the same parts.",
"C14": "Rule (sa/rules/c14.py): exception regions. Every call in evaluate that runs modelling code (test points, fit, both predictions, aggregation, single-publisher analysis), inlined helpers included, must be inside a handler that catches every Exception, whose continuation builds the failure row from the traceback and stores it; nothing in the handler may swallow points one by one.",
"C15": "Rule (sa/rules/c15.py): the filesystem effects of evaluate in order along all paths, exceptional ones included: the marker is written before the modelling and removed only after the complete result is stored; a stored result is returned unchanged by one read; an unreadable one is not returned; the text stored reads back as the frame returned (no index, NaN spelled).",
"C16": "Rule (sa/rules/c16.py): every random source (numpy legacy and Generator API, RandomState constructors, hash, time, set order of strings) reachable from the drivers is traced back to a seed or generator argument by term provenance; global numpy state must be reseeded from the seed before its first consumer on every path.",
"C17": "Rule: ExperimentalDesign.load is evaluated with symbolic core count and mode; the stream of frames concatenated must be evaluate(seed, filesystem) over every trial of every data set, every evaluation in the pool must get the same seed and filesystem, the Beam pipeline is checked stage by stage (Create from all trials, ParDo arguments, combine as concatenation, file written = file read). Laws for trial generation, descriptor updates and the CombineFn. Driver: constructor arguments, load arguments, file written; command line: each constructor argument is the option of that name.",
"C18": "Laws (sa/specs/c18.py): the points of each generator as comprehension normal forms over an arbitrary data set (coordinate i = publisher i's own maximum times a fraction in [0,1]), the number of points (max/min of request, per-publisher minimum and bounds), and a rule that every coordinate's factor is a draw or grid fraction inside the unit interval.",
"C19": "Rule (sa/rules/c19.py): call-graph search for direct file API use outside the wrapper package; data-flow of the filesystem parameter (at every call of a function having one, the caller's own is handed down, never the default); the two wrappers are compared operation by operation for the same path operation and arguments.",
"C20": "Laws and effect traces (sa/specs/c20.py) for DataDesign: add tests the very path it then writes and raises before any write; count, names and listing are the same enumeration of the directory; by_name reads the directory of that name.",
"C21": "Laws over write and read effect traces (sa/specs/c21.py): the text written for a symbolic log is one line per impression in order, with separators and full-precision fields, and the reader's term applied to such lines yields the log; file and directory names are carried both ways; a broken file raises.",
"C22": "Laws: the region table as a function of the spends (keys = one mask per non-empty subset of the active publishers; each user adds one to the cell of the OR of its publishers' bits and its capped total count), the union as the sum over the regions meeting the subset, the spends, impressions and universe of each reported point, and the per-region identity of sampling (draw j goes to the region whose population was entry j), noising (max(0, noise(own number))) and scaling (one common factor). The refusal law checks the limit on active publishers.",
"C23": "Laws (sa/specs/c23.py): each of the 28 metrics is evaluated as a term over two symbolic point lists and compared with its definition (true reach first, error relative to the truth); the evaluation loop must query truth and model at the same points and frequency.",
"C24": "Rule (sa/rules/c24.py): the generate_*_design_config functions are evaluated to terms; every choice among literal alternatives (Cartesian product, LHS index, level table) is enumerated, giving the finite set of descriptors each design can yield. Names are looked up in the evaluated registries; each descriptor is then pushed through the framework consumer in sa/specs/c24.py (instantiate_strategy().fit, generate_test_points, _generate_data_set) and any call that does not bind to its callee signature, on any path, is a violation; so is a level key that does not exist. Every registered implementation is additionally run through the same consumer and must provide the (non-abstract) operations the framework calls. 101 obligations, <1 s.",
"C25": "Laws (sa/specs/c25.py): consumption of one bucket = sums over the events whose index range (with wrap-around) contains it; overall consumption = componentwise maxima over all bucket end points; interval containment as a closed condition; plus a rule on how events enter the ledger.",
"C26": "Laws (sa/specs/c26.py) for impression, pricing and overlap generators over symbolic sizes and draws: user ids covered, counts at least one (from the sign of the draw), cumulative prices, one-to-one renaming, names, numbers of impressions, the seeds handed to the set generators, and the publishers the design generator builds.",
"C27": "Laws (sa/specs/c27.py): prediction of each surface over symbolic curves (curve i at component i), the training matrices and targets, bounds and equality constraints handed to the solver, the reconstruction of the overlap matrix, and for the restricted surface the loss, coordinate step, feasible bound and feasibility test.",
"C29": "Laws for every model's query (tail sums, scale, clamping), the k-inflated and truncated-Poisson mass functions, the objectives and the stored parameters; rule `roles` applies the optimiser's objective (as a lambda term) and the query to one symbolic parameter vector and compares the arguments every distribution function receives; rule `keep-best` (def-use over the loop) requires the running best score to take the value of the candidate that beat it.",
"C28": "Laws (sa/specs/c28.py): the fitted object as a term: which requests (spend vectors, frequencies) feed which curve or surface, for symbolic publisher counts, with the model classes opaque; budgets are C02's concern and are made irrelevant here by evaluating with a zero budget.",
}
