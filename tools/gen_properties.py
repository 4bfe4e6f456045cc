"""Writes /verif/properties.jsonl (edit here, re-run, commit both)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

B = "precise/base.py"
EST = ["precise/base.py", "precise/_state.py", "precise/empirical.py", "precise/diagonal.py",
       "precise/block_covariance.py", "precise/ewa.py", "precise/adaptive.py", "precise/ledoitwolf.py",
       "precise/oas.py", "precise/shrunk.py", "precise/schurcov.py", "precise/schur_conditional.py",
       "precise/schur_ledoit_wolf.py", "precise/partialmoments.py", "precise/huber.py",
       "precise/tyler.py", "precise/geodesic.py", "precise/dcc.py", "precise/factor.py",
       "precise/conditional.py"]

prop("C01", "Streaming, batches and fit agree",
 "For every shipped estimator, feeding rows one at a time, in any split into batches, or all at once with fit on a fresh estimator, as arrays or lists and whatever their number type, leaves exactly the same estimate, location, count and future behaviour. The order and number of rows are all that matters, never where a batch boundary falls.",
 ["inputs", "histories", "configurations"],
 "every estimator and hyper-parameter setting, every sequence of rows, every way of cutting it into partial_fit calls",
 "Tests compare two or three fixed splits on random data for default settings; the split points, the first row, the row after a boundary and diff=True combine without bound.",
 EST, [("partial_fit row loop", "precise/base.py:BaseOnlineCovariance.partial_fit"), ("fit = reset + partial_fit", "precise/base.py:BaseOnlineCovariance.fit"), ("composite row loop", "precise/conditional.py:ConditionalCovariance.partial_fit")],
 [("running state", "all that a past stream contributes to the future", "precise/base.py")], ["covariance_", "location_", "n_samples_"])
prop("C02", "fit forgets everything learned before",
 "Calling fit on an estimator that has already seen data gives the same estimator as calling fit with that data on a newly constructed one with the same hyper-parameters, including the dimension, the sample count and any pending difference. Nothing from an earlier stream survives.",
 ["histories", "inputs"], "every estimator, every earlier history (fitted, part-way through differencing, restored), every 2d batch",
 "Tests refit at most once after one history; what may leak depends on which attributes the history had set.",
 ["precise/base.py", "precise/conditional.py", "precise/block_covariance.py"],
 [("reset in fit", "precise/base.py:BaseOnlineCovariance.fit"), ("sub-model creation", "precise/conditional.py:ConditionalCovariance.partial_fit")])
prop("C03", "A saved state restores an estimator that continues exactly",
 "At any point of any stream, get_state gives a JSON-serialisable value which, passed through JSON or not and given to set_state of an estimator constructed with the same hyper-parameters (whatever that one had seen), reproduces every estimate and every later update exactly; this includes differencing streams and estimators that have seen nothing. The composite estimator refuses both calls instead of saving half of itself.",
 ["histories", "crash_points", "configurations"], "every registered estimator, every hyper-parameter setting, every point of every stream, every prior content of the restored estimator",
 "Tests save once, after burn-in, with default parameters, into a new object, and compare the current covariance; a lost or misread field shows only in later updates, another phase, or an already used target.",
 EST, [("get_state / set_state", "precise/base.py"), ("block override", "precise/block_covariance.py"), ("refusal", "precise/conditional.py")])
prop("C04", "Pickle and deepcopy reproduce a live estimator",
 "Pickling (or deep-copying) and restoring any estimator, fitted or not and at any point of a stream, yields one with the same hyper-parameters and the same future behaviour as the original, and the two share no data. The composite estimator carries its volatility and correlation models along.",
 ["histories", "configurations"], "every estimator and composite, every parameter setting, every point of every stream",
 "Tests round-trip default estimators after a fixed stream; a lost parameter, count or pending difference needs particular settings and later updates to show.",
 ["precise/base.py", "precise/block_covariance.py", "precise/conditional.py"], [("__getstate__/__setstate__", "precise/base.py, precise/conditional.py")])
prop("C05", "Reading an estimate never changes the estimator",
 "Reading covariance_, correlation_, precision_, location_, n_samples_, mahalanobis, score, get_params, get_state, repr or any keyed query leaves every later estimate and update exactly as if the read had not happened. Reads may be interleaved with learning in any way and repeated with equal results.",
 ["histories", "schedules"], "every estimator and keyed adapter, every interleaving of reads with updates",
 "Tests read at the end of a stream; an in-place operation on the running state, a cached result or a consumed buffer shows only when a read is followed by more learning.",
 EST + ["precise/keyed.py"], [("reads compute from state without writing it", "precise/base.py fitted attributes, *:_state_to_cov"), ("keyed queries", "precise/keyed.py:cov_array")])
prop("C06", "Caller data is neither modified nor retained",
 "No call to partial_fit, fit, score, mahalanobis, learn_one, learn_many, suggest, covariance_features or an assessor's score ever changes the arrays, rows or dicts passed in, and changing them after the call returns never changes any estimate. A caller may reuse one buffer for every observation.",
 ["inputs", "histories"], "every public entry point taking data, every array layout (views, float64 arrays passed without conversion, batches), every later mutation by the caller",
 "Tests pass freshly made arrays and never touch them again; aliasing needs a caller that reuses its buffer.",
 ["precise/base.py", "precise/_conventions.py", "precise/keyed.py", "precise/recommend.py", "precise/assessment/assessors.py", "precise/conditional.py", "precise/_linalg.py"],
 [("as_rows may alias its argument", "precise/_conventions.py:as_rows"), ("differencing keeps a copy of the previous row", "precise/base.py"), ("copy of the last observation", "precise/keyed.py")])
prop("C07", "Returned results are private copies",
 "Whatever the caller does to an array, list or dict returned by a read (covariance_, location_, correlation_, precision_, get_state, keyed matrices and dicts, registry lists) has no effect on any later estimate, query or registry lookup.",
 ["histories"], "every read of every estimator, adapter and registry, every later mutation of the result",
 "Tests never write into results.",
 EST + ["precise/keyed.py", "precise/registry.py", "precise/assessment/registry.py"],
 [("results are freshly computed arrays", "precise/base.py"), ("registry returns a copy", "precise/registry.py:all_estimators")])
prop("C08", "Constant memory and work per observation",
 "The data an estimator carries between observations has a size fixed by the dimension and hyper-parameters alone: no window, history or cache grows with the number of observations, and no update loops over the past. Block-diagonal estimation keeps only within-block matrices, diagonal and factor estimation keep no dimension-by-dimension matrix at all, and a keyed dynamic adapter is bounded by its maximum number of universes.",
 ["histories", "inputs"], "every estimator and adapter, streams of any length",
 "Tests run short streams; slow growth or a hidden dense matrix changes no result.",
 EST + ["precise/keyed.py"], [("state dict shape is an invariant of the update", "*:_init_state/_update_state"), ("bounded universes", "precise/keyed.py:DynamicUniverse.update")])
prop("C09", "Every observation is counted exactly once",
 "n_samples_ is 0 on a new estimator and afterwards equals the number of observations learned since construction or the last fit: one per row in every phase (burn-in or not), one per difference (rows minus one) with differencing. Restoring a saved state restores the count, and counting goes on from there however large it is.",
 ["histories", "inputs"], "every estimator, every phase of the stream, every batch split",
 "Tests check the count once per estimator, after a stream that ends in one phase.",
 EST, [("n_samples increment on every branch", "*:_update_state"), ("count accessor", "precise/base.py:n_samples_")])
prop("C10", "Differencing equals feeding first differences",
 "An estimator with differencing enabled that is given rows x0, x1, ..., xn behaves exactly like the same estimator without differencing given x1-x0, ..., xn-x(n-1), for any batching and starting afresh after fit. The first row alone produces no observation.",
 ["inputs", "histories"], "every estimator accepting diff, every row sequence and batching",
 "Tests check one estimator on one stream in one batch.",
 ["precise/base.py"] + EST[2:-1], [("first-difference step and previous row", "precise/base.py:partial_fit")], [("previous row", "last raw observation", "precise/base.py")])
prop("C11", "A row of the wrong width is refused without side effects",
 "Once an estimator has seen a row, learning from rows with a different number of features raises ValueError, and the estimator is left exactly as it was: no estimate, count, sub-model or pending difference changes. fit starts a new dimension freely.",
 ["inputs", "histories", "fault_sequences"], "every estimator including the composite, every width including 1 (which numpy would broadcast), every phase of the stream",
 "No test passes a row of a different width; a width-1 row broadcasts silently.",
 ["precise/base.py", "precise/conditional.py"], [("width check before any state change", "precise/base.py:partial_fit, precise/conditional.py:partial_fit")])
prop("C12", "An estimator that has seen nothing refuses to answer",
 "Before the first observation (for differencing: before the second row; after restoring an empty state; after fit on no rows) covariance_, correlation_, precision_, location_, mahalanobis and score raise the documented not-fitted error, a ValueError, while n_samples_ is 0 and get_params and repr work. No estimator returns a placeholder estimate.",
 ["histories", "configurations"], "every estimator, every way of having seen nothing, every read",
 "Tests read covariance_ on fresh objects only.",
 ["precise/base.py", "precise/block_covariance.py", "precise/conditional.py", "precise/keyed.py"], [("fitted check", "precise/base.py:_fitted_state")])
prop("C13", "Hyper-parameters are stored as given and define the estimator",
 "Every constructor argument is readable under its own name with the value given and is listed by get_params; set_params changes it; rebuilding an estimator from its get_params gives an unfitted estimator that behaves identically. Learning never changes a hyper-parameter.",
 ["configurations", "histories"], "every estimator, every constructor argument, every value",
 "Tests check get_params keys for defaults; a swapped, coerced, unused or drifting parameter needs particular values.",
 EST, [("constructor stores arguments", "*:__init__"), ("get_params by signature", "precise/base.py:get_params")])
prop("C14", "Estimators and adapters never share mutable data",
 "Two separately constructed estimators, adapters or clones never influence one another, and an estimator instance handed to an adapter or to the composite as a prototype is never itself trained. No call writes to module- or class-level data.",
 ["histories", "schedules"], "every pair of instances, every interleaving of their use, prototypes shared between adapters",
 "Tests use one instance at a time; sharing through a default argument, class attribute, cached state template or an uncloned prototype shows only with two.",
 EST + ["precise/keyed.py", "precise/registry.py", "precise/recommend.py"], [("fresh state per instance", "*:_init_state"), ("cloning", "precise/keyed.py:_clone, precise/conditional.py:_clone")])
prop("C15", "Estimates are a deterministic function of the stream",
 "The same hyper-parameters and the same observations give the same estimates, keyed results, recommendations and scores in every process: no library code consults a random source, the clock, the environment, object identities, hash values or the iteration order of a set, and none depends on global mutable data.",
 ["programs", "histories"], "every library function, every process and hash seed",
 "Tests run with a fixed hash seed in one process.",
 ["precise/"], [("pure numpy updates", "precise/_state.py"), ("ordered key lists", "precise/keyed.py")])
prop("C16", "Every published covariance is a symmetric, valid covariance",
 "covariance_ of every shipped estimator is, in exact arithmetic, a symmetric positive semidefinite matrix with the stream's dimension at every point of every stream with documented hyper-parameters (rates in (0,1], intensities in [0,1]). Keyed dynamic queries return a symmetric matrix projected to positive definite.",
 ["inputs", "histories", "configurations"], "every registered estimator, every stream, every phase, every documented hyper-parameter value",
 "Tests check eigenvalues after one random stream per estimator; a negative weight, an asymmetric cross term or a skipped projection shows only in some phase or data set.",
 EST + ["precise/_linalg.py", "precise/keyed.py"], [("convex updates", "precise/_state.py"), ("positive-definite projection", "precise/_linalg.py:make_pos_def, nearest_pos_def")])
prop("C17", "Correlation, precision, distance and score follow the covariance",
 "For every estimator correlation_ is covariance_ scaled to unit diagonal at any scale of the data, precision_ is the inverse of covariance_ (pseudo-inverse, then a ridge, only where inversion fails), mahalanobis is the squared distance of each row from location_ under that precision, and score is the mean Gaussian log-likelihood with that location and precision. get_precision equals precision_.",
 ["inputs", "configurations"], "every estimator, every data scale, every row batch",
 "Tests check diagonal and shape on unit-scale data; scale, centring, the sign or factor of a term, and per-estimator overrides are not covered.",
 ["precise/base.py", "precise/_linalg.py", "precise/block_covariance.py", "precise/conditional.py"], [("derived attributes", "precise/base.py"), ("cov_to_corrcoef, try_invert", "precise/_linalg.py")])
prop("C18", "EmpiricalCovariance is the population mean and covariance",
 "After any number n of observations, location_ is their arithmetic mean and covariance_ their population covariance (divisor n), whatever the order and batching. The first observation gives a zero covariance.",
 ["inputs", "histories"], "every stream of every length and dimension",
 "Tests compare with numpy on a few streams to a tolerance; the induction over n is the property.",
 ["precise/_state.py", "precise/empirical.py"], [("Welford step", "precise/_state.py:emp_update")])
prop("C19", "Exponential weighting: burn-in, then fixed forgetting",
 "Recency-weighted estimators built on the exponentially weighted moving average average all observations equally for the first ceil(1/r) observations (kept between 5 and 250) and thereafter give the newest weight exactly r: location is (1-r)*old + r*x and covariance (1-r)*old + r*(x-old location)(x-old location)^T. The rate used is the one given at construction. Past its burn-in (and, for SchurConditionalCovariance, its effective sample size) no recency-weighted estimator's update depends on how long the stream already is.",
 ["inputs", "histories", "configurations"], "the plain, OAS, fixed-shrinkage, linear/conditional Schur, block and diagonal estimators; every r in (0,1]; the steps before, at and after the end of burn-in",
 "Tests look at one rate well after burn-in with loose tolerances; the switch step and clamp bounds are single points.",
 ["precise/_state.py", "precise/ewa.py", "precise/diagonal.py", "precise/block_covariance.py", "precise/oas.py", "precise/shrunk.py", "precise/schurcov.py", "precise/schur_conditional.py"],
 [("burn-in length", "precise/_state.py:ewa_burn_n"), ("EWA step", "precise/_state.py:ewa_update")])
prop("C20", "Shrinkage estimates are convex combinations with their target",
 "LedoitWolf, OAS and Shrunk publish (1-a)*S + a*T with S the exponentially weighted sample covariance, T the scaled identity with the same trace (or, for the constant-correlation target, the matrix with S's variances and its average correlation) and intensity a always in [0,1]: the documented data-driven Ledoit-Wolf or OAS formula, or the fixed delta. The total variance (trace) is never changed by shrinking.",
 ["inputs", "configurations"], "every stream, rate, intensity and target, including degenerate S (zero, already spherical, one variable)",
 "Tests check conditioning improves on random data; clipping and degenerate branches are rarely reached.",
 ["precise/ledoitwolf.py", "precise/oas.py", "precise/shrunk.py"], [("intensity and blend", "*:_state_to_cov"), ("running dispersion", "precise/ledoitwolf.py:_update_state")])
prop("C21", "The Schur family damps only cross-block coupling",
 "SchurCovariance and SchurLedoitWolfCovariance multiply every covariance between variables of different contiguous blocks by one factor in [0,1] (the given gamma, or the documented Ledoit-Wolf reliability estimated from the data) and leave within-block entries alone before the positive-definite projection; gamma 1 is the full estimate and 0 block-diagonal, and the geodesic option moves between those two along the geodesic. SchurConditional rebuilds each block from its damped, ridge-regressed dependence on all earlier blocks with the documented reliability.",
 ["inputs", "configurations"], "every dimension and number of blocks (including more blocks than variables and one block), every gamma, every stream",
 "Tests use even block sizes and a couple of gammas; uneven splits and per-entry masks are not compared.",
 ["precise/schurcov.py", "precise/schur_ledoit_wolf.py", "precise/schur_conditional.py"], [("cross-block mask", "precise/schurcov.py:_state_to_cov"), ("reliability", "precise/schur_ledoit_wolf.py, precise/schur_conditional.py")])
prop("C22", "Block and diagonal estimates never mix unrelated variables",
 "DiagonalCovariance reports exactly zero off the diagonal and a variance per variable that depends on that variable's data alone. BlockCovariance reports exactly zero between contiguous blocks, and within a block exactly what an exponentially weighted estimate of that block alone gives (floored to positive definite), with precision assembled block by block from the same blocks.",
 ["inputs", "configurations"], "every dimension, block count and stream",
 "Tests check zeros for one partition; independence of blocks is a two-run property.",
 ["precise/diagonal.py", "precise/block_covariance.py"], [("per-variable update", "precise/diagonal.py"), ("per-block update and assembly", "precise/block_covariance.py")])
prop("C23", "Huber updates have bounded influence",
 "After burn-in the Huber estimator moves by the documented weight: an observation within c standard deviations (squared Mahalanobis distance at most c^2 times the dimension) counts fully with weight r, and one further out is pulled back along its own direction to exactly that distance. No single observation, however large, moves location or covariance further than one at the cutoff would.",
 ["inputs", "histories"], "every observation of any magnitude, every state, every c and r",
 "Tests contaminate one random stream and compare errors.",
 ["precise/huber.py"], [("Huber weight", "precise/huber.py:_update_state")])
prop("C24", "The adaptive rate stays between its baseline and maximum",
 "After burn-in the adaptive estimator forgets at a single rate per step applied equally to location and covariance, equal to the baseline r times the smoothed surprise (a 0.1-weighted average of squared Mahalanobis distance per dimension, starting at 1) and always between r and max_r. In calm data it is exactly the plain exponentially weighted estimate.",
 ["inputs", "histories"], "every stream, r and max_r",
 "Tests compare tracking error on one regime change.",
 ["precise/adaptive.py"], [("surprise and clamp", "precise/adaptive.py:_update_state")])
prop("C25", "DCC and composite covariances are H = D R D, one step ahead",
 "DCC and the composite estimator publish H = D R D with R a unit-diagonal correlation matrix built from standardised residuals and D the per-series standard deviations, so each published variance is that series' own volatility estimate. Every observation is centred by the mean known before it; in the composite it is also scaled by the volatility forecast made before it and only then shown to the volatility models, each of which sees only its own series.",
 ["inputs", "histories", "configurations"], "every stream, every rate pair, every choice of volatility and correlation model (including external forecasters)",
 "Tests check unit diagonals and one comparison; look-ahead by one step changes results only slightly.",
 ["precise/dcc.py", "precise/conditional.py"], [("standardise then update", "precise/dcc.py:_update_state, precise/conditional.py:partial_fit"), ("recombination", "*:_state_to_cov")])
prop("C26", "The factor estimate is low rank plus a non-negative diagonal",
 "FactorCovariance publishes the sum of at most k rank-one factor terms and a diagonal whose entries are the tracked variance not already captured by the factors, never negative, so every published variance is at least the tracked one and equal to it whenever the factors do not over-explain it. Factors follow the documented incremental principal-direction update with deflation.",
 ["inputs", "histories", "configurations"], "every stream, k (including k above the dimension) and r",
 "Tests check the error on one factor model.",
 ["precise/factor.py"], [("CCIPCA update", "precise/factor.py:_update_state"), ("assembly", "precise/factor.py:_state_to_cov")])
prop("C27", "Geodesic steps stay on the manifold with exact endpoints",
 "The geodesic interpolation between two positive-definite matrices A and B at fraction t is A^(1/2)(A^(-1/2) B A^(-1/2))^t A^(1/2): A at 0, B at 1, symmetric positive semidefinite between. After burn-in the geodesic estimator moves from its covariance towards the newest outer product by exactly fraction r of it and its location by the exponentially weighted rule.",
 ["inputs", "configurations"], "every pair of matrices, every fraction in [0,1], every stream",
 "Tests check endpoints on a few matrices to a tolerance.",
 ["precise/_linalg.py", "precise/geodesic.py", "precise/schurcov.py"], [("geodesic_step", "precise/_linalg.py"), ("update", "precise/geodesic.py:_update_state")])
prop("C28", "Partial moments split scatter into sign quadrants and lose none",
 "The partial-moment estimator keeps one recency-weighted matrix per combination of signs of the two deviations (about the mean known before the observation), every product landing in exactly the quadrant of its signs, and publishes their sum projected to positive definite. Without the projection the sum is the exponentially weighted scatter.",
 ["inputs", "histories"], "every stream and r, deviations of either sign and zero",
 "Tests check symmetry and positive definiteness only.",
 ["precise/partialmoments.py"], [("quadrant accumulation", "precise/partialmoments.py:_update_state")])
prop("C29", "Tyler's estimate depends on directions only",
 "The Tyler update adds each centred observation only through its direction relative to the current shape, with weight r (1/n during burn-in), keeps the shape's trace equal to the dimension, and publishes a unit-diagonal correlation. A zero deviation never makes the estimate undefined.",
 ["inputs", "histories"], "every stream, every magnitude including zero observations",
 "Tests compare errors under one outlier pattern; the scale invariance and the zero case are not tested.",
 ["precise/tyler.py"], [("direction-only update, trace normalisation", "precise/tyler.py:_update_state")])
prop("C30", "A fixed universe maps names to columns and fills gaps as asked",
 "In a fixed universe (the given names, or those of the first observation) every value reaches the column of its own name whatever the order of the observation's keys, unknown names are ignored, and a missing name is replaced by its last seen value (zero before any), the estimator's current mean, or zero according to the impute setting. Queries return the requested names in the requested order, taken from the wrapped estimator unchanged.",
 ["inputs", "histories", "configurations"], "every sequence of observations with any missing, extra or reordered names, every impute mode, every query",
 "Tests drop one key once; which value is remembered, and from when, depends on the whole history of gaps.",
 ["precise/keyed.py"], [("alignment and imputation", "precise/keyed.py:FixedUniverse.update"), ("query", "precise/keyed.py:FixedUniverse.cov_array")])
prop("C31", "A dynamic universe learns, ages and evicts as documented",
 "Each observation updates exactly the tracked key-sets it fully covers, using only their own names, resets those to fresh and counts the observation once for each; all others age by one, and those older than the maximum staleness are dropped. An unseen key-set gets its own tracker which learns that observation; if that exceeds the maximum number of universes, the stalest (then the shortest-lived) is dropped, so the limit always holds.",
 ["histories", "inputs", "configurations"], "every sequence of key-sets, every limit",
 "Tests run a handful of key-set changes under default limits.",
 ["precise/keyed.py"], [("update, ageing, eviction", "precise/keyed.py:DynamicUniverse.update")])
prop("C32", "A dynamic query reads each pair from the right universe",
 "Every entry of a dynamic matrix comes from the longest-lived (then least stale) universe containing both names, at exactly those two names' positions, and is symmetric in them; pairs never seen together get the mean of the known off-diagonal entries (zero if none), and the result is projected to positive definite. Rows and columns follow the requested names, or those of the latest observation.",
 ["histories", "inputs"], "every set of universes and every query, including unknown and reordered names",
 "Tests query one or two states; a wrong index or preference only shows when universes order names differently or compete.",
 ["precise/keyed.py"], [("assembly", "precise/keyed.py:DynamicUniverse.cov_array")])
prop("C33", "Keyed results depend on names, never on dict order",
 "The order of keys inside an observation never changes which value a name gets, keyed matrices carry the name list that labels their rows and columns, and the dict-of-dicts, DataFrame, covariance and correlation views of one query hold the same numbers under the same names (correlation scaled to unit diagonal). learn_one, learn_many and update are the same operation, and keyed() builds exactly the adapter asked for with the options given.",
 ["inputs", "histories"], "every permutation of every observation's keys, every query form",
 "Tests use one key order throughout.",
 ["precise/keyed.py"], [("views and aliases", "precise/keyed.py:_KeyedAdapter"), ("front door", "precise/keyed.py:keyed")])
prop("C35", "The registries list every shipped estimator and assessor once",
 "Every exported streaming covariance estimator that needs no other model is listed exactly once by all_estimators and findable by its own name, every exported assessor likewise, unknown names raise KeyError, every listed estimator can be built with no arguments, and every name a module exports exists.",
 ["programs", "configurations"], "every class in the package, every registry lookup",
 "Tests iterate over the registry itself, so an omission from it removes the class from the tests too.",
 ["precise/registry.py", "precise/__init__.py", "precise/assessment/registry.py", "precise/assessment/__init__.py"], [("registry tables", "precise/registry.py, precise/assessment/registry.py")])
prop("C36", "The shipped recommender model is well formed",
 "For every possible feature vector the frozen recommender tree reaches a leaf in finitely many steps without an index error, every leaf prefers at least one estimator, every class it names is a registered estimator, and every feature it reads is produced by covariance_features, with a positive scale for each.",
 ["inputs", "programs"], "every feature vector, every node and table entry of the shipped model",
 "Tests walk the tree for a few data sets, reaching a few leaves.",
 ["precise/_recommender_model.py", "precise/recommend.py"], [("tree tables", "precise/_recommender_model.py"), ("walk", "precise/recommend.py:_trained_weights")])
prop("C37", "suggest ranks registered estimators by model, then heuristic",
 "suggest returns the best top distinct registered estimator classes ordered by the tree leaf's count for the standardised features (smaller or equal to the threshold goes left), ties broken by the documented heuristic scores and then registry order, or by the heuristic alone when no model is shipped. The features are the documented sample descriptors, computed from the data alone.",
 ["inputs", "configurations"], "every data window, every top",
 "Tests check membership and length; the ordering and the feature definitions are not compared with an independent definition.",
 ["precise/recommend.py"], [("features", "precise/recommend.py:covariance_features"), ("ranking", "precise/recommend.py:suggest, _scores, _trained_weights")])
prop("C38", "Assessors use exactly what they declare and change nothing",
 "An assessor's score depends on held-out data only if it declares needing data and on the true covariance only if it declares needing the truth, it always depends on the estimate, and usable says exactly whether the declared needs are met. Scoring is a pure function: repeated or reordered scoring gives the same values.",
 ["inputs", "configurations"], "every registered assessor, every argument combination, every scoring order",
 "Tests call each assessor with everything supplied.",
 ["precise/assessment/base.py", "precise/assessment/assessors.py"], [("capability flags", "precise/assessment/base.py"), ("score methods", "precise/assessment/assessors.py")])
prop("C39", "Assessor scores are the documented criteria, higher is better",
 "Each assessor computes its documented criterion oriented so that higher is better: mean Gaussian log-likelihood (full, summed over contiguous blocks, or after damping cross-block coupling by gamma and projecting), negative Stein loss to the held-out sample covariance, negative relative Frobenius distance to the truth, negative out-of-sample second moment of the minimum-variance portfolio, and negative order-1 variogram score. A single block of full size, or gamma 1, gives the full likelihood.",
 ["inputs", "configurations"], "every positive-definite estimate, every held-out sample, every block size, gamma and interpolation",
 "Tests check that the truth beats a bad estimate; constants, signs, normalisations and uneven last blocks pass unnoticed.",
 ["precise/assessment/assessors.py"], [("criteria", "precise/assessment/assessors.py")])
prop("C40", "numpy is the only thing importing the library needs",
 "Importing the package and using every estimator, keyed adapter, recommender and assessor needs only numpy and the standard library; any other package is imported only inside the optional feature that needs it, and its absence there gives an actionable ImportError. Importing has no side effects on files, the network or global settings.",
 ["programs", "configurations"], "every module of the package, every environment without the optional packages",
 "The test environment has every optional package installed.",
 ["precise/", "pyproject.toml"], [("module-level imports", "precise/*.py"), ("guarded pandas import", "precise/keyed.py:to_frame")])
prop("C41", "The removed functional API fails loudly with directions",
 "Importing anything under the removed functional namespace always raises ImportError naming the class-based replacement, and nothing in the package imports it.",
 ["programs"], "every import path under the removed namespace",
 "Tests import one path.",
 ["precise/skaters/__init__.py"], [("import shim", "precise/skaters/__init__.py")])
prop("C42", "The code runs on every declared Python and numpy version",
 "Library code uses no syntax, standard-library feature or numpy function newer than the oldest Python and numpy versions the package declares, nor any numpy name removed in numpy 2.",
 ["programs", "configurations"], "every module, every declared interpreter and numpy version",
 "Tests run on one interpreter and one numpy.",
 ["precise/", "pyproject.toml"], [("declared floors", "pyproject.toml")])
prop("C43", "Out-of-sample studies never let held-out data reach the choice",
 "In the recommender studies the held-out family or window never influences the fitted estimates, the features, the trained tree, its scaling or the best fixed rival; only the final judging sees it. Scores come from data disjoint from what was fitted.",
 ["programs", "inputs"], "every code path of the out-of-sample studies and the recommender's training",
 "Tests run the studies and check they finish.",
 ["research/oos.py", "research/oos_equity.py", "research/train_recommender.py"], [("leave-one-family-out loops", "research/oos.py"), ("rolling windows", "research/oos_equity.py")])
prop("C44", "The bake-off treats every estimator alike on held-out data",
 "The bake-off fits every registered estimator afresh on the training part only, judges it on the test part and the truth with every usable assessor, and ranks higher scores first, a failed score last.",
 ["programs", "inputs"], "every scenario, estimator and assessor",
 "Tests run a tiny bake-off and look at the keys of the result.",
 ["research/bakeoff.py"], [("run / leaderboard", "research/bakeoff.py")])
prop("C45", "The exporter freezes the trained tree faithfully",
 "The exporter writes tables which, read back, reproduce the trained tree exactly: every split, child and class count; thresholds and feature scaling to the six decimals written; and the class and feature names in order. Leaf entries are whole class counts whichever way scikit-learn reports leaf values (counts or proportions).",
 ["programs", "inputs", "configurations"], "every tree scikit-learn can grow on the study's records, and both conventions of its leaf values",
 "No test runs the exporter (scikit-learn is not a test dependency); it decides what every later recommendation is.",
 ["research/train_recommender.py", "precise/_recommender_model.py"], [("export", "research/train_recommender.py:export"), ("frozen tables", "precise/_recommender_model.py")])
prop("C46", "The judge-power study ranks judges fairly and by their formulas",
 "In the metric-power study each judge computes its stated score (zero-mean Gaussian log-likelihood, negative Frobenius and Stein distance to the sample covariance, projected likelihood, negative realised minimum variance, negative Mahalanobis miscalibration, block pseudo-likelihood, coupling-damped likelihood), higher being better. Within a trial both candidates are judged on the same rows, drawn from the truth, and along the same directions; which candidate is the better one is decided from the truth alone; and the reported power is the fraction of the counted trials ranked correctly.",
 ["programs", "inputs", "configurations"], "all candidate pairs, rows, directions and generator draws", "Tests run a few seeds and check loose inequalities.",
 ["research/metric_power.py"], [("judges", "research/metric_power.py:METRICS"), ("power", "research/metric_power.py:metric_power"), ("block pseudo-likelihood", "research/metric_power.py:block_pseudo_loglik")])
prop("C47", "The Schur-likelihood theory formulas agree with each other",
 "The Schur operator at fraction one is the exact inverse with its log-determinant, and at zero the inverse of the block-diagonal part; the expected Schur likelihood is minus half the sum of the log-determinant and the trace of the operator with the truth; the closed-form maximizer reproduces every true block regression and conditional covariance and equals the truth at fraction one; the discrimination ratio is the exact mean over standard deviation of the score difference, and its sampled counterparts are that ratio over the rows or training draws taken; the squared canonical correlations are those of the whitened cross-covariance, unchanged by any change of units or basis within a block; gamma_star is the reliability formula, within [0, 1] and increasing in sample size and coupling.",
 ["inputs", "configurations"], "all positive-definite truths and candidates, block layouts and fractions", "Tests check particular matrices and seeds.",
 ["research/schur_likelihood_theory.py", "research/schur_godambe.py", "research/schur_spiked.py", "research/schur_gamma_star.py"], [("operator", "research/schur_godambe.py:schur_operator"), ("maximizer", "research/schur_likelihood_theory.py:closed_form_general"), ("trust", "research/schur_gamma_star.py:gamma_star")])
prop("C48", "The documented examples run and give what they say",
 "Every Python example in the README, SKILL.md, MIGRATING.md, the documentation page and the package docstrings runs against the current package, for every stream and batch of the stated kind, and each value it shows is what the text says: symmetric covariances, unit-diagonal correlations that match the covariance, the inverse, one mean per variable, dict-of-dicts over the live names, as many recommendations as asked for, labelled tables. The example of the removed interface fails with ImportError, and every class the documentation names can be found.",
 ["inputs", "programs"], "every documented example, every stream and batch", "No test reads the documentation.",
 ["README.md", "SKILL.md", "MIGRATING.md", "docs/index.html", "precise/"], [("examples", "README.md"), ("exports", "precise/__init__.py"), ("docstring examples", "precise/keyed.py:keyed")])
prop("C49", "Every estimator works in every role, the user's own included",
 "Any shipped estimator, any composite, and any user-written subclass that implements the documented hooks can be used alone, as the volatility or the correlation model of a composite, and behind either keyed adapter, and gives there exactly what the same estimator gives on its own on the data that role hands it. A user-written subclass inherits the whole interface: batches, refitting, differencing, saving, pickling, copying, parameters, refusals and private results. Every registered class works when constructed without arguments.",
 ["programs", "configurations", "inputs"], "every estimator in every role, every user-written update rule, every stream", "Tests pair a few estimators with a few roles.",
 ["precise/base.py", "precise/conditional.py", "precise/keyed.py"], [("hooks", "precise/base.py:BaseOnlineCovariance"), ("one-dimensional use", "precise/conditional.py:_PreciseVar"), ("wrapping", "precise/keyed.py:_factory")])
prop("C55", "The studies' synthetic families are what they claim",
 "Every generative family the recommender studies and the bake-off draw from is, for every random draw and dimension, a symmetric positive-definite matrix with the structure its name states (one constant correlation, autoregressive decay, uncorrelated, one or three factors plus a positive diagonal, a flat bulk with spikes). Rows drawn for a covariance, heavy-tailed ones included, have mean zero and exactly that covariance, and each bake-off scenario's truth is the law of its latest clean training rows and of its test rows.",
 ["inputs"], "every draw of every family, every dimension, every sample size", "Tests run the studies at one seed and look at shapes and names.",
 ["research/oos.py", "research/bakeoff.py"], [("families", "research/oos.py:ENSEMBLES"), ("sampling", "research/oos.py:_sample"), ("scenarios", "research/bakeoff.py:build_scenarios")])
# ---- not decidable by static analysis here: kept because users rely on them
prop("C50", "Estimates converge to the true covariance on stationary data",
 "On a long enough stationary stream every full-rank estimator recovers the true covariance (correlation for the direction-only estimator) to a tolerance set by its memory.",
 ["inputs", "histories"], "every data-generating distribution with finite fourth moments", "Tests try a few seeds.",
 ["precise/"], [("estimators", "precise/*.py")])
prop("C51", "Results stay accurate in floating point",
 "For well-scaled data, rounding errors in running means, covariances and projections stay within a small multiple of machine precision over arbitrarily long streams, and projected matrices have no eigenvalue below rounding.",
 ["inputs", "histories"], "every stream length and scale", "Tests use short, unit-scale streams.",
 ["precise/_state.py", "precise/_linalg.py"], [("Welford recurrence", "precise/_state.py"), ("projections", "precise/_linalg.py")])
prop("C52", "The recommender beats the best fixed choice out of sample",
 "On generative families it was not trained on, following suggest ranks on average at least as well as the single best fixed estimator.",
 ["inputs"], "every held-out family", "Tests check only that the study runs.",
 ["precise/recommend.py", "research/oos.py"], [("trained tree", "precise/_recommender_model.py")])
prop("C53", "Robust estimators lose less under contamination",
 "Under heavy tails or gross outliers the Huber and Tyler estimates stay closer to the truth than the plain recency-weighted estimate.",
 ["inputs", "histories"], "every contamination pattern below the breakdown point", "Tests use one pattern.",
 ["precise/huber.py", "precise/tyler.py"], [("robust weights", "precise/huber.py, precise/tyler.py")])
prop("C54", "The nearest positive-definite projection always terminates",
 "For every finite symmetric input the nearest positive-definite projection returns after finitely many ridge steps with a matrix whose Cholesky factorisation succeeds.",
 ["inputs"], "every finite symmetric matrix, in floating point", "Tests try a few matrices.",
 ["precise/_linalg.py"], [("ridge loop", "precise/_linalg.py:nearest_pos_def")])
ids = [p["id"] for p in P]; assert len(ids) == len(set(ids))
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
open(out, "w").write("".join(json.dumps(p) + "\n" for p in P))
print(len(P))
