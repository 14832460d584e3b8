"""The property catalogue (data only)."""
FI = "feature/indicators/"
FM = "feature/micro_structure/"
BASE, BANDS, MACD, RSI = FI + "_base.py", FI + "_bands.py", FI + "_macd.py", FI + "_rsi.py"
PSEQ, STM, SEQ = FM + "_price_sequences.py", FM + "_strategic_trade_models.py", FM + "_sequential_trade_models.py"
FEATF = [BASE, BANDS, MACD, RSI, PSEQ, STM, SEQ]
CUSUM = "feature/structural_breaks/cusumtest.py"
SB, BM, GBM, OU, QR = "sim/_base.py", "sim/_bm.py", "sim/_gbm.py", "sim/_ou.py", "sim/_quasi_random.py"
TB, KF, WF = "train_test_split/_base.py", "train_test_split/kfoldpe.py", "train_test_split/walk_forward.py"
DC, DI, DM, DD = "distance/correlation.py", "distance/information.py", "distance/distance_matrix.py", "distance/matrix_divergence.py"
CH, CM = "clustering/hierarchical.py", "clustering/metrics.py"
MC, UL, UV, UT, DL = "math/cov.py", "util/_logging.py", "util/_validate.py", "_datatypes/timeseries.py", "datasets/_dataloader.py"
UD, UC, UF = "util/_dtypes.py", "util/_custom_types.py", "util/_fs_utils.py"

NF = "abstract interpretation to value terms; normal-form equivalence with a reference definition"
NOTE_NF = ("Static: the function is interpreted abstractly for all inputs of a declared kind, its result is brought to an algebraic normal form "
           "and compared with a reference definition interpreted the same way. Real arithmetic; trusts the library models in sa/ and the definitions in spec/.")
IN = ["inputs"]


def P(id, title, statement, qtext, why, files, mech, over=IN, tech=NF, note=NOTE_NF, **kw):
    return dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, tech=tech, note=note, **kw)


PROPS = [
 P("F01", "Indicator values never depend on later observations",
   "The value any technical indicator, price band, volatility, spread, liquidity or informed-trading feature reports at a time t depends only on inputs at times up to t. Appending or changing later observations never changes a value already reported.",
   "every feature, every series, every position, every window/half-life setting, every container kind",
   "Tests compare a handful of short series at fixed parameters; look-ahead only shows when the future is changed, over every position and parameter.",
   FEATF, [("rolling/ewm/shift calls", "feature/indicators, feature/micro_structure")],
   tech="dataflow: time-dependence intervals of the value term of each feature",
   note="Static: each feature's result term is given an interval of time offsets it can read; the check requires the upper end <= 0 for all inputs. Trusts the pandas/numpy window models in sa/."),
 P("F02", "Technical indicator values equal their documented definitions",
   "For every input series and parameter choice, each technical indicator and price band (rolling and exponential mean, deviation, extremes and momentum, average true range, RSI, MACD, Bollinger, Keltner and Donchian bands) returns at every position the value of its documented formula. Default parameters give the documented default formula.",
   "all series, all admissible parameters, series and array containers",
   "Tests check single columns at default parameters; a wrong formula can agree on those.",
   [BASE, BANDS, MACD, RSI], [("indicator functions", "feature/indicators")]),
 P("F03", "Microstructure estimator values equal their documented definitions",
   "For every input series and parameter choice, each volatility, spread, price-impact and informed-trading estimator returns at every position the value of its documented formula (close-close, high-low, Garman-Klass, Rogers-Satchell, Yang-Zhang and Becker-Parkinson volatility, Corwin-Schultz, EDGE and Roll spreads, Kyle, Amihud and Hasbrouck lambdas, VPIN and bulk buy volume).",
   "all positive price/volume series, all admissible parameters, series and array containers",
   "Estimators are tested on one data set; sign, lag and window errors that agree on it go unseen.",
   [PSEQ, STM, SEQ], [("estimator functions", "feature/micro_structure")]),
 P("F04", "Features preserve container kind, length and index",
   "Every feature given arrays returns an array, and given pandas series returns a pandas object, of the same length as its input and carrying exactly the input's index, so position i of the output always refers to position i of the input.",
   "all features, all lengths and indexes (including non-default and datetime indexes), both container kinds",
   "Tests use one index type; a lost or reset index only shows with others.",
   FEATF + [CUSUM], [("array wrapping decorator", FI + "_base.py")],
   tech="abstract interpretation: container-kind, length and index tags of each result",
   note="Static: container kind, symbolic length and index tag of each feature's result are tracked through the abstract interpreter and must equal the input's. Trusts the pandas models in sa/."),
 P("F06", "Bounded indicators stay within their documented range",
   "For every admissible input the relative strength indices stay within 0..100 and VPIN within 0..1, estimated buy volume between zero and the volume, band upper, middle and lower lines are ordered with non-negative width, and ranges, volatility, spread, Roll and price-impact estimates are non-negative.",
   "all series of positive prices with low <= open, close <= high and 0 <= buy volume <= volume, all parameters",
   "A range violation needs unusual price paths that the samples do not contain.",
   FEATF, [("indicator formulas", "feature/indicators, feature/micro_structure")],
   tech="abstract interpretation: sign/interval analysis of value terms",
   note="Static: sound interval and order reasoning over the result term."),
 P("F07", "Features scale correctly with the price level",
   "Multiplying all prices by a positive constant multiplies every price-valued feature (moving averages, bands, ranges) by the same constant, and leaves every relative feature (returns, ratios, oscillators, relative spreads, volatilities) unchanged.",
   "all series, all positive scale factors, all parameters",
   "No test rescales its input.",
   FEATF, [("indicator formulas", "feature/indicators, feature/micro_structure")],
   tech="homogeneity-degree inference over value terms (a type system for scaling degrees)",
   note="Static: every subterm of the feature result gets a scaling degree in the price level; the result must have the documented degree for all inputs."),
 P("F08", "The CUSUM break test computes its documented statistic",
   "The Chu-Stinchcombe-White CUSUM test returns, for every time t, the largest departure of the current log price from any earlier log price, standardised by the root of the time distance and by the root mean squared log change up to t, together with the critical value sqrt(4.6 + log(distance)) at the distance attaining it. Both are zero at the first time.",
   "all positive price series of every length",
   "Tests run one series; a wrong lag, sign or normaliser can preserve the tested maxima.",
   [CUSUM], [("statistic and critical value", CUSUM)]),
 P("S01", "Simulated paths follow the model's exact transition law",
   "Each simulated step of the Brownian, geometric Brownian and Ornstein-Uhlenbeck models uses the exact transition of the process over the step: its drift, its volatility scaling with the step size, mean reversion, and the correlation given, for every number of variates and paths. The first row is the start value and every path evolves only from its own previous value.",
   "all parameters, step sizes, numbers of variates, steps and paths, and noise outcomes",
   "Tests check sample moments at one setting within wide tolerances.",
   [SB, BM, GBM, OU], [("_path_sample_np", "sim/_bm.py, _gbm.py, _ou.py"), ("_fill_with_correlated_noise", SB)]),
 P("S02", "Likelihood uses the same transition law as simulation",
   "The negative log-likelihood of data under a model is minus the sum of the log densities of its increments (log increments for geometric Brownian motion, one-step residuals for Ornstein-Uhlenbeck) under exactly the mean, standard deviation and correlation the model simulates with.",
   "all parameters, step sizes, data and dimensions",
   "Tests compare a few likelihood values; a wrong dt power or missing correlation can agree at those.",
   [SB, BM, GBM, OU], [("_nll", "sim/_bm.py, _gbm.py, _ou.py")]),
 P("S03", "Fitting inverts the model's transition moments",
   "Fitting sets the model parameters to those whose one-step mean, standard deviation, regression slope and correlation equal the sample's (unbiased standard deviation, annualised by the step size), for every series separately in multivariate data. Degenerate series are rejected or warned about rather than fitted silently.",
   "all data, step sizes and numbers of series",
   "Tests recover parameters within tolerances on a few samples.",
   [SB, BM, GBM, OU], [("_fit_np", "sim/_bm.py, _gbm.py, _ou.py")]),
 P("S04", "Simulated output has the promised layout and labels",
   "A simulation of n steps and p paths returns n+1 rows (n when the start row is excluded) and one column per path and variate with the variates of one path adjacent. It is an array unless labels were requested or fitted from pandas data, and then carries the right column names and a date index of the right start, frequency and length.",
   "all fitted/unfitted states, label options, numbers of steps, paths and variates",
   "The options combine into far more states than the tests visit.",
   [SB, BM, GBM, OU], [("_format_ans, _make_columns_names, _make_date_time_index", SB)], over=["inputs", "configurations", "histories"]),
 P("S05", "Seeded randomness is reproducible and isolated",
   "All randomness of simulation and of the gap statistic comes from a generator created from the caller's seed inside the call: equal seeds give equal results, different seeds reach the noise, and the global random state is neither read nor changed.",
   "all call sequences and seeds", "Tests check one seed of one model; global-state leakage shows only across calls.",
   [SB, BM, GBM, OU, QR, CM], [("default_rng(random_state)", SB)], over=["inputs", "histories"],
   tech="effect analysis: provenance of every random draw",
   note="Static: every random-number call reached by the interpreter must draw from a generator constructed in the call from the caller's seed; each draw's stream position is part of the value term."),
 P("S06", "Simulating and scoring never change the model",
   "Drawing paths and computing likelihood or information criteria leave every attribute of the model unchanged, so their results do not depend on how often or in which order they are called.",
   "all models, all call histories", "Only histories of calls reveal it; tests make single calls.",
   [SB, BM, GBM, OU, QR], [("path_sample, nll, aic, bic", SB)], over=["histories"],
   tech="effect analysis: attribute/array writes reachable from read-only methods",
   note="Static: every attribute store and in-place write reached from a read-only entry point must target a fresh object."),
 P("S07", "The correlation and its factor are always consistent",
   "Whenever a model has a correlation matrix, the factor used for simulation is that matrix's Cholesky factor, after construction and after every fit; without a correlation neither is set. Refitting never leaves state of an earlier fit behind.",
   "all construct/fit histories, all dimensions", "A stale factor needs a particular history of fits.",
   [BM, GBM, OU], [("cor and L_ assignments", "sim/_bm.py, _gbm.py, _ou.py")], over=["histories", "inputs"],
   tech="abstract interpretation of construct/fit histories; typestate invariant on paired attributes",
   note="Static: after each constructor and each fit, on every path, the factor attribute's term is cholesky(correlation term) or both are None."),
 P("S08", "Information criteria use the right likelihood and parameter count",
   "AIC equals twice the number of free parameters plus twice the negative log-likelihood, and BIC uses log(number of observations) times the number of free parameters; the number of free parameters counts every drift, mean, reversion and volatility entry plus one per distinct correlation pair, and follows the fitted dimension.",
   "all models, dimensions, data and fit histories", "Tests check fixed numbers of one model.",
   [SB, BM, GBM, OU], [("aic, bic, _count_parameters", SB)], over=["inputs", "histories"]),
 P("S09", "Start values, step size and labels resolve as documented",
   "A simulation starts from the given value, else from the first fitted value, else from the model default, with 'first' and 'last' selecting the fitted end points and their dates; the step size falls back to the fitted one and then to 1/252. Asking for fitted end points of an unfitted model, an unknown option, or a non-positive step is rejected.",
   "all argument combinations and fit states", "Tests visit a few combinations.",
   [SB], [("_preprocess_sim_path_args, _preprocess_fit_x_and_dt", SB)], over=["inputs", "configurations", "histories"]),
 P("S10", "Quasi-random signal paths use only past values at the stated volatility",
   "A quasi-random path equals the base model's path plus the cumulated indicator signal, where the signal at a step uses only path values before that step, the first row is the start value, and the signal is scaled per column to the stated fraction of that variate's volatility per square-root step.",
   "all indicators, base models, numbers of variates and paths", "Tests check shapes and correlations of one indicator.",
   [QR], [("_path_sample_np", QR)]),
 P("T01", "K-fold training sets never leak around the test set",
   "In every split of the purged K-fold splitter the training and test sets are disjoint, no training sample lies within the purge distance after the test set or within the embargo distance before it in group units, and in look-forward mode no training sample lies after the test set starts.",
   "all sample counts, fold counts, purge/embargo distances, integer and timestamp groups with ties and gaps",
   "Leak-free separation is a universal statement over groups; the tests use consecutive integers.",
   [TB, KF], [("_purge, _embargo, _get_train_index_per_split", "train_test_split/_base.py, kfoldpe.py")],
   tech="abstract interpretation over symbolic sorted groups; order-region membership analysis",
   note="Static: the train/test index sets are interpreted as predicates over group values; membership is decided on every cell of the order arrangement of the symbolic group bounds."),
 P("T02", "K-fold test folds tile the samples and their count is reported",
   "The K-fold test sets are contiguous, do not split a group, and together cover every sample in order: fold sizes are those of numpy.array_split, and a group straddling a boundary goes whole to the earlier fold. The training set is everything else (everything earlier, in look-forward mode) apart from purged and embargoed samples. The reported number of splits equals the number yielded, which is the fold count, or one less in look-forward mode.",
   "all sample counts, fold counts and groups with ties", "Tests use small consecutive groups.",
   [KF, TB], [("_modify_fold_bounds", KF)],
   tech="abstract interpretation; set-algebra comparison with a reference splitter",
   note="Static: the fold bounds and index sets of each split are interpreted symbolically and compared with a reference splitter."),
 P("T03", "Walk-forward training always precedes testing by the embargo",
   "In every walk-forward split all training samples come before all test samples and are at least the embargo away from them, training windows start at the beginning (expanding) or cover the last window length (rolling), and no sample is in both sets, for integer and timestamp groups with gaps.",
   "all windows, embargoes and sorted groups with gaps and ties", "Tests use regular groups.",
   [WF, TB], [("split loop", WF)],
   tech="abstract interpretation of the split loop; order-region membership analysis",
   note="Static: the split loop is unrolled for the first splits; train/test membership of an arbitrary sample is expressed by group bounds and checked against the order constraints of sorted groups."),
 P("T04", "Walk-forward splits advance, terminate and are counted",
   "Successive walk-forward test sets do not overlap and move strictly forward until the data is exhausted, no empty training or test set is ever yielded, and the reported number of splits is the number yielded by the last complete split call (with a warning and zero before).",
   "all windows and groups, all call histories", "Termination and counting over histories are not sampled by the tests.",
   [WF], [("split loop and counters", WF)], over=["inputs", "histories"],
   tech="abstract interpretation of the split loop: progress, yield guards and counter typestate",
   note="Static: progress and the guards of each yield are compared for the first splits of the unrolled loop; counter writes are checked around every yield."),
 P("T05", "Invalid splitter settings and inputs are rejected",
   "Both splitters reject, before yielding anything, non-integer or negative purge and embargo lengths, fewer than two folds or more folds than samples, unknown window types, unsorted groups, wrongly typed data, and purge plus embargo that leave no training data.",
   "all constructor and split arguments", "Tests try a few bad values per argument.",
   [TB, KF, WF], [("validators", "train_test_split")], over=["inputs", "configurations"],
   tech="abstract interpretation: every path with a violated precondition ends in a raise of the documented kind",
   note="Static: each entry is interpreted with an argument from the invalid class; every path must end in a raise of the documented exception type and none may reach a yield."),
 P("D01", "Correlation distances equal their documented transforms",
   "For every correlation value or matrix the angular, absolute-angular and squared-angular distances are the documented square-root transforms, within 0..1, zero on the diagonal of a matrix and symmetric; pairwise forms use the Pearson correlation of the two series. Matrices that are not square, symmetric or of unit diagonal are rejected.",
   "all correlations in [-1,1] (with rounding overshoot), all matrices", "Tests check a few matrices.",
   [DC], [("_conversion_function, _convert_correlation_to_distance", DC)]),
 P("D02", "Information distances equal their entropy definitions",
   "Mutual information is H(x)+H(y)-H(x,y) and variation of information 2H(x,y)-H(x)-H(y), over histograms with the given or documented optimal number of bins, normalised on request by the geometric mean of marginal entropies and by the joint entropy respectively; the Kullback-Leibler divergence sums p*log(p/q) over bins where both are non-zero.",
   "all pairs of series, bin counts and normalisation options", "Tests check a few data sets.",
   [DI], [("compute_entropies, mutual_info, var_info, kl_divergence_xy", DI)]),
 P("D03", "Matrix divergences equal their definitions",
   "The log-determinant divergence is trace(PQ^-1) - log det(PQ^-1) - n and the von Neumann divergence is trace(P log P - P log Q - P + Q), for all positive definite matrices; matrices that are not positive definite are rejected.",
   "all pairs of square matrices", "Tests check a few matrices.",
   [DD], [("log_det_divergence, von_neuman_divergence", DD)]),
 P("D04", "Distance matrices are assembled entry by entry with their labels",
   "A distance matrix has in cell (i,j) and (j,i) the chosen distance of columns i and j, under the chosen correlation method or information measure and its options, and the documented diagonal; a data frame in gives a data frame out with the input's column names on both axes. Unknown method names are rejected.",
   "all data sets, methods and options", "Transposed or mislabelled cells agree on symmetric samples; tests use few options.",
   [DM, DC, DI], [("get_corr_distance_matrix, get_info_distance_matrix", DM)]),
 P("C01", "Clustering wires data, distance, linkage and cut together as configured",
   "Hierarchical clustering computes its distance from exactly the given data, correlation or distance and the configured methods, links it with the configured linkage, and cuts the same tree; choosing the number of clusters evaluates every candidate from 2 to the maximum and returns the documented selection for either criterion. Missing inputs and unknown methods are rejected.",
   "all inputs, methods, metrics and cluster counts", "Tests visit few option combinations.",
   [CH], [("HC, optimize_n_clusters", CH)], over=["inputs", "configurations"]),
 P("C02", "Gap statistic and silhouette score equal their definitions",
   "The gap statistic compares the log within-cluster dispersion with its mean over reference draws from a symmetric zero-diagonal uniform distance matrix and reports the spread over the draws; the silhouette score is the mean over the standard deviation of the samples' silhouettes on the given distances. Mismatched labels are rejected.",
   "all distances, labels, numbers of draws and seeds", "Tests check a couple of values.",
   [CM], [("gap_statistic, silhouette_tstat", CM)]),
 P("M01", "Covariance and correlation conversions are exact inverses of each other",
   "Covariance to correlation divides by the (regularised) standard deviations and clips to [-1,1], correlation to covariance multiplies them back, eigen-decomposition returns matched, sorted, truncated pairs and recomposition restores the matrix with unit diagonal, and block-diagonal correlation matrices carry each block's correlation in its own block.",
   "all matrices, sizes and truncations", "Tests check a few matrices.",
   [MC], [("conversion helpers", MC)]),
 P("M02", "Denoising replaces exactly the noise eigenvalues by their average",
   "Denoising keeps the k signal eigenvalues and replaces the rest by their mean, preserving the trace, where k is given or counted from the fitted Marchenko-Pastur edge; zero eigenvalues are enforced when there are fewer observations than assets, the density and its support follow the documented formula, and the denoised covariance keeps the original standard deviations. Invalid inputs are rejected.",
   "all matrices, numbers of observations, k given or fitted", "Tests check shapes and one matrix.",
   [MC], [("_eigen_values_denoise, _cor_denoise, _cov_denoise, _marchenko_pastur_*", MC)]),
 P("U01", "Frequency detection classifies calendars as documented",
   "The frequency of a time index is detected as yearly, quarterly, monthly, daily, business-daily or weekly by the documented rules in that order of precedence, tolerating at most two irregular points, and is undetermined for anything without a usable date index.",
   "all date indexes", "Tests use regular calendars; boundary irregularity is not sampled.",
   [UT], [("time_series_freq", UT)]),
 P("U02", "Frequency labels map to the documented year fractions",
   "Each supported frequency label maps to its documented fraction of a year (day 1/365, business day 1/252, week 7/365, month 1/12, quarter 1/4, year 1, for plain, start and end variants) and any other label to none; fitting uses that fraction when no step size is given.",
   "all labels", "Tests sample labels.",
   [UT, SB], [("time_series_freq_to_duration", UT)]),
 P("U03", "Logger configuration is idempotent and releases its resources",
   "Configuring the logger any number of times leaves exactly one stream handler, plus exactly one file handler if and only if the last call asked for a file, all at the requested level and format; previously installed handlers are removed and closed, and the file is opened only when asked for.",
   "all sequences of configuration calls", "Accumulating or leaking handlers only shows over sequences of calls.",
   [UL], [("configure_logger", UL)], over=["histories", "configurations"],
   tech="abstract interpretation of call histories over the handler list; resource typestate",
   note="Static: the handler list, handler levels and open/closed state are interpreted for symbolic options over repeated calls."),
 P("U04", "Dataset loaders read their own file and keep its index",
   "Each dataset loader returns the contents of its own packaged file, parsed with the first column as date index and without altering rows or values, renaming only the documented treasury maturities; a missing file is reported as such.",
   "all loaders, all package locations", "Tests check shapes of the packaged data.",
   [DL, UF], [("_load_csv_gz_to_df and loaders", DL)]),
 P("U05", "Input validators reject exactly the inputs they document",
   "The series/array and frame/array validators accept pandas and numpy inputs of the right dimension and size, whether passed by position or keyword, raise on anything else, check every named argument, skip arguments that are absent or none, and otherwise call through unchanged with the same arguments and result.",
   "all call forms and argument kinds", "Tests call by one form.",
   [UV, UD], [("validate_series_or_1Darray, validate_frame_or_2Darray", UV)], over=["inputs", "programs"],
   tech="abstract interpretation of the decorators over argument-kind classes",
   note="Static: decorated stand-in functions are interpreted for each argument kind and call form; the raise/return outcome and the forwarded arguments must match."),
 P("U06", "Typed-array annotations accept exactly matching data",
   "The array, series and data-frame type annotations accept a value exactly when its container kind, element type, number of dimensions, shape and column types match the annotation, return the value unchanged, and raise a type error otherwise.",
   "all annotations and values", "Tests sample mismatches.",
   [UC], [("__get_pydantic_core_schema__ validators", UC)], over=["inputs", "programs"]),
 P("G01", "No public function modifies its caller's data",
   "No public function or method of the library changes the arrays, series, frames, lists or dictionaries passed to it.",
   "all public functions, all inputs, all option combinations", "Tests rarely compare inputs before and after.",
   FEATF + [CUSUM, DC, DI, DM, DD, CH, CM, MC, SB, BM, GBM, OU, TB, KF, WF], [("copy-before-write", "all modules")],
   tech="alias and effect analysis: in-place writes must not reach caller-owned storage",
   note="Static: every in-place write reached by the interpreter is attributed to the storage it aliases; storage reachable from an argument must not be written."),
 P("G02", "Library calls leave global state alone",
   "Importing the library or calling it does not change process-wide state: warning filters, numpy error settings, pandas options, the global random generators, logging levels of the library or other loggers (except through the logger configuration call), environment, working directory or standard output. (The package's own logger receives its initial level at import, and the two private random-matrix helpers draw from numpy's global generator, as documented.)",
   "all imports and calls", "Tests do not look at global state.",
   FEATF + [CUSUM, DC, DI, DM, DD, CH, CM, MC, SB, BM, GBM, OU, QR, TB, KF, WF, UL, DL, UV, UT], [("module bodies and functions", "all modules")], over=["programs", "histories"],
   tech="effect analysis over every module body and function: writes to process-global state",
   note="Static: all call sites and attribute stores of the package are resolved; those that write process-global state are reported unless the function is the documented configuration call."),
 P("G03", "Every name, export and attribute used exists on every path",
   "Every exported name exists, every imported name is provided by the module it is imported from, no local variable can be read before assignment on any reachable path, no module-level name or attribute is used that is never defined, no function of the library is called with arguments it does not take, and every module can be imported first.",
   "all modules, all paths", "Rare branches are not executed by tests.",
   FEATF + [CUSUM, DC, DI, DM, DD, CH, CM, MC, SB, BM, GBM, OU, QR, TB, KF, WF, UL, DL, UV, UT, UC, UD, UF], [("__all__ lists and imports", "all packages")], over=["programs"],
   tech="scope, import, export, attribute and definite-assignment analysis over the syntax tree and over all interpreted paths",
   note="Static: symbol tables, import resolution (installed packages read from their sources), class-family attributes and flow-sensitive definite assignment over every function; path-sensitive reads, attributes and call signatures over every driven call."),
 P("G04", "Every documented option is dispatched and unknown options are rejected",
   "For each parameter that selects among named options (distance methods, correlation methods, cluster criteria, split types, time frequencies and the like) every documented option reaches its own behaviour, and any other value is rejected rather than silently treated as some option.",
   "all option-valued parameters, all strings", "Tests try one unknown value at most.",
   [DC, DM, CH, WF, SB, MACD, RSI, BASE], [("option dispatch", "all modules")], over=["configurations"],
   tech="abstract interpretation with a symbolic unknown option: every path must raise",
   note="Static: each option parameter is interpreted with a symbolic string different from every documented option; all paths must raise."),
 P("N01", "Fitted parameters converge to the true ones",
   "As the sample grows, parameters fitted to simulated paths converge to the parameters of the simulation for every model.",
   "all parameters, sample sizes and noise outcomes", "Convergence is a limit statement over random samples.",
   [BM, GBM, OU], [("_fit_np", "sim")],
   na="a limit theorem about estimators over random samples: its truth is probabilistic and no static argument over the source decides it (S01 and S03 decide that simulation and fitting use mutually inverse transition moments, which is the source-level part)"),
 P("N02", "Fitted Marchenko-Pastur variance maximises the likelihood",
   "The fitted noise variance is the maximiser of the Marchenko-Pastur likelihood of the eigenvalues over the admissible range.",
   "all eigenvalue spectra", "Optimality over a continuum is not testable by samples.",
   [MC], [("_marchenko_pastur_fit", MC)],
   na="the code maximises over a fixed grid of 1000 values; whether the grid maximum is the true maximiser depends on runtime spectra and a non-concave objective that no static bound in reach settles (M02 decides the objective, the grid and the selection rule)"),
 P("N03", "Packaged market data is accurate",
   "The packaged VIX, equity and treasury data equal the published historical values.",
   "all rows", "Needs the external source.",
   [DL], [("resources", "datasets/resources")],
   na="a statement about data files against an external source, not about code"),
]
NA = []
