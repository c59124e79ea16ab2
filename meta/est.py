Q_E = {"over": ["inputs"], "text": "every claims triangle in the specification's domain (any grain, shape, holes, negative amounts, index and column labels, either backend) and every parameter combination; explored by seeded random sessions"}
PROPS = [
 dict(id="C12", title="Selected age-to-age factors follow the stated averages and exclusions",
  statement="Development selects for every index row, column and age the volume-weighted, simple or regression average of exactly those observed link ratios that the user did not exclude: the latest n_periods origins' worth of diagonals, no dropped origin/age pair, no dropped valuation, without the stated number of highest and lowest ratios and the ratios beyond the thresholds, unless fewer than `preserve` ratios would remain. Per-age lists apply age by age, grouping fits the summed rows, age-to-ultimate factors are the products of the later age-to-age factors, and sigma, standard errors and standardised residuals are those of the same weighted regression.",
  quantifier=Q_E,
  why_tests_cant="exclusions interact (which ratio ranks highest depends on n_periods, preserve overrides them) on triangles of any shape; the tests compare a handful of parameter settings on complete sample triangles",
  anchors={"files": ["chainladder/development/development.py", "chainladder/development/base.py", "chainladder/utils/weighted_regression.py"], "mechanism": [{"name": "Development.fit", "where": "development/development.py"}, {"name": "_assign_n_periods_weight, _drop_adjustment, _drop_n, _drop_x, _drop, _drop_valuation", "where": "development/base.py"}, {"name": "WeightedRegression", "where": "utils/weighted_regression.py"}], "observe_at": ["Development.fit", "ldf_, cdf_, sigma_, std_err_, std_residuals_"], "hook_needed": None},
  note="Used/Slope/Mse/Resid of Dev.tla are the oracle for every fit; equal link ratios and ratios on a threshold are left open (either ranking is right)."),
 dict(id="C13", title="Age-to-age and age-to-ultimate patterns are two views of one thing",
  statement="Link ratios are the ratio of each cumulative amount to the one before it, wherever both are known. A development pattern read as age-to-age factors or as age-to-ultimate factors describes the same development: converting between the views multiplies the later factors or divides neighbouring ones, either conversion undoes the other, neither moves the ages, and a user-supplied pattern (DevelopmentConstant) of either kind is reproduced at exactly the ages asked for; the same holds for patterns of tail estimators and patterns carried by a transformed triangle.",
  quantifier=Q_E,
  why_tests_cant="the identity has to hold for every pattern: one age or many, missing factors, negative development, per row and column, before and after a tail, in either backend; the tests convert one or two sample patterns",
  anchors={"files": ["chainladder/core/triangle.py", "chainladder/core/common.py", "chainladder/development/constant.py"], "mechanism": [{"name": "link_ratio, incr_to_cum, cum_to_incr for patterns", "where": "core/triangle.py"}, {"name": "cdf_ / ldf_ derivation", "where": "core/common.py"}, {"name": "DevelopmentConstant.fit", "where": "development/constant.py"}], "observe_at": ["Triangle.link_ratio", "ldf_ and cdf_ of every estimator", "incr_to_cum, cum_to_incr of patterns"], "hook_needed": None},
  note="Accumulation of patterns is IncrToCum/CumToIncr of Tri.tla on pattern triangles; link ratios are Link of Dev.tla. Patterns whose factors exceed 1e50 are left open."),
 dict(id="C14", title="Chain-ladder projections are the latest amounts developed by the pattern",
  statement="The chain-ladder ultimate of every cell is its latest observed cumulative amount times the age-to-ultimate factor at that origin's age, and IBNR is ultimate less latest. The completed triangle equals the observed one wherever there is data and runs off to exactly the ultimate by the pattern; the expected triangle is the ultimate spread back by the pattern. It makes no difference whether the triangle was given cumulative or incremental, by age or by valuation, sparse or dense, or how its rows are ordered, and the triangle supplied is not altered.",
  quantifier=Q_E,
  why_tests_cant="row, origin, age and valuation alignment of patterns against triangles of any shape, grain, ordering and backend; the tests compare totals of complete sample triangles",
  anchors={"files": ["chainladder/methods/base.py", "chainladder/methods/chainladder.py", "chainladder/core/common.py"], "mechanism": [{"name": "Chainladder.fit", "where": "methods/chainladder.py"}, {"name": "_align_cdf, validate_X", "where": "methods/base.py"}, {"name": "full_triangle_, full_expectation_, ibnr_", "where": "core/common.py"}], "observe_at": ["Chainladder.fit"], "hook_needed": None},
  note="CLUlt, IbnrTri, CompleteTri and ExpectTri of Method.tla compute every attribute of every fit."),
 dict(id="C15", title="Exposure-based methods credit expected losses for what is not yet reported",
  statement="With a priori expected losses (exposure times apriori), ExpectedLoss returns them as ultimate, BornhuetterFerguson adds to the latest amounts the expected losses times the unreported share one minus the reciprocal of the age-to-ultimate factor, and Benktander repeats that step n_iters times from the expected losses, so zero iterations is ExpectedLoss, one is BornhuetterFerguson. Exposure is matched to losses by row label, by column (one exposure column serves all) and by origin, whatever its order or backend.",
  quantifier=Q_E,
  why_tests_cant="needs every number of iterations, broadcast and ordering of exposures against losses; the tests check one or two iteration counts on one exposure vector",
  anchors={"files": ["chainladder/methods/benktander.py", "chainladder/methods/bornferg.py", "chainladder/methods/expectedloss.py", "chainladder/methods/base.py"], "mechanism": [{"name": "Benktander._get_benktander_aprioris, fit", "where": "methods/benktander.py"}, {"name": "_align_cdf", "where": "methods/base.py"}], "observe_at": ["fit of ExpectedLoss, BornhuetterFerguson, Benktander"], "hook_needed": None},
  note="BkUlt of Method.tla is the recursion in exact arithmetic."),
 dict(id="C16", title="Cape Cod loss ratios are decayed averages of developed, trended experience",
  statement="Cape Cod's a priori for an origin is the average over all origins of the developed and trended latest amounts relative to exposure, weighted by exposure reported so far times decay to the distance in origins; the detrended a priori undoes the trend, and the ultimate is the Benktander recursion started from exposure times the detrended a priori. Rows of losses, exposure and pattern are paired by label.",
  quantifier=Q_E,
  why_tests_cant="the result depends on every origin at once and on trend distance, decay power and row pairing; the tests check one sample and the decay=1 and decay=0 limits",
  anchors={"files": ["chainladder/methods/capecod.py"], "mechanism": [{"name": "CapeCod._get_capecod_aprioris", "where": "methods/capecod.py"}], "observe_at": ["CapeCod.fit: apriori_, detrended_apriori_, ultimate_, ibnr_"], "hook_needed": None},
  note="CapeCod of Method.tla. Trend and on-level factors carried by the triangle are left open."),
 dict(id="C17", title="Tail factors extend the pattern and leave the observed part of it alone",
  statement="A tail estimator leaves the fitted factors before its attachment age as they were, and appends development whose product is the tail: the constant given, decayed over the projection period, or the exponential or inverse-power curve fitted by least squares to the logarithm of the development factors in the stated fit period and thresholds, applied from the attachment age and extrapolated for extrap_periods. Rows and columns are fitted separately, the ages appended are the projection period at the triangle's own grain, and standard errors and sigmas are extended along with the factors.",
  quantifier=Q_E,
  why_tests_cant="fit windows, thresholds, attachment ages and grains interact, and each row and column has its own curve; the tests compare a few parameter settings with R on single triangles",
  anchors={"files": ["chainladder/tails/base.py", "chainladder/tails/curve.py", "chainladder/tails/constant.py"], "mechanism": [{"name": "TailBase.fit, _get_tail_stats", "where": "tails/base.py"}, {"name": "TailCurve.fit", "where": "tails/curve.py"}, {"name": "TailConstant.fit", "where": "tails/constant.py"}], "observe_at": ["fit of TailConstant, TailCurve: ldf_, cdf_, tail_, sigma_, std_err_"], "hook_needed": None},
  note="TailFit of Method.tla. Curves that diverge beyond 1e200 are left open; a TailBondy specification is not yet written."),
 dict(id="C18", title="A fitted estimator depends on its parameters and its last fit only",
  statement="Whatever the history of fits, predictions, transformations, clones and parameter changes: fitting again forgets earlier fits, equals fitting a fresh estimator of the same parameters, and keeps the parameters as given; predicting and transforming change neither the estimator nor the triangles passed in, carry the fitted pattern to the new triangle unchanged, and project it from its own latest amounts; a clone has the same parameters and nothing fitted, and neither shares state with the other; a parameter change has effect at the next fit and not before.",
  quantifier={"over": ["histories", "inputs"], "text": "every history of fit, predict, transform, clone and set_params over two estimators, two triangles and two parameter settings up to the explored depth, for Development, DevelopmentConstant, TailConstant, TailCurve, Chainladder, BornhuetterFerguson, Benktander, ExpectedLoss, CapeCod"},
  why_tests_cant="it is a statement about histories: leaking state shows only when an estimator is fitted twice, cloned after fitting, or used on a second triangle; the tests fit once",
  anchors={"files": ["chainladder/development/base.py", "chainladder/tails/base.py", "chainladder/methods/base.py", "chainladder/core/io.py"], "mechanism": [{"name": "fit, transform, predict of all estimators", "where": "development, tails, methods"}, {"name": "get_params, set_params, clone", "where": "core/io.py (EstimatorIO), sklearn BaseEstimator"}], "observe_at": ["every estimator and triangle of the session after every call"], "hook_needed": None},
  note="Life.tla enumerates the histories (invariants Sound, ReadOnly); Est.tla's ExpectE says what each call must give."),
 dict(id="C21", title="Mack's standard errors follow his recursion for every row",
  statement="MackChainladder projects exactly as Chainladder does and adds standard errors: parameter and process risk are zero where the amount is known and grow age by age as risk'^2 = (amount x error)^2 + (factor x risk)^2, from the pattern's standard error and from sigma scaled to the averaging used; over all origins the parameter errors of a factor add up before squaring while process errors add up in squares, and the total is the root of the sum of both. Each row and column has its own errors, one row's data or exclusions never reach another's, and a pattern without sigma is refused.",
  quantifier=Q_E,
  why_tests_cant="the recursion depends on averages by age, exclusions, tails, negative and missing amounts, row by row; the tests compare totals of single sample triangles with R",
  anchors={"files": ["chainladder/methods/mack.py"], "mechanism": [{"name": "_mack_recursion, _get_full_std_err_, _get_tot_param_risk", "where": "methods/mack.py"}], "observe_at": ["MackChainladder.fit: parameter_risk_, process_risk_, mack_std_err_, total_*, full_std_err_, summary_"], "hook_needed": None},
  note="Mack.tla is the recursion with exact squares; degenerate sigmas (flat development, one link ratio) and sigmas extrapolated beyond 1e12 are left open, as are incremental triangles."),
]
