"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
U = "pyvallocation/utils/"
K = "pyvallocation/"
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=(), na=None, note="", technique=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  observe=list(observe), na=na, note=note, technique=technique))


prop("P01", "Constraint specifications admit exactly the portfolios they describe",
     "The linear system built from a constraint specification (long-only flag, per-asset bounds in any accepted form with open sides, pairwise relative bounds, group limits, extra linear rows, total weight) is satisfied by a weight vector exactly when the vector obeys every stated rule and no other. Building it from the object, the dictionary form or the keyword form gives the same feasible set.",
     ["inputs", "configurations"], "all bound/cap/budget values and all weight vectors, over every combination of constraint kinds",
     "Tests sample a few specifications and look at matrix shapes or one optimum; a dropped, flipped or misplaced row changes only some specifications and some weight vectors.",
     [U + "constraints.py"], [("constraint matrix builder", U + "constraints.py:build_G_h_A_b"), ("constraint spec object", U + "constraints.py:Constraints")])

prop("P02", "VaR and CVaR are the exact tail measures of the scenario distribution",
     "For any weighted scenario set the reported CVaR equals the minimum over thresholds of threshold plus expected excess loss divided by the tail probability (splitting the scenario at the boundary), and the reported VaR is the matching loss quantile. Both are reported as positive losses, computed per portfolio column, unaffected by scenario order, and demeaning shifts them by exactly the mean P&L.",
     ["inputs"], "all scenario values, probabilities, weights and confidence levels (bounded number of scenarios, assets, portfolios)",
     "Tests evaluate fixed samples at 0.95; ties, boundary mass, unequal probabilities and tiny tails are quantified over all distributions.",
     [U + "functions.py"], [("CVaR", U + "functions.py:portfolio_cvar"), ("VaR", U + "functions.py:portfolio_var")])

prop("P03", "Weighted moments and portfolio mean/variance are first-principles exact",
     "Sample moments under scenario probabilities equal the probability-weighted mean and centred second moment (exponentially weighted moments likewise with geometrically decaying weights), so the covariance is symmetric positive semidefinite. Portfolio variance and volatility of one or many weight columns equal the quadratic form of those weights.",
     ["inputs"], "all scenario values, probabilities, decay parameters, weights (bounded sizes)",
     "Tests compare one random sample with numpy; weighting, centring and column-pairing errors survive on symmetric or uniform samples.",
     [K + "moments.py", U + "functions.py"], [("weighted sample moments", K + "moments.py:estimate_sample_moments"), ("EWMA covariance", K + "moments.py:covariance_ewma"), ("portfolio variance", U + "functions.py:portfolio_variance")])

prop("P04", "Scenario probabilities are always a valid, faithful distribution",
     "Resolving user probabilities yields non-negative weights summing to one that are proportional to the input, and rejects negative, zero-mass or wrong-length input. Exponential-decay weights halve per half-life with the latest scenario heaviest, kernel weights decrease with distance from the target state, and the effective number of scenarios lies between one and the number of scenarios, reaching it only for uniform weights.",
     ["inputs"], "all probability vectors, half-lives, state series, bandwidths and targets (bounded number of scenarios)",
     "Tests check sums on a few vectors; proportionality, monotone decay and the ENS bounds are universally quantified.",
     [K + "probabilities.py"], [("probability resolution", K + "probabilities.py:resolve_probabilities"), ("generators", K + "probabilities.py:generate_exp_decay_probabilities"), ("effective number of scenarios", K + "probabilities.py:compute_effective_number_scenarios")])

prop("P05", "Labelled inputs are matched by label, never by position",
     "When weights, prices, lot sizes, trading costs, initial holdings, priors, views, sample weights or ensemble scenario probabilities carry labels, every entry is applied to the asset, scenario or sample with the same label whatever its order, so permuting a labelled input never changes a result. A required label that is missing is rejected instead of silently misaligned.",
     ["inputs", "configurations"], "all values and all permutations of labels (bounded number of labels), across every entry point that accepts labelled data",
     "Tests use inputs already in the right order or one swapped example; a positional fallback in one entry point is invisible to them.",
     [U + "performance.py", U + "weights.py", K + "stress.py", K + "portfolioapi.py", K + "discrete_allocation.py", K + "probabilities.py"],
     [("performance alignment", U + "performance.py:scenario_pnl"), ("stress alignment", K + "stress.py:_align_weights"), ("sample weight alignment", U + "weights.py:normalize_weights"), ("discrete input alignment", K + "discrete_allocation.py:DiscreteAllocationInput")])

prop("P06", "Performance reports agree with the scenario distribution they summarise",
     "A performance report's mean, standard deviation, VaR, CVaR and effective scenario count are those of the probability-weighted P&L of the given weights on the given scenarios, and a horizon report applies the same definitions to every compounded horizon. Drawdowns along simulated paths are measured from the running peak including the start, are never negative, and their summary statistics are ordered.",
     ["inputs"], "all weights, scenario values, probabilities and paths (bounded sizes)",
     "Tests check a couple of numbers on one sample; the agreement must hold for every weight vector and path.",
     [U + "performance.py"], [("scenario P&L", U + "performance.py:scenario_pnl"), ("report", U + "performance.py:performance_report"), ("drawdowns", U + "performance.py:drawdown_quantile")])

prop("P07", "Horizon projection and log/simple conversions are exact and invertible",
     "Projecting moments multiplies mean and covariance by the horizon; converting log-return moments to simple-return moments follows the lognormal identities, and converting back recovers the original for every positive gross mean. A bootstrapped scenario is always the sum of exactly as many historical rows as the horizon, drawn with the given probabilities, and a simulated path's last step equals that sum while every step adds exactly one historical row.",
     ["inputs", "schedules"], "all moments, horizons, scenario rows and every possible draw of the random generator (bounded sizes)",
     "Tests see one seed and one set of moments; the identities hold for every draw and every moment pair.",
     [U + "projection.py"], [("moment projection", U + "projection.py:project_mean_covariance"), ("log/simple conversion", U + "projection.py:log2simple"), ("bootstrap", U + "projection.py:project_scenarios"), ("paths", U + "projection.py:simulate_paths")])

prop("P08", "Repricing maps each instrument to its own risk drivers",
     "Composed repricing applies each instrument's pricing rule to exactly the named risk-driver columns, in the order named, and returns one column per instrument in declaration order whatever the column order of the drivers. The exponential, Taylor and full-repricing rules return the value change implied by the driver change, which is zero for a zero change when there is no time decay.",
     ["inputs", "configurations"], "all driver values, sensitivities, column orders and instrument-to-driver maps (bounded sizes)",
     "Tests use one mapping in natural order with instruments equal to drivers.",
     [U + "projection.py"], [("composition", U + "projection.py:compose_repricers"), ("Taylor", U + "projection.py:reprice_taylor"), ("full repricing", U + "projection.py:make_repricing_fn")])

prop("P09", "Covariance sanitising yields symmetric PSD and never alters a valid matrix",
     "The covariance sanitiser returns a symmetric positive semidefinite matrix for every square input, returns a valid one unchanged up to symmetrisation, and reports positive semidefiniteness exactly when no eigenvalue is meaningfully negative. Cholesky factors used downstream multiply back to the matrix they were given (plus at most the documented jitter).",
     ["inputs"], "all symmetric and asymmetric matrices of bounded size",
     "Tests try two or three matrices; near-singular, indefinite and asymmetric inputs are a continuum.",
     [U + "validation.py", K + "bayesian.py"], [("PSD repair", U + "validation.py:ensure_psd_matrix"), ("PSD test", U + "validation.py:is_psd"), ("Cholesky", K + "bayesian.py:_cholesky_pd")])

prop("P10", "Greedy discretisation never overspends and accounts for every unit of cash",
     "The greedy discrete allocation buys whole multiples of each asset's lot size, never buys assets with no target, and never spends more than the portfolio value. Reported cash plus the value of the reported shares always equals the portfolio value, and achieved weights and tracking error are those of the reported shares.",
     ["inputs"], "all prices, target weights, lot sizes and portfolio values (bounded number of assets and lots)",
     "Tests run a few price vectors; overspending by one lot needs particular roundings of price, weight and value.",
     [K + "discrete_allocation.py"], [("greedy allocator", K + "discrete_allocation.py:_greedy_allocation"), ("result accounting", K + "discrete_allocation.py:_build_result")])

prop("P11", "Optimal discretisation minimises tracking error within budget",
     "The optimisation-based discrete allocation hands the integer solver a program whose feasible points are exactly the affordable whole-lot portfolios (no asset held against its target's sign) and whose objective is the total absolute deviation between target and achieved position values plus unspent cash, so no affordable whole-lot portfolio needed to match the targets is excluded. The returned shares are the solver's lots times lot size, with cash, value and weights accounted for them.",
     ["inputs"], "all prices, target weights (long and short), lot sizes and values (bounded number of assets)",
     "Tests look at a few optima; a wrong coefficient, bound or sign changes the optimum only for particular inputs.",
     [K + "discrete_allocation.py"], [("MILP formulation", K + "discrete_allocation.py:_milp_allocation")])

prop("P12", "Mean-variance portfolios solve exactly the stated program",
     "The mean-variance optimiser minimises portfolio variance plus the stated quadratic trading cost over exactly the feasible set and, when given, above the return target. Its frontier starts at the minimum-risk portfolio, ends at the maximum feasible return and uses equally spaced return targets in between.",
     ["inputs", "configurations"], "all means, covariances, costs, initial weights, constraints, targets, and every optimal answer the solver may return (bounded assets)",
     "Tests check a few optima with loose tolerances; a factor or sign error in one block shifts optima only when that block binds.",
     [K + "optimization.py"], [("MV program", K + "optimization.py:MeanVariance"), ("frontier sweep", K + "optimization.py:_FrontierMixin")])

prop("P13", "The maximum-Sharpe portfolio is feasible and unbeaten",
     "The direct maximum-Sharpe portfolio satisfies every user constraint and has the highest ratio of excess return to volatility among all feasible portfolios with positive excess return. Its reported return and risk are those of its weights.",
     ["inputs", "configurations"], "all means, covariances, risk-free rates and constraint systems (bounded assets), and every optimal answer of the solver",
     "Tests use the long-only budget constraint only; caps, floors and group limits are where a homogenised program goes wrong.",
     [K + "optimization.py"], [("Sharpe program", K + "optimization.py:MeanVariance.max_sharpe")])

prop("P14", "Mean-CVaR portfolios solve exactly the stated program",
     "The mean-CVaR optimiser minimises the exact scenario CVaR plus proportional trading cost over exactly the feasible set and, when given, above the return target. Its frontier starts at the minimum-risk portfolio and ends at the maximum feasible return.",
     ["inputs", "configurations"], "all scenarios, probabilities, tail levels, costs, initial weights, constraints and targets (bounded sizes)",
     "Tests check shapes and monotonicity; the equivalence of the linear program with the CVaR definition is universally quantified.",
     [K + "optimization.py"], [("CVaR program", K + "optimization.py:MeanCVaR")])

prop("P15", "Robust portfolios optimise the worst case over the stated ellipsoid",
     "The robust optimiser maximises expected return minus penalty times the uncertainty norm of the weights (the square root of the quadratic form in the uncertainty matrix) minus proportional trading cost over exactly the feasible set, with the radius cap when requested. The reported return and uncertainty radius are those of the returned weights.",
     ["inputs", "configurations"], "all means, positive definite uncertainty matrices, penalties, caps, costs and constraints (bounded assets)",
     "Tests use diagonal or nearly diagonal uncertainty and check monotonicity; correlated uncertainty exposes a wrong matrix factor.",
     [K + "optimization.py", K + "bayesian.py"], [("robust SOCP", K + "optimization.py:RobustOptimizer")])

prop("P16", "Relaxed risk parity solves exactly the stated cone program",
     "The relaxed risk parity optimiser minimises the gap between the average-risk ceiling and the risk-contribution floor over fully invested long-only portfolios obeying the user constraints and return target, where the ceiling dominates portfolio volatility and the regulator dominates the diagonal penalty. Return targets above the attainable maximum are clipped to it, and every asset's risk contribution is at least its budget share of the squared floor.",
     ["inputs", "configurations"], "all means, covariances, budgets, regulators, targets and constraints (bounded assets)",
     "Tests check equal-risk on diagonal or mild covariances within loose tolerance.",
     [K + "optimization.py"], [("risk parity SOCP", K + "optimization.py:RelaxedRiskParity")])

prop("P17", "Frontier selectors return the best matching frontier portfolio",
     "Selecting a frontier portfolio by minimum risk, maximum return, tangency, risk cap, return floor, nearest risk or risk percentile returns a portfolio that is on the frontier, satisfies the requested condition, and is not beaten by another frontier portfolio on the selector's objective, under the requested risk measure. The weights, return and risk returned all belong to that same portfolio.",
     ["inputs"], "all frontier returns, risks, weights and thresholds (bounded number of points)",
     "Tests query one or two thresholds on monotone frontiers; ties, unsorted frontiers, alternate risk measures and off-grid thresholds are unexplored.",
     [K + "portfolioapi.py"], [("frontier selectors", K + "portfolioapi.py:PortfolioFrontier")])

prop("P18", "Reported return and risk always belong to the reported weights",
     "Every frontier and single portfolio produced by the portfolio wrapper reports, column by column, the return and risk (variance, CVaR or estimation risk as labelled) of exactly the weights in that column, in the reporting (simple-return) space; where the documented frontier-shape correction smooths CVaR, the exact value stays available as the raw risk. Per-call constraints and costs apply to that call only and leave the wrapper unchanged.",
     ["inputs", "configurations"], "all distributions, weights the optimiser may return, costs and constraints (bounded sizes)",
     "Tests recompute numbers for one optimum; any reordering, sign folding or space mix-up shows only for particular optima.",
     [K + "portfolioapi.py"], [("frontier assembly", K + "portfolioapi.py:PortfolioWrapper")])

prop("P19", "Normal-inverse-Wishart updating matches the conjugate formulas",
     "Updating a normal-inverse-Wishart prior with sample statistics yields the conjugate posterior: confidence counts add, the posterior mean is the count-weighted average, and the posterior scale adds prior scale, sample scatter and the mean-disagreement term. The derived estimators of location, its uncertainty and dispersion are the stated closed forms, symmetric and positive definite for positive definite inputs.",
     ["inputs"], "all prior parameters and sample statistics (bounded assets)",
     "Tests check a couple of numeric updates; every coefficient must be right for every count and disagreement.",
     [K + "bayesian.py"], [("NIW update", K + "bayesian.py:NIWPosterior.update"), ("estimators", K + "bayesian.py:NIWPosterior")])

prop("P20", "Robust Bayesian containers keep posterior quantities consistent",
     "A robust posterior built from any accepted source exposes mean, scatter and predictive covariance that agree with the posterior it was built from, before and after horizon scaling, and its credibility radii are the chi-square radii of that posterior. Nothing is updated or scaled twice.",
     ["inputs", "configurations", "histories"], "all posteriors, horizons and credibility levels (bounded assets)",
     "Tests check one construction path; consistency across constructors and repeated use is quantified.",
     [K + "bayesian.py"], [("robust posterior", K + "bayesian.py:RobustBayesPosterior"), ("radii", K + "bayesian.py:NIWPosterior.cred_radius_mu")])

prop("P21", "Views compile to exactly the stated conditions on the distribution",
     "Every mean, volatility, variance, correlation, skew, rank and quantile view compiles to linear conditions satisfied by a probability vector exactly when the stated moment, ranking or quantile statement holds for that distribution (second and higher moments taken around the stated or prior mean). Inequalities keep their direction, strict and closed forms and ranges included, and each view refers to the asset named.",
     ["inputs", "configurations"], "all scenario values, view values and probability vectors (bounded sizes), over every view kind and comparison form",
     "Tests assert a few posterior means; a flipped comparison or wrong asset index shows only for specific views.",
     [K + "views.py"], [("view parsing", K + "views.py:FlexibleViewsProcessor._parse_view"), ("constraint compilation", K + "views.py:FlexibleViewsProcessor._build_constraints")])

prop("P22", "Entropy pooling solves the minimum relative entropy problem",
     "The entropy-pooling routine returns the normalised exponential tilt of the prior along the view conditions; its dual objective and gradient are exactly the Lagrange dual of relative-entropy minimisation, and multipliers of inequality views carry the sign that makes them one-sided. At a stationary point the posterior satisfies the view conditions, and without views the posterior is the prior.",
     ["inputs"], "all priors, condition matrices, right-hand sides and multipliers (bounded sizes)",
     "Tests check convergence on a few problems; a gradient or sign error may still converge on easy ones.",
     [K + "views.py"], [("dual objective", K + "views.py:_entropy_pooling_dual_objective"), ("solver wrapper", K + "views.py:entropy_pooling")])

prop("P24", "Black-Litterman posteriors satisfy the Bayesian update equations",
     "For every prior, pick matrix, view vector, view uncertainty and scaling, the posterior mean and covariance solve the Bayesian normal update; with no views the prior is returned, and scaling or permuting a view row together with its target and uncertainty changes nothing. Named views pick the named assets with the stated signs, and stated confidences map monotonically to view uncertainty.",
     ["inputs", "configurations"], "all priors, views, confidences and scalings (bounded assets and views)",
     "Tests check one formula instance and directional effects.",
     [K + "views.py"], [("BL processor", K + "views.py:BlackLittermanProcessor")])

prop("P25", "Mean shrinkage moves estimates toward the target and never past it",
     "Shrunk means lie between the sample mean and the shrinkage target with an intensity between zero and one equal to the documented formula, and equal the sample mean when there is nothing to shrink. Robust location estimators stay within the range of the data and equal the plain mean when no observation is clipped or there is a single block.",
     ["inputs"], "all sample means, covariances, sample sizes, targets and data (bounded sizes)",
     "Tests check one data set.",
     [K + "moments.py"], [("Jorion", K + "moments.py:shrink_mean_jorion"), ("James-Stein", K + "moments.py:shrink_mean_james_stein"), ("Huber", K + "moments.py:robust_mean_huber")])

prop("P26", "Covariance shrinkage is a convex, trace-faithful PSD combination",
     "Shrinkage covariances are convex combinations of the sample covariance and the documented target with an intensity between zero and one, hence symmetric, positive semidefinite and faithful to the sample trace or variances where the target is. Factor-based estimates keep sample variances and add only a thresholded symmetric residual.",
     ["inputs"], "all return samples (bounded sizes) and options",
     "Tests check eigenvalues and shapes on random samples.",
     [K + "moments.py"], [("Ledoit-Wolf", K + "moments.py:shrink_covariance_ledoit_wolf"), ("OAS", K + "moments.py:shrink_covariance_oas"), ("POET", K + "moments.py:factor_covariance_poet")])

prop("P27", "Ensemble averaging and exposure stacking return convex blends as defined",
     "Averaging returns the weighted average of the sample portfolios with weights normalised to one, and exposure stacking returns the blend with non-negative weights summing to one that minimises the stated cross-validated objective over folds that partition all samples. Blending therefore preserves every linear constraint shared by the samples.",
     ["inputs"], "all sample matrices, sample weights and fold counts (bounded sizes)",
     "Tests check two small panels.",
     [K + "ensembles.py", U + "weights.py"], [("average", K + "ensembles.py:average_exposures"), ("stacking", K + "ensembles.py:exposure_stacking")])

prop("P28", "Ensemble assembly uses the requested portfolio of every model, repeatably",
     "Assembling an ensemble evaluates each model once, picks from its frontier exactly the portfolio its selector describes, keeps models and assets in order and labelled, and blends those portfolios (or the requested frontier column, by default the minimum-risk one). Using the same specification again gives the same selection.",
     ["inputs", "histories", "configurations"], "all frontiers, selectors, options and repeated uses (bounded sizes)",
     "Tests use each specification once with default options.",
     [K + "ensembles.py"], [("assembly", K + "ensembles.py:assemble_portfolio_ensemble"), ("selectors", K + "ensembles.py:_build_selector"), ("collection", K + "ensembles.py:_collect_samples")])

prop("P29", "Stress tests compare the same portfolio under nominal and stressed worlds",
     "Every nominal metric in a stress report is computed from the nominal scenarios and probabilities, every stressed metric from the transformed scenarios and stressed probabilities, for the same weights; an identity stress changes nothing. The reported divergence is the relative entropy of stressed versus nominal probabilities, and a linear stress maps each scenario by matrix, then scale, then shift.",
     ["inputs", "configurations"], "all weights, scenarios, probabilities and linear maps (bounded sizes)",
     "Tests check a few columns on one sample.",
     [K + "stress.py"], [("stress test", K + "stress.py:stress_test"), ("linear map", K + "stress.py:linear_map"), ("invariant stress", K + "stress.py:stress_invariants")])

prop("P30", "Computations never modify the caller's data",
     "No estimator, optimiser, projection, view, allocation or reporting routine changes the arrays, tables or dictionaries it is given, and repeating a call with the same inputs gives the same answer.",
     ["inputs", "histories"], "all input values, for every public entry point reachable with bounded symbolic inputs",
     "Tests almost never look at their inputs after a call; aliasing bugs corrupt later calls only.",
     [K + "moments.py", K + "views.py", U + "functions.py", U + "performance.py", K + "portfolioapi.py", K + "discrete_allocation.py", K + "ensembles.py"],
     [("array copies at entry points", K + "views.py:BlackLittermanProcessor"), ("constraint override isolation", K + "portfolioapi.py:PortfolioWrapper")])

prop("P31", "Distributions reject inconsistent inputs and keep scenarios and moments aligned",
     "A distribution built from scenarios derives its moments from exactly those scenarios and probabilities; one built from moments keeps them and the asset names as given, matched by label. Shapes, probabilities or labels that disagree are rejected at construction. Every wrapper factory (moments, scenarios, prices, invariants, robust posterior) builds that distribution from its documented data and carries names, constraints and costs over.",
     ["inputs", "configurations"], "all scenario tables, probabilities and moment pairs (bounded sizes)",
     "Tests check one or two rejections.",
     [K + "portfolioapi.py"], [("distribution container", K + "portfolioapi.py:AssetsDistribution"), ("wrapper factories", K + "portfolioapi.py:PortfolioWrapper.from_scenarios")])

prop("P32", "Price tables convert to the returns of the right column and period",
     "Converting a price table yields one row per step between consecutive prices and one column per requested price column, in the requested order: log returns (the default) are the logarithm of the price ratio, simple returns the relative change. Date columns and index levels are never taken for prices. A return with a missing price at either end is missing and filled as asked: with the last known return before it (ffill, the default), the next one after it (bfill), zero, or by dropping the row; what is still missing is zero. Unknown methods and columns are rejected and the table is left unchanged. Labelling a weight vector keeps every weight with its own name.",
     ["inputs"], "all price tables (bounded sizes, gaps at several places)",
     "There are no tests of gaps, column order or index levels for arbitrary prices.",
     [K + "utils/data_helpers.py"], [("price conversion", K + "utils/data_helpers.py:pandas_to_numpy_returns"), ("labelling", K + "utils/data_helpers.py:numpy_weights_to_pandas_series")])

prop("P33", "Plots show the data they are given",
     "Every plotting helper hands the figure exactly what it is asked to show: frontier curves are the frontier's risk (of the requested measure) against its returns, one per frontier under that frontier's label; a highlighted portfolio lies at the risk and return of the selection it is named after, on the drawn curve; a grid draws every frontier once, in its group's panel; weight bars carry every asset's weight under its own name, per portfolio; parameter plots put each column's own parameter, risk and return together; and the report's weights, mark and selection are those of one and the same portfolio, computed with the caller's options (risk label, risk-free rate, rows). Percent formatting goes on axes that carry quantities, not names. Unknown keys and missing data are refused, and nothing given is altered.",
     ["inputs", "configurations"], "all frontiers, weights and parameters (bounded sizes)",
     "Tests only check that a figure is produced for one frontier.",
     [K + "plotting.py"], [("frontier plot", K + "plotting.py:plot_frontiers"), ("frontier grid", K + "plotting.py:plot_frontiers_grid"), ("weights plot", K + "plotting.py:plot_weights"), ("report", K + "plotting.py:plot_frontier_report")],
     observe=["the drawing calls handed to Matplotlib"])

prop("P90", "Iterative estimators and solvers converge to their fixed points in floating point",
     "Every iterative routine (Tyler scatter, graphical lasso, Huber location, interior-point and simplex solves, entropy-pooling search) converges to the mathematical solution within its stated tolerance for every admissible input.",
     ["inputs"], "all admissible inputs of any size",
     "Tests run a handful of inputs.", [K + "moments.py", K + "optimization.py", K + "views.py"], [("Tyler iteration", K + "moments.py:robust_covariance_tyler")],
     na="unbounded floating-point iteration, and compiled third-party solvers (CVXOPT, GLPK, HiGHS, L-BFGS) that cannot be encoded; the programs handed to them are decided under P11-P16, P22 instead")
prop("P92", "Bootstrapped scenario sets reproduce the historical distribution in the limit",
     "As the number of simulations grows, the moments of projected scenarios converge to the horizon-scaled moments of the historical distribution.",
     ["inputs"], "all scenario sets and seeds", "Tests use one seed.", [U + "projection.py"], [("bootstrap", U + "projection.py:project_scenarios")],
     na="a limit statement about a random generator; only the per-draw structure is decidable symbolically, and is decided under P07")


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            d = dict(id=p["id"], title=p["title"], statement=p["statement"],
                     quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                     anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]],
                                  observe_at=p["observe"] or ["return values of the public API"], hook_needed=None))
            f.write(json.dumps(d) + "\n")
    checks, na = [], []
    for p in P:
        if p["na"]:
            na.append(dict(property=p["id"], reason=p["na"]))
            continue
        if not os.path.exists(os.path.join(V, "checks", p["id"] + ".py")):
            na.append(dict(property=p["id"], reason="check not built yet"))
            continue
        checks.append(dict(property=p["id"],
                           quick_cmd=f"/opt/venv/bin/python run.py {p['id']} --tier quick",
                           thorough_cmd=f"/opt/venv/bin/python run.py {p['id']} --tier thorough",
                           technique="bounded symbolic execution of the real Python code, assertions decided by Z3 (real arithmetic)",
                           level="model_checking",
                           level_note="Exhaustive over all real inputs within the sizes listed in evidence (every path, every value); exact real arithmetic, so floating-point rounding is outside; compiled solvers and linear algebra are replaced by their documented contract; counterexamples are replayed on the unmodified code before being reported." + (" " + p["note"] if p["note"] else "")))
    json.dump(dict(version=1, setup_cmd="/opt/venv/bin/python tools/selfcheck.py", checks=checks, not_applicable=na,
                   notes="Checks read /repo's current working tree on every run and write only under /verif/evidence. No hooks in /repo."),
              open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    print(len(checks), "checks", len(na), "n/a")


main()
