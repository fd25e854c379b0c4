#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, pathlib

P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe:
        a["observe_at"] = observe
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["hook_needed"] = None
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a))


SM = "smt/surrogate_models/"
AP = "smt/applications/"
UT = "smt/utils/"

prop("P01", "Interpolating surrogates reproduce their training outputs",
     "Whenever a model documented as interpolating (Kriging, KPLS, KPLSK, GEKPLS, RBF, IDW, and the highest fidelity of the multi-fidelity Kriging family) is trained without noise on distinct, well-separated points, predicting at a training point returns the training output of that point up to round-off amplified by the conditioning of the training system. "
     "This holds for every input dimension, sampling pattern, kernel, trend, scale of inputs and outputs, and output count the model accepts.",
     ["inputs", "configurations"],
     "all training sets with distinct points and all kernel/trend/scale options without noise",
     "Tests train on one or two fixed designs per model and check an RMS error on a test grid; they do not check that the training outputs are reproduced over kernels, trends, scales, and dimensions.",
     [SM + "krg_based.py", SM + "kpls.py", SM + "kplsk.py", SM + "gekpls.py", SM + "rbf.py", SM + "idw.py", AP + "mfk.py", "smt/src/idw/idw.cpp", "smt/src/rbf/rbf.cpp", UT + "kriging_utils.py"],
     [("generalised least squares + Cholesky solve with a tiny nugget", SM + "krg_based.py:_reduced_likelihood_function"),
      ("standardisation and its inverse in prediction", UT + "kriging_utils.py:standardization, " + SM + "krg_based.py:_predict_values"),
      ("RBF linear system and back-solve", SM + "rbf.py:_fit"),
      ("IDW exact hit handling", "smt/src/idw/idw.cpp")],
     ["predict_values at the training inputs"])

prop("P02", "Predicted derivatives are the derivatives of predicted values",
     "For every model that offers prediction derivatives (LS, QP, IDW, RBF, Kriging, KPLS, KPLSK, GEKPLS, MFK family, RMTB, RMTC, GENN, VFM, and models wrapped by them), the derivative predicted for each input variable and each output equals the derivative of that same model's predicted values. "
     "This holds at every point where the model is differentiable, inside and outside the training domain, for any number of inputs, outputs and query points.",
     ["inputs", "configurations"],
     "all trained models supporting derivatives, all query points away from documented kinks, all input indices, any output count",
     "The existing derivative test uses one analytic function with a loose error tolerance against the true function, not the model's own slope, with a single option set per model and one output.",
     [SM + "ls.py", SM + "qp.py", SM + "idw.py", SM + "rbf.py", SM + "krg_based.py", SM + "rmts.py", SM + "rmtb.py", SM + "rmtc.py", SM + "genn.py", AP + "mfk.py", AP + "vfm.py", "smt/src/idw/idw.cpp", "smt/src/rbf/rbf.cpp", "smt/src/rmts/rmtb.cpp", "smt/src/rmts/rmtc.cpp"],
     [("analytic derivative of each predictor", "_predict_derivatives of every model"),
      ("C++ derivative kernels", "smt/src/*/*.cpp"),
      ("chain rule through input/output scaling", SM + "krg_based.py, " + SM + "genn.py")],
     ["predict_derivatives vs central differences of predict_values"])

prop("P03", "Kriging predictions and variances equal the Gaussian-process formulas",
     "Given the hyperparameters a Kriging model (Kriging, KPLS, KPLSK) reports after training, its predicted mean and variance equal the universal-Kriging best linear unbiased predictor and its mean squared error for that kernel, trend, noise and nugget. "
     "In particular variances are never negative, vanish at noise-free training points and scale with the square of the output scale.",
     ["inputs", "configurations"],
     "all training sets, kernels, constant/linear/quadratic trends, noise settings, component counts and query points",
     "Tests compare a handful of predictions of one trend against loosely rounded numbers; no test computes the formula independently for linear/quadratic trends, noise or reduced components.",
     [SM + "krg_based.py", SM + "krg.py", SM + "kpls.py", SM + "kplsk.py", UT + "kriging_utils.py"],
     [("BLUP parameters", SM + "krg_based.py:_reduced_likelihood_function"),
      ("predictor and MSE", SM + "krg_based.py:_predict_values/_predict_variances"),
      ("kernels, distances, regressions", UT + "kriging_utils.py")],
     ["predict_values, predict_variances vs an independent dense reference"])

prop("P04", "Kriging variance derivatives are the derivatives of the variance",
     "The variance derivatives a Kriging model predicts at a point equal, for each output and input variable, the derivative of its predicted variance at that point. "
     "This holds for every supported trend, kernel, number of inputs and outputs, data scale and point away from training points.",
     ["inputs", "configurations"],
     "all trained Kriging/KPLS/KPLSK/GEKPLS models with constant or linear trend, all query points away from kinks of the kernel",
     "The existing test checks one two-dimensional data set with constant trend at one point.",
     [SM + "krg_based.py", UT + "kriging_utils.py"],
     [("variance derivative", SM + "krg_based.py:_predict_variance_derivatives"),
      ("kernel x-derivatives", UT + "kriging_utils.py:differences, componentwise_distance(return_derivative)")],
     ["predict_variance_derivatives vs central differences of predict_variances"])

prop("P05", "Kriging likelihood derivatives and hyperparameter search are consistent",
     "The gradient and Hessian of the Kriging likelihood are the first and second derivatives of the likelihood value for every kernel and trend. "
     "Training returns hyperparameters inside the configured bounds whose reported likelihood is the likelihood at those hyperparameters and is at least the likelihood at the initial guess, for both optimisers. "
     "Where the search meets hyperparameters whose correlation matrix cannot be factorised, it still ends in such a model, or in the ValueError that says so, never in another error.",
     ["inputs", "configurations"],
     "all training sets, hyperparameter vectors inside the bounds, kernels, trends, both optimisers, with and without estimated noise",
     "Existing tests check the derivative formulas on one random two-dimensional data set and never the bounds or the monotonic gain of the search.",
     [SM + "krg_based.py", UT + "kriging_utils.py"],
     [("likelihood", SM + "krg_based.py:_reduced_likelihood_function"),
      ("gradient and Hessian", SM + "krg_based.py:_reduced_likelihood_gradient/_reduced_likelihood_hessian"),
      ("search", SM + "krg_based.py:_optimize_hyperparam")],
     ["optimal_theta, optimal_rlf_value, likelihood functions of a trained model"])

prop("P06", "Correlation kernels match their formulas and derivatives",
     "Every correlation kernel (absolute exponential, squared exponential, Matern 3/2, Matern 5/2, active-subspace exponential) equals its published formula for any hyperparameters and distances, lies between 0 and 1, equals 1 at zero distance and yields positive semi-definite correlation matrices. "
     "Its derivatives with respect to hyperparameters, mixed second derivatives and derivatives with respect to the inputs equal those of the kernel value, and results do not depend on the number of rows processed together.",
     ["inputs", "configurations"],
     "all hyperparameter vectors, dimensions, numbers of pairs (including across internal block sizes) and component reductions",
     "Tests compare the kernels with finite differences on one fixed random data set; block-size boundaries, many dimensions and large distances are not exercised.",
     [UT + "kriging_utils.py"],
     [("kernels with grad_ind/hess_ind/derivative_params", UT + "kriging_utils.py:abs_exp, squar_exp, act_exp, matern52, matern32"),
      ("distances", UT + "kriging_utils.py:cross_distances, differences, componentwise_distance, componentwise_distance_PLS")],
     ["kernel function results"])

prop("P07", "Polynomial models are the least-squares optimum",
     "The linear and quadratic polynomial models predict with the least-squares best fit of their polynomial basis (all monomials up to degree one, respectively two, including cross terms) to the training data, output by output. "
     "Data generated by such a polynomial is therefore reproduced exactly everywhere.",
     ["inputs"],
     "all training sets with enough points in general position, any dimensions, outputs and scales",
     "Tests bound an approximation error on one function; they cannot tell a best fit from a merely decent one.",
     [SM + "ls.py", SM + "qp.py"],
     [("linear regression", SM + "ls.py:_new_train"), ("response surface and normal equations", SM + "qp.py:_new_train, response_surface")],
     ["predict_values vs an independent least-squares solve"])

prop("P08", "IDW predictions are Shepard averages of the training outputs",
     "An inverse-distance-weighting prediction equals the average of the training outputs weighted by the inverse power of their distances to the query point, with the configured power. "
     "It is therefore exact at training points, never leaves the range of the training outputs, and reproduces constant data everywhere.",
     ["inputs", "configurations"],
     "all training sets, powers, query points near, at and far from training points, any dimensions and outputs",
     "Tests look at an error norm for one data set with the default power.",
     [SM + "idw.py", "smt/src/idw/idw.cpp", "smt/src/idw/idw.hpp"],
     [("weights", "smt/src/idw/idw.cpp:evaluate")],
     ["predict_values vs a direct evaluation of the formula"])

prop("P09", "RBF models solve and evaluate the Gaussian RBF system they define",
     "A radial-basis-function model predicts the Gaussian basis expansion with the configured scaling (one per dimension or shared), plus the configured polynomial trend, whose coefficients solve the regularised interpolation system. "
     "Data generated by the configured trend polynomial (constant or linear) is reproduced everywhere, including far from the data.",
     ["inputs", "configurations"],
     "all training sets, scalings (scalar or per-dimension), trend degrees -1, 0, 1, dimensions and outputs",
     "Tests use one scaling and no trend on one function and compare an error norm.",
     [SM + "rbf.py", "smt/src/rbf/rbf.cpp", "smt/src/rbf/rbf.hpp"],
     [("system assembly", "smt/src/rbf/rbf.cpp:compute_jac"), ("solve", SM + "rbf.py:_fit")],
     ["predict_values vs an independent dense reference"])

prop("P10", "Minimum-energy splines minimise their objective and extrapolate linearly",
     "Tensor-product spline models (RMTB, RMTC) minimise, over their spline space, the weighted sum of second-derivative energy, coefficient norm and training misfit that their options define. They reproduce data sampled from any affine function over the whole domain and are continuously differentiable inside it. "
     "With extrapolation enabled they continue linearly along each coordinate outside the domain, matching value and slope at the boundary; with the quadratic approximation setting the training output map is linear.",
     ["inputs", "configurations"],
     "all domains, orders, control-point and element counts, weights, solvers and query points inside, on and outside the domain",
     "Tests train a single setting on the unit-size domain and bound an error norm; element boundaries, extrapolation and setting combinations are not checked.",
     [SM + "rmts.py", SM + "rmtb.py", SM + "rmtc.py", "smt/src/rmts/rmts.cpp", "smt/src/rmts/rmtb.cpp", "smt/src/rmts/rmtc.cpp", "smt/src/rmts/utils.cpp"],
     [("basis evaluation", "smt/src/rmts/rmtb.cpp, smt/src/rmts/rmtc.cpp"), ("energy/regularisation assembly", SM + "rmts.py, smt/src/rmts/rmts.cpp"),
      ("extrapolation", SM + "rmts.py:_predict_derivatives/_predict_values, smt/src/rmts/rmts.cpp:compute_ext_dist")],
     ["predict_values, predict_derivatives"])

prop("P11", "Output derivatives describe how predictions respond to training data",
     "For models that offer derivatives with respect to training data (IDW, RBF, RMTB, RMTC), the reported derivative of a prediction with respect to each training output equals the change in the prediction when the model is retrained with that output changed. "
     "Because these models are linear in the training outputs, the derivatives times the training outputs also give the prediction itself where no other data enter.",
     ["inputs", "configurations"],
     "all training sets, model options, perturbed outputs and query points",
     "The existing test checks a few entries on one data set with loose tolerances.",
     [SM + "idw.py", SM + "rbf.py", SM + "rmts.py"],
     [("dy/dyt", "_predict_output_derivatives of idw.py, rbf.py, rmts.py")],
     ["predict_output_derivatives vs retraining"])

prop("P12", "Each query point is predicted independently and inputs are untouched",
     "Predictions, derivatives and variances for a batch of query points equal, row by row, those obtained for each point alone and in any order, with one row per query point and one column per output. "
     "No training or prediction call changes the arrays passed by the caller, and later changes by the caller to those arrays do not affect the model.",
     ["inputs", "histories"],
     "all models, batch sizes (one, few, many), orders, memory layouts and numeric types of the arrays passed in",
     "Tests predict on one fixed batch and compare it with true values; aliasing, memory layout and batch decomposition are not examined.",
     [SM + "surrogate_model.py", UT + "checks.py", SM + "krg_based.py", SM + "idw.py", SM + "rbf.py", SM + "rmts.py", AP + "mfk.py", AP + "moe.py", AP + "vfm.py"],
     [("copies and shape checks", SM + "surrogate_model.py"), ("vectorised prediction", "_predict_* of each model")],
     ["predict_values, predict_derivatives, predict_variances, caller arrays"])

prop("P13", "Training is equivariant under relabelling, shifting and scaling the data",
     "Reordering the training points, reordering the input variables, or duplicating an output column changes predictions only accordingly. "
     "Shifting or scaling the inputs of models that normalise their inputs, or shifting and scaling the outputs of any interpolating or least-squares model, transforms predictions, derivatives and variances by the same map.",
     ["inputs", "configurations"],
     "all training sets, permutations and affine maps, for the deterministic models",
     "Tests never train the same model on two related data sets.",
     [SM + "krg_based.py", SM + "ls.py", SM + "qp.py", SM + "idw.py", SM + "rbf.py", SM + "rmts.py", UT + "kriging_utils.py"],
     [("standardisation", UT + "kriging_utils.py:standardization"), ("linear solves", "rbf.py, ls.py, qp.py, rmts.py")],
     ["predict_* of two related trainings"])

prop("P14", "A retrained model depends only on its current data and options",
     "After any sequence of setting, updating and replacing training data, training, predicting and option reads, a model's predictions equal those of a new model given the same final data and the same options. "
     "Training twice in a row without changes leaves predictions unchanged, and one model's history never affects another's.",
     ["histories", "configurations"],
     "all operation sequences over set/update/train/predict on each deterministic model, with data of changing size and dimension",
     "Tests train each model object once; stale state from an earlier training cannot show.",
     [SM + "surrogate_model.py", SM + "krg_based.py", SM + "kpls.py", SM + "kplsk.py", SM + "gekpls.py", SM + "rbf.py", SM + "rmts.py", AP + "mfk.py", AP + "mfkpls.py", AP + "vfm.py", UT + "options_dictionary.py"],
     [("training data store", SM + "surrogate_model.py:set_training_values/update_training_values"), ("option normalisation at training", SM + "krg_based.py:_check_param")],
     ["predict_values after a history vs after a fresh training"],
     [("training data", "per-name, per-derivative training arrays", SM + "surrogate_model.py"), ("options", "per-model option values", UT + "options_dictionary.py")])

prop("P15", "Gradient-enhanced models honour the training derivatives they are given",
     "Supplying exact derivatives of an affine function to gradient-enhanced splines leaves that function reproduced exactly in value and slope, and raising the weight of supplied derivatives moves the spline's slopes at the training points toward the supplied ones. "
     "Gradient-enhanced Kriging with partial least squares adds for each training point first-order Taylor points, built from that point's value and derivatives with the given step relative to the given bounds, and weighs inputs by the supplied derivatives.",
     ["inputs", "configurations"],
     "all training sets with derivatives, step sizes, numbers of extra points, component counts and weights",
     "Tests compare one error figure of one data set; the numbers would barely move if a derivative were attached to the wrong variable.",
     [SM + "gekpls.py", UT + "kriging_utils.py", SM + "rmts.py", SM + "rmtc.py", SM + "rmtb.py"],
     [("Taylor points and averaged PLS", UT + "kriging_utils.py:ge_compute_pls"), ("gradient terms", SM + "rmts.py:_compute_grad..., grad_weight")],
     ["predictions and derivatives; data the trained model is built on"])

prop("P16", "Multi-fidelity Kriging follows the recursive co-kriging equations",
     "For nested data sets, a multi-fidelity Kriging model predicts every fidelity level as a regression on the next lower level times its prediction plus a discrepancy Gaussian process, with means and variances given by the recursive formulas at the reported hyperparameters. "
     "With a single fidelity it is ordinary Kriging on that data; the highest level interpolates its data and every level's variance is nonnegative.",
     ["inputs", "configurations"],
     "all nested two- and three-level data sets, trends of the discrepancy and of the scaling, kernels, dimensions and noise settings",
     "Tests check an error norm on a few functions with one or two option sets; mean and variance are never computed independently.",
     [AP + "mfk.py", AP + "mfkpls.py", AP + "mfkplsk.py"],
     [("recursive training and prediction", AP + "mfk.py:_new_train, predict_values, predict_variances_all_levels"), ("PLS reductions", AP + "mfkpls.py, " + AP + "mfkplsk.py")],
     ["predict_values, predict_variances, predict_variances_all_levels"])

prop("P17", "A mixture of experts is a convex combination of its experts",
     "However different the magnitudes of the inputs, a mixture-of-experts prediction equals, for smooth recombination, the sum of the experts' predictions weighted by nonnegative cluster probabilities that sum to one, and for hard recombination the prediction of the expert of the most probable cluster. "
     "Variances, when requested, combine the same experts with the squared weights, each cluster's expert is the enabled (allowed, not denied, supporting what was asked for) model with the smallest validation error, trained on that cluster's points, and an empty choice of experts is refused.",
     ["inputs", "configurations"],
     "all training sets, cluster counts, allow/deny lists, support requests, recombination modes and query points including remote ones",
     "Tests bound an error norm on three functions; weights, remote points and the derivative/variance combination are not checked.",
     [AP + "moe.py"],
     [("weights", AP + "moe.py:_proba_cluster, _proba_cluster_one_sample"), ("combination", AP + "moe.py:_predict_smooth_output, _predict_hard_output"), ("expert filter", AP + "moe.py:_check_inputs/_get_..., MOE_EXPERT_NAMES")],
     ["predict_values, predict_variances, enabled_experts, cluster, exceptions"])

prop("P18", "Variable-fidelity models combine low-fidelity model and bridge exactly",
     "A variable-fidelity model predicts the low-fidelity model plus (additive) or times (multiplicative) the bridge model, where the bridge is trained on the high-fidelity data minus, respectively divided by, the low-fidelity prediction there. "
     "It therefore interpolates the high-fidelity data with interpolating bridges, its derivatives follow the sum or product rule, and the options and data given by the caller stay unchanged.",
     ["inputs", "configurations"],
     "all data sets, both bridge types, all supported component models and query points",
     "Tests run one Rosenbrock example per pairing and compare error norms.",
     [AP + "vfm.py"],
     [("bridge training and combination", AP + "vfm.py:_apply/_predict_values/_predict_derivatives")],
     ["predict_values, predict_derivatives, caller arrays and dicts"])

prop("P19", "Bayesian optimisation keeps an exact, feasible history",
     "An optimisation run returns a history whose first points are the initial design and whose outputs are exactly the objective evaluated at the recorded inputs, with the number of points equal to the initial design plus iterations times parallel points. "
     "Every evaluated point lies within the bounds (and, for mixed variables, is a feasible choice), the returned optimum is the best recorded point, and a fixed random state gives an identical run (with a surrogate that draws no random numbers of its own). The surrogate is trained on exactly the history so far, and each added point is as good for the chosen criterion as independent local searches find.",
     ["histories", "configurations", "inputs"],
     "all objectives, bounds, design sizes, criteria, parallel counts and strategies, variable types, seeds, evaluators",
     "Tests run a few fixed objectives and check the optimum found; the bookkeeping and feasibility of all intermediate points are unchecked.",
     [AP + "ego.py", AP + "mixed_integer.py"],
     [("loop", AP + "ego.py:optimize"), ("candidate search", AP + "ego.py:_find_best_point"), ("parallel points", AP + "ego.py:_get_virtual_point")],
     ["returned x_opt, y_opt, ind_best, x_data, y_data; calls to the objective"],
     [("x_data, y_data", "evaluated history", AP + "ego.py:optimize")])

prop("P20", "Acquisition criteria equal their formulas",
     "The expected improvement of the optimiser equals the closed form computed from the surrogate's mean and standard deviation and the best known value, and is nonnegative; the surrogate-only and lower-confidence-bound criteria equal the mean and the mean minus three standard deviations. "
     "Virtual outputs for parallel points equal the documented strategy's value (mean, mean plus or minus three standard deviations, random deviate, or best value).",
     ["inputs", "configurations"],
     "all trained surrogates, query points (including training points with zero variance) and batch sizes",
     "Tests only run whole optimisations, where a wrong criterion still ends near the optimum of an easy function.",
     [AP + "ego.py"],
     [("criteria", AP + "ego.py:EI, SBO, UCB"), ("virtual points", AP + "ego.py:_get_virtual_point")],
     ["EI/SBO/UCB return values"])

prop("P21", "Mixed-variable encoding and decoding are inverse and idempotent",
     "Encoding mixed continuous/integer/categorical points into the relaxed continuous space and back returns the same points, and every relaxed point is mapped to a feasible mixed point that is the nearest one per variable (largest score for categorical), without changing points that are already feasible. "
     "The relaxed bounds have one column pair per relaxed variable, and category values given back are those of the specification.",
     ["inputs", "configurations"],
     "all type lists mixing float, integer, ordinal and categorical variables with any number of levels, all bounds, all points including boundaries",
     "Tests use one four-variable specification and a few points.",
     [AP + "mixed_integer.py"],
     [("fold/unfold/cast", AP + "mixed_integer.py:fold_with_enum_index, unfold_with_enum_mask, cast_to_discrete_values, cast_to_mixed_integer, cast_to_enum_value"),
      ("limits", AP + "mixed_integer.py:unfold_xlimits_with_continuous_limits")],
     ["results of the conversion functions and of the mixed-integer context"])

prop("P22", "Mixed-integer sampling and surrogates only see feasible points",
     "Sampling for mixed variables returns the requested number of points, every one feasible for its variable types and bounds. "
     "A surrogate wrapped for mixed variables is trained and evaluated on feasible points only: predictions and variances are the same for any two relaxed points with the same feasible image, and equal those of the bare surrogate trained on the encoded data.",
     ["inputs", "configurations"],
     "all type lists, bounds, sample sizes, wrapped samplings and surrogates, relaxed or folded input mode",
     "Tests use one specification and check a few predictions or only shapes.",
     [AP + "mixed_integer.py", "smt/sampling_methods/lhs.py", "smt/sampling_methods/random.py", "smt/sampling_methods/full_factorial.py"],
     [("sampling wrapper", AP + "mixed_integer.py:MixedIntegerSamplingMethod"), ("surrogate wrapper", AP + "mixed_integer.py:MixedIntegerSurrogateModel")],
     ["samples; predict_values/predict_variances of wrapped models"])

prop("P23", "Samplings return the requested number of points inside the bounds",
     "Every sampling method returns exactly the requested number of points, one column per bounded variable, each value between that variable's bounds. "
     "Random designs with a fixed random state are reproducible and independent of the global random generator where the method has its own state, and changing the bounds only rescales the design.",
     ["inputs", "configurations"],
     "all bounds (any sign, magnitude and width), dimensions, sample sizes, criteria and random states",
     "Tests sample one design per criterion and check its shape or known numbers.",
     ["smt/sampling_methods/sampling_method.py", "smt/sampling_methods/random.py", "smt/sampling_methods/lhs.py", "smt/sampling_methods/full_factorial.py"],
     [("scaling to bounds", "smt/sampling_methods/sampling_method.py:_scale_to_xlimits"), ("generation", "lhs.py, random.py, full_factorial.py")],
     ["sampling(nt)"])

prop("P24", "Latin hypercubes stratify, grids are grids, nested designs nest",
     "A Latin hypercube design has, for every variable and every criterion, exactly one point in each of the equally sized strata, the enhanced-stochastic-evolutionary design is never worse in its space-filling measure than its start, and a full-factorial design consists of distinct points of one regular grid whose levels span the bounds and are shared among the variables in proportion to their weights. "
     "Nested designs have the configured sizes per level and each finer level's points are points of the coarser level.",
     ["inputs", "configurations"],
     "all sizes, dimensions, criteria, seeds, weights, level counts and bounds",
     "Tests check shapes; losing the stratification property after an exchange step is invisible to them.",
     ["smt/sampling_methods/lhs.py", "smt/sampling_methods/full_factorial.py", AP + "mfk.py"],
     [("ESE exchanges", "smt/sampling_methods/lhs.py:_maximinESE, _PhiP_exchange"), ("grid", "smt/sampling_methods/full_factorial.py:_compute"), ("nesting", AP + "mfk.py:NestedLHS")],
     ["sampling(nt), NestedLHS(nb)"])

prop("P25", "Option dictionaries validate and store values faithfully",
     "An option can be read or set only after declaration; a set value is stored only if it satisfies the declared values or types, a rejected assignment leaves the stored value unchanged, and unset options return their default. "
     "Copies are equal to but independent of the original.",
     ["histories", "inputs"],
     "all sequences of declare, set, bulk update, read, membership and clone operations with any value kinds",
     "The one test uses a single option; no sequences or copies.",
     [UT + "options_dictionary.py"],
     [("validation", UT + "options_dictionary.py:_assert_valid, __setitem__"), ("update, clone", UT + "options_dictionary.py:update, clone")],
     ["reads after each operation vs a reference dictionary"])

prop("P26", "Benchmark problems' derivatives match their values",
     "Every benchmark problem returns, for each input variable, the exact derivative of its own value, evaluated point by point independently of the batch, over its whole input domain. "
     "A reduced problem equals the full problem with the removed variables held at their fixed values, in value, derivatives and bounds, and problems never change the caller's points.",
     ["inputs", "configurations"],
     "all problems, dimensions, option values and points in the domain",
     "Tests compare derivatives by finite differences at a few points of default-size problems.",
     ["smt/problems/" + f for f in ("sphere.py", "branin.py", "rosenbrock.py", "tensor_product.py", "lp_norm.py", "cantilever_beam.py", "robot_arm.py", "torsion_vibration.py", "water_flow.py", "welded_beam.py", "wing_weight.py", "reduced_problem.py", "problem.py", "ndim_robot_arm.py", "ndim_cantilever_beam.py", "ndim_rosenbrock.py", "ndim_step_function.py", "water_flow_lfidelity.py")],
     [("analytic and complex-step derivatives", "smt/problems/*.py:_evaluate"), ("reduction", "smt/problems/reduced_problem.py")],
     ["problem(x), problem(x, kx)"])

prop("P27", "Linear solvers solve the system they are given",
     "Every linear solver and preconditioner combination of the toolbox returns, for each right-hand side, a vector satisfying the given linear system up to its tolerance, for systems in the class it is documented for. "
     "The matrix and right-hand side of the caller are unchanged and a solver can be reused for many right-hand sides.",
     ["inputs", "configurations"],
     "all well-conditioned symmetric positive definite or general sparse systems, sizes, right-hand sides and solver types",
     "Tests never call the solvers directly; they run through one spline model and check an error norm.",
     [UT + "linear_solvers.py"],
     [("solvers", UT + "linear_solvers.py"), ("reduced-space and multigrid preconditioning", UT + "linear_solvers.py:MultigridSolver")],
     ["solution residual"])

prop("P28", "Line searches return steps that meet their promise",
     "A backtracking or bracketing line search on a smooth function along a descent direction returns a step within its length bound that satisfies sufficient decrease, and bracketing searches also satisfy the curvature condition as soon as one of their trial steps brackets such a point. "
     "A search that interpolates lands on the minimiser of a slice of its own degree (quadratic, cubic) as soon as a trial step encloses it. "
     "The function value and slope it reports or uses are those of the returned point.",
     ["inputs", "configurations"],
     "all smooth one-dimensional slices, starting points, descent directions and initial step sizes",
     "Tests never call the line searches directly.",
     [UT + "line_search.py"],
     [("backtracking", UT + "line_search.py:BacktrackingLineSearch"), ("bracketed", UT + "line_search.py:BracketedLineSearch, QuadraticLineSearch, CubicLineSearch")],
     ["x returned by the search"])

prop("P29", "Neural-network training uses exact gradients of its loss",
     "The network's input-output Jacobian and the gradient of its training loss (value, derivative and regularisation terms) equal the derivatives of its forward prediction and of that loss for every architecture, activation and weight. "
     "Training applies its optimiser's update rule with the given rates and records the losses it reached, normalisation of data is undone exactly, minibatches partition the samples each epoch, a fixed seed gives identical training, and validating a network leaves it unchanged.",
     ["inputs", "configurations", "histories"],
     "all layer sizes, depths, activations, sample counts, weights, regularisation and derivative weights, batch sizes, seeds",
     "Tests train one network and check a goodness-of-fit figure; a wrong gradient term still descends.",
     [UT + "neural_net/bwd_prop.py", UT + "neural_net/fwd_prop.py", UT + "neural_net/loss.py", UT + "neural_net/activation.py", UT + "neural_net/data.py", UT + "neural_net/model.py", UT + "neural_net/optimizer.py", SM + "genn.py"],
     [("backpropagation", UT + "neural_net/bwd_prop.py"), ("forward pass and Jacobian", UT + "neural_net/fwd_prop.py"), ("data handling", UT + "neural_net/data.py")],
     ["gradients vs finite differences; model predictions"])

prop("P30", "Cached training equals uncached training",
     "With a cache directory configured, a model predicts the same as without one, on first training and when retrained from the cache, in the same or another object. "
     "A cached result is never used for different training data or different options.",
     ["histories", "configurations", "inputs"],
     "all sequences of trainings sharing a cache directory with data and option changes in between",
     "Existing tests never configure a cache directory.",
     [UT + "caching.py", SM + "ls.py", SM + "qp.py", SM + "idw.py", SM + "rbf.py", SM + "rmts.py"],
     [("keying", UT + "caching.py:cached_operation, _caching_checksum")],
     ["predict_values of cached vs uncached models"],
     [("cache directory", "pickled training results keyed by a digest", UT + "caching.py")])

prop("P31", "Malformed requests are refused, well-formed ones accepted",
     "Training data with differing point counts, query points with the wrong number of columns, non-array inputs, arrays of more than two dimensions, indices of inputs that do not exist, options or types that were not declared, and requests for features a model does not support raise an error and leave the model usable. Every feature a model lists as supported answers, and only those do. "
     "One-dimensional arrays are accepted as single-variable data and give the same result as the corresponding column.",
     ["inputs", "histories"],
     "all models, malformed shapes and requests interleaved with valid use",
     "Tests check one wrong shape and a few unsupported requests.",
     [SM + "surrogate_model.py", UT + "checks.py", UT + "options_dictionary.py", "smt/problems/problem.py", "smt/sampling_methods/sampling_method.py"],
     [("shape and support checks", UT + "checks.py")],
     ["raised exceptions, predictions afterwards"])

prop("P32", "Marginal Gaussian processes act on a linear subspace consistently",
     "A marginal Gaussian process predicts, at its trained projection and when hyperparameter uncertainty is excluded, the Kriging mean and variance of the projected data; with a constant trend these depend on the query only through the projection. "
     "Predicting from the projected coordinates equals predicting from the corresponding inputs, and its likelihood gradient and Hessian match its likelihood. Its variance including hyperparameter uncertainty is nonnegative, and where the trained projection is a strict maximum of the likelihood it is 4/3 V + m' S m' + V' S V' / (3 V), with m' and V' the derivatives of mean and variance with respect to the projection and S the inverse of the negative Hessian, hence at least the plain variance V.",
     ["inputs", "configurations"],
     "all training sets, component counts, priors, query points",
     "Tests train one high-dimensional example and check an error norm.",
     [SM + "krg_mgp.py", SM + "krg_based.py", UT + "kriging_utils.py"],
     [("projection", SM + "krg_mgp.py:get_u_from_x, get_x_from_u"), ("predictive moments", SM + "krg_mgp.py:_predict_values, _predict_variances")],
     ["predict_values, predict_variances with both=True, get_u_from_x, get_x_from_u"])

prop("P33", "Error metric and data utilities compute what they name",
     "The relative root-mean-square error helper returns the norm of the prediction error divided by the norm of the reference, for values and derivatives, on training or supplied data. "
     "Standardisation yields zero-mean unit-deviation columns and is inverted exactly, constant columns staying finite, and pairwise-distance helpers enumerate every pair once.",
     ["inputs"],
     "all models with known predictions, reference data, scales and constant columns",
     "Tests use these helpers to judge models but never judge the helpers.",
     [UT + "misc.py", UT + "kriging_utils.py"],
     [("error", UT + "misc.py:compute_rms_error"), ("standardisation and pairs", UT + "kriging_utils.py:standardization, cross_distances, differences")],
     ["return values vs direct computation"])

prop("P34", "Compiled model kernels never touch memory outside their arrays",
     "Training and predicting with the compiled models (IDW, RBF, RMTB, RMTC) never reads or writes outside the buffers involved and executes no undefined operation. "
     "This holds for every accepted size, layout, domain, option and query point, including points on element boundaries and outside the domain.",
     ["inputs", "configurations", "histories"],
     "all sequences of trainings and predictions with the compiled models",
     "Ordinary test runs do not notice an out-of-bounds read or a small overflow.",
     ["smt/src/idw/idw.cpp", "smt/src/rbf/rbf.cpp", "smt/src/rmts/rmts.cpp", "smt/src/rmts/rmtb.cpp", "smt/src/rmts/rmtc.cpp", "smt/src/rmts/utils.cpp", "smt/src/idw/idwclib.pyx", "smt/src/rbf/rbfclib.pyx", "smt/src/rmts/rmtsclib.pyx"],
     [("buffer allocation and indexing", "smt/src/*/*.cpp")],
     ["sanitizer reports while driving the Python API"])

prop("P35", "Benchmark problems evaluate their documented functions",
     "At every point, the value of each benchmark problem equals the function it is documented to compute, for every number of variables and every option, and its bounds are the documented ones. "
     "The known minimisers of the analytic functions have the known minimal values.",
     ["inputs", "configurations"],
     "all problems, numbers of variables, options (loads, widths, orders, fixed fractions) and points inside, on and, where defined, outside the bounds",
     "The existing tests compare derivatives with values; a mistake in both, or in a value whose derivative is taken by complex steps, passes.",
     ["smt/problems/sphere.py", "smt/problems/branin.py", "smt/problems/rosenbrock.py", "smt/problems/tensor_product.py", "smt/problems/lp_norm.py", "smt/problems/cantilever_beam.py", "smt/problems/robot_arm.py", "smt/problems/torsion_vibration.py", "smt/problems/water_flow.py", "smt/problems/water_flow_lfidelity.py", "smt/problems/welded_beam.py", "smt/problems/wing_weight.py", "smt/problems/ndim_robot_arm.py", "smt/problems/ndim_cantilever_beam.py", "smt/problems/ndim_rosenbrock.py", "smt/problems/ndim_step_function.py"],
     [("formulas", "smt/problems/*.py:_evaluate"), ("bounds", "smt/problems/*.py:_setup")],
     ["problem(x), problem.xlimits"])

prop("P36", "Objects do not influence one another",
     "Whatever is done with one surrogate, mixture, variable-fidelity model or sampling method, in whatever order and even when several are given the same arrays, every result of every other object is the one it would give alone "
     "(from the same state of the global random generator), and the shared arrays stay as they were.",
     ["inputs", "histories", "configurations"],
     "interleavings of the operations (build, give data, train, train again, predict, sample) of two or three objects of equal or different classes and options, with own or shared arrays",
     "Tests use one object at a time; state kept on a class, in a module or in a default value shows only when a second object is used in between.",
     ["smt/surrogate_models/surrogate_model.py", "smt/surrogate_models/*.py", "smt/applications/moe.py", "smt/applications/vfm.py", "smt/applications/mfk.py", "smt/sampling_methods/*.py", "smt/utils/options_dictionary.py"],
     [("objects", "smt/surrogate_models/surrogate_model.py:SurrogateModel"), ("options", "smt/utils/options_dictionary.py:OptionsDictionary")],
     ["predict_* of each object, samples, the arrays given"])

prop("P37", "Printing options only print, and print what they say",
     "print_global, print_training, print_prediction, print_problem, print_solver and max_print_depth never change a result. A surrogate reports its problem size, training and each evaluation (with the right numbers of points) exactly when the options ask for it; "
     "with print_global off no report appears. Nested operations are indented by their depth and timed once per run, also after calls that failed.",
     ["inputs", "histories", "configurations"],
     "all surrogates, all combinations of the printing options, changed between calls, sequences of trainings, predictions and refused calls, nestings of timed operations with failures (the mixtures' own messages are documented as not yet following the options)",
     "Tests silence everything or look at nothing printed.",
     ["smt/utils/printer.py", "smt/surrogate_models/surrogate_model.py", "smt/utils/linear_solvers.py", "smt/surrogate_models/rmts.py", "smt/surrogate_models/rbf.py"],
     [("printer", "smt/utils/printer.py:Printer"), ("reports", "smt/surrogate_models/surrogate_model.py:train, predict_values, predict_derivatives")],
     ["standard output", "predictions", "Printer.times"])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
