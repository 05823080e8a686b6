NOTES = "Engine: /verif/symx (see DESIGN.md). bin/check ID --replay FILE re-runs a reported counterexample on the real code."
REALS = "arithmetic over exact reals (rounding, overflow and underflow outside the claim); library routines of numpy/scipy trusted as their mathematical definitions; sizes bounded as listed in the evidence"
PROPS = [
dict(id="C01", title="Link functions: exact inverses and exact derivatives",
     statement="Every link function offered by the generalized-linear-model packages (current and legacy) and its inverse are mutual inverses on their open domains. Every derivative that a link exposes - first and second of the inverse link, first to fourth of the link - is the exact derivative of the function one order below.",
     quant="every real linear predictor or mean in the open domain of each link; every power exponent; every negative-binomial dispersion",
     why="tests evaluate some links at a handful of points of one grid; sign errors in higher derivatives of rarely used links (power, negative binomial, probit) went unseen",
     files=["pystatsm/pyglm2/links.py", "pystatsm/pyglm/links.py"],
     mech=[("link classes", "pystatsm/pyglm2/links.py"), ("legacy link classes", "pystatsm/pyglm/links.py")],
     note="Bounded symbolic check, one scalar per call, every domain value. " + REALS),
dict(id="C02", title="Exponential families are coherent distributions",
     statement="For every family of the GLM packages (current and legacy), the log-density, variance function, cumulant function, canonical parameter, deviance, Pearson and signed residuals, default weights, mean of the random draws and quantile function all describe one and the same distribution. In particular the log-density is the textbook density with mean mu and variance phi*V(mu)/w, the deviance is twice the (scaled) gap to the saturated log-density, and every derivative function is the derivative it names.",
     quant="every response, mean, weight and dispersion in each family's domain",
     why="tests fit a few data sets with unit weights; weights, dispersions, boundary responses and unused derivatives are never exercised",
     files=["pystatsm/pyglm2/families.py", "pystatsm/pyglm/families.py"],
     mech=[("family classes", "pystatsm/pyglm2/families.py"), ("legacy family classes", "pystatsm/pyglm/families.py")],
     note="Bounded symbolic check, one or two observations per call. The random generator is replaced by a recorder of the requested law. " + REALS),
dict(id="C03", title="Family score, curvature and working weights match the log-likelihood",
     statement="For every family and any twice-differentiable link, the score and curvature functions (gradients, Hessian weights, working residuals, mixed and dispersion derivatives) are exactly the first and second derivatives of the family's own log-likelihood along eta and along the dispersion. Fisher-scoring weights are the expectation of the observed curvature.",
     quant="every response, mean, weight, dispersion and every link with arbitrary first and second derivative values",
     why="optimisers converge even with wrong curvature, so tests of estimates do not see wrong weights or standard errors",
     files=["pystatsm/pyglm2/families.py", "pystatsm/pyglm/families.py"],
     mech=[("get_g/get_gw/get_ehw and *_full_loglike", "pystatsm/pyglm2/families.py"), ("gw/hess weights", "pystatsm/pyglm/families.py")],
     note="The link is an uninterpreted function with uninterpreted derivatives. " + REALS),
dict(id="C04", title="GLM objective, derivatives and post-fit quantities",
     statement="For every family, link and scale treatment, the GLM log-likelihood is the sum of family densities at mean inverse-link(X beta), its gradient, per-observation gradients and Hessian are its exact derivatives, and the moment scale is weighted Pearson chi-square over residual degrees of freedom. Whatever parameters the optimiser returns, the reported covariance, standard errors, leverage, residuals, Cook distances, null log-likelihood, information criteria, robust standard errors, predictions with intervals and one-step deletion estimates are the textbook functions of them, honouring prior weights.",
     quant="every design, response, positive prior weights, coefficient vector and log scale within the size bounds",
     why="tests fit a few simulated data sets with unit or constant weights and never compare residuals, robust errors, prediction limits or deletion diagnostics with definitions",
     files=["pystatsm/pyglm2/glm.py", "pystatsm/pyglm2/families.py", "pystatsm/pyglm2/regression_model.py"],
     mech=[("GLM static likelihood methods", "pystatsm/pyglm2/glm.py"), ("GLM.fit and diagnostics", "pystatsm/pyglm2/glm.py")],
     note="Bounded symbolic check, 3 to 5 observations and 2 coefficients. The optimiser is replaced by an arbitrary parameter vector. " + REALS),
dict(id="C05", title="Ordinal regression: thresholds, likelihood, derivatives, prediction",
     statement="The cumulative-link model's log-likelihood is the weighted sum of log category probabilities F(tau_k - x'beta) - F(tau_(k-1) - x'beta); its gradients, per-observation gradients and Hessians, in threshold and in unconstrained coordinates, are exact derivatives, and the threshold transform is an order-preserving bijection with exact Jacobians. The response encoding, predicted probabilities and limits, fitted covariance, null model, information criteria and deletion estimates follow from the same definition for every response pattern and weight.",
     quant="every smooth inverse link, threshold vector, design, positive weight, category pattern within the size bounds",
     why="tests fit one data set with unit weights; weighted curvature, unobserved patterns and the deletion diagnostics are never run",
     files=["pystatsm/pyglm2/clm.py", "pystatsm/pyglm2/regression_model.py"],
     mech=[("CLM and OrderedTransform", "pystatsm/pyglm2/clm.py"), ("OrdinalModelData encoding", "pystatsm/pyglm2/regression_model.py")],
     note="Bounded symbolic check, up to 4 thresholds, 2 regressors, 5 observations; inverse link uninterpreted with its derivatives. " + REALS),
dict(id="C06", title="Zero-inflated count models: likelihood, derivatives and prediction",
     statement="The zero-inflated Poisson and negative-binomial models' log-likelihoods are weighted sums of the log mixture probabilities (inflation probability plus count probability at zero, count probability elsewhere), and their gradients, per-observation gradients and Hessians are exact derivatives, adding up over observations. Fitted covariance, null model, likelihood statistics, means and limits follow from the same definition for every weight and design.",
     quant="every smooth pair of inverse links, coefficient vector, dispersion, design, positive weight, zero/positive pattern within the size bounds",
     why="tests check one data set with unit weights against finite differences; the negative-binomial class could not even be constructed",
     files=["pystatsm/pyglm2/zinf.py"],
     mech=[("ZeroInflatedPoisson", "pystatsm/pyglm2/zinf.py"), ("ZeroInflatedNBinom", "pystatsm/pyglm2/zinf.py")],
     note="Bounded symbolic check, 2 to 6 observations; both inverse links uninterpreted with their derivatives. " + REALS),
dict(id="C07", title="Linear regression: likelihood, closed-form fit, constraints, resampling",
     statement="For unweighted linear regression, the (restricted) log-likelihood, its gradient and its Hessian agree, both closed-form fits return the least-squares coefficients, residual sum of squares and variance that make the gradient vanish, and the standard errors, R-squared, sums of squares, F test and predictions are their textbook functions. Linearly constrained coefficients satisfy the constraint and minimise the residual sum of squares; bootstrap replicates are the fits to the resampled rows and permutation p-values follow from the t statistics of the permuted fits.",
     quant="every full-rank design, response, constraint value, resample and permutation within the size bounds",
     why="tests compare a fitted data set with a reference; the constrained fit, bootstrap and permutation test are never executed",
     files=["pystatsm/pyglm2/ols.py", "pystatsm/utilities/output.py"],
     mech=[("OLS static methods and fit", "pystatsm/pyglm2/ols.py"), ("get_param_table", "pystatsm/utilities/output.py")],
     note="Bounded symbolic check, 3 to 5 observations, 2 or 3 coefficients; random draws replaced by every listed choice. " + REALS),
dict(id="C08", title="Multivariate regression: likelihood, derivatives, MANOVA statistics",
     statement="The multivariate regression log-likelihood is the weighted Gaussian log-density with precision L L', its gradient, per-observation gradient and Hessian are exact derivatives, and the closed-form fit is weighted least squares with the weighted residual covariance. Hypothesis and error matrices are the textbook quadratic forms, the canonical eigenvalues solve det(H - rho (H+E)) = 0, and Wilks, Pillai, Hotelling-Lawley and Roy statistics with their F approximations, degrees of freedom and p-values are the textbook functions of them.",
     quant="every design, response matrix, positive weight, parameter vector, hypothesis matrix and eigenvalue set within the size bounds",
     why="tests fit one simulated data set with unit weights; weighted fits, several responses with constraints and rank-deficient hypotheses are unseen",
     files=["pystatsm/pyglm2/mvols.py"],
     mech=[("MVOLS likelihood", "pystatsm/pyglm2/mvols.py"), ("MANOVA statistics", "pystatsm/pyglm2/mvols.py")],
     note="Bounded symbolic check, up to 4 observations, 3 responses, 2 coefficients. The Hotelling-Lawley approximation for non-positive n parameter is outside the claim. " + REALS),
dict(id="C09", title="Inference machinery: tests, profile limits, tables, data container",
     statement="The inference machinery shared by the regression models (current and legacy) computes the textbook quantities: information criteria and pseudo R-squared, likelihood-ratio, Wald and score statistics, robust covariance HC0-HC4, leverages, parameter tables and BCa levels. Every fixed parameter is constrained to its own value, profile likelihoods and their limits solve the stated equations, term tests constrain exactly the term's coefficients, and the data container keeps design, response, weights, names and missing-row deletion aligned.",
     quant="every likelihood value, estimate, score matrix, positive definite Hessian, constraint, leverage and missingness pattern within the size bounds",
     why="most of these helpers are never executed by a test; the adjusted pseudo R-squared had the wrong sign and several equality constraints all bound the last value",
     files=["pystatsm/pyglm2/likelihood_model.py", "pystatsm/pyglm2/regression_model.py", "pystatsm/utilities/output.py", "pystatsm/utilities/optimizer_utils.py", "pystatsm/pyglm/linear_model.py"],
     mech=[("LikelihoodModel", "pystatsm/pyglm2/likelihood_model.py"), ("RegressionMixin and ModelData", "pystatsm/pyglm2/regression_model.py"), ("get_param_table, BCa", "pystatsm/utilities/output.py")],
     note="Bounded symbolic check; optimisers and root finders replaced by an arbitrary answer whose problem is inspected. " + REALS),
dict(id="C10", title="Structural equation models: implied moments, fit function, derivatives",
     statement="For every parameter vector, the implied covariance and mean of a structural equation model are L(I-B)^-1 F (I-B)^-T L' + P and a + L(I-B)^-1 b, the fit function is the group-weighted normal discrepancy between them and the sample moments of the modelled variables, and gradient (both methods), Hessian, moment derivatives and per-observation gradients are exact derivatives. This holds with parameters tied by labels or across groups, for any row order of the groups and any other columns in the data frame.",
     quant="every parameter vector, positive definite sample covariance, mean vector and data matrix for the listed models; every parameter matrix within the size bounds for the kernels",
     why="tests compare derivatives with finite differences at random points of two models; tied last parameters, shared groups, observed mediators and extra data columns were wrong",
     files=["pystatsm/pysem2/sem.py", "pystatsm/pysem2/derivatives.py", "pystatsm/pysem2/model_specification.py", "pystatsm/pysem2/model_data.py"],
     mech=[("SEM", "pystatsm/pysem2/sem.py"), ("derivative kernels", "pystatsm/pysem2/derivatives.py"), ("parameter expansion and Jacobians", "pystatsm/pysem2/model_specification.py")],
     note="Bounded symbolic check: kernels up to 3 observed and 2 latent variables, models up to 4 observed variables and 2 groups. " + REALS),
dict(id="C11", title="Structural equation models: formula and options determine the matrices",
     statement="For every parameter vector, each entry of the matrices L, B, F, P, a, b of a structural equation model is the value its formula prescribes: the free parameter with that name or label (one position per label), the fixed number, the sample moment of exogenous observed variables, the documented default, or zero. This holds for each option (fixed first loading, unit latent variance, free latent mean, optional covariances), variable ordering, and choice of matrices shared across groups; variances are bounded below by zero.",
     quant="every parameter vector for each listed formula, option set, variable ordering and sharing pattern",
     why="tests check the tables of two formulas; the covariance options had no effect, unit latent variances became NaN, and an indicator that is also an outcome crashed",
     files=["pystatsm/pysem2/formula.py", "pystatsm/pysem2/model_builder.py", "pystatsm/pysem2/model_base.py", "pystatsm/pysem2/model_matrices.py", "pystatsm/pysem2/param_table.py", "pystatsm/pysem2/variable_ordering.py"],
     mech=[("FormulaParser, ModelBuilder", "pystatsm/pysem2/model_builder.py"), ("templates and parameter reduction", "pystatsm/pysem2/model_base.py")],
     note="The list of 31 formulas and settings is fixed; for each, the map from parameters to matrices is decided for every parameter vector. " + REALS),
dict(id="C12", title="Parameter transforms: mutual inverses with exact derivatives",
     statement="Every parameter transform maps its domain one to one: reverse undoes forward and forward undoes reverse, for single vectors, batches and integer arguments alike, and Jacobian and Hessian methods are the exact first and second derivatives of the corresponding map. Composition applies the steps in order, combination applies each transform to its own slice and leaves the remaining parameters unchanged, and the Cholesky factor's derivatives are the derivatives of the factor.",
     quant="every real argument in the domain, every batch and every arbitrary component transform within the size bounds",
     why="tests compare against finite differences at a few random covariance matrices; integer arguments were truncated and the factor's second derivative dropped entries",
     files=["pystatsm/utilities/param_transforms.py", "pystatsm/utilities/cov_transform.py", "pystatsm/utilities/unconstrained_chol.py", "pystatsm/utilities/dchol.py"],
     mech=[("param_transforms", "pystatsm/utilities/param_transforms.py"), ("cov_transform", "pystatsm/utilities/cov_transform.py"), ("dchol", "pystatsm/utilities/dchol.py")],
     note="Bounded symbolic check, covariance matrices of order 1 to 3 (4 for elementary steps in the thorough tier). The legacy CholeskyCov is inverted only on the image of its forward map. " + REALS),
dict(id="C13", title="Vectorisation operators, structured matrices and index arithmetic",
     statement="vec, vech and vecl and their inverses undo each other, and the commutation, elimination, duplication, averaging, Kronecker-vec, pattern and difference matrices (and the helpers that apply them without forming them) act on every matrix as their definitions say. Index formulas (vec, vech, vecl, Kronecker, colexicographic and lexicographic, ascending tuples, triangles) are bijections onto the positions they claim, and array_match, unique and fill_tensor return what they describe for every ordering and tie pattern.",
     quant="every matrix with 1 to 4 rows, every index and size up to the bound, every ordering and tie pattern of up to 3 values",
     why="tests check a few sizes of some operators; multiplying by the transposed elimination or duplication matrix from the right always failed",
     files=["pystatsm/utilities/special_mats.py", "pystatsm/utilities/indexing_utils.py", "pystatsm/utilities/linalg_operations.py", "pystatsm/utilities/python_wrappers.py", "pystatsm/utilities/src/cs_kron_ss.c"],
     mech=[("structured matrices", "pystatsm/utilities/special_mats.py"), ("index arithmetic", "pystatsm/utilities/indexing_utils.py"), ("vectorisation", "pystatsm/utilities/linalg_operations.py")],
     note="Bounded symbolic check; index formulas are decided by z3 over integer variables up to 12 (vech), 10 (vecl), 120 (triangular numbers). " + REALS),
dict(id="C14", title="Mixed models: likelihood and gradients of the marginal model",
     statement="For every response and every admissible variance parameter, the linear mixed model's deviance (ML and REML) equals that of the normal marginal model V = sum Z G Z' + s2 I with G built from the level by variable covariances and any relationship matrix, whichever solver branch or fill-reducing permutation is used. Both gradient routines, in natural and in unconstrained parameters, are the exact derivatives of it, and the inverse, projection and block factors used on the way are those of V.",
     quant="every response vector, every positive definite random effect covariance and residual variance, every fill-reducing permutation modelled, for the listed designs (crossed, unbalanced, slopes, covariates that cancel or vanish within levels, dense and sparse relationship matrices)",
     why="tests compare gradients with finite differences on one design where CHOLMOD happens not to permute; with a permutation, a centred covariate or a relationship matrix the gradient was wrong or the code crashed",
     files=["pystatsm/pylmm/re_mod.py", "pystatsm/utilities/linalg_operations.py", "pystatsm/utilities/python_wrappers.py", "pystatsm/utilities/src/cs_add_inplace.c", "pystatsm/utilities/src/cs_block_diag_self_dot.c", "pystatsm/utilities/src/cs_pattern_trace.c"],
     mech=[("MMEBlocked", "pystatsm/pylmm/re_mod.py"), ("RandomEffects, KronIG, KronAG", "pystatsm/pylmm/re_mod.py"), ("sparse factor proxy", "pystatsm/utilities/linalg_operations.py")],
     note="Bounded symbolic check of the Python code and of the C kernels it calls (interpreted from their source); 3 to 4 observations, 2 to 3 levels, up to 2 terms. CHOLMOD is modelled as exact. " + REALS),
dict(id="C15", title="Mixed models: effects, standard errors and derived summaries",
     statement="For every response and admissible variance parameter, estimated fixed effects and random effects are the generalised least squares estimate and best linear unbiased predictor, with their exact covariance and prediction error variance. Variance shares, Satterthwaite degrees of freedom, information criteria, correlations, tables, the variance-correlation transform with its Jacobian, the profile objective and the likelihood ratio test follow from them by their definitions.",
     quant="every response, coefficient vector, positive definite random effect covariance, residual variance and parameter covariance within the size bounds",
     why="tests check that fits run and recover simulated values; the formulas for prediction errors, variance shares, degrees of freedom and profiles are never compared with their definitions",
     files=["pystatsm/pylmm/re_mod.py"],
     mech=[("LMM2", "pystatsm/pylmm/re_mod.py"), ("_VarCorrReparam", "pystatsm/pylmm/re_mod.py")],
     note="Bounded symbolic check, 3 to 4 observations, 2 to 3 levels, up to 2 terms; the optimiser and the numerical Hessian are replaced by arbitrary results. Degrees of freedom are decided for single-row hypotheses. " + REALS),
dict(id="C16", title="Sparse kernels equal their dense definitions and stay in bounds",
     statement="For every sparsity pattern and all stored values, the compiled kernels and their Python wrappers (Kronecker products of sparse, dense and identity factors, with and without given buffers, in place sum and product, sorted dot product, pattern trace, block diagonal self product, coordinate to compressed conversion, tile, repeat and dense product) give exactly the dense result as a well formed matrix. They touch no memory outside their buffers, also when a result buffer is used again or the stored indices are not sorted.",
     quant="every real value stored in the matrices, every nonempty pattern of shapes up to 3 x 3, sorted and unsorted, fresh and reused result buffers",
     why="tests compare a few random matrices with scipy, where every factor is square or symmetric and every buffer is used once",
     files=["pystatsm/utilities/python_wrappers.py", "pystatsm/utilities/cython_wrappers.pyx", "pystatsm/utilities/src/cs_kron_ss.c", "pystatsm/utilities/src/cs_matmul_inplace.c"],
     mech=[("sparse_kron", "pystatsm/utilities/python_wrappers.py"), ("cs_matmul_inplace", "pystatsm/utilities/python_wrappers.py")],
     note="Bounded symbolic check: the C sources are read through clang and interpreted with every access checked; patterns are exhausted within the shapes, values are symbolic. Matrices without stored entries and the complex kernels are outside. " + REALS),
dict(id="C17", title="Linear algebra kernels solve the systems they name",
     statement="For every admissible real input, the shared linear algebra helpers return what they name: weighted least squares solutions solve the normal equations for positive, mixed sign and zero weights, updated, downdated, Toeplitz and autoregressive factors multiply back to the right matrix, matrix roots and inverse roots square back, Vandermonde solves and inverses are exact, the unit row norm transform round trips with correct derivatives. The dense and the CHOLMOD factor objects solve, permute, invert and give the log determinant of the matrix they were made from, also after factoring a new matrix in place.",
     quant="every real matrix, weight and right hand side, every removed row and every sign pattern of the weights, for sizes 2 to 4",
     why="tests compare one random matrix per helper and one removed row",
     files=["pystatsm/utilities/linalg_operations.py"],
     mech=[("nwls", "pystatsm/utilities/linalg_operations.py"), ("chol_downdate", "pystatsm/utilities/linalg_operations.py"), ("_FactorProxy", "pystatsm/utilities/linalg_operations.py")],
     note="Bounded symbolic check: sizes 2 to 4, three fill reducing orders for CHOLMOD, which is an exact model; singular value and eigen decompositions are replaced by arbitrary exact ones. " + REALS),
dict(id="C18", title="Random generators and simulation helpers are exact for every draw",
     statement="For every value their random numbers can take, the generators return what they name: vine, onion and LKJ draws are correlation matrices with the determinant and the draw shapes of the method, Wishart and inverse Wishart draws have the right mean and invert each other, truncated normal draws respect their bounds and scale, random rotations are orthogonal with determinant one, exact samples have exactly the requested mean and covariance. Structured correlation builders are symmetric and equal their definitions, and allocations keep the total and its slices without gaps.",
     quant="every value of every random draw, every parameter in its range, for orders up to 5, with up to two rejected draws",
     why="tests only use the generators to make data and never look at what they return",
     files=["pystatsm/utilities/random.py", "pystatsm/utilities/cov_utils.py", "pystatsm/utilities/tf_utils.py", "pystatsm/utilities/func_utils.py"],
     mech=[("vine_corr", "pystatsm/utilities/random.py"), ("scalar_truncnorm", "pystatsm/utilities/random.py"), ("get_antedependence1_corr", "pystatsm/utilities/cov_utils.py"), ("allocate_from_proportions", "pystatsm/utilities/func_utils.py")],
     note="Bounded symbolic check: random number generators are replaced by symbolic variables of the same support. Distributional claims are limited to means, shapes and determinants. " + REALS),
dict(id="C19", title="Moment, coding and density helpers equal their definitions",
     statement="For every real data set, the shared helpers return what they name: means, covariances and correlations in every variant and in running form along any axis, two sided scalings and unit diagonals, indicator codings, sign changes, cross tables whose cells carry their labels, and the sampling covariance of covariances and correlations under a common or separate kurtosis. The normal and bivariate normal densities, their derivatives, the quadrature over the correlation and rectangle probabilities are consistent with each other.",
     quant="every real data value, weight, correlation, kurtosis and offset, for up to 5 observations and 3 variables",
     why="no test calls most of these helpers, and the others are seen only through one fitted model",
     files=["pystatsm/utilities/data_utils.py", "pystatsm/utilities/cov_utils.py", "pystatsm/utilities/func_utils.py"],
     mech=[("welford_variance", "pystatsm/utilities/data_utils.py"), ("cov_sample_cov", "pystatsm/utilities/cov_utils.py"), ("binorm_l2_jit", "pystatsm/utilities/func_utils.py")],
     note="Bounded symbolic check. The accuracy of the rational normal distribution function is outside, only its symmetry and scaling are decided; the quadrature is decided on integrands that are polynomials of the correlation. " + REALS),
dict(id="C20", title="Numerical derivatives are exact on polynomials of their order",
     statement="For every polynomial of the order a routine is made for, every point and every step, the finite difference routines return its exact derivatives: forward, central and extrapolated gradients, Jacobians and Hessians from values or gradients, with relative or absolute steps, masks and extra arguments. Stencil weights are exact for any distinct points, any expansion point and any derivative order.",
     quant="all polynomial coefficients, points, steps, stencil nodes and expansion points, 1 to 3 variables, up to degree 6",
     why="the test suite uses these routines as its oracle and never checks them; an error in one hides errors in the derivatives it judges",
     files=["pystatsm/utilities/numerical_derivs.py"],
     mech=[("fo_fc_cd", "pystatsm/utilities/numerical_derivs.py"), ("so_gc_cd", "pystatsm/utilities/numerical_derivs.py"), ("_fd_coefs", "pystatsm/utilities/numerical_derivs.py"), ("_hess_approx", "pystatsm/utilities/numerical_derivs.py")],
     note="Bounded symbolic check. Truncation and rounding error on other functions are outside; the complex step routines are not encoded. " + REALS),
dict(id="C21", title="Factor analysis derivatives, rotations, constraints and covariances agree",
     statement="For every parameter value and every covariance matrix the factor analysis objective, gradient, Hessian, score derivative and concentrated forms are exact derivatives of each other, rotations stay on their manifold and leave the common part unchanged, and criterion, constraint and Cayley derivatives are exact. Constrained parameter covariances satisfy the constraints, alignment permutes and reflects loadings, correlations and covariances consistently, and gradient projection never accepts an increase.",
     quant="all loadings, factor correlations, unique variances, covariance matrices, weights, targets and iteration histories, 2 to 4 variables, 1 to 3 factors",
     why="standard errors come from a chain of hand written derivative formulas; tests compare some of them with finite differences at one random point",
     files=["pystatsm/pyfa2/likelihood.py", "pystatsm/pyfa2/rotation.py", "pystatsm/pyfa2/identification.py", "pystatsm/pyfa2/inference.py", "pystatsm/pyfa2/solvers.py", "pystatsm/pyfa2/alignment.py"],
     mech=[("_hessian_inner", "pystatsm/pyfa2/likelihood.py"), ("hess_psi", "pystatsm/pyfa2/likelihood.py"), ("d_constraint", "pystatsm/pyfa2/rotation.py"), ("bread", "pystatsm/pyfa2/inference.py"), ("solve", "pystatsm/pyfa2/solvers.py")],
     note="Bounded symbolic check. Eigenvalue, singular value and assignment solvers are replaced by exact results; the numerical optimiser of the concentrated likelihood is outside. " + REALS),
dict(id="C22", title="Spline bases and penalties describe the same function, and smooth terms keep it",
     statement="For every strictly increasing knot vector cubic regression, cyclic and B-spline bases evaluate the spline their coefficients describe (interpolation, continuity of slope and curvature at the knots, partition of unity and exact derivatives), and the penalty is exactly the integrated squared second derivative, so constants and lines are free. Centring constraints keep the function and its penalty, smooth terms are centred, scaled, multiplied by factor levels and placed on their own coefficients, the diagonalising transform turns the penalty into the identity, and generalised cross validation and its gradient agree.",
     quant="all knots, coefficients, evaluation points, penalties and designs, 4 to 6 knots, up to 3 coefficients per constrained term",
     why="a wrong entry in a banded penalty or a wrong interval at a knot only bends the fit slightly for unequally spaced knots, which tests on one data set accept",
     files=["pystatsm/utilities/splines.py", "pystatsm/pygam/smooth_setup.py", "pystatsm/pygam/transforms.py"],
     mech=[("_cr_mats", "pystatsm/utilities/splines.py"), ("_cc_mats", "pystatsm/utilities/splines.py"), ("bspline_penalty", "pystatsm/utilities/splines.py"), ("get_smooth", "pystatsm/pygam/smooth_setup.py"), ("diagonalize_smooth", "pystatsm/pygam/transforms.py")],
     note="Bounded symbolic check. FITPACK evaluation is modelled by the Cox-de Boor recursion, banded and tridiagonal LAPACK solvers by exact elimination, QR and eigenvalue decompositions by exact factors. " + REALS),
dict(id="C23", title="Additive model criteria, derivatives, iterations and covariances are exact",
     statement="For every design, response, penalty and smoothing parameter of a generalized additive model the penalised deviance gradient and Hessian are exact, working least squares is a Newton step, the first, second and third derivatives of the coefficients in the log smoothing parameters follow the implicit function theorem, and the REML criterion, its gradient and its Hessian agree along the fitted path. Iterations never raise the penalised deviance and return matching coefficients, predictor, mean and deviance. Bayesian, frequentist and smoothing-corrected covariances, effective degrees of freedom, term statistics, evaluated smooths and summary tables follow their definitions.",
     quant="all designs, responses, coefficients, penalties, smoothing parameters, scales and deviance histories, 1 to 3 observations, 1 or 2 coefficients and penalties",
     why="the chain of implicit derivatives is only exercised near one optimum by tests, and failed step halving, several penalties or noncanonical links take other branches",
     files=["pystatsm/pygam/gam.py", "pystatsm/pyglm/families.py"],
     mech=[("hess_beta_rho", "pystatsm/pygam/gam.py"), ("hessian", "pystatsm/pygam/gam.py"), ("pirls", "pystatsm/pygam/gam.py"), ("optimize_penalty", "pystatsm/pygam/gam.py"), ("llscale", "pystatsm/pyglm/families.py")],
     note="Bounded symbolic check. The optimiser returns any smoothing parameters; REML is covered for the families that define a scale likelihood (Gaussian, Gamma, inverse Gaussian). " + REALS),
dict(id="C24", title="Location scale additive models: derivatives, criteria and predictions are exact",
     statement="For every pair of links, design, response, weight, penalty and smoothing parameter of a Gaussian location scale additive model the log likelihood is the weighted normal density, its derivatives up to the fourth order, gradient and Hessian are exact, the Hessian's first and second derivatives along the path and the implicit coefficient derivatives are exact, and the REML criterion, gradient, Hessian and their combined evaluation agree. Newton steps go against the gradient and never end worse than they start. Penalty determinants, covariances, degrees of freedom, summaries and predicted means and standard deviations follow their definitions for formulas with or without smooth terms and intercepts.",
     quant="all coefficients, responses, weights, links, penalties and Newton histories, 1 to 3 observations, 2 or 3 coefficients, 0 to 2 penalties",
     why="the fourth order chain is only compared with finite differences for one pair of links, and formulas without a mean smooth or a scale intercept are not fitted by any test",
     files=["pystatsm/pygam/gauls.py", "pystatsm/utilities/optimizer_utils.py"],
     mech=[("ll_eta_derivs", "pystatsm/pygam/gauls.py"), ("d2hess", "pystatsm/pygam/gauls.py"), ("logdetS", "pystatsm/pygam/gauls.py"), ("outer_step", "pystatsm/pygam/gauls.py"), ("predict_component", "pystatsm/pygam/gauls.py")],
     note="Bounded symbolic check. Links are arbitrary functions known through their derivatives; first and second coefficient derivatives are arbitrary where they are only passed through; the smoothing parameter optimiser returns any point. " + REALS),
dict(id="C25", title="Robust losses, objectives, reweighting, scale estimators and inference are exact",
     statement="For every tuning constant and residual the Huber and Tukey losses have the stated values, scores, curvatures and weights, the expectations under the normal distribution are those of the functions they are named for, and the given tuning constant is used. The concomitant scale objective has an exact gradient and Hessian, a reweighted step uses the score weights of the current scaled residuals, scale steps solve their estimating equation, and covariances, tests and criteria use residuals in units of the scale. The mean difference, median deviation, Sn and Qn estimators equal their definitions by all pairs, the fast Sn recursion included.",
     quant="all tuning constants, residuals, designs, scales and sample values (any order, every branch), 1 to 3 observations for the regression and 2 to 4 (6 in the thorough tier) for the scale estimators",
     why="tests compare the loss derivatives on one grid with the default constants; the regression class and the dispersion estimators have no test at all",
     files=["pystatsm/pyrobust/m_estimators.py", "pystatsm/pyrobust/rls.py", "pystatsm/pyrobust/dispersion_estimators.py"],
     mech=[("E_psi", "pystatsm/pyrobust/m_estimators.py"), ("hessian", "pystatsm/pyrobust/rls.py"), ("irwls", "pystatsm/pyrobust/rls.py"), ("_sn_a", "pystatsm/pyrobust/dispersion_estimators.py"), ("qn_estimator", "pystatsm/pyrobust/dispersion_estimators.py")],
     note="Bounded symbolic check. Distinct sample values for the scale estimators; adaptive quadrature, the generic optimiser and the weighted least squares solver are replaced by what they are asked to return. " + REALS),
dict(id="C26", title="Elastic net, lasso and least angle solvers take steps optimality prescribes",
     statement="For every design, response, weight, penalty and mixing ratio a coordinate update is the minimiser of its penalised weighted quadratic, a sweep keeps residuals, intercept and recorded changes consistent with the coefficients, iterations stop only at a small change and hand the inner solver the score and information of the log likelihood; objectives, deviances, penalties, gradients and Hessians agree with each other, and the first penalty of the grid is the smallest with no slope. Proximal steps are soft thresholded gradient steps and are not accepted when they increase the objective. A least angle step goes to the first event and not beyond, lasso drops exactly the coefficient that reaches zero, and factors of the active Gram matrix stay exact when variables enter and leave.",
     quant="all designs, responses, weights, penalties, coefficients and active sets of 1 to 3 observations and 1 to 4 variables, one sweep or step from any state",
     why="one test fits one data set per family; the lasso tests download their data, so the least angle code runs in no reliable test",
     files=["pystatsm/pyglmnet/glmen2.py", "pystatsm/pyglmnet/gaussian_eln.py", "pystatsm/pyglmnet/binomial_eln.py", "pystatsm/pyglmnet/binom_eln2.py", "pystatsm/pyglmnet/lars.py", "pystatsm/pyglmnet/lasso.py"],
     mech=[("_coordinate_descent_cycle", "pystatsm/pyglmnet/glmen2.py"), ("_glm_elnet", "pystatsm/pyglmnet/glmen2.py"), ("eln_cd", "pystatsm/pyglmnet/gaussian_eln.py"), ("_lasso_modification", "pystatsm/pyglmnet/lars.py"), ("lars_drop_var", "pystatsm/pyglmnet/lars.py")],
     note="Bounded symbolic check. Sweeps are checked with soft thresholding replaced by any value, and soft thresholding on its own; whole paths of two variables only in the thorough tier. Re-entry of a variable dropped within one penalty value is not claimed: the solvers do not allow it. " + REALS),
]
