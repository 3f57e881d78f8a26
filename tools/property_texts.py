# pylint: disable=undefined-variable
NOTE = (
    "Holds on the generated executions that were observed (counts in the evidence file); numpy/scipy "
    "dense linear algebra is trusted as the reference; says nothing about inputs never generated."
)

prop(
    "L01",
    "A linear operator behaves as the matrix it stands for",
    "Every linear operator, however it was composed (sums, products, scalings, transposes, Kronecker products, "
    "block structure, selections, type casts, inverses), acts on vectors, matrices and arrays exactly as its dense "
    "matrix does, and its dense form, shape, data type and transpose agree with that matrix. Composing operators of "
    "incompatible shapes is refused instead of producing a value. The answer does not depend on which other "
    "questions the operator was asked before.",
    ["programs", "inputs", "histories"],
    "for all finite expressions over the available operators, all operand shapes, number types and axes, and all orders of queries",
    "tests apply a fixed list of operators pairwise to a few vectors; compositions, mixed number types and query "
    "orders (caches) are an unbounded space",
    ["src/probnum/linops/_linear_operator.py", "src/probnum/linops/_arithmetic.py", "src/probnum/linops/_arithmetic_fallbacks.py",
     "src/probnum/linops/_kronecker.py", "src/probnum/linops/_scaling.py", "src/probnum/linops/_block.py",
     "src/probnum/linops/_vectorize.py"],
    [("operator arithmetic dispatch table", "src/probnum/linops/_arithmetic.py"),
     ("matmul/apply broadcasting", "src/probnum/linops/_linear_operator.py:LinearOperator.__matmul__"),
     ("lazy transpose/inverse/typecast wrappers", "src/probnum/linops/_linear_operator.py")],
    "runtime monitor: differential oracle of random operator expressions against dense matrices",
    NOTE,
    ["results of @, __call__, todense, T, inv, astype of expression trees"],
)

prop(
    "L02",
    "Derived quantities of a linear operator are those of its matrix",
    "Rank, eigenvalues, condition number, determinant, log-determinant, trace, diagonal, inverse, Cholesky factor and "
    "matrix norms-like summaries reported by any operator expression equal those of its dense matrix, also when they are obtained "
    "by structure-exploiting shortcuts. Declared properties (symmetric, triangular, positive definite) are never "
    "claimed for an operator whose matrix does not have them. Operators without the quantity (singular, non-square, not positive "
    "definite) raise an error instead of returning a value.",
    ["programs", "inputs", "histories"],
    "for all finite operator expressions, all matrices with every combination of structural properties, in every order of queries",
    "tests compare derived quantities of a handful of base operators; shortcuts for composed operators (products, Kronecker, "
    "transposes, inverses) are sampled at one size each",
    ["src/probnum/linops/_linear_operator.py", "src/probnum/linops/_kronecker.py", "src/probnum/linops/_scaling.py",
     "src/probnum/linops/_block.py", "src/probnum/linops/_arithmetic_fallbacks.py"],
    [("cached quantities and their propagation", "src/probnum/linops/_linear_operator.py"),
     ("Kronecker shortcuts", "src/probnum/linops/_kronecker.py"),
     ("scaling shortcuts", "src/probnum/linops/_scaling.py")],
    "runtime monitor: differential oracle of derived quantities against dense linear algebra",
    NOTE,
    ["rank/eigvals/cond/det/logabsdet/trace/diagonal/inv/cholesky and property flags"],
)

prop(
    "R01",
    "Gaussian arithmetic is exact",
    "Adding, subtracting, negating, scaling, shifting and linearly transforming random variables gives the exact law of the result: for "
    "independent Gaussians and constants the mean is the same expression of the means and the covariance follows "
    "the rule for linear maps, for every representation of the covariance (array or operator) and whether or not "
    "a factorisation was computed before. Non-Gaussian results still produce samples that are the operation applied to samples.",
    ["programs", "inputs", "histories"],
    "for all chains of arithmetic operations over normals, constants and arrays of any shape, with any interleaving of caching queries",
    "tests check single operations on fixed variables; chains, precomputed factors and operator-valued covariances are not covered",
    ["src/probnum/randvars/_arithmetic.py", "src/probnum/randvars/_normal.py", "src/probnum/randvars/_constant.py",
     "src/probnum/randvars/_random_variable.py"],
    [("arithmetic dispatch", "src/probnum/randvars/_arithmetic.py"), ("propagated Cholesky factors", "src/probnum/randvars/_normal.py")],
    "runtime monitor: shadow execution of arithmetic chains with exact moments",
    NOTE,
    ["mean, cov, cov_cholesky of every intermediate result"],
)

prop(
    "R02",
    "Random variables are consistent descriptions of one distribution",
    "Density, log-density, cumulative distribution, quantile, mode, median, mean, covariance, standard deviation, variance, entropy and samples "
    "of a random variable all describe the same distribution, agreeing with the textbook formulas for normal, categorical "
    "and constant variables. A sample of a given size has that size as leading axes followed by the shape of the variable, "
    "and sample averages converge to the reported moments. The matrix square root of the covariance reproduces the covariance.",
    ["inputs", "histories"],
    "for all shapes, parameters, number types, covariance representations and sample sizes",
    "tests draw few samples at fixed parameters and compare single functions; cross-consistency is not asserted",
    ["src/probnum/randvars/_normal.py", "src/probnum/randvars/_categorical.py", "src/probnum/randvars/_constant.py",
     "src/probnum/randvars/_scipy_stats.py", "src/probnum/randvars/_random_variable.py"],
    [("normal densities and sampling", "src/probnum/randvars/_normal.py"), ("input checks and shape handling", "src/probnum/randvars/_random_variable.py")],
    "runtime monitor: cross-consistency oracle between densities, moments and samples",
    NOTE,
    ["all public methods of random variables"],
)

prop(
    "R03",
    "Indexing, reshaping and transposing act on a random variable's values",
    "Indexing, slicing, masking, reshaping or transposing a random variable yields the random variable of the correspondingly "
    "indexed, reshaped or transposed values: its mean, its covariance between any two entries, its mode, median, "
    "standard deviation and its samples are those of the rearranged entries. Chains of such operations compose.",
    ["programs", "inputs"],
    "for all index expressions numpy accepts, all target shapes and all chains",
    "tests index fixed variables with a few keys and check shapes more often than values",
    ["src/probnum/randvars/_normal.py", "src/probnum/randvars/_random_variable.py", "src/probnum/randvars/_constant.py"],
    [("normal indexing", "src/probnum/randvars/_normal.py:Normal.__getitem__"), ("generic rearrangement", "src/probnum/randvars/_random_variable.py")],
    "runtime monitor: rearrangement oracle on labelled entries",
    NOTE,
    ["mean, cov, sample after rearrangement"],
)

prop(
    "M01",
    "Linear Gaussian transitions propagate and condition exactly",
    "A linear Gaussian transition maps a Gaussian to the exact image Gaussian, and its backward step returns the "
    "exact conditional Gaussian of the input given a realization or a random outcome, with the reported gain and cross-covariance those of the joint law. The "
    "classic and the square-root implementations agree, also for noise-free and singular problems, and with or without "
    "precomputed intermediate results; process noise scales linearly with the diffusion.",
    ["inputs", "configurations"],
    "for all transition matrices (any shape), noise covariances incl. zero, states incl. singular, implementations and optional arguments",
    "tests use one random model and compare implementations at one input",
    ["src/probnum/randprocs/markov/discrete/_linear_gaussian.py", "src/probnum/randprocs/markov/discrete/_lti_gaussian.py",
     "src/probnum/utils/linalg/_cholesky_updates.py", "src/probnum/randprocs/markov/_transition.py"],
    [("classic and square-root forward/backward", "src/probnum/randprocs/markov/discrete/_linear_gaussian.py")],
    "runtime monitor: closed-form conditioning oracle for every transition call",
    NOTE,
    ["returned random variables and info dictionaries"],
)

prop(
    "M02",
    "Continuous transitions have the exact transition law of their SDE",
    "For integrated Wiener, integrated Ornstein-Uhlenbeck, Matern and general linear time-invariant and time-varying SDEs, propagating a state over a time "
    "interval yields the mean and covariance that solve the moment equations, however the interval is split, and "
    "backward steps condition exactly on the later state. Discretised, preconditioned and matrix-free variants give the same law, "
    "and coordinate projections select the coordinate and derivative they name.",
    ["inputs", "configurations"],
    "for all state dimensions, numbers of derivatives, step sizes across orders of magnitude, diffusions and implementations",
    "tests check a few step sizes and mostly one-step matrices; the composition law and backward steps are not checked",
    ["src/probnum/randprocs/markov/continuous/_lti_sde.py", "src/probnum/randprocs/markov/continuous/_linear_sde.py",
     "src/probnum/randprocs/markov/continuous/_mfd.py", "src/probnum/randprocs/markov/integrator/_iwp.py",
     "src/probnum/randprocs/markov/integrator/_ioup.py", "src/probnum/randprocs/markov/integrator/_matern.py",
     "src/probnum/randprocs/markov/integrator/_integrator.py", "src/probnum/randprocs/markov/integrator/_preconditioner.py"],
    [("matrix fraction decomposition", "src/probnum/randprocs/markov/continuous/_mfd.py"),
     ("preconditioned integrators", "src/probnum/randprocs/markov/integrator")],
    "runtime monitor: matrix-exponential (Van Loan) and composition-law oracle",
    NOTE,
    ["forward/backward results of transitions, discretise"],
)

prop(
    "S01",
    "Kalman filtering and smoothing equal exact Bayesian conditioning",
    "On linear Gaussian state-space models the filter returns at every location the exact conditional law of the state given the data up to it, and the "
    "smoother the exact conditional law given all data, in every implementation and for time-varying models. Evaluating "
    "the posterior between, at or after data locations conditions the process exactly, in whatever order queries are made.",
    ["inputs", "histories", "configurations"],
    "for all linear Gaussian models, grids, data (incl. repeated and irregular locations), implementations and query locations",
    "tests check that the error decreases on a fixed car-tracking style problem; exactness of covariances and dense output is not checked",
    ["src/probnum/filtsmooth/gaussian/_kalman.py", "src/probnum/filtsmooth/gaussian/_kalmanposterior.py",
     "src/probnum/randprocs/markov/_transition.py", "src/probnum/problems/_problems.py"],
    [("filter/smooth loops", "src/probnum/filtsmooth/gaussian/_kalman.py"),
     ("interpolation", "src/probnum/filtsmooth/gaussian/_kalmanposterior.py")],
    "runtime monitor: batch Gaussian conditioning oracle over the joint law",
    NOTE,
    ["states of filtering/smoothing posteriors, posterior(t)"],
)

prop(
    "S02",
    "Sampled trajectories follow the joint law they are drawn from",
    "Trajectories drawn from Markov priors, from filtering and from smoothing posteriors have the joint mean and "
    "covariance of the process, or of its exact posterior, at the requested locations in the requested order, for every sample size shape. "
    "Noise scales used along the way are those of the interval a location lies in, and diffusion estimates are the exact estimates for the data they saw.",
    ["inputs", "configurations"],
    "for all linear Gaussian models, location sets (on grid, off grid, unsorted), sample sizes and diffusion models",
    "tests check shapes of samples only; correlations across locations are invisible to them",
    ["src/probnum/randprocs/markov/_transition.py", "src/probnum/randprocs/markov/_markov.py",
     "src/probnum/filtsmooth/gaussian/_kalmanposterior.py", "src/probnum/randprocs/markov/continuous/_diffusions.py"],
    [("base-measure transformation", "src/probnum/randprocs/markov/_transition.py:jointly_transform_base_measure_realization_list_forward"),
     ("diffusion models", "src/probnum/randprocs/markov/continuous/_diffusions.py")],
    "runtime monitor: exact linear response to base-measure realizations, plus statistical moments",
    NOTE,
    ["sample(), transform_base_measure_realizations()"],
)

prop(
    "K01",
    "Covariance functions evaluate to their kernel formula and are PSD",
    "Every covariance function, and every sum, product and scaling of covariance functions, evaluates pointwise to its defining formula "
    "for all broadcasting shapes of the two arguments, and its kernel matrix and matrix-free covariance operator are exactly "
    "those pairwise values. All of them are symmetric and positive semidefinite; hyperparameters act as documented and evaluation does not depend on the memory "
    "representation (integers, non-contiguous arrays) of the inputs.",
    ["programs", "inputs"],
    "for all kernels, hyperparameters, kernel expressions, input shapes incl. scalars and batches, coincident and far-apart points, and number types",
    "tests compare a few kernels with naive loops at one data set; expressions, extreme distances and operators are not enumerated",
    ["src/probnum/randprocs/covfuncs/_covariance_function.py", "src/probnum/randprocs/covfuncs/_arithmetic.py",
     "src/probnum/randprocs/covfuncs/_arithmetic_fallbacks.py", "src/probnum/randprocs/covfuncs/_matern.py",
     "src/probnum/randprocs/covfuncs/_exponentiated_quadratic.py", "src/probnum/randprocs/covfuncs/_rational_quadratic.py"],
    [("broadcasting evaluation and matrix assembly", "src/probnum/randprocs/covfuncs/_covariance_function.py"),
     ("kernel arithmetic", "src/probnum/randprocs/covfuncs/_arithmetic_fallbacks.py")],
    "runtime monitor: closed-form kernel oracle and eigenvalue monitor over random kernel expressions",
    NOTE,
    ["k(x0, x1), k.matrix, k.linop"],
)

prop(
    "F01",
    "Function algebra and Gaussian processes are pointwise what they are made of",
    "Sums, differences, negations and scalings of functions evaluate pointwise to the same expression of the values, with the declared "
    "input and output shapes; mismatching shapes are refused. A Gaussian process evaluated at any set of inputs is the Gaussian with the mean function's "
    "values and the covariance function's pairwise values, entries in matching order, and its samples, variances and standard deviations agree with that law.",
    ["programs", "inputs"],
    "for all function expressions, input/output shapes, batch shapes, mean functions, kernels and multi-output covariances",
    "tests evaluate a few fixed processes and check shapes",
    ["src/probnum/functions/_function.py", "src/probnum/functions/_algebra_fallbacks.py", "src/probnum/functions/_algebra.py",
     "src/probnum/randprocs/_gaussian_process.py", "src/probnum/randprocs/_random_process.py"],
    [("function arithmetic", "src/probnum/functions/_algebra_fallbacks.py"),
     ("finite-dimensional marginals", "src/probnum/randprocs/_gaussian_process.py:GaussianProcess.__call__")],
    "runtime monitor: shadow evaluation of function expressions and finite-dimensional laws",
    NOTE,
    ["f(x), process(x), process.sample"],
)

prop(
    "S03",
    "Nonlinear Gaussian filters condition exactly on their linearised model",
    "Extended and unscented Kalman components return exactly the Gaussian obtained by conditioning the model linearised (by Jacobian, respectively "
    "sigma-point moments) at the stated point; on linear models they are exact and sigma points integrate quadratics exactly. Iterated updates and iterated (Gauss-Newton) "
    "smoothing end at a stationary point of the log-posterior, or report that the iteration limit was hit; the stopping decision does not depend on the sign of the states or on earlier runs.",
    ["inputs", "configurations", "histories"],
    "for all differentiable models, times, linearisation points, diffusions, grids and implementations",
    "tests check that errors decrease on a pendulum example, not the moments themselves",
    ["src/probnum/filtsmooth/gaussian/approx/_extendedkalman.py", "src/probnum/filtsmooth/gaussian/approx/_unscentedkalman.py",
     "src/probnum/filtsmooth/gaussian/approx/_interface.py", "src/probnum/filtsmooth/optim/_iterated_component.py",
     "src/probnum/filtsmooth/optim/_gauss_newton.py", "src/probnum/filtsmooth/optim/_stopping_criterion.py",
     "src/probnum/filtsmooth/gaussian/_kalman.py"],
    [("linearisation interface", "src/probnum/filtsmooth/gaussian/approx/_interface.py"),
     ("iterated smoothing", "src/probnum/filtsmooth/gaussian/_kalman.py:Kalman.iterated_filtsmooth")],
    "runtime monitor: reference recursions on the linearised model and log-posterior gradient at the returned estimate",
    NOTE,
    ["forward/backward results, posterior states"],
)

prop(
    "S04",
    "Particle filtering is sequential importance sampling of the model",
    "The particle filter returns, per observation, the requested number of particles with finite, normalised weights: each proposal starts from a particle of the previous "
    "posterior, is drawn from the stated importance distribution, and its weight is the previous weight times likelihood times prior over "
    "proposal density. Resampling happens exactly when the effective sample size falls below the threshold, keeps only proposed particles and resets "
    "the weights; for many particles the posterior approaches the exact one.",
    ["inputs", "histories", "configurations"],
    "for all models, importance distributions, particle counts, resampling thresholds and data, including wildly unlikely data",
    "tests check an error bound on one pendulum problem; weights and resampling are not observed",
    ["src/probnum/filtsmooth/particle/_particle_filter.py", "src/probnum/filtsmooth/particle/_importance_distributions.py",
     "src/probnum/filtsmooth/particle/_particle_filter_posterior.py", "src/probnum/randvars/_categorical.py"],
    [("filter loop", "src/probnum/filtsmooth/particle/_particle_filter.py:ParticleFilter.filter_generator"),
     ("importance weights", "src/probnum/filtsmooth/particle/_importance_distributions.py")],
    "runtime monitor: recorded proposal trace replayed against the importance-weight recursion",
    NOTE,
    ["importance-distribution calls, draws, support and probabilities of posterior states"],
)

prop(
    "D01",
    "ODE solvers cover the whole interval, hit required stops and keep tolerance",
    "For every initial value problem, every solver (ODE filters, perturbed Runge-Kutta solvers) and every step rule, the solution starts at the initial time with the initial value, "
    "advances in strictly increasing, non-degenerate steps, visits every required stop location inside the interval and ends exactly at the final time. Adaptive steps are "
    "accepted only if the scaled error estimate is below one, rejected attempts are retried from the same state with a smaller step, constant steps have the requested size, and the "
    "resulting error shrinks with tolerance and step size at the solver's order. Problems that cannot be solved (slopes that are not numbers, solutions that cease to exist) end in an error "
    "instead of an endless loop or a solution made up of NaNs. Callbacks see every accepted step once and the solver continues from what they return.",
    ["inputs", "configurations", "histories"],
    "for all initial value problems, solvers, step rules, tolerances, stop locations and callbacks, including vanishing, tiny and huge initial values",
    "tests solve a few textbook problems with default settings and look at the final error",
    ["src/probnum/diffeq/_odesolver.py", "src/probnum/diffeq/stepsize/_steprule.py", "src/probnum/diffeq/stepsize/_propose_firststep.py",
     "src/probnum/diffeq/_probsolve_ivp.py", "src/probnum/diffeq/_perturbsolve_ivp.py", "src/probnum/diffeq/callbacks/_discrete_callback.py",
     "src/probnum/diffeq/odefilter/_odefilter.py"],
    [("step loop", "src/probnum/diffeq/_odesolver.py:ODESolver.solution_generator"),
     ("step-size control", "src/probnum/diffeq/stepsize/_steprule.py:AdaptiveSteps")],
    "runtime monitor: step-rule and callback traces against the step-control specification, accuracy against a high-order reference",
    NOTE,
    ["locations and states of solutions, calls of the step rule, callback invocations"],
)

prop(
    "D02",
    "ODE-filter solutions are the posterior of the linearised residual model",
    "Every accepted step of an ODE filter is the Kalman step of the integrated Wiener process prior conditioned on a zero residual, linearised as its method says (EK0: no Jacobian, EK1: with Jacobian) "
    "at the prediction; error estimate and diffusion estimate are those of the residual, the dynamic diffusion belongs to its own interval and the constant one is the average that calibrates all covariances. "
    "The returned states, derivatives, filtering solution, smoothing, dense output inside, at and beyond the locations, and samples are those of this posterior. "
    "Converting an initial value problem into a regression problem states exactly the same information: the initial value (unless excluded) and a zero residual with the requested noise at the other locations.",
    ["inputs", "configurations", "histories"],
    "for all initial value problems, prior orders, linearisations, diffusion models, initialisations, step sequences and evaluation times",
    "tests check errors on Lotka-Volterra-like problems; covariances, calibration and dense output are not compared with anything",
    ["src/probnum/diffeq/odefilter/_odefilter.py", "src/probnum/diffeq/odefilter/_odefilter_solution.py",
     "src/probnum/diffeq/odefilter/approx_strategies/_ek.py", "src/probnum/diffeq/odefilter/information_operators/_ode_residual.py",
     "src/probnum/diffeq/odefilter/utils/_problem_utils.py", "src/probnum/randprocs/markov/continuous/_diffusions.py"],
    [("filter step with calibration", "src/probnum/diffeq/odefilter/_odefilter.py:ODEFilter.attempt_step"),
     ("post-hoc calibration and smoothing", "src/probnum/diffeq/odefilter/_odefilter.py:ODEFilter.postprocess")],
    "runtime monitor: every attempted step replayed by an independent square-root Kalman recursion; RTS reference for the solution",
    NOTE,
    ["attempt_step inputs and outputs, solution states/derivatives/dense output/samples, measurement models"],
)

prop(
    "D03",
    "ODE filters start from the IVP; perturbed solvers take true Runge-Kutta steps",
    "Initialisation routines give the filter the initial value and slope of the problem (and the second derivative of autonomous problems when the Jacobian is used), with zero or stated uncertainty, for every prior order and dimension. "
    "Every step of the wrapped Runge-Kutta solvers is the step of the published method from the current state, with its embedded error estimate; perturbed solvers take exactly this step over a randomly perturbed step size that is positive and has "
    "the stated mean and spread, advance time by the unperturbed step, are reproducible from their random generator, and their dense output runs through the computed states. Unsupported methods, perturbations and missing tolerances or steps are refused.",
    ["inputs", "configurations", "seeds"],
    "for all initial value problems, methods, perturbation types, noise scales, step sequences and random seeds",
    "tests perform single steps on one problem from the initial value",
    ["src/probnum/diffeq/odefilter/init_routines/_stack.py", "src/probnum/diffeq/odefilter/init_routines/_non_probabilistic_fit.py",
     "src/probnum/diffeq/perturbed/scipy_wrapper/_wrapped_scipy_solver.py", "src/probnum/diffeq/perturbed/scipy_wrapper/_wrapped_scipy_odesolution.py",
     "src/probnum/diffeq/perturbed/step/_perturbedstepsolver.py", "src/probnum/diffeq/perturbed/step/_perturbedstepsolution.py",
     "src/probnum/diffeq/perturbed/step/_perturbation_functions.py", "src/probnum/diffeq/_perturbsolve_ivp.py"],
    [("Runge-Kutta step", "src/probnum/diffeq/perturbed/scipy_wrapper/_wrapped_scipy_solver.py:WrappedScipyRungeKutta.attempt_step"),
     ("perturbed step", "src/probnum/diffeq/perturbed/step/_perturbedstepsolver.py:PerturbedStepSolver.attempt_step")],
    "runtime monitor: attempted-step log replayed from the Butcher tableau; distribution tests of perturbations",
    NOTE,
    ["attempt_step inputs and outputs, dense output, initial random variables"],
)

prop(
    "A01",
    "Linear-solver beliefs are the prior conditioned on exactly what was observed",
    "At every iteration of a probabilistic linear solver the belief is the Gaussian prior conditioned on all observations made so far: projected residuals for solution-based solvers (with or without observation noise), "
    "products A s = y (and their inverse reading) for matrix-based and symmetric matrix-based solvers, whatever the actions are, including repeated ones. Residuals, induced solution and inverse estimates belong to that belief. "
    "The solver stops at the first iteration at which its stopping criterion holds and not before; criteria combined with and, or, not mean the corresponding Boolean expression. "
    "Conjugate-gradient actions are conjugate and reproduce conjugate gradients for the matching prior; random unit vectors have the stated probabilities, and are reproducible. Inconsistent beliefs are refused.",
    ["inputs", "configurations", "histories"],
    "for all linear systems, priors, action sequences, stopping criteria and random seeds",
    "tests run single updates on a few fixed systems; whole histories of beliefs are not compared with conditioning",
    ["src/probnum/linalg/solvers/_probabilistic_linear_solver.py", "src/probnum/linalg/solvers/_state.py",
     "src/probnum/linalg/solvers/belief_updates/solution_based/_projected_residual_belief_update.py",
     "src/probnum/linalg/solvers/belief_updates/matrix_based/_matrix_based_linear_belief_update.py",
     "src/probnum/linalg/solvers/belief_updates/matrix_based/_symmetric_matrix_based_linear_belief_update.py",
     "src/probnum/linalg/solvers/policies/_conjugate_gradient.py", "src/probnum/linalg/solvers/policies/_random_unit_vector.py",
     "src/probnum/linalg/solvers/stopping_criteria/_residual_norm.py", "src/probnum/linalg/solvers/beliefs/_linear_system_belief.py",
     "src/probnum/_pnmethod/_stopping_criterion.py"],
    [("solver loop", "src/probnum/linalg/solvers/_probabilistic_linear_solver.py:ProbabilisticLinearSolver.solve_iterator"),
     ("belief update", "src/probnum/linalg/solvers/belief_updates/")],
    "runtime monitor: solver-state trace with scripted and real policies against dense Gaussian conditioning; stopping-rule replay",
    NOTE,
    ["states yielded by solve_iterator, actions, observations, residuals, beliefs"],
)

prop(
    "A02",
    "problinsolve solves to tolerance and its uncertainty is the conditioned prior",
    "problinsolve returns for every symmetric positive definite system (dense, sparse or matrix-free), right-hand side, initial guess and prior a solution whose residual satisfies the convergence criterion that is reported, "
    "within the iteration limit and in about as many iterations as unknowns; every column of a matrix right-hand side meets the tolerance and the solution has the shape of the right-hand side. "
    "After every iteration the beliefs about the matrix and its inverse are the symmetric Gaussian priors conditioned on all pairs A s = y, the covariance of the solution is the one they induce, and the reported trace is its trace. "
    "Calibrated uncertainty vanishes on the explored space and has the requested scale elsewhere. Inputs stay unchanged and inconsistent ones are refused.",
    ["inputs", "configurations", "histories"],
    "for all symmetric positive definite systems, right-hand sides, initial guesses, priors, tolerances, iteration limits and calibrations",
    "tests solve a handful of systems to convergence with the default prior",
    ["src/probnum/linalg/_problinsolve.py", "src/probnum/linalg/solvers/matrixbased.py"],
    [("iteration", "src/probnum/linalg/solvers/matrixbased.py:SymmetricMatrixBasedSolver.solve"),
     ("output beliefs", "src/probnum/linalg/solvers/matrixbased.py:SymmetricMatrixBasedSolver._get_output_randvars")],
    "runtime monitor: callback trace of every iteration against closed-form symmetric matrix conditioning; truthfulness of info",
    NOTE,
    ["callback arguments, returned random variables and info"],
)

prop(
    "Q01",
    "Kernel embeddings are the kernel integrals; measures sample what they denote",
    "For every supported kernel, integration measure, dimension and hyperparameter, the kernel mean at any point is the integral of the kernel against the measure and the kernel variance is the double integral. "
    "Measures report their domain, have the stated density (normalised or not), and draw samples inside the domain with the moments of that law, reproducibly from the generator. "
    "Unsupported combinations and malformed domains are refused instead of answered wrongly.",
    ["inputs", "configurations"],
    "for all kernels, lengthscales, smoothness parameters, domains, Gaussian measures, dimensions and evaluation points",
    "tests compare with Monte Carlo estimates at a few parameters with loose tolerances",
    ["src/probnum/quad/kernel_embeddings/_kernel_embedding.py", "src/probnum/quad/kernel_embeddings/_expquad_gauss.py",
     "src/probnum/quad/kernel_embeddings/_expquad_lebesgue.py", "src/probnum/quad/kernel_embeddings/_matern_lebesgue.py",
     "src/probnum/quad/integration_measures/_gaussian_measure.py", "src/probnum/quad/integration_measures/_lebesgue_measure.py", "src/probnum/quad/_utils.py"],
    [("closed-form embeddings", "src/probnum/quad/kernel_embeddings/")],
    "runtime monitor: closed forms observed on generated kernels/measures against composite Gauss-Legendre integration of the kernel's definition",
    NOTE,
    ["kernel_mean, kernel_variance, measure density and samples"],
)

prop(
    "Q02",
    "Bayesian quadrature reports the posterior of all its evaluations, within budget",
    "The belief returned by Bayesian quadrature is the Gaussian posterior of the integral given all integrand evaluations made or supplied, with the maximum-likelihood scale if requested, "
    "independently of the order of the data and of whether they arrive at once or in batches; predictions of the integrand are those of the same model, and multilevel beliefs are the sum over the levels. "
    "The integrand is evaluated once per node, only inside the domain, in batches of the requested size, the number of evaluations is reported truthfully, and the method stops at the first state at which a stopping "
    "criterion holds. All documented policies and designs work, choose what they promise (van der Corput points, best random candidate, acquisition values equal to the effect of adding the node), and are reproducible from the generator alone.",
    ["inputs", "configurations", "histories"],
    "for all integrands, kernels, measures, policies, initial designs, options and data sets",
    "tests check shapes, a few integrals with loose tolerance, and that parts are wired",
    ["src/probnum/quad/_bayesquad.py", "src/probnum/quad/solvers/_bayesian_quadrature.py", "src/probnum/quad/solvers/_bq_state.py",
     "src/probnum/quad/solvers/belief_updates/_standard_update.py", "src/probnum/quad/solvers/policies/_max_aquisition_policy.py",
     "src/probnum/quad/solvers/policies/_van_der_corput_policy.py", "src/probnum/quad/solvers/acquisition_functions/_integral_variance_reduction.py",
     "src/probnum/quad/solvers/stopping_criteria/_rel_mean_change.py"],
    [("quadrature loop", "src/probnum/quad/solvers/_bayesian_quadrature.py:BayesianQuadrature.bq_iterator"),
     ("belief update", "src/probnum/quad/solvers/belief_updates/_standard_update.py:BQStandardBeliefUpdate.__call__")],
    "runtime monitor: log of integrand calls replayed by dense GP algebra and by the stopping specification",
    NOTE,
    ["integrand calls, returned belief and info, policies' nodes, acquisition values"],
)

prop(
    "U01",
    "Square-root updates, inner products and orthogonalisation are exact",
    "For every pair of matrix square roots of any shape, rank and scale (tall, wide, triangular, singular, zero), the Cholesky update is the lower-triangular factor with non-negative diagonal of the sum of the covariances, "
    "accurate relative to the covariance and without leaving the square-root form. Inner products and induced norms agree with their definition for arrays and linear operators, batches and axes; "
    "Gram-Schmidt variants return the exact orthogonal component in the chosen inner product, for any scaling of the basis, normalised if asked, with double orthogonalisation reaching machine precision. "
    "Shape and scalar arguments are normalised or refused. None of these functions changes its arguments.",
    ["inputs"],
    "for all square roots, vectors, bases, inner products, batch shapes and argument types",
    "tests use full-rank square matrices of unit scale",
    ["src/probnum/utils/linalg/_cholesky_updates.py", "src/probnum/utils/linalg/_inner_product.py", "src/probnum/utils/linalg/_orthogonalize.py",
     "src/probnum/utils/argutils.py", "src/probnum/utils/arrayutils.py"],
    [("square-root update", "src/probnum/utils/linalg/_cholesky_updates.py:cholesky_update"),
     ("orthogonalisation", "src/probnum/utils/linalg/_orthogonalize.py")],
    "runtime monitor: calls on generated inputs of all shapes and scales checked against the defining identities",
    NOTE,
    ["return values and arguments after the call"],
)

prop(
    "Z01",
    "Zoo problems for quadrature and linear algebra are what they claim",
    "Every quadrature problem of the zoo evaluates the documented integrand on the documented domain, and its reported solution is the integral of that integrand with respect to its measure, for all dimensions and admissible parameters, "
    "also after transformation to a Gaussian measure; points outside the domain and inadmissible parameters are refused. Random matrices are symmetric positive definite with the requested spectrum, sparsity, entry range and format; "
    "random linear systems satisfy A x = b for the reported solution and given solution distribution; everything is reproducible from the generator. SuiteSparse matrices are those of the index entry asked for.",
    ["inputs", "configurations"],
    "for all problems, dimensions, parameters (also partially defaulted), matrix types, solution distributions, sparse formats and generator states",
    "tests check one or two parameter values by Monte Carlo with loose tolerance",
    ["src/probnum/problems/zoo/quad/_quadproblems_uniform.py", "src/probnum/problems/zoo/quad/_quadproblems_gaussian.py", "src/probnum/problems/zoo/quad/_emukit_problems.py",
     "src/probnum/problems/zoo/linalg/_random_spd_matrix.py", "src/probnum/problems/zoo/linalg/_random_linear_system.py", "src/probnum/problems/zoo/linalg/_suitesparse_matrix.py"],
    [("closed-form integrals", "src/probnum/problems/zoo/quad/_quadproblems_uniform.py"),
     ("random matrices", "src/probnum/problems/zoo/linalg/_random_spd_matrix.py")],
    "runtime monitor: generated problems observed pointwise and against independent integrals, eigenvalues and factorisations",
    NOTE,
    ["returned problem objects, integrand values, matrices, fake archive server"],
)

prop(
    "Z02",
    "Zoo problems for ODEs and state-space models are what they claim",
    "Initial value problems of the zoo have the published vector field for all parameters and initial values, derivatives that are the derivatives of that field, the requested time span and initial value, their invariants, "
    "and closed-form solutions that solve the problem, wherever it starts. State-space problems have the dynamics, diffusion, measurement model, initial distribution and time grid that were asked for; "
    "their states and observations are draws from that model, reproducible from the generator. Regression problems pair each location with its observation and measurement model and refuse data of different lengths.",
    ["inputs", "configurations"],
    "for all problems, parameters, initial values, time spans, noise levels, implementations and generator states",
    "tests evaluate each problem once at default parameters and compare types and shapes",
    ["src/probnum/problems/zoo/diffeq/_ivp_examples.py", "src/probnum/problems/zoo/filtsmooth/_filtsmooth_problems.py", "src/probnum/problems/_problems.py",
     "src/probnum/diffeq/odefilter/utils/_problem_utils.py"],
    [("vector fields and Jacobians", "src/probnum/problems/zoo/diffeq/_ivp_examples.py"),
     ("state-space problems", "src/probnum/problems/zoo/filtsmooth/_filtsmooth_problems.py")],
    "runtime monitor: generated problems checked against published fields, finite differences, accurate ODE solutions and residual statistics at the 1e-10 level",
    NOTE,
    ["vector fields, derivatives, simulated states and observations, posterior of the derived filter"],
)

prop(
    "C01",
    "Configuration scopes are exact; options never change results",
    "A configuration scope changes exactly the named options, only while it is active, however scopes are nested and left (also by exceptions), and leaves everything else as set; unknown options, second registrations and "
    "invalid scopes are refused without effect. The options select representations, not results: matrix-free filtering, smoothing, transitions and constants give the distributions of the dense computation, products of operators denote the same matrix "
    "whether formed lazily or at once, models may be built under one setting and used under another, and covariance damping enters only the Cholesky factor, with the value in force when it is first needed or given explicitly.",
    ["histories", "configurations", "inputs"],
    "for all sequences of configuration operations, option values and models",
    "tests set each option once",
    ["src/probnum/_config.py", "src/probnum/linops/_arithmetic.py", "src/probnum/linops/_linear_operator.py", "src/probnum/randvars/_normal.py",
     "src/probnum/randprocs/markov/discrete/_linear_gaussian.py", "src/probnum/randprocs/markov/integrator/_iwp.py", "src/probnum/randprocs/markov/integrator/_preconditioner.py"],
    [("scopes", "src/probnum/_config.py:Configuration.__call__"),
     ("eager products", "src/probnum/linops/_arithmetic.py"),
     ("matrix-free transitions", "src/probnum/randprocs/markov/integrator/_iwp.py")],
    "runtime monitor: random operation histories against a scoped-dictionary model, and paired runs under different options",
    NOTE,
    ["option values after every operation, results of paired runs"],
)

prop(
    "G01",
    "Calls have no side effects on arguments, global state or each other",
    "No public operation of the library changes the arrays it is given, or those inside random variables, linear operators, functions and covariance functions it is given; none changes process-wide state "
    "(NumPy's global generator, floating-point error handling, warning filters, print options, ProbNum's configuration, environment, working directory). "
    "The same calls with equal arguments and generator states give the same results, whatever was computed before in the process and whatever other threads compute at the same time.",
    ["inputs", "histories", "schedules"],
    "for all operations of the library as exercised by the workloads of all other properties, in all orders and interleavings",
    "tests never compare arguments before and after, run each computation once, and use a single thread",
    ["src/probnum/linops/_linear_operator.py", "src/probnum/linops/_kronecker.py", "src/probnum/randvars/_normal.py", "src/probnum/randvars/_random_variable.py",
     "src/probnum/randprocs/markov/discrete/_linear_gaussian.py", "src/probnum/filtsmooth/gaussian/_kalman.py", "src/probnum/diffeq/_odesolver.py",
     "src/probnum/linalg/solvers/_probabilistic_linear_solver.py", "src/probnum/quad/solvers/_bayesian_quadrature.py"],
    [("all public callables", "src/probnum (wrapped at run time by pnmon/sanitizer.py)")],
    "runtime sanitizer: all callables wrapped, arguments and global state compared around every call, traces of repeated and concurrent runs compared",
    NOTE,
    ["arguments and process state before and after every call; numerical results of calls"],
)
