NOT_APPLICABLE = []
BASE_NOTE = "Every scenario in the stated finite space is executed on the real code; the oracle is an independent reference model in /verif/mc. Assumes CasADi itself is correct; nothing is claimed beyond the bounds."
EX = "explicit-state bounded model checking of operation histories on the real code against a reference model"

prop("C01", "States, initial-condition symbols and ODEs stay paired",
     "After any history of creating, including and removing states and of giving their equations (as lists, vectors, or der(x) == expression, in any order), the state vector lists exactly the live states in inclusion order, with one initial-condition symbol per state in the same order, and every derivative is the one stated for that very state. Equations whose state cannot be determined, equations of the wrong size and duplicated states are refused and leave the model unchanged.",
     ["histories"], "all histories of state and ODE operations on a model",
     "The tests make one or two calls each and look at sizes; pairing depends on the whole history.",
     [M + "mixins/continuous_states_mixin.py", M + "system_model.py", M + "utils.py"],
     [("ContinuousStateMixin include/remove/include_equations", M + "mixins/continuous_states_mixin.py")], EX, BASE_NOTE)

prop("C02", "Algebraic, control and parameter vectors hold exactly the live variables",
     "After any history of creating, including, removing and connecting algebraic variables, controls, parameters and thetas, each vector contains exactly the live variables in inclusion order, the algebraic equations are exactly those stated and not removed, and every control keeps its own expression and free parameters. The system handed to the integrators lists states, algebraics and parameters in the documented order [p; theta; u_par].",
     ["histories"], "all histories of variable and equation operations on a model",
     "Unit tests do a single include or remove; mix-ups need several variables and removals from the middle.",
     [M + "mixins/algebraic_mixin.py", M + "mixins/control_mixin.py", M + "mixins/parameter_mixin.py", M + "system_model.py"],
     [("mixins' include/remove", M + "mixins"), ("get_dae_system", M + "system_model.py")], EX, BASE_NOTE)

prop("C03", "Substitution and control parametrisation rewrite every equation and only that",
     "Replacing a variable by an expression, parametrising a control, or connecting a control to an algebraic variable changes the value of every differential, algebraic and control expression of the model exactly as simultaneous mathematical substitution does, and leaves the variable lists otherwise as they were. A control can be parametrised only once; a refused request changes nothing.",
     ["histories", "inputs"], "all histories of substitutions, parametrisations and connections on models with every class of variable",
     "Tests substitute once in one equation; forgotten equations or chained substitutions do not show there.",
     [M + "mixins", M + "system_model.py"], [("replace_variable / parametrize_control / connect", M + "mixins")], EX, BASE_NOTE)

prop("C04", "Copies of a model equal it and are independent of it",
     "A copy or a deep copy of any model has the same variables, equations, parametrisation and names; a deep copy shares no symbol with the original. Nothing done later to one of them, to a copy of the copy, or to an optimal control problem built on a model changes any of the others, including the model the user passed to the problem.",
     ["histories"], "all interleavings of operations on an original and its copies",
     "The tests for copies are empty stubs; aliasing only shows when both sides are modified after the copy.",
     [M + "system_model.py", M + "ocp.py"], [("get_copy / get_deepcopy / OCP working copy", M + "system_model.py")], EX, BASE_NOTE)

prop("C05", "Including, merging and connecting models yields exactly the composed system",
     "A model that includes or merges other models has exactly the concatenation of their variables, initial-condition symbols, equations and control parametrisations, all expressed in its own time variables, plus the stated connecting equations; connecting an input to an output then makes them equal everywhere. The included models are not modified, and grouping (list, one by one, nested) does not matter.",
     ["configurations", "histories"], "all compositions of up to three models in all groupings, followed by connection histories",
     "Tests merge two trivial models; time-dependence, parametrised controls and nesting are never combined.",
     [M + "system_model.py"], [("include_models / merge / connect", M + "system_model.py")], EX, BASE_NOTE)

prop("C06", "Finding, looking up and removing variables is exact",
     "Finding a variable in a vector returns all and only its positions, decided by symbol identity and never by name; removing variables or positions returns the others in order; out-of-range positions and absent variables are refused. Name lookup (exact or regular expression, optionally limited to variable classes) returns all and only the matches in order, and asking for a single variable fails unless exactly one matches.",
     ["inputs"], "all vectors and selections up to the bound, all index lists including negative and out-of-range ones, all name patterns of the alphabet",
     "Tests use one vector of distinct names; repeated names, repeated symbols, boundary indices and class filters are not sampled.",
     ["yaocptool/util/util.py", M + "system_model.py"], [("find_*/remove_* utilities", "yaocptool/util/util.py")],
     "exhaustive enumeration of all inputs up to a bound on the real code against a set-level reference", BASE_NOTE)

prop("C07", "Piecewise data, polynomial parametrisations and time maps are exact",
     "Joining piecewise (per-element) data concatenates the given pieces element by element and refuses data on different elements; constant piecewise data has the requested value everywhere. A polynomial parametrisation takes its parameters' values at its nodes and reproduces every polynomial up to its degree; maps between element time and global time are mutually inverse; relations (strict or not) and equalities are recognised as such; the matrix exponential equals the series.",
     ["inputs", "configurations"], "all tuples of piecewise data shapes; all sizes, degrees and node sets up to the bound; all relation kinds",
     "Tests check one degree and one shape each.",
     ["yaocptool/util/util.py", M + "system_model.py"], [("join_thetas, create_polynomial_approximation, convert_*, is_*", "yaocptool/util/util.py")],
     "exhaustive enumeration of all inputs up to a bound on the real code against closed-form references", BASE_NOTE)

prop("C08", "A DAE system keeps its meaning through joins, substitutions and time maps",
     "After any history of joining DAE systems, substituting variables by expressions or by lists of them, and converting between element time and global time, the system has exactly the concatenated variables, its differential and algebraic equations evaluate to the mathematically substituted ones (with the time-scaling factor applied exactly once per conversion), its type (ODE or DAE) is reported accordingly, the CasADi dictionary form agrees with it, and the other systems involved are unchanged.",
     ["histories"], "all histories of joins, substitutions, conversions and copies on a library of systems",
     "Tests convert or substitute once on one system; scaling twice, aliasing and order of substitution need several steps.",
     [M + "dae_system.py"], [("DAESystem.join / substitute_variable / convert_from_*", M + "dae_system.py")], EX, BASE_NOTE)

prop("C09", "Simulations, equilibria and linearisations follow the model's own equations",
     "Simulating a model or a problem's model from any initial time, over any time grid, with constant or per-element controls, parameters and thetas and with any available integrator yields, at every requested time, the solution of the model's own equations under exactly those inputs, reported on the requested time grid with every variable under its own name. Zero-length steps and inputs of wrong size are refused. Equilibria found satisfy the equations with the fixed quantities kept, and a linearisation is the first-order expansion at the given point.",
     ["inputs", "configurations"], "all combinations of models, initial times, grids, input forms and integrators of the bound",
     "Tests simulate one or two models from t=0 and mostly compare shapes.",
     [M + "system_model.py", M + "dae_system.py", M + "simulation_result.py", M + "ocp.py"],
     [("SystemModel.simulate", M + "system_model.py"), ("DAESystem.simulate", M + "dae_system.py"), ("find_equilibrium / linearize", M + "system_model.py")],
     "exhaustive enumeration of configurations on the real code against an independent integrator", BASE_NOTE)

prop("C10", "A DataSet returns exactly the data that was put in",
     "After any history of creating entries, inserting, extending, sorting, copying, saving and loading, every entry of a data set contains exactly the time stamps and values put in, in the stated order, under the names given; looking up an entry by its own name or by the name of one of its variables gives precisely that data; a copy is independent; plotting draws exactly the requested rows with their own names, interpolated or held until the next time as the entry states, and modifies neither the request nor the data.",
     ["histories"], "all histories of data set operations; all plot requests of the bound",
     "Tests insert once and plot without looking at what was drawn.",
     [M + "dataset.py"], [("DataSet insert/extend/sort/get_copy/plot", M + "dataset.py")], EX, BASE_NOTE)

prop("C11", "Bounds, guesses and initial values of a problem stay with their own variables",
     "After any history of creating, including, removing, connecting and merging, every state, algebraic variable, control, optimisation parameter and optimisation theta of an optimal control problem has exactly the bounds, rate bounds, initial value, guess and last applied value that were given for that very variable (scalar bounds broadcast, absent ones infinite), the vectors have the sizes the pre-solve check requires (a problem with other sizes or non-scalar costs is refused), and the positions of optimised parameters are the right ones. Bounds, guesses or initial values of the wrong size, duplicated states and merging problems on different horizons are refused without changing the problem.",
     ["histories"], "all histories of include, create, remove, connect and merge operations on a problem",
     "Tests include one variable and look at the vector; misalignment needs removals, connections or merges after several inclusions.",
     [M + "ocp.py"], [("OptimalControlProblem include_*/remove_*/connect/merge", M + "ocp.py")], EX, BASE_NOTE)

prop("C12", "Costs and constraints keep their meaning while a problem is edited",
     "After any history of setting costs, adding path, initial, final and parameter constraints (with their evaluation times), building quadratic costs, cost states or adjoint systems, substituting variables, parametrising or connecting controls and merging problems, the costs and constraints of the problem evaluate to the mathematically substituted, summed or concatenated ones, every constraint keeps its evaluation time, and everything is expressed in the problem's own time variables. The merged problems are unchanged.",
     ["histories"], "all histories of cost, constraint and edit operations on problems with every class of variable",
     "Tests apply one operation and check sizes; a cost or constraint missed by a later edit is not seen.",
     [M + "ocp.py", M + "system_model.py"], [("replace_variable / parametrize_control / connect / merge", M + "ocp.py"), ("create_quadratic_cost / create_adjoint_states", M + "ocp.py")], EX, BASE_NOTE)

O = "yaocptool/optimization/"
MB = "yaocptool/methods/base/"
MC = "yaocptool/methods/classic/"
prop("C13", "An optimisation problem is exactly what was stated, and solving it solves that",
     "After any history of creating or including variables with bounds, parameters, constraints (equalities, inequalities, two-sided, or relations in either direction) and objectives, the optimisation problem consists of exactly the stated variables, bounds, constraints and objective, in every supported way of stating them; requests of wrong size or with crossed bounds are refused and leave the problem unchanged. Solving it at any point of the history, repeatedly and with any parameter values, gives the minimiser of the problem as it stands at that moment.",
     ["histories"], "all histories of builder operations and solves",
     "Tests state one variable or constraint at a time and never modify a problem after solving it.",
     [O + "abstract_optimization_problem.py", O + "nonlinear_problem.py", O + "quadratic_problem.py"],
     [("include_variable / include_constraint / solve", O + "abstract_optimization_problem.py")], EX, BASE_NOTE)

prop("C14", "Collocation poses exactly the stated optimal control problem",
     "For every problem, number of elements, state degree, control degree and initial time, the nonlinear program built by collocation has exactly the constraints of the stated problem: the initial condition given to solve, continuity, the model's equations at every collocation point of every element at the right absolute time with that element's control, parameters and theta, path constraints at the requested times of each element, rate bounds between consecutive elements and with the last applied control, final and parameter constraints, and each variable's own bounds. Its objective is the stated cost.",
     ["configurations", "inputs"], "all combinations of models, degrees, elements, initial times, constraint placements, costs and optimised parameters of the bound",
     "Tests solve two linear problems from t=0 with the default degrees and compare the end state; a misplaced constraint, time or bound does not show.",
     [MC + "collocationscheme.py", MB + "solutionmethodsbase.py", MB + "discretizationschemebase.py"],
     [("CollocationScheme.discretize", MC + "collocationscheme.py"), ("create_optimization_problem", MB + "solutionmethodsbase.py")],
     "exhaustive enumeration of configurations; the NLP the code builds is compared with an independent transcription", BASE_NOTE)

prop("C15", "Multiple shooting poses exactly the stated optimal control problem",
     "For every problem, integrator, number of elements, control degree and initial time, the nonlinear program built by multiple shooting has exactly the constraints of the stated problem: the given initial condition, each element's end state being the solution of the model's equations over that element with that element's control, parameters and theta, consistent algebraic variables, path constraints at element ends, rate bounds, final and parameter constraints and each variable's own bounds. Its objective is the stated cost, whether accumulated as a state or as a sum over the elements.",
     ["configurations", "inputs"], "all combinations of models, integrators, degrees, elements, initial times, constraint placements, costs and optimised parameters of the bound",
     "Tests solve two linear problems from t=0 and compare the end state.",
     [MC + "multipleshooting.py", MB + "solutionmethodsbase.py", MB + "discretizationschemebase.py"],
     [("MultipleShootingScheme.discretize", MC + "multipleshooting.py")],
     "exhaustive enumeration of configurations; the NLP the code builds is compared with an independent transcription", BASE_NOTE)

prop("C16", "Every solve uses exactly the data of that call",
     "In any history of solves on one solution method, each solve poses the problem with precisely the initial condition, parameters, thetas, last applied control and initial guess given to that call, falling back to the problem's current ones where the interface says so and refusing the call where required data is missing; earlier calls leave no trace, the arguments are not modified, and the result states the data that was used. Without a given guess the solver starts from the documented guess (the problem's initial values and guesses, or a simulation under them). Solver options of one method never affect another method, the configuration or the caller's dictionary.",
     ["histories", "inputs"], "all forms of a call; all histories of calls and changes of the problem in between, for both schemes and all last-control modes",
     "Tests solve each method once with default arguments.",
     [MB + "solutionmethodsbase.py", MC + "collocationscheme.py", MC + "multipleshooting.py"],
     [("solve / _get_solver_call_args", MB + "solutionmethodsbase.py"), ("create_initial_guess*", MC + "collocationscheme.py"), ("create_initial_guess*", MC + "multipleshooting.py")], EX, BASE_NOTE)

prop("C17", "Results report the solution at the right times under the right names",
     "The result of a solve reports every state, algebraic variable and control value of the solver's solution, each at its own absolute time (also for horizons that do not start at zero) and under its own name, together with the optimised parameters and thetas, the complete parameter values used, the objective and the final accumulated cost. Lookups by type, index, list of indices or name and the data set made from the result contain exactly that data; a result never changes because of later solves.",
     ["configurations", "histories"], "all combinations of models, schemes, degrees, elements, initial times and optimised parameters of the bound; histories of solves",
     "Tests read single values of one result of a problem starting at zero.",
     [MB + "optimizationresult.py", MB + "solutionmethodsbase.py", MC + "collocationscheme.py", MC + "multipleshooting.py"],
     [("OptimizationResult", MB + "optimizationresult.py"), ("create_optimization_result", MB + "solutionmethodsbase.py")],
     "exhaustive enumeration of configurations on the real code; the solver is replaced by one returning a generic point", BASE_NOTE)

prop("C18", "Direct and indirect methods return the optimum of the stated problem",
     "For linear-quadratic problems, from any initial time, with or without final cost, final constraint, control bounds, algebraic equations and optimised parameters or thetas, the direct method returns the minimiser over the stated control parametrisation and its cost, and the indirect method returns states, adjoints and (bounded) controls satisfying Pontryagin's conditions, with the accumulated cost when requested, for both discretisation schemes.",
     ["configurations", "inputs"], "all combinations of problems, methods, schemes, elements, control degrees, initial times, costs, constraints and bounds of the bound",
     "Tests compare two linear problems with stored numbers.",
     [MC + "directmethod.py", MC + "indirectmethod.py", MC + "collocationscheme.py", MC + "multipleshooting.py", M + "ocp.py"],
     [("IndirectMethod.calculate_optimal_control", MC + "indirectmethod.py"), ("create_adjoint_states", M + "ocp.py"), ("DirectMethod.prepare", MC + "directmethod.py")],
     "exhaustive enumeration of configurations on the real code and solver against exact references (all active sets; boundary value problems)", BASE_NOTE)

AL = "yaocptool/methods/augmented_lagrangian.py"
prop("C19", "The augmented Lagrangian relaxes what was chosen and updates by its rules",
     "Whichever algebraic equations, time equalities or state bounds are chosen for relaxation, every iteration poses the original problem without them, their variables becoming controls with their own bounds and guesses, and with each relaxed equation in the cost under its own multiplier and penalty. After every solve each multiplier grows by its penalty times its own violation at every collocation point (only where the violation improved, if so requested), penalties follow the chosen rule up to their maximum, and the iteration stops exactly when the tolerance is met or the iteration limit is reached; the result reports the multipliers used and the violations. On convex problems it converges to the optimum of the original problem.",
     ["histories", "configurations"], "all choices of relaxed equations; all histories of small, medium and large violations under all rules",
     "No unit test covers this method.",
     [AL], [("AugmentedLagrangian", AL)], EX, BASE_NOTE)

NW = M + "network/"
MN = "yaocptool/methods/network/"
prop("C20", "A network composes its nodes through exactly its connections",
     "For any wiring of nodes, made in any order, one signal or several at a time, with connections removed again or with intermediary nodes (inserted at connection or afterwards), the model and problem composed by the network have exactly the nodes' states, equations, parameters, costs, constraints, bounds and initial conditions, on the nodes' common horizon; every connected input carries its own source signal and stops being free, every other input stays free. Composing leaves nodes and network unchanged and can be repeated. Every node keeps a unique id, given ids are kept, lookups by id or name return that node, colour groups partition the nodes without connected pairs, and the simulated initial condition of a node is its part of the simulation of the composed problem.",
     ["histories", "configurations"], "all wirings of small networks, connection orders, vector or scalar connections, removals and intermediary modes; all assignments of given and automatic ids",
     "No unit test covers networks.",
     [NW + "network.py", NW + "node.py", M + "ocp.py", M + "system_model.py"],
     [("Network.connect / get_model / get_problem", NW + "network.py"), ("insert_intermediary_nodes", NW + "network.py"), ("get_initial_condition", NW + "network.py")], EX, BASE_NOTE)

prop("C21", "Distributed methods solve the network's problem block by block",
     "In every iteration each node of the chosen blocks is solved once, block after block (in the given, cyclic or drawn order; default blocks contain every node and no two connected ones), with its own problem plus, for each of its connections, multiplier and penalty terms on the difference to the other end's latest successful signal (the mean of both ends for the Jacobi variant; its guess before there is a solution), started from its own last solution; failed solutions are never used. Intermediary nodes take the minimiser of their terms. Inner iterations stop on insufficient decrease, multipliers and penalties then follow the chosen rule, iterations stop on tolerance or limit, and the result reports exactly the last successful solutions. Serial and distributed execution do the same under every order in which node processes finish; on convex problems the result is the optimum of the composed problem.",
     ["schedules", "histories", "configurations"], "all digraphs on up to 3 nodes, block structures and orders, draws, failing node solutions, update rules, and interleavings of the node processes within the bound",
     "No unit test covers the distributed methods; schedules of processes and failures cannot be sampled by tests.",
     [MN + "distributedaugmetedlagrangian.py", MN + "bipartite_jacobi_admm.py", MN + "intermediary_node_solution_method.py", AL],
     [("DistributedAugmentedLagrangian.solve", MN + "distributedaugmetedlagrangian.py"), ("BipartiteJacobiADMM", MN + "bipartite_jacobi_admm.py"), ("IntermediaryNodeSolutionMethod", MN + "intermediary_node_solution_method.py")],
     "stateless exploration of block schedules, failures and process interleavings of the real code in lock step with a reference state machine (process proxies replaced by a controlled scheduler)", BASE_NOTE)

PM = "yaocptool/mpc/"
prop("C22", "The simulated plant follows its model under exactly the controls it was given",
     "In every history of controls given as values (number, list or matrix) or as functions of time, each control advances the plant by one sampling time, through all its sampling points, along the solution of its own model from its current time and state with its parameters and thetas, under that control (a function is held at its value at the start of each sampling interval); a control of the wrong size is refused and moves nothing. Every measurement, including the one before the first control, is the measurement matrix applied to the states and algebraic variables at that time; noise, when on, enters states and measurements with their own covariances. The plant's data set records exactly these times, states, algebraic variables, controls and measurements.",
     ["histories", "configurations"], "all histories of controls and refused controls; all combinations of models, initial times, measurement matrices, sampling points, guesses and noise of the bound",
     "No unit test covers the plant.",
     [PM + "plant.py", M + "dataset.py"], [("PlantSimulation", PM + "plant.py")],
     EX, BASE_NOTE)

prop("C23", "The MPC applies the optimal control for every new measurement",
     "In every history of MPC runs and fixed-control runs, each iteration of a run measures the plant, estimates the state (the measured state, without an estimator), solves the optimal control problem for exactly that state, completed with a zero cost state or rearranged as configured, with the configured parameters and thetas, the estimated mean and covariance entries mapped to their parameters, and the control applied last, and applies the first element of the solution's control, whatever its degree and whatever the discretisation scheme, for one sampling time. Fixed-control runs apply exactly the given control. A run makes the requested number of iterations, endless ones go on until the plant ends them, and iterations are counted.",
     ["histories", "configurations"], "all histories of runs; all combinations of schemes, elements, control degrees, initial times, sampling, estimators, parameter mappings and rearrangements of the bound",
     "No unit test covers the MPC.",
     [PM + "mpc.py", PM + "plant.py", "yaocptool/estimation/ideal_estimator.py"], [("MPC.run", PM + "mpc.py"), ("MPC.get_new_control", PM + "mpc.py"), ("IdealEstimator.estimate", "yaocptool/estimation/ideal_estimator.py")],
     EX, BASE_NOTE)

prop("C24", "Expressions survive the transport between processes",
     "Whatever mixture of SX and MX expressions and plain data is sent between processes or pickled with the multiprocessing pickler, each message can be loaded on its own, any number of times, in any order relative to other messages and picklers, and yields the same structure, shapes, symbol names and values; expressions of one message still share their symbols.",
     ["schedules", "histories"], "all interleavings of creating, writing and loading several messages, and of chunks of several streams",
     "No unit test covers the serializer; interleavings of messages cannot be sampled by tests.",
     ["yaocptool/util/serializer.py"], [("NewForkingPickler / CasadiPicklerDepickler", "yaocptool/util/serializer.py")],
     "exhaustive enumeration of interleavings of picklers and messages on the real code", BASE_NOTE)

prop("C25", "A timeout interrupts exactly its own block and puts everything back",
     "At whatever point of the guarded block the time limit expires, also through wrapped exceptions and nested timeouts, the block is left there, the timeout says it expired, and the TimeoutError with its message is raised or, if so requested, swallowed; otherwise the block runs to its end, the timeout says it did not expire, and the block's own exceptions (TimeoutErrors included) pass unchanged. Inside a block its own limit is armed; on leaving it the previous handler and the remaining time of the previous alarm are in force again. A timeout object can be used again.",
     ["schedules", "histories"], "every point of every program with up to three nested timeouts at which the alarm can arrive; all histories of uses of one object",
     "No unit test covers timeouts; the point at which the alarm arrives cannot be sampled by tests.",
     ["yaocptool/util/timeout.py"], [("timeout", "yaocptool/util/timeout.py")],
     "exhaustive exploration of alarm delivery points (real signals raised at every point of the programs) against reference semantics", BASE_NOTE)

ES = "yaocptool/estimation/"
prop("C26", "Kalman filters follow the Kalman recursion of their model on every history",
     "Along every history of measurements and applied controls, each filter (extended, unscented, polynomial chaos) predicts by simulating its own model over one sampling time from its current time, estimate, parameters and thetas under the applied control, propagates the covariance (by the matrix exponential of the model linearised at the prediction and the applied control for the extended filter, by the weighted sigma points of the current estimate, all simulated, for the unscented one, exactly for linear models for the polynomial-chaos one), adds the process noise, and corrects prediction and covariance with the gain of its measurement model (matrix, matrix with direct term, or function, of states and algebraic variables) and measurement noise. It returns, keeps and records mean and covariance of the states at the measurement time, for any number of states, algebraic variables, controls and measurements, and the next call continues one sampling time later.",
     ["histories", "configurations"], "all histories of controls and measurements; all combinations of models, measurement models, covariances, initial times, orders and numbers of samples of the bound",
     "No unit test covers the estimators; errors show only along histories of several measurements or in particular dimensions.",
     [ES + "extended_kalman_filter.py", ES + "unscented_kalman_filter.py", ES + "pce_kalman_filter.py"],
     [("ExtendedKalmanFilter.estimate", ES + "extended_kalman_filter.py"), ("UnscentedKalmanFilter.estimate", ES + "unscented_kalman_filter.py"), ("PCEKalmanFilter.estimate", ES + "pce_kalman_filter.py")],
     EX, BASE_NOTE)

ST = "yaocptool/stochastic/"
prop("C27", "Samples follow their distribution; expansions reproduce polynomials",
     "For any mean and covariance, normal samples are the mean plus the Cholesky factor of the covariance times the standard normal Sobol points of that dimension and number, and log-normal ones the exponential of normal samples around the logarithm of the mean, one column per sample, all finite. The polynomial chaos basis consists of the constant, first, and of every product of (probabilists') Hermite polynomials up to the total order, once each; the factor returned with it gives the (regularised) least-squares coefficients over the same Sobol points, so that any polynomial of that order is reproduced, and the returned expectations are those of the squared basis polynomials.",
     ["inputs", "configurations"], "dimensions, numbers of samples, covariances, orders and regularisations of the bound",
     "No unit test covers sampling and expansions.",
     [ST + "util.py", ST + "pce.py"], [("sample_parameter_normal_distribution_with_sobol", ST + "util.py"), ("get_ls_factor", ST + "pce.py")],
     EX, BASE_NOTE)

prop("C28", "A stochastic problem becomes the deterministic problem of its samples",
     "Whatever parameters and initial conditions are declared uncertain, in any order, jointly or one by one, with numeric or symbolic means, the converted problem has for every sample a copy of the states and algebraic variables, with the original equations at the sampled parameters and a state integrating the cost; controls, remaining parameters and thetas are common; every copy starts from the original initial condition, the uncertain entries from their sample. The objective is the mean coefficient of the sample costs; mean, variance and coefficients of costs, tracked expressions and chance constraints are tied to the samples by the expansion, and mean + sqrt(prob/(1-prob)) standard deviations of a chance constraint stay below its right-hand side at the end of every element. Horizon, bounds, guesses, optimisation variables and remaining constraints are kept, the stochastic problem is unchanged, malformed declarations are refused and change nothing; costs and constraints that cannot be converted are refused.",
     ["configurations", "histories"], "all ordered choices of uncertain quantities, and ways of declaring them, orders, sample numbers, constraints and tracked expressions of the bound",
     "No unit test covers stochastic problems.",
     [ST + "pce.py", M + "stochastic_ocp.py"], [("PCEConverter.convert_socp_to_ocp_with_pce", ST + "pce.py"), ("StochasticOCP", M + "stochastic_ocp.py")],
     EX, BASE_NOTE)
