"""Write properties.jsonl and MANIFEST.json (the texts live here)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
Y = "yaocptool/"
F = dict(
    coll=Y + "methods/classic/collocationscheme.py", ms=Y + "methods/classic/multipleshooting.py",
    db=Y + "methods/base/discretizationschemebase.py", sm=Y + "methods/base/solutionmethodsbase.py",
    res=Y + "methods/base/optimizationresult.py", al=Y + "methods/augmented_lagrangian.py", ocp=Y + "modelling/ocp.py",
    sys=Y + "modelling/system_model.py", cs=Y + "modelling/mixins/continuous_states_mixin.py", alg=Y + "modelling/mixins/algebraic_mixin.py",
    ctl=Y + "modelling/mixins/control_mixin.py", par=Y + "modelling/mixins/parameter_mixin.py", dae=Y + "modelling/dae_system.py",
    opt=Y + "optimization/abstract_optimization_problem.py", nlp=Y + "optimization/nonlinear_problem.py", qp=Y + "optimization/quadratic_problem.py",
    util=Y + "util/util.py", ds=Y + "modelling/dataset.py", sim=Y + "modelling/simulation_result.py", mut=Y + "modelling/utils.py",
    dm=Y + "methods/classic/directmethod.py", im=Y + "methods/classic/indirectmethod.py", net=Y + "modelling/network/network.py",
    node=Y + "modelling/network/node.py", dal=Y + "methods/network/distributedaugmetedlagrangian.py",
    ins=Y + "methods/network/intermediary_node_solution_method.py", admm=Y + "methods/network/bipartite_jacobi_admm.py",
    mpc=Y + "mpc/mpc.py", plant=Y + "mpc/plant.py", ekf=Y + "estimation/extended_kalman_filter.py", ukf=Y + "estimation/unscented_kalman_filter.py",
    pkf=Y + "estimation/pce_kalman_filter.py", ide=Y + "estimation/ideal_estimator.py", pce=Y + "stochastic/pce.py", su=Y + "stochastic/util.py", socp=Y + "modelling/stochastic_ocp.py",
    ser=Y + "util/serializer.py", tmo=Y + "util/timeout.py", cfg=Y + "config.py", dres=Y + "methods/base/distributed_optimization_result.py",
)


def P(i, title, statement, over, qtext, why, files, mech):
    return dict(id=i, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                anchors=dict(files=[F[f] for f in files], mechanism=[dict(name=n, where=F[f] + ":" + w) for n, f, w in mech]))


IN, PR, CF, HI = "inputs", "programs", "configurations", "histories"
L = [
 P("P01", "Decision vector layout: writer, reader, bounds and guess agree",
   "For every problem, degree and number of finite elements, each state, algebraic and control coefficient and each free parameter occupies exactly one position of the flat decision vector, element by element, and the lower bounds, upper bounds and initial guess have the same length and order. Unpacking the vector returns each quantity at the position where packing put it, for the collocation and the multiple-shooting transcription alike.",
   [IN, CF], "all models (any number of states, algebraics, controls, parameters), degrees, numbers of elements, with and without optimisation parameters", "the suite never builds a discretised problem; a swapped block or shifted offset still yields a well-formed vector and only mislabels results for particular dimensions",
   ["coll", "ms", "db"], [("packing and bounds", "coll", "CollocationScheme._create_nlp_symbolic_variables"), ("unpacking", "coll", "CollocationScheme.unpack_decision_variables"), ("packing and bounds", "ms", "MultipleShootingScheme._create_nlp_symbolic_variables"), ("unpacking", "ms", "MultipleShootingScheme.unpack_decision_variables"), ("initial guess", "coll", "CollocationScheme.create_initial_guess")]),
 P("P02", "Numerical parameter vector matches the parameter symbols of the problem",
   "The values handed to the solver for the model parameters, the per-element parameters, the initial condition and the last control are laid out in exactly the order and size in which the corresponding symbols were declared, for every combination of these that is present or absent. User-supplied values take precedence over stored ones, and multipliers and penalty parameters join that vector without displacing user parameters.",
   [IN, CF], "all combinations of parameters, per-element parameters, initial-condition and last-control parameters, any sizes", "a misordered parameter vector has the right length and solves; only particular combinations of options reveal it",
   ["sm", "al", "util", "opt"], [("symbols", "sm", "SolutionMethodsBase.create_optimization_problem"), ("values", "sm", "SolutionMethodsBase._get_solver_call_args"), ("multipliers into parameters", "al", "AugmentedLagrangian.join_nu_to_theta"), ("defaults", "opt", "AbstractOptimizationProblem.get_default_call_dict")]),
 P("P03", "Symbol order and DAE view of a model are consistent",
   "The canonical list of all symbols of a model, its names, the helper that arranges user values in that order, and the inputs of every function or integrator built from the model use one and the same order. The DAE view contains every equation, variable and parameter of the model with controls replaced by their parametrisation and normalised time converted to physical time.",
   [PR, IN], "all models and all values", "all consumers are called positionally; a swap between same-sized groups type-checks and passes shape checks",
   ["sys", "dae", "db"], [("order", "sys", "SystemModel.all_sym"), ("values", "sys", "SystemModel.put_values_in_all_sym_format"), ("DAE view", "sys", "SystemModel.get_dae_system"), ("integrator", "dae", "DAESystem._create_integrator")]),
 P("P04", "Every variable of a control problem keeps its own bounds, guess and initial data",
   "Whenever a variable is created, included, removed or connected in an optimal control problem, the vectors of bounds, rate bounds, initial conditions and guesses stay the same length as the variable vector and element i always belongs to variable i. Constraint lists grow only by what was asked, and every count reported by the problem is the size of the list it names.",
   [HI, IN], "all sequences of create/include/remove/connect/merge operations with scalar or vector bounds", "misalignment appears only after particular sequences (removing a middle variable, mixing scalar and vector bounds) that tests do not enumerate",
   ["ocp", "util"], [("include", "ocp", "OptimalControlProblem.include_state"), ("include", "ocp", "OptimalControlProblem.include_control"), ("remove", "ocp", "OptimalControlProblem.remove_algebraic"), ("remove", "ocp", "OptimalControlProblem.remove_control"), ("connect", "ocp", "OptimalControlProblem.connect")]),
 P("P05", "An optimisation problem reaches the solver complete and in step",
   "In a static optimisation problem the variables and their bounds, the constraints and their bounds, and the parameters grow in lockstep; an equality is bounded to zero on both sides and an inequality keeps the direction in which it was written. The solver is always built from the current variables, parameters, objective and constraints with the options in force, is rebuilt after the problem changes, and is called with the current bounds and the values supplied by the user.",
   [HI, IN], "all sequences of variable, parameter, constraint and objective definitions, interleaved with solves", "tests use a handful of tiny problems; direction, padding and staleness errors show only for other forms and histories",
   ["opt", "nlp", "qp", "util"], [("variables", "opt", "AbstractOptimizationProblem.include_variable"), ("constraints", "opt", "AbstractOptimizationProblem.include_constraint"), ("inequality", "opt", "AbstractOptimizationProblem.include_inequality"), ("call", "opt", "AbstractOptimizationProblem._get_solver_call_args"), ("solver", "nlp", "NonlinearOptimizationProblem._create_solver"), ("solver", "qp", "QuadraticOptimizationProblem._create_solver")]),
 P("P06", "Replacing, removing or renaming a variable is complete",
   "After a variable is replaced, parametrised, removed or unified with another, every expression held by the model or the problem (dynamics, algebraic equations, control expressions, costs, all kinds of constraints) refers to the new symbol and none keeps the old one. Looking a variable up by name or position returns exactly that variable, and removing variables leaves all the others untouched and in order.",
   [PR, HI], "all models, expressions and replacement sequences", "an expression that was left out is noticed only by a problem that uses that particular kind of term",
   ["ocp", "sys", "cs", "alg", "ctl", "dae", "util"], [("problem", "ocp", "OptimalControlProblem.replace_variable"), ("dynamics", "cs", "ContinuousStateMixin.replace_variable"), ("algebraics", "alg", "AlgebraicMixin.replace_variable"), ("controls", "ctl", "ControlMixin.replace_variable"), ("DAE", "dae", "DAESystem.substitute_variable"), ("lookup", "util", "find_variables_indices_in_vector")]),
 P("P07", "Calls do not modify the data the caller handed in",
   "No call of the library changes a list, dictionary, matrix or option set passed to it beyond the objects it is documented to build up, and no call changes the library-wide default options. Two objects built from the same user data or the same defaults therefore never influence each other.",
   [HI, IN], "all calls, with any arguments, in any order", "a leaked mutation is visible only to a later call or to another object sharing the data",
   ["sm", "al", "ocp", "sys", "dae", "net", "ds", "opt"], [("solver options", "sm", "SolutionMethodsBase.__init__"), ("options", "al", "AugmentedLagrangian.__init__"), ("cost data", "ocp", "OptimalControlProblem.create_quadratic_cost"), ("options", "opt", "AbstractOptimizationProblem.__init__")]),
 P("P08", "Time grids are exact",
   "Element boundaries divide the horizon from its start to its end into equally long elements, interpolation times are the element start plus the element length times the interpolation points of the respective degree, and every expression is evaluated at the time that belongs to its element and point. This holds for horizons that do not start at zero and for every degree and number of elements.",
   [CF, IN], "all horizons, numbers of elements and degrees", "off-by-one and missing-offset errors vanish for the default horizon starting at zero and for single-element or equal-degree cases",
   ["sm", "db", "coll", "ms"], [("element grid", "sm", "SolutionMethodsBase.time_breakpoints"), ("points", "sm", "SolutionMethodsBase.collocation_points"), ("interpolation grid", "coll", "CollocationScheme.time_interpolation"), ("evaluation times", "coll", "CollocationScheme._create_time_dict_for_collocation"), ("evaluation times", "ms", "MultipleShootingScheme._create_time_dict_for_multiple_shooting")]),
 P("P09", "Collocation transcription imposes every condition of the control problem",
   "The discretised problem contains, for every finite element: the dynamics at every collocation point scaled by the element length, every algebraic equation, continuity to the next element, all point-wise, time-specific, initial and final constraints with their own bounds, control-rate limits between neighbouring elements, and the complete cost. Nothing is dropped, duplicated or attached to a different element, point or parameter value.",
   [PR, CF], "all control problems and discretisation settings", "a dropped or misplaced constraint still gives a solvable problem with a plausible solution; the suite has no discretisation test",
   ["coll", "db", "dm", "sm"], [("transcription", "coll", "CollocationScheme.discretize"), ("evaluation", "coll", "CollocationScheme.get_system_at_given_times"), ("cost", "dm", "DirectMethod._create_cost_state"), ("basis", "sm", "SolutionMethodsBase._create_lagrangian_polynomial_basis")]),
 P("P10", "Multiple-shooting transcription imposes every condition of the control problem",
   "The discretised problem contains, for every finite element, the integrated dynamics over exactly that element linked to the next initial state, consistency of the algebraic variables, all point-wise, time-specific and final constraints with their own bounds, control-rate limits and the complete cost. Nothing is dropped, duplicated or evaluated with another element's variables or parameters.",
   [PR, CF], "all control problems and discretisation settings", "same as for collocation; the shooting code is not exercised by the suite",
   ["ms", "db", "dm", "sm", "dae"], [("transcription", "ms", "MultipleShootingScheme.discretize"), ("evaluation", "ms", "MultipleShootingScheme.get_system_at_given_times"), ("integration", "dae", "DAESystem.simulate")]),
 P("P11", "Solution results report the solver's answer faithfully",
   "The result of a solve carries the objective, decision vector, constraint values, multipliers, parameter values, initial condition and horizon of that very solve, and its state, algebraic and control trajectories are the unpacked decision vector labelled with the right names and placed at the right times. Accessors, data-set export and the first control move return exactly those data.",
   [IN, HI], "all solves and all result queries", "mislabelled or shifted trajectories look plausible; no test inspects a result object",
   ["res", "coll", "ms", "sm", "ds"], [("assembly", "coll", "CollocationScheme.set_data_to_optimization_result_from_raw_data"), ("assembly", "ms", "MultipleShootingScheme.set_data_to_optimization_result_from_raw_data"), ("creation", "sm", "SolutionMethodsBase.create_optimization_result"), ("export", "res", "OptimizationResult.to_dataset")]),
 P("P12", "A model keeps variables, equations and names consistent",
   "Under any sequence of create, include, remove, merge and copy operations a system model holds each variable once, in insertion order, with its own differential or algebraic equation, control expression and name; removing one removes exactly its own data. Copies are equal to the original and deep copies share no symbols with it.",
   [HI, PR], "all sequences of model-building operations", "the suite checks single operations on small models; alignment errors need particular sequences",
   ["sys", "cs", "alg", "ctl", "par", "mut"], [("states", "cs", "ContinuousStateMixin.include_state"), ("algebraics", "alg", "AlgebraicMixin.include_algebraic"), ("controls", "ctl", "ControlMixin.include_control"), ("parameters", "par", "ParameterMixin.remove_parameter"), ("copy", "sys", "SystemModel.get_deepcopy")]),
 P("P13", "Augmented Lagrangian multiplier and penalty updates follow the method",
   "Each outer iteration adds the penalty-weighted violation of every relaxed condition at every point of every element to the multiplier of that same condition and point, and the reported violation is the one of that iterate. The penalty follows its growth rule up to its cap, the stopping rules and acceptance options act as configured, and the multipliers passed on are the latest ones.",
   [HI, CF], "all iterations, option settings, numbers of relaxed conditions, degrees and elements", "needs a solver run with several outer iterations and particular options",
   ["al", "util"], [("update function", "al", "AugmentedLagrangian._create_nu_update_func"), ("update", "al", "AugmentedLagrangian._compute_new_nu_and_error"), ("penalty", "al", "AugmentedLagrangian._update_mu"), ("loop", "al", "AugmentedLagrangian.solve")]),
 P("P14", "The relaxed problem moves exactly the selected conditions into the cost",
   "Relaxing algebraic equations, time equalities, inequalities or state bounds removes exactly those conditions from the constraints and adds for each one the multiplier term and half the penalty times its square to the running cost. Conditions not selected stay untouched, freed variables become controls that keep their own bounds and guesses, and one multiplier polynomial exists per relaxed condition.",
   [PR, CF], "all problems and all selections of conditions to relax", "selections other than 'everything' and problems with several kinds of conditions are never tested",
   ["al", "ocp"], [("algebraic", "al", "AugmentedLagrangian._relax_algebraic_equations"), ("time equalities", "al", "AugmentedLagrangian._relax_time_equalities"), ("bounds", "al", "AugmentedLagrangian._relax_states_constraints"), ("inequalities", "al", "AugmentedLagrangian._relax_inequalities"), ("cost", "al", "AugmentedLagrangian._include_relax_in_objective")]),
 P("P15", "Network composition preserves every node and connection",
   "The model or problem assembled from a network contains each node's variables, equations, costs and constraints exactly once, plus one equality per connection between precisely the two connected quantities. Inserting intermediary nodes, colouring, looking up and removing nodes or connections keep the graph and its data consistent.",
   [PR, HI], "all networks and edit sequences", "network code has no tests; errors appear for particular topologies",
   ["net", "node", "sys", "ocp"], [("problem", "net", "Network.get_problem"), ("model", "net", "Network.get_model"), ("connect", "net", "Network.connect"), ("intermediary", "net", "Network.insert_intermediary_nodes"), ("merge", "ocp", "OptimalControlProblem.merge"), ("merge", "sys", "SystemModel.merge")]),
 P("P16", "Distributed solution exchanges the right neighbour data",
   "In the distributed methods every node is solved with the latest values of exactly the neighbour quantities it is connected to, arranged in the order its relaxed coupling conditions expect, and its multipliers and penalties are updated from its own violations. Block order, inner-iteration counts and the stopping tolerance follow the options.",
   [HI, CF, PR], "all networks, block partitions and option settings", "needs multi-node runs; the suite has none",
   ["dal", "ins", "admm", "dres"], [("exchange", "dal", "DistributedAugmentedLagrangian._get_node_theta"), ("setup", "dal", "DistributedAugmentedLagrangian._include_exogenous_variables"), ("update", "dal", "DistributedAugmentedLagrangian._update_parameters"), ("intermediary node", "ins", "IntermediaryNodeSolutionMethod.solve")]),
 P("P17", "Time-series data sets keep names, times and values aligned",
   "In a recorded data set each named entry holds as many time stamps as value columns, with as many rows as names; inserting, extending, sorting, copying and exporting never mix entries, drop or duplicate samples, or separate a value from its time. Sorting orders samples by time, and extending by another data set appends all its samples to the entries of the same name.",
   [HI, IN], "all sequences of insertions, extensions and sorts", "no test covers data sets; errors need unsorted or partially overlapping data",
   ["ds", "sim", "res"], [("insert", "ds", "DataSet.insert_data"), ("sort", "ds", "DataSet.sort"), ("extend", "ds", "DataSet.extend"), ("export", "res", "OptimizationResult.to_dataset")]),
 P("P18", "Simulation integrates the model the user described, interval by interval",
   "A simulation starts from the given initial condition, covers every interval of the time grid in order with that interval's controls and per-interval parameters, feeds each final state and algebraic value into the next interval, and reports every boundary value with its time and names. Controls and parameters that are given reach the integrator in the slots of the symbols they belong to, and what is missing is rejected or defaulted as documented.",
   [IN, CF], "all grids, control signals and parameter values", "tests use one or two intervals with constant inputs",
   ["sys", "dae", "sim", "ocp"], [("driver", "sys", "SystemModel.simulate"), ("step", "dae", "DAESystem.simulate"), ("result", "sim", "SimulationResult.extend"), ("problem", "ocp", "OptimalControlProblem.simulate")]),
 P("P19", "Closed-loop operation passes the right data between plant, estimator and solver",
   "At each sampling step the controller measures, estimates, solves with the current state, parameters and previous control, and applies the first control to the plant before the next step; the plant advances exactly one sampling time per applied control and records state, control and measurement at the matching times. Fixed-control runs apply the prescribed control in every step.",
   [HI, IN], "all run lengths, parameter settings and processing hooks", "closed-loop code has no tests and its effects span several steps",
   ["mpc", "plant"], [("loop", "mpc", "MPC.run"), ("solve", "mpc", "MPC.get_new_control"), ("plant step", "plant", "PlantSimulation._advance"), ("measure", "plant", "PlantSimulation._measure"), ("record", "plant", "PlantSimulation._save_data")]),
 P("P20", "State estimators implement their filter equations",
   "The extended, unscented and polynomial-chaos Kalman filters propagate mean and covariance through the model, form innovation, cross-covariance and gain with the stated noise matrices and weights, and correct mean and covariance with them, carrying the result to the next call. The ideal estimator returns the plant's own state.",
   [IN, HI], "all models, measurements and noise matrices", "filters have no tests; a wrong sign, weight or transpose still yields finite estimates",
   ["ekf", "ukf", "pkf", "ide"], [("EKF", "ekf", "ExtendedKalmanFilter.estimate"), ("UKF", "ukf", "UnscentedKalmanFilter._estimate_standard_ukf"), ("sigma points", "ukf", "UnscentedKalmanFilter._get_sigma_points_and_weights"), ("PCE", "pkf", "PCEKalmanFilter.estimate")]),
 P("P21", "Uncertain problems convert to one scenario per sample with correct statistics",
   "Converting a stochastic control problem creates for each sample one copy of the uncertain states and equations with that sample's parameter or initial value, keeps the certain parts shared, and builds mean, variance, objective and chance constraints from the polynomial coefficients as stated. Declaring parameters or initial conditions uncertain keeps means, covariances and indices aligned with the variables.",
   [PR, CF], "all stochastic problems, sample counts and polynomial orders", "the stochastic part has no tests",
   ["pce", "su", "socp"], [("conversion", "pce", "PCEConverter.convert_socp_to_ocp_with_pce"), ("statistics", "pce", "PCEConverter._include_statistics_of_expression"), ("samples", "pce", "PCEConverter._sample_parameters"), ("declaration", "socp", "StochasticOCP.include_uncertain_parameter"), ("chance constraints", "socp", "StochasticOCP.include_time_chance_inequality")]),
 P("P22", "Vector, parameter and polynomial helpers do exactly what they state",
   "The helper functions that search or remove elements of symbolic vectors, replicate and join per-element parameters, build Lagrange bases and polynomial approximations, classify constraints as equalities or inequalities, convert normalised to physical time, serialise symbolic objects, and time or limit code blocks return the stated result for every valid input and reject invalid input.",
   [IN], "all inputs", "they are used everywhere with sizes and orders other than those the tests sample",
   ["util", "ser", "tmo"], [("search", "util", "find_variables_indices_in_vector"), ("removal", "util", "remove_variables_from_vector_by_indices"), ("join", "util", "join_thetas"), ("basis", "util", "create_polynomial_approximation"), ("serialiser", "ser", "CasadiPicklerDepickler.dumps")]),
 P("P23", "The indirect method derives its boundary value problem correctly",
   "The indirect method adds one adjoint per state with the negative state gradient of the Hamiltonian as its dynamics, eliminates each control through the stationarity condition respecting its bounds, and imposes the transversality conditions at the end of the horizon. It rejects problems it cannot treat.",
   [PR], "all control problems", "no test runs the indirect method beyond construction",
   ["im", "ocp"], [("setup", "im", "IndirectMethod.prepare"), ("optimal control", "im", "IndirectMethod.calculate_optimal_control"), ("adjoints", "ocp", "OptimalControlProblem.create_adjoint_states")]),
 P("P24", "Model equations written by the user are recorded as written",
   "Each differential equation given as a derivative equality, in any order, as lists or vectors, becomes the right-hand side of exactly the state it differentiates; each algebraic equality is stored as the difference of its sides, and each variable gets at most one dynamics. Unknown, duplicated or malformed equations are rejected.",
   [PR, IN], "all ways of writing the equations of a model", "tests cover a few syntactic forms only",
   ["cs", "alg", "mut", "sys", "ocp"], [("differential", "cs", "ContinuousStateMixin._include_equation_from_diff_equations"), ("explicit", "cs", "ContinuousStateMixin._include_equation_from_kwargs"), ("algebraic", "alg", "AlgebraicMixin.include_equations"), ("derivative", "mut", "Derivative.__eq__")]),
 P("P25", "The cost the solver minimises is the cost the user defined",
   "The running, terminal and path-sum costs given by the user, including quadratic costs with their weights and references and the costs contributed by merged problems, all enter the objective exactly once with their own factor. Neither discretisation, variable replacement nor relaxation loses, doubles or rescales a term.",
   [PR, CF], "all combinations of cost terms, methods and cost-handling options", "objective terms other than the common running cost are not exercised by the suite",
   ["ocp", "dm", "coll", "ms", "al"], [("quadratic cost", "ocp", "OptimalControlProblem.create_quadratic_cost"), ("cost state", "ocp", "OptimalControlProblem.create_cost_state"), ("objective", "coll", "CollocationScheme.discretize"), ("objective", "ms", "MultipleShootingScheme.discretize"), ("merge", "ocp", "OptimalControlProblem.merge")]),
 P("P26", "Linearisation and equilibrium search are about the requested point",
   "Linearising a model returns the Jacobians of its own equations with respect to states and controls evaluated at the requested point, with every given value bound to its own symbol. The equilibrium search solves the model's own stationary equations together with the extra conditions and returns values in the order of the variables.",
   [PR, IN], "all models, operating points and extra conditions", "tests use one small linear model",
   ["sys"], [("linearise", "sys", "SystemModel.linearize"), ("equilibrium", "sys", "SystemModel.find_equilibrium")]),
 P("P27", "Controls are parametrised on the grid and degree that was chosen",
   "Each control is represented per element by a polynomial of the chosen degree (a constant for degree one) with one coefficient per interpolation point, its expression replaces the control in the model, and its coefficients are what the decision vector holds. User-parametrised controls keep the user's expression and parameters.",
   [CF, PR], "all control degrees, numbers of controls and user parametrisations", "only the default parametrisation could be exercised and the suite does not solve problems",
   ["sm", "dm", "ctl", "db"], [("approximation", "sm", "SolutionMethodsBase.create_control_approximation"), ("installation", "dm", "DirectMethod._parametrize_control"), ("model side", "ctl", "ControlMixin.parametrize_control")]),
 P("P28", "Defaults and options take effect as documented",
   "Every option left out takes its documented default, every option given overrides the default, and each option reaches the component it configures. This covers constructor arguments, option classes and the library-wide configuration.",
   [CF], "all subsets of options given or omitted", "tests set few options and rarely observe what the rest default to",
   ["cfg", "sm", "al", "ocp", "db", "dal", "mpc", "plant"], [("configuration", "cfg", "SOLVER_OPTIONS"), ("method options", "sm", "SolutionMethodsBase.__init__"), ("option class", "al", "AugmentedLagrangianOptions"), ("problem defaults", "ocp", "OptimalControlProblem.__init__")]),
 P("P29", "Invalid requests are rejected, valid ones are not",
   "Requests that the library declares invalid (wrong sizes, duplicated or unknown variables, conflicting or missing arguments, unsupported settings) raise an error under exactly the stated conditions, and no valid request does. A rejected request leaves no more of the object modified than it does today.",
   [IN, HI], "all argument combinations and object states", "error paths are sampled sparsely; a weakened or misplaced validation passes every test that only uses valid input",
   ["ocp", "sys", "cs", "alg", "ctl", "opt", "util", "dae"], [("sizes", "ocp", "OptimalControlProblem.include_state"), ("pre-solve", "ocp", "OptimalControlProblem.pre_solve_check"), ("duplicates", "cs", "ContinuousStateMixin.include_state"), ("bounds", "opt", "AbstractOptimizationProblem.include_constraint")]),
]
NA = [
 P("N01", "Solutions are optimal and iterations converge",
   "For every well-posed problem the direct and indirect methods return a local optimum, and the augmented Lagrangian and distributed iterations converge to a feasible one.",
   [IN, HI], "all problems and starting points", "convergence depends on the numerical solver and the problem", ["al", "dal", "sm"], [("loop", "al", "AugmentedLagrangian.solve")]),
 P("N02", "Integrated trajectories are accurate to tolerance",
   "Simulated trajectories and collocation polynomials approximate the exact solution of the differential equations within the requested tolerance.",
   [IN], "all models and tolerances", "truncation error is a runtime quantity", ["dae", "coll"], [("integrator", "dae", "DAESystem._create_integrator")]),
 P("N03", "Filters are statistically consistent",
   "Estimates are unbiased and the reported covariance matches the actual error statistics for every admissible noise sequence.",
   [HI], "all noise sequences", "a statement about distributions of runtime values", ["ekf", "ukf", "pkf"], [("UKF", "ukf", "UnscentedKalmanFilter.estimate")]),
 P("N04", "Polynomial-chaos statistics converge to the true moments",
   "Means and variances computed from the polynomial expansion approach the true moments as samples and order grow.",
   [IN], "all distributions and orders", "approximation quality is a runtime quantity", ["pce"], [("fit", "pce", "PCEConverter._get_ls_factor")]),
]
NAR = {
 "N01": "optimality and convergence quantify over the numerical behaviour of the external NLP solver and the data; no static argument over this source bounds them (P09, P10, P13, P14 decide the structural part)",
 "N02": "integration and truncation error are runtime quantities of CasADi/SUNDIALS; the source only selects options (P18, P28 decide the structural part)",
 "N03": "a statement about probability distributions of runtime values; only the filter equations are visible in the source (P20)",
 "N04": "approximation quality depends on samples and distributions at run time; only the construction is visible in the source (P21)",
}


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as fh:
        for p in L + NA:
            assert len(p["title"]) <= 80, p["title"]
            fh.write(json.dumps(p) + "\n")
    man = {
        "version": 1,
        "setup_cmd": "python3 -c 'import ast, sys; assert sys.version_info >= (3, 8)'",
        "checks": [{
            "property": p["id"],
            "quick_cmd": "python3 /verif/check.py %s --tier quick" % p["id"],
            "thorough_cmd": "python3 /verif/check.py %s --tier thorough" % p["id"],
            "technique": "static analysis: gated value-graph dataflow (global value numbering over the syntax tree, effects and exits included) of the property's functions, compared with reviewed reference definitions; mismatching graphs separated by random interpretation (Gulwani-Necula) of the graphs, the code is never run" + ("; interprocedural effect analysis of objects reachable from arguments" if p["id"] == "P07" else ""),
            "level": "other",
            "level_note": "equality of value graphs (normal forms; where these differ, agreement in random algebras) for all inputs and branch outcomes of each analysed function; functions the analysis cannot summarise are reported as undecided in the evidence and not claimed",
        } for p in L],
        "not_applicable": [{"property": k, "reason": v} for k, v in NAR.items()],
        "notes": "Pure standard-library Python; nothing of /repo is imported or executed. See DESIGN.md.",
    }
    with open(os.path.join(V, "MANIFEST.json"), "w") as fh:
        json.dump(man, fh, indent=1)
        fh.write("\n")


main()
