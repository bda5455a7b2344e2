"""Property -> functions whose behaviour constitutes it.

Patterns are globs over "<module>:<Class.method|function>" (module relative to yaocptool).
`want`/`skip` restrict the projections that matter for the property (default: all).
"""

COLL = "methods.classic.collocationscheme:CollocationScheme."
MS = "methods.classic.multipleshooting:MultipleShootingScheme."
DB = "methods.base.discretizationschemebase:DiscretizationSchemeBase."
SM = "methods.base.solutionmethodsbase:SolutionMethodsBase."
AL = "methods.augmented_lagrangian:AugmentedLagrangian."
OCP = "modelling.ocp:OptimalControlProblem."
SYS = "modelling.system_model:SystemModel."
MIX = "modelling.mixins.*:"
DAE = "modelling.dae_system:DAESystem."
OPT = "optimization.*:"
UT = "util.util:"
DM_ = "methods.classic.directmethod:DirectMethod."

PROPS = {
    "P01": dict(targets=[
        COLL + "_create_nlp_symbolic_variables", COLL + "*pack_decision_variables", COLL + "create_initial_guess*",
        COLL + "time_interpolation*", COLL + "discretize", COLL + "set_data_to_optimization_result_from_raw_data",
        MS + "_create_nlp_symbolic_variables", MS + "unpack_decision_variables", MS + "create_initial_guess*",
        MS + "discretize", MS + "set_data_to_optimization_result_from_raw_data",
        DB + "*", SM + "unvec", OCP + "n_*", OCP + "get_*_opt_indices", OCP + "has_delta_u",
        OPT + "AbstractOptimizationProblem.create_variable", OPT + "AbstractOptimizationProblem.include_variable",
        "modelling.mixins.*:*.n_*",
    ]),
    "P02": dict(targets=[
        SM + "create_optimization_problem", SM + "_get_solver_call_args", SM + "call_solver", SM + "solve",
        SM + "unvec", SM + "prepare", SM + "__init__", AL + "join_nu_to_theta", AL + "create_optimization_problem", AL + "solve",
        AL + "call_solver", AL + "_parametrize_nu", AL + "_create_mu_variable", AL + "create_nu_initial_guess",
        AL + "set_mu", AL + "__init__", UT + "join_thetas", UT + "create_constant_theta",
        OPT + "AbstractOptimizationProblem.*parameter", OPT + "AbstractOptimizationProblem.get_default_call_dict",
        OPT + "AbstractOptimizationProblem._get_solver_call_args", OPT + "AbstractOptimizationProblem.solve",
        OPT + "AbstractOptimizationProblem.get_problem_dict",
        COLL + "discretize", MS + "discretize", OCP + "get_*_opt_indices", OCP + "set_*_as_optimization_*",
    ]),
    "P03": dict(targets=[
        SYS + "all_sym", SYS + "all_sym_names", SYS + "get_dae_system", SYS + "put_values_in_all_sym_format",
        SYS + "simulate", SYS + "convert_expr_*", SYS + "system_type", SYS + "t_sym*", SYS + "tau_sym*",
        SYS + "x_sys_sym", SYS + "lamb_sym", SYS + "get_copy", SYS + "get_deepcopy", DAE + "*",
        DB + "_create_function_from_expression", UT + "convert_expr_from_tau_to_time",
        "modelling.dae_system:class ExplicitSolver*",
    ]),
    "P04": dict(targets=[
        OCP + x for x in ("__init__", "create_*", "include_*", "remove_*", "replace_variable", "parametrize_control",
                          "_fix_types", "pre_solve_check", "reset_working_model", "merge", "connect", "set_*", "get_*",
                          "n_*", "has_delta_u")] + [
        UT + "find_variables_*", UT + "remove_variables_*"],
    ),
    "P05": dict(targets=["optimization.*", UT + "is_equality", UT + "is_inequality"]),
    "P06": dict(targets=[
        OCP + "replace_variable", OCP + "parametrize_control", OCP + "remove_*", OCP + "set_*", OCP + "merge", OCP + "connect",
        SYS + "replace_variable", SYS + "has_variable", SYS + "is_parametrized", SYS + "merge", SYS + "connect",
        SYS + "get_variable*", SYS + "convert_expr_*", SYS + "t_sym*", SYS + "tau_sym*",
        "modelling.mixins.*:*.replace_variable", "modelling.mixins.*:*.parametrize_control",
        "modelling.mixins.*:*.control_is_parametrized", "modelling.mixins.*:*.remove_*",
        "modelling.mixins.*:*.find_*",
        DAE + "substitute_variable", DAE + "has_variable", DAE + "depends_on", DAE + "convert_from_tau_to_time", DAE + "join",
        UT + "find_variables_*", UT + "remove_variables_*", UT + "convert_expr_from_tau_to_time",
        "methods.classic.indirectmethod:IndirectMethod.replace_with_optimal_control",
        SYS + "get_deepcopy", SYS + "include_variables", SYS + "include_models",
    ]),
    "P07": dict(targets=["*"], rule="isolation"),
    "P08": dict(targets=[
        DB + "time_*", DB + "delta_t", DB + "degree*", DB + "finite_elements", DB + "problem", DB + "model",
        SM + "time_*", SM + "delta_t", SM + "collocation_points", SM + "__init__", SM + "model",
        SM + "_create_lagrangian_polynomial_basis", SM + "create_variable_polynomial_approximation",
        COLL + "time_*", COLL + "_create_time_dict_for_collocation", COLL + "get_system_at_given_times",
        MS + "_create_time_dict_for_multiple_shooting", MS + "get_system_at_given_times", MS + "discretize", COLL + "discretize",
        MS + "set_data*", COLL + "set_data*",
        AL + "time_*", AL + "discretizer", AL + "model", UT + "create_polynomial_approximation", UT + "_create_lagrangian_polynomial_basis",
        UT + "convert_expr_from_tau_to_time", SYS + "convert_expr_*",
        OCP + "simulate", COLL + "create_initial_guess*", MS + "create_initial_guess*",
        "methods.base.optimizationresult:OptimizationResult.__init__", "methods.base.optimizationresult:OptimizationResult.to_dataset",
        "methods.base.optimizationresult:OptimizationResult.dataset",
    ]),
    "P09": dict(targets=[
        COLL + "*", DB + "*", DM_ + "*", SM + "create_*", SM + "_create_*", SM + "prepare", SM + "collocation_points", SM + "time_*",
        SM + "delta_t", UT + "create_polynomial_approximation", UT + "_create_lagrangian_polynomial_basis",
        OPT + "AbstractOptimizationProblem.include_*", OPT + "AbstractOptimizationProblem.set_objective",
    ]),
    "P10": dict(targets=[
        MS + "*", DB + "*", DM_ + "*", SM + "create_*", SM + "prepare", SM + "time_*", SM + "delta_t", DAE + "simulate", DAE + "_create_integrator",
        OPT + "AbstractOptimizationProblem.include_*", OPT + "AbstractOptimizationProblem.set_objective",
    ]),
    "P11": dict(targets=[
        "methods.base.optimizationresult:*", COLL + "set_data_to_optimization_result_from_raw_data", COLL + "unpack_decision_variables",
        MS + "set_data_to_optimization_result_from_raw_data", MS + "unpack_decision_variables", DB + "set_data*", DB + "unpack*",
        SM + "create_optimization_result", SM + "solve", SM + "call_solver", SM + "unvec", AL + "create_optimization_result", AL + "solve",
        AL + "call_solver", COLL + "get_system_at_given_times", MS + "get_system_at_given_times",
        COLL + "_create_time_dict*", MS + "_create_time_dict*", COLL + "time_*", DB + "time_*",
        OPT + "AbstractOptimizationProblem.solve", "methods.base.distributed_optimization_result:*",
        "modelling.dataset:*",
    ]),
    "P12": dict(targets=["modelling.system_model:*", "modelling.mixins.*", "modelling.utils:*"]),
    "P13": dict(targets=[
        AL + x for x in ("solve", "call_solver", "update_parameters", "_update_mu", "_update_mu_primal", "set_mu", "compute_primal_dual",
                         "_compute_new_nu_and_error", "_create_nu_update_func", "create_nu_initial_guess", "join_nu_to_theta",
                         "create_optimization_result", "create_optimization_problem", "__init__", "time_interpolation_nu",
                         "_parametrize_nu", "_create_mu_variable")] + [
        "methods.augmented_lagrangian:AugmentedLagrangianOptions*", "methods.augmented_lagrangian:ALExogeunousData*",
        "methods.augmented_lagrangian:class *", UT + "join_thetas", UT + "create_constant_theta"]),
    "P14": dict(targets=[
        "methods.augmented_lagrangian:*", UT + "create_polynomial_approximation", UT + "_create_lagrangian_polynomial_basis",
        OCP + "remove_algebraic", OCP + "include_control", OCP + "include_theta", OCP + "include_parameter", OCP + "create_theta", OCP + "create_parameter",
        SM + "__init__", SM + "prepare", SM + "create_*",
    ]),
    "P15": dict(targets=[
        "modelling.network.*", SYS + "merge", SYS + "include_models", SYS + "connect", SYS + "include_variables", OCP + "merge", OCP + "connect",
        OCP + "include_time_equality", OCP + "__init__",
    ]),
    "P16": dict(targets=["methods.network.*", "methods.base.distributed_optimization_result:*",
                         UT + "join_thetas", UT + "create_constant_theta"]),
    "P17": dict(targets=["modelling.dataset:*", "methods.base.optimizationresult:OptimizationResult.to_dataset",
                         "mpc.plant:PlantSimulation._save_data", "mpc.plant:PlantSimulation._initialize_dataset",
                         "modelling.simulation_result:*"]),
    "P18": dict(targets=[SYS + "simulate", SYS + "get_dae_system", SYS + "put_values_in_all_sym_format", SYS + "all_sym", DAE + "*",
                         "modelling.simulation_result:*", OCP + "simulate", "modelling.dae_system:*"]),
    "P19": dict(targets=["mpc.*"]),
    "P20": dict(targets=["estimation.*"]),
    "P21": dict(targets=["stochastic.*", "modelling.stochastic_ocp:*"]),
    "P22": dict(targets=["util.*"]),
    "P23": dict(targets=["methods.classic.indirectmethod:*", OCP + "pre_solve_check", OCP + "create_adjoint_states",
                         OCP + "reset_working_model", SM + "prepare", SM + "create_optimization_problem", SM + "__init__", SYS + "lamb_sym", SYS + "x_sys_sym"]),
    "P24": dict(targets=["modelling.utils:*", "modelling.mixins.*:*.include_equations", "modelling.mixins.*:*._include_equation_*",
                         "modelling.mixins.continuous_states_mixin:*", SYS + "include_equations",
                         OCP + "include_system_equations", UT + "is_equality", UT + "is_inequality",
                         "modelling.mixins.algebraic_mixin:*"]),
    "P25": dict(targets=[OCP + "create_cost_state", OCP + "create_quadratic_cost", OCP + "merge", OCP + "__init__", OCP + "pre_solve_check",
                         OCP + "reset_working_model", DM_ + "*", COLL + "discretize", MS + "discretize", OCP + "_fix_types",
                         AL + "_include_relax_in_objective", OPT + "AbstractOptimizationProblem.set_objective",
                         OPT + "AbstractOptimizationProblem.get_problem_dict", OCP + "replace_variable", OCP + "parametrize_control"]),
    "P26": dict(targets=[SYS + "linearize", SYS + "find_equilibrium", SYS + "all_sym", SYS + "get_variable*", SYS + "put_values_in_all_sym_format"]),
    "P27": dict(targets=[SM + "create_control_approximation", SM + "create_variable_polynomial_approximation",
                         SM + "_create_lagrangian_polynomial_basis", SM + "time_interpolation_controls", SM + "collocation_points", SM + "__init__",
                         DB + "time_interpolation_controls", DB + "degree*", DM_ + "*", OCP + "parametrize_control", "modelling.mixins.*:*.parametrize_control",
                         "modelling.mixins.control_mixin:*", UT + "create_polynomial_approximation", UT + "_create_lagrangian_polynomial_basis",
                         SYS + "is_parametrized", COLL + "time_interpolation*", COLL + "_create_nlp_symbolic_variables", MS + "_create_nlp_symbolic_variables",
                         COLL + "unpack_decision_variables", MS + "unpack_decision_variables",
                         "methods.classic.indirectmethod:IndirectMethod.degree_control*"]),
    "P28": dict(targets=["*:class *", "*:module", "*.__init__", "*.__post_init__"]),
    "P29": dict(targets=["modelling.*", "optimization.*", "util.*", "methods.*"], want=["raises*", "raised-write:*", "exists"]),
}

# functions one call away that a property's statement also speaks about
_T2T = [UT + "convert_expr_from_tau_to_time", SYS + "convert_expr_from_*"]
EXTRA = {
    "P02": [OCP + "n_*", MIX + "*.n_*", OCP + "last_u"],
    "P03": [MIX + "*.ode", MIX + "*.n_*", MIX + "*.*_names", UT + "find_variables*"],
    "P04": ["util.util:remove_variables*", "util.util:find_variables*"],
    "P05": [SM + "call_solver", SM + "create_optimization_problem"],
    "P09": _T2T + [OCP + "has_delta_u", OCP + "n_*", SYS + "all_sym*", OCP + "pre_solve_check", OCP + "create_cost_state"],
    "P10": _T2T + [OCP + "has_delta_u", OCP + "n_*", SYS + "all_sym*", OCP + "pre_solve_check", OCP + "create_cost_state",
                   SM + "collocation_points", SM + "_create_lagrangian_polynomial_basis", UT + "create_polynomial_approximation",
                   DAE + "*", SYS + "get_dae_system"],
    "P11": [SM + "time_*", SM + "delta_t", SM + "_get_solver_call_args", OPT + "AbstractOptimizationProblem.solve"],
    "P13": [AL + "_include_relax_in_objective", AL + "_relax_*", SM + "collocation_points"],
    "P18": _T2T + [UT + "find_variables*", UT + "create_constant_theta", MIX + "*.n_*", MIX + "*.*_names", "modelling.data_set:DataSet.insert_data",
                   "modelling.data_set:DataSet.create_entry", "modelling.data_set:DataSet.extend"],
    "P19": _T2T + ["estimation.ideal_estimator:*", "methods.base.optimizationresult:OptimizationResult.first_control*",
                   UT + "create_polynomial_approximation", COLL + "repack_decision_variables", COLL + "unpack_decision_variables"],
    "P25": [AL + "_relax_*", "stochastic.pce:PCEConverter._construct_stochastic_objective", "stochastic.pce:PCEConverter._create_cost_ode_of_sample",
            "modelling.network.network:Network.get_problem", SM + "create_optimization_problem", SM + "prepare"],
    "P26": [UT + "find_variables*", SYS + "get_copy", SYS + "get_deepcopy"],
    "P28": [SM + "create_optimization_problem", SM + "_get_solver_call_args", OPT + "*._create_solver", DAE + "simulate", DAE + "_create_integrator",
            SYS + "simulate", AL + "create_optimization_problem", AL + "solve", "modelling.data_set:DataSet.plot"],
    "P29": ["mpc.*", "estimation.*", "stochastic.*"],
}
for _k, _v in EXTRA.items():
    PROPS[_k]["targets"] = PROPS[_k]["targets"] + _v
