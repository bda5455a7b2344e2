from functools import cached_property
from typing import TYPE_CHECKING, Dict, List, Tuple, Union, overload
from casadi import DM, MX, SX, Function, vertcat
from yaocptool import convert_expr_from_tau_to_time
from yaocptool.methods.base.optimizationresult import OptimizationResult
from yaocptool.modelling.ocp import OptimalControlProblem
from yaocptool.modelling.system_model import SystemModel
from yaocptool.optimization.abstract_optimization_problem import AbstractOptimizationProblem
if TYPE_CHECKING:
    from casadi import NumericMT
    from yaocptool.methods.base.solutionmethodsbase import SolutionMethodsBase
else:
    SolutionMethodsBase = 'SolutionMethodsBase'
    NumericMT = 'NumericMT'

class DiscretizationSchemeBase:

    def __init__(self, solution_method: SolutionMethodsBase):
        self.solution_method = solution_method
        if self.solution_method.degree_control > 1 and self.solution_method.problem.has_delta_u:
            raise Exception('Maximum and minimum value for Delta u only defined for "degree_control" == 1. Current "degree_control":{}'.format(self.solution_method.degree_control))

    @property
    def model(self) -> SystemModel:
        return self.solution_method.model

    @property
    def problem(self) -> OptimalControlProblem:
        return self.solution_method.problem

    @property
    def degree(self):
        return self.solution_method.degree

    @property
    def degree_control(self):
        return self.solution_method.degree_control

    @property
    def finite_elements(self):
        return self.solution_method.finite_elements

    @property
    def delta_t(self):
        return self.solution_method.delta_t

    @property
    def time_breakpoints(self):
        return self.solution_method.time_breakpoints

    @cached_property
    def time_interpolation_controls(self):
        tau_list = [0.0] if self.degree_control == 1 else self.solution_method.collocation_points(self.degree_control, with_zero=False)
        return [[t + self.solution_method.delta_t * tau for tau in tau_list] for t in self.time_breakpoints[:-1]]

    @overload
    def vectorize(self, vector: List[NumericMT]) -> NumericMT:
        ...

    @overload
    def vectorize(self, vector: List[List[NumericMT]]) -> NumericMT:
        ...

    def vectorize(self, vector: Union[List[NumericMT], List[List[NumericMT]]]) -> NumericMT:
        if vector and isinstance(vector[0], list):
            return vertcat(*[self.vectorize(sub_vector) for sub_vector in vector])
        else:
            return vertcat(*vector)

    def _create_function_from_expression(self, name: str, expr: SX):
        function_dict = {}
        for el in range(self.finite_elements):
            expr_el = convert_expr_from_tau_to_time(expr, self.model.t, self.model.tau, self.time_breakpoints[el], self.time_breakpoints[el + 1])
            f_expr_el = Function(name + '_' + str(el), self.model.all_sym, [expr_el])
            function_dict[el] = f_expr_el
        return function_dict

    def discretize(self, x_0: MX=None, p: MX=None, theta: Dict[int, MX]=None, last_u: MX=None) -> AbstractOptimizationProblem:
        raise NotImplementedError

    def _create_nlp_symbolic_variables(self, nlp: AbstractOptimizationProblem) -> Tuple[MX, List[List[MX]], List[List[MX]], List[List[MX]], MX, MX, List[MX]]:
        raise NotImplementedError

    def get_system_at_given_times(self, x, y, u, time_dict=None, p=None, theta=None, functions=None, start_at_t_0=False):
        raise NotImplementedError

    def set_data_to_optimization_result_from_raw_data(self, optimization_result: OptimizationResult, raw_solution_dict: Dict[str, DM]):
        raise NotImplementedError

    def unpack_decision_variables(self, decision_variables: MX, all_subinterval: bool=True) -> Tuple[List[List[MX]], List[List[MX]], List[List[MX]], MX, MX, List[MX]]:
        raise NotImplementedError

    def create_initial_guess(self, p=None, theta=None):
        raise NotImplementedError

    def create_initial_guess_with_simulation(self, u=None, p=None, theta=None, model=None, in_transform=None, out_transform=None):
        raise NotImplementedError
