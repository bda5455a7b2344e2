from casadi import Function, nlpsol
from yaocptool.config import SOLVER_OPTIONS
from yaocptool.optimization.abstract_optimization_problem import AbstractOptimizationProblem

class NonlinearOptimizationProblem(AbstractOptimizationProblem):

    def __init__(self, **kwargs):
        super(NonlinearOptimizationProblem, self).__init__(**kwargs)
        if self.solver_options == {}:
            self.solver_options = dict(SOLVER_OPTIONS['nlpsol_options'])

    def _create_solver(self) -> Function:
        problem_dict = self.get_problem_dict()
        return nlpsol(self.name + '_solver', 'ipopt', problem_dict, self.solver_options)
