from .nonlinear_problem import NonlinearOptimizationProblem
from .quadratic_problem import QuadraticOptimizationProblem
