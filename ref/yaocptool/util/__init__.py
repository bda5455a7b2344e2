from .serializer import *
from .timeout import timeout
from .util import Timer, convert_expr_from_tau_to_time, create_constant_theta, create_polynomial_approximation, expm, find_variables_in_vector_by_name, find_variables_indices_in_vector, is_equality, is_inequality, join_thetas, remove_variables_from_vector, remove_variables_from_vector_by_indices
