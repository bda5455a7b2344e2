import re
from timeit import default_timer
from typing import Dict, List, Optional, Tuple, TypeVar, Union
from casadi import DM, MX, OP_EQ, OP_LE, OP_LT, SX, collocation_points, integrator, is_equal, mtimes, repmat, substitute, vec, vertcat
FunctionCallArgT = TypeVar('FunctionCallArgT', DM, MX)
NumericMT = TypeVar('NumericMT', DM, SX, MX)
MixedNumericMT = TypeVar('MixedNumericMT', bound=Union[DM, SX, MX])
SymbolicMT = TypeVar('SymbolicMT', SX, MX)

def find_variables_indices_in_vector(var: SymbolicMT, vector: SymbolicMT, depth=0) -> List[int]:
    indices: List[int] = []
    for v in var.nz:
        for ind_vector, vector_var in enumerate(vector.nz):
            if is_equal(vector_var, v, depth):
                indices.append(ind_vector)
    return indices

def find_variables_in_vector_by_name(names: Union[str, List[str]], vector: Union[SX, MX], exact: bool=False):
    if not isinstance(names, list):
        names = [names]
    result = []
    if exact:
        for name in names:
            for i in range(vector.numel()):
                if vector[i].name() == name:
                    result.append(vector[i])
    else:
        for regex in names[:]:
            result.extend([vector[i] for i in range(vector.numel()) if re.match(regex, vector[i].name())])
    return result

def remove_variables_from_vector(var: SymbolicMT, vector: SymbolicMT) -> SymbolicMT:
    to_remove = find_variables_indices_in_vector(var, vector)
    if len(to_remove) == 0:
        raise ValueError('"var" not found in "vector", var={}, vector={}'.format(var, vector))
    return remove_variables_from_vector_by_indices(to_remove, vector)

def remove_variables_from_vector_by_indices(indices: List[int], vector: NumericMT) -> NumericMT:
    if indices:
        numel = vector.numel()
        if max(indices) >= numel:
            raise ValueError('Found indices out of bounds. Index violating: {}, indices: {}'.format(max(indices), indices))
        if min(indices) < -numel:
            raise ValueError('Found indices out of bounds. Index violating: {}, indices: {}'.format(min(indices), indices))
        indices = [ind if ind >= 0 else ind + numel for ind in indices]
    remaining_ind = [ind for ind in range(vector.numel()) if ind not in indices]
    vector = vector[remaining_ind]
    if vector.shape == (1, 0):
        vector = vector.reshape((0, 1))
    return vector

def create_constant_theta(constant: Union[float, DM], dimension: Union[int, Tuple[int, int]], finite_elements: int) -> Dict[int, DM]:
    if isinstance(dimension, int):
        dimension = (dimension, 1)
    return {i: vec(constant * DM.ones(*dimension)) for i in range(finite_elements)}

def join_thetas(*args: Optional[Dict[int, DM]]) -> Dict[int, DM]:
    new_theta: Dict[int, DM] = {}
    all_keys: List[int] = []
    n_keys = 0
    for theta in args:
        if theta is not None:
            theta_keys = theta.keys()
            n_keys = len(theta_keys) if n_keys == 0 else n_keys
            if len(theta_keys) > 0 and len(theta_keys) != n_keys:
                raise ValueError('Only thetas with size zero or same size are accepted, given: {}'.format([len(th.keys()) if th is not None else None for th in args]))
            all_keys.extend(theta.keys())
    all_keys = list(set(all_keys))
    for i in all_keys:
        new_theta[i] = vertcat(*[theta[i] for theta in args if theta is not None and i in theta])
    return new_theta

def convert_expr_from_tau_to_time(expr: SX, t_sym: SX, tau_sym: SX, t_k: float, t_kp1: float):
    d_t = t_kp1 - t_k
    return substitute(expr, tau_sym, (t_sym - t_k) / d_t)

def expm(a_matrix: FunctionCallArgT):
    dim = a_matrix.shape[1]
    x_mx = MX.sym('x', a_matrix.shape[1])
    a_mx = MX.sym('x', a_matrix.shape)
    ode = mtimes(a_mx, x_mx)
    dae_system_dict = {'x': x_mx, 'ode': ode, 'p': vec(a_mx)}
    integrator_ = integrator('integrator', 'cvodes', dae_system_dict, {'tf': 1})
    integrator_map = integrator_.map(a_matrix.shape[1], 'thread')
    x0 = DM.eye(dim)
    repmat_result = repmat(vec(a_matrix), (1, a_matrix.shape[1]))
    result = integrator_map(x0=x0, p=repmat_result)
    return result['xf']

def is_inequality(expr: Union[SX, MX]):
    return isinstance(expr, (MX, SX)) and (expr.op() == OP_LE or expr.op() == OP_LT)

def is_equality(expr: Union[SX, MX]):
    return isinstance(expr, (MX, SX)) and expr.op() == OP_EQ

def _create_lagrangian_polynomial_basis(tau: SX, degree: int, point_at_zero: bool=False) -> List[SX]:
    tau_root = collocation_points(degree, 'radau')
    if point_at_zero:
        tau_root.insert(0, 0.0)
    l_list = []
    for j in range(len(tau_root)):
        ell = SX(1)
        for k in range(len(tau_root)):
            if k != j:
                ell *= (tau - tau_root[k]) / (tau_root[j] - tau_root[k])
        l_list.append(ell)
    return l_list

def create_polynomial_approximation(tau: SX, size: int, degree: int, name: Union[str, List[str]]='var_appr', point_at_zero: bool=False) -> Tuple[SX, SX]:
    if not isinstance(name, list):
        name = [name + '_' + str(i) for i in range(size)]
    n_par = degree + 1 if point_at_zero and degree > 1 else degree
    if size > 0:
        points = vertcat(*[SX.sym(name[s], 1, n_par) for s in range(size)])
    else:
        points = SX.sym('empty_sx', size, n_par)
    if degree == 1:
        pol = points
    else:
        ell_list = _create_lagrangian_polynomial_basis(tau=tau, degree=degree, point_at_zero=point_at_zero)
        pol = SX(sum((ell_list[j] * points[:, j] for j in range(n_par))))
    par = vec(points)
    return (pol, par)

class Timer:

    def __init__(self, verbose=False):
        self.verbose = verbose
        self.timer = default_timer
        self._elapsed = None

    @property
    def elapsed(self) -> float:
        if self._elapsed is None:
            raise ValueError('Timer still running')
        return self._elapsed

    @property
    def elapsed_milisecs(self) -> float:
        if self._elapsed is None:
            raise ValueError('Timer still running')
        return self._elapsed * 1000

    def __enter__(self):
        self.start = self.timer()
        return self

    def __exit__(self, *_):
        end = self.timer()
        self._elapsed = end - self.start
        if self.verbose:
            print(f'elapsed time: {self.elapsed} s')
