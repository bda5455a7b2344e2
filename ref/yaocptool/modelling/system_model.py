import copy
from contextlib import suppress
from typing import Any, Dict, List, Optional, Tuple, Union
from casadi import DM, SX, Function, horzcat, jacobian, mtimes, rootfinder, substitute, vertcat
from yaocptool import config, find_variables_in_vector_by_name, find_variables_indices_in_vector
from yaocptool.modelling.dae_system import DAESystem
from yaocptool.modelling.mixins import AlgebraicMixin, ContinuousStateMixin, ControlMixin, ParameterMixin
from yaocptool.modelling.simulation_result import SimulationResult

class SystemModel(ContinuousStateMixin, AlgebraicMixin, ControlMixin, ParameterMixin):
    t = SX.sym('t')
    tau = SX.sym('tau')

    def __init__(self, name: str='model', model_name_as_prefix: bool=False):
        self.t = SX.sym('t')
        self.tau = SX.sym('tau')
        super().__init__()
        self.name = name
        self.model_name_as_prefix = model_name_as_prefix
        self.has_adjoint_variables = False
        self.verbosity = 0

    @property
    def system_type(self) -> str:
        with suppress(AttributeError):
            if self.n_y > 0:
                return 'dae'
        return 'ode'

    @property
    def x_sys_sym(self) -> SX:
        if self.has_adjoint_variables:
            return self.x[:int(self.n_x // 2)]
        else:
            return self.x

    @property
    def lamb_sym(self) -> SX:
        if self.has_adjoint_variables:
            return self.x[self.n_x // 2:]
        else:
            return SX()

    @property
    def all_sym(self) -> List[SX]:
        return [self.t, self.x, self.y, self.p, self.theta, self.u_par]

    @property
    def t_sym(self) -> SX:
        return self.t

    @t_sym.setter
    def t_sym(self, value: SX):
        self.t = value

    @property
    def tau_sym(self) -> SX:
        return self.tau

    @tau_sym.setter
    def tau_sym(self, value: SX):
        self.tau = value

    def __str__(self) -> str:
        return f'{self.__class__.__name__}("{self.name}")'

    def name_variable(self, name: str) -> str:
        if self.model_name_as_prefix:
            return f'{self.name}_{name}'
        return name

    def print_summary(self):
        s = ''
        s += '=' * 20 + '\n'
        s += 'Model Name: {:>23}'.format(self.name)
        s += '| System type:                            {:>3}'.format(self.system_type)
        s += '\n'
        s += '-' * 20 + '\n'
        s += 'Number of states (x):         {:4} | Number of algebraic (y):               {:4}'.format(self.n_x, self.n_y)
        s += '\n'
        s += 'Number of controls (u):       {:4} |'.format(self.n_u)
        s += '\n'
        s += 'Number of parameters (p):     {:4} | Number of finite elem. param. (theta): {:4}'.format(self.n_p, self.n_theta)
        s += '\n'
        s += '-' * 20 + '\n'
        s += 'Number of ODE:                {:4} | Number of algebraic eq.:               {:4}'.format(self.ode.numel(), self.alg.numel())
        s += '\n'
        s += '=' * 20 + '\n'
        print(s)

    def print_variables(self):
        var_name_space = 20
        column_size = var_name_space + 4
        n_lines = max(self.n_x, self.n_y, self.n_u, self.n_p, self.n_theta)
        x_names = self.x_names + [''] * (n_lines - self.n_x)
        y_names = self.y_names + [''] * (n_lines - self.n_y)
        u_names = self.u_names + [''] * (n_lines - self.n_u)
        p_names = self.p_names + [''] * (n_lines - self.n_p)
        theta_names = self.theta_names + [''] * (n_lines - self.n_theta)
        header_separator = '=|='
        header = ''
        header += ' states (x) '.center(column_size, '=') + header_separator
        header += ' algebraic (y) '.center(column_size, '=') + header_separator
        header += ' input (u) '.center(column_size, '=') + header_separator
        header += ' parameter (p) '.center(column_size, '=') + header_separator
        header += ' theta param (theta) '.center(column_size, '=') + header_separator
        print(header)
        for i in range(n_lines):
            line = ''
            if i < self.n_x:
                line += '{:>2}: {:<' + str(var_name_space) + '}' + ' | '
                line = line.format(i, x_names[i])
            else:
                line += ' ' * (var_name_space + 4) + ' | '
            if i < self.n_y:
                line += '{:>2}: {:<' + str(var_name_space) + '}' + ' | '
                line = line.format(i, y_names[i])
            else:
                line += ' ' * (var_name_space + 4) + ' | '
            if i < self.n_u:
                line += '{:>2}: {:<' + str(var_name_space) + '}' + ' | '
                line = line.format(i, u_names[i])
            else:
                line += ' ' * (var_name_space + 4) + ' | '
            if i < self.n_p:
                line += '{:>2}: {:<' + str(var_name_space) + '}' + ' | '
                line = line.format(i, p_names[i])
            else:
                line += ' ' * (var_name_space + 4) + ' | '
            if i < self.n_theta:
                line += '{:>2}: {:<' + str(var_name_space) + '}' + ' | '
                line = line.format(i, theta_names[i])
            else:
                line += ' ' * (var_name_space + 4) + ' | '
            print(line)
        print(('=' * column_size + header_separator) * 5)

    def include_equations(self, *args: SX, **kwargs: Union[SX, List[SX]]):
        super().include_equations(*args, **kwargs)

    def include_variables(self, x: Optional[Union[SX, List[SX]]]=None, y: Optional[Union[SX, List[SX]]]=None, u: Optional[Union[SX, List[SX]]]=None, p: Optional[Union[SX, List[SX]]]=None, theta: Optional[Union[SX, List[SX]]]=None):
        if x is not None:
            if isinstance(x, list):
                x = vertcat(*x)
            self.include_state(x)
        if y is not None:
            if isinstance(y, list):
                y = vertcat(*y)
            self.include_algebraic(y)
        if u is not None:
            if isinstance(u, list):
                u = vertcat(*u)
            self.include_control(u)
        if p is not None:
            if isinstance(p, list):
                p = vertcat(*p)
            self.include_parameter(p)
        if theta is not None:
            if isinstance(theta, list):
                theta = vertcat(*theta)
            self.include_theta(theta)

    def replace_variable(self, original: SX, replacement: SX):
        super().replace_variable(original, replacement)

    def get_variable_by_name(self, name: str='', var_type: Optional[str]=None) -> SX:
        result = self.get_variables_by_names(name, var_type)
        if len(result) == 1:
            return result[-1]
        if len(result) > 1:
            raise ValueError('Multiple variables where found with the name: {}. Found: {}'.format(name, result))
        raise ValueError('No variable was found with name: {}'.format(name))

    def get_variables_by_names(self, names: Union[str, List[str]]='', var_type: Optional[Union[str, List[str]]]=None) -> List[SX]:
        if not isinstance(names, list):
            names = [names]
        if var_type is None:
            var_type = ['x', 'y', 'u', 'p', 'theta']
        if not isinstance(var_type, list):
            var_type = [var_type]
        result = []
        for var_t in var_type:
            var = getattr(self, var_t)
            result.extend(find_variables_in_vector_by_name(names, var))
        return result

    def has_variable(self, var: SX) -> bool:
        ind = find_variables_indices_in_vector(var, vertcat(self.x, self.y, self.u, self.p, self.theta, self.u_par))
        return len(ind) > 0

    def is_parametrized(self) -> bool:
        return len(self._parametrized_controls) > 0

    def include_models(self, models: Union['SystemModel', List['SystemModel']]):
        if not isinstance(models, list):
            models = [models]
        for model in models:
            self.include_state(model.x, x_0=model.x_0)
            self.include_algebraic(model.y)
            self.u = vertcat(self.u, model.u)
            self.u_expr = vertcat(self.u_expr, model.u_expr)
            self.u_par = vertcat(self.u_par, model.u_par)
            self._parametrized_controls = self._parametrized_controls + model._parametrized_controls
            self.include_parameter(model.p)
            self.include_theta(model.theta)
            self.include_equations(ode=model.ode, x=model.x, alg=model.alg)
            self.replace_variable(model.t, self.t)
            self.replace_variable(model.tau, self.tau)

    def merge(self, models_list: Union['SystemModel', List['SystemModel']], connecting_equations: Optional[SX]=None):
        if not isinstance(models_list, list):
            models_list = [models_list]
        self.include_models(models_list)
        if connecting_equations is not None:
            self.include_equations(alg=connecting_equations)

    def connect(self, u: SX, y: SX, replace: bool=False):
        assert u.numel() == y.numel(), f'Size of "u" and "y" "are not the same, u={u.numel()} and y={y.numel()}'
        if replace:
            self.replace_variable(u, y)
        else:
            self.include_equations(alg=[u - y])
            self.include_algebraic(u)
        self.remove_control(u)

    @staticmethod
    def put_values_in_all_sym_format(t: Any=None, x: Any=None, y: Any=None, p: Any=None, theta: Any=None, u_par: Any=None) -> Tuple[Any, Any, Any, Any, Any, Any]:
        if t is None:
            t = DM()
        if x is None:
            x = DM()
        if y is None:
            y = DM()
        if p is None:
            p = DM()
        if theta is None:
            theta = DM()
        if u_par is None:
            u_par = DM()
        return (t, x, y, p, theta, u_par)

    @staticmethod
    def all_sym_names() -> Tuple[str, str, str, str, str, str]:
        return ('t', 'x', 'y', 'p', 'theta', 'u_par')

    def convert_expr_from_time_to_tau(self, expr: SX, t_k: float, t_kp1: float) -> SX:
        t = self.t
        tau = self.tau
        h = t_kp1 - t_k
        return substitute(expr, t, tau * h + t_k)

    def convert_expr_from_tau_to_time(self, expr: SX, t_k: float, t_kp1: float) -> SX:
        t = self.t
        tau = self.tau
        h = t_kp1 - t_k
        return substitute(expr, tau, (t - t_k) / h)

    def get_copy(self) -> 'SystemModel':
        copy_model = copy.copy(self)
        copy_model._ode = dict(copy_model._ode)
        return copy_model

    def get_deepcopy(self) -> 'SystemModel':
        model_copy = SystemModel(name=self.name)
        x_copy = SX(0, 1)
        y_copy = SX(0, 1)
        u_copy = SX(0, 1)
        p_copy = SX(0, 1)
        theta_copy = SX(0, 1)
        u_par_copy = SX(0, 1)
        if self.n_x > 0:
            x_copy = vertcat(*[model_copy.create_state(self.x[i].name()) for i in range(self.n_x)])
        if self.n_y > 0:
            y_copy = vertcat(*[model_copy.create_algebraic_variable(self.y[i].name()) for i in range(self.n_y)])
        if self.n_u > 0:
            u_copy = vertcat(*[model_copy.create_control(self.u[i].name()) for i in range(self.n_u)])
        if self.n_p > 0:
            p_copy = vertcat(*[model_copy.create_parameter(self.p[i].name()) for i in range(self.n_p)])
        if self.n_theta > 0:
            theta_copy = vertcat(*[model_copy.create_theta(self.theta[i].name()) for i in range(self.n_theta)])
        if self.n_u_par > 0:
            u_par_copy = vertcat(*[u_copy[find_variables_indices_in_vector(u_par_i, self.u)] if find_variables_indices_in_vector(u_par_i, self.u) else SX.sym(u_par_i.name()) for u_par_i in self.u_par.nz])
        has_ode = [i for i, eq in enumerate(self._ode.values()) if eq is not None]
        model_copy.include_equations(ode=self.ode, x=x_copy[has_ode], alg=self.alg)
        model_copy.u_par = u_par_copy
        model_copy.u_expr = self.u_expr
        model_copy._parametrized_controls = [u_copy[find_variables_indices_in_vector(u_i, self.u)] for u_i in self._parametrized_controls]
        for original, replacement in [(self.x, x_copy), (self.y, y_copy), (self.u, u_copy), (self.p, p_copy), (self.theta, theta_copy), (self.u_par, u_par_copy), (self.t, model_copy.t), (self.tau, model_copy.tau)]:
            if original.numel() > 0:
                model_copy.replace_variable(original, replacement)
        model_copy.model_name_as_prefix = self.model_name_as_prefix
        model_copy.has_adjoint_variables = self.has_adjoint_variables
        return model_copy

    def get_dae_system(self) -> DAESystem:
        if self.system_type == 'ode':
            kwargs = {'x': self.x, 'ode': self.ode, 't': self.t, 'tau': self.tau}
        else:
            kwargs = {'x': self.x, 'y': self.y, 'ode': self.ode, 'alg': self.alg, 't': self.t, 'tau': self.tau}
        if self.n_p + self.n_theta + self.u_par.numel() > 0:
            kwargs['p'] = vertcat(self.p, self.theta, self.u_par)
        return DAESystem(**kwargs)

    def simulate(self, x_0: Union[DM, List[float]], t_f: Union[float, List[float]], t_0: float=0.0, u: Optional[Union[DM, List[float]]]=None, p: Optional[Union[DM, List[float]]]=None, theta: Optional[Dict[int, DM]]=None, y_0: Optional[Union[DM, List[float]]]=None, integrator_type: Optional[str]=None, integrator_options: Optional[Dict[str, Any]]=None) -> SimulationResult:
        if integrator_type is None:
            integrator_type = 'implicit'
        if integrator_options is None:
            integrator_options = {}
        if isinstance(x_0, list):
            x_0 = vertcat(*x_0)
        if isinstance(y_0, list):
            y_0 = vertcat(*y_0)
        if isinstance(u, list):
            u = vertcat(*u)
        if isinstance(p, list):
            p = vertcat(*p)
        if not isinstance(t_f, list):
            t_f = [t_f]
        if theta is None:
            theta = {k: DM() for k in range(len(t_f))}
        if p is None:
            p = DM()
        if u is None:
            u = DM()
        u_sim = u if isinstance(u, dict) else {el: u for el in range(len(t_f))}
        if len(t_f) > 1 and len(u_sim) != len(t_f):
            raise ValueError('If "t_f" is a list, the parameter "u" should be a list with same length of "t_f".len(t_f) = {}'.format(len(t_f)))
        dae_sys = self.get_dae_system()
        t_x_list = [t_0]
        t_yu_list = []
        x_list = [x_0]
        y_list = []
        u_list = []
        t_k = t_0
        x_k = x_0
        y_k = y_0
        f_u = Function('f_u', self.all_sym, [self.u_expr])
        for k, t_kpp in enumerate(t_f):
            p_k = vertcat(p, theta[k], u_sim[k])
            result = dae_sys.simulate(x_0=x_k, t_f=t_kpp, t_0=t_k, p=p_k, y_0=y_k, integrator_type=integrator_type, integrator_options=integrator_options)
            t_x_list.append(t_kpp)
            t_yu_list.append(t_kpp)
            t_k = t_kpp
            x_k = result['xf']
            y_k = result['zf']
            u_k = f_u(*self.put_values_in_all_sym_format(t=t_kpp, x=x_k, y=y_k, p=p, theta=theta[k], u_par=u_sim[k]))
            x_list.append(result['xf'])
            y_list.append(result['zf'])
            u_list.append(u_k)
        simulation_result = SimulationResult(model_name=self.name, n_x=self.n_x, n_y=self.n_y, n_u=self.n_u, x_names=self.x_names, y_names=self.y_names, u_names=self.u_names, t_0=t_0, t_f=t_f[-1], finite_elements=len(t_f))
        simulation_result.insert_data('x', time=horzcat(*t_x_list), value=horzcat(*x_list))
        simulation_result.insert_data('y', time=horzcat(*t_yu_list), value=horzcat(*y_list))
        simulation_result.insert_data('u', time=horzcat(*t_yu_list), value=horzcat(*u_list))
        return simulation_result

    def linearize(self, x_bar, u_bar):
        a_matrix = Function('a_matrix', [self.x, self.u], [jacobian(self.ode, self.x)])(x_bar, u_bar)
        b_matrix = Function('b_matrix', [self.x, self.u], [jacobian(self.ode, self.u)])(x_bar, u_bar)
        linear_model = SystemModel()
        linear_model.create_state('x', self.n_x)
        linear_model.create_control('u', self.n_u)
        linear_model.include_equations(ode=[mtimes(a_matrix, linear_model.x) + mtimes(b_matrix, linear_model.u)])
        linear_model.name = 'linearized_' + self.name
        return linear_model

    def find_equilibrium(self, additional_eqs, guess=None, t_0=0.0, rootfinder_options=None):
        if rootfinder_options is None:
            rootfinder_options = dict(nlpsol='ipopt', nlpsol_options=config.SOLVER_OPTIONS['nlpsol_options'])
        if guess is None:
            guess = [1] * (self.n_x + self.n_y + self.n_u)
        if isinstance(additional_eqs, list):
            additional_eqs = vertcat(*additional_eqs)
        eqs = vertcat(self.ode, self.alg, additional_eqs)
        eqs = substitute(eqs, self.t, t_0)
        eqs = substitute(eqs, self.tau, 0)
        f_eqs = Function('f_equilibrium', [vertcat(self.x, self.y, self.u)], [eqs])
        rf = rootfinder('rf_equilibrium', 'nlpsol', f_eqs, rootfinder_options)
        res = rf(guess)
        return (res[:self.n_x], res[self.n_x:self.n_x + self.n_y], res[self.n_x + self.n_y:])
