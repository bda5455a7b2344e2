from typing import TYPE_CHECKING, Any, Dict, Optional, TypedDict, Union
from casadi import DM, MX, SX, Function, depends_on, integrator, substitute, vertcat
from yaocptool import config, convert_expr_from_tau_to_time, find_variables_indices_in_vector
if TYPE_CHECKING:
    from casadi import FunctionCallArgT
else:
    FunctionCallArgT = 'FunctionCallArgT'

class ExplicitSolverOptions(TypedDict):
    t0: float
    tf: float
    iterations: int

class ExplicitSolverReturn(TypedDict):
    xf: Union[DM, SX, MX]
    zf: DM

class DAESystem:

    def __init__(self, x: SX, ode: SX, t: SX, y: SX=None, p: SX=None, alg: SX=None, tau: SX=None):
        if y is None:
            y = SX(0, 1)
        if p is None:
            p = SX(0, 1)
        if alg is None:
            alg = SX(0, 1)
        self.x = x
        self.y = y
        self.p = p
        self.ode = ode
        self.alg = alg
        self.t = t
        self.tau = tau

    @property
    def is_dae(self) -> bool:
        return self.type == 'dae'

    @property
    def is_ode(self) -> bool:
        return self.type == 'ode'

    @property
    def type(self) -> str:
        if self.alg.numel() == 0:
            return 'ode'
        return 'dae'

    @property
    def has_parameters(self) -> bool:
        return self.p.numel() > 0

    @property
    def dae_system_dict(self) -> Dict[str, SX]:
        if self.is_ode:
            dae_sys_dict = {'x': self.x, 'ode': self.ode, 't': self.t}
        else:
            dae_sys_dict = {'x': self.x, 'z': self.y, 'ode': self.ode, 'alg': self.alg, 't': self.t}
        if self.has_parameters:
            dae_sys_dict['p'] = self.p
        return dae_sys_dict

    def has_variable(self, var: SX) -> bool:
        args = [self.x, self.y, self.p, self.t]
        if self.tau is not None:
            args.append(self.tau)
        ind = find_variables_indices_in_vector(var, vertcat(*args))
        return len(ind) > 0

    def depends_on(self, var: SX) -> bool:
        return depends_on(vertcat(self.ode, self.alg), var)

    def convert_from_tau_to_time(self, t_k: float, t_kp1: float):
        if self.t is None:
            raise AttributeError('DAESystem.t was not set: self.t = {}'.format(self.t))
        if self.tau is None:
            raise AttributeError('DAESystem.t was not set: self.tau = {}'.format(self.tau))
        self.alg = convert_expr_from_tau_to_time(expr=self.alg, t_sym=self.t, tau_sym=self.tau, t_k=t_k, t_kp1=t_kp1)
        self.ode = convert_expr_from_tau_to_time(expr=self.ode, t_sym=self.t, tau_sym=self.tau, t_k=t_k, t_kp1=t_kp1)

    def substitute_variable(self, old_var: SX, new_var: SX):
        self.ode = substitute(self.ode, old_var, new_var)
        self.alg = substitute(self.alg, old_var, new_var)
        self.x = substitute(self.x, old_var, new_var)
        self.y = substitute(self.y, old_var, new_var)
        self.p = substitute(self.p, old_var, new_var)

    def join(self, dae_sys: 'DAESystem'):
        self.ode = vertcat(self.ode, dae_sys.ode)
        self.alg = vertcat(self.alg, dae_sys.alg)
        self.x = vertcat(self.x, dae_sys.x)
        self.y = vertcat(self.y, dae_sys.y)
        self.p = vertcat(self.p, dae_sys.p)
        self.substitute_variable(dae_sys.t, self.t)
        if dae_sys.tau is not None and self.tau is not None:
            self.substitute_variable(dae_sys.tau, self.tau)

    def simulate(self, x_0: Union[DM, FunctionCallArgT], t_f: float, t_0: float=0.0, p: Optional[Union[DM, FunctionCallArgT]]=None, y_0: Optional[Union[DM, FunctionCallArgT]]=None, integrator_type: str='implicit', integrator_options: Optional[Dict[str, Any]]=None) -> Dict[str, FunctionCallArgT]:
        ...
        "\n            Create an integrator and simulate a system from 't_0' to 't_f'.\n\n        :param list|DM|MX x_0: initial condition\n        :param float|int|DM t_f: final time\n        :param float|int|DM t_0: initial time\n        :param list|DM|MX p: system parameters\n        :param list|DM|MX y_0: initial guess for the algebraic variable\n        :param str integrator_type: integrator type, options available are: 'cvodes', 'idas',\n            'implicit' (default, auto-select between 'idas' and 'cvodes'), 'rk', and 'collocation'.\n        :param dict integrator_options: casadi.integrator options\n        :rtype: dict\n        "
        if t_f == t_0:
            raise ValueError('Initial time and final time must be different, t_0!=t_f. t_0={}, t_f={}'.format(t_0, t_f))
        if self.tau is not None and self.depends_on(self.tau):
            raise AttributeError("The system of equations ('ode' and 'alg') depend on the variable 'tau'. Before beingable to simulate it is required to transform the dependence on tau into a dependence on t. Use the 'convert_from_tau_to_time' for this.")
        if integrator_options is None:
            integrator_options = {}
        if p is None:
            p = DM()
        opts = {'tf': t_f, 't0': t_0}
        for k in integrator_options:
            opts[k] = integrator_options[k]
        call_kwargs = {'x0': x_0, 'p': p}
        if self.is_dae and y_0 is not None:
            call_kwargs['z0'] = y_0
        integrator_ = self._create_integrator(opts, integrator_type)
        return integrator_.call(call_kwargs)

    def _create_integrator(self, options: Dict[str, Any]=None, integrator_type: str='implicit') -> Function:
        if options is None:
            options = {}
        name = options.pop('name') if 'name' in options else 'integrator'
        for k in config.INTEGRATOR_OPTIONS:
            if k not in options:
                options[k] = config.INTEGRATOR_OPTIONS[k]
        if integrator_type == 'explicit':
            integrator_type = 'rk'
        if integrator_type == 'implicit' and self.is_ode:
            return integrator(name, 'cvodes', self.dae_system_dict, options)
        if integrator_type == 'implicit' and self.is_dae:
            return integrator(name, 'idas', self.dae_system_dict, options)
        if integrator_type in ['rk', 'collocation', 'cvodes', 'idas']:
            return integrator(name, integrator_type, self.dae_system_dict, options)
        raise ValueError("'integrator_type'={} not available. Options available are: 'cvodes', 'idas', implicit (default, auto-select between 'idas' and 'cvodes'), 'rk', and 'collocation'.".format(integrator_type))
