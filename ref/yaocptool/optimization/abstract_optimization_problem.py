from typing import Any, Dict, List, Optional, TypedDict, Union
from casadi import DM, MX, Function, depends_on, inf, is_equal, repmat, vertcat
from yaocptool import is_equality, is_inequality

class OptiResultDictType(TypedDict):
    f: DM
    g: DM
    lam_g: DM
    lam_p: DM
    lam_x: DM
    x: DM

class ExtendedOptiResultDictType(OptiResultDictType):
    stats: Dict[str, Any]

class AbstractOptimizationProblem(object):

    def __init__(self, name: str='optimization_problem', **kwargs: Any):
        self.name = name
        self.f: MX = MX()
        self.g: MX = MX()
        self.x: MX = MX()
        self.p: MX = MX()
        self.g_lb = DM()
        self.g_ub = DM()
        self.x_lb = DM()
        self.x_ub = DM()
        self.solver_options: Dict[str, Any] = {}
        self._solver: Optional[Function] = None
        for key, val in kwargs.items():
            setattr(self, key, val)

    def print_var(self):
        return vars(self)

    def create_variable(self, name: str, size: int=1, lb: Union[DM, float]=-inf, ub: Union[DM, float]=inf) -> MX:
        if isinstance(lb, (float, int)):
            lb = repmat(lb, size)
        if isinstance(ub, (float, int)):
            ub = repmat(ub, size)
        new_x = MX.sym(name, size)
        self.include_variable(new_x, lb=lb, ub=ub)
        return new_x

    def include_variable(self, variable: MX, lb: Union[float, DM]=-inf, ub: Union[float, DM]=inf):
        if isinstance(lb, float):
            lb = vertcat(lb)
        if isinstance(ub, float):
            ub = vertcat(ub)
        if lb.numel() == 1 and variable.numel() > 1:
            lb = repmat(lb, variable.numel())
        if ub.numel() == 1 and variable.numel() > 1:
            ub = repmat(ub, variable.numel())
        if variable.numel() != lb.numel() or variable.numel() != ub.numel():
            raise ValueError('Lower bound or upper bound has different size of the given variable')
        if not lb.is_constant() and depends_on(lb, self.p) or (not ub.is_constant() and depends_on(ub, self.p)):
            raise ValueError('Neither the lower or the upper bound can depend on the optimization problem parameter. lb={}, ub={}'.format(lb, ub))
        for i, (lb_i, var_i, ub_i) in enumerate(zip(lb.nz, variable.nz, ub.nz)):
            if lb_i > ub_i:
                raise ValueError('Lower bound is greater than upper bound for index {}. The inequality {} <= {} <= {} is infeasible'.format(i, lb_i, var_i, ub_i))
        self.x = vertcat(self.x, variable)
        self.x_lb = vertcat(self.x_lb, lb)
        self.x_ub = vertcat(self.x_ub, ub)
        self._solver = None

    def create_parameter(self, name: str, size: int=1) -> MX:
        new_p = MX.sym(name, size)
        self.include_parameter(new_p)
        return new_p

    def include_parameter(self, par: MX):
        self.p = vertcat(self.p, par)
        self._solver = None

    def set_objective(self, expr: Union[MX, List[MX], float, int]):
        if isinstance(expr, list):
            expr = vertcat(*expr)
        if isinstance(expr, (int, float)):
            expr = MX(expr)
        if expr.numel() > 1:
            raise ValueError('Objective function should be an scalar. Given objective has shape = {}'.format(expr.shape))
        self.f = expr
        self._solver = None

    def include_inequality(self, expr: MX, lb: Optional[Union[DM, float, List[float]]]=None, ub: Optional[Union[DM, float, List[float]]]=None):
        if isinstance(lb, (int, float)):
            lb = DM(lb)
        if isinstance(ub, (int, float)):
            ub = DM(ub)
        if expr.size2() > 1:
            raise Exception('Given expression is not a vector, number of columns is {}'.format(expr.size2()))
        if lb is None:
            lb = -DM.inf(expr.size1())
        else:
            lb = vertcat(lb)
            if lb.numel() == 1 and expr.numel() > 1:
                lb = repmat(lb, expr.numel())
        if expr.shape != lb.shape:
            raise ValueError('Expression and lower bound does not have the same size: expr.shape={}, lb.shape=={}'.format(expr.shape, lb.shape))
        if ub is None:
            ub = DM.inf(expr.size1())
        else:
            ub = vertcat(ub)
            if ub.numel() == 1 and expr.numel() > 1:
                ub = repmat(ub, expr.numel())
        if expr.shape != ub.shape:
            raise ValueError('Expression and lower bound does not have the same size: expr.shape={}, lb.shape=={}'.format(expr.shape, ub.shape))
        if depends_on(vertcat(lb, ub), vertcat(self.x, self.p)):
            raise ValueError('The lower and upper bound cannot contain variables from the optimization problem.LB: {}, UB: {}'.format(lb, ub))
        for i in range(expr.numel()):
            if lb.is_constant() and ub.is_constant() and (lb[i] > ub[i]):
                raise ValueError('Lower bound is greater than upper bound for index {}. The inequality {} <= {} <= {} is infeasible'.format(i, lb[i], expr[i], ub[i]))
        self.g = vertcat(self.g, expr)
        self.g_lb = vertcat(self.g_lb, lb)
        self.g_ub = vertcat(self.g_ub, ub)
        self._solver = None

    def include_equality(self, expr: MX, rhs: Optional[Union[DM, float]]=None):
        if expr.size2() > 1:
            raise Exception('Given expression is not a vector, number of columns is {}'.format(expr.size2()))
        if rhs is None:
            rhs = DM.zeros(expr.shape)
        else:
            if isinstance(rhs, (int, float)):
                rhs = DM(rhs)
            if rhs.numel() == 1 and expr.numel() > 1:
                rhs = repmat(rhs, expr.numel())
            if expr.shape != rhs.shape:
                msg = 'Expression and the right hand side does not have the same size: expr.shape={}, rhs.shape=={}'.format(expr.shape, rhs.shape)
                raise ValueError(msg)
        if depends_on(rhs, vertcat(self.x, self.p)):
            raise ValueError('Right-hand side cannot contain variables from the optimization problem. RHS = {}'.format(rhs))
        self.g = vertcat(self.g, expr)
        self.g_lb = vertcat(self.g_lb, rhs)
        self.g_ub = vertcat(self.g_ub, rhs)
        self._solver = None

    def include_constraint(self, expr: MX):
        if not is_inequality(expr) and (not is_equality(expr)):
            raise ValueError("The passed 'expr' was not recognized as an equality or inequality constraint")
        if expr.dep(0).is_constant() and expr.dep(1).is_constant():
            raise ValueError('Both sides of the constraint are constant')
        if depends_on(expr.dep(0), vertcat(self.x, self.p)) and depends_on(expr.dep(1), vertcat(self.x, self.p)):
            raise ValueError('One of the sides of the constraint cannot depend on the problem. (e.g.: x<=1)lhs: {}, rhs: {}'.format(expr.dep(0), expr.dep(1)))
        if depends_on(expr.dep(0), vertcat(self.x, self.p)):
            dep_term = expr.dep(0)
            indep_term = expr.dep(1)
        else:
            dep_term = expr.dep(1)
            indep_term = expr.dep(0)
        if indep_term.is_constant():
            indep_term_dm = indep_term.to_DM()
            if is_equality(expr):
                self.include_equality(dep_term, indep_term_dm)
            elif is_inequality(expr):
                if is_equal(indep_term_dm, expr.dep(1)):
                    self.include_inequality(dep_term, ub=indep_term_dm)
                else:
                    self.include_inequality(dep_term, lb=indep_term_dm)
        else:
            raise NotImplementedError('NLP')

    def get_problem_dict(self) -> Dict[str, Union[MX]]:
        return {'f': self.f, 'g': self.g, 'x': self.x, 'p': self.p}

    def get_solver(self) -> Function:
        if self._solver is None:
            self._solver = self._create_solver()
        return self._solver

    def _create_solver(self) -> Function:
        raise NotImplementedError

    def get_default_call_dict(self) -> Dict[str, DM]:
        return {'lbx': self.x_lb, 'ubx': self.x_ub, 'lbg': self.g_lb, 'ubg': self.g_ub}

    def solve(self, initial_guess: DM, call_dict: Optional[Dict[str, DM]]=None, p: Optional[DM]=None, lam_x: Optional[DM]=None, lam_g: Optional[DM]=None) -> ExtendedOptiResultDictType:
        call_dict = self._get_solver_call_args(initial_guess, call_dict, p, lam_x, lam_g)
        solver = self.get_solver()
        solution: OptiResultDictType = solver(**call_dict)
        stats_dict = {'stats': solver.stats()}
        return {**solution, **stats_dict}

    def _get_solver_call_args(self, initial_guess, call_dict, p, lam_x, lam_g):
        if call_dict is None:
            call_dict = self.get_default_call_dict()
        if p is None:
            p = DM()
        call_dict = dict(call_dict)
        if initial_guess is not None:
            call_dict['x0'] = initial_guess
        if lam_x is not None:
            call_dict['lam_x0'] = lam_x
        if lam_g is not None:
            call_dict['lam_g0'] = lam_g
        call_dict['p'] = vertcat(p)
        if call_dict['p'].numel() != self.p.numel():
            raise ValueError('Passed parameter "p" has size {}, while problem.p has size {}'.format(call_dict['p'].numel(), self.p.numel()))
        return call_dict
