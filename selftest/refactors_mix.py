from selftest.refactors import r
CM = "yaocptool/modelling/mixins/control_mixin.py"
XM = "yaocptool/modelling/mixins/continuous_states_mixin.py"
AM = "yaocptool/modelling/mixins/algebraic_mixin.py"
PM = "yaocptool/modelling/mixins/parameter_mixin.py"
DA = "yaocptool/modelling/dae_system.py"
DS = "yaocptool/modelling/dataset.py"
UT = "yaocptool/util/util.py"
MU = "yaocptool/modelling/utils.py"

r("X01-names-nz",
  (CM, '''        return [self.u[i].name() for i in range(self.n_u)]
''', '''        names = []
        for i in range(self.n_u):
            names.append(self.u[i].name())
        return names
'''))
r("X02-create-control",
  (CM, '''        if callable(getattr(self, "name_variable", None)):
            name = self.name_variable(name)
        new_u = SX.sym(name, size)
        self.include_control(vec(new_u))
        return new_u
''', '''        namer = getattr(self, "name_variable", None)
        if callable(namer):
            name = namer(name)
        control = SX.sym(name, size)
        self.include_control(vec(control))
        return control
'''))
r("X03-include-control-loop",
  (CM, '''        self.u = vertcat(self.u, var)
        self.u_expr = vertcat(self.u_expr, var)
        self.u_par = vertcat(self.u_par, var)
''', '''        for attribute in ("u", "u_expr", "u_par"):
            setattr(self, attribute, vertcat(getattr(self, attribute), var))
'''))
r("X04-parametrize-control",
  (CM, '''        for u_i in u.nz:
            if self.control_is_parametrized(u_i):
                raise ValueError(f'The control "{u_i}" is already parametrized.')
            # to get have a new memory address
            self._parametrized_controls = self._parametrized_controls + [u_i]
''', '''        for u_i in u.nz:
            self._register_parametrized(u_i)
'''),
  (CM, '''    def create_input(
''', '''    def _register_parametrized(self, u_i):
        if self.control_is_parametrized(u_i):
            raise ValueError(f'The control "{u_i}" is already parametrized.')
        # a new list, so that copies of the model do not share it
        self._parametrized_controls = [*self._parametrized_controls, u_i]

    def create_input(
'''))
r("X05-is-parametrized-loop",
  (CM, '''        return any(
            is_equal(u, parametrized_u)
            for parametrized_u in self._parametrized_controls
        )
''', '''        for parametrized_u in self._parametrized_controls:
            if is_equal(u, parametrized_u):
                return True
        return False
'''))
r("X06-remove-control-indices",
  (CM, '''        self.u_expr = remove_variables_from_vector_by_indices(
            find_variables_indices_in_vector(var, self.u), self.u_expr
        )
        self.u = remove_variables_from_vector(var, self.u)
''', '''        indices = find_variables_indices_in_vector(var, self.u)
        self.u_expr = remove_variables_from_vector_by_indices(indices, self.u_expr)
        self.u = remove_variables_from_vector(var, self.u)
'''))
r("X07-replace-check-helper",
  (CM, '''        if original.numel() != replacement.numel():
            raise ValueError(
                "Original and replacement must have the same number of elements!"
                "original.numel()={}, replacement.numel()={}".format(
                    original.numel(), replacement.numel()
                )
            )
''', '''        _check_same_size(original, replacement)
'''),
  (CM, '''class ControlMixin(BaseMixin):
''', '''def _check_same_size(original, replacement):
    n_orig, n_repl = original.numel(), replacement.numel()
    if n_orig != n_repl:
        raise ValueError(
            "Original and replacement must have the same number of elements!"
            f"original.numel()={n_orig}, replacement.numel()={n_repl}"
        )


class ControlMixin(BaseMixin):
'''))
r("X08-ode-property",
  (XM, '''            return SX(vertcat(*[val for val in self._ode.values() if val is not None]))
''', '''            equations = []
            for state in self._ode:
                equation = self._ode[state]
                if equation is not None:
                    equations.append(equation)
            return SX(vertcat(*equations))
'''))
r("X09-include-state-any",
  (XM, '''        for x_i in var.nz:
            if x_i in self._ode:
                raise ValueError(f'State "{x_i}" already in this model')
''', '''        duplicated = [x_i for x_i in var.nz if x_i in self._ode]
        if duplicated:
            raise ValueError(f'State "{duplicated[0]}" already in this model')
'''))
r("X10-include-state-update",
  (XM, '''        for x_i in var.nz:
            self._ode[x_i] = None
''', '''        self._ode.update({x_i: None for x_i in var.nz})
'''))
r("X11-include-state-x0",
  (XM, '''        self.x = vertcat(self.x, var)
        if x_0 is None:
            x_0 = vertcat(*[SX.sym(var_i.name()) for var_i in var.nz])
        self.x_0 = vertcat(self.x_0, x_0)
''', '''        if x_0 is None:
            symbols = []
            for element in var.nz:
                symbols.append(SX.sym(element.name()))
            x_0 = vertcat(*symbols)
        self.x_0 = vertcat(self.x_0, x_0)
        self.x = vertcat(self.x, var)
'''))
r("X12-remove-state-pop",
  (XM, '''        for x_i in var.nz:
            del self._ode[x_i]
''', '''        for x_i in var.nz:
            self._ode.pop(x_i)
'''))
r("X13-replace-ode-comprehension",
  (XM, '''            for x_i, x_i_eq in self._ode.items():
                if x_i_eq is not None:
                    self._ode[x_i] = substitute(x_i_eq, original, replacement)
''', '''            for x_i in self._ode:
                x_i_eq = self._ode[x_i]
                if x_i_eq is None:
                    continue
                self._ode[x_i] = substitute(x_i_eq, original, replacement)
'''))
r("X14-include-equations-early",
  (XM, '''        if kwargs.get("ode") is None:
            return
        ode = kwargs["ode"]
        x = kwargs.pop("x", None)
''', '''        ode = kwargs.get("ode")
        if ode is None:
            return
        x = kwargs.pop("x", None)
'''))
r("X15-include-equations-listform",
  (XM, '''        if isinstance(ode, abc.Sequence):
            ode = vertcat(*ode)
        if isinstance(x, abc.Sequence):
            x = vertcat(*x)
''', '''        ode = self._stack(ode)
        x = self._stack(x)
'''),
  (XM, '''    def _include_equation_from_kwargs(self''', '''    @staticmethod
    def _stack(value):
        return vertcat(*value) if isinstance(value, abc.Sequence) else value

    def _include_equation_from_kwargs(self'''))
r("X16-guess-x-helper",
  (XM, ('''        if x is None:
            # Check if None are all sequential''', '''    def _include_equation_from_kwargs'''), '''        if x is None:
            x = self._next_states(ode.numel())
        self._include_equation_from_kwargs(x, ode)

    def _next_states(self, n: int):
        states = list(self._ode.keys())
        equations = list(self._ode.values())
        first_none = equations.index(None)
        if any(eq is not None for eq in equations[:first_none]):
            raise ValueError(
                "ODE should be inserted on the equation form or in the list form."
                "You can't mix both without explicit passing the states associated with the equation."
            )
        return vertcat(*states[first_none : first_none + n])

'''))
r("X17-include-from-kwargs-loop",
  (XM, '''        self._ode = {**self._ode, **dict(zip(x.nz, densify(ode).nz))}
''', '''        equations = dict(self._ode)
        equations.update(zip(x.nz, densify(ode).nz))
        self._ode = equations
'''))
r("X18-include-from-kwargs-loop2",
  (XM, '''        self._ode = {**self._ode, **dict(zip(x.nz, densify(ode).nz))}
''', '''        equations = self._ode.copy()
        for x_i, ode_i in zip(x.nz, densify(ode).nz):
            equations[x_i] = ode_i
        self._ode = equations
'''))
r("X19-diff-equations",
  (XM, '''        x = SX(0, 1)
        ode = SX(0, 1)
        # get ode and x from equality equations
        for eq in args:
            if isinstance(eq, EqualityEquation) and isinstance(eq.lhs, Derivative):
                ode = vertcat(ode, eq.rhs)
                x = vertcat(x, eq.lhs.inner)
''', '''        differential = [
            eq
            for eq in args
            if isinstance(eq, EqualityEquation) and isinstance(eq.lhs, Derivative)
        ]
        x = SX(0, 1)
        ode = SX(0, 1)
        for eq in differential:
            x = vertcat(x, eq.lhs.inner)
            ode = vertcat(ode, eq.rhs)
'''))
r("X20-find-algebraic-defaults",
  (AM, '''        if guess is None:
            guess = DM([1.0] * self.n_y)
        if isinstance(guess, list):
            guess = DM(guess)
''', '''        if guess is None:
            guess = [1.0] * self.n_y
        guess = DM(guess) if isinstance(guess, list) else guess
'''))
r("X21-find-algebraic-inline",
  (AM, '''        alg = self.alg
        known_var = vertcat(self.t, self.x, self.u, self.p, self.theta)
        known_var_values = vertcat(t, x, u, p, theta_value)
        alg = substitute(alg, known_var, known_var_values)
''', '''        alg = substitute(
            self.alg,
            vertcat(self.t, self.x, self.u, self.p, self.theta),
            vertcat(t, x, u, p, theta_value),
        )
'''),
  (AM, '''        if p is None:
            p = []
        if theta_value is None:
            theta_value = []
''', '''        p = [] if p is None else p
        theta_value = [] if theta_value is None else theta_value
'''))
r("X22-alg-include-equations",
  (AM, '''        for eq in args:
            if is_equality(eq):
                alg = vertcat(alg, eq.dep(0) - eq.dep(1))
''', '''        for eq in filter(is_equality, args):
            alg = vertcat(alg, eq.dep(0) - eq.dep(1))
'''))
r("X23-alg-include-equations-residual",
  (AM, '''        for eq in args:
            if is_equality(eq):
                alg = vertcat(alg, eq.dep(0) - eq.dep(1))
''', '''        for eq in args:
            if not is_equality(eq):
                continue
            lhs, rhs = eq.dep(0), eq.dep(1)
            alg = vertcat(alg, lhs - rhs)
'''))
r("X24-create-param-shared",
  (PM, '''        if callable(getattr(self, "name_variable", None)):
            name = self.name_variable(name)

        new_p = SX.sym(name, size)
        self.include_parameter(vec(new_p))
        return new_p
''', '''        new_p = self._new_symbol(name, size)
        self.include_parameter(vec(new_p))
        return new_p
'''),
  (PM, '''        if callable(getattr(self, "name_variable", None)):
            name = self.name_variable(name)

        new_theta = SX.sym(name, size)
        self.include_theta(vec(new_theta))
        return new_theta
''', '''        new_theta = self._new_symbol(name, size)
        self.include_theta(vec(new_theta))
        return new_theta

    def _new_symbol(self, name, size):
        if callable(getattr(self, "name_variable", None)):
            name = self.name_variable(name)
        return SX.sym(name, size)
'''))
r("X25-dae-init",
  (DA, '''        if y is None:
            y = SX(0, 1)
        if p is None:
            p = SX(0, 1)
        if alg is None:
            alg = SX(0, 1)

        self.x = x
        self.y = y
        self.p = p
        self.ode = ode
        self.alg = alg
''', '''        self.x = x
        self.y = SX(0, 1) if y is None else y
        self.p = SX(0, 1) if p is None else p
        self.ode = ode
        self.alg = alg if alg is not None else SX(0, 1)
'''))
r("X26-dae-dict",
  (DA, '''        if self.is_ode:
            dae_sys_dict = {"x": self.x, "ode": self.ode, "t": self.t}
        else:
            dae_sys_dict = {
                "x": self.x,
                "z": self.y,
                "ode": self.ode,
                "alg": self.alg,
                "t": self.t,
            }
''', '''        dae_sys_dict = {"x": self.x, "ode": self.ode, "t": self.t}
        if not self.is_ode:
            dae_sys_dict.update(z=self.y, alg=self.alg)
'''))
r("X27-dae-has-variable",
  (DA, '''        args = [self.x, self.y, self.p, self.t]
        if self.tau is not None:
            args.append(self.tau)
        ind = find_variables_indices_in_vector(var, vertcat(*args))
        return len(ind) > 0
''', '''        variables = vertcat(self.x, self.y, self.p, self.t)
        if self.tau is not None:
            variables = vertcat(variables, self.tau)
        return bool(find_variables_indices_in_vector(var, variables))
'''))
r("X28-dae-substitute-loop",
  (DA, '''        self.ode = substitute(self.ode, old_var, new_var)
        self.alg = substitute(self.alg, old_var, new_var)
        self.x = substitute(self.x, old_var, new_var)
        self.y = substitute(self.y, old_var, new_var)
        self.p = substitute(self.p, old_var, new_var)
''', '''        for field in ["x", "y", "p", "ode", "alg"]:
            value = getattr(self, field)
            setattr(self, field, substitute(value, old_var, new_var))
'''))
r("X29-dae-join-helper",
  (DA, '''        self.ode = vertcat(self.ode, dae_sys.ode)
        self.alg = vertcat(self.alg, dae_sys.alg)
        self.x = vertcat(self.x, dae_sys.x)
        self.y = vertcat(self.y, dae_sys.y)
        self.p = vertcat(self.p, dae_sys.p)
''', '''        self.x, self.y, self.p = (
            vertcat(self.x, dae_sys.x),
            vertcat(self.y, dae_sys.y),
            vertcat(self.p, dae_sys.p),
        )
        self.ode, self.alg = vertcat(self.ode, dae_sys.ode), vertcat(self.alg, dae_sys.alg)
'''))
r("X30-dae-simulate-opts",
  (DA, '''        if integrator_options is None:
            integrator_options = {}
        if p is None:
            p = DM()

        opts = {"tf": t_f, "t0": t_0}  # final time
        for k in integrator_options:
            opts[k] = integrator_options[k]
''', '''        p = DM() if p is None else p
        opts = {"tf": t_f, "t0": t_0, **(integrator_options or {})}
'''))
r("X31-dae-simulate-update",
  (DA, '''        for k in integrator_options:
            opts[k] = integrator_options[k]
''', '''        opts.update(integrator_options)
'''))
r("X32-dae-create-integrator",
  (DA, ('''        # Integrator Function name
        name = options.pop("name")''', '''        raise ValueError('''), '''        name = options.pop("name", "integrator")
        for option, default in config.INTEGRATOR_OPTIONS.items():
            options.setdefault(option, default)

        if integrator_type == "explicit":
            plugin = "rk"
        elif integrator_type == "implicit":
            plugin = "cvodes" if self.is_ode else "idas"
        else:
            plugin = integrator_type

        if plugin in ("rk", "collocation", "cvodes", "idas"):
            return integrator(name, plugin, self.dae_system_dict, options)

'''))
r("X33-dae-type",
  (DA, '''        if self.alg.numel() == 0:
            return "ode"
        return "dae"
''', '''        return "ode" if self.alg.numel() == 0 else "dae"
'''),
  (DA, '''        return self.type == "dae"
''', '''        return self.alg.numel() != 0
'''))
r("X34-dae-tau-loop",
  (DA, '''        self.alg = convert_expr_from_tau_to_time(
            expr=self.alg, t_sym=self.t, tau_sym=self.tau, t_k=t_k, t_kp1=t_kp1
        )
        self.ode = convert_expr_from_tau_to_time(
            expr=self.ode, t_sym=self.t, tau_sym=self.tau, t_k=t_k, t_kp1=t_kp1
        )
''', '''        def to_time(expr):
            return convert_expr_from_tau_to_time(expr, self.t, self.tau, t_k, t_kp1)

        self.ode = to_time(self.ode)
        self.alg = to_time(self.alg)
'''))
r("X35-ds-create-entry",
  (DS, '''            names = [entry + "_" + str(i) for i in range(size)]
''', '''            names = [f"{entry}_{i}" for i in range(size)]
'''))
r("X36-ds-insert-local",
  (DS, '''        self.data[entry].values = horzcat(self.data[entry].values, value)
        self.data[entry].time = horzcat(self.data[entry].time, time)
''', '''        stored = self.data[entry]
        stored.values = horzcat(stored.values, value)
        stored.time = horzcat(stored.time, time)
'''))
r("X37-ds-insert-elif",
  (DS, '''        if isinstance(time, list):
            time = horzcat(*time)
        if isinstance(time, (float, int)):
            time = DM(time)
''', '''        if isinstance(time, list):
            time = horzcat(*time)
        elif isinstance(time, (float, int)):
            time = DM(time)
'''))
r("X38-ds-sort-order",
  (DS, ('''            entry_length = self.data[entry].time.shape[1]''', '''    def save('''), '''            record = self.data[entry]
            time = [record.time[i] for i in range(record.time.shape[1])]
            values = [record.values[:, i] for i in range(record.values.shape[1])]
            points = sorted(zip(time, values), key=lambda point: float(point[0]))
            time, values = (list(t) for t in zip(*points))
            record.time = horzcat(*time)
            record.values = horzcat(*values)

'''))
r("X39-ds-extend",
  (DS, '''        for entry in other_dataset.data:
            if self.get_entry_size(entry) != other_dataset.get_entry_size(entry):
                raise ValueError(
                    "The size of the same entry is different in the two datasets, "
                    "{}!={}".format(
                        self.get_entry_size(entry), other_dataset.get_entry_size(entry)
                    )
                )
''', '''        for entry in other_dataset.data:
            own_size = self.get_entry_size(entry)
            other_size = other_dataset.get_entry_size(entry)
            if own_size != other_size:
                raise ValueError(
                    "The size of the same entry is different in the two datasets, "
                    f"{own_size}!={other_size}"
                )
'''))
r("X40-ds-get-entry",
  (DS, '''        return self.data[entry].time, self.data[entry].values
''', '''        record = self.data[entry]
        return (record.time, record.values)
'''))
r("X41-ut-find-indices",
  (UT, '''    indices: List[int] = []

    for v in var.nz:
        for ind_vector, vector_var in enumerate(vector.nz):
            if is_equal(vector_var, v, depth):
                indices.append(ind_vector)
    return indices
''', '''    return [
        index
        for v in var.nz
        for index, candidate in enumerate(vector.nz)
        if is_equal(candidate, v, depth)
    ]
'''))
r("X42-ut-by-name",
  (UT, ('''    if not isinstance(names, list):
        names = [names]

    result = []
''', '''def remove_variables_from_vector('''), '''    names = names if isinstance(names, list) else [names]
    elements = [vector[i] for i in range(vector.numel())]

    if exact:
        return [element for name in names for element in elements if element.name() == name]
    return [
        element
        for regex in names
        for element in elements
        if re.match(regex, element.name())
    ]


'''))
r("X43-ut-remove-not",
  (UT, '''    if len(to_remove) == 0:
        raise ValueError(
            '"var" not found''', '''    if not to_remove:
        raise ValueError(
            '"var" not found'''))
r("X44-ut-remove-indices",
  (UT, '''        indices = [ind if ind >= 0 else ind + numel for ind in indices]
    remaining_ind = [ind for ind in range(vector.numel()) if ind not in indices]
    vector = vector[remaining_ind]
''', '''        indices = [ind + numel if ind < 0 else ind for ind in indices]
    remaining = []
    for ind in range(vector.numel()):
        if ind not in indices:
            remaining.append(ind)
    vector = vector[remaining]
'''))
r("X45-ut-const-theta",
  (UT, '''    return {i: vec(constant * DM.ones(*dimension)) for i in range(finite_elements)}
''', '''    theta = {}
    for element in range(finite_elements):
        theta[element] = vec(constant * DM.ones(*dimension))
    return theta
'''))
r("X46-ut-join-thetas",
  (UT, '''    all_keys = list(set(all_keys))
    for i in all_keys:
        new_theta[i] = vertcat(
            *[theta[i] for theta in args if (theta is not None and i in theta)]
        )

    return new_theta
''', '''    given = [theta for theta in args if theta is not None]
    return {
        i: vertcat(*[theta[i] for theta in given if i in theta])
        for i in list(set(all_keys))
    }
'''))
r("X47-ut-lagrange",
  (UT, '''    l_list = []
    for j in range(len(tau_root)):
        ell = SX(1)
        for k in range(len(tau_root)):
            if k != j:
                ell *= (tau - tau_root[k]) / (tau_root[j] - tau_root[k])
        l_list.append(ell)
    return l_list
''', '''    basis = []
    for j, tau_j in enumerate(tau_root):
        ell = SX(1)
        for k, tau_k in enumerate(tau_root):
            if j == k:
                continue
            ell *= (tau - tau_k) / (tau_j - tau_k)
        basis.append(ell)
    return basis
'''))
r("X48-ut-poly",
  (UT, '''    if degree == 1:
        pol = points
    else:
        ell_list = _create_lagrangian_polynomial_basis(
            tau=tau, degree=degree, point_at_zero=point_at_zero
        )
        pol = SX(sum(ell_list[j] * points[:, j] for j in range(n_par)))
    par = vec(points)

    return pol, par
''', '''    par = vec(points)
    if degree == 1:
        return points, par

    basis = _create_lagrangian_polynomial_basis(tau, degree, point_at_zero)
    terms = [basis[j] * points[:, j] for j in range(n_par)]
    return SX(sum(terms)), par
'''))
r("X49-ut-ineq",
  (UT, '''    return isinstance(expr, (MX, SX)) and (expr.op() == OP_LE or expr.op() == OP_LT)
''', '''    if not isinstance(expr, (MX, SX)):
        return False
    return expr.op() in (OP_LE, OP_LT)
'''))
r("X50-ut-expm",
  (UT, '''    dim = a_matrix.shape[1]

    # Create the integrator
    x_mx = MX.sym("x", a_matrix.shape[1])
''', '''    _, dim = a_matrix.shape

    # Create the integrator
    x_mx = MX.sym("x", dim)
'''),
  (UT, '''    integrator_map = integrator_.map(a_matrix.shape[1], "thread")

    x0 = DM.eye(dim)
    repmat_result = repmat(vec(a_matrix), (1, a_matrix.shape[1]))
    result = integrator_map(x0=x0, p=repmat_result)
    return result["xf"]
''', '''    integrator_map = integrator_.map(dim, "thread")
    parameters = repmat(vec(a_matrix), (1, dim))
    return integrator_map(x0=DM.eye(dim), p=parameters)["xf"]
'''))
r("X51-timer",
  (UT, '''        if self._elapsed is None:
            raise ValueError("Timer still running")
        return self._elapsed * 1000
''', '''        return self.elapsed * 1000
'''))
