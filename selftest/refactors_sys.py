from selftest.refactors import r
Y = "yaocptool/modelling/system_model.py"

r("Y01-system-type",
  (Y, '''        with suppress(AttributeError):
            if self.n_y > 0:
                return "dae"
        return "ode"
''', '''        try:
            has_algebraic = self.n_y > 0
        except AttributeError:
            has_algebraic = False
        return "dae" if has_algebraic else "ode"
'''))
r("Y02-xsys",
  (Y, '''        if self.has_adjoint_variables:
            return self.x[: int(self.n_x // 2)]
        else:
            return self.x
''', '''        if not self.has_adjoint_variables:
            return self.x
        n_sys = self.n_x // 2
        return self.x[:n_sys]
'''))
r("Y03-include-vars-loop",
  (Y, ('''        if x is not None:
            if isinstance(x, list):
                x = vertcat(*x)
            self.include_state(x)
''', '''    def replace_variable('''), '''        for value, include in (
            (x, self.include_state),
            (y, self.include_algebraic),
            (u, self.include_control),
            (p, self.include_parameter),
            (theta, self.include_theta),
        ):
            if value is None:
                continue
            include(vertcat(*value) if isinstance(value, list) else value)

'''))
r("Y04-include-vars-helper",
  (Y, ('''        if x is not None:
            if isinstance(x, list):
                x = vertcat(*x)
            self.include_state(x)
''', '''    def replace_variable('''), '''        if x is not None:
            self.include_state(self._as_vector(x))
        if y is not None:
            self.include_algebraic(self._as_vector(y))
        if u is not None:
            self.include_control(self._as_vector(u))
        if p is not None:
            self.include_parameter(self._as_vector(p))
        if theta is not None:
            self.include_theta(self._as_vector(theta))

    @staticmethod
    def _as_vector(value):
        if isinstance(value, list):
            return vertcat(*value)
        return value

'''))
r("Y05-get-by-name",
  (Y, ('''        result = self.get_variables_by_names(name, var_type)
''', '''    def get_variables_by_names('''), '''        found = self.get_variables_by_names(name, var_type)
        if not found:
            raise ValueError(f"No variable was found with name: {name}")
        if len(found) > 1:
            raise ValueError(
                f"Multiple variables where found with the name: {name}. Found: {found}"
            )
        return found[0]

'''))
r("Y06-get-by-names-comp",
  (Y, ('''        result = []
        for var_t in var_type:
''', '''    def has_variable('''), '''        return [
            variable
            for kind in var_type
            for variable in find_variables_in_vector_by_name(names, getattr(self, kind))
        ]

'''))
r("Y07-has-variable",
  (Y, ('''        ind = find_variables_indices_in_vector(
            var,
            vertcat(
''', '''    def is_parametrized('''), '''        everything = vertcat(self.x, self.y, self.u, self.p, self.theta, self.u_par)
        return bool(find_variables_indices_in_vector(var, everything))

'''))
r("Y08-parametrized",
  (Y, '''        return len(self._parametrized_controls) > 0
''', '''        return len(self._parametrized_controls) != 0
'''))
r("Y09-include-models-helper",
  (Y, ('''        for model in models:
            # include variables
''', '''    def merge(
'''), '''        for model in models:
            self._include_model(model)

    def _include_model(self, model):
        self.include_state(model.x, x_0=model.x_0)
        self.include_algebraic(model.y)
        self.u_par = vertcat(self.u_par, model.u_par)
        self.u_expr = vertcat(self.u_expr, model.u_expr)
        self.u = vertcat(self.u, model.u)
        self._parametrized_controls = [
            *self._parametrized_controls,
            *model._parametrized_controls,
        ]
        self.include_parameter(model.p)
        self.include_theta(model.theta)
        self.include_equations(ode=model.ode, alg=model.alg, x=model.x)
        for mine, other in ((self.t, model.t), (self.tau, model.tau)):
            self.replace_variable(other, mine)

'''))
r("Y10-merge",
  (Y, '''        if not isinstance(models_list, list):
            models_list = [models_list]

        self.include_models(models_list)

        if connecting''', '''        models = models_list if isinstance(models_list, list) else [models_list]
        self.include_models(models)

        if connecting'''))
r("Y11-connect-raise",
  (Y, ('''        assert (
            u.numel() == y.numel()
        ), f''', '''    @staticmethod
    def put_values_in_all'''), '''        n_u, n_y = u.numel(), y.numel()
        assert n_u == n_y, f'Size of "u" and "y" "are not the same, u={n_u} and y={n_y}'

        if not replace:
            self.include_equations(alg=[u - y])
            self.include_algebraic(u)
        else:
            self.replace_variable(u, y)
        self.remove_control(u)

'''))
r("Y12-put-values-comp",
  (Y, ('''        if t is None:
            t = DM()
        if x is None:
''', '''    @staticmethod
    def all_sym_names'''), '''        return tuple(
            DM() if value is None else value for value in (t, x, y, p, theta, u_par)
        )

'''))
r("Y13-put-values-helper",
  (Y, ('''        if t is None:
            t = DM()
        if x is None:
''', '''    @staticmethod
    def all_sym_names'''), '''        def default(value):
            return value if value is not None else DM()

        return (
            default(t),
            default(x),
            default(y),
            default(p),
            default(theta),
            default(u_par),
        )

'''))
r("Y14-tau",
  (Y, '''        t = self.t
        tau = self.tau
        h = t_kp1 - t_k
        return substitute(expr, t, tau * h + t_k)
''', '''        step = t_kp1 - t_k
        return substitute(expr, self.t, t_k + self.tau * step)
'''))
r("Y15-copy",
  (Y, '''        copy_model = copy.copy(self)
        copy_model._ode = dict(copy_model._ode)
        return copy_model
''', '''        model = copy.copy(self)
        model._ode = {state: eq for state, eq in self._ode.items()}
        return model
'''))
r("Y16-deepcopy-helper",
  (Y, ('''        x_copy = SX(0, 1)
        y_copy = SX(0, 1)
''', '''        if self.n_u_par > 0:
            # controls'''), '''        def copy_of(vector, create):
            if vector.numel() == 0:
                return SX(0, 1)
            return vertcat(
                *[create(vector[i].name()) for i in range(vector.numel())]
            )

        u_par_copy = SX(0, 1)
        x_copy = copy_of(self.x, model_copy.create_state)
        y_copy = copy_of(self.y, model_copy.create_algebraic_variable)
        u_copy = copy_of(self.u, model_copy.create_control)
        p_copy = copy_of(self.p, model_copy.create_parameter)
        theta_copy = copy_of(self.theta, model_copy.create_theta)

'''))
r("Y17-deepcopy-upar-loop",
  (Y, ('''            # controls that are not parametrized are their own parameters
''', '''        has_ode = ['''), '''            pars = []
            for u_par_i in self.u_par.nz:
                indices = find_variables_indices_in_vector(u_par_i, self.u)
                if indices:
                    pars.append(u_copy[indices])
                else:
                    pars.append(SX.sym(u_par_i.name()))
            u_par_copy = vertcat(*pars)

'''))
r("Y18-deepcopy-replace-dict",
  (Y, '''            if original.numel() > 0:
                model_copy.replace_variable(original, replacement)
''', '''            if original.numel() == 0:
                continue
            model_copy.replace_variable(original, replacement)
'''))
r("Y19-dae",
  (Y, ('''        if self.system_type == "ode":
            kwargs = {
''', '''    def simulate(
'''), '''        kwargs = dict(x=self.x, ode=self.ode, t=self.t, tau=self.tau)
        if self.system_type != "ode":
            kwargs.update(y=self.y, alg=self.alg)
        parameters = vertcat(self.p, self.theta, self.u_par)
        if self.n_p + self.n_theta + self.n_u_par > 0:
            kwargs["p"] = parameters
        return DAESystem(**kwargs)

'''))
r("Y20-sim-args",
  (Y, ('''        if isinstance(x_0, list):
            x_0 = vertcat(*x_0)
        if isinstance(y_0, list):
''', '''        u_sim = u if isinstance'''), '''        x_0, y_0, u, p = [
            vertcat(*value) if isinstance(value, list) else value
            for value in (x_0, y_0, u, p)
        ]
        if not isinstance(t_f, list):
            t_f = [t_f]
        n_intervals = len(t_f)

        if theta is None:
            theta = {k: DM() for k in range(n_intervals)}
        p = DM() if p is None else p
        u = DM() if u is None else u

'''))
r("Y21-sim-loop",
  (Y, ('''        t_k = t_0
        x_k = x_0
        y_k = y_0
''', '''        simulation_result = SimulationResult('''), '''        f_u = Function("f_u", self.all_sym, [self.u_expr])

        y_k = y_0
        for k in range(len(t_f)):
            result = dae_sys.simulate(
                x_0=x_list[-1],
                t_f=t_f[k],
                t_0=t_x_list[-1],
                p=vertcat(p, theta[k], u_sim[k]),
                y_0=y_k,
                integrator_type=integrator_type,
                integrator_options=integrator_options,
            )
            t_x_list.append(t_f[k])
            t_yu_list.append(t_f[k])
            y_k = result["zf"]
            x_list.append(result["xf"])
            y_list.append(y_k)
            u_list.append(
                f_u(
                    *self.put_values_in_all_sym_format(
                        t=t_f[k], x=result["xf"], y=y_k, p=p, theta=theta[k], u_par=u_sim[k]
                    )
                )
            )

'''))
r("Y22-sim-insert",
  (Y, ('''        simulation_result.insert_data(
            "x", time=horzcat''', '''        return simulation_result
'''), '''        for entry, times, values in (
            ("x", t_x_list, x_list),
            ("y", t_yu_list, y_list),
            ("u", t_yu_list, u_list),
        ):
            simulation_result.insert_data(
                entry, time=horzcat(*times), value=horzcat(*values)
            )

'''))
r("Y23-sim-no-txu",
  (Y, '''        t_x_list = [t_0]
        t_yu_list = []
''', '''        t_x_list = [t_0] + t_f
        t_yu_list = list(t_f)
'''),
  (Y, '''            t_x_list.append(t_kpp)
            t_yu_list.append(t_kpp)

''', ''))
r("Y24-linearize",
  (Y, ('''        a_matrix = Function("a_matrix"''', '''        linear_model = SystemModel()
'''), '''        def evaluated_jacobian(name, wrt):
            function = Function(name, [self.x, self.u], [jacobian(self.ode, wrt)])
            return function(x_bar, u_bar)

        a_matrix = evaluated_jacobian("a_matrix", self.x)
        b_matrix = evaluated_jacobian("b_matrix", self.u)

'''))
r("Y25-linearize-mm",
  (Y, '''            ode=[mtimes(a_matrix, linear_model.x) + mtimes(b_matrix, linear_model.u)]
''', '''            ode=[a_matrix @ linear_model.x + b_matrix @ linear_model.u]
'''))
r("Y26-equilibrium",
  (Y, ('''        eqs = vertcat(self.ode, self.alg, additional_eqs)
''', '''            res[: self.n_x],'''), '''        eqs = substitute(vertcat(self.ode, self.alg, additional_eqs), self.t, t_0)
        f_eqs = Function(
            "f_equilibrium",
            [vertcat(self.x, self.y, self.u)],
            [substitute(eqs, self.tau, 0)],
        )
        rf = rootfinder("rf_equilibrium", "nlpsol", f_eqs, rootfinder_options)
        res = rf(guess)
        return (
'''))
r("Y27-equilibrium-split",
  (Y, '''        return (
            res[: self.n_x],
            res[self.n_x : self.n_x + self.n_y],
            res[self.n_x + self.n_y :],
        )''', '''        end_x = self.n_x
        end_y = end_x + self.n_y
        x_eq, y_eq, u_eq = res[:end_x], res[end_x:end_y], res[end_y:]
        return x_eq, y_eq, u_eq'''))
r("Y28-equilibrium-guess",
  (Y, '''            guess = [1] * (self.n_x + self.n_y + self.n_u)
''', '''            n_unknowns = self.n_x + self.n_y + self.n_u
            guess = [1 for _ in range(n_unknowns)]
'''))
r("Y29-name-variable",
  (Y, '''        if self.model_name_as_prefix:
            return f"{self.name}_{name}"
        return name
''', '''        return "_".join([self.name, name]) if self.model_name_as_prefix else name
'''))
