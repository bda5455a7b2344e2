from selftest.refactors import r
A = "yaocptool/methods/augmented_lagrangian.py"

r("A01-sync-options-helper",
  (A, ('''        for attr in ["degree", "finite_elements"]:
            if (
''', '''        #  LOGGER.setLevel('''), '''        self._sync_option("degree", ocp_solver_class, solver_options, kwargs)
        self._sync_option("finite_elements", ocp_solver_class, solver_options, kwargs)

'''),
  (A, '''    # region # PROPERTY
    @property
    def model(self) -> SystemModel:''', '''    def _sync_option(self, attr, ocp_solver_class, solver_options, kwargs):
        in_solver = attr in solver_options
        in_kwargs = attr in kwargs
        if in_solver and in_kwargs and solver_options[attr] != kwargs[attr]:
            raise ValueError(
                f"Trying to pass attribute '{attr}' for '{self.__class__.__name__}' and "
                f"'{ocp_solver_class.__name__}' that are not equal: {kwargs[attr]} != {solver_options[attr]}"
            )
        if in_solver:
            setattr(self.options, attr, solver_options[attr])
            return
        if in_kwargs:
            setattr(self.options, attr, kwargs[attr])
        solver_options[attr] = getattr(self.options, attr)

    # region # PROPERTY
    @property
    def model(self) -> SystemModel:'''))
r("A02-defaults-if",
  (A, ('''        self.relax_algebraic_index = (
            relax_algebraic_index
''', '''        self.relax_time_equality_index ='''), '''        if relax_algebraic_index is None:
            relax_algebraic_index = list(range(self.model.n_y))
        if relax_algebraic_var_index is None:
            relax_algebraic_var_index = relax_algebraic_index
        self.relax_algebraic_index = relax_algebraic_index
        self.relax_algebraic_var_index = relax_algebraic_var_index
'''))
r("A03-violation-helper",
  (A, '''            self.alg_violation = create_constant_theta(
                constant=0,
                dimension=len(self.relax_algebraic_index) * self.options.degree,
                finite_elements=self.options.finite_elements,
            )
            self.eq_violation = create_constant_theta(
                constant=0,
                dimension=len(self.relax_time_equality_index) * self.options.degree,
                finite_elements=self.options.finite_elements,
            )
''', '''            self.alg_violation = self._zeros_per_point(len(self.relax_algebraic_index))
            self.eq_violation = self._zeros_per_point(
                len(self.relax_time_equality_index)
            )
'''),
  (A, '''        return create_constant_theta(
            constant=0,
            dimension=self.n_relax * self.options.degree,
            finite_elements=self.options.finite_elements,
        )
''', '''        return self._zeros_per_point(self.n_relax)

    def _zeros_per_point(self, rows):
        options = self.options
        return create_constant_theta(0, rows * options.degree, options.finite_elements)
'''))
r("A04-time-nu-loop",
  (A, ('''        col_points = collocation_points(self.options.degree, "radau")
''', '''    def _include_relax_in_objective'''), '''        col_points = collocation_points(self.options.degree, "radau")
        times = []
        for el in range(self.options.finite_elements):
            start = self.ocp_solver.time_breakpoints[el]
            row = []
            for j in range(self.options.degree):
                row.append(start + self.ocp_solver.delta_t * col_points[j])
            times.append(row)
        return times

'''))
r("A05-relax-objective",
  (A, ('''        n_alg_relax = relaxed_eqs.numel()
''', '''    def _relax_algebraic_equations(self):'''), '''        size = relaxed_eqs.numel()
        nu_alg = SX.sym("AL_nu_alg", size)
        mu_sym = self._create_mu_variable(size)
        self.nu_sym = vertcat(self.nu_sym, nu_alg)
        self.n_relax = self.n_relax + size

        multiplier_term = nu_alg.T @ relaxed_eqs
        penalty_term = 0.5 * relaxed_eqs.T @ diag(mu_sym) @ relaxed_eqs
        self.problem.L = self.problem.L + (multiplier_term + penalty_term)

'''))
r("A06-relax-alg-locals",
  (A, ('''        # include the relaxed y_sym as controls
        u_guess = (''', '''    def _relax_time_equalities(self):'''), '''        problem = self.problem
        index = self.relax_algebraic_var_index
        relaxed_vars = self.model.y[index]
        u_guess = None
        if problem.y_guess is not None:
            u_guess = problem.y_guess[index]
        problem.include_control(
            relaxed_vars, u_max=problem.y_max[index], u_min=problem.y_min[index], u_guess=u_guess
        )
        problem.remove_algebraic(self.model.y[index], alg_relax)

'''))
r("A07-relax-time-del",
  (A, '''        for ind in sorted(self.relax_time_equality_index, reverse=True):
            self.problem.time_g_eq.pop(ind)
''', '''        for ind in reversed(sorted(self.relax_time_equality_index)):
            del self.problem.time_g_eq[ind]
'''))
r("A08-relax-states-continue",
  (A, ('''            if self.problem.x_max[i] != inf or self.problem.x_min[i] != -inf:
                y_x =''', '''    def _relax_inequalities(self):'''), '''            upper, lower = self.problem.x_max[i], self.problem.x_min[i]
            if upper == inf and lower == -inf:
                continue
            self._relax_state_bound(i)

    def _relax_state_bound(self, i):
        y_x = SX.sym(f"y_x_{i}")
        nu_y_x = SX.sym(f"nu_y_x_{i}")

        self.nu_sym = vertcat(self.nu_sym, nu_y_x)
        mu_sym = self._create_mu_variable()

        new_alg = y_x - self.model.x[i]
        self.problem.L += dot(nu_y_x.T, new_alg) + mu_sym / 2.0 * dot(
            new_alg.T, new_alg
        )

        self.relaxed_alg = vertcat(self.relaxed_alg, new_alg)
        self.problem.include_control(
            y_x, u_min=self.problem.x_min[i], u_max=self.problem.x_max[i]
        )
        self.problem.x_min[i] = -inf
        self.problem.x_max[i] = inf
        self.n_relax += 1

'''))
r("A09-nu-func-helper",
  (A, ('''            func_rel_alg = self.model.convert_expr_from_tau_to_time(''', '''            functions["f_nu"][el] = f_nu'''), '''            t_start = self.ocp_solver.time_breakpoints[el]
            t_end = self.ocp_solver.time_breakpoints[el + 1]

            def to_function(name, expr):
                in_time = self.model.convert_expr_from_tau_to_time(expr, t_start, t_end)
                return Function(name, self.model.all_sym, [in_time])

            f_nu = to_function("f_nu", self.nu_pol)
            f_relax_alg = to_function(
                "f_relax_alg", substitute(self.relaxed_alg, self.model.u, self.model.u_expr)
            )
            f_relax_eq = to_function(
                "f_relax_eq", substitute(self.relaxed_eq, self.model.u, self.model.u_expr)
            )

'''))
r("A10-nu-func-timedict",
  (A, ('''        time_dict = {i: {} for i in range(self.options.finite_elements)}

        for el in range(self.options.finite_elements):
            time_dict[el]["t_0"]''', '''        functions = defaultdict(dict)
        for el'''), '''        breakpoints = self.ocp_solver.time_breakpoints
        time_dict = {}
        for el in range(self.options.finite_elements):
            times = self.time_interpolation_nu[el]
            time_dict[el] = {
                "t_0": breakpoints[el],
                "t_f": breakpoints[el + 1],
                "f_nu": times,
                "f_relax_alg": times,
                "f_relax_eq": times,
            }

'''))
r("A11-nu-func-collect",
  (A, ('''        new_nu = []
        rel_alg = []
        rel_eq = []
        for el''', '''        return Function("nu_update_function"'''), '''        new_nu, rel_alg, rel_eq = [], [], []
        for el in range(self.options.finite_elements):
            res = results[el]
            points = range(self.options.degree)
            new_nu.append(
                horzcat(
                    *[
                        res["f_nu"][j]
                        + mu_mx * vertcat(res["f_relax_alg"][j], res["f_relax_eq"][j])
                        for j in points
                    ]
                )
            )
            rel_alg.append(horzcat(*[res["f_relax_alg"][j] for j in points]))
            rel_eq.append(horzcat(*[res["f_relax_eq"][j] for j in points]))

        output = [horzcat(*new_nu), horzcat(*rel_alg), horzcat(*rel_eq)]

'''))
r("A12-join-early",
  (A, '''        if theta is not None:
            return join_thetas(theta, nu)
        else:
            return nu
''', '''        if theta is None:
            return nu
        return join_thetas(theta, nu)
'''))
r("A13-solve-helper",
  (A, '''        if isinstance(p, (int, float, list)):
            p = DM(p)
        if isinstance(x_0, (int, float, list)):
            x_0 = DM(x_0)

        raw_solution_dict, p,''', '''        def as_dm(value):
            return DM(value) if isinstance(value, (int, float, list)) else value

        p = as_dm(p)
        x_0 = as_dm(x_0)

        raw_solution_dict, p,'''))
r("A14-call-solver-pk-helper",
  (A, '''            theta_k = self.join_nu_to_theta(theta, self.nu)
            p_k = vertcat(p, self.mu) if p is not None else self.mu

            # solve''', '''            theta_k = self.join_nu_to_theta(theta, self.nu)
            p_k = self._join_mu_to_p(p)

            # solve'''),
  (A, '''        theta_k = join_thetas(theta, self.nu)
        p_k = vertcat(p, self.mu) if p is not None else self.mu
        error = self._compute_new_nu_and_error(
            p=p_k, theta=theta_k, raw_solution_dict=raw_solution_dict
        )
        self._update_mu(''', '''        error = self._compute_new_nu_and_error(
            p=self._join_mu_to_p(p),
            theta=join_thetas(theta, self.nu),
            raw_solution_dict=raw_solution_dict,
        )
        self._update_mu('''),
  (A, '''    def update_parameters(
''', '''    def _join_mu_to_p(self, p):
        if p is None:
            return self.mu
        return vertcat(p, self.mu)

    def update_parameters(
'''))
r("A15-call-solver-error-if",
  (A, '''            error = (
                self.update_parameters(p, theta, raw_solution_dict)
                if not self.no_update_after_solving
                else DM(0)
            )
''', '''            if self.no_update_after_solving:
                error = DM(0)
            else:
                error = self.update_parameters(p, theta, raw_solution_dict)
'''),
  (A, '''            if (
                error is not None
                and not self.no_update_after_solving
                and all((error < self.options.tol).nz)
            ):
''', '''            converged = False
            if error is not None and not self.no_update_after_solving:
                converged = all((error < self.options.tol).nz)
            if converged:
'''))
r("A16-update-mu-dispatch",
  (A, ('''        if self.options.debug_skip_update_mu:
            return

''', '''    def _update_mu_primal('''), '''        rule = self.options.mu_update_rule
        if self.options.debug_skip_update_mu or rule == "constant":
            return
        if rule not in ("primal", "primal-dual", "bounded-increase"):
            raise ValueError(f"Unkwon `mu_update_rule`: {rule}")
        if rule == "primal" and last_error is not None:
            self._update_mu_primal(error, last_error)
        if rule == "bounded-increase":
            self.mu = fmin(self.options.mu_max, self.mu * self.options.beta)

'''))
r("A17-mu-primal",
  (A, ('''        for ind, (mu, err, last_err) in enumerate(
            zip(self.mu.nz''', '''    def set_mu('''), '''        factor = self.options.mu_min_error_decrease
        for ind, (mu, err, last_err) in enumerate(
            zip(self.mu.nz, error.nz, last_error.nz)
        ):
            decreased = err <= factor * last_err
            new_mu = mu if decreased else fmin(self.options.mu_max, mu * self.options.beta)
            LOGGER.info(f"{self.problem.name} {ind}: mu {mu} -> {new_mu}")
            self.mu[ind] = DM(new_mu)

'''))
r("A18-set-mu",
  (A, ('''        if mu.numel() == self.mu.numel():
            self.mu = mu
''', '''    def compute_primal_dual('''), '''        size = mu.numel()
        if size not in (1, self.mu.numel()):
            raise ValueError(
                "mu not scalar and size does not match solution_method's mu"
            )
        if size != self.mu.numel():
            mu = DM.ones(self.mu.shape) * mu
        self.mu = mu

'''))
r("A19-primal-dual",
  (A, ('''            for var_name, data in exogenous_data["in"].items():
''', '''        self.last_exogenous_data = exogenous_data
'''), '''            previous = self.last_exogenous_data["in"]
            for var_name, data in exogenous_data["in"].items():
                if data["block_number"] >= self.block_number:
                    diff = self._flatten(data) - self._flatten(previous[var_name])
                    s_k_1 = fmax(s_k_1, float(mmax(fabs(diff))))

'''),
  (A, '''    def compute_primal_dual(
''', '''    @staticmethod
    def _flatten(data):
        values = []
        for f_element in data["data"]:
            for val in f_element:
                values.append(val)
        return vertcat(*values)

    def compute_primal_dual(
'''))
r("A20-nu-error-early",
  (A, '''        errors = DM(0)

        if not self.options.debug_skip_compute_nu_and_error:
            raw_decision''', '''        if self.options.debug_skip_compute_nu_and_error:
            return DM(0)
        if True:
            raw_decision'''))
r("A21-nu-error-split",
  (A, ('''            self.alg_violation = (
                {
''', '''            errors = DM('''), '''            self.alg_violation = self._split_by_element(rel_alg)
            self.eq_violation = self._split_by_element(rel_eq)

'''),
  (A, '''    def _compute_new_nu_and_error(
''', '''    def _split_by_element(self, values):
        degree = self.options.degree
        if values.numel() == 0:
            return create_constant_theta(0, (0, degree), self.options.finite_elements)
        split = {}
        for el in range(self.options.finite_elements):
            split[el] = values[:, el * degree : (el + 1) * degree]
        return split

    def _compute_new_nu_and_error(
'''))
r("A22-nu-update-branches",
  (A, ('''            if not self.options.debug_skip_update_nu:
                if (
''', '''    def create_optimization_result('''), '''            if self.options.debug_skip_update_nu:
                return errors
            only_improved = (
                self.options.only_update_if_improve
                and self.last_violation_error is not None
                and any((errors > 0).nz)
            )
            if not only_improved:
                self.nu_tilde = nu_tilde
                return errors
            for ind, (error, last_error) in enumerate(
                zip(errors.nz, self.last_violation_error.nz)
            ):
                if error - last_error >= 0:
                    LOGGER.info("Error is greater than zero")
                    continue
                self.last_violation_error[ind] = error
                rows = slice(ind, None, self.n_relax)
                for el in self.nu_tilde:
                    self.nu_tilde[el][rows] = nu_tilde[el][rows]
        return errors

'''))
r("A23-result-loop",
  (A, ('''        optimization_result.other_data["nu"]["values"] = [
''', '''        optimization_result.statistics["violation_error"]'''), '''        for name, data in (
            ("nu", self.nu),
            ("alg_violation", self.alg_violation),
            ("eq_violation", self.eq_violation),
        ):
            entry = optimization_result.other_data[name]
            entry["values"] = [
                [self.ocp_solver.unvec(data[el])[:, d] for d in range(self.options.degree)]
                for el in range(self.options.finite_elements)
            ]
            entry["time"] = self.time_interpolation_nu

'''))
r("A24-parametrize-order",
  (A, ('''        self.nu_pol = vertcat(self.nu_pol, nu_pol)
''', '''        return nu_pol, nu_par'''), '''        self.problem.replace_variable(self.nu_sym, nu_pol)
        self.problem.model.include_theta(vec(nu_par))
        self.nu_par = vertcat(self.nu_par, nu_par)
        self.nu_pol = vertcat(self.nu_pol, nu_pol)

'''))
r("A25-mu-variable",
  (A, '''        self.mu = vertcat(self.mu, *([self.options.mu_0] * size))
        return new_mu
''', '''        initial_mu = [self.options.mu_0 for _ in range(size)]
        self.mu = vertcat(self.mu, *initial_mu)
        return new_mu
'''))
r("A26-mu-variable-name",
  (A, '''self.problem.create_parameter(f"mu_{self.mu_sym.numel()}", size)''',
   '''self.problem.create_parameter("mu_{}".format(self.mu_sym.numel()), size)'''))
r("A27-init-nu",
  (A, '''            self.nu = nu or self.create_nu_initial_guess()
''', '''            self.nu = nu if nu else self.create_nu_initial_guess()
'''))
