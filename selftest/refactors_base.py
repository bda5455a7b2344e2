from selftest.refactors import r
D = "yaocptool/methods/base/discretizationschemebase.py"
S = "yaocptool/methods/base/solutionmethodsbase.py"

r("D01-vectorize",
  (D, '''        if vector and isinstance(vector[0], list):
            return vertcat(*[self.vectorize(sub_vector) for sub_vector in vector])
        else:
            return vertcat(*vector)
''', '''        is_nested = bool(vector) and isinstance(vector[0], list)
        if is_nested:
            vector = [self.vectorize(part) for part in vector]
        return vertcat(*vector)
'''))
r("D02-functions-comprehension",
  (D, ('''        function_dict = {}
''', '''    def discretize('''), '''        def function_in(el):
            expr_el = convert_expr_from_tau_to_time(
                expr,
                self.model.t,
                self.model.tau,
                self.time_breakpoints[el],
                self.time_breakpoints[el + 1],
            )
            return Function("{}_{}".format(name, el), self.model.all_sym, [expr_el])

        return {el: function_in(el) for el in range(self.finite_elements)}

'''))
r("D03-functions-zip",
  (D, '''        for el in range(self.finite_elements):
            expr_el = convert_expr_from_tau_to_time(
                expr,
                self.model.t,
                self.model.tau,
                self.time_breakpoints[el],
                self.time_breakpoints[el + 1],
            )
''', '''        breakpoints = self.time_breakpoints
        for el in range(self.finite_elements):
            t_start, t_end = breakpoints[el], breakpoints[el + 1]
            expr_el = convert_expr_from_tau_to_time(
                expr, self.model.t, self.model.tau, t_start, t_end
            )
'''))
r("D04-interp-controls",
  (D, ('''        tau_list = (
            [0.0]''', '''    @overload
    def vectorize(self, vector: List[NumericMT]) -> NumericMT:'''), '''        if self.degree_control == 1:
            tau_list = [0.0]
        else:
            tau_list = self.solution_method.collocation_points(
                self.degree_control, with_zero=False
            )
        times = []
        for t in self.time_breakpoints[:-1]:
            times.append([t + self.delta_t * tau for tau in tau_list])
        return times

'''))
r("D05-init-guard",
  (D, '''        if (
            self.solution_method.degree_control > 1
            and self.solution_method.problem.has_delta_u
        ):
            raise''', '''        if not self.solution_method.degree_control > 1:
            return
        if self.solution_method.problem.has_delta_u:
            raise'''))
r("S01-init-opts",
  (S, '''        for k in config.SOLVER_OPTIONS["nlpsol_options"]:
            if k not in self.nlpsol_opts:
                self.nlpsol_opts[k] = config.SOLVER_OPTIONS["nlpsol_options"][k]
''', '''        for k, v in config.SOLVER_OPTIONS["nlpsol_options"].items():
            self.nlpsol_opts.setdefault(k, v)
'''))
r("S02-init-dispatch",
  (S, ('''        if self.discretization_scheme == "multiple-shooting":
            self.discretizer =''', '''    @property
    def model(self)'''), '''        schemes = {
            "multiple-shooting": MultipleShootingScheme,
            "collocation": CollocationScheme,
        }
        if self.discretization_scheme not in schemes:
            raise Exception(
                "Discretization scheme not recognized: '{}'. Available options: 'multiple-shooting'"
                " and 'collocation'".format(self.discretization_scheme)
            )
        self.discretizer = schemes[self.discretization_scheme](self)

'''))
r("S03-init-method",
  (S, ('''        if self.discretization_scheme == "multiple-shooting":
            self.discretizer =''', '''    @property
    def model(self)'''), '''        self.discretizer = self._create_discretizer()

    def _create_discretizer(self):
        scheme = self.discretization_scheme
        if scheme == "collocation":
            return CollocationScheme(self)
        if scheme == "multiple-shooting":
            return MultipleShootingScheme(self)
        raise Exception(
            f"Discretization scheme not recognized: '{scheme}'. Available options: 'multiple-shooting'"
            " and 'collocation'"
        )

'''))
r("S04-breakpoints",
  (S, '''        return [
            self.problem.t_0 + self.delta_t * k for k in range(self.finite_elements + 1)
        ]
''', '''        t_0 = self.problem.t_0
        step = self.delta_t
        breakpoints = []
        for k in range(self.finite_elements + 1):
            breakpoints.append(t_0 + k * step)
        return breakpoints
'''))
r("S05-colloc",
  (S, '''        if with_zero:
            return [0.0] + collocation_points(degree, cp)  # All collocation time points
        else:
            return collocation_points(degree, cp)  # All collocation time points
''', '''        points = collocation_points(degree, cp)
        return [0.0] + points if with_zero else points
'''))
r("S06-lagrange",
  (S, ('''        l_list: List[SX] = []
''', '''    def create_variable_polynomial_approximation('''), '''        indices = range(starting_index, degree + 1)

        def basis(j):
            ell = SX(1)
            for other in indices:
                if other == j:
                    continue
                ell = ell * (tau - tau_root[other]) / (tau_root[j] - tau_root[other])
            return ell

        return tau, [basis(j) for j in indices]

'''))
r("S07-lagrange2",
  (S, '''            ell = SX(1)
            for j2 in range(starting_index, degree + 1):
                if j2 != j:
                    ell *= (tau - tau_root[j2]) / (tau_root[j] - tau_root[j2])
            l_list.append(ell)
''', '''            root_j = tau_root[j]
            ell = SX(1)
            for k in range(starting_index, degree + 1):
                if k == j:
                    continue
                root_k = tau_root[k]
                numerator = tau - root_k
                denominator = root_j - root_k
                ell *= numerator / denominator
            l_list.append(ell)
'''))
r("S08-polyapprox",
  (S, ('''        if degree == 1 and not point_at_t0:
            if size > 0:''', '''        return u_pol, par
'''), '''        def make_points(n_columns):
            if size > 0:
                return vertcat(*[SX.sym(name[s], 1, n_columns) for s in range(size)])
            return SX.sym("empty_sx", size, degree)

        if degree == 1 and not point_at_t0:
            points = make_points(degree)
            u_pol = points
        elif point_at_t0:
            points = make_points(degree + 1)
            tau, ell_list = self._create_lagrangian_polynomial_basis(
                degree, starting_index=0, tau=tau
            )
            u_pol = SX(sum(ell_list[j] * points[:, j] for j in range(degree + 1)))
        else:
            points = make_points(degree)
            tau, ell_list = self._create_lagrangian_polynomial_basis(
                degree, starting_index=1, tau=tau
            )
            u_pol = SX(sum(ell_list[j] * points[:, j] for j in range(degree)))
        par = vec(points)

'''))
r("S09-control-approx",
  (S, ('''        degree = self.degree_control
        if not self.parametrized_control:''', '''    def unvec('''), '''        if self.parametrized_control:
            return self.model.u_expr

        degree = self.degree_control
        if type(degree) == dict:
            raise Exception("Not implemented")
        u_pol, u_par = self.create_variable_polynomial_approximation(
            self.model.n_u, degree, name=self.model.u_names
        )
        self.model.u_par = u_par
        self.model.u_expr = u_pol
        return u_pol

'''))
r("S10-create-nlp",
  (S, ('''        # initial cond MX
        if self.initial''', '''        # Discretize the problem
        opt_problem'''), '''        parameter_vectors = [p_mx, vec(theta_mx)]
        p_mx_x_0 = None
        if self.initial_condition_as_parameter:
            p_mx_x_0 = MX.sym("mx_x_0_p", self.model.n_x)
            parameter_vectors.append(p_mx_x_0)

        p_last_u = None
        if self.last_control_as_parameter:
            p_last_u = MX.sym("mx_last_u", self.model.n_u)
            parameter_vectors.append(p_last_u)

        all_mx = vertcat(*parameter_vectors)

'''))
r("S11-create-nlp2",
  (S, '''        if has_parameters:
            opt_problem.include_parameter(all_mx)

        opt_problem.solver_options = self.nlpsol_opts

        self.opt_problem = opt_problem
''', '''        self.opt_problem = opt_problem
        opt_problem.solver_options = self.nlpsol_opts
        if has_parameters:
            opt_problem.include_parameter(all_mx)
'''),
  (S, '''        has_parameters = (
            self.model.n_p + self.model.n_theta > 0
            or self.initial_condition_as_parameter
            or self.last_control_as_parameter
        )
''', '''        n_model_parameters = self.model.n_p + self.model.n_theta
        has_parameters = (
            self.initial_condition_as_parameter
            or self.last_control_as_parameter
            or n_model_parameters > 0
        )
'''))
r("S12-args-split",
  (S, ('''        # initial conditions
        if x_0 is None:
            x_0 = self.problem.x_0
        if isinstance''', '''        # theta
        if theta is None:'''), '''        x_0 = self._resolve_x_0(x_0)
        p = self._resolve_p(p)

'''),
  (S, '''    def _get_solver_call_args(
        self,
        x_0: O''', '''    def _resolve_x_0(self, x_0):
        if x_0 is None:
            x_0 = self.problem.x_0
        if isinstance(x_0, list):
            x_0 = vertcat(x_0)
        size = vertcat(x_0).numel()
        if size != self.model.n_x:
            raise Exception(
                "Size of given x_0 (or obtained from problem.x_0) is different from model.n_x, "
                "x_0.numel() = {}, model.n_x = {}".format(size, self.model.n_x)
            )
        return x_0

    def _resolve_p(self, p):
        if p is not None:
            return DM(p) if isinstance(p, list) else p
        if self.problem.n_p_opt == self.model.n_p:
            return DM.zeros(self.problem.n_p_opt)
        if self.problem.model.n_p > 0:
            raise ValueError(
                "A parameter 'p' of size {} should be given".format(
                    self.problem.model.n_p
                )
            )
        return DM()

    def _get_solver_call_args(
        self,
        x_0: O'''))
r("S13-args-lastu",
  (S, ('''        if last_u is None and self.last_control_as_parameter:
            if self.problem.last_u is None:''', '''        par = vertcat(p, theta_vector'''), '''        if self.last_control_as_parameter:
            if last_u is None:
                last_u = self.problem.last_u
            if last_u is None:
                raise ValueError(
                    'last_control_as_parameter is True, but no "last_u" was passed'
                    'and the "ocp.last_u" is None.'
                )
            par_last_u = last_u

'''))
r("S14-args-par",
  (S, '''        # Prepare NLP parameter vector
        theta_vector, par_x_0, par_last_u = DM(), DM(), DM()
        if theta is not None:
            theta_vector = vertcat(*[theta[i] for i in range(self.finite_elements)])

        if self.initial_condition_as_parameter:
            par_x_0 = x_0
''', '''        # Prepare NLP parameter vector
        theta_vector = vertcat(*(theta[i] for i in range(self.finite_elements)))
        par_x_0 = x_0 if self.initial_condition_as_parameter else DM()
        par_last_u = DM()
'''))
r("S15-args-guess",
  (S, ('''        if initial_guess_dict is None:
            if initial_guess is None:
                if self.initial_guess_heuristic''', '''        return args, p, theta, x_0, last_u
'''), '''        args = {"p": par}
        if initial_guess_dict is not None:
            args["initial_guess"] = initial_guess_dict["x"]
            args["lam_x"] = initial_guess_dict["lam_x"]
            args["lam_g"] = initial_guess_dict["lam_g"]
        else:
            if initial_guess is None:
                initial_guess = self._default_guess(p, theta)
            args["initial_guess"] = initial_guess
'''),
  (S, '''    def _get_solver_call_args(
        self,
        x_0: O''', '''    def _default_guess(self, p, theta):
        heuristic = self.initial_guess_heuristic
        if heuristic == "problem_info":
            return self.discretizer.create_initial_guess(p, theta)
        if heuristic != "simulation":
            raise ValueError(
                "initial_guess_heuristic did not recognized, available options:"
                '"simulation" and "problem_info". Given: {}'.format(heuristic)
            )
        return self.discretizer.create_initial_guess_with_simulation(
            p=p,
            theta=theta,
            model=self.initial_guess_model,
            in_transform=self.initial_guess_in_transform,
            out_transform=self.initial_guess_out_transform,
        )

    def _get_solver_call_args(
        self,
        x_0: O'''))
r("S16-result",
  (S, ('''        # From the solution_method
        for attr in [''', '''        # Initial condition, theta, and parameters used'''), '''        optimization_result.finite_elements = self.finite_elements
        optimization_result.degree = self.degree
        optimization_result.degree_control = self.degree_control
        optimization_result.time_breakpoints = self.time_breakpoints
        optimization_result.discretization_scheme = self.discretization_scheme
        optimization_result.method_name = type(self).__name__

'''))
r("S17-result-names",
  (S, ('''        optimization_result.x_names = [''', '''        self.discretizer.set_data_to'''), '''        def names_of(vector, size):
            return [vector[i].name() for i in range(size)]

        optimization_result.x_names = names_of(self.model.x, self.model.n_x)
        optimization_result.y_names = names_of(self.model.y, self.model.n_y)
        optimization_result.u_names = names_of(self.model.u, self.model.n_u)
        optimization_result.theta_opt_names = names_of(
            self.problem.theta_opt, self.problem.n_theta_opt
        )

'''))
r("S18-result-cost",
  (S, ('''        if self.problem.x_cost is not None:
            x_c_index''', '''        return optimization_result
'''), '''        if self.problem.x_cost is None:
            return optimization_result

        last_state = optimization_result.x_data["values"][-1][-1]
        x_c_index = find_variables_indices_in_vector(self.problem.x_cost, self.model.x)
        optimization_result.x_c_final = last_state[x_c_index]
'''))
r("S19-prepare",
  (S, '''        if self.prepared:
            return

        self.problem.pre_solve_check()
''', '''        if not self.prepared:
            self.problem.pre_solve_check()
'''),
  (S, '''        if degree is None:
            degree = self.degree
        n_lines = vector.numel() // degree

        return reshape(vector, n_lines, degree)
''', '''        n_columns = self.degree if degree is None else degree
        return reshape(vector, vector.numel() // n_columns, n_columns)
'''))
