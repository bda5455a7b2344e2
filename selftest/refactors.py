"""Behaviour-preserving rewrites of the kind a maintainer might commit."""
C = "yaocptool/methods/classic/collocationscheme.py"
R = []


def r(name, *eds):
    R.append((name, eds))


# --- collocation -----------------------------------------------------------------------------
r("C01-helper-interp",
  (C, '''    def time_interpolation(self):
        tau_list = self.solution_method.collocation_points(self.degree, with_zero=True)
        return [
            [t + self.solution_method.delta_t * tau for tau in tau_list]
            for t in self.time_breakpoints[:-1]
        ]
''', '''    def time_interpolation(self):
        return self._interpolation_grid(with_zero=True)

    def _interpolation_grid(self, with_zero):
        tau_list = self.solution_method.collocation_points(
            self.degree, with_zero=with_zero
        )
        delta_t = self.solution_method.delta_t
        grid = []
        for t in self.time_breakpoints[:-1]:
            grid.append([t + delta_t * tau for tau in tau_list])
        return grid
'''),
  (C, '''        tau_list = self.solution_method.collocation_points(self.degree, with_zero=False)
        return [
            [t + self.solution_method.delta_t * tau for tau in tau_list]
            for t in self.time_breakpoints[:-1]
        ]
''', '''        return self._interpolation_grid(with_zero=False)
'''))
r("C02-vars-comprehension",
  (C, '''        x: List[List[MX]] = []
        y: List[List[MX]] = []
        u: List[List[MX]] = []

        for k in range(self.finite_elements):
            x_k = [
                nlp.create_variable(
                    "x_" + repr(k) + "_" + repr(n),
                    self.model.n_x,
                    lb=self.problem.x_min,
                    ub=self.problem.x_max,
                )
                for n in range(self.degree + 1)
            ]
            x.append(x_k)
''', '''        y: List[List[MX]] = []
        u: List[List[MX]] = []

        x: List[List[MX]] = [
            [
                nlp.create_variable(
                    "x_{}_{}".format(k, n),
                    self.model.n_x,
                    lb=self.problem.x_min,
                    ub=self.problem.x_max,
                )
                for n in range(self.degree + 1)
            ]
            for k in range(self.finite_elements)
        ]
'''))
r("C03-vars-helper",
  (C, '''        for k in range(self.finite_elements):
            y_k = [
                nlp.create_variable(
                    "y_" + repr(k) + "_" + repr(n),
                    self.model.n_y,
                    lb=self.problem.y_min,
                    ub=self.problem.y_max,
                )
                for n in range(self.degree)
            ]
            y.append(y_k)

        for k in range(self.finite_elements):
            u_k = []
            if self.model.n_u_par > 0:
                for n in range(self.degree_control):
                    u_k.append(
                        nlp.create_variable(
                            "u_" + repr(k) + "_" + repr(n),
                            self.model.n_u,
                            lb=self.problem.u_min,
                            ub=self.problem.u_max,
                        )
                    )
            u.append(u_k)
''', '''        def block(prefix, k, count, size, lower, upper):
            out = []
            for n in range(count):
                out.append(
                    nlp.create_variable(
                        prefix + "_" + str(k) + "_" + str(n), size, lb=lower, ub=upper
                    )
                )
            return out

        problem = self.problem
        for k in range(self.finite_elements):
            y.append(block("y", k, self.degree, self.model.n_y, problem.y_min, problem.y_max))

        n_control = self.degree_control if self.model.n_u_par > 0 else 0
        for k in range(self.finite_elements):
            u.append(block("u", k, n_control, self.model.n_u, problem.u_min, problem.u_max))
'''))
r("C04-repack-chain",
  (C, '''        decision_variables_list: List[MX] = []

        for x_k in x[:-1]:
            decision_variables_list.extend(x_k)

        for y_k in y:
            decision_variables_list.extend(y_k)

        for u_k in u:
            decision_variables_list.extend(u_k)

        decision_variables_list.append(eta)
        decision_variables_list.append(p_opt)

        decision_variables_list.extend(theta_opt)

        return vertcat(*decision_variables_list)
''', '''        blocks = list(x[:-1]) + list(y) + list(u)
        flat: List[MX] = [item for block in blocks for item in block]
        return vertcat(*flat, eta, p_opt, *theta_opt)
'''))
r("C05-unpack-helper",
  (C, '''        x: List[List[MX]] = []
        y: List[List[MX]] = []
        u: List[List[MX]] = []
        v_offset = 0

        x_k = []
        for _ in range(self.finite_elements):
            x_k = []
            for _ in range(self.degree + 1):
                next_offset = v_offset + self.model.n_x
                x_k.append(decision_variables[v_offset:next_offset])
                v_offset = next_offset
            if all_subinterval:
                x.append(x_k)
            else:
                x.append(x_k[0])
''', '''        x: List[List[MX]] = []
        y: List[List[MX]] = []
        u: List[List[MX]] = []
        v_offset = 0

        x_k = []
        for _ in range(self.finite_elements):
            x_k = []
            for _ in range(self.degree + 1):
                x_k.append(decision_variables[v_offset : v_offset + self.model.n_x])
                v_offset += self.model.n_x
            x.append(x_k if all_subinterval else x_k[0])
'''))
r("C06-unpack-take",
  (C, '''        eta = decision_variables[v_offset : v_offset + self.problem.n_eta]
        v_offset += self.problem.n_eta

        p_opt = decision_variables[v_offset : v_offset + self.problem.n_p_opt]
        v_offset += self.problem.n_p_opt

        theta_opt: List[MX] = []
        for _ in range(self.finite_elements):
            theta_opt.append(
                decision_variables[v_offset : v_offset + self.problem.n_theta_opt]
            )
            v_offset += self.problem.n_theta_opt

        assert v_offset == decision_variables.numel()
''', '''        def take(offset, count):
            return decision_variables[offset : offset + count], offset + count

        eta, v_offset = take(v_offset, self.problem.n_eta)
        p_opt, v_offset = take(v_offset, self.problem.n_p_opt)

        theta_opt: List[MX] = []
        for _ in range(self.finite_elements):
            theta_el, v_offset = take(v_offset, self.problem.n_theta_opt)
            theta_opt.append(theta_el)

        assert decision_variables.numel() == v_offset
'''))
r("C07-unpack-closed-form",
  (C, '''        for _ in range(self.finite_elements):
            y_k = []
            for _ in range(self.degree):
                y_k.append(decision_variables[v_offset : v_offset + self.model.n_y])
                v_offset += self.model.n_y
            if all_subinterval:
                y.append(y_k)
            else:
                y.append(y_k[0])
''', '''        n_y = self.model.n_y
        for el in range(self.finite_elements):
            start = v_offset + el * self.degree * n_y
            y_k = [
                decision_variables[start + j * n_y : start + (j + 1) * n_y]
                for j in range(self.degree)
            ]
            y.append(y_k if all_subinterval else y_k[0])
        v_offset += self.finite_elements * self.degree * n_y
'''))
r("C08-discretize-defaults",
  (C, '''        if p is None:
            p = []
        if theta is None:
            theta = dict([(i, []) for i in range(self.finite_elements)])
        if x_0 is None:
            x_0 = self.problem.x_0

        # Create nlp object
''', '''        x_0 = self.problem.x_0 if x_0 is None else x_0
        p = [] if p is None else p
        if theta is None:
            theta = {i: [] for i in range(self.finite_elements)}

        # Create nlp object
'''))
r("C09-discretize-split",
  (C, '''        # Put the symbolic optimization parameters in the parameter vector
        for i, p_opt_index in enumerate(self.problem.get_p_opt_indices()):
            p[p_opt_index] = p_opt[i]

        # Put the symbolic theta_opt in the theta vector
        for i, theta_opt_index in enumerate(self.problem.get_theta_opt_indices()):
            for el in range(self.finite_elements):
                theta[el][theta_opt_index] = theta_opt[el][i]

        # Create "simulations"''', '''        self._insert_optimization_parameters(p, theta, p_opt, theta_opt)

        # Create "simulations"'''),
  (C, '''    def get_system_at_given_times(
''', '''    def _insert_optimization_parameters(self, p, theta, p_opt, theta_opt):
        """Put the symbolic optimization parameters in the parameter vectors"""
        for i, p_opt_index in enumerate(self.problem.get_p_opt_indices()):
            p[p_opt_index] = p_opt[i]

        for i, theta_opt_index in enumerate(self.problem.get_theta_opt_indices()):
            for el in range(self.finite_elements):
                theta[el][theta_opt_index] = theta_opt[el][i]

    def get_system_at_given_times(
'''))
r("C10-discretize-functions-helper",
  (C, '''        for i in range(self.problem.n_g_ineq):
            functions["g_ineq_" + str(i)] = self._create_function_from_expression(
                "f_g_ineq_" + str(i), self.problem.g_ineq[i]
            )

        for i in range(self.problem.n_g_eq):
            functions["g_eq_" + str(i)] = self._create_function_from_expression(
                "f_g_eq_" + str(i), self.problem.g_eq[i]
            )

        functions["f_s_cost"]''', '''        for kind, expressions, count in (
            ("g_ineq_", self.problem.g_ineq, self.problem.n_g_ineq),
            ("g_eq_", self.problem.g_eq, self.problem.n_g_eq),
        ):
            for i in range(count):
                key = kind + str(i)
                functions[key] = self._create_function_from_expression(
                    "f_" + key, expressions[i]
                )

        functions["f_s_cost"]'''))
r("C11-discretize-hoist",
  (C, '''        s_cost = 0
        for el in range(self.finite_elements):
            dt = self.solution_method.delta_t

            # State continuity, valid for all but the first finite element
            if not el == 0:
                nlp.include_equality(results[el - 1]["x"][-1] - results[el]["x"][0])

            tau_list = self.solution_method.collocation_points(
                self.degree, with_zero=True
            )
''', '''        s_cost = 0
        dt = self.solution_method.delta_t
        tau_list = self.solution_method.collocation_points(self.degree, with_zero=True)
        for el in range(self.finite_elements):
            # State continuity, valid for all but the first finite element
            if el > 0:
                nlp.include_equality(results[el - 1]["x"][-1] - results[el]["x"][0])
'''))
r("C12-discretize-delta-u",
  (C, '''            if self.problem.has_delta_u:
                if el > 0:
                    for i in range(self.model.n_u):
                        if not is_equal(
                            self.problem.delta_u_max[i], inf
                        ) or not is_equal(self.problem.delta_u_min[i], -inf):
                            nlp.include_inequality(
                                u_var[el][0][i] - u_var[el - 1][0][i],
                                lb=self.problem.delta_u_min[i],
                                ub=self.problem.delta_u_max[i],
                            )

                elif el == 0 and last_u is not None:
                    for i in range(self.model.n_u):
                        if not is_equal(
                            self.problem.delta_u_max[i], inf
                        ) or not is_equal(self.problem.delta_u_min[i], -inf):
                            nlp.include_inequality(
                                u_var[el][0][i] - last_u[i],
                                lb=self.problem.delta_u_min[i],
                                ub=self.problem.delta_u_max[i],
                            )
''', '''            if self.problem.has_delta_u:
                previous_u = u_var[el - 1][0] if el > 0 else last_u
                if previous_u is not None:
                    self._include_rate_limits(nlp, u_var[el][0], previous_u)
'''),
  (C, '''    def get_system_at_given_times(
''', '''    def _include_rate_limits(self, nlp, u, u_prev):
        for i in range(self.model.n_u):
            lower = self.problem.delta_u_min[i]
            upper = self.problem.delta_u_max[i]
            if is_equal(upper, inf) and is_equal(lower, -inf):
                continue
            nlp.include_inequality(u[i] - u_prev[i], lb=lower, ub=upper)

    def get_system_at_given_times(
'''))
r("C13-discretize-ineq-iterate",
  (C, '''            for i in range(self.problem.n_g_ineq):
                for collocation_point in range(len(results[el]["g_ineq_" + str(i)])):
                    nlp.include_inequality(
                        results[el]["g_ineq_" + str(i)][collocation_point], ub=0
                    )

            for i in range(self.problem.n_g_eq):
                for collocation_point in range(len(results[el]["g_eq_" + str(i)])):
                    nlp.include_equality(
                        results[el]["g_eq_" + str(i)][collocation_point]
                    )
''', '''            for i in range(self.problem.n_g_ineq):
                for value in results[el]["g_ineq_" + str(i)]:
                    nlp.include_inequality(value, ub=0)

            for i in range(self.problem.n_g_eq):
                for value in results[el]["g_eq_{}".format(i)]:
                    nlp.include_equality(value)
'''))
r("C14-discretize-cost",
  (C, '''            cost = f_final_cost(x_f, p)
            cost += s_cost
        else:
            cost = 0

        nlp.set_objective(cost)
''', '''            nlp.set_objective(f_final_cost(x_f, p) + s_cost)
        else:
            nlp.set_objective(0)
'''))
r("C15-discretize-sum-cost",
  (C, '''            # S cost
            s_cost += results[el]["f_s_cost"][-1]

''', ''),
  (C, '''        # Final time constraint
        x_f = results''', '''        for el in range(self.finite_elements):
            s_cost = s_cost + results[el]["f_s_cost"][-1]

        # Final time constraint
        x_f = results'''))
r("C16-system-breakpoints",
  (C, '''            element_breakpoints = set()
            for key in chain(["x", "y", "u"], functions.keys()):
                if key in time_dict[el]:
                    element_breakpoints = element_breakpoints.union(time_dict[el][key])

            element_breakpoints = list(element_breakpoints)
            element_breakpoints.sort()
''', '''            element_breakpoints = set()
            for key in chain(["x", "y", "u"], functions):
                if key in time_dict[el]:
                    element_breakpoints.update(time_dict[el][key])

            element_breakpoints = sorted(element_breakpoints)
'''))
r("C17-system-eltimes",
  (C, '''        for el in time_dict:
            t_0 = time_dict[el]["t_0"]
            t_f = time_dict[el]["t_f"]
''', '''        for el, el_times in time_dict.items():
            t_0 = el_times["t_0"]
            t_f = el_times["t_f"]
'''),
  (C, '''                if key in time_dict[el]:
                    element_breakpoints = element_breakpoints.union(time_dict[el][key])
''', '''                if key in el_times:
                    element_breakpoints = element_breakpoints.union(el_times[key])
'''),
  (C, '''                if "x" in time_dict[el] and t in time_dict[el]["x"]:
                    results[el]["x"].append(x_t)
                if "y" in time_dict[el] and t in time_dict[el]["y"]:
                    results[el]["y"].append(y_t)
                if "u" in time_dict[el] and t in time_dict[el]["u"]:
                    results[el]["u"].append(u_t)
''', '''                for var_name, var_value in (("x", x_t), ("y", y_t), ("u", u_t)):
                    if var_name in el_times and t in el_times[var_name]:
                        results[el][var_name].append(var_value)
'''),
  (C, '''                    if t in time_dict[el][f_name]:
''', '''                    if t in el_times[f_name]:
'''))
r("C18-system-uvec",
  (C, '''                        if self.solution_method.solution_class == "direct":
                            val = f(
                                *self.model.put_values_in_all_sym_format(
                                    t=t,
                                    x=x_t,
                                    y=y_t,
                                    p=p,
                                    theta=theta[el],
                                    u_par=self.vectorize(u[el]),
                                )
                            )
                        else:
                            val = f(
                                *self.model.put_values_in_all_sym_format(
                                    t=t, x=x_t, y=y_t, p=p, theta=theta[el]
                                )
                            )

                        results[el][f_name].append(val)
''', '''                        kwargs = dict(t=t, x=x_t, y=y_t, p=p, theta=theta[el])
                        if self.solution_method.solution_class == "direct":
                            kwargs["u_par"] = self.vectorize(u[el])
                        args = self.model.put_values_in_all_sym_format(**kwargs)
                        results[el][f_name].append(f(*args))
'''))
r("C19-system-direct-flag",
  (C, '''        results = defaultdict(lambda: defaultdict(list))

        # for el in range(finite_element):
''', '''        results = defaultdict(lambda: defaultdict(list))
        is_direct = self.solution_method.solution_class == "direct"

'''),
  (C, '''            if self.solution_method.solution_class == "direct":
                f_u = Function(
                    "f_u_pol",
                    [self.model.t, self.model.u_par],
                    [u_func],
                    ["t", "u_par"],
                    ["u_func"],
                )
            else:
                f_u = Function(
                    "f_u_pol",
                    self.model.all_sym,
                    [u_func],
                    self.model.all_sym_names(),
                    ["f_u_pol"],
                )
''', '''            if not is_direct:
                f_u = Function(
                    "f_u_pol",
                    self.model.all_sym,
                    [u_func],
                    self.model.all_sym_names(),
                    ["f_u_pol"],
                )
            else:
                f_u = Function(
                    "f_u_pol",
                    [self.model.t, self.model.u_par],
                    [u_func],
                    ["t", "u_par"],
                    ["u_func"],
                )
'''),
  (C, '''                if self.solution_method.solution_class == "direct":
                    u_t = f_u(t, self.vectorize(u[el]))
''', '''                if is_direct:
                    u_t = f_u(t, self.vectorize(u[el]))
'''))
r("C20-timedict-helper",
  (C, '''            for i in range(self.problem.n_g_ineq):
                if self.problem.time_g_ineq[i] == "start":
                    time_dict[el]["g_ineq_" + str(i)] = [self.time_breakpoints[el]]
                if self.problem.time_g_ineq[i] == "end":
                    time_dict[el]["g_ineq_" + str(i)] = [self.time_breakpoints[el + 1]]
                if self.problem.time_g_ineq[i] == "default":
                    time_dict[el][
                        "g_ineq_" + str(i)
                    ] = self.time_interpolation_algebraics[el]

            for i in range(self.problem.n_g_eq):
                if self.problem.time_g_eq[i] == "start":
                    time_dict[el]["g_eq_" + str(i)] = [self.time_breakpoints[el]]
                if self.problem.time_g_eq[i] == "end":
                    time_dict[el]["g_eq_" + str(i)] = [self.time_breakpoints[el + 1]]
                if self.problem.time_g_eq[i] == "default":
                    time_dict[el][
                        "g_eq_" + str(i)
                    ] = self.time_interpolation_algebraics[el]
''', '''            for i in range(self.problem.n_g_ineq):
                self._set_constraint_times(
                    time_dict[el], "g_ineq_" + str(i), self.problem.time_g_ineq[i], el
                )

            for i in range(self.problem.n_g_eq):
                self._set_constraint_times(
                    time_dict[el], "g_eq_" + str(i), self.problem.time_g_eq[i], el
                )
'''),
  (C, '''    def create_initial_guess(self, p=None, theta=None):
''', '''    def _set_constraint_times(self, element_dict, key, when, el):
        if when == "start":
            element_dict[key] = [self.time_breakpoints[el]]
        elif when == "end":
            element_dict[key] = [self.time_breakpoints[el + 1]]
        elif when == "default":
            element_dict[key] = self.time_interpolation_algebraics[el]

    def create_initial_guess(self, p=None, theta=None):
'''))
r("C21-timedict-local",
  (C, '''            time_dict[el]["t_0"] = self.time_breakpoints[el]
            time_dict[el]["t_f"] = self.time_breakpoints[el + 1]
            time_dict[el]["x"] = self.time_interpolation_states[el]
            time_dict[el]["y"] = self.time_interpolation_algebraics[el]
            # time_dict[el]['u'] = self.time_interpolation_controls[el]

            time_dict[el]["ode"] = self.time_interpolation_states[el]
            time_dict[el]["alg"] = self.time_interpolation_algebraics[el]

            time_dict[el]["f_s_cost"] = [self.time_breakpoints[el + 1]]
''', '''            t_start, t_end = self.time_breakpoints[el], self.time_breakpoints[el + 1]
            state_times = self.time_interpolation_states[el]
            alg_times = self.time_interpolation_algebraics[el]
            time_dict[el].update(
                {
                    "t_0": t_start,
                    "t_f": t_end,
                    "x": state_times,
                    "y": alg_times,
                    "ode": state_times,
                    "alg": alg_times,
                    "f_s_cost": [t_end],
                }
            )
'''))
r("C22-guess-helper",
  (C, '''        x_init = repmat(self.problem.x_0, (self.degree + 1) * self.finite_elements)
        if self.problem.y_guess is not None:
            y_init = repmat(self.problem.y_guess, self.degree * self.finite_elements)
        else:
            y_init = repmat(
                DM.zeros(self.model.n_y), self.degree * self.finite_elements
            )
''', '''        x_init = repmat(self.problem.x_0, (self.degree + 1) * self.finite_elements)
        y_guess = self.problem.y_guess
        if y_guess is None:
            y_guess = DM.zeros(self.model.n_y)
        y_init = repmat(y_guess, self.degree * self.finite_elements)
'''))
r("C23-guess-while",
  (C, '''        return vertcat(x_init, y_init, u_init, eta_init, p_opt_init, theta_opt_init)

    def create_initial_guess_with_simulation(
''', '''        pieces = [x_init, y_init, u_init]
        pieces += [eta_init, p_opt_init, theta_opt_init]
        return vertcat(*pieces)

    def create_initial_guess_with_simulation(
'''))
r("C24-sim-guess",
  (C, '''            t_init = self.time_interpolation_states[el][0]
            p_el = vertcat(p, theta[el], u)
            for t in self.time_interpolation_states[el][1:]:
                args''', '''            times = self.time_interpolation_states[el]
            p_el = vertcat(p, theta[el], u)
            for t_init, t in zip(times[:-1], times[1:]):
                args'''),
  (C, '''                t_init = t
                x_0 = res["xf"]
''', '''                x_0 = res["xf"]
'''))
r("C25-setdata-order",
  (C, '''        optimization_result.raw_solution_dict = raw_solution_dict
        optimization_result.raw_decision_variables = raw_solution_dict["x"]
        optimization_result.stats = raw_solution_dict["stats"]
        optimization_result.success = raw_solution_dict["stats"]["success"]
''', '''        stats = raw_solution_dict["stats"]
        optimization_result.stats = stats
        optimization_result.success = stats["success"]
        optimization_result.raw_decision_variables = raw_solution_dict["x"]
        optimization_result.raw_solution_dict = raw_solution_dict
'''),
  (C, '''            time_dict = dict(
                [
                    (
                        el,
                        {
                            "u": self.time_interpolation_controls[el],
                            "t_0": self.time_breakpoints[el],
                            "t_f": self.time_breakpoints[el + 1],
                        },
                    )
                    for el in range(self.finite_elements)
                ]
            )
''', '''            time_dict = {}
            for el in range(self.finite_elements):
                time_dict[el] = {
                    "t_0": self.time_breakpoints[el],
                    "t_f": self.time_breakpoints[el + 1],
                    "u": self.time_interpolation_controls[el],
                }
'''))
r("C26-setdata-loop",
  (C, '''        optimization_result.x_data["values"] = x_values
        optimization_result.y_data["values"] = y_values
        optimization_result.u_data["values"] = u_values

        optimization_result.x_data["time"] = self.time_interpolation_states
        optimization_result.y_data["time"] = self.time_interpolation_algebraics
        optimization_result.u_data["time"] = self.time_interpolation_controls''', '''        for data, values, times in (
            (optimization_result.x_data, x_values, self.time_interpolation_states),
            (optimization_result.y_data, y_values, self.time_interpolation_algebraics),
            (optimization_result.u_data, u_values, self.time_interpolation_controls),
        ):
            data["values"] = values
            data["time"] = times'''))
