from selftest.refactors import r
M = "yaocptool/methods/classic/multipleshooting.py"

r("M01-delta-u-merge",
  (M, ('            # Implement the constraint on delta_u\n', '            # Time dependent inequalities'), '''            # Implement the constraint on delta_u
            if self.problem.has_delta_u:
                if el > 0:
                    previous_u = u_var[el - 1][0]
                else:
                    previous_u = last_u
                if previous_u is not None:
                    for i in range(self.model.n_u):
                        d_min = self.problem.delta_u_min[i]
                        d_max = self.problem.delta_u_max[i]
                        if is_equal(d_max, inf) and is_equal(d_min, -inf):
                            continue
                        nlp.include_inequality(u_var[el][0][i] - previous_u[i], lb=d_min, ub=d_max)

'''))
r("M02-delta-u-method",
  (M, ('            # Implement the constraint on delta_u\n', '            # Time dependent inequalities'), '''            if self.problem.has_delta_u:
                if el > 0:
                    self._include_delta_u(nlp, u_var[el][0], u_var[el - 1][0])
                elif last_u is not None:
                    self._include_delta_u(nlp, u_var[el][0], last_u)

'''),
  (M, '''    def get_system_at_given_times(
''', '''    def _include_delta_u(self, nlp, current, previous):
        for i in range(self.model.n_u):
            bounded_above = not is_equal(self.problem.delta_u_max[i], inf)
            bounded_below = not is_equal(self.problem.delta_u_min[i], -inf)
            if bounded_above or bounded_below:
                nlp.include_inequality(
                    current[i] - previous[i],
                    lb=self.problem.delta_u_min[i],
                    ub=self.problem.delta_u_max[i],
                )

    def get_system_at_given_times(
'''))
r("M03-create-vars",
  (M, ('''        for el in range(self.finite_elements):
            u_k = []
            if self.model.n_u_par > 0:
                for n in range(self.degree_control):
                    u_k.append(
                        nlp''', '''        eta = nlp.create_variable('''), '''        n_control = self.degree_control if self.model.n_u_par > 0 else 0
        for el in range(self.finite_elements):
            u.append(
                [
                    nlp.create_variable(
                        "mx_u_{}_{}".format(el, n),
                        self.model.n_u,
                        lb=self.problem.u_min,
                        ub=self.problem.u_max,
                    )
                    for n in range(n_control)
                ]
            )

'''),
  (M, '''            y_k = [
                nlp.create_variable(
                    "mx_y_" + str(el),
                    self.model.n_y,
                    lb=self.problem.y_min,
                    ub=self.problem.y_max,
                )
            ]
            y.append(y_k)
''', '''            y_el = nlp.create_variable(
                f"mx_y_{el}",
                self.model.n_y,
                lb=self.problem.y_min,
                ub=self.problem.y_max,
            )
            y.append([y_el])
'''))
r("M04-unpack-take",
  (M, ('''        x, y, u, eta, p_opt = [], [], [], [], []
        offset = 0
''', '''    def discretize('''), '''        position = 0

        def take(size):
            nonlocal position
            piece = decision_variables[position : position + size]
            position += size
            return piece

        x = [[take(self.model.n_x)] for _ in range(self.finite_elements + 1)]
        y = [[take(self.model.n_y)] for _ in range(self.finite_elements)]
        if self.model.n_u_par > 0:
            u = [
                [take(self.model.n_u) for _ in range(self.degree_control)]
                for _ in range(self.finite_elements)
            ]
        else:
            u = [[] for _ in range(self.finite_elements)]
        eta = take(self.problem.n_eta)
        p_opt = take(self.problem.n_p_opt)
        theta_opt = [take(self.problem.n_theta_opt) for _ in range(self.finite_elements)]

        assert position == decision_variables.numel()

        return x, y, u, eta, p_opt, theta_opt

'''))
r("M05-unpack-generator",
  (M, ('''        for _ in range(self.finite_elements + 1):
            x.append([decision''', '''        for _ in range(self.finite_elements):
            u_k = []'''), '''        n_x, n_y = self.model.n_x, self.model.n_y
        for k in range(self.finite_elements + 1):
            x.append([decision_variables[k * n_x : (k + 1) * n_x]])
        offset = n_x * (self.finite_elements + 1)

        for k in range(self.finite_elements):
            begin = offset + k * n_y
            y.append([decision_variables[begin : begin + n_y]])
        offset += self.finite_elements * n_y

'''))
r("M06-discretize-functions",
  (M, ('''        # Create functions to be evaluated
        functions = defaultdict(dict)
''', '''        # Multiple Shooting "simulation"'''), '''        functions = self._constraint_functions()

'''),
  (M, '''    def get_system_at_given_times(
''', '''    def _constraint_functions(self):
        functions = {}
        for kind, expression in (("g_ineq", self.problem.g_ineq), ("g_eq", self.problem.g_eq)):
            for i in range(expression.shape[0]):
                functions["{}_{}".format(kind, i)] = self._create_function_from_expression(
                    "f_{}_{}".format(kind, i), expression[i]
                )
        functions["f_s_cost"] = self._create_function_from_expression(
            "f_s_cost", self.problem.S
        )
        return functions

    def get_system_at_given_times(
'''))
r("M07-cost-sum",
  (M, ('''                x_at_el_p_1 = [x_at_el_p_1[n] for n in range(self.model.n_x)]''', '''            # Continuity constraint for defining x'''), '''                cost += x_at_el_p_1[-1]
                entries = [x_at_el_p_1[n] for n in range(self.model.n_x)]
                entries[-1] = 0
                x_at_el_p_1 = vertcat(*entries)

'''))
r("M08-cost-branch",
  (M, ('''        if self.solution_method.solution_class == "direct":
            if not self.solution_method.cost_as_a_sum:
                f_final_cost''', '''    def get_system_at_given_times('''), '''        is_direct = self.solution_method.solution_class == "direct"
        if is_direct and not self.solution_method.cost_as_a_sum:
            final_cost = Function(
                "FinalCost", [self.model.x, self.model.p], [self.problem.V]
            )
            cost = final_cost(x_var[-1][0], p)
        nlp.set_objective(cost + s_cost if is_direct else cost)

        return nlp

'''))
r("M09-results-local",
  (M, '''        for el in range(self.finite_elements):
            x_at_el_p_1 = results[el]["x"][0]
            y_end_el = results[el]["y"][0]
''', '''        for el in range(self.finite_elements):
            el_results = results[el]
            x_at_el_p_1 = el_results["x"][0]
            y_end_el = el_results["y"][0]
'''),
  (M, '''                nlp.include_inequality(results[el]["g_ineq_" + str(i)][0], ub=0)
''', '''                value = el_results["g_ineq_" + str(i)][0]
                nlp.include_inequality(value, ub=0)
'''))
r("M10-system-local",
  (M, '''            t_0 = t_init = time_dict[el]["t_0"]
            t_f = time_dict[el]["t_f"]
''', '''            el_times = time_dict[el]
            t_0 = el_times["t_0"]
            t_init = t_0
            t_f = el_times["t_f"]
'''),
  (M, '''            element_breakpoints = set()
            for key in ["x", "y", "u"] + list(functions.keys()):
                if key in time_dict[el]:
                    element_breakpoints = element_breakpoints.union(time_dict[el][key])

            element_breakpoints = list(element_breakpoints)
            element_breakpoints.sort()
''', '''            element_breakpoints = set()
            for key in ["x", "y", "u"] + list(functions.keys()):
                if key in el_times:
                    element_breakpoints.update(el_times[key])
            element_breakpoints = sorted(element_breakpoints)
'''))
r("M11-system-uvec",
  (M, '''            for t_ind, t in enumerate(element_breakpoints):
                if self.solution_method.solution_class == "direct":
                    p_i = vertcat(p, theta[el], self.vectorize(u_var[el]))
                else:
                    p_i = vertcat(p, theta[el])
''', '''            if self.solution_method.solution_class == "direct":
                p_i = vertcat(p, theta[el], self.vectorize(u_var[el]))
            else:
                p_i = vertcat(p, theta[el])

            for t_ind, t in enumerate(element_breakpoints):
'''))
r("M12-timedict",
  (M, ('''            time_dict[el] = {}
            time_dict[el]["t_0"]''', '''        return time_dict'''), '''            start, end = self.time_breakpoints[el], self.time_breakpoints[el + 1]
            entry = {
                "t_0": start,
                "t_f": end,
                "x": [end],
                "y": [end],
                "f_s_cost": [end],
            }
            times = {"start": start, "end": end, "default": end}
            for i in range(self.problem.n_g_ineq):
                when = self.problem.time_g_ineq[i]
                if when in times:
                    entry["g_ineq_" + str(i)] = [times[when]]
            for i in range(self.problem.n_g_eq):
                when = self.problem.time_g_eq[i]
                if when in times:
                    entry["g_eq_" + str(i)] = [times[when]]
            time_dict[el] = entry

'''))
r("M13-timedict2",
  (M, ('''            for i in range(self.problem.n_g_ineq):
                if self.problem.time_g_ineq[i] == "start":''', '''        return time_dict'''), '''            for i in range(self.problem.n_g_ineq):
                when = self.problem.time_g_ineq[i]
                if when == "start":
                    time_dict[el]["g_ineq_" + str(i)] = [self.time_breakpoints[el]]
                elif when in ("end", "default"):
                    time_dict[el]["g_ineq_" + str(i)] = [self.time_breakpoints[el + 1]]

            for i in range(self.problem.n_g_eq):
                when = self.problem.time_g_eq[i]
                if when == "start":
                    time_dict[el]["g_eq_" + str(i)] = [self.time_breakpoints[el]]
                elif when == "end" or when == "default":
                    time_dict[el]["g_eq_" + str(i)] = [self.time_breakpoints[el + 1]]

'''))
r("M14-guess",
  (M, ('''        if self.problem.y_guess is not None:
            y_init = repmat(self.problem.y_guess, self''', '''        if p is not None:
            for k, ind in enumerate(self.problem.get_p_opt_indices()):
                p_opt_init[k] = p[ind]

        if theta is not None:
            for el in range(self.finite_elements):
                for k, ind in enumerate(self.problem.get_theta_opt_indices()):
                    theta_opt_init[k + el * self.problem.n_theta_opt] = theta[el][ind]

        return vertcat(x_init, y_init, u_init, eta_init, p_opt_init, theta_opt_init)

    def create_initial_guess_with'''), '''        y_guess = self.problem.y_guess
        if y_guess is None:
            y_guess = DM.zeros(self.model.n_y)
        y_init = repmat(y_guess, self.finite_elements)

        if self.model.n_u_par > 0:
            u_guess = self.problem.u_guess
            if u_guess is None:
                u_guess = DM.zeros(self.model.n_u)
            u_init = repmat(u_guess, self.degree_control * self.finite_elements)
        else:
            u_init = []

        eta_init = DM.zeros(self.problem.n_eta, 1)
        p_opt_init = DM.zeros(self.problem.n_p_opt, 1)
        theta_opt_init = DM.zeros(self.problem.n_theta_opt * self.finite_elements, 1)

'''))
r("M15-guess-sim-helper",
  (M, '''        if u is None:
            if self.problem.u_guess is not None:
                u = self.problem.u_guess
            elif self.problem.last_u is not None:
                u = self.problem.last_u
            else:
                u = DM.zeros(model.n_u)
''', '''        if u is None:
            u = self.problem.u_guess
        if u is None:
            u = self.problem.last_u
        if u is None:
            u = DM.zeros(model.n_u)
'''),
  (M, '''            el_x = []
            el_y = []

            # get DAE system''', '''            # get DAE system'''),
  (M, ('''            # Prepare for loop
            t_init = self.time_breakpoints[el]
''', '''            u_init.append(u)
'''), '''            sim_args = dict(
                x_0=x_0,
                t_0=self.time_breakpoints[el],
                t_f=self.time_breakpoints[el + 1],
                p=vertcat(p, theta[el], u),
                y_0=y_guess,
            )
            if in_transform is not None:
                sim_args = in_transform(**sim_args)

            res = dae_sys.simulate(**sim_args)
            if out_transform is not None:
                res = out_transform(res)

            x_0 = res["xf"]
            x_init.append([res["xf"]])
            y_init.append([res["zf"]])
'''))
r("M16-defaults",
  (M, '''        if p is None:
            p = []
        if theta is None:
            theta = dict([(i, []) for i in range(self.finite_elements)])
        if x_0 is None:
            x_0 = self.problem.x_0
''', '''        p = [] if p is None else p
        theta = {i: [] for i in range(self.finite_elements)} if theta is None else theta
        x_0 = self.problem.x_0 if x_0 is None else x_0
'''))
r("M18-fu",
  (M, '''            if self.solution_method.solution_class == "direct":
                f_u = Function("f_u_pol", [self.model.t, self.model.u_par], [u_func])
            elif self.solution_method.solution_class == "indirect":
                f_u = Function("f_u_pol", list(self.model.all_sym), [u_func])
            else:
                raise NotImplementedError
''', '''            f_u = self._control_function(u_func)
'''),
  (M, '''    def get_system_at_given_times(
''', '''    def _control_function(self, u_func):
        solution_class = self.solution_method.solution_class
        if solution_class not in ("direct", "indirect"):
            raise NotImplementedError
        if solution_class == "direct":
            inputs = [self.model.t, self.model.u_par]
        else:
            inputs = list(self.model.all_sym)
        return Function("f_u_pol", inputs, [u_func])

    def get_system_at_given_times(
'''))
r("M19-plain-dict",
  (M, '''        functions = defaultdict(dict)
''', '''        functions = {}
'''))
r("M20-fstring-names",
  (M, '''            functions["g_ineq_" + str(i)] = self._create_function_from_expression(
                "f_g_ineq_" + str(i), self.problem.g_ineq[i]
            )
''', '''            functions["g_ineq_{}".format(i)] = self._create_function_from_expression(
                "f_{}_{}".format("g_ineq", i), self.problem.g_ineq[i]
            )
'''))
