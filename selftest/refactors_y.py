"""Hand-written behaviour-preserving edits, second fresh batch (optimisation problem, results, networks, MPC, plant, stochastic)."""
from selftest.refactors import r

AO = "yaocptool/optimization/abstract_optimization_problem.py"
OR = "yaocptool/methods/base/optimizationresult.py"
SR = "yaocptool/modelling/simulation_result.py"
NW = "yaocptool/modelling/network/network.py"
MP = "yaocptool/mpc/mpc.py"
PL = "yaocptool/mpc/plant.py"
SO = "yaocptool/modelling/stochastic_ocp.py"

r("Y01-aop-append-constraint",
  (AO, '''        self.g = vertcat(self.g, expr)
        self.g_lb = vertcat(self.g_lb, lb)
        self.g_ub = vertcat(self.g_ub, ub)

        self._solver = None
''', '''        self._append_constraint(expr, lb, ub)

    def _append_constraint(self, expr, lower, upper):
        self.g = vertcat(self.g, expr)
        self.g_lb = vertcat(self.g_lb, lower)
        self.g_ub = vertcat(self.g_ub, upper)
        self._solver = None
'''),
  (AO, '''        self.g = vertcat(self.g, expr)
        self.g_lb = vertcat(self.g_lb, rhs)
        self.g_ub = vertcat(self.g_ub, rhs)

        self._solver = None
''', '''        self._append_constraint(expr, rhs, upper=rhs)
'''))
r("Y02-aop-bound-check-any",
  (AO, '''        for i in range(expr.numel()):
            if lb.is_constant() and ub.is_constant() and lb[i] > ub[i]:
                raise ValueError(''', '''        constant_bounds = lb.is_constant() and ub.is_constant()
        for i in range(expr.numel()):
            if constant_bounds and lb[i] > ub[i]:
                raise ValueError('''))
r("Y03-aop-bound-check-guard",
  (AO, '''        for i in range(expr.numel()):
            if lb.is_constant() and ub.is_constant() and lb[i] > ub[i]:
                raise ValueError(
                    "Lower bound is greater than upper bound for index {}. "
                    "The inequality {} <= {} <= {} is infeasible".format(
                        i, lb[i], expr[i], ub[i]
                    )
                )
''', '''        if lb.is_constant() and ub.is_constant():
            for i in range(expr.numel()):
                if lb[i] > ub[i]:
                    raise ValueError(
                        "Lower bound is greater than upper bound for index {}. "
                        "The inequality {} <= {} <= {} is infeasible".format(
                            i, lb[i], expr[i], ub[i]
                        )
                    )
'''))
r("Y04-aop-expand-bound-helper",
  (AO, '''        if lb is None:
            lb = -DM.inf(expr.size1())
        else:
            lb = vertcat(lb)
            if lb.numel() == 1 and expr.numel() > 1:
                lb = repmat(lb, expr.numel())
''', '''        lb = self._expand_bound(lb, expr, -DM.inf(expr.size1()))
'''),
  (AO, '''        if ub is None:
            ub = DM.inf(expr.size1())
        else:
            ub = vertcat(ub)
            if ub.numel() == 1 and expr.numel() > 1:
                ub = repmat(ub, expr.numel())
''', '''        ub = self._expand_bound(ub, expr, DM.inf(expr.size1()))
'''),
  (AO, '''    def include_equality(self''', '''    @staticmethod
    def _expand_bound(bound, expr, default):
        if bound is None:
            return default
        bound = vertcat(bound)
        if bound.numel() == 1 and expr.numel() > 1:
            return repmat(bound, expr.numel())
        return bound

    def include_equality(self'''))
r("Y05-aop-constraint-sides",
  (AO, ('''        # Check for inconsistencies
''', '''    def get_problem_dict'''), '''        equality = is_equality(expr)
        if not (equality or is_inequality(expr)):
            raise ValueError(
                "The passed 'expr' was not recognized as an equality or inequality constraint"
            )
        lhs, rhs = expr.dep(0), expr.dep(1)
        if lhs.is_constant() and rhs.is_constant():
            raise ValueError("Both sides of the constraint are constant")

        symbols = vertcat(self.x, self.p)
        lhs_depends = depends_on(lhs, symbols)
        if lhs_depends and depends_on(rhs, symbols):
            raise ValueError(
                "One of the sides of the constraint cannot depend on the problem. (e.g.: x<=1)"
                "lhs: {}, rhs: {}".format(lhs, rhs)
            )

        dep_term, indep_term = (lhs, rhs) if lhs_depends else (rhs, lhs)
        if not indep_term.is_constant():
            raise NotImplementedError("NLP")

        indep_term_dm = indep_term.to_DM()
        if equality:
            self.include_equality(dep_term, indep_term_dm)
            return
        side = "ub" if is_equal(indep_term_dm, rhs) else "lb"
        self.include_inequality(dep_term, **{side: indep_term_dm})

'''))
r("Y06-aop-call-args",
  (AO, ('''        if call_dict is None:
            call_dict = self.get_default_call_dict()
        if p is None:''', '''        if call_dict["p"].numel()'''), '''        p = DM() if p is None else p
        call_dict = dict(self.get_default_call_dict() if call_dict is None else call_dict)

        for key, value in (("x0", initial_guess), ("lam_x0", lam_x), ("lam_g0", lam_g)):
            if value is not None:
                call_dict[key] = value

        call_dict["p"] = vertcat(p)

'''))
r("Y07-aop-solve",
  (AO, '''        solution: OptiResultDictType = solver(**call_dict)

        stats_dict = {"stats": solver.stats()}

        return {**solution, **stats_dict}
''', '''        result = dict(solver(**call_dict))
        result["stats"] = solver.stats()
        return result
'''))
r("Y08-aop-objective",
  (AO, '''        if isinstance(expr, list):
            expr = vertcat(*expr)
        if isinstance(expr, (int, float)):
            expr = MX(expr)
''', '''        if isinstance(expr, list):
            expr = vertcat(*expr)
        elif isinstance(expr, (int, float)):
            expr = MX(expr)
'''))
r("Y09-aop-variable-loop",
  (AO, '''        for i, (lb_i, var_i, ub_i) in enumerate(zip(lb.nz, variable.nz, ub.nz)):
            if lb_i > ub_i:
                raise ValueError(
                    "Lower bound is greater than upper bound for index {}. "
                    "The inequality {} <= {} <= {} is infeasible".format(
                        i, lb_i, var_i, ub_i
                    )
                )
''', '''        self._check_bounds_order(lb, variable, ub)
'''),
  (AO, '''    def create_parameter(self''', '''    def _check_bounds_order(self, lower, variable, upper):
        index = 0
        for lower_i, var_i, upper_i in zip(lower.nz, variable.nz, upper.nz):
            if lower_i > upper_i:
                raise ValueError(
                    f"Lower bound is greater than upper bound for index {index}. "
                    f"The inequality {lower_i} <= {var_i} <= {upper_i} is infeasible"
                )
            index += 1

    def create_parameter(self'''))
r("Y10-aop-variable-sizes",
  (AO, '''        if variable.numel() != lb.numel() or variable.numel() != ub.numel():
            raise''', '''        n = variable.numel()
        if not (lb.numel() == n and ub.numel() == n):
            raise'''))
r("Y11-aop-get-solver",
  (AO, '''        if self._solver is None:
            self._solver = self._create_solver()

        return self._solver
''', '''        if self._solver is not None:
            return self._solver
        solver = self._create_solver()
        self._solver = solver
        return solver
'''))
r("Y12-or-get-variable",
  (OR, '''        if var_type == "x":
            data = self.x_data["values"]
        elif var_type == "y":
            data = self.y_data["values"]
        elif var_type == "u":
            data = self.u_data["values"]
        else:
            raise NotImplementedError
        return [[vect[indices] for vect in list_vec] for list_vec in data]
''', '''        if var_type not in ("x", "y", "u"):
            raise NotImplementedError
        data = {"x": self.x_data, "y": self.y_data, "u": self.u_data}[var_type]["values"]
        variable = []
        for list_vec in data:
            variable.append([vect[indices] for vect in list_vec])
        return variable
'''))
r("Y13-or-get-by-name",
  (OR, '''        variable = None
        with suppress(ValueError):
            variable = self.get_variable("x", self.x_names.index(name))
        with suppress(ValueError):
            variable = self.get_variable("y", self.y_names.index(name))
        with suppress(ValueError):
            variable = self.get_variable("u", self.u_names.index(name))
        if variable is not None:
            return variable
''', '''        variable = None
        for var_type, names in (
            ("x", self.x_names),
            ("y", self.y_names),
            ("u", self.u_names),
        ):
            with suppress(ValueError):
                variable = self.get_variable(var_type, names.index(name))
        if variable is not None:
            return variable
'''))
r("Y14-or-to-dataset-loops",
  (OR, '''        for el in range(self.finite_elements):
            if len(self.y_names) > 0:
                time_y = horzcat(*self.y_data["time"][el])
                values_y = horzcat(*self.y_data["values"][el])
                dataset.insert_data("y", time_y, values_y)
            if len(self.u_names) > 0:
                time_u = horzcat(*self.u_data["time"][el])
                values_u = horzcat(*self.u_data["values"][el])
                dataset.insert_data("u", time_u, values_u)
''', '''        has_y = len(self.y_names) > 0
        has_u = len(self.u_names) > 0
        for el in range(self.finite_elements):
            if has_y:
                dataset.insert_data(
                    "y",
                    horzcat(*self.y_data["time"][el]),
                    horzcat(*self.y_data["values"][el]),
                )
            if has_u:
                dataset.insert_data(
                    "u",
                    horzcat(*self.u_data["time"][el]),
                    horzcat(*self.u_data["values"][el]),
                )
'''))
r("Y15-or-to-dataset-helper",
  (OR, '''            for el in range(self.finite_elements + 1):
                time = horzcat(*x_times[el])
                values = horzcat(*self.x_data["values"][el])
                dataset.insert_data("x", time, values)
''', '''            for el in range(self.finite_elements + 1):
                self._insert_element(dataset, "x", x_times[el], self.x_data["values"][el])
'''),
  (OR, '''    @property
    def plot(self):''', '''    @staticmethod
    def _insert_element(dataset, entry, time, values):
        dataset.insert_data(entry, horzcat(*time), horzcat(*values))

    @property
    def plot(self):'''))
r("Y16-or-other-data",
  (OR, '''        for entry in self.other_data:
            for el in range(self.finite_elements):
                dataset.insert_data(
                    entry,
                    time=horzcat(*self.other_data[entry]["time"][el]),
                    value=horzcat(*self.other_data[entry]["values"][el]),
                )
''', '''        for entry, series in self.other_data.items():
            times, values = series["time"], series["values"]
            for el in range(self.finite_elements):
                dataset.insert_data(
                    entry, time=horzcat(*times[el]), value=horzcat(*values[el])
                )
'''))
r("Y17-or-other-entries",
  (OR, '''            dataset.create_entry(
                entry, size=size, names=[entry + "_" + str(i) for i in range(size)]
            )
''', '''            names = [f"{entry}_{i}" for i in range(size)]
            dataset.create_entry(entry, size=size, names=names)
'''))
r("Y18-or-create-entries-loop",
  (OR, '''        dataset.create_entry("x", size=len(self.x_names), names=self.x_names)
        dataset.create_entry("y", size=len(self.y_names), names=self.y_names)
        dataset.create_entry("u", size=len(self.u_names), names=self.u_names)
''', '''        for entry, names in [("x", self.x_names), ("y", self.y_names), ("u", self.u_names)]:
            dataset.create_entry(entry, size=len(names), names=names)
'''))
r("Y19-or-dataset-name",
  (OR, '''        dataset = DataSet(
            name=self.problem_name + "_dataset",
        )
''', '''        dataset = DataSet(name=f"{self.problem_name}_dataset")
'''))
r("Y20-sr-columns-helper",
  (SR, '''    @property
    def x(self) -> List[DM]:
        return [
            self.data["x"].values[:, i] for i in range(self.data["x"].values.shape[1])
        ]
''', '''    def _columns(self, entry: str) -> List[DM]:
        values = self.data[entry].values
        return [values[:, i] for i in range(values.shape[1])]

    @property
    def x(self) -> List[DM]:
        return self._columns("x")
'''),
  (SR, '''    @property
    def u(self) -> List[DM]:
        return [
            self.data["u"].values[:, i] for i in range(self.data["u"].values.shape[1])
        ]
''', '''    @property
    def u(self) -> List[DM]:
        return self._columns("u")
'''))
r("Y21-sr-final",
  (SR, '''        return {
            "x": self.data["x"].values[:, -1],
            "y": self.data["y"].values[:, -1],
            "u": self.data["u"].values[:, -1],
        }
''', '''        return {entry: self.data[entry].values[:, -1] for entry in ("x", "y", "u")}
'''))
r("Y22-sr-extend",
  (SR, '''        list_of_attributes_to_check = ["n_x", "n_y", "n_u"]
        for attr in list_of_attributes_to_check:
            if getattr(self, attr) != getattr(other_sim_result, attr):
                raise Exception(
                    "Attribute {} is no equal for both SimulationResults: {}!={}".format(
                        attr, getattr(self, attr), getattr(other_sim_result, attr)
                    )
                )
''', '''        for attr in ("n_x", "n_y", "n_u"):
            mine = getattr(self, attr)
            other = getattr(other_sim_result, attr)
            if mine == other:
                continue
            raise Exception(
                "Attribute {} is no equal for both SimulationResults: {}!={}".format(
                    attr, mine, other
                )
            )
'''))
r("Y23-sr-extend-super",
  (SR, '''        self.t_f = max(self.t_f, other_sim_result.t_f)
        self.t_0 = min(self.t_0, other_sim_result.t_0)
        self.finite_elements += other_sim_result.finite_elements
        DataSet.extend(self, other_sim_result)
''', '''        self.t_0 = min(self.t_0, other_sim_result.t_0)
        self.t_f = max(self.t_f, other_sim_result.t_f)
        self.finite_elements = self.finite_elements + other_sim_result.finite_elements
        super().extend(other_sim_result)
'''))
r("Y24-nw-sorted-nodes",
  (NW, '''        return [node.model for node in sorted(self.nodes, key=lambda x: x.node_id)]
''', '''        return [node.model for node in self._sorted_nodes()]

    def _sorted_nodes(self) -> List[Node]:
        return sorted(self.nodes, key=lambda node: node.node_id)
'''),
  (NW, '''        return [node.problem for node in sorted(self.nodes, key=lambda x: x.node_id)]
''', '''        return [node.problem for node in self._sorted_nodes()]
'''))
r("Y25-nw-connect-edge",
  (NW, '''        self.graph.edges[node1, node2]["y"] = vertcat(
            self.graph.edges[node1, node2]["y"], y
        )
        self.graph.edges[node1, node2]["u"] = vertcat(
            self.graph.edges[node1, node2]["u"], u
        )
''', '''        edge = self.graph.edges[node1, node2]
        edge["y"] = vertcat(edge["y"], y)
        edge["u"] = vertcat(edge["u"], u)
'''))
r("Y26-nw-connect-invert",
  (NW, '''        if not self.intermediary_nodes:
            self._connect(y, u, node1, node2)
        else:
            self.insert_intermediary_node(y, u, node1, node2)
''', '''        if self.intermediary_nodes:
            self.insert_intermediary_node(y, u, node1, node2)
            return
        self._connect(y, u, node1, node2)
'''))
r("Y27-nw-get-problem",
  (NW, '''        problem.t_0 = self.problems[0].t_0
        problem.t_f = self.problems[0].t_f
        problem.merge(self.problems)
        for edge in self.graph.edges:
            problem.connect(
                u=self.graph.edges[edge]["u"],
                y=self.graph.edges[edge]["y"],
                replace=False,
            )
''', '''        problems = self.problems
        first = problems[0]
        problem.t_0, problem.t_f = first.t_0, first.t_f
        problem.merge(problems)
        for edge in self.graph.edges:
            data = self.graph.edges[edge]
            problem.connect(u=data["u"], y=data["y"], replace=False)
'''))
r("Y28-nw-coloring-setdefault",
  (NW, '''        for node in coloring_dict:
            if coloring_dict[node] not in grouping_dict:
                grouping_dict[coloring_dict[node]] = []
            grouping_dict[coloring_dict[node]].append(node)
''', '''        for node, color in coloring_dict.items():
            grouping_dict.setdefault(color, []).append(node)
'''))
r("Y29-nw-getitem",
  (NW, '''        if isinstance(key, int):
            node = self.get_node_by_id(key)
            if node is None:
                raise IndexError(f"Network node index out of range: {key}")
            return node
        elif isinstance(key, str):
            node = self.get_node_by_name(key)
            if node is None:
                raise KeyError(f"{key}")
            return node
''', '''        if isinstance(key, int):
            node = self.get_node_by_id(key)
            if node is not None:
                return node
            raise IndexError(f"Network node index out of range: {key}")
        if isinstance(key, str):
            node = self.get_node_by_name(key)
            if node is not None:
                return node
            raise KeyError(f"{key}")
'''))
r("Y30-nw-by-id-next",
  (NW, '''        for node in self.graph:
            if node.node_id == id:
                return node
''', '''        return next((node for node in self.graph if node.node_id == id), None)
'''))
r("Y31-nw-include-nodes",
  (NW, '''        for node in nodes:
            if node.node_id is None:
                self._set_node_an_id(node)
''', '''        for node in nodes:
            if node.node_id is not None:
                continue
            node.node_id = self._nodes_id_counter
            self._nodes_id_counter += 1
'''))
r("Y32-nw-initial-condition",
  (NW, ('''        for node in self.nodes:
            initial_condition[node.name] = {''', '''        return initial_condition
'''), '''        def get_values(variables):
            return DM(
                [
                    get_variable_final_condition(final_condition, var)
                    for var in variables.nz
                ]
            )

        for node in self.nodes:
            initial_condition[node.name] = {
                "x": get_values(node.model.x),
                "y": get_values(node.model.y),
                "u": get_values(node.model.u),
            }
'''))
r("Y33-nw-intermediary-loop",
  (NW, '''        old_connections = {
            (node1, node2): (
                self.graph.edges[node1, node2]["y"],
                self.graph.edges[node1, node2]["u"],
            )
            for (node1, node2) in self.graph.edges
        }
        self.graph = networkx.DiGraph()
        for (node1, node2), (y, u) in old_connections.items():
            self.insert_intermediary_node(y, u, node1, node2)
''', '''        old_edges = self.graph.edges
        old_connections = [
            (old_edges[edge]["y"], old_edges[edge]["u"], edge[0], edge[1])
            for edge in old_edges
        ]
        self.graph = networkx.DiGraph()
        for connection in old_connections:
            self.insert_intermediary_node(*connection)
'''))
r("Y34-mp-get-parameter",
  (MP, '''        p = self.p

        if self.mean_as_parameter:
            for mean_index, p_index in self.mean_p_indices:
                p[p_index] = x_k[mean_index]

        if self.covariance_as_parameter:
            for cov_index, p_index in self.cov_p_indices:
                p[p_index] = p_k[cov_index]

        return p
''', '''        if self.mean_as_parameter:
            self._fill_parameter(self.mean_p_indices, x_k)
        if self.covariance_as_parameter:
            self._fill_parameter(self.cov_p_indices, p_k)
        return self.p

    def _fill_parameter(self, indices, values):
        for value_index, p_index in indices:
            self.p[p_index] = values[value_index]
'''))
r("Y35-mp-get-states",
  (MP, '''        x_k, cov_x_k = self.estimator.estimate(t_k, y_k, u_k)

        if self.include_cost_in_state_vector:
            x_k = vertcat(x_k, 0)

        # post process estimator result
        return self.post_process_states(x_k, cov_x_k)
''', '''        mean, covariance = self.estimator.estimate(t_k, y_k, u_k)
        return self.post_process_states(
            vertcat(mean, 0) if self.include_cost_in_state_vector else mean, covariance
        )
'''))
r("Y36-mp-state-rearrange",
  (MP, '''            x_k_ocp = x_k
            if self.state_rearrangement_function is not None:
                x_k_ocp = self.state_rearrangement_function(x_k)
''', '''            if self.state_rearrangement_function is None:
                x_k_ocp = x_k
            else:
                x_k_ocp = self.state_rearrangement_function(x_k)
'''))
r("Y37-pl-sampling",
  (PL, '''            [1.0 / super_samling * (point + 1) for point in range(super_samling)]
            if isinstance(super_samling, int)
            else super_samling
''', '''            [1.0 / super_samling * point for point in range(1, super_samling + 1)]
            if isinstance(super_samling, int)
            else super_samling
'''))
r("Y38-pl-measure",
  (PL, '''        measurement_wo_noise = mtimes(self.c_matrix, vertcat(x, y))
        if self.has_noise:
            n_rand = DM(
                numpy.random.multivariate_normal([0] * self.r_n.shape[0], self.r_n)
            )
            measurement = measurement_wo_noise + n_rand
        else:
            measurement = measurement_wo_noise
''', '''        measurement_wo_noise = mtimes(self.c_matrix, vertcat(x, y))
        measurement = measurement_wo_noise
        if self.has_noise:
            measurement = measurement + self._measurement_noise()
'''),
  (PL, '''    def _measure(self, x, y):''', '''    def _measurement_noise(self):
        return DM(numpy.random.multivariate_normal([0] * self.r_n.shape[0], self.r_n))

    def _measure(self, x, y):'''))
r("Y39-pl-save",
  (PL, '''        self.dataset.insert_data("x", self.t, x)
        self.dataset.insert_data("y", self.t, y)
        self.dataset.insert_data("u", self.t, u)
        if measurement is not None:
            self.dataset.insert_data("meas", self.t, measurement)
        if measurement is not None:
            self.dataset.insert_data("meas_wo_noise", self.t, measurement_wo_noise)
''', '''        for entry, value in (("x", x), ("y", y), ("u", u)):
            self.dataset.insert_data(entry, self.t, value)
        if measurement is None:
            return
        self.dataset.insert_data("meas", self.t, measurement)
        self.dataset.insert_data("meas_wo_noise", self.t, measurement_wo_noise)
'''))
r("Y40-pl-names",
  (PL, '''            [self.model.x[i].name() for i in range(self.model.n_x)],
''', '''            [x_i.name() for x_i in self.model.x.nz],
'''),
  (PL, '''            ["meas_" + str(i) for i in range(self.model.n_x)],
''', '''            ["meas_{}".format(i) for i in range(self.model.n_x)],
'''))
r("Y41-so-check-helper",
  (SO, ('''        par = vertcat(par)
        mean = vertcat(mean)
        cov = vertcat(cov)

        if not par.numel() == mean.numel():
            raise ValueError(
                'Size of "par" and "mean" differ. par.numel()={} '
                "and mean.numel()={}".format(par.numel(), mean.numel())
            )
        if not cov.shape == (mean.numel(), mean.numel()):
            raise ValueError(
                'The input "cov" is not a square matrix of same size as "mean". '
                "cov.shape={} and mean.numel()={}".format(cov.shape, mean.numel())
            )

        self.p_unc =''', '''self.p_unc_mean = v'''), '''        par, mean, cov = self._check_uncertain(par, mean, cov)

        self.p_unc = vertcat(self.p_unc, par)
        '''),
  (SO, '''    def get_p_without_p_unc(self):''', '''    @staticmethod
    def _check_uncertain(par, mean, cov):
        par, mean, cov = vertcat(par), vertcat(mean), vertcat(cov)
        n = mean.numel()
        if par.numel() != n:
            raise ValueError(
                'Size of "par" and "mean" differ. par.numel()={} '
                "and mean.numel()={}".format(par.numel(), n)
            )
        if cov.shape != (n, n):
            raise ValueError(
                'The input "cov" is not a square matrix of same size as "mean". '
                "cov.shape={} and mean.numel()={}".format(cov.shape, n)
            )
        return par, mean, cov

    def get_p_without_p_unc(self):'''))
r("Y42-so-cov",
  (SO, '''        if cov.numel() > 0 and self.uncertain_initial_conditions_cov.numel() > 0:
            self.uncertain_initial_conditions_cov = diagcat(
                self.uncertain_initial_conditions_cov, cov
            )
        elif cov.numel() > 0:
            self.uncertain_initial_conditions_cov = cov
        else:
            self.uncertain_initial_conditions_cov = (
                self.uncertain_initial_conditions_cov
            )
''', '''        if cov.numel() > 0:
            if self.uncertain_initial_conditions_cov.numel() > 0:
                cov = diagcat(self.uncertain_initial_conditions_cov, cov)
            self.uncertain_initial_conditions_cov = cov
'''))
r("Y43-so-chance-convert",
  (SO, '''        if isinstance(ineq, list):
            ineq = vertcat(*ineq)
        if isinstance(rhs, list):
            rhs = vertcat(*rhs)
        if isinstance(prob, list):
            prob = vertcat(*prob)
        if isinstance(rhs, (float, int)):
            rhs = vertcat(rhs)
        if isinstance(prob, (float, int)):
            prob = vertcat(prob)
''', '''        def to_vector(value):
            if isinstance(value, list):
                return vertcat(*value)
            if isinstance(value, (float, int)):
                return vertcat(value)
            return value

        if isinstance(ineq, list):
            ineq = vertcat(*ineq)
        rhs = to_vector(rhs)
        prob = to_vector(prob)
'''))
r("Y44-so-dist-extend",
  (SO, '''        self.p_unc_dist = self.p_unc_dist + [distribution] * par.numel()
''', '''        self.p_unc_dist = [*self.p_unc_dist, *([distribution] * par.numel())]
'''))
r("Y45-pl-advance",
  (PL, '''            x_sim, y, u = sim_result.final_condition().values()

            # Process noise
            x = x_sim + self._process_noise() if self.has_noise else x_sim

            self.t = t_f
            self.x = x
            self._save_data(x, y, u)
''', '''            x, y, u = sim_result.final_condition().values()
            if self.has_noise:
                x = x + self._process_noise()

            self.t, self.x = t_f, x
            self._save_data(x, y, u)
'''))
