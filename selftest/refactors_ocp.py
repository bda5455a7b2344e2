from selftest.refactors import r
O = "yaocptool/modelling/ocp.py"

r("O01-any",
  (O, ('        has_element_diff_from_inf = False\n', '    def create_state('), '''        for i in range(self.model.n_u):
            if not is_equal(self.delta_u_max[i], inf):
                return True
            if not is_equal(self.delta_u_min[i], -inf):
                return True
        return False

'''))
r("O02-any-gen",
  (O, ('        has_element_diff_from_inf = False\n', '    def create_state('), '''        return any(
            not is_equal(self.delta_u_max[i], inf)
            or not is_equal(self.delta_u_min[i], -inf)
            for i in range(self.model.n_u)
        )

'''))
HELP = '''
    @staticmethod
    def _as_column(value):
        """Return lists as a column vector and leave the rest alone."""
        if isinstance(value, list):
            return vertcat(*value)
        return value

    def include_state(
'''
r("O03-ascolumn",
  (O, '''
    def include_state(
''', HELP),
  (O, '''        if isinstance(x_0, list):
            x_0 = vertcat(*x_0)
        if isinstance(x_min, list):
            x_min = vertcat(*x_min)
        if isinstance(x_max, list):
            x_max = vertcat(*x_max)

        if var''', '''        x_0 = self._as_column(x_0)
        x_min = self._as_column(x_min)
        x_max = self._as_column(x_max)

        if var'''),
  (O, '''        if isinstance(original, list):
            original = vertcat(*original)
        if isinstance(replacement, list):
            replacement = vertcat(*replacement)
''', '''        original, replacement = self._as_column(original), self._as_column(replacement)
'''))
r("O04-sizecheck",
  (O, ('''        if var.numel() != x_max.numel():
            raise ValueError(
                'Size of "x" and "x_max" differ.''', '''        x_0_sym = self.model.include_state('''), '''        size = var.numel()
        for label, bound in (("x_max", x_max), ("x_min", x_min), ("x_0", x_0)):
            if bound is not None and size != bound.numel():
                raise ValueError(
                    'Size of "x" and "{name}" differ. x.numel()={a} '
                    "and {name}.numel()={b}".format(
                        name=label, a=size, b=bound.numel()
                    )
                )

'''))
r("O05-include-state-tail",
  (O, ('''        if x_0 is not None:
            self.x_0 = vertcat(self.x_0, x_0)
            h_initial''', '''        self.x_min = vertcat(self.x_min, x_min)
        self.x_max = vertcat(self.x_max, x_max)

    def include_algebraic'''), '''        if x_0 is None:
            x_0 = DM.zeros(var.shape)
        else:
            h_initial = x_0_sym - var
        self.x_0 = vertcat(self.x_0, x_0)

        if h_initial is not None:
            self.h_initial = vertcat(self.h_initial, h_initial)

'''))
r("O06-yguess",
  (O, ('''        if self.y_guess is not None:
            if y_guess is None:
                self.y_guess = vertcat(self.y_guess, DM''', '''        self.model.include_algebraic(var, alg)
        self.y_min = '''), '''        if self.y_guess is None:
            if y_guess is not None and self.model.n_y == 0:
                self.y_guess = vertcat(y_guess)
        else:
            new_guess = DM.zeros(var.numel()) if y_guess is None else y_guess
            self.y_guess = vertcat(self.y_guess, new_guess)

'''))
r("O07-control-normalise",
  (O, ('''        # if given as a list
        if isinstance(u_min, list):''', '''        # if passed but has a wrong size'''), '''        def to_column(value):
            if isinstance(value, list):
                value = vertcat(*value)
            return vertcat(value)

        def expand(value):
            value = to_column(value)
            if value.numel() == 1 and var.numel() > 1:
                value = repmat(value, var.numel())
            return value

        u_min = expand(u_min)
        u_max = expand(u_max)
        delta_u_min = expand(delta_u_min)
        delta_u_max = expand(delta_u_max)
        if u_guess is not None:
            u_guess = to_column(u_guess)

'''))
r("O08-control-method",
  (O, '''    def include_control(
''', '''    @staticmethod
    def _check_same_size(var, value, name):
        if var.numel() != value.numel():
            raise ValueError(
                "Given 'var' and '{}' does not have the same size, {}!={}".format(
                    name, var.numel(), value.numel()
                )
            )

    def include_control(
'''),
  (O, ('''        # if passed but has a wrong size
''', '''        self.u_min = vertcat(self.u_min, u_min)
        self.u_max = vertcat(self.u_max, u_max)
        self.delta'''), '''        # if passed but has a wrong size
        self._check_same_size(var, u_min, "u_min")
        self._check_same_size(var, u_max, "u_max")
        self._check_same_size(var, delta_u_min, "delta_u_min")
        self._check_same_size(var, delta_u_max, "delta_u_max")
        if u_guess is not None:
            self._check_same_size(var, u_guess, "u_guess")

'''))
r("O09-control-dict",
  (O, ('''        # if passed but has a wrong size
''', '''        if u_guess is not None:
            if self.model.n_u == 0:'''), '''        # if passed but has a wrong size
        values = {
            "u_min": u_min,
            "u_max": u_max,
            "delta_u_min": delta_u_min,
            "delta_u_max": delta_u_max,
            "u_guess": u_guess,
        }
        for key, value in values.items():
            if value is not None and value.numel() != var.numel():
                raise ValueError(f"Given 'var' and '{key}' does not have the same size, {var.numel()}!={value.numel()}")

        for key in ("u_min", "u_max", "delta_u_min", "delta_u_max"):
            setattr(self, key, vertcat(getattr(self, key), values[key]))

'''))
r("O10-merge-loop",
  (O, ('''            self.x_0 = vertcat(self.x_0, problem.x_0)

            self.eta''', '''            self.time_g_eq = self.time_g_eq + problem.time_g_eq'''), '''            for attr in (
                "x_0", "eta", "p_opt", "theta_opt",
                "x_max", "y_max", "u_max", "delta_u_max", "p_opt_max", "theta_opt_max",
                "x_min", "y_min", "u_min", "delta_u_min", "p_opt_min", "theta_opt_min",
                "h", "h_initial", "h_final", "g_eq", "g_ineq",
            ):
                setattr(self, attr, vertcat(getattr(self, attr), getattr(problem, attr)))
'''))
r("O11-merge-helper",
  (O, ('''            if (
                self.last_u is None
                and self.model.n_u == 0''', '''            self.positive_objective = ('''), '''            self.last_u = self._join_optional(
                self.last_u, problem.last_u, self.model.n_u == 0
            )
            self.y_guess = self._join_optional(
                self.y_guess, problem.y_guess, self.model.n_y == 0
            )
            self.u_guess = self._join_optional(
                self.u_guess, problem.u_guess, self.model.n_u == 0
            )

'''),
  (O, '''    def merge(self, problems''', '''    @staticmethod
    def _join_optional(own, other, own_is_empty):
        if other is None:
            return None
        if own is not None:
            return vertcat(own, other)
        return other if own_is_empty else None

    def merge(self, problems'''))
r("O12-merge-checks",
  (O, ('''            if self.t_0 != problem.t_0:''', '''            self.x_0 = vertcat(self.x_0, problem.x_0)

            self.eta'''), '''            for attr in ("t_0", "t_f"):
                mine, theirs = getattr(self, attr), getattr(problem, attr)
                if mine != theirs:
                    raise ValueError(
                        f'Problems "{self.name}" and "{problem.name}" have different "{attr}", {mine}!={theirs}'
                    )

'''))
r("O13-replace-loop",
  (O, ('''        # if original.numel():
        self.L =''', '''        # apply to the model
        self.model.replace_variable('''), '''        for attr in ("L", "V", "S", "h_initial", "h_final", "g_ineq", "g_eq", "h"):
            setattr(self, attr, substitute(getattr(self, attr), original, replacement))

'''))
r("O14-quad",
  (O, ('''        if "Q" in par_dict:
            self.L +=''', '''        if "Rv" in par_dict:'''), '''        x_error = self.model.x - par_dict["x_ref"]
        u_error = self.model.u - par_dict["u_ref"]

        def quad(error, weight):
            return mtimes(mtimes(error.T, weight), error)

        if "Q" in par_dict:
            self.L += quad(x_error, par_dict["Q"])

        if "R" in par_dict:
            self.L += quad(u_error, par_dict["R"])

        if "Qv" in par_dict:
            self.V += quad(x_error, par_dict["Qv"])

'''))
r("O15-quad-get",
  (O, ('''        par_dict = dict(par_dict)
        if "x_ref" not in par_dict:''', '''        if "Q" in par_dict:
            self.L +='''), '''        par_dict = dict(par_dict)
        par_dict.setdefault("x_ref", DM.zeros(self.model.n_x))
        par_dict.setdefault("u_ref", DM.zeros(self.model.n_u))

'''))
r("O16-presolve",
  (O, ('''        attributes = [
            "x_0",
            "x_max",''', '''    def reset_working_model(self)'''), '''        expected = {
            "x_0": "n_x",
            "x_max": "n_x",
            "y_max": "n_y",
            "u_max": "n_u",
            "x_min": "n_x",
            "y_min": "n_y",
            "u_min": "n_u",
            "delta_u_max": "n_u",
            "delta_u_min": "n_u",
        }
        for attr, n_attr in expected.items():
            self._check_size_of(attr, self.model, n_attr)

        for attr, n_attr in [
            ("p_opt_max", "n_p_opt"),
            ("p_opt_min", "n_p_opt"),
            ("theta_opt_min", "n_theta_opt"),
            ("theta_opt_max", "n_theta_opt"),
        ]:
            self._check_size_of(attr, self, n_attr)

    def _check_size_of(self, attr, owner, n_attr):
        actual = getattr(self, attr).numel()
        wanted = getattr(owner, n_attr)
        if actual != wanted:
            raise Exception(
                'The size of "self.{}" is not equal to the size of "model.{}", '
                "{} != {}".format(attr, n_attr, actual, wanted)
            )

'''))
r("O17-set-popt",
  (O, ('''        if new_p_opt_min is None:
            new_p_opt_min = -DM.inf(new_p_opt.numel())
        if new_p_opt_max is None:''', '''        self.p_opt = vertcat(self.p_opt, new_p_opt)'''), '''        n = new_p_opt.numel()
        new_p_opt_min = vertcat(-DM.inf(n) if new_p_opt_min is None else new_p_opt_min)
        new_p_opt_max = vertcat(DM.inf(n) if new_p_opt_max is None else new_p_opt_max)

        for label, value in [("new_p_opt_max", new_p_opt_max), ("new_p_opt_min", new_p_opt_min)]:
            if value.numel() != n:
                raise ValueError("Size of \\"new_p_opt\\" and \\"%s\\" differ. new_p_opt.numel()=%d and %s.numel()=%d" % (label, n, label, value.numel()))

'''))
r("O18-shared-opt",
  (O, ('''        if new_p_opt_min is None:
            new_p_opt_min = -DM.inf(new_p_opt.numel())
        if new_p_opt_max is None:''', '''    def set_theta_as_optimization_theta('''), '''        return self._register("p_opt", new_p_opt, new_p_opt_min, new_p_opt_max)

    def _register(self, kind, var, lower, upper):
        if lower is None:
            lower = -DM.inf(var.numel())
        if upper is None:
            upper = DM.inf(var.numel())
        lower = vertcat(lower)
        upper = vertcat(upper)
        if var.numel() != upper.numel():
            raise ValueError('Size of "{}" and its upper bound differ'.format(kind))
        if var.numel() != lower.numel():
            raise ValueError('Size of "{}" and its lower bound differ'.format(kind))
        setattr(self, kind, vertcat(getattr(self, kind), var))
        setattr(self, kind + "_min", vertcat(getattr(self, kind + "_min"), lower))
        setattr(self, kind + "_max", vertcat(getattr(self, kind + "_max"), upper))
        return var

'''),
  (O, ('''        if new_theta_opt_min is None:
            new_theta_opt_min = -DM.inf(''', '''    def get_p_opt_indices'''), '''        return self._register(
            "theta_opt", vertcat(new_theta_opt), new_theta_opt_min, new_theta_opt_max
        )

'''))
r("O19-remove-control",
  (O, ('''        self.u_max = remove_variables_from_vector_by_indices(to_remove, self.u_max)''', '''        self.model.remove_control(var)'''), '''        for name in ["u_max", "u_min", "delta_u_max", "delta_u_min", "u_guess"]:
            value = getattr(self, name)
            if value is None:
                continue
            setattr(self, name, remove_variables_from_vector_by_indices(to_remove, value))

'''))
r("O20-remove-control2",
  (O, ('''        self.u_max = remove_variables_from_vector_by_indices(to_remove, self.u_max)''', '''        if self.u_guess is not None:
            self.u_guess = remove_variables'''), '''        def drop(vector):
            return remove_variables_from_vector_by_indices(to_remove, vector)

        self.delta_u_max = drop(self.delta_u_max)
        self.delta_u_min = drop(self.delta_u_min)
        self.u_max = drop(self.u_max)
        self.u_min = drop(self.u_min)

'''))
r("O21-fixtypes",
  (O, ('''        self.x_max = vertcat(self.x_max)
''', '''    def pre_solve_check(self)'''), '''        for attr in [
            "x_max", "y_max", "u_max", "delta_u_max",
            "x_min", "y_min", "u_min", "delta_u_min",
            "h_final", "h_initial", "h", "g_eq", "g_ineq", "x_0",
        ]:
            setattr(self, attr, vertcat(getattr(self, attr)))
        for attr in ("y_guess", "u_guess"):
            if getattr(self, attr) is not None:
                setattr(self, attr, vertcat(getattr(self, attr)))
        for attr in ("L", "V", "S"):
            cost = getattr(self, attr)
            if isinstance(cost, (int, float)):
                setattr(self, attr, SX(cost))

'''))
r("O22-timeineq-helper",
  (O, '''        if isinstance(eq, list):
            eq = vertcat(*eq)
        self.g_ineq = vertcat(self.g_ineq, eq)
        self.time_g_ineq.extend([when] * eq.numel())
''', '''        eq = vertcat(*eq) if isinstance(eq, list) else eq
        self.g_ineq = vertcat(self.g_ineq, eq)
        for _ in range(eq.numel()):
            self.time_g_ineq.append(when)
'''),
  (O, '''        if isinstance(eq, list):
            eq = vertcat(*eq)
        self.g_eq = vertcat(self.g_eq, eq)
        self.time_g_eq.extend([when] * eq.numel())
''', '''        if isinstance(eq, list):
            eq = vertcat(*eq)
        n_new = eq.numel()
        self.time_g_eq += [when for _ in range(n_new)]
        self.g_eq = vertcat(self.g_eq, eq)
'''))
r("O23-init",
  (O, ('''        self.x_max: DM = repmat(inf, self.model.n_x)''', '''        self.h: SX = SX(0, 1)'''), '''        sizes = {
            "x": self.model.n_x,
            "y": self.model.n_y,
            "u": self.model.n_u,
            "delta_u": self.model.n_u,
            "p_opt": self.n_p_opt,
            "theta_opt": self.n_theta_opt,
        }
        for key, size in sizes.items():
            setattr(self, key + "_max", repmat(inf, size))
            setattr(self, key + "_min", repmat(-inf, size))

'''))
r("O24-init2",
  (O, '''        if x_0 is None:
            x_0 = DM()
        elif isinstance(x_0, list):
            x_0 = DM(x_0)

        self.t_0: float = t_0
        self.t_f: float = t_f
        self.x_0: DM = x_0
''', '''        self.t_0: float = t_0
        self.t_f: float = t_f
        self.x_0: DM = self._initial_state(x_0)
'''),
  (O, '''    @property
    def n_h_final(self)''', '''    @staticmethod
    def _initial_state(x_0):
        if x_0 is None:
            return DM()
        return DM(x_0) if isinstance(x_0, list) else x_0

    @property
    def n_h_final(self)'''),
  (O, '''            obj_value = kwargs.pop("obj")
            if type(obj_value) == dict:
                for (k, v) in obj_value.items():
                    setattr(self, k, v)
                self.create_quadratic_cost(obj_value)
''', '''            objective = kwargs.pop("obj")
            if type(objective) == dict:
                for key in objective:
                    setattr(self, key, objective[key])
                self.create_quadratic_cost(objective)
'''))
r("O25-adjoint",
  (O, ('''        self.H = self.L + dot(lamb''', '''    def include_system_equations'''), '''        ode, alg = self.model.ode, self.model.alg
        hamiltonian = self.L + dot(lamb, ode) + dot(nu, alg)
        self.H = hamiltonian

        self_x, self_y = self.model.x, self.model.y
        l_dot = -gradient(hamiltonian, self_x)
        alg_eq = gradient(hamiltonian, self_y)

        self.include_state(var=lamb, ode=l_dot, suppress=True)
        self.model.has_adjoint_variables = True
        self.include_algebraic(var=nu, alg=alg_eq)

        x_sys = self.model.x_sys_sym
        transversality = (
            self.model.lamb_sym
            - gradient(self.V, x_sys)
            - mtimes(jacobian(self.h_final, x_sys).T, self.eta)
        )
        self.h_final = vertcat(self.h_final, transversality)

'''))
