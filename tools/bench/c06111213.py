U = "core/units.py"
T = "core/time.py"
A = "adapters/__init__.py"
D = "adapters/dice.py"
M = "core/__init__.py"
QT = """        s1 = _unit_registry.Quantity(1, source_unit)
        s2 = _unit_registry.Quantity(-1, source_unit)

        if context is None:
            t1 = s1.to(target_unit)
            t2 = s2.to(target_unit)
        else:
            with _unit_registry.context(context):
                t1 = s1.to(target_unit)
                t2 = s2.to(target_unit)
"""
INIT = """        if not self._initialized:
            self._initialize_model()
            self._initialized = True
"""
MINIT = """        self._input_parameters = (
            input_parameters if input_parameters is not None else ParameterSet()
        )
"""
FY = """    return np.datetime64(  # pylint: disable=too-many-function-args
        year - 1970, "Y"
    ) + np.timedelta64(  # pylint: disable=too-many-function-args
        int(
            (
                datetime.datetime(year + 1, 1, 1) - datetime.datetime(year, 1, 1)
            ).total_seconds()
            * fractional_part
        ),
        "s",
    )
"""
MATSTEP = """            v.mat.values[self._timestep - 1] * v.b11
            + v.mu.values[self._timestep - 1] * v.b21
            + v.E.values[self._timestep - 1]
            * float(v.period_length.value / YEAR)
            / (3.666 if v.original_rounding.value else 1),
"""
TATM = """        v.tatm.values[self._timestep] = min(
            v.tatm_upper.value,
            v.tatm.values[self._timestep - 1]
            + v.c1.value
            * (
                v.forc.values[self._timestep]
                - (v.fco22x.value / v.t2xco2.value) * v.tatm.values[self._timestep - 1]
                - v.c3.value
                * (
                    v.tatm.values[self._timestep - 1]
                    - v.tocean.values[self._timestep - 1]
                )
            ),
        )
"""
TOCEAN = """        v.tocean.values[self._timestep] = max(
            v.tocean_lower.value,
            min(
                v.tocean_upper.value,
                v.tocean.values[self._timestep - 1]
                + v.c4.value
                * (
                    v.tatm.values[self._timestep - 1]
                    - v.tocean.values[self._timestep - 1]
                ),
            ),
        )
"""
RUN = """        for _ in range(self._timestep_count - 1):
            self._calc_step()
"""
FORC = """        if (
            v.start_time.value + v.period_length.value * self._timestep
            >= v.forcoth_saturation_time.value
        ):
            forcoth = v.fex1.value
        else:
            # (divide timedeltas first as multiplying them by floats truncates)
            forcoth = v.fex0.value + (v.fex1.value - v.fex0.value) * (
                v.period_length.value
                * self._timestep
                / (v.forcoth_saturation_time.value - v.start_time.value)
            )
"""
RAW = [
    # C06
    ("u-offset-sign", "C06", "bug", [(U, "return (v - self._offset) / self._scaling", "return (v + self._offset) / self._scaling")]),
    ("u-order", "C06", "bug", [(U, "return self._offset + v * self._scaling", "return (self._offset + v) * self._scaling")]),
    ("u-small-scale", "C06", "bug", [(U, "        self._offset = t1.m - self._scaling * s1.m\n", "        self._offset = round(t1.m - self._scaling * s1.m, 2)\n")]),
    ("u-same-skip", "C06", "bug", [(U, "        self._source = source\n        self._target = target\n", "        self._source = source\n        self._target = target\n        if source == target:\n            self._scaling, self._offset = 1.0, 0.0\n            return\n")]),
    ("u-s2zero", "C06", "same", [(U, "s2 = _unit_registry.Quantity(-1, source_unit)", "s2 = _unit_registry.Quantity(0, source_unit)")]),
    ("u-offset-t2", "C06", "same", [(U, "self._offset = t1.m - self._scaling * s1.m", "self._offset = (t1.m + t2.m) / 2")]),
    ("u-offset-t2-sub", "C06", "bug", [(U, "self._offset = t1.m - self._scaling * s1.m", "self._offset = (t1.m - t2.m) / 2")]),
    ("u-scale-abs", "C06", "same", [(U, "self._scaling = float(t2.m - t1.m) / float(s2.m - s1.m)", "self._scaling = float(t1.m - t2.m) / 2.0")]),
    ("u-scale-int", "C06", "bug", [(U, "self._scaling = float(t2.m - t1.m) / float(s2.m - s1.m)", "self._scaling = float(t2.m - t1.m) // float(s2.m - s1.m)")]),
    ("u-inplace", "C06", "bug", [(U, "        return self._offset + v * self._scaling\n", "        v *= self._scaling\n        return self._offset + v\n")]),
    ("u-noscale-fast", "C06", "bug", [(U, "        return (v - self._offset) / self._scaling\n", "        if self._scaling < 0.01:\n            return v / self._scaling\n        return (v - self._offset) / self._scaling\n")]),
    ("u-helper", "C06", "same", [(U, QT, """        if context is None:
            t1, t2 = self._probe(source_unit, target_unit)
        else:
            with _unit_registry.context(context):
                t1, t2 = self._probe(source_unit, target_unit)
        s1 = _unit_registry.Quantity(1, source_unit)
        s2 = _unit_registry.Quantity(-1, source_unit)
"""), (U, "    def convert_from(self", '''    @staticmethod
    def _probe(source_unit, target_unit):
        """
        Two converted points.
        """
        return (
            _unit_registry.Quantity(1, source_unit).to(target_unit),
            _unit_registry.Quantity(-1, source_unit).to(target_unit),
        )

    def convert_from(self''')]),
    ("u-catch", "C06", "bug", [(U, QT, QT.replace("            t1 = s1.to(target_unit)\n            t2 = s2.to(target_unit)\n        else", "            try:\n                t1 = s1.to(target_unit)\n                t2 = s2.to(target_unit)\n            except Exception:\n                t1, t2 = s1, s2\n        else"))]),
    ("u-affine-split", "C06", "same", [(U, "        return self._offset + v * self._scaling\n", "        scaled = self._scaling * v\n        return scaled + self._offset\n")]),
    # C11
    ("t-grid-end", "C11", "bug", [(T, "end_time_output = start_time + (points_num_output - 1) * period_length", "end_time_output = start_time + points_num_output * period_length")]),
    ("t-grid-avg", "C11", "bug", [(T, "(points_num + 1)  #", "(points_num + 2)  #")]),
    ("t-grid-point", "C11", "bug", [(T, "if timeseries_type == ParameterType.AVERAGE_TIMESERIES\n        else points_num\n    )\n    end", "if timeseries_type != ParameterType.AVERAGE_TIMESERIES\n        else points_num\n    )\n    end")]),
    ("t-grid-days", "C11", "bug", [(T, 'end_time_output.astype("datetime64[s]").astype(float),', 'end_time_output.astype("datetime64[D]").astype("datetime64[s]").astype(float),')]),
    ("t-grid-arange", "C11", "same", [(T, """    end_time_output = start_time + (points_num_output - 1) * period_length
    return np.linspace(
        start_time.astype("datetime64[s]").astype(float),
        end_time_output.astype("datetime64[s]").astype(float),
        points_num_output,
        dtype="datetime64[s]",
    )
""", """    return (start_time + np.arange(points_num_output) * period_length).astype(
        "datetime64[s]"
    )
""")]),
    ("t-leap", "C11", "bug", [(T, "datetime.datetime(year + 1, 1, 1) - datetime.datetime(year, 1, 1)", "datetime.datetime(2002, 1, 1) - datetime.datetime(2001, 1, 1)")]),
    ("t-int-year", "C11", "bug", [(T, '(np.asarray(dts) - 1970).astype("datetime64[Y]")', '(np.asarray(dts) - 1971).astype("datetime64[Y]")')]),
    ("t-int-year-round", "C11", "bug", [(T, "    year = int(inp)\n", "    year = round(inp)\n")]),
    ("t-frac-round", "C11", "bug", [(T, "    fractional_part = inp - year\n", "    fractional_part = round(inp - year, 4)\n")]),
    ("t-months", "C11", "bug", [(T, 'astype(object), "month")', 'astype(object), "day")')]),
    ("t-weekday", "C11", "bug", [(T, "datetime.datetime.weekday)", "datetime.datetime.isoweekday)")]),
    ("t-days", "C11", "bug", [(T, 'np.vectorize(getattr)(self._values.astype(object), "day")', '(self._values.astype("datetime64[D]") - self._values.astype("datetime64[M]")).astype(int)')]),
    ("t-hours-comp", "C11", "same", [(T, 'np.vectorize(getattr)(self._values.astype(object), "hour")', 'np.array([t.hour for t in self._values.astype(object)])')]),
    ("t-days-arith", "C11", "same", [(T, 'np.vectorize(getattr)(self._values.astype(object), "day")', '(self._values.astype("datetime64[D]") - self._values.astype("datetime64[M]")).astype(int) + 1')]),
    ("t-str-dayfirst", "C11", "bug", [(T, "np.frompyfunc(parser.parse, 1, 1)", "np.frompyfunc(lambda s: parser.parse(s, dayfirst=True), 1, 1)")]),
    ("t-str-first-int", "C11", "bug", [(T, "inp.astype(float))\n", "inp.astype(float).round())\n")]),
    ("t-fy-vars", "C11", "same", [(T, FY, """    length = datetime.datetime(year + 1, 1, 1) - datetime.datetime(year, 1, 1)
    seconds = int(length.total_seconds() * fractional_part)
    return np.datetime64(year - 1970, "Y") + np.timedelta64(seconds, "s")
""")]),
    ("t-fmt-elif", "C11", "same", [(T, """    if issubclass(dtype, np.datetime64):
        return np.asarray(dts, dtype="datetime64[s]")
    if issubclass(dtype, np.floating):
        return _ufunc""", """    if issubclass(dtype, np.datetime64):
        return np.asarray(dts, dtype="datetime64[s]")
    elif issubclass(dtype, np.floating):
        return _ufunc""")]),
    ("t-empty", "C11", "bug", [(T, "if len(dts) <= 0:", "if len(dts) <= 1:")]),
    ("t-generic", "C11", "bug", [(T, """    if issubclass(dtype, str):
        return _parse_datetime(dts).astype("datetime64[s]")
    return np.asarray(dts, dtype="datetime64[s]")
""", """    if issubclass(dtype, str):
        return _parse_datetime(dts).astype("datetime64[s]")
    return np.asarray(dts, dtype="datetime64[D]").astype("datetime64[s]")
""")]),
    # C12
    ("a-noflag", "C12", "bug", [(A, "            self._initialize_model()\n            self._initialized = True\n\n        self._initialize_run_parameters()", "            self._initialize_model()\n\n        self._initialize_run_parameters()")]),
    ("a-late", "C12", "bug", [(A, INIT + "\n        self._initialize_model_input()\n", "        self._initialize_model_input()\n\n" + INIT)]),
    ("a-reset-first", "C12", "bug", [(A, '        self._current_time = self._parameters.generic("Start Time").value\n        self._reset()\n', '        if self._current_time == 0:\n            self._current_time = self._parameters.generic("Start Time").value\n        self._reset()\n')]),
    ("a-reset-output", "C12", "bug", [(A, 'self._parameters.generic("Start Time")', 'self._output.generic("Start Time")')]),
    ("a-step-before", "C12", "bug", [(A, "        self._step()\n        return self._current_time\n", "        time = self._current_time\n        self._step()\n        return time\n")]),
    ("a-step-twice", "C12", "bug", [(A, "        self._step()\n        return self._current_time\n", "        if not self._initialized_inputs:\n            self._step()\n            self._initialized_inputs = True\n        self._step()\n        return self._current_time\n")]),
    ("a-swap-sets", "C12", "same", [(A, "        self._output = output_parameters\n", "        self._output = output_parameters or input_parameters\n")]),
    ("a-cache-none", "C12", "bug", [(A, """    if adapter is None:
        raise KeyError("Unknown model '{}'".format(name))

    _loaded_adapters[name] = adapter
""", """    _loaded_adapters[name] = adapter
    if adapter is None:
        raise KeyError("Unknown model '{}'".format(name))

""")]),
    ("a-cache-lower", "C12", "bug", [(A, '        if name == "DICE":', '        if name.upper() == "DICE":')]),
    ("a-init-twice", "C12", "bug", [(A, "            self._initialize_model()\n            self._initialized = True\n\n        self._initialize_model_input()", "            self._initialize_model()\n            self._initialized = self._initialized_inputs\n            self._initialized_inputs = True\n\n        self._initialize_model_input()")]),
    ("a-helper", "C12", "same", [(A, INIT + "\n        self._initialize_model_input()", "        self._ensure_initialized()\n        self._initialize_model_input()"), (A, INIT + "\n        self._initialize_run_parameters()", "        self._ensure_initialized()\n        self._initialize_run_parameters()"), (A, "    def reset(self) -> None:", "    def _ensure_initialized(self) -> None:\n" + INIT + "\n    def reset(self) -> None:")]),
    ("a-flag-order", "C12", "same", [(A, "            self._initialize_model()\n            self._initialized = True\n\n        self._initialize_run", "            self._initialized = True\n            self._initialize_model()\n\n        self._initialize_run")]),
    ("a-get", "C12", "same", [(A, "    if name in _loaded_adapters:\n        return _loaded_adapters[name]\n", "    cached = _loaded_adapters.get(name)\n    if cached is not None:\n        return cached\n")]),
    ("m-reset-order", "C12", "bug", [(M, "        self._model.initialize_run_parameters()\n        self._model.reset()\n", "        self._model.reset()\n        self._model.initialize_run_parameters()\n")]),
    ("m-or", "C12", "bug", [(M, "            output_parameters if output_parameters is not None else ParameterSet()\n", "            output_parameters if output_parameters is not None else input_parameters or ParameterSet()\n")]),
    ("m-run-noreset", "C12", "bug", [(M, "        self.reset_stepping()\n        self._model.run()\n", "        if not self._model._initialized:\n            self.reset_stepping()\n        self._model.run()\n")]),
    ("m-run-inline", "C12", "same", [(M, "        self.reset_stepping()\n        self._model.run()\n", "        model = self._model\n        model.initialize_model_input()\n        model.initialize_run_parameters()\n        model.reset()\n        model.run()\n")]),
    ("m-if", "C12", "same", [(M, MINIT, "        if input_parameters is None:\n            input_parameters = ParameterSet()\n        self._input_parameters = input_parameters\n")]),
    # C13
    ("d-b11", "C13", "bug", [(D, "v.b11 = 1 - v.b12.value", "v.b11 = 1 - v.b12.value * 1.001")]),
    ("d-b22", "C13", "bug", [(D, "v.b22 = 1 - v.b21 - v.b23.value", "v.b22 = 1 - v.b12.value - v.b23.value")]),
    ("d-b32", "C13", "bug", [(D, "v.b32 = v.b23.value * v.mueq.value / v.mleq.value", "v.b32 = v.b23.value * v.mleq.value / v.mueq.value")]),
    ("d-leak", "C13", "bug", [(D, "v.mu.values[self._timestep - 1] * v.b22\n", "v.mu.values[self._timestep] * v.b22\n")]),
    ("d-ml-mat", "C13", "bug", [(D, "+ v.mu.values[self._timestep - 1] * v.b23.value,", "+ v.mat.values[self._timestep - 1] * v.b23.value,")]),
    ("d-E-index", "C13", "bug", [(D, "+ v.E.values[self._timestep - 1]\n", "+ v.E.values[self._timestep]\n")]),
    ("d-rounding", "C13", "bug", [(D, "(3.666 if v.original_rounding.value else 1)", "(3.666 if not v.original_rounding.value else 1)")]),
    ("d-period", "C13", "bug", [(D, "            * float(v.period_length.value / YEAR)\n", "")]),
    ("d-tocean-bound", "C13", "bug", [(D, "            v.tocean_lower.value,\n            min(\n                v.tocean_upper.value,\n", "            v.tocean_lower.value,\n            max(\n                v.tocean_upper.value,\n")]),
    ("d-order", "C13", "bug", [(D, TOCEAN, ""), (D, TATM, TATM + "\n" + TOCEAN.replace("v.tatm.values[self._timestep - 1]", "v.tatm.values[self._timestep]"))]),
    ("d-order-keep", "C13", "same", [(D, TOCEAN, ""), (D, TATM, TATM + "\n" + TOCEAN)]),
    ("d-forc-prev", "C13", "bug", [(D, "v.forc.values[self._timestep]\n                -", "v.forc.values[self._timestep - 1]\n                -")]),
    ("d-sat", "C13", "same", [(D, "            >= v.forcoth_saturation_time.value\n", "            > v.forcoth_saturation_time.value\n")]),
    ("d-sat-off", "C13", "bug", [(D, "v.start_time.value + v.period_length.value * self._timestep\n            >=", "v.start_time.value + v.period_length.value * (self._timestep + 1)\n            >=")]),
    ("d-run-count", "C13", "bug", [(D, "range(self._timestep_count - 1)", "range(self._timestep_count - 2)")]),
    ("d-reset-keep", "C13", "bug", [(D, "    def _reset(self) -> None:\n        self._timestep = 0\n", "    def _reset(self) -> None:\n")]),
    ("d-mat0", "C13", "bug", [(D, "v.mu.values[0] = v.mu0.value", "v.mu.values[0] = v.mueq.value")]),
    ("d-forc0", "C13", "bug", [(D, "v.fco22x.value * log2(v.mat0.value / v.mateq.value) + v.fex0.value", "v.fco22x.value * log2(v.mat0.value / v.mateq.value)")]),
    ("d-helper-vars", "C13", "same", [(D, MATSTEP, """            v.mat.values[i] * v.b11
            + v.mu.values[i] * v.b21
            + v.E.values[i]
            * float(v.period_length.value / YEAR)
            / (3.666 if v.original_rounding.value else 1),
"""), (D, "        v = self._values  # just for convenience\n\n        # Original: \"Carbon concentration increase in atmosphere (GtC from 1750)\"\n        v.mat.values[self._timestep] = max(", "        v = self._values  # just for convenience\n        i = self._timestep - 1\n\n        # Original: \"Carbon concentration increase in atmosphere (GtC from 1750)\"\n        v.mat.values[self._timestep] = max(")]),
    ("d-while", "C13", "same", [(D, RUN, """        steps = self._timestep_count - 1
        while steps > 0:
            self._calc_step()
            steps -= 1
""")]),
    ("d-clip", "C13", "same", [(D, FORC, FORC.replace(">=", "<", 1).replace("            forcoth = v.fex1.value\n        else:\n            # (divide timedeltas first as multiplying them by floats truncates)\n", "            # (divide timedeltas first as multiplying them by floats truncates)\n") + "        else:\n            forcoth = v.fex1.value\n")]),
    ("d-forc-method", "C13", "same", [(D, FORC, "        forcoth = self._other_forcing()\n"), (D, "    def _calc_step(self) -> None:", "    def _other_forcing(self) -> float:\n        v = self._values\n" + FORC.replace("            forcoth = v.fex1.value\n        else:", "            return v.fex1.value\n        else:").replace("forcoth = v.fex0", "return v.fex0") + "\n    def _calc_step(self) -> None:")]),
    ("d-b21-order", "C13", "same", [(D, "v.b21 = v.b12.value * v.mateq.value / v.mueq.value", "v.b21 = v.mateq.value / v.mueq.value * v.b12.value")]),
    ("d-run-step", "C13", "same", [(D, RUN, RUN.replace("_calc_step", "_step"))]),
]
CASES = RAW
