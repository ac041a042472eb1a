W = "core/units.py"
CSV = "data/metric_conversions.csv"
CASES = [
    ("co2-ratio", "c07", "bug", [(W, '"12/44 * C"', '"12/46 * C"')]),
    ("n2on", "c07", "bug", [(W, '"14/28 * N"', '"14/44 * N"')]),
    ("so2-sox", "c07", "bug", [(W, '"SOx": ["SO2"]', '"SOx": ["S"]')]),
    ("nmvoc-own", "c07", "bug", [(W, '"NMVOC": ["VOC", "non_methane_volatile_organic_compounds"]', '"NMVOC": "VOC"')]),
    ("same-dim", "c07", "bug", [(W, '"HFC143a": "HFC143a"', '"HFC143a": ["HFC143"]')]),
    ("upper-missing", "c07", "bug", [(W, "if symbol.upper() != symbol:", "if symbol.upper() != symbol and len(symbol) < 10:")]),
    ("upper-joint-missing", "c07", "bug", [(W, "                self._add_mass_emissions_joint_version(symbol.upper())\n", "")]),
    ("joint-t", "c07", "bug", [(W, '"t{symbol} = t * {symbol}"', '"t{symbol} = g * {symbol}"')]),
    ("kt", "c07", "bug", [(W, 'self.define("kt = 1000 * t")', 'self.define("kt = 1e3 * g")')]),
    ("year", "c07", "bug", [(W, 'self.define("a = 1 * year = annum = yr")', 'self.define("a = 365 * day = annum = yr")')]),
    ("order", "c07", "bug", [(W, '    "NF3": "NF3",\n', '    "NF3": "NF3",\n    "CO": "carbon_monoxide",\n    "OC": ["C"],\n')]),
    ("module-level", "c07", "bug", [(W, "_unit_registry.add_standards()\n", '_unit_registry.add_standards()\n_unit_registry.define("NH3 = 14/18 * N")\n')]),
    ("r-joint-inline", "c07", "same", [(W, '        self.define("g{symbol} = g * {symbol}".format(symbol=symbol))\n        self.define("t{symbol} = t * {symbol}".format(symbol=symbol))\n', '        for mass in ("g", "t"):\n            self.define("{0}{1} = {0} * {1}".format(mass, symbol))\n')]),
    ("r-upper-local", "c07", "same", [(W, "            if symbol.upper() != symbol:\n                self.define(\"{} = {}\".format(symbol.upper(), symbol))\n                self._add_mass_emissions_joint_version(symbol.upper())\n", "            upper = symbol.upper()\n            if upper == symbol:\n                continue\n            self.define(upper + \" = \" + symbol)\n            self._add_mass_emissions_joint_version(upper)\n")]),
    ("r-fstring", "c07", "same", [(W, '                self.define("{} = {}".format(symbol, value[0]))\n                for alias in value[1:]:\n                    self.define("{} = {}".format(alias, symbol))\n', '                definition, *aliases = value\n                self.define(f"{symbol} = {definition}")\n                for alias in aliases:\n                    self.define("%s = %s" % (alias, symbol))\n')]),
    # contexts
    ("csv-ch4", "c08", "bug", [(CSV, "CH4,21,25,28", "CH4,21,25,34")]),
    ("csv-swap", "c08", "bug", [(CSV, "SARGWP100,AR4GWP100,AR5GWP100", "AR4GWP100,SARGWP100,AR5GWP100")]),
    ("ch4-ratio", "c08", "bug", [(W, "lambda registry, x: 16 / 12 * registry.CH4 * x / registry.C", "lambda registry, x: 16 / 44 * registry.CH4 * x / registry.C")]),
    ("nox-back", "c08", "bug", [(W, "            / ((14 + 2 * 16) / 14),", "            / ((14 + 16) / 14),")]),
    ("no-norm", "c08", "bug", [(W, "                    / (self(label).to_base_units()).magnitude\n", "")]),
    ("no-co2", "c08", "bug", [(W, '                    * (self("CO2").to_base_units()).magnitude\n', "")]),
    ("forward-missing", "c08", "bug", [(W, "                    _get_transform_func(unit_reg_unit, conv_val, forward=False),\n                )\n                tc.add_transformation(\n                    \"[mass] * {} / [time]\"", "                    _get_transform_func(unit_reg_unit, conv_val),\n                )\n                tc.add_transformation(\n                    \"[mass] * {} / [time]\"")]),
    ("late-binding", "c08", "bug", [(W, """                tc.add_transformation(
                    base_unit, "[carbon]", _get_transform_func(unit_reg_unit, conv_val)
                )
""", """                tc.add_transformation(
                    base_unit,
                    "[carbon]",
                    lambda ur, x: x * ur.carbon / unit_reg_unit * conv_val,
                )
""")]),
    ("rate-missing", "c08", "bug", [(W, """                tc.add_transformation(
                    "{} / [time]".format(base_unit),
                    "[carbon] / [time]",
                    _get_transform_func(unit_reg_unit, conv_val),
                )
""", "")]),
    ("iloc", "c08", "bug", [(W, "            1:, :\n", "            2:, :\n")]),
    ("loaded-flag", "c08", "bug", [(W, "            self._load_contexts()\n        self._contexts_loaded = True\n", "            self._contexts_loaded = True\n")]),
    ("super-first", "c08", "bug", [(W, "        super().enable_contexts(*names_or_contexts, **kwargs)\n", "        super().enable_contexts(*names_or_contexts[:1], **kwargs)\n")]),
    ("leak-enable", "c08", "bug", [(W, "            with _unit_registry.context(context):\n                t1 = s1.to(target_unit)\n                t2 = s2.to(target_unit)\n", "            _unit_registry.enable_contexts(context)\n            t1 = s1.to(target_unit)\n            t2 = s2.to(target_unit)\n            _unit_registry.disable_contexts()\n")]),
    ("one-outside", "c08", "bug", [(W, "                t1 = s1.to(target_unit)\n                t2 = s2.to(target_unit)\n\n", "                t1 = s1.to(target_unit)\n            t2 = s2.to(target_unit)\n\n")]),
    ("nowarn", "c08", "bug", [(W, "if np.isnan(t1) or np.isnan(t2):", "if np.isnan(t1) and False:")]),
    ("r-loop", "c08", "same", [(W, """                tc.add_transformation(
                    "{} / [time]".format(base_unit),
                    "[carbon] / [time]",
                    _get_transform_func(unit_reg_unit, conv_val),
                )
                tc.add_transformation(
                    "[carbon] / [time]",
                    "{} / [time]".format(base_unit),
                    _get_transform_func(unit_reg_unit, conv_val, forward=False),
                )
""", """                for src, dst, forward in (
                    ("{} / [time]".format(base_unit), "[carbon] / [time]", True),
                    ("[carbon] / [time]", "{} / [time]".format(base_unit), False),
                ):
                    tc.add_transformation(
                        src, dst, _get_transform_func(unit_reg_unit, conv_val, forward)
                    )
""")]),
    ("r-try-finally", "c08", "same", [(W, "            with _unit_registry.context(context):\n                t1 = s1.to(target_unit)\n                t2 = s2.to(target_unit)\n", "            with _unit_registry.context(context):\n                t1, t2 = s1.to(target_unit), s2.to(target_unit)\n")]),
    ("r-flag", "c08", "same", [(W, "            self._load_contexts()\n        self._contexts_loaded = True\n", "            self._load_contexts()\n            self._contexts_loaded = True\n")]),
    ("r-strip", "c08", "same", [(W, 'base_unit.replace("[", "").replace("]", "")', 'base_unit.strip("[]")')]),
    ("r-dim-list", "c08", "same", [(W, """                base_unit = [
                    s
                    for s, _ in self._get_dimensionality(
                        self(label)  # pylint: disable=protected-access
                        .to_base_units()
                        ._units
                    ).items()
                ][0]
""", """                base_unit = list(
                    self._get_dimensionality(self(label).to_base_units()._units)
                )[0]
""")]),
]
