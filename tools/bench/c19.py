G = "scmdataframe/__init__.py"
F = "scmdataframe/base.py"
CH = '''        if len(meta_values) > 1:
            raise ValueError("Not all timeseries have identical metadata")
'''
CM = '''        if meta_values.get("climate_model", "unspecified") != "unspecified":
            raise ValueError(
                "Only input data can be converted to a ParameterSet. Remove climate_model first."
            )
'''
TT = '''            try:
                timeseries_type = ParameterType.from_timeseries_type(
                    metadata.pop("parameter_type")
                )
            except KeyError:
                timeseries_type = guess_parameter_type(variable, unit)
'''
LOOP = '''        for i in self._data:
            vals = self._data[i]
            metadata = self._meta.loc[i]
'''
PV = '''            parameterset.timeseries(
                variable,
                unit,
                time_points,
                region=region,
                timeseries_type=timeseries_type,
            ).values = vals.values
'''
ME = '''            if unit_regexp.match(k):
                para_name = k.split("(")[0].strip()
                para_unit = k.split("(")[1].split(")")[0].strip()
                parameterset.scalar(para_name, para_unit).value = v
'''
CASES = [
    ("no-check", "C19", "bug", [(F, CH, "")]),
    ("check-2", "C19", "bug", [(F, "if len(meta_values) > 1:", "if len(meta_values) > 2:")]),
    ("dup-subset", "C19", "bug", [(F, '["variable", "region", "unit", "parameter_type"], axis=1, errors="ignore"', '["variable", "region", "unit", "scenario", "parameter_type"], axis=1, errors="ignore"')]),
    ("no-model-check", "C19", "bug", [(F, CM, "")]),
    ("drop-unit-kept", "C19", "bug", [(F, '["variable", "region", "unit", "parameter_type"], axis=1, errors="ignore"', '["variable", "region", "parameter_type"], axis=1, errors="ignore"')]),
    ("drop-error", "C19", "bug", [(F, '"parameter_type"], axis=1, errors="ignore"', '"parameter_type"], axis=1')]),
    ("fresh-set", "C19", "bug", [(F, "        if parameterset is None:\n            parameterset = ParameterSet()\n\n        for i in self._data:", "        parameterset = ParameterSet()\n\n        for i in self._data:")]),
    ("guess-always", "C19", "bug", [(F, TT, "            timeseries_type = guess_parameter_type(variable, unit)\n")]),
    ("type-point", "C19", "bug", [(F, "                timeseries_type = guess_parameter_type(variable, unit)\n\n            time_points", "                timeseries_type = ParameterType.POINT_TIMESERIES\n\n            time_points")]),
    ("no-last", "C19", "bug", [(F, "            if timeseries_type == ParameterType.AVERAGE_TIMESERIES:\n                delta_t = time_points[-1]", "            if timeseries_type == ParameterType.POINT_TIMESERIES:\n                delta_t = time_points[-1]")]),
    ("first-delta", "C19", "bug", [(F, "delta_t = time_points[-1] - time_points[-2]\n                time_points", "delta_t = time_points[1] - time_points[0]\n                time_points")]),
    ("mean-delta", "C19", "bug", [(F, "delta_t = time_points[-1] - time_points[-2]\n                time_points", "delta_t = (time_points[-1] - time_points[0]) / (len(time_points) - 1)\n                time_points")]),
    ("hoisted", "C19", "bug", [(F, "            time_points = self.time_points\n            if", "            if"), (F, LOOP, "        time_points = self.time_points\n" + LOOP)]),
    ("region-default", "C19", "bug", [(F, "                region=region,\n                timeseries_type=timeseries_type,\n            ).values = vals.values", "                timeseries_type=timeseries_type,\n            ).values = vals.values")]),
    ("no-type", "C19", "bug", [(F, "                timeseries_type=timeseries_type,\n            ).values = vals.values", "            ).values = vals.values")]),
    ("first-values", "C19", "bug", [(F, "vals = self._data[i]\n            metadata", "vals = self._data.iloc[:, 0]\n            metadata")]),
    ("meta-strip", "C19", "bug", [(F, ME, ME.replace('k.split("(")[0].strip()', 'k.split("(")[0]'))]),
    ("meta-skip", "C19", "bug", [(F, "                parameterset.generic(k).value = v\n", '                if k != "model":\n                    parameterset.generic(k).value = v\n')]),
    ("generic-all", "C19", "bug", [(F, "            if unit_regexp.match(k):\n", "            if False:\n")]),
    ("skip-last", "C19", "bug", [(F, LOOP, LOOP.replace("for i in self._data:", "for i in self._data.columns[:-1]:"))]),
    # refactorings
    ("loc-once", "C19", "same", [(F, "            vals = self._data[i]\n            metadata", "            metadata"), (F, "            ).values = vals.values\n\n        unit_regexp", "            ).values = self._data[i].values\n\n        unit_regexp")]),
    ("no-pop", "C19", "same", [(F, 'variable = metadata.pop("variable")\n            region = metadata.pop("region")\n            unit = metadata.pop("unit")', 'variable = metadata["variable"]\n            region = metadata["region"]\n            unit = metadata["unit"]')]),
    ("type-if", "C19", "same", [(F, TT, '''            if "parameter_type" in metadata:
                timeseries_type = ParameterType.from_timeseries_type(
                    metadata["parameter_type"]
                )
            else:
                timeseries_type = guess_parameter_type(variable, unit)
''')]),
    ("view-var", "C19", "same", [(F, PV, '''            view = parameterset.timeseries(
                variable,
                unit,
                time_points,
                region=region,
                timeseries_type=timeseries_type,
            )
            view.values = vals.values
''')]),
    ("append", "C19", "same", [(F, "time_points = np.concatenate((time_points, [time_points[-1] + delta_t]))\n\n            parameterset", "time_points = np.append(time_points, time_points[-1] + delta_t)\n\n            parameterset")]),
    ("shape", "C19", "same", [(F, "        if len(meta_values) > 1:", "        if meta_values.shape[0] > 1:")]),
    ("iloc0", "C19", "same", [(F, "        meta_values = meta_values.squeeze()\n", "        meta_values = meta_values.iloc[0]\n")]),
    ("items", "C19", "same", [(F, "for k, v in meta_values.iteritems():", "for k, v in meta_values.items():")]),
    ("iteritems", "C19", "same", [(F, LOOP, "        for i, vals in self._data.iteritems():\n            metadata = self._meta.loc[i]\n")]),
    ("pos", "C19", "same", [(F, LOOP, "        for n, i in enumerate(self._data.columns):\n            vals = self._data.iloc[:, n]\n            metadata = self._meta.iloc[n]\n")]),
    ("early", "C19", "same", [(F, "            time_points = self.time_points\n            if", "            time_points = times\n            if"), (F, LOOP, "        times = self.time_points\n" + LOOP)]),
    ("in-place-split", "C19", "same", [(F, ME, '''            if unit_regexp.match(k):
                parts = k.split("(")
                para_name = parts[0].strip()
                para_unit = parts[1].split(")")[0].strip()
                parameterset.scalar(para_name, para_unit).value = v
''')]),
    ("split-1", "C19", "same", [(F, ME, '''            if unit_regexp.match(k):
                para_name, para_unit = k.split("(")[:2]
                parameterset.scalar(
                    para_name.strip(), para_unit.split(")")[0].strip()
                ).value = v
''')]),
    ("model-check", "C19", "same", [(F, CM, '''        if "climate_model" in meta_values:
            if meta_values["climate_model"] != "unspecified":
                raise ValueError("Remove climate_model first.")
''')]),
    # back
    ("b-avg-times", "C19", "bug", [(G, "if para_type == ParameterType.POINT_TIMESERIES\n                else", "if True\n                else")]),
    ("b-first-delta", "C19", "bug", [(G, "delta_t = time_points_average[-1] - time_points_average[-2]", "delta_t = time_points_average[1] - time_points_average[0]")]),
    ("b-no-type", "C19", "bug", [(G, "                timeseries_type=para_type,\n            )\n            data", "            )\n            data")]),
    ("b-region", "C19", "bug", [(G, "                region=region,\n                timeseries_type", "                timeseries_type")]),
    ("b-region-check", "C19", "bug", [(G, 'if region != ("World",):', 'if region[0] != "World":')]),
    ("b-leaf-name", "C19", "bug", [(G, "walk_parameters(child_para, past=full_para_name)", "walk_parameters(child_para, past=past)")]),
    ("b-key", "C19", "bug", [(G, "md[(full_para_name, para.region.full_name)]", 'md[(full_para_name, ("World",))]')]),
    ("b-children", "C19", "bug", [(G, "            walk_regions(child_region)\n", "            pass\n")]),
    ("b-one-child", "C19", "bug", [(G, "                md.update(walk_parameters(child_para, past=full_para_name))\n", "                md = walk_parameters(child_para, past=full_para_name)\n")]),
    ("b-unit", "C19", "bug", [(G, 'metadata["unit"].append(cast(str, p_info.unit))', 'metadata["unit"].append("W/m^2")')]),
    ("b-order", "C19", "bug", [(G, 'metadata["variable"].append(parameter_name_to_scm(param_name))', 'metadata["variable"].insert(0, parameter_name_to_scm(param_name))')]),
    ("b-first-level", "C19", "bug", [(G, "            metadata[parameter_name_to_scm(param_name)] = [", "            metadata[param_name[0]] = [")]),
    ("b-scalar-name", "C19", "bug", [(G, '"{} ({})".format(parameter_name_to_scm(param_name)', '"{} ({})".format(param_name[-1]')]),
    ("b-type-swap", "C19", "bug", [(G, "ParameterType.timeseries_type_to_string(para_type)", '"point"')]),
    ("b-info", "C19", "same", [(G, "] = ParameterInfo(para)", "] = para")]),
    ("b-full-name", "C19", "same", [(G, "        full_para_name = past + (para.name,)\n", "        full_para_name = para.full_name\n")]),
    ("b-values", "C19", "same", [(G, "for (_, child_para) in para.children.items():", "for child_para in para.children.values():")]),
    ("b-stack", "C19", "same", [(G, "np.atleast_2d(data).T", "np.column_stack(data)")]),
    ("b-array", "C19", "same", [(G, "np.atleast_2d(data).T", "np.array(data).T")]),
    ("b-append", "C19", "same", [(G, """    time_points_average = np.concatenate(
        [time_points_average, [time_points_average[-1] + delta_t]]
    )
""", "    time_points_average = np.append(time_points_average, time_points_average[-1] + delta_t)\n")]),
    ("b-elif", "C19", "same", [(G, """                time_points
                if para_type == ParameterType.POINT_TIMESERIES
                else time_points_average
""", """                time_points_average
                if para_type == ParameterType.AVERAGE_TIMESERIES
                else time_points
""")]),
    ("b-stackwalk", "C19", "same", [(G, """    def walk_regions(r: _Region) -> None:
        # pylint: disable=protected-access
        for _, value in r._parameters.items():
            root_params.update(walk_parameters(value))
        for _, child_region in r._children.items():
            walk_regions(child_region)

    walk_regions(parameterset._root)  # pylint: disable=protected-access
""", """    todo = [parameterset._root]
    while todo:
        r = todo.pop()
        for value in r._parameters.values():
            root_params.update(walk_parameters(value))
        todo.extend(r._children.values())
""")]),
    ("b-helper", "C19", "same", [(G, """            if region != ("World",):
                raise ValueError(
                    "Only generic types with Region==World can be extracted"
                )
""", "            only_world(region)\n"), (G, "    data = []\n", """    data = []

    def only_world(region):
        if region != ("World",):
            raise ValueError("Only Region==World can be extracted")

""")]),
]
