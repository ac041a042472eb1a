F = "scmdataframe/base.py"
APPLY = """            res._data[grp.index] = old_data[
                grp.index
            ].apply("""
LOOP = 'for parameter_type, grp in res._meta.groupby("parameter_type"):\n'
META = """            res._meta.loc[grp.index] = res._meta.loc[grp.index].assign(
                parameter_type=parameter_type_str
            )
"""
TP = "            time_points = self.time_points\n            target_points = target_times\n"
CASES = [
    ("hoisted-extension", "C18", "bug", [(F, TP, ""), (F, "        for parameter_type, grp in res._meta", "        time_points = self.time_points\n        target_points = target_times\n        for parameter_type, grp in res._meta")]),
    ("first-delta", "C18", "bug", [(F, "                )\n\n                delta_t = time_points[-1] - time_points[-2]", "                )\n\n                delta_t = time_points[1] - time_points[0]")]),
    ("first-delta-target", "C18", "bug", [(F, "delta_t = target_times[-1] - target_times[-2]", "delta_t = target_times[1] - target_times[0]")]),
    ("type-all", "C18", "bug", [(F, META, '            res._meta["parameter_type"] = parameter_type_str\n')]),
    ("guess-always", "C18", "bug", [(F, "if pd.isnull(r.parameter_type):", "if True:")]),
    ("guess-if-no-column", "C18", "bug", [(F, '        if "parameter_type" not in res._meta:\n            res._meta["parameter_type"] = None\n', '        guess_all = "parameter_type" not in res._meta\n        if guess_all:\n            res._meta["parameter_type"] = None\n'), (F, "if pd.isnull(r.parameter_type):", "if guess_all:")]),
    ("guess-swapped", "C18", "bug", [(F, "if parameter_type == ParameterType.AVERAGE_TIMESERIES\n                    else \"point\"", "if parameter_type != ParameterType.AVERAGE_TIMESERIES\n                    else \"point\"")]),
    ("guess-args", "C18", "bug", [(F, "guess_parameter_type(r.variable, r.unit)", "guess_parameter_type(r.unit, r.variable)")]),
    ("no-copy", "C18", "bug", [(F, "        res = self.copy()\n\n        # Add in a parameter_type", "        res = self\n\n        # Add in a parameter_type")]),
    ("extrap-dropped", "C18", "bug", [(F, "                ExtrapolationType.from_extrapolation_type(extrapolation_type),\n", "                ExtrapolationType.CONSTANT,\n")]),
    ("swap-times", "C18", "bug", [(F, "                time_points,\n                target_points,\n                p_type", "                target_points,\n                time_points,\n                p_type")]),
    ("ptype-point", "C18", "bug", [(F, "                target_points,\n                p_type,", "                target_points,\n                ParameterType.POINT_TIMESERIES,")]),
    ("time-not-set", "C18", "bug", [(F, '        res["time"] = timeseries_index\n        return res', "        return res")]),
    ("new-data", "C18", "bug", [(F, "old_data = res._data\n", "old_data = res._data.copy()\n        old_data.iloc[:, 0] = 0\n")]),
    ("self-data", "C18", "same", [(F, "res._data[grp.index] = old_data[", "res._data[grp.index] = self._data["), (F, "        old_data = res._data\n", "")]),
    ("delta-same", "C18", "same", [(F, """                delta_t = time_points[-1] - time_points[-2]
                time_points = np.concatenate((time_points, [time_points[-1] + delta_t]))""", """                time_points = np.append(time_points, 2 * time_points[-1] - time_points[-2])""" .replace("2 * time_points[-1] - time_points[-2]", "time_points[-1] + (time_points[-1] - time_points[-2])"))]),
    ("types-hoisted", "C18", "same", [(F, "        for parameter_type, grp in res._meta", "        interpolation = InterpolationType.from_interpolation_type(interpolation_type)\n        extrapolation = ExtrapolationType.from_extrapolation_type(extrapolation_type)\n        for parameter_type, grp in res._meta"), (F, "                InterpolationType.from_interpolation_type(interpolation_type),\n                ExtrapolationType.from_extrapolation_type(extrapolation_type),\n", "                interpolation,\n                extrapolation,\n")]),
    ("extract", "C18", "same", [(F, "                    timeseries_converter.convert_from(  # pylint: disable=cell-var-from-loop\n                        col.values\n                    ),", "                    timeseries_converter.convert_from(col.values),")]),
    ("meta-two", "C18", "same", [(F, META, '            res._meta.loc[grp.index, "parameter_type"] = parameter_type_str\n')]),
    ("extend-helper", "C18", "same", [(F, """                delta_t = target_times[-1] - target_times[-2]
                target_points = np.concatenate(
                    (target_times, [target_times[-1] + delta_t])
                )

                delta_t = time_points[-1] - time_points[-2]
                time_points = np.concatenate((time_points, [time_points[-1] + delta_t]))
""", """                target_points = _extend(target_times)
                time_points = _extend(time_points)
"""), (F, "class ScmDataFrameBase:", '''def _extend(times):
    """
    Add a last point.
    """
    return np.concatenate((times, [times[-1] + (times[-1] - times[-2])]))


class ScmDataFrameBase:''')]),
    ("guess-loop", "C18", "same", [(F, '        res._meta["parameter_type"] = [guess(r) for _, r in res._meta.iterrows()]\n', '        guessed = []\n        for _, r in res._meta.iterrows():\n            guessed.append(guess(r))\n        res._meta["parameter_type"] = guessed\n')]),
    ("average-flag", "C18", "same", [(F, "            if p_type == ParameterType.AVERAGE_TIMESERIES:\n                # With", "            is_average = p_type == ParameterType.AVERAGE_TIMESERIES\n            if is_average:\n                # With"), (F, '"average" if p_type == ParameterType.AVERAGE_TIMESERIES else "point"', '"average" if is_average else "point"')]),
    ("apply-def", "C18", "same", [(F, "            res._data[grp.index] = old_data[\n                grp.index\n            ].apply(  # pylint: disable=protected-access\n                lambda col: pd.Series(\n                    timeseries_converter.convert_from(  # pylint: disable=cell-var-from-loop\n                        col.values\n                    ),\n                    index=timeseries_index,\n                )\n            )\n", "            def convert(col, converter=timeseries_converter):\n                return pd.Series(converter.convert_from(col.values), index=timeseries_index)\n\n            res._data[grp.index] = old_data[grp.index].apply(convert)\n")]),
]
