W = "core/time.py"
FILL = '            return {"fill_value": (values[0], values[-1]), "bounds_error": False}\n'
LOOP = """        points = [p for p in break_points if l < p < u]
        y, _ = integrate.quad(
            continuous_representation,
            l,
            u,
            points=points if points else None,
            limit=50 + 2 * len(points),
        )
        int_averages[i] = y / (u - l)
"""
MID = """                        # [time_points[0] - (time_points[1] - time_points[0]) / 2],
                        time_points,
                        (time_points[1:] + time_points[:-1]) / 2,
                        [0],
                    )
                )
                .reshape((2, len(time_points)))
                .T.flatten()[:-1]
            )
"""
CHECK = """        if self._extrapolation_type == ExtrapolationType.NONE and (
            target_time_points.min() < source_time_points.min()
            or target_time_points.max() > source_time_points.max()
        ):
            raise InsufficientDataError(error_msg)
"""
CASES = [
    ("fill-swapped", "c09", "bug", [(W, "(values[0], values[-1])", "(values[-1], values[0])")]),
    ("fill-first", "c09", "bug", [(W, "(values[0], values[-1])", "(values[0], values[-2])")]),
    ("fill-nan", "c09", "bug", [(W, FILL, '            return {"bounds_error": False}\n')]),
    ("linear-const", "c09", "bug", [(W, 'return {"fill_value": "extrapolate"}', 'return {"fill_value": (values[0], values[-1]), "bounds_error": False}')]),
    ("short2", "c09", "bug", [(W, "if len(values) < 3:", "if len(values) < 2:")]),
    ("short4", "c09", "bug", [(W, "if len(values) < 3:", "if len(values) <= 3:")]),
    ("to-same-dir", "c09", "bug", [(W, "return self._convert(values, self._target, self._source)", "return self._convert(values, self._source, self._target)")]),
    ("nocheck-bounds", "c09", "bug", [(W, "        return {}\n", '        return {"bounds_error": False}\n'), (W, CHECK, "")]),
    ("strict-max", "c09", "bug", [(W, "target_time_points.max() > source_time_points.max()", "target_time_points.max() >= source_time_points.max()")]),
    ("cubic", "c09", "bug", [(W, '            return "linear"\n', '            return "cubic"\n')]),
    ("previous", "c09", "bug", [(W, '            return "linear"\n', '            return "nearest"\n')]),
    ("int-cast", "c09", "bug", [(W, "                time_points,\n                values,\n                kind", "                time_points,\n                values.astype(int),\n                kind")]),
    ("r-check-dropped", "c09", "same", [(W, CHECK, "")]),
    ("r-index-check", "c09", "same", [(W, "target_time_points.min() < source_time_points.min()", "np.any(target_time_points < source_time_points[0])")]),
    ("r-locals", "c09", "same", [(W, FILL, "            first = values[0]\n            last = values[-1]\n            return dict(fill_value=(first, last), bounds_error=False)\n")]),
    # averages
    ("no-points", "c10", "bug", [(W, "            points=points if points else None,\n", "")]),
    ("few-points", "c10", "bug", [(W, "if l < p < u]", "if l < p < u][:49]")]),
    ("limit-const", "c10", "bug", [(W, "limit=50 + 2 * len(points)", "limit=1000")]),
    ("points-every-other", "c10", "bug", [(W, "[p for p in break_points if l < p < u]", "[p for p in break_points[::2] if l < p < u]")]),
    ("points-bounds", "c10", "bug", [(W, "if l < p < u]", "if l < p < u - 86400]")]),
    ("no-divide", "c10", "bug", [(W, "int_averages[i] = y / (u - l)", "int_averages[i] = y / (target_intervals[1] - target_intervals[0])")]),
    ("mid-thirds", "c10", "bug", [(W, "(time_points[1:] + time_points[:-1]) / 2,", "(time_points[1:] + 2 * time_points[:-1]) / 3,")]),
    ("mid-int", "c10", "bug", [(W, "(time_points[1:] + time_points[:-1]) / 2,", "(time_points[1:] + time_points[:-1]) // 2,")]),
    ("edge", "c10", "bug", [(W, "(values[1:] + values[:-1]) / 2", "(values[1:] + values[1:]) / 2")]),
    ("short", "c10", "bug", [(W, "if len(values) < 3:", "if len(values) < 2:")]),
    ("none-unchecked", "c10", "same", [(W, CHECK, "")]),
    ("none-min-only", "c10", "same", [(W, "            or target_time_points.max() > source_time_points.max()\n", "")]),
    ("slice", "c10", "bug", [(W, "enumerate(target_intervals[:-1])", "enumerate(target_intervals[:-2])")]),
    ("dir", "c10", "bug", [(W, "return self._convert(values, self._target, self._source)", "return self._convert(values, self._source, self._target)")]),
    ("r-append", "c10", "same", [(W, "    int_averages = [np.nan] * len(target_intervals[:-1])\n", "    int_averages = []\n"), (W, "        int_averages[i] = y / (u - l)\n", "        int_averages.append(y / (u - l))\n")]),
    ("r-zeros", "c10", "same", [(W, "    int_averages = [np.nan] * len(target_intervals[:-1])\n", "    int_averages = np.zeros(len(target_intervals) - 1)\n"), (W, "    return np.array(int_averages)\n", "    return int_averages\n")]),
    ("r-zip", "c10", "same", [(W, "    for i, l in enumerate(target_intervals[:-1]):\n        u = target_intervals[i + 1]\n", "    for i, (l, u) in enumerate(zip(target_intervals[:-1], target_intervals[1:])):\n")]),
    ("r-range", "c10", "same", [(W, "    for i, l in enumerate(target_intervals[:-1]):\n        u = target_intervals[i + 1]\n", "    for i in range(len(target_intervals) - 1):\n        l = target_intervals[i]\n        u = target_intervals[i + 1]\n")]),
    ("r-points-le", "c10", "same", [(W, "            points=points if points else None,\n            limit=50 + 2 * len(points),\n", "            points=points or None,\n            limit=max(50, 10 + len(points)),\n")]),
    ("r-helper", "c10", "same", [(W, LOOP, "        int_averages[i] = _mean(continuous_representation, l, u, break_points)\n"), (W, "def _calc_integral_preserving_linear_interpolation(", """def _mean(f, l, u, break_points):
    points = [p for p in break_points if l < p < u]
    y, _ = integrate.quad(f, l, u, points=points if points else None, limit=50 + 2 * len(points))
    return y / (u - l)


def _calc_integral_preserving_linear_interpolation(""")]),
    ("r-mid-diff", "c10", "same", [(W, "(time_points[1:] + time_points[:-1]) / 2,", "time_points[:-1] + (time_points[1:] - time_points[:-1]) / 2,")]),
    ("r-empty", "c10", "same", [(W, MID, """                        time_points[:1], time_points[1:]))
            )
            linearization_points = np.empty(2 * len(time_points) - 1)
            linearization_points[::2] = time_points
            linearization_points[1::2] = (time_points[1:] + time_points[:-1]) / 2
"""), (W, "            linearization_points = (\n                np.concatenate(\n                    (\n                        time_points[:1], time_points[1:]))\n            )\n", "")]),
    ("r-comp", "c10", "same", [(W, LOOP, LOOP.replace("        int_averages[i] = y / (u - l)\n", "        length = u - l\n        int_averages[i] = y / length\n"))]),
]
