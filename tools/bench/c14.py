F = "scmdataframe/base.py"
G = "scmdataframe/filters.py"
IDX = "idx = _keep_ts[:, np.newaxis] & _keep_cols"
KEEP = "idx = idx if keep else ~idx"
WH = "        d = ret._data.where(idx)  # pylint: disable=protected-access\n"
DROP = """        ret._data = d.dropna(  # pylint: disable=protected-access
            axis=1, how="all"
        ).dropna(axis=0, how="all")
"""
META = """        ret._meta = ret._meta[  # pylint: disable=protected-access
            (~d.isna()).sum(axis=0) > 0
        ]
"""
TIME = '        ret["time"] = ret._data.index.values  # pylint: disable=protected-access\n'
EMPTY = "        if not ret._meta.shape[0]:"
CASES = [
    ("drop-and", "C14", "bug", [(F, KEEP, "idx = idx if keep else ~_keep_ts[:, np.newaxis] & ~_keep_cols")]),
    ("keep-or", "C14", "bug", [(F, IDX, "idx = _keep_ts[:, np.newaxis] | _keep_cols")]),
    ("no-copy", "C14", "bug", [(F, "ret = self.copy() if not inplace else self", "ret = self")]),
    ("how-any", "C14", "bug", [(F, 'axis=1, how="all"\n', 'axis=1, how="any"\n')]),
    ("how-any-rows", "C14", "bug", [(F, '.dropna(axis=0, how="all")', '.dropna(axis=0, how="any")')]),
    ("no-rows-drop", "C14", "bug", [(F, ').dropna(axis=0, how="all")\n        ret._meta', ')\n        ret._meta')]),
    ("drop-order", "C14", "same", [(F, DROP, '        ret._data = d.dropna(axis=0, how="all").dropna(axis=1, how="all")\n')]),
    ("meta-keepcols", "C14", "bug", [(F, META, "        ret._meta = ret._meta[_keep_cols if keep else ~_keep_cols]\n")]),
    ("meta-any", "C14", "same", [(F, META, "        ret._meta = ret._meta[d.notna().any(axis=0)]\n")]),
    ("meta-all", "C14", "bug", [(F, META, "        ret._meta = ret._meta[d.notna().all(axis=0)]\n")]),
    ("meta-loc", "C14", "same", [(F, META, "        ret._meta = ret._meta.loc[ret._data.columns]\n")]),
    ("no-time", "C14", "bug", [(F, TIME, "")]),
    ("time-direct", "C14", "same", [(F, TIME, "        ret._time_points = TimePoints(ret._data.index.values)\n")]),
    ("where-neg", "C14", "same", [(F, KEEP, ""), (F, WH, "        if keep:\n            d = ret._data.where(idx)\n        else:\n            d = ret._data.mask(idx)\n")]),
    ("has-nan-lost", "C14", "bug", [(F, "self._apply_filters(kwargs, has_nan)", "self._apply_filters(kwargs)")]),
    ("return-inplace", "C14", "bug", [(F, "        if not inplace:\n            return ret\n\n        return None\n\n    # pylint", "        return ret\n\n    # pylint")]),
    ("outer-transposed", "C14", "same", [(F, IDX, "idx = _keep_cols & _keep_ts[:, np.newaxis]")]),
    ("helper", "C14", "same", [(F, IDX, "idx = self._index_of(_keep_ts, _keep_cols)"), (F, "    def _day_match(self, values):", "    @staticmethod\n    def _index_of(times, columns):\n        return times[:, np.newaxis] & columns[np.newaxis, :]\n\n    def _day_match(self, values):")]),
    ("shallow", "C14", "same", [(F, "        return copy.deepcopy(self)\n", "        return copy.copy(self)\n")]),
    # which part
    ("level-ignored", "C14", "bug", [(F, 'level = filters["level"] if "level" in filters else None', "level = None")]),
    ("level-get", "C14", "same", [(F, 'level = filters["level"] if "level" in filters else None', 'level = filters.get("level")')]),
    ("year-last", "C14", "bug", [(F, "keep_ts &= years_match(", "keep_ts = years_match(")]),
    ("month-or", "C14", "bug", [(F, "keep_ts &= month_match(", "keep_ts |= month_match(")]),
    ("month-last", "C14", "bug", [(F, "keep_ts &= month_match(", "keep_ts = month_match(")]),
    ("hour-days", "C14", "bug", [(F, "hour_match(self._time_points.hours(), values)", "hour_match(self._time_points.days(), values)")]),
    ("meta-last", "C14", "bug", [(F, """            elif col in self.meta.columns:
                keep_meta &= pattern_match(""", """            elif col in self.meta.columns:
                keep_meta = pattern_match(""")]),
    ("regexp-lost", "C14", "bug", [(F, """                    self.meta[col],
                    values,
                    regexp=regexp,
                    has_nan=has_nan,""", """                    self.meta[col],
                    values,
                    has_nan=has_nan,""")]),
    ("nan-lost", "C14", "bug", [(F, """                    values,
                    regexp=regexp,
                    has_nan=has_nan,
                    separator=self.data_hierarchy_separator,
                ).values
            elif col == "year\"""", """                    values,
                    regexp=regexp,
                    separator=self.data_hierarchy_separator,
                ).values
            elif col == "year\"""")]),
    ("unknown-ignored", "C14", "bug", [(F, '                raise ValueError("filter by `{}` not supported".format(col))', "                continue")]),
    ("weekday-first", "C14", "bug", [(F, "        elif isinstance(values, list) and values and isinstance(values[0], str):", "        elif isinstance(values, list) and len(values) > 1 and isinstance(values[0], str):")]),
    ("level-alone-pattern", "C14", "bug", [(F, '                        "*",\n                        values,', '                        "*|*",\n                        values,')]),
    ("level-after-variable", "C14", "bug", [(F, 'if "variable" not in filters.keys():', 'if True:')]),
    ("level-noif", "C14", "same", [(F, 'if "variable" not in filters.keys():', 'if "variable" not in filters:')]),
    ("meta-raw", "C14", "same", [(F, "elif col in self.meta.columns:", "elif col in self._meta.columns:")]),
    ("ones", "C14", "same", [(F, "keep_ts = np.array([True] * len(self._data))", "keep_ts = np.ones(len(self._data), dtype=bool)")]),
    ("ones2", "C14", "same", [(F, "keep_meta = np.array([True] * len(self.meta))", "keep_meta = np.array([True] * self._meta.shape[0])")]),
    ("full", "C14", "same", [(F, "keep_meta = np.array([True] * len(self.meta))", "keep_meta = np.full(len(self._meta), True)")]),
    ("pop-default", "C14", "bug", [(F, 'regexp = filters.pop("regexp", False)', 'regexp = filters.pop("regexp", True)')]),
    ("loop-match", "C14", "same", [(F, "                keep_ts &= years_match(self._time_points.years(), values)", "                matched = years_match(self._time_points.years(), values)\n                keep_ts = keep_ts & matched")]),
    ("and-func", "C14", "same", [(F, "keep_ts &= datetime_match(self._time_points.values, values)", "keep_ts = np.logical_and(keep_ts, datetime_match(self._time_points.values, values))")]),
    ("day-any", "C14", "same", [(F, """        if isinstance(values, str):
            wday = True
        elif isinstance(values, list) and values and isinstance(values[0], str):
            wday = True
        else:
            wday = False

        if wday:""", """        first = values[0] if isinstance(values, list) and values else values
        if isinstance(first, str):""")]),
    ("handlers", "C14", "same", [(F, """            elif col == "hour":
                keep_ts &= hour_match(self._time_points.hours(), values)

            elif col == "time":""", """            elif col == "time":"""), (F, """            elif col == "year":
""", """            elif col == "hour":
                keep_ts &= hour_match(self._time_points.hours(), values)

            elif col == "year":
""")]),
]
