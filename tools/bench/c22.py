F = "scmdataframe/base.py"
TS = """        d = self._data.copy()
        meta_subset = self._meta if meta is None else self._meta[meta]
        if meta_subset.duplicated().any():
            raise ValueError("Duplicated meta values")

        d.columns = pd.MultiIndex.from_arrays(
            meta_subset.values.T, names=meta_subset.columns
        )

        return d.T
"""
GRP = """        group_cols = list(set(ts.index.names) - set(cols))
"""
FILL = """        ts.index = pd.MultiIndex.from_frame(ts.index.to_frame().fillna(_NA_FILL_VALUE))
"""
BACK = """        if (group_index == _NA_FILL_VALUE).any(axis=None):
            res = res.set_index(
                [
                    group_index[c].replace(to_replace=_NA_FILL_VALUE, value=np.nan)
                    for c in group_index
                ]
            )
        return res
"""
OPS = """        if operation == "median":
            res = grouper.median(**kwargs)
        elif operation == "mean":
            res = grouper.mean(**kwargs)
        elif operation == "quantile":
            res = grouper.quantile(**kwargs)
        else:
            raise ValueError("operation must be one of ['median', 'mean', 'quantile']")
"""
REF = """        ref_period_mean = (
            self.filter(**kwargs)._data.mean()  # type: ignore # pylint: disable=protected-access
        )
"""
SUB = """        res = ts.sub(ref_period_mean.reindex(self._data.columns).values, axis="rows")
        res.reset_index(inplace=True)
"""
VAR = """        res["variable"] = res["variable"].apply(lambda x: "{} {}".format(x, append_str))

        return res.set_index(ts.index.names)
"""
CASES = [
    ("ts-nocopy-dup", "C22", "bug", [(F, "        d = self._data.copy()\n        meta_subset", "        d = self._data\n        meta_subset")]),
    ("ts-all-dup", "C22", "bug", [(F, "        if meta_subset.duplicated().any():\n            raise ValueError(\"Duplicated meta values\")\n", "        if self._meta.duplicated().any():\n            raise ValueError(\"Duplicated meta values\")\n")]),
    ("ts-dup-all", "C22", "bug", [(F, "meta_subset.duplicated().any()", "meta_subset.duplicated().all()")]),
    ("nofill", "C22", "bug", [(F, FILL, "")]),
    ("noback", "C22", "bug", [(F, BACK, "        return res\n")]),
    ("back-first", "C22", "bug", [(F, "        if (group_index == _NA_FILL_VALUE).any(axis=None):", "        if (group_index[group_cols[:1]] == _NA_FILL_VALUE).any(axis=None):")]),
    ("group-extra", "C22", "bug", [(F, GRP, "        group_cols = list(set(REQUIRED_COLS) - set(cols))\n")]),
    ("group-cols", "C22", "bug", [(F, GRP, "        group_cols = list(set(ts.index.names) - set(cols) - {\"unit\"})\n")]),
    ("median-mean", "C22", "bug", [(F, "            res = grouper.median(**kwargs)", "            res = grouper.mean(**kwargs)")]),
    ("quantile-kw", "C22", "bug", [(F, "            res = grouper.quantile(**kwargs)", "            res = grouper.quantile()")]),
    ("ref-all", "C22", "bug", [(F, REF, "        ref_period_mean = self._data.mean()\n")]),
    ("ref-keep", "C22", "bug", [(F, "            self.filter(**kwargs)._data.mean()", "            self.filter(keep=False, **kwargs)._data.mean()")]),
    ("ref-noreindex", "C22", "bug", [(F, "ref_period_mean.reindex(self._data.columns).values", "ref_period_mean.values")]),
    ("ref-data", "C22", "bug", [(F, "            self.filter(**kwargs)._data.mean()", "            self._data.loc[self.filter(**kwargs)._data.index].mean()")]),
    ("ref-swap", "C22", "bug", [(F, "\"{}: {} - {}\".format(k, v[0], v[-1])", "\"{}: {} - {}\".format(k, v[-1], v[0])")]),
    ("ref-strip", "C22", "bug", [(F, "lambda x: \"{} {}\".format(x, append_str)", "lambda x: \"{}{}\".format(x, append_str)")]),
    ("ref-ignore", "C22", "bug", [(F, "        if append_str is None:\n            append_str = \";\"", "        if True:\n            append_str = \";\"")]),
    ("ts-assign", "C22", "refactor", [(F, TS, TS.replace("        d = self._data.copy()\n", "").replace("        d.columns", "        d = self._data.copy()\n        d.columns"))]),
    ("ts-if", "C22", "refactor", [(F, "        meta_subset = self._meta if meta is None else self._meta[meta]\n", "        if meta is None:\n            meta_subset = self._meta\n        else:\n            meta_subset = self._meta[meta]\n")]),
    ("ts-from-frame", "C22", "refactor", [(F, "pd.MultiIndex.from_arrays(\n            meta_subset.values.T, names=meta_subset.columns\n        )", "pd.MultiIndex.from_frame(meta_subset)")]),
    ("grp-comp", "C22", "refactor", [(F, GRP, "        group_cols = [c for c in ts.index.names if c not in cols]\n")]),
    ("grp-loop", "C22", "refactor", [(F, GRP, "        group_cols = []\n        for c in ts.index.names:\n            if c in cols:\n                continue\n            group_cols.append(c)\n")]),
    ("op-getattr", "C22", "refactor", [(F, OPS, "        if operation not in (\"median\", \"mean\", \"quantile\"):\n            raise ValueError(\"operation must be one of ['median', 'mean', 'quantile']\")\n        res = getattr(grouper, operation)(**kwargs)\n")]),
    ("op-dict", "C22", "refactor", [(F, OPS, "        operations = {\"median\": grouper.median, \"mean\": grouper.mean, \"quantile\": grouper.quantile}\n        if operation not in operations:\n            raise ValueError(\"operation must be one of ['median', 'mean', 'quantile']\")\n        res = operations[operation](**kwargs)\n")]),
    ("back-always", "C22", "refactor", [(F, BACK, "        return res.set_index(\n            [\n                group_index[c].replace(to_replace=_NA_FILL_VALUE, value=np.nan)\n                for c in group_index\n            ]\n        )\n")]),
    ("back-frame", "C22", "refactor", [(F, BACK, "        res.index = pd.MultiIndex.from_frame(group_index.replace(to_replace=_NA_FILL_VALUE, value=np.nan))\n        return res\n")]),
    ("fill-helper", "C22", "refactor", [(F, FILL, "        ts.index = _fill_index(ts.index)\n"), (F, "def _format_long_data(df):", "def _fill_index(index):\n    frame = index.to_frame()\n    return pd.MultiIndex.from_frame(frame.fillna(_NA_FILL_VALUE))\n\n\ndef _format_long_data(df):")]),
    ("level", "C22", "refactor", [(F, "        grouper = ts.groupby(group_cols)", "        grouper = ts.groupby(level=group_cols)")]),
    ("ref-split", "C22", "refactor", [(F, REF, "        reference = self.filter(**kwargs)\n        ref_period_mean = reference._data.mean()\n")]),
    ("ref-subtract", "C22", "refactor", [(F, SUB, "        means = ref_period_mean.reindex(self._data.columns)\n        res = ts.subtract(means.values, axis=\"index\").reset_index()\n")]),
    ("ref-order", "C22", "refactor", [(F, "        ts = self.timeseries()\n        # mypy confused by `inplace` default\n" + REF, REF + "        ts = self.timeseries()\n")]),
    ("ref-suffix", "C22", "refactor", [(F, VAR, "        suffix = \" \" + append_str\n        res[\"variable\"] = [v + suffix for v in res[\"variable\"]]\n\n        return res.set_index(ts.index.names)\n")]),
    ("ref-loop", "C22", "refactor", [(F, "            append_str = \";\".join(\n                [\"{}: {} - {}\".format(k, v[0], v[-1]) for k, v in kwargs.items()]\n            )\n", "            parts = []\n            for k in kwargs:\n                v = kwargs[k]\n                parts.append(\"{}: {} - {}\".format(k, v[0], v[-1]))\n            append_str = \";\".join(parts)\n")]),
]
