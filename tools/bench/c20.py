F = "scmdataframe/base.py"
REN = """            meta[col] = meta[col].replace(_mapping)
            if meta.duplicated().any():
                raise ValueError("Renaming to non-unique metadata for {}!".format(col))
"""
CASES = [
    ("dup-none", "C20", "bug", [(F, "            if meta.duplicated().any():\n                raise ValueError(\"Renaming", "            if False:\n                raise ValueError(\"Renaming")]),
    ("dup-unit", "C20", "bug", [(F, "            if meta.duplicated().any():\n                raise ValueError(\"Renaming", "            if meta.drop(\"unit\", axis=1).duplicated().any():\n                raise ValueError(\"Renaming")]),
    ("dup-col", "C20", "bug", [(F, "            if meta.duplicated().any():\n                raise ValueError(\"Renaming", "            if col in [\"model\", \"scenario\"] and meta.duplicated().any():\n                raise ValueError(\"Renaming")]),
    ("dup-after", "C20", "same", [(F, REN, "            meta[col] = meta[col].replace(_mapping)\n        if meta.duplicated().any():\n            raise ValueError(\"Renaming to non-unique metadata!\")\n")]),
    ("own-meta", "C20", "bug", [(F, "        meta = self.meta\n        for col, _mapping", "        meta = self._meta\n        for col, _mapping")]),
    ("all-columns", "C20", "bug", [(F, REN, REN.replace("meta[col] = meta[col].replace(_mapping)", "meta = meta.replace(_mapping)"))]),
    ("unknown-skip", "C20", "bug", [(F, '                raise ValueError("Renaming by {} not supported!".format(col))', "                continue")]),
    ("no-copy", "C20", "bug", [(F, "ret = copy.deepcopy(self) if not inplace else self", "ret = self")]),
    ("copy-always", "C20", "bug", [(F, "ret = copy.deepcopy(self) if not inplace else self", "ret = copy.deepcopy(self)")]),
    ("map", "C20", "bug", [(F, "meta[col].replace(_mapping)", "meta[col].map(_mapping)")]),
    ("apply-get", "C20", "same", [(F, "meta[col].replace(_mapping)", "meta[col].apply(lambda x: _mapping.get(x, x))")]),
    ("comp-get", "C20", "same", [(F, "meta[col].replace(_mapping)", "[_mapping.get(x, x) for x in meta[col]]")]),
    ("copy-method", "C20", "same", [(F, "ret = copy.deepcopy(self) if not inplace else self", "ret = self if inplace else self.copy()")]),
    ("shallow", "C20", "bug", [(F, "        return copy.deepcopy(self)\n", "        return copy.copy(self)\n")]),
    ("meta-ref", "C20", "bug", [(F, "        return self._meta.copy()\n", "        return self._meta\n")]),
    ("ctor-ref-data", "C20", "same", [(F, "                data._data.copy(),  # pylint", "                data._data,  # pylint")]),
    ("ctor-ref-meta", "C20", "same", [(F, "                data._meta.copy(),  # pylint", "                data._meta,  # pylint")]),
    ("time-index-only", "C20", "bug", [(F, "            self._time_points = TimePoints(value)\n", "")]),
    ("time-points-only", "C20", "bug", [(F, "            self._data.index = self._time_points.to_index()\n            return value", "            return value")]),
    ("setmeta-str", "C20", "bug", [(F, "            self._meta[name] = meta\n            return\n", "            self._meta[name] = [str(m) for m in meta] if isinstance(meta, list) else str(meta)\n            return\n")]),
    ("setmeta-existing", "C20", "bug", [(F, "            self._meta[name] = meta\n            return\n", "            if name not in self._meta:\n                self._meta[name] = meta\n            return\n")]),
    ("setmeta-assign", "C20", "same", [(F, "            self._meta[name] = meta\n            return\n", "            self._meta = self._meta.assign(**{name: meta})\n            return\n")]),
    ("name-none", "C20", "bug", [(F, '            raise ValueError("Must pass a name or use a named pd.Series")', '            name = "meta"')]),
    ("sort-drop", "C20", "bug", [(F, "REQUIRED_COLS + sorted(list(set(self._meta.columns) - set(REQUIRED_COLS)))", "REQUIRED_COLS + sorted(list(set(self._meta.columns) - set(REQUIRED_COLS)))[:1]")]),
    ("sort-drop-some", "C20", "bug", [(F, "        self._meta = self._meta[\n            REQUIRED_COLS + sorted(list(set(self._meta.columns) - set(REQUIRED_COLS)))\n        ]", "        self._meta = self._meta[REQUIRED_COLS]")]),
    # set_meta with an index
    ("x-no-dup", "C20", "bug", [(F, """        if meta.index.duplicated().any():
            raise ValueError("index contains duplicates")
""", "")]),
    ("x-absent", "C20", "bug", [(F, """        if len(set(positions) - {-1}) != len(meta):
            raise ValueError("index contains entries without timeseries")
""", "")]),
    ("x-count", "C20", "bug", [(F, "if len(set(positions) - {-1}) != len(meta):", "if len(positions) < len(meta):")]),
    ("x-old-lost", "C20", "bug", [(F, "old = self._meta[name] if name in self._meta else [np.nan] * len(self._meta)", "old = [np.nan] * len(self._meta)")]),
    ("x-all", "C20", "bug", [(F, "[o if pos == -1 else meta.iloc[pos] for pos, o in zip(positions, old)]", "[meta.iloc[pos] for pos, o in zip(positions, old)]")]),
    ("x-swap", "C20", "bug", [(F, "[o if pos == -1 else meta.iloc[pos] for pos, o in zip(positions, old)]", "[o if pos < 1 else meta.iloc[pos] for pos, o in zip(positions, old)]")]),
    ("x-one-level", "C20", "bug", [(F, "own_index = pd.MultiIndex.from_frame(self._meta[list(index.names)])", "own_index = pd.MultiIndex.from_frame(self._meta[sorted(index.names)])")]),
    ("x-first", "C20", "bug", [(F, "else meta.iloc[pos] for", "else meta.iloc[0] for")]),
    ("x-rename", "C20", "bug", [(F, "index.columns.intersection(self._meta.columns).to_list()", "index.columns.intersection(self._meta.columns).to_list()[:1]")]),
    ("x-where", "C20", "same", [(F, "[o if pos == -1 else meta.iloc[pos] for pos, o in zip(positions, old)]", "[meta.iloc[pos] if pos >= 0 else o for pos, o in zip(positions, old)]")]),
    ("x-values", "C20", "same", [(F, "[o if pos == -1 else meta.iloc[pos] for pos, o in zip(positions, old)]", "[o if pos == -1 else meta.values[pos] for pos, o in zip(positions, old)]")]),
    ("x-unique", "C20", "same", [(F, "if meta.index.duplicated().any():", "if not meta.index.is_unique:")]),
    ("x-diff", "C20", "same", [(F, "len(set(positions) - {-1}) != len(meta)", "len(set(positions).difference([-1])) < len(index)")]),
    ("x-loop", "C20", "same", [(F, """        self._meta[name] = pd.Series(
            [o if pos == -1 else meta.iloc[pos] for pos, o in zip(positions, old)],
            index=self._meta.index,
        )
""", """        new = []
        for pos, o in zip(positions, old):
            new.append(o if pos == -1 else meta.iloc[pos])
        self._meta[name] = pd.Series(new, index=self._meta.index)
""")]),
    ("x-list", "C20", "same", [(F, """        self._meta[name] = pd.Series(
            [o if pos == -1 else meta.iloc[pos] for pos, o in zip(positions, old)],
            index=self._meta.index,
        )
""", """        self._meta[name] = [
            o if pos == -1 else meta.iloc[pos] for pos, o in zip(positions, old)
        ]
""")]),
    ("x-cols", "C20", "same", [(F, """            index = index.set_index(
                index.columns.intersection(self._meta.columns).to_list()
            ).index
""", """            keys = [c for c in index.columns if c in self._meta.columns]
            index = index.set_index(keys).index
""")]),
]
