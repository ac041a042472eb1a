W = "core/views.py"
CASES = [
    ("stale-handle-write", "C05", "bug", [(W, "        self._parameter_view._check_write()\n        self.__read__()\n", "        self._parameter_view._check_write()\n")]),
    ("out-no-read", "C05", "bug", [(W, "                    i.__read__()\n", "")]),
    ("no-copy", "C05", "bug", [(W, "self._data = np.asarray(v).copy()", "self._data = np.asarray(v)")]),
    ("no-version-sync", "C05", "bug", [(W, "            self._parameter.version += 1\n            self._version = self._parameter.version\n", "            self._parameter.version += 1\n")]),
    ("version-before", "C05", "bug", [(W, "            self._parameter.version += 1\n            self._version = self._parameter.version\n", "            self._version = self._parameter.version\n            self._parameter.version += 1\n")]),
    ("pending-kept", "C05", "bug", [(W, "        self._pending = self._locked\n", "        self._pending = self._pending or self._locked\n")]),
    ("unlock-always", "C05", "bug", [(W, "        if self._pending:\n            self._write()", "        if self._data is not None:\n            self._write()")]),
    ("unlock-never-version", "C05", "bug", [(W, "        self._locked = False\n        if self._pending:", "        if self._pending:")]),
    ("pending-read", "C05", "bug", [(W, "elif not self._pending and (", "elif (")]),
    ("no-update", "C05", "bug", [(W, "            self._update_data(self._get_values())\n            self._version", "            self._version")]),
    ("rebind", "C05", "bug", [(W, "            self._update_data(self._get_values())\n", "            self._data = self._get_values()\n")]),
    ("rebind-write", "C05", "bug", [(W, "            self._update_data(np.asarray(v))\n", "            self._data = np.array(v)\n")]),
    ("len-check", "C05", "bug", [(W, "and len(v) != self._timeseries_converter.target_length", "and len(v) > self._timeseries_converter.target_length")]),
    ("conv-order", "C05", "bug", [(W, "self._timeseries_converter.convert_to(\n                self._unit_converter.convert_to(self._data)", "self._timeseries_converter.convert_to(\n                self._unit_converter.convert_from(self._data)")]),
    ("times-swapped", "C05", "bug", [(W, "            parameter.time_points,\n            time_points,\n", "            time_points,\n            parameter.time_points,\n")]),
    ("getitem-no-read", "C05", "bug", [(W, "    def __getitem__(self, item):\n        self.__read__()\n", "    def __getitem__(self, item):\n")]),
    ("array-no-read", "C05", "bug", [(W, "    def __array__(self, dtype=None):\n        self.__read__()\n", "    def __array__(self, dtype=None):\n")]),
    ("iter-no-read", "C05", "bug", [(W, "    def __iter__(self):\n        self.__read__()\n", "    def __iter__(self):\n")]),
    ("arith-other", "C05", "bug", [(W, "            self.__read__()\n            if isinstance(other, cls):", "            if isinstance(other, cls):")]),
    ("slice-copy", "C05", "bug", [(W, "result = self._ndarray[item]", "result = self._ndarray[item].copy() if isinstance(item, slice) else self._ndarray[item]")]),
    ("ufunc-input-no-read", "C05", "bug", [(W, "i.__read__()._ndarray if isinstance(i, type(self)) else i for i in inputs", "i._ndarray if isinstance(i, type(self)) else i for i in inputs")]),
    ("version-by-two", "C05", "bug", [(W, "            self._parameter.version += 1\n            self._version", "            self._parameter.version += 2\n            self._version")]),
    ("alias-same-tps", "C05", "bug", [(W, "            self._parameter.data = self._timeseries_converter.convert_to(\n                self._unit_converter.convert_to(self._data)\n            )", "            self._parameter.data = self._data if self._unit_converter.source == self._unit_converter.target else self._timeseries_converter.convert_to(\n                self._unit_converter.convert_to(self._data)\n            )")]),
    ("read-clears-pending", "C05", "bug", [(W, "    def values(self) -> _Timeseries:", "    def values(self) -> _Timeseries:"), (W, "        self._read()\n        if self._timeseries is None:", "        self._read()\n        self._pending = False\n        if self._timeseries is None:")]),
    # behaviour kept
    ("r-sync-helper", "C05", "same", [(W, "            self._parameter.version += 1\n            self._version = self._parameter.version\n", "            self._parameter.version += 1\n            self._mark()\n"), (W, "    def _check_write(self):", "    def _mark(self):\n        self._version = self._parameter.version\n\n    def _check_write(self):")]),
    ("r-read-early-return", "C05", "same", [(W, "        elif not self._pending and (\n            self._parameter.children  # child parameters have their own versions\n            or self._version != self._parameter.version\n        ):\n            self._update_data(self._get_values())\n            self._version = self._parameter.version\n",
      "            return\n        if self._pending:\n            return\n        stale = self._parameter.children or self._version != self._parameter.version\n        if not stale:\n            return\n        new = self._get_values()\n        self._update_data(new)\n        self._version = self._parameter.version\n")]),
    ("r-inplace", "C05", "same", [(W, "            np.copyto(self._data, values)", "            self._data[:] = values")]),
    ("r-write-locals", "C05", "same", [(W, "            self._parameter.data = self._timeseries_converter.convert_to(\n                self._unit_converter.convert_to(self._data)\n            )\n            self._parameter.version += 1\n            self._version = self._parameter.version\n",
      "            p = self._parameter\n            own = self._unit_converter.convert_to(self._data)\n            p.data = self._timeseries_converter.convert_to(own)\n            p.version = p.version + 1\n            self._version = p.version\n")]),
    ("r-np-array", "C05", "same", [(W, "self._data = np.asarray(v).copy()", "self._data = np.array(v, copy=True)")]),
    ("r-version-init", "C05", "same", [(W, "        self._data = None\n        self._locked = False", "        self._data = None\n        self._version = -1\n        self._locked = False")]),
    ("r-iter", "C05", "same", [(W, "        for i in self._ndarray:\n            yield i", "        yield from self._ndarray")]),
    ("r-iter2", "C05", "same", [(W, "        for i in self._ndarray:\n            yield i", "        return iter(self._ndarray)")]),
    ("r-ufunc-loop", "C05", "same", [(W, "        args = [\n            i.__read__()._ndarray if isinstance(i, type(self)) else i for i in inputs\n        ]\n", "        args = []\n        for i in inputs:\n            if isinstance(i, type(self)):\n                i.__read__()\n                i = i._ndarray\n            args.append(i)\n")]),
    ("r-lock-flag-rename", "C05", "same", [(W, "        self._pending = self._locked\n        if not self._locked:", "        locked = self._locked\n        self._pending = locked\n        if not locked:")]),
]
