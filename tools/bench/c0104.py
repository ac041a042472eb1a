P = "core/parameters.py"
R = "core/regions.py"
S = "core/parameterset.py"
V = "core/views.py"
CHILD = """        res = self.children.get(name, None)
        if res is None:
            if self.has_been_written_to:
                raise ParameterWrittenError
"""
SPLITP = "        if isinstance(name, str):\n            name = name.split(HIERARCHY_SEPARATOR)\n\n        if len(name) > 1:\n            p = self._get_or_create_parameter(name[:-1], region)\n            return p.get_or_create_child_parameter(name[-1])\n"
ANC = """            ancestor: Optional["_Parameter"] = self
            while ancestor is not None:
                # views of any ancestor already aggregate over this branch
                if ancestor.has_been_read_from:
                    raise ParameterReadError
                ancestor = ancestor.parent
"""
FULLP = """        p: Optional["_Parameter"] = self
        r = []
        while p is not None:
            r.append(p.name)
            p = p.parent
        return tuple(reversed(r))
"""
SAME = [
    ("full-name-insert", ["C01"], [(P, FULLP, """        r = []
        p: Optional["_Parameter"] = self
        while p is not None:
            r.insert(0, p.name)
            p = p.parent
        return tuple(r)
""")]),
    ("full-name-slice", ["C01"], [(P, FULLP, FULLP.replace("tuple(reversed(r))", "tuple(r[::-1])"))]),
    ("full-name-rec", ["C01"], [(P, FULLP, """        if self.parent is None:
            return (self.name,)
        return self.parent.full_name + (self.name,)
""")]),
    ("child-in", ["C01", "C02"], [(P, "        res = self.children.get(name, None)\n        if res is None:\n            if self.has_been", "        if name in self.children:\n            return self.children[name]\n        res = None\n        if res is None:\n            if self.has_been")]),
    ("child-order", ["C01", "C02"], [(P, "            res.parent = self\n            self.children[name] = res\n", "            self.children[name] = res\n            res.parent = self\n")]),
    ("anc-helper", ["C01", "C02"], [(P, ANC, "            if self._read_above():\n                raise ParameterReadError\n"), (P, "    def get_subparameter(", """    def _read_above(self) -> bool:
        ancestor: Optional["_Parameter"] = self
        while ancestor is not None:
            if ancestor.has_been_read_from:
                return True
            ancestor = ancestor.parent
        return False

    def get_subparameter(""")]),
    ("set-loop", ["C01", "C02"], [(S, SPLITP, """        if isinstance(name, str):
            name = name.split(HIERARCHY_SEPARATOR)

        if len(name) > 1:
            *first, last = name
            p = self._get_or_create_parameter(first, region)
            return p.get_or_create_child_parameter(last)
""")]),
    ("set-iter", ["C01", "C02"], [(S, SPLITP, """        if isinstance(name, str):
            name = name.split(HIERARCHY_SEPARATOR)

        if len(name) > 1:
            res = region.get_or_create_parameter(name[0])
            for part in name[1:]:
                res = res.get_or_create_child_parameter(part)
            return res
""")]),
    ("split-helper", ["C01", "C02"], [(S, SPLITP, SPLITP.replace("        if isinstance(name, str):\n            name = name.split(HIERARCHY_SEPARATOR)\n", "        name = _parts(name)\n")), (S, "class ParameterSet:", '''def _parts(name):
    """
    Parts of a hierarchical name.
    """
    return name.split(HIERARCHY_SEPARATOR) if isinstance(name, str) else name


class ParameterSet:''')]),
    ("scalar-vars", ["C01", "C02"], [(S, """        parameter = self._get_or_create_parameter(
            name, self._get_or_create_region(region)
        )

        parameter.attempt_read(ParameterType.SCALAR, unit)
""", """        region_ = self._get_or_create_region(region)
        parameter = self._get_or_create_parameter(name, region_)
        parameter.attempt_read(parameter_type=ParameterType.SCALAR, unit=unit)
""")]),
    ("info-early", ["C01"], [(S, """        if region_ is not None:
            parameter = region_.get_parameter(name)
            if parameter is not None:
                return ParameterInfo(parameter)
        return None
""", """        if region_ is None:
            return None
        parameter = region_.get_parameter(name)
        return None if parameter is None else ParameterInfo(parameter)
""")]),
    ("subregion-loop", ["C01"], [(R, """        if name:
            if isinstance(name, str):
                name = name.split(parameters.HIERARCHY_SEPARATOR)
            res = self._children.get(name[0], None)
            if res is not None:
                return res.get_subregion(name[1:])
            return None

        return self
""", """        if not name:
            return self
        if isinstance(name, str):
            name = name.split(parameters.HIERARCHY_SEPARATOR)
        child = self._children.get(name[0])
        return None if child is None else child.get_subregion(name[1:])
""")]),
    ("subparam", ["C01"], [(P, """            res = self.children.get(name[0], None)
            if res is not None:
                res = res.get_subparameter(name[1:])
            return res

        return self
""", """            if name[0] not in self.children:
                return None
            return self.children[name[0]].get_subparameter(name[1:])
        return self
""")]),
    ("read-order", ["C02"], [(P, "            self.unit = unit\n            self.parameter_type = parameter_type\n", "            self.parameter_type = parameter_type\n            self.unit = unit\n")]),
    ("read-else", ["C02"], [(P, """        if self.parameter_type is not None and self.parameter_type != parameter_type:
            raise ParameterTypeError
        if self.parameter_type is None:
""", """        if self.parameter_type is not None:
            if self.parameter_type != parameter_type:
                raise ParameterTypeError
        else:
""")]),
    ("read-helper", ["C02"], [(P, """                self.data = np.full(
                    (
                        (len(time_points) - 1)  # type: ignore
                        if parameter_type == ParameterType.AVERAGE_TIMESERIES
                        else len(time_points)  # type: ignore
                    ),
                    float("NaN"),
                )
""", """                length = len(time_points)  # type: ignore
                if parameter_type == ParameterType.AVERAGE_TIMESERIES:
                    length -= 1
                self.data = np.full(length, float("NaN"))
""")]),
    ("write-check", ["C02", "C03"], [(P, "        if self.children:\n            raise ParameterReadonlyError\n        self.attempt_read(parameter_type, unit, time_points)\n", "        if len(self.children) > 0:\n            raise ParameterReadonlyError\n        self.attempt_read(\n            parameter_type=parameter_type, unit=unit, time_points=time_points\n        )\n")]),
    ("region-full", ["C01"], [(R, """        while p._parent is not None:
            r.append(p.name)
            p = p._parent
        r.append(p.name)
""", """        r.append(p.name)
        while p._parent is not None:
            p = p._parent
            r.append(p.name)
"""), ]),
    ("scalar-sum-loop", ["C04", "C03"], [(V, "            return sum(v.value for v in self._child_data_views)\n", "            total = 0\n            for v in self._child_data_views:\n                total += v.value\n            return total\n")]),
    ("scalar-sum-list", ["C04", "C03"], [(V, "            return sum(v.value for v in self._child_data_views)\n", "            return sum([v.value for v in self._child_data_views])\n")]),
    ("leaves-loop", ["C04", "C03"], [(V, """            if parameter.children:
                return sum(
                    (
                        get_data_views_for_children_or_parameter(p)
                        for p in parameter.children.values()
                    ),
                    [],
                )
            if parameter.parameter_type != ParameterType.SCALAR:""", """            if parameter.children:
                views = []
                for p in parameter.children.values():
                    views.extend(get_data_views_for_children_or_parameter(p))
                return views
            if parameter.parameter_type != ParameterType.SCALAR:""")]),
    ("leaves-comp", ["C04", "C03"], [(V, """            if parameter.children:
                return sum(
                    (
                        get_data_views_for_children_or_parameter(p)
                        for p in parameter.children.values()
                    ),
                    [],
                )
            if parameter.parameter_type != ParameterType.SCALAR:""", """            if parameter.children:
                return [
                    v
                    for p in parameter.children.values()
                    for v in get_data_views_for_children_or_parameter(p)
                ]
            if parameter.parameter_type != ParameterType.SCALAR:""")]),
    ("scalar-read-order", ["C03", "C04"], [(V, """        if self._parameter.children:
            return sum(v.value for v in self._child_data_views)
        if self.empty:
            raise ParameterEmptyError

        return self._unit_converter.convert_from(cast(float, self._parameter.data))
""", """        if not self._parameter.children:
            if self.empty:
                raise ParameterEmptyError
            return self._unit_converter.convert_from(self._parameter.data)
        return sum(v.value for v in self._child_data_views)
""")]),
    ("scalar-write-helper", ["C02", "C03"], [(V, """        if not self._writable:
            self._parameter.attempt_write(
                ParameterType.SCALAR, self._unit_converter.target
            )
            self._writable = True
        self._parameter.data = self._unit_converter.convert_to(v)
""", """        self._ensure_writable()
        self._parameter.data = self._unit_converter.convert_to(v)
"""), (V, """    @property
    def value(self) -> float:
""", """    def _ensure_writable(self) -> None:
        if self._writable:
            return
        self._parameter.attempt_write(ParameterType.SCALAR, self._unit_converter.target)
        self._writable = True

    @property
    def value(self) -> float:
""")]),
    ("version-assign", ["C02", "C03"], [(V, "        self._parameter.data = self._unit_converter.convert_to(v)\n        self._parameter.version += 1\n", "        parameter = self._parameter\n        parameter.data = self._unit_converter.convert_to(v)\n        parameter.version = parameter.version + 1\n")]),
    ("ts-sum", ["C04"], [(V, "            return cast(\n                Sequence[float], sum((v.values for v in self._child_data_views))\n            )\n", "            return sum(v.values for v in self._child_data_views)\n")]),
    ("ts-target-var", ["C04"], [(V, """            return [
                TimeseriesView(
                    parameter,
                    self._unit_converter.target,
                    self._timeseries_converter._target,  # pylint: disable=protected-access
                    timeseries_type,
                    interpolation_type,
                    extrapolation_type,
                )
            ]
""", """            target = self._timeseries_converter._target
            view = TimeseriesView(
                parameter,
                self.unit,
                target,
                timeseries_type,
                interpolation_type,
                extrapolation_type,
            )
            return [view]
""")]),
    ("ts-read", ["C04"], [(V, """        if self._data is None:
            self._data = self._get_values()
            self._version = self._parameter.version
        elif not self._pending and (
            self._parameter.children  # child parameters have their own versions
            or self._version != self._parameter.version
        ):
            self._update_data(self._get_values())
            self._version = self._parameter.version
""", """        if self._data is None:
            self._data = self._get_values()
            self._version = self._parameter.version
            return
        if self._pending:
            return
        if self._parameter.children or self._version != self._parameter.version:
            self._update_data(self._get_values())
            self._version = self._parameter.version
""")]),
]
BUGS = [
    ("anc-only-self", "C02", [(P, ANC, "            if self.has_been_read_from:\n                raise ParameterReadError\n")]),
    ("written-unchecked", "C02", [(P, "            if self.has_been_written_to:\n                raise ParameterWrittenError\n", "")]),
    ("create-before-check", "C02", [(P, CHILD, CHILD + "            self.children[name] = _Parameter(name, self.region)\n")]),
    ("type-change", "C02", [(P, "        if self.parameter_type is not None and self.parameter_type != parameter_type:\n            raise ParameterTypeError\n        if self.parameter_type is None:", "        if self.has_been_written_to and self.parameter_type != parameter_type:\n            raise ParameterTypeError\n        if self.parameter_type != parameter_type:")]),
    ("flag-before", "C02", [(P, "        if self.children:\n            raise ParameterReadonlyError\n        self.attempt_read(", "        self.has_been_written_to = True\n        if self.children:\n            raise ParameterReadonlyError\n        self.attempt_read(")]),
    ("read-first", "C02", [(P, "        if self.children:\n            raise ParameterReadonlyError\n        self.attempt_read(parameter_type, unit, time_points)\n", "        self.attempt_read(parameter_type, unit, time_points)\n        if self.children:\n            raise ParameterReadonlyError\n")]),
    ("region-of-parent", "C01", [(P, "            res = _Parameter(name, self.region)\n", "            res = _Parameter(name, self.region.parent or self.region)\n")]),
    ("info-creates", "C01", [(S, "            parameter = region_.get_parameter(name)\n", "            parameter = self._get_or_create_parameter(name, region_)\n")]),
    ("subparam-self", "C01", [(P, "                res = res.get_subparameter(name[1:])\n            return res\n", "                res = res.get_subparameter(name[1:])\n            else:\n                return self\n            return res\n")]),
    ("full-name-noreverse", "C01", [(P, "tuple(reversed(r))", "tuple(r)")]),
    ("version-twice", "C03", [(V, "        self._parameter.data = self._unit_converter.convert_to(v)\n        self._parameter.version += 1\n", "        self._parameter.version += 1\n        self._parameter.data = self._unit_converter.convert_to(v)\n        if self._writable:\n            self._parameter.version += 1\n")]),
    ("skip-equal", "C03", [(V, "        self._parameter.data = self._unit_converter.convert_to(v)\n        self._parameter.version += 1\n", "        data = self._unit_converter.convert_to(v)\n        if data != self._parameter.data:\n            self._parameter.data = data\n            self._parameter.version += 1\n")]),
    ("no-convert", "C03", [(V, "        self._parameter.data = self._unit_converter.convert_to(v)\n", "        self._parameter.data = v if self._unit_converter.target == self._unit_converter.target else 0\n")]),
    ("direct-children", "C04", [(V, "            return [ScalarView(parameter, self._unit_converter.target)]", "            return [ScalarView(parameter, parameter.unit)]")]),
    ("type-leaf", "C04", [(V, "            if parameter.parameter_type != timeseries_type:\n                raise ParameterTypeError\n", "")]),
    ("cached-sum", "C04", [(V, "            self._parameter.children  # child parameters have their own versions\n            or ", "            ")]),
    ("skip-empty", "C04", [(V, "            return sum(v.value for v in self._child_data_views)\n", "            return sum(v.value for v in self._child_data_views if not v.empty)\n")]),
]
CASES = [(n + ":" + p, p, "same", e) for n, ps, e in SAME for p in ps] + [(n, p, "bug", e) for n, p, e in BUGS]
