F = "scmdataframe/base.py"
COPY = "        ret = self if inplace else self.copy()\n\n        if \"unit_context\""
LOOP = 'for orig_unit, grp in to_convert._meta.groupby("unit"):  # type: ignore\n'
UC = "            uc = UnitConverter(orig_unit, unit, context=context)\n"
DATA = "            ret._data[grp.index] = ret._data[grp.index].apply(uc.convert_from)\n"
META = """            ret._meta.loc[grp.index] = ret._meta.loc[grp.index].assign(
                unit=unit, unit_context=context
            )
"""
FIL = "        to_convert = ret.filter(**kwargs)\n"
END = "        if not inplace:\n            return ret\n        return None\n\n    def relative"
BODY = UC + DATA + "            # TODO: check if unit_context has changed\n" + META
CASES = [
    ("all-data", "C17", "bug", [(F, DATA, "            ret._data = ret._data.apply(uc.convert_from)\n")]),
    ("no-context", "C17", "bug", [(F, "UnitConverter(orig_unit, unit, context=context)", "UnitConverter(orig_unit, unit)")]),
    ("context-not-recorded", "C17", "bug", [(F, "unit=unit, unit_context=context", "unit=unit")]),
    ("unit-not-recorded", "C17", "bug", [(F, "                unit=unit, unit_context=context", "                unit_context=context")]),
    ("inverse", "C17", "bug", [(F, "UnitConverter(orig_unit, unit, context", "UnitConverter(unit, orig_unit, context")]),
    ("no-copy", "C17", "bug", [(F, COPY, COPY.replace("self if inplace else self.copy()", "self"))]),
    ("copy-always", "C17", "bug", [(F, COPY, COPY.replace("self if inplace else self.copy()", "self.copy()"))]),
    ("reset-context", "C17", "bug", [(F, '        if "unit_context" not in ret._meta:\n            ret._meta["unit_context"] = None\n            ret._sort', '        if True:\n            ret._meta["unit_context"] = None\n            ret._sort')]),
    ("all-units", "C17", "bug", [(F, FIL, "        to_convert = ret\n")]),
    ("record-all", "C17", "bug", [(F, META, META + "        ret._meta[\"unit_context\"] = context\n")]),
    ("record-unit-all", "C17", "bug", [(F, META, '            ret._meta = ret._meta.assign(unit=unit, unit_context=context)\n')]),
    ("first-unit", "C17", "bug", [(F, UC, "            uc = UnitConverter(to_convert._meta[\"unit\"].iloc[0], unit, context=context)\n")]),
    ("skip-equal", "C17", "bug", [(F, UC, "            if orig_unit == unit:\n                continue\n" + UC)]),
    ("skip-equal-ctx", "C17", "bug", [(F, META, "            if orig_unit != unit:\n                " + META.strip().replace("\n", "\n    ") + "\n")]),
    ("swallow", "C17", "bug", [(F, UC, "            try:\n                uc = UnitConverter(orig_unit, unit, context=context)\n            except ValueError:\n                continue\n")]),
    ("filter-self", "C17", "same", [(F, FIL, "        to_convert = self.filter(**kwargs)\n")]),
    ("loc", "C17", "same", [(F, DATA, "            ret._data.loc[:, grp.index] = ret._data.loc[:, grp.index].apply(uc.convert_from)\n")]),
    ("lambda", "C17", "same", [(F, "apply(uc.convert_from)", "apply(lambda col: uc.convert_from(col))")]),
    ("two-meta", "C17", "same", [(F, META, '            ret._meta.loc[grp.index, "unit"] = unit\n            ret._meta.loc[grp.index, "unit_context"] = context\n')]),
    ("helper", "C17", "same", [(F, BODY, "            ret._convert_group(grp.index, UnitConverter(orig_unit, unit, context=context), unit, context)\n"), (F, "    def relative_to_ref", """    def _convert_group(self, columns, converter, unit, context):
        self._data[columns] = self._data[columns].apply(converter.convert_from)
        self._meta.loc[columns] = self._meta.loc[columns].assign(
            unit=unit, unit_context=context
        )

    def relative_to_ref""")]),
    ("idx-var", "C17", "same", [(F, BODY, BODY.replace("grp.index", "columns").replace(UC, "            columns = grp.index\n" + UC))]),
    ("end", "C17", "same", [(F, END, "        return None if inplace else ret\n\n    def relative")]),
    ("unit-of", "C17", "same", [(F, UC, UC.replace("orig_unit, unit,", "orig_unit, target_unit,").replace("uc = ", "uc = ")), (F, FIL, "        target_unit = unit\n" + FIL)]),
]
