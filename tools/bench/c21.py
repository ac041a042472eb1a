F = "scmdataframe/offsets.py"
LOOP = """    current = start
    while current <= end:
        yield current

        next_current = offset.apply(current)
        if next_current <= current:
            raise ValueError(  # pragma: no cover  # emergency valve
                "Offset is not increasing datetime: {}".format(current.isoformat())
            )

        current = next_current"""
CASES = [
    ("strict-end", "C21", "bug", [(F, "while current <= end:", "while current < end:")]),
    ("no-rollback", "C21", "bug", [(F, "    start = offset.rollback(start)\n", "")]),
    ("no-rollforward", "C21", "bug", [(F, "    end = offset.rollforward(end)\n", "")]),
    ("forward-both", "C21", "bug", [(F, "start = offset.rollback(start)", "start = offset.rollforward(start)")]),
    ("end-back", "C21", "bug", [(F, "end = offset.rollforward(end)", "end = offset.rollback(end)")]),
    ("skip-first", "C21", "bug", [(F, "        yield current\n\n        next_current = offset.apply(current)", "        next_current = offset.apply(current)\n        yield next_current")]),
    ("step2", "C21", "bug", [(F, "        current = next_current", "        current = offset.apply(next_current)")]),
    ("keeps-time", "C21", "bug", [(F, "            dt = dt.replace(hour=0, minute=0, second=0, microsecond=0)\n        if not obj", "            pass\n        if not obj")]),
    ("keeps-microsecond", "C21", "bug", [(F, "            dt = dt.replace(hour=0, minute=0, second=0, microsecond=0)\n        if not obj", "            dt = dt.replace(hour=0, minute=0, second=0)\n        if not obj")]),
    ("forward-midnight", "C21", "bug", [(F, "dt = midnight + datetime.timedelta(days=1) if midnight < dt else dt", "dt = midnight")]),
    ("forward-always", "C21", "bug", [(F, "dt = midnight + datetime.timedelta(days=1) if midnight < dt else dt", "dt = midnight + datetime.timedelta(days=1)")]),
    ("move-always", "C21", "bug", [(F, "        if not obj.onOffset(dt):\n            dt = _move(obj, -1, dt)", "        dt = _move(obj, -1, dt)")]),
    ("drop-kwds", "C21", "bug", [(F, "obj.__class__(steps, normalize=obj.normalize, **obj.kwds)", "obj.__class__(steps, normalize=obj.normalize)")]),
    ("no-wrap-move", "C21", "bug", [(F, "    _wrap_apply(offset)\n    return offset", "    return offset")]),
    ("no-wrap", "C21", "bug", [(F, "    _wrap_apply(offset)\n    object", "    object")]),
    ("business-code", "C21", "bug", [(F, 'isinstance(offset, BusinessMixin) or offset.rule_code.startswith("B")', "isinstance(offset, BusinessMixin)")]),
    ("business-mixin", "C21", "bug", [(F, 'isinstance(offset, BusinessMixin) or offset.rule_code.startswith("B")', 'offset.rule_code.startswith("B")')]),
    ("no-rollback-set", "C21", "bug", [(F, '    object.__setattr__(offset, "rollback", apply_rollback(offset))\n', "")]),
    ("swap", "C21", "bug", [(F, '"rollback", apply_rollback(offset)', '"rollback", apply_rollforward(offset)')]),
    ("resample-end", "C21", "bug", [("scmdataframe/base.py", "orig_dts.iloc[0], orig_dts.iloc[-1], to_offset(rule)", "orig_dts.iloc[0], orig_dts.iloc[-2], to_offset(rule)")]),
    ("resample-slice", "C21", "bug", [("scmdataframe/base.py", "return self.interpolate(list(target_dts), **kwargs)", "return self.interpolate(list(target_dts)[1:], **kwargs)")]),
    # behaviour kept
    ("while-true", "C21", "same", [(F, LOOP, """    current = start
    while True:
        if current > end:
            break
        yield current
        following = offset.apply(current)
        if not following > current:
            raise ValueError("Offset is not increasing")
        current = following""")]),
    ("collect", "C21", "same", [(F, LOOP, """    res = []
    current = start
    while current <= end:
        res.append(current)
        next_current = offset.apply(current)
        if next_current <= current:
            raise ValueError("no")
        current = next_current
    return iter(res)""")]),
    ("midnight-helper", "C21", "same", [(F, "def apply_rollforward(obj):", "def _midnight(dt):\n    return dt.replace(hour=0, minute=0, second=0, microsecond=0)\n\n\ndef apply_rollforward(obj):"),
        (F, "midnight = dt.replace(hour=0, minute=0, second=0, microsecond=0)", "midnight = _midnight(dt)"),
        (F, "            dt = dt.replace(hour=0, minute=0, second=0, microsecond=0)\n        if not obj", "            dt = _midnight(dt)\n        if not obj")]),
    ("combine", "C21", "same", [(F, "            dt = dt.replace(hour=0, minute=0, second=0, microsecond=0)\n        if not obj", "            dt = datetime.datetime.combine(dt.date(), datetime.time())\n        if not obj")]),
    ("if-not-on", "C21", "same", [(F, "dt = midnight + datetime.timedelta(days=1) if midnight < dt else dt", "\n            if dt != midnight:\n                dt = midnight + datetime.timedelta(hours=24)")]),
    ("early-return", "C21", "same", [(F, "        if not obj.onOffset(dt):\n            dt = _move(obj, 1, dt)\n        return as_datetime(dt)", "        if obj.onOffset(dt):\n            return as_datetime(dt)\n        return as_datetime(_move(obj, 1, dt))")]),
    ("startswith", "C21", "same", [(F, 'offset.rule_code.startswith("B")', 'offset.rule_code[0] == "B"')]),
    ("inline-vars", "C21", "same", [("scmdataframe/base.py", "        target_dts = generate_range(\n            orig_dts.iloc[0], orig_dts.iloc[-1], to_offset(rule)\n        )\n        return self.interpolate(list(target_dts), **kwargs)", "        offset = to_offset(rule)\n        first, last = orig_dts.iloc[0], orig_dts.iloc[-1]\n        return self.interpolate([t for t in generate_range(first, last, offset)], **kwargs)")]),
    ("two-ifs", "C21", "same", [(F, 'if isinstance(offset, BusinessMixin) or offset.rule_code.startswith("B"):', 'is_business = isinstance(offset, BusinessMixin)\n    if is_business or offset.rule_code.startswith("B"):')]),
]
