F = "scmdataframe/filters.py"
RX = '_regexp = re.escape(str(s)).replace(r"\\*", ".*") + "$"'
SUB = "subset = [m for m in _meta_col if pattern.match(m)]"
CONV = """        single_times = []
        to_append = []  # type: List
        for timeset in times_list:"""
CASES = [
    ("no-dollar", "C15", "bug", [(F, ' + "$"\n', "\n")]),
    ("no-escape", "C15", "bug", [(F, RX, '_regexp = str(s).replace("*", ".*") + "$"')]),
    ("pyam-escape", "C15", "bug", [(F, RX, '_regexp = (str(s).replace("|", "\\\\|").replace(".", r"\\.").replace("*", ".*").replace("+", r"\\+").replace("(", r"\\(").replace(")", r"\\)").replace("$", r"\\$")) + "$"')]),
    ("star-plus", "C15", "bug", [(F, '".*") + "$"', '".+") + "$"')]),
    ("star-level", "C15", "bug", [(F, '".*") + "$"', '"[^|]*") + "$"')]),
    ("search", "C15", "bug", [(F, "if pattern.match(m)]", "if pattern.search(m)]")]),
    ("ignorecase", "C15", "bug", [(F, "re.compile(_regexp if not regexp else str(s))", "re.compile(_regexp if not regexp else str(s), re.IGNORECASE)")]),
    ("last-wins", "C15", "bug", [(F, "            matches |= _meta_col.isin(subset) & depth", "            matches = _meta_col.isin(subset) & depth")]),
    ("depth-or", "C15", "bug", [(F, "_meta_col.isin(subset) & depth", "_meta_col.isin(subset) | depth")]),
    ("raw-col", "C15", "bug", [(F, "_meta_col.isin(subset) & depth", "meta_col.isin(subset) & depth")]),
    ("in-place", "C15", "bug", [(F, "_meta_col = meta_col.copy()", "_meta_col = meta_col")]),
    ("equal-filled", "C15", "same", [(F, "matches |= meta_col == s", "matches |= _meta_col == s")]),
    ("number-str", "C15", "bug", [(F, "        if isinstance(s, str):\n            # every", "        if isinstance(s, (str, float)):\n            # every")]),
    ("level-strict", "C15", "bug", [(F, "return _level >= x", "return _level > x")]),
    ("level-swap", "C15", "bug", [(F, "return _level <= x", "return _level >= x")]),
    ("level-notfirst", "C15", "bug", [(F, 'val.replace(regexp, "", 1)', 'val.replace(regexp, "")')]),
    ("level-unescaped", "C15", "bug", [(F, "pipe = re.compile(re.escape(separator))", "pipe = re.compile(separator)")]),
    ("level-star", "C15", "bug", [(F, 'regexp = str(s).replace("*", "")', "regexp = str(s)")]),
    ("level-ge", "C15", "bug", [(F, "return level == x", "return level >= x")]),
    ("nan-false", "C15", "bug", [(F, "    if has_nan:\n", "    if True:\n")]),
    ("nan-star", "C15", "bug", [(F, '        ] = ""\n', '        ] = " "\n')]),
    ("regexp-full", "C15", "bug", [(F, "if pattern.match(m)]", "if pattern.fullmatch(m)]")]),
    ("first-only", "C15", "bug", [(F, "    for s in _values:\n", "    for s in _values[:1]:\n")]),
    ("is-in-not", "C15", "bug", [(F, "np.array([v in items for v in vals])", "np.array([v in items[:2] for v in vals])")]),
    ("range-excl", "C15", "bug", [(F, "range(ints[0], ints[1] + 1)", "range(ints[0], ints[1])")]),
    ("range-skip", "C15", "bug", [(F, "to_append += [j for", "to_append = [j for")]),
    ("range-eq", "C15", "bug", [(F, "if ints[0] > ints[1]:", "if ints[0] >= ints[1]:")]),
    ("range-norefuse", "C15", "bug", [(F, "if ints[0] > ints[1]:", "if False:")]),
    ("alias-months", "C15", "bug", [(F, "        times_list = conv_strs(single_times, conv_codes, name)\n        times_list += to_append", "        del times_list[:]\n        times_list += conv_strs(single_times, conv_codes, name)\n        times_list += to_append")]),
    ("full-names", "C15", "bug", [(F, '["%b", "%B"]', '["%b"]')]),
    ("day-yday", "C15", "bug", [(F, '"tm_wday", "day"', '"tm_mday", "day"')]),
    ("years-float", "C15", "bug", [(F, "all(isinstance(y, int) for y in years)", "any(isinstance(y, int) for y in years)")]),
    ("dt-int", "C15", "bug", [(F, "isinstance(dts, int) or any([isinstance(d, int) for d in dts])", "isinstance(dts, int)")]),
    ("hour-range", "C15", "bug", [(F, "hours_list = [hours] if isinstance(hours, int) else hours", "hours_list = [hours] if isinstance(hours, int) else list(range(min(hours), max(hours) + 1)) if hours else []")]),

    ("r-fullmatch", "C15", "same", [(F, ' + "$"\n', "\n"), (F, "if pattern.match(m)]", "if (pattern.match(m) if regexp else pattern.fullmatch(m))]")]),
    ("r-join", "C15", "same", [(F, RX, '_regexp = ".*".join(re.escape(piece) for piece in str(s).split("*")) + "$"')]),
    ("r-Z", "C15", "same", [(F, ' + "$"\n', ' + r"\\Z"\n')]),
    ("r-format", "C15", "same", [(F, RX, '_regexp = "^{}$".format(re.escape(s).replace(r"\\*", ".*"))')]),
    ("r-mask", "C15", "same", [(F, "    matches = pd.Series(False, index=meta_col.index)\n", "    matches = pd.Series(False, index=meta_col.index)\n    unused = None\n"), (F, "matches |= _meta_col.isin(subset) & depth", "matches = matches | (_meta_col.isin(subset) & depth)")]),
    ("r-isnull", "C15", "same", [(F, "[np.isnan(i) if not isinstance(i, str) else False for i in _meta_col]", "[(not isinstance(i, str)) and bool(np.isnan(i)) for i in _meta_col]")]),
    ("r-depth-if", "C15", "same", [(F, """            depth = (
                True
                if level is None
                else find_depth(_meta_col, str(s), level, separator=separator)
            )
            matches |= _meta_col.isin(subset) & depth""", """            found = _meta_col.isin(subset)
            if level is not None:
                found = found & find_depth(_meta_col, s, level, separator)
            matches |= found""")]),
    ("r-lambda", "C15", "same", [(F, """        def test(x):
            return _level >= x
""", """        test = lambda x: x <= _level  # noqa
""")]),
    ("r-endswith", "C15", "same", [(F, 'level[-1] == "-"', 'level.endswith("-")'), (F, 'level[-1] == "+"', 'level.endswith("+")')]),
    ("r-count", "C15", "same", [(F, 'len(pipe.findall(val.replace(regexp, "", 1)))', 'val.replace(regexp, "", 1).count(separator)'), (F, "    pipe = re.compile(re.escape(separator))\n", "")]),
    ("r-split", "C15", "same", [(F, 'len(pipe.findall(val.replace(regexp, "", 1)))', 'len(val.replace(regexp, "", 1).split(separator)) - 1'), (F, "    pipe = re.compile(re.escape(separator))\n", "")]),
    ("r-noouter", "C15", "same", [(F, "np.array([b for b in [apply_test(m) for m in meta_col]])", "np.array([apply_test(m) for m in meta_col])")]),
    ("r-helper", "C15", "same", [(F, "def pattern_match(", "def _as_regexp(s):\n    return re.escape(str(s)).replace(r\"\\*\", \".*\") + \"$\"\n\n\ndef pattern_match("), (F, RX, "_regexp = _as_regexp(s)")]),
    ("r-extend", "C15", "same", [(F, "to_append += [j for j in range(ints[0], ints[1] + 1)]", "to_append.extend(range(ints[0], ints[1] + 1))")]),
    ("r-while", "C15", "same", [(F, "to_append += [j for j in range(ints[0], ints[1] + 1)]", "to_append += list(range(ints[0], 1 + ints[1]))")]),
    ("r-first-last", "C15", "same", [(F, """                ints = conv_strs(timeset.split("-"), conv_codes, name)  # type: ignore
                if ints[0] > ints[1]:""", """                ints = conv_strs(timeset.split("-"), conv_codes, name)  # type: ignore
                first, last = ints
                if not first <= last:""")]),
    ("r-concat", "C15", "same", [(F, "        times_list = conv_strs(single_times, conv_codes, name)\n        times_list += to_append", "        times_list = conv_strs(single_times, conv_codes, name) + to_append")]),
    ("r-else", "C15", "same", [(F, """            except ValueError:
                continue

        if res""", """            except ValueError:
                pass

        if res""")]),
    ("r-years", "C15", "same", [(F, """    years = [years] if isinstance(years, int) else years
    usable_int = (
        all(isinstance(y, int) for y in years)
        if isinstance(years, Iterable)
        else isinstance(years, int)
    )

    if not usable_int:""", """    if isinstance(years, int):
        years = [years]

    if not isinstance(years, Iterable) or any(not isinstance(y, int) for y in years):""")]),
    ("r-is-in-loop", "C15", "same", [(F, "    return np.array([v in items for v in vals])", "    res = []\n    for v in vals:\n        res.append(v in items)\n    return np.array(res)")]),
    ("r-names", "C15", "same", [(F, "    def conv_strs(strs_to_convert, conv_codes, name):\n        res = None", "    def conv_strs(strs_to_convert, conv_codes, name):\n        pass\n        res = None")]),
]
