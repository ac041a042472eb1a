F = "scmdataframe/base.py"
L = '''    df[meta_cols] = df[meta_cols].fillna(_NA_FILL_VALUE)
    df = df.pivot_table(columns=meta_cols, index=time_col).value
'''
M = '''    meta = df.columns.to_frame(index=None).replace(
        to_replace=_NA_FILL_VALUE, value=np.nan
    )
    df.columns = meta.index
'''
W = '''    df = df.drop(REQUIRED_COLS + extra_cols, axis="columns").T
    df.index.name = "time"
    meta = orig[REQUIRED_COLS + extra_cols].set_index(df.columns)
'''
X = '''    if list(df.index.names) != [None]:
        df.reset_index(inplace=True)
    else:  # the index labels the timeseries so it has to be unique
        df.reset_index(drop=True, inplace=True)
'''
T = '''    cols = set(df.columns)
    if "year" in cols and "time" not in cols:
        time_col = "year"
    elif "time" in cols and "year" not in cols:
        time_col = "time"
    else:
        msg = "invalid time format, must have either `year` or `time`!"
        raise ValueError(msg)
'''
N = '''        if len(col_list) == num_ts:
            continue
        if len(col_list) != 1:
'''
CASES = [
    # long tables
    ("no-fill", "C23", "bug", [(F, "    df[meta_cols] = df[meta_cols].fillna(_NA_FILL_VALUE)\n", "")]),
    ("fill-extra-only", "C23", "bug", [(F, "df[meta_cols] = df[meta_cols].fillna(_NA_FILL_VALUE)", "df[extra_cols] = df[extra_cols].fillna(_NA_FILL_VALUE)")]),
    ("fill-all", "C23", "bug", [(F, "df[meta_cols] = df[meta_cols].fillna(_NA_FILL_VALUE)", "df = df.fillna(_NA_FILL_VALUE)")]),
    ("pivot-extra", "C23", "bug", [(F, "df.pivot_table(columns=meta_cols, index=time_col).value", 'df[REQUIRED_COLS + [time_col, "value"]].pivot_table(columns=REQUIRED_COLS, index=time_col).value')]),
    ("not-back", "C23", "bug", [(F, M, "    meta = df.columns.to_frame(index=None)\n    df.columns = meta.index\n")]),
    ("time-wins", "C23", "bug", [(F, 'elif "time" in cols and "year" not in cols:', 'elif "time" in cols:')]),
    ("year-wins", "C23", "bug", [(F, 'if "year" in cols and "time" not in cols:', 'if "year" in cols:')]),
    ("time-default", "C23", "bug", [(F, T, '    cols = set(df.columns)\n    time_col = "year" if "year" in cols else "time"\n')]),
    ("columns-kept", "C23", "bug", [(F, "        to_replace=_NA_FILL_VALUE, value=np.nan\n    )\n    df.columns = meta.index\n", "        to_replace=_NA_FILL_VALUE, value=np.nan\n    )\n")]),
    ("pivot-values", "C23", "same", [(F, "df.pivot_table(columns=meta_cols, index=time_col).value", 'df.pivot_table(values="value", index=time_col, columns=meta_cols)')]),
    ("pivot-first", "C23", "same", [(F, "df.pivot_table(columns=meta_cols, index=time_col).value", 'df.pivot_table(values="value", index=[time_col], columns=meta_cols, aggfunc="first")')]),
    ("extra-comp", "C23", "same", [(F, 'list(set(cols) - set(REQUIRED_COLS + [time_col, "value"]))', '[c for c in df.columns if c not in REQUIRED_COLS + [time_col, "value"]]')]),
    ("fill-loop", "C23", "same", [(F, "    df[meta_cols] = df[meta_cols].fillna(_NA_FILL_VALUE)\n", "    for c in meta_cols:\n        df[c] = df[c].fillna(_NA_FILL_VALUE)\n")]),
    ("time-cols", "C23", "same", [(F, T, '''    given = [c for c in ("year", "time") if c in df.columns]
    cols = set(df.columns)
    if len(given) != 1:
        raise ValueError("invalid time format, must have either `year` or `time`!")
    time_col = given[0]
''')]),
    # wide tables
    ("extra-lost", "C23", "bug", [(F, "    meta = orig[REQUIRED_COLS + extra_cols].set", "    meta = orig[REQUIRED_COLS].set")]),
    ("no-sort", "C23", "bug", [(F, "    df.sort_index(inplace=True)\n\n    return df, meta", "    return df, meta")]),
    ("sort-columns", "C23", "bug", [(F, "    df.sort_index(inplace=True)\n\n    return df, meta", "    df.sort_index(axis=1, inplace=True)\n\n    return df, meta")]),
    ("sort-return", "C23", "same", [(F, "    df.sort_index(inplace=True)\n\n    return df, meta", "    return df.sort_index(), meta")]),
    ("no-time-check", "C23", "bug", [(F, '''        msg = "invalid column format, must contain some time (int, float or datetime) columns!"
        raise ValueError(msg)
''', "        pass\n")]),
    ("time-cols-true", "C23", "bug", [(F, "time_cols, extra_cols = False, []", "time_cols, extra_cols = True, []")]),
    ("extra-time", "C23", "bug", [(F, "                except ValueError:\n                    extra_cols.append(i)", "                except ValueError:\n                    time_cols = True\n                    extra_cols.append(i)")]),
    ("columns-list", "C23", "same", [(F, "    cols = set(df.columns) - set(REQUIRED_COLS)\n", "    cols = [c for c in df.columns if c not in REQUIRED_COLS]\n")]),
    ("helper", "C23", "same", [(F, W, '''    meta_cols = REQUIRED_COLS + extra_cols
    df = df.drop(meta_cols, axis="columns").transpose()
    df.index.name = "time"
    meta = orig[meta_cols].set_index(df.columns)
'''), (F, "    orig = df.copy()\n\n    cols = set", "    orig = df\n    cols = set")]),
    # both
    ("no-lower", "C23", "bug", [(F, "df.rename(columns={c: str(c).lower() for c in str_cols}, inplace=True)", "pass")]),
    ("lower-required", "C23", "bug", [(F, "for c in str_cols}", "for c in str_cols if c.lower() in REQUIRED_COLS}")]),
    ("capital-only", "C23", "bug", [(F, "{c: str(c).lower() for c in str_cols}", "{c: c[0].lower() + c[1:] for c in str_cols}")]),
    ("rename-assign", "C23", "same", [(F, "    df.rename(columns={c: str(c).lower() for c in str_cols}, inplace=True)", "    df = df.rename(columns={c: c.lower() for c in str_cols})")]),
    ("no-reset", "C23", "bug", [(F, "    else:  # the index labels the timeseries so it has to be unique\n        df.reset_index(drop=True, inplace=True)\n", "")]),
    ("reset-drop", "C23", "bug", [(F, "        df.reset_index(inplace=True)\n    else:", "        df.reset_index(drop=True, inplace=True)\n    else:")]),
    ("single-index", "C23", "bug", [(F, "    if list(df.index.names) != [None]:\n", "    if len(df.index.names) > 1:\n")]),
    ("reset-assign", "C23", "same", [(F, X, "    df = df.reset_index(drop=list(df.index.names) == [None])\n")]),
    ("reset-name", "C23", "same", [(F, X, "    named = any(n is not None for n in df.index.names)\n    df.reset_index(drop=not named, inplace=True)\n")]),
    ("required-any", "C23", "bug", [(F, "    if not set(REQUIRED_COLS).issubset(set(df.columns)):\n", "    if not set(REQUIRED_COLS) & set(df.columns):\n")]),
    ("required-some", "C23", "bug", [(F, "    if not set(REQUIRED_COLS).issubset(set(df.columns)):\n        missing = list(set(REQUIRED_COLS) -", '    if not set(REQUIRED_COLS[:4]).issubset(set(df.columns)):\n        missing = list(set(REQUIRED_COLS) -')]),
    ("required-comp", "C23", "same", [(F, '''    if not set(REQUIRED_COLS).issubset(set(df.columns)):
        missing = list(set(REQUIRED_COLS) - set(df.columns))
        raise''', '''    missing = [c for c in REQUIRED_COLS if c not in df.columns]
    if missing:
        raise''')]),
    ("no-copy", "C23", "bug", [(F, "_format_data(data.copy())", "_format_data(data)")]),
    ("copy-inside", "C23", "same", [(F, "            (_df, _meta) = _format_data(data.copy())\n        elif (Iam", "            (_df, _meta) = _format_data(data)\n        elif (Iam"), (F, "    if isinstance(df, pd.Series):\n        df = df.to_frame()\n", "    df = df.to_frame() if isinstance(df, pd.Series) else df.copy()\n")]),
    ("value-layout", "C23", "bug", [(F, '    if "value" in df.columns:\n', '    if "value" in df.columns and "time" in df.columns:\n')]),
    # arrays and tables with columns
    ("short-meta", "C23", "bug", [(F, N, "        if len(col_list) == num_ts:\n            continue\n        if len(col_list) > num_ts:\n")]),
    ("first-for-all", "C23", "bug", [(F, "        columns[c_name] = col_list * num_ts\n", "        columns[c_name] = [col_list[0]] * num_ts\n"), (F, N, "        if len(col_list) == num_ts:\n            continue\n        if False:\n")]),
    ("first-item", "C23", "same", [(F, "        columns[c_name] = col_list * num_ts\n", "        columns[c_name] = [col_list[0]] * num_ts\n")]),
    ("n-minus", "C23", "bug", [(F, "num_ts = len(df.columns)", "num_ts = len(df)")]),
    ("index-ignored", "C23", "bug", [(F, "            df.index = TimePoints(index).to_index()\n", "            pass\n")]),
    ("in-place", "C23", "bug", [(F, "    df = df.copy() if isinstance(df, pd.DataFrame) else pd.DataFrame(df)\n", "    df = df if isinstance(df, pd.DataFrame) else pd.DataFrame(df)\n")]),
    ("always-frame", "C23", "same", [(F, "    df = df.copy() if isinstance(df, pd.DataFrame) else pd.DataFrame(df)\n", "    df = pd.DataFrame(df).copy()\n")]),
    ("ts-required", "C23", "bug", [(F, "    if not set(REQUIRED_COLS).issubset(columns.keys()):\n", '    if not set(["model", "scenario"]).issubset(columns.keys()):\n')]),
    ("sorted-meta-lost", "C23", "bug", [(F, "sorted(list(set(self._meta.columns) - set(REQUIRED_COLS)))", "sorted(list(set(self._meta.columns) - set(REQUIRED_COLS)))[:1]")]),
    ("no-points", "C23", "bug", [(F, "        _df.index = self._time_points.to_index()\n        _df = _df.astype", "        _df = _df.astype")]),
]
