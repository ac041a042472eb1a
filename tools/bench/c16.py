F = "scmdataframe/base.py"
JM = """    joint_meta = []  # type: List[str]
    for df in joint_dfs:
        joint_meta += df.meta.columns.tolist()

    joint_meta_set = set(joint_meta)
"""
FILLS = """    for i, _ in enumerate(joint_dfs):
        for col in joint_meta_set:
            if col not in joint_dfs[i].meta:
                joint_dfs[i].set_meta(na_fill_value, name=col)
"""
CAT = """    data = pd.concat(
        [d.timeseries().reorder_levels(joint_meta_set) for d in joint_dfs], sort=False
    )
"""
REPL = """    data = data.reset_index()
    data[list(joint_meta_set)] = data[joint_meta_set].replace(
        to_replace=np.nan, value=na_fill_value
    )
    data = data.set_index(list(joint_meta_set))
"""
DUP = """    if duplicate_msg and data.index.duplicated().any():
        warn_handle_res = _handle_potential_duplicates_in_append(data, duplicate_msg)
        if warn_handle_res is not None:
            return warn_handle_res  # type: ignore  # special case
"""
MEAN = "    data = data.groupby(data.index.names).mean()\n"
RET = """    if inplace:
        if not isinstance(dfs[0], ScmDataFrameBase):
            raise TypeError("Can only append inplace to an ScmDataFrameBase")
        ret = dfs[0]
    else:
        ret = scm_dfs[0].copy()
"""
DATA = """    ret._data = data.reset_index(drop=True).T  # pylint: disable=protected-access
    ret._data = ret._data.sort_index()  # pylint: disable=protected-access
    ret["time"] = ret._data.index.values  # pylint: disable=protected-access
    ret._data = ret._data.astype(float)  # pylint: disable=protected-access
"""
META = """    ret._meta = (  # pylint: disable=protected-access
        data.index.to_frame()
        .reset_index(drop=True)
        .replace(to_replace=na_fill_value, value=np.nan)
    )
"""
H = """    contributing_values = (~data.isnull()).astype(int).groupby(data.index.names).sum()
    duplicates = (contributing_values > 1).any().any()
    if not duplicates:
        return None
"""
CASES = [
    ("first-not-mean", "C16", "bug", [(F, MEAN, "    data = data.groupby(data.index.names).first()\n")]),
    ("median-not-mean", "C16", "bug", [(F, MEAN, "    data = data.groupby(data.index.names).median()\n")]),
    ("sum-not-mean", "C16", "bug", [(F, MEAN, "    data = data.groupby(data.index.names).sum()\n")]),
    ("group-required", "C16", "bug", [(F, MEAN, "    data = data.groupby(REQUIRED_COLS).mean()\n")]),
    ("no-nan-fill", "C16", "bug", [(F, REPL, "")]),
    ("fill-required-only", "C16", "bug", [(F, "    data[list(joint_meta_set)] = data[joint_meta_set].replace(\n        to_replace=np.nan, value=na_fill_value\n    )\n", "    data[REQUIRED_COLS] = data[REQUIRED_COLS].replace(\n        to_replace=np.nan, value=na_fill_value\n    )\n")]),
    ("no-unfill", "C16", "bug", [(F, "        .reset_index(drop=True)\n        .replace(to_replace=na_fill_value, value=np.nan)\n", "        .reset_index(drop=True)\n")]),
    ("no-sort", "C16", "bug", [(F, "    ret._data = ret._data.sort_index()  # pylint: disable=protected-access\n", "")]),
    ("no-copy", "C16", "bug", [(F, "    joint_dfs = [d.copy() for d in scm_dfs]", "    joint_dfs = scm_dfs")]),
    ("ret-no-copy", "C16", "bug", [(F, "        ret = scm_dfs[0].copy()\n", "        ret = scm_dfs[0]\n")]),
    ("inplace-copy", "C16", "bug", [(F, "        ret = dfs[0]\n", "        ret = dfs[0].copy()\n")]),
    ("reported-always", "C16", "bug", [(F, "    if not duplicates:\n        return None\n", "")]),
    ("reported-more", "C16", "bug", [(F, "(contributing_values > 1)", "(contributing_values >= 1)")]),
    ("reported-never", "C16", "bug", [(F, "(contributing_values > 1)", "(contributing_values > 2)")]),
    ("last-dropped", "C16", "bug", [(F, "for d in joint_dfs], sort", "for d in joint_dfs[:2]], sort")]),
    ("meta-first", "C16", "bug", [(F, "        joint_meta += df.meta.columns.tolist()\n", "        joint_meta = joint_meta or df.meta.columns.tolist()\n")]),
    ("time-old", "C16", "bug", [(F, DATA, DATA.replace("    ret[\"time\"] = ret._data.index.values  # pylint: disable=protected-access\n", ""))]),
    ("meta-no-reset", "C16", "bug", [(F, "        .reset_index(drop=True)\n        .replace(", "        .replace(")]),
    ("data-no-reset", "C16", "bug", [(F, "data.reset_index(drop=True).T", "data.T")]),
    ("append-self-only", "C16", "bug", [(F, "        return df_append([self, other], inplace=inplace, duplicate_msg=duplicate_msg)", "        return df_append([self, other], inplace=inplace)")]),
    ("append-swap", "C16", "bug", [(F, "df_append([self, other], inplace=inplace", "df_append([other, self], inplace=inplace")]),
    ("ret-dup", "C16", "bug", [(F, "        return data\n\n    raise", "        return data.groupby(data.index.names).mean()\n\n    raise")]),
    ("jm-comp", "C16", "refactor", [(F, JM, "    joint_meta_set = {c for df in joint_dfs for c in df.meta.columns}\n")]),
    ("jm-union", "C16", "refactor", [(F, JM, "    joint_meta_set = set()\n    for df in joint_dfs:\n        joint_meta_set |= set(df.meta.columns)\n")]),
    ("fill-direct", "C16", "refactor", [(F, FILLS, "    for df in joint_dfs:\n        for col in joint_meta_set - set(df.meta.columns):\n            df.set_meta(na_fill_value, name=col)\n")]),
    ("cat-loop", "C16", "refactor", [(F, CAT, "    tables = []\n    for d in joint_dfs:\n        tables.append(d.timeseries().reorder_levels(joint_meta_set))\n    data = pd.concat(tables, sort=False)\n")]),
    ("cat-order", "C16", "refactor", [(F, CAT, "    levels = sorted(joint_meta_set)\n    data = pd.concat(\n        [d.timeseries().reorder_levels(levels) for d in joint_dfs], sort=False\n    )\n")]),
    ("repl-helper", "C16", "refactor", [(F, REPL, "    data = _fill_levels(data, list(joint_meta_set), na_fill_value)\n"), (F, "def _handle_potential", "def _fill_levels(data, levels, value):\n    data = data.reset_index()\n    data[levels] = data[levels].replace(to_replace=np.nan, value=value)\n    return data.set_index(levels)\n\n\ndef _handle_potential")]),
    ("repl-fillna", "C16", "refactor", [(F, "data[joint_meta_set].replace(\n        to_replace=np.nan, value=na_fill_value\n    )", "data[joint_meta_set].fillna(na_fill_value)")]),
    ("repl-frame", "C16", "refactor", [(F, REPL, "    data.index = pd.MultiIndex.from_frame(data.index.to_frame().fillna(na_fill_value))\n")]),
    ("dup-nested", "C16", "refactor", [(F, DUP, "    if duplicate_msg:\n        if data.index.duplicated().any():\n            res = _handle_potential_duplicates_in_append(data, duplicate_msg)\n            if res is not None:\n                return res\n")]),
    ("ret-swap", "C16", "refactor", [(F, RET, "    if not inplace:\n        ret = scm_dfs[0].copy()\n    elif not isinstance(dfs[0], ScmDataFrameBase):\n        raise TypeError(\"Can only append inplace to an ScmDataFrameBase\")\n    else:\n        ret = dfs[0]\n")]),
    ("data-chain", "C16", "refactor", [(F, DATA, "    new = data.reset_index(drop=True).T.sort_index().astype(float)\n    ret._data = new\n    ret[\"time\"] = new.index.values\n")]),
    ("meta-first-order", "C16", "refactor", [(F, DATA + "\n" + META, META + "\n" + DATA)]),
    ("h-notnull", "C16", "refactor", [(F, "(~data.isnull()).astype(int)", "data.notnull().astype(int)")]),
    ("h-flip", "C16", "refactor", [(F, H, "    contributing_values = (~data.isnull()).astype(int).groupby(data.index.names).sum()\n    if not (contributing_values > 1).any().any():\n        return None\n")]),
    ("unfill-split", "C16", "refactor", [(F, META, "    meta = data.index.to_frame()\n    meta = meta.reset_index(drop=True)\n    ret._meta = meta.replace(to_replace=na_fill_value, value=np.nan)\n")]),
]
