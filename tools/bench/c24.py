F = "scmdataframe/base.py"
P = "scmdataframe/pyam_compat.py"
R = '''    if not os.path.exists(fname):
        raise OSError("no data file `{}` found!".format(fname))
    if fname.endswith("csv"):
        df = pd.read_csv(fname, *args, **kwargs)
    else:
        xl = pd.ExcelFile(fname)
        if len(xl.sheet_names) > 1 and "sheet_name" not in kwargs:
            kwargs["sheet_name"] = "data"
        df = pd.read_excel(fname, *args, **kwargs)

    return df
'''
S = '''                    try:
                        # most common format
                        datetime.datetime.strptime(i, "%Y-%m-%d %H:%M:%S")
                    except ValueError:
                        # this is super slow so avoid if possible
                        parser.parse(str(i))  # if no ValueError, this is datetime
                    time_cols = True
'''
CASES = [
    ("index-col", "C24", "bug", [(F, "pd.read_csv(fname, *args, **kwargs)", "pd.read_csv(fname, *args, **{'index_col': 0, **kwargs})")]),
    ("no-options", "C24", "bug", [(F, "pd.read_csv(fname, *args, **kwargs)", "pd.read_csv(fname)")]),
    ("init-no-options", "C24", "bug", [(F, "_read_file(data, **kwargs)", "_read_file(data)")]),
    ("sheet-always", "C24", "bug", [(F, 'len(xl.sheet_names) > 1 and "sheet_name" not in kwargs', 'len(xl.sheet_names) > 1')]),
    ("sheet-three", "C24", "bug", [(F, 'len(xl.sheet_names) > 1 and', 'len(xl.sheet_names) > 2 and')]),
    ("sheet-single", "C24", "bug", [(F, 'len(xl.sheet_names) > 1 and', 'len(xl.sheet_names) > 0 and')]),
    ("no-exists", "C24", "bug", [(F, '''    if not os.path.exists(fname):
        raise OSError("no data file `{}` found!".format(fname))
''', '''    if not os.path.exists(fname):
        raise ValueError("no data file `{}` found!".format(fname))
''')]),
    ("csv-options", "C24", "bug", [(F, "self.to_iamdataframe().to_csv(path, **kwargs)", "self.to_iamdataframe().to_csv(path)")]),
    ("plain-pyam", "C24", "bug", [(F, "return LongDatetimeIamDataFrame(self.timeseries())", "return IamDataFrame(self.timeseries())")]),
    ("required-only", "C24", "bug", [(F, "return LongDatetimeIamDataFrame(self.timeseries())", "return LongDatetimeIamDataFrame(self.timeseries(REQUIRED_COLS))")]),
    ("to-dates", "C24", "bug", [(P, "return parser.parse(inp)", "return parser.parse(inp).replace(hour=0, minute=0, second=0)")]),
    ("iso-only", "C24", "same", [(F, S, S.replace('''                    except ValueError:
                        # this is super slow so avoid if possible
                        parser.parse(str(i))  # if no ValueError, this is datetime
''', '''                    except ValueError:
                        # this is super slow so avoid if possible
                        parser.parse(i)
'''))]),
    ("always-slow", "C24", "same", [(F, S, '''                    parser.parse(str(i))
                    time_cols = True
''')]),
    ("texts-no-time", "C24", "bug", [(F, S, '''                    raise ValueError(i)
''')]),
    ("texts-both", "C24", "bug", [(F, S, S + '''                    extra_cols.append(i)
''')]),
    ("read-early", "C24", "same", [(F, R, '''    if not os.path.isfile(fname) and not os.path.exists(fname):
        raise OSError("no data file `{}` found!".format(fname))
    if fname.endswith("csv"):
        return pd.read_csv(fname, *args, **kwargs)
    options = dict(kwargs)
    sheets = pd.ExcelFile(fname).sheet_names
    if len(sheets) > 1:
        options.setdefault("sheet_name", "data")
    return pd.read_excel(fname, *args, **options)
''')]),
    ("not-csv", "C24", "same", [(F, R, '''    if os.path.exists(fname):
        if not fname.endswith("csv"):
            several = len(pd.ExcelFile(fname).sheet_names) > 1
            if several and "sheet_name" not in kwargs:
                kwargs = {**kwargs, "sheet_name": "data"}
            return pd.read_excel(fname, *args, **kwargs)
        return pd.read_csv(fname, *args, **kwargs)
    raise OSError("no data file `{}` found!".format(fname))
''')]),
    ("to-csv-steps", "C24", "same", [(F, "        self.to_iamdataframe().to_csv(path, **kwargs)", "        out = self.to_iamdataframe()\n        out.to_csv(path, **kwargs)")]),
    ("iam-steps", "C24", "same", [(F, "        return LongDatetimeIamDataFrame(self.timeseries())", "        ts = self.timeseries()\n        return LongDatetimeIamDataFrame(data=ts)")]),
    ("col-steps", "C24", "same", [(P, '''            if self.data["time"].apply(lambda x: isinstance(x, str)).any():
''', '''            texts = [x for x in self.data["time"] if isinstance(x, str)]
            if texts:
''')]),
    ("col-any", "C24", "same", [(P, '''            if self.data["time"].apply(lambda x: isinstance(x, str)).any():
''', '''            if any(isinstance(x, str) for x in self.data["time"]):
''')]),
    ("col-all", "C24", "same", [(P, '''            if any(not_datetime):
''', '''            if not all(not x for x in not_datetime):
''')]),
    ("lower-only-meta", "C24", "same", [(F, "str_cols = [c for c in df.columns if isinstance(c, str)]\n    df.rename(columns={c: str(c).lower() for c in str_cols}, inplace=True)", "df.rename(columns={c: c.lower() for c in df.columns if isinstance(c, str)}, inplace=True)")]),
    ("rename-func", "C24", "same", [(F, "str_cols = [c for c in df.columns if isinstance(c, str)]\n    df.rename(columns={c: str(c).lower() for c in str_cols}, inplace=True)", "df.rename(columns=lambda c: c.lower() if isinstance(c, str) else c, inplace=True)")]),
]
