import collections
import datetime

from hypothesis import strategies as st

from pbt.core import require
from pbt.props import _frames
from pbt.props._frames import cells_of, identical, is_missing, same_cells

ID = "C34"
RULE = (
    "one input for junction (two frames sharing columns, a named set operation), unique_to_records, "
    "typed_columns / numeric_columns (frames of 14 column types, repeated names, type names in any case), "
    "pdstr (a string method and arguments) or itemize_numpy; non-trivial if rows repeat, some columns are "
    "dropped, or the object is a numpy scalar"
)
QUICK, THOROUGH = 600, 10000
DTYPES = ["int64", "float64", "str", "object", "bool", "int8", "uint16", "uint64", "float32", "float16",
          "datetime64[ns]", "timedelta64[ns]", "category", "Int64", "complex128", "int32", "uint8"]
OPERATIONS = ["difference", "intersection", "union", "symmetric_difference", "issubset", "issuperset", "isdisjoint"]
METHODS = [
    ("upper", (), {}), ("lower", (), {}), ("strip", (), {}), ("len", (), {}), ("title", (), {}),
    ("contains", ("a",), {}), ("contains", ("[ab]",), {"regex": True}), ("contains", (".",), {"regex": False}),
    ("startswith", ("a",), {}), ("endswith", ("b",), {}), ("replace", ("a", "ZZ"), {}),
    ("replace", ("[ab]", "-"), {"regex": True}), ("zfill", (6,), {}), ("pad", (5,), {"side": "both", "fillchar": "."}),
    ("slice", (0, 2), {}), ("slice", (), {"start": 1, "step": 2}), ("split", ("_",), {}), ("count", ("a",), {}),
    ("split", ("_",), {"n": 1, "expand": True}), ("find", ("b",), {}), ("cat", (), {"sep": ","}), ("repeat", (2,), {}),
    ("replace", (), {"repl": "Z", "pat": "a"}), ("replace", (), {"regex": True, "repl": "-", "pat": "[ab]"}),
    ("contains", ("a",), {"regex": False, "case": False}), ("split", (), {"expand": True, "n": 1, "pat": "_"}),
    ("pad", (), {"fillchar": "*", "width": 4}), ("contains", (), {"na": False, "pat": "b"}), ("slice", (), {"stop": 3, "start": 1}),
    ("slice_replace", (), {"repl": "..", "start": 1, "stop": 2}), ("partition", ("_",), {"expand": False}), ("rsplit", ("_",), {"n": 1}),
    ("normalize", ("NFD",), {}), ("findall", ("a",), {}), ("get_dummies", ("_",), {}), ("isalpha", (), {}),
    ("get", (0,), {}), ("match", ("a",), {}), ("extract", ("(a)(b)?",), {}),
]
TYPE_NAMES = ["int", "float", "INT", "Float", "uint", "int8", "int16", "float32", "bool", "object", "datetime", "str",
              "category", "complex", "timedelta", "nope", "Int64", "i", "f", "obj"]
NUMPY = [
    ("bool_", True), ("int8", -3), ("uint8", 200), ("int64", -2**62), ("uint64", 2**64 - 1), ("float16", 0.1),
    ("float32", 0.1), ("float64", 0.1), ("float64", float("inf")), ("complex128", 1 + 2j), ("complex64", 1j),
    ("str_", "é"), ("bytes_", b"x"), ("int32", 7), ("float64", -0.0), ("uint16", 0), ("float64", float("nan")),
    ("datetime64", "2001-01-01"), ("datetime64", "2001-01-01T01:02:03"), ("timedelta64", 3), ("int16", -1), ("uint32", 2**32 - 1),
]
CELL = {"i": st.integers(0, 2), "s": st.sampled_from(["a", "b", ""]), "f": st.sampled_from([0.5, 1.0, 2.0]),
        "b": st.booleans(), "I": st.integers(0, 40), "M": st.integers(0, 999)}
KIND = {"i": "int64", "s": "str", "f": "float64", "b": "bool", "I": "int64", "M": "int64"}


def table(draw, kinds, names, max_rows):
    n = draw(st.integers(0, max_rows))
    if "M" in kinds:
        n = draw(st.integers(40, 90))
    columns = []
    for name, kind in zip(names, kinds):
        cells = draw(st.lists(CELL[kind], min_size=n, max_size=n))
        if kind in "sf" and draw(st.integers(0, 2)) == 0 and n:
            for i in draw(st.sets(st.integers(0, n - 1), max_size=max(1, n // 2))):
                cells[i] = _frames.NAN if kind == "f" else None
        columns.append((name, KIND[kind], cells))
    columns = draw(st.permutations(columns))
    return {"columns": columns, "n_rows": n, "index": [f"r{i % 4}" for i in range(n)] if n and draw(st.booleans()) else None}


@st.composite
def cases(draw):
    op = draw(st.sampled_from(["junction", "junction", "unique", "typed", "typed", "pdstr", "itemize"]))
    if op in ("junction", "unique"):
        width = draw(st.integers(1, 4))
        kinds = [draw(st.sampled_from("isfbI")) for _ in range(width)]
        names = draw(st.permutations(["a", "b", "c", "d", 3, "é"]))[:width]
        if draw(st.integers(0, 19)) == 17:
            # dozens of columns
            names += [f"w{i}" for i in range(draw(st.integers(20, 30)))]
            kinds += [draw(st.sampled_from("isfbI"))] * (len(names) - width)
            width = len(names)
        if draw(st.integers(0, 9)) == 7:
            # dozens of rows, mostly different
            kinds[0] = "M"
        rows = draw(st.sampled_from([6, 6, 25]))
        one = table(draw, kinds, names, rows)
        used = draw(st.permutations(names))[: draw(st.integers(1, width))]
        if "M" in kinds and names[0] not in used and draw(st.integers(0, 3)):
            used[0] = names[0]
        case = {"op": op, "one": one, "columns": used}
        if op == "junction":
            case["two"] = table(draw, kinds, names, rows)
            case["method"] = draw(st.sampled_from([None] + OPERATIONS))
            case["container"] = draw(st.sampled_from(["list", "tuple", "keys", "index"]))
        return case
    if op == "typed":
        frame = draw(_frames.frames(DTYPES, max_rows=4, max_cols=8, unique_names=draw(st.booleans()),
                                    unique_index=draw(st.booleans())))
        if not frame["columns"]:
            frame["index"], frame["n_rows"] = None, 0
        names = draw(st.one_of(st.sampled_from(TYPE_NAMES), st.lists(st.sampled_from(TYPE_NAMES), min_size=1, max_size=3)))
        return {"op": op, "frame": frame, "names": names if isinstance(names, str) else draw(st.sampled_from([tuple, list]))(names)}
    if op == "pdstr":
        n = draw(st.integers(0, 8))
        cells = draw(st.lists(st.sampled_from(["a", "b", "ab", "a_b_a", "", "  pad ", "É", "abab", None]), min_size=n, max_size=n))
        return {"op": op, "cells": cells, "method": draw(st.integers(0, len(METHODS) - 1)),
                "dtype": draw(st.sampled_from(["str", "object"])), "twice": draw(st.booleans()), "other": draw(st.lists(st.sampled_from(["b", "aa", "x y", " "]), max_size=3)),
                "name": draw(st.sampled_from(["s", "s", None]))}
    return {"op": op, "numpy": draw(st.booleans()), "which": draw(st.integers(0, len(NUMPY) - 1)),
            "plain": draw(st.one_of(st.none(), st.integers(), st.text(max_size=3), st.lists(st.integers(), max_size=2),
                                    st.floats(allow_nan=False), st.booleans(), st.sampled_from(["array", "0d", "object"])))}


def strategy(tier):
    return cases()


def row_tuples(frame, columns):
    names = list(frame.columns)
    data = [cells_of(frame, names.index(c)) for c in columns]
    return [row for row in zip(*data) if not any(map(is_missing, row))]


def run_case(case):
    import numpy as np
    import pandas as pd
    from dustgoggles import pivot

    op = case["op"]
    if op in ("junction", "unique"):
        df1, columns = _frames.build(case["one"]), list(case["columns"])
        rows1 = row_tuples(df1, columns)
        if op == "unique":
            out = pivot.unique_to_records(df1, columns)
            require(isinstance(out, pd.DataFrame), "returned a", type(out))
            if rows1:
                require(list(out.columns) == columns, "columns", list(out.columns))
            got = list(zip(*[cells_of(out, i) for i in range(out.shape[1])]))
            require(len(got) == len(out) == len(set(got)), "repeated records", got)
            require(set(got) == set(rows1), "records", sorted(got), "instead of", sorted(set(rows1)))
            return len(set(rows1)) < len(rows1), [op]
        df2 = _frames.build(case["two"])
        rows2 = row_tuples(df2, columns)
        args = [case["method"]] if case["method"] else []
        given = {"list": list, "tuple": tuple, "keys": lambda cs: dict.fromkeys(cs).keys(),
                 "index": lambda cs: pd.Index(cs, dtype=object)}[case["container"]](columns)
        out = pivot.junction(df1, df2, given, *args)
        want = getattr(set(rows1), case["method"] or "difference")(set(rows2))
        require(type(out) is type(want), "returned a", type(out))
        require(out == want, "junction", out, "instead of", want)
        require(identical(df1, _frames.build(case["one"])) and identical(df2, _frames.build(case["two"])), "an input changed")
        return bool(set(rows1) & set(rows2)), [op, f"method:{case['method']}"]
    if op == "typed":
        df, pristine = _frames.build(case["frame"]), _frames.build(case["frame"])
        for names, got in ((case["names"], pivot.typed_columns(df, case["names"])),
                           (("int", "float"), pivot.numeric_columns(df))):
            names = (names,) if isinstance(names, str) else tuple(names)
            prefixes = tuple(p for n in names for p in (n.lower(), "u" + n.lower()))
            keep = [i for i, t in enumerate(pristine.dtypes) if t.name.lower().startswith(prefixes)]
            require(identical(got, pristine.iloc[:, keep]), names, "selected", list(got.columns), list(got.dtypes),
                    "instead of", [(pristine.columns[i], pristine.dtypes.iloc[i]) for i in keep])
        require(identical(df, pristine), "the input changed")
        if pristine.shape[1]:
            # one column on its own
            alone, names = df.iloc[:, 0], case["names"]
            names = tuple(p for n in ((names,) if isinstance(names, str) else names) for p in (n.lower(), "u" + n.lower()))
            got, kind = pivot.typed_columns(alone, case["names"]), alone.dtype.name.lower()
            if kind.startswith(names):
                pd.testing.assert_series_equal(got, alone)
            else:
                require(isinstance(got, pd.DataFrame) and got.shape == (len(alone), 0), "of one column", kind, names, "selected", got)
                require(list(got.index) == list(alone.index), "labels", list(got.index))
        return 0 < len(keep) < pristine.shape[1], [op]
    if op == "pdstr":
        name, args, kwargs = METHODS[case["method"]]
        series = pd.Series(case["cells"], dtype=case["dtype"], index=range(3, 3 + len(case["cells"])), name=case["name"])
        mapped = pivot.pdstr(name, *args, **kwargs)
        if case["twice"]:
            # used for something else before
            try:
                mapped(pd.Series(case["other"], dtype=case["dtype"], name=case["name"]))
            except Exception:
                pass
        try:
            want = getattr(series.str, name)(*args, **kwargs)
        except Exception as ex:
            try:
                got = mapped(series)
            except Exception as other:
                require(type(other) is type(ex), "raised", other, "instead of", ex)
                return False, [op, "raises"]
            require(False, "did not raise", ex)
        for got in [mapped(series)] + ([mapped(series)] if case["twice"] else []):
            require(type(got) is type(want), "returned a", type(got))
            if isinstance(want, pd.Series):
                pd.testing.assert_series_equal(got, want)
            elif isinstance(want, pd.DataFrame):
                pd.testing.assert_frame_equal(got, want)
            else:
                require(got == want, got, "instead of", want)
        return bool(case["cells"]), [op]
    if case["numpy"]:
        kind, value = NUMPY[case["which"]]
        scalar = getattr(np, kind)(value)
        out = pivot.itemize_numpy(scalar)
        require(not isinstance(out, np.generic), "still a numpy scalar", type(out))
        require(type(out) in (bool, int, float, complex, str, bytes, datetime.date, datetime.datetime), "became a", type(out))
        require((out == scalar or value != value and out != out) and type(out) is type(np.asarray(scalar).item()), out, "instead of", scalar)
        return True, [op]
    plain = case["plain"]
    plain = {"array": np.arange(3), "0d": np.array(3), "object": object()}.get(plain, plain) if isinstance(plain, str) else plain
    require(pivot.itemize_numpy(plain) is plain, "changed", plain)
    return False, [op]
