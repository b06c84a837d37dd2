"""generated data frames as plain data: {"columns": [(name, dtype, cells)], "index": labels}"""
from hypothesis import strategies as st

NAN = float("nan")
FLOATS = [float("inf"), float("-inf"), 0.0, 1.0, 2.0, -1.0, 0.5, 1e6, 300.0, 0.1, 70000.25, 1e-9]
CELLS = {
    "int64": st.one_of(st.integers(-3, 4), st.sampled_from([0, 200, 300, -200, 70000, 2**33])),
    "int8": st.integers(-3, 100), "uint16": st.integers(0, 300), "int32": st.integers(-70000, 70000),
    "uint8": st.integers(0, 255), "uint64": st.sampled_from([0, 1, 2**63, 2**64 - 1]),
    "float64": st.one_of(st.sampled_from(FLOATS), st.integers(-5, 300).map(float)),
    "float32": st.sampled_from([0.0, 1.0, 2.5, -7.0, 65504.0]), "float16": st.sampled_from([0.0, 1.5, -2.0]),
    "object": st.sampled_from(["a", "b", "", "long text", "é", " a", "A", 3, 2.5]),
    "str": st.sampled_from(["a", "b", "", "x_y", "Long Text", "é", " a", "A"]),
    "bool": st.booleans(),
    "datetime64[ns]": st.sampled_from(["2001-01-01", "2001-01-02", "1999-12-31T01:02:03"]),
    "timedelta64[ns]": st.sampled_from([0, 1, 10**9]),
    "category": st.sampled_from(["p", "q", "r"]), "other category": st.sampled_from(["p", "q", "z"]),
    "Int64": st.integers(-3, 4),
    "complex128": st.sampled_from([1j, 2 + 0j, 0j]),
}
MISSING = {"float64": NAN, "float32": NAN, "object": None, "str": None, "datetime64[ns]": None, "Int64": None,
           "category": None, "other category": None}
LABELS = {
    "range": None,
    "ints": st.integers(-3, 40), "texts": st.sampled_from(["a", "b", "c", "row", "", "é", " a", "A", "d", "e", "f", "g", "h"]),
    "floats": st.sampled_from([0.5, 1.5, 2.0, -1.0, 7.25, 9.5, 100.0, 3.5]),
}
NAMES = st.sampled_from(["a", "b", "c", "col", "x_y", "", "é", "0", 0, 1, 7, "value_", "B", " a", "a.b"])


def columns(draw, n_rows, dtypes, missing=4):
    dtype = draw(st.sampled_from(dtypes))
    cell = CELLS[dtype]
    if draw(st.integers(0, 3)) == 0:
        cell = st.just(draw(cell))
    cells = draw(st.lists(cell, min_size=n_rows, max_size=n_rows))
    if dtype in MISSING and n_rows and missing and draw(st.integers(0, missing)) == 0:
        for at in draw(st.sets(st.integers(0, n_rows - 1), max_size=n_rows)):
            cells[at] = MISSING[dtype]
    return dtype, cells


@st.composite
def frames(draw, dtypes, names=NAMES, min_rows=0, max_rows=12, min_cols=0, max_cols=5, unique_names=True,
           unique_index=True, missing=4, indexes=("range", "ints", "texts", "floats")):
    n_rows = draw(st.one_of(st.integers(min_rows, max(min_rows, min(6, max_rows))), st.integers(min_rows, max_rows)))
    n_cols = draw(st.integers(min_cols, max_cols))
    labels = draw(st.lists(names, min_size=n_cols, max_size=n_cols, unique=unique_names))
    kind = draw(st.sampled_from(indexes))
    index = None
    if kind != "range" and n_rows:
        index = draw(st.lists(LABELS[kind], min_size=n_rows, max_size=n_rows,
                              unique=unique_index and n_rows <= 8))
        if unique_index and len(set(index)) < n_rows:
            index = [f"r{i}" for i in range(n_rows)][::-1]
    made = [(name, *columns(draw, n_rows, dtypes, missing)) for name in labels]
    grown = draw(st.integers(0, 59))
    if grown == 17 and made and n_rows and min_rows < max_rows:
        # many rows
        k = 21 // n_rows + draw(st.integers(1, 3))
        made, n_rows = [(name, dtype, cells * k) for name, dtype, cells in made], n_rows * k
        if index is not None:
            index = [f"r{i}" for i in range(n_rows)][::-1] if unique_index else index * k
    if grown in (18, 19) and made and max_cols >= 4:
        # many columns
        made += [(f"w{i}", *made[i % len(made)][1:]) for i in range(draw(st.integers(21, 40)))]
    return {"columns": made, "index": index, "n_rows": n_rows,
            "axes": draw(st.sampled_from([(None, None)] * 4 + [("ix", None), (None, "cols"), ("a", "b"), ("", 0)]))}


def series(cells, dtype, index=None, name=None):
    import pandas as pd

    if dtype == "object":
        import numpy as np
        values = np.empty(len(cells), dtype=object)
        values[:] = cells
        return pd.Series(values, index=index, name=name, dtype=object)
    if dtype == "category":
        dtype = pd.CategoricalDtype(["p", "q", "r"])
    elif dtype == "other category":
        dtype = pd.CategoricalDtype(["z", "r", "q", "p"])
    return pd.Series(list(cells), index=index, name=name, dtype=dtype)


# special kinds of row labels
EXOTIC = st.sampled_from([None] * 8 + ["pairs", "dates", "category"])


def build(frame):
    import pandas as pd

    index = frame["index"]
    if index is None:
        index = pd.RangeIndex(frame["n_rows"])
    else:
        index = pd.Index(index, dtype=object if isinstance(index[0], str) else None)
    index.name, columns_name = frame.get("axes", (None, None))
    exotic = frame.get("exotic")
    if exotic == "pairs" and len(index):
        index = pd.MultiIndex.from_arrays([index, [str(label) for label in index]], names=[index.name, "second"])
    elif exotic == "dates":
        order = {label: i for i, label in enumerate(dict.fromkeys(index))}
        index = pd.DatetimeIndex([pd.Timestamp("2020-01-01") + pd.Timedelta(days=order[label]) for label in index], name=index.name)
    elif exotic == "category":
        index = pd.CategoricalIndex(index)
    cols = [series(cells, dtype, index) for _, dtype, cells in frame["columns"]]
    if not cols:
        return pd.DataFrame(index=index)
    out = pd.concat(cols, axis=1)
    out.columns = pd.Index([name for name, *_ in frame["columns"]], dtype=object, tupleize_cols=False, name=columns_name)
    return out


def is_missing(cell):
    import pandas as pd

    return not isinstance(cell, (list, tuple)) and bool(pd.isna(cell))


def same_cell(a, b):
    if is_missing(a) or is_missing(b):
        return is_missing(a) and is_missing(b)
    return bool(a == b)


def same_cells(xs, ys):
    xs, ys = list(xs), list(ys)
    return len(xs) == len(ys) and all(map(same_cell, xs, ys))


def cells_of(frame, position):
    return frame.iloc[:, position].tolist()


def identical(one, other):
    """two frames with the same columns, index, dtypes and cells"""
    return (
        list(one.columns) == list(other.columns)
        and (one.columns.name, one.index.name) == (other.columns.name, other.index.name)
        and list(one.index) == list(other.index)
        and list(one.dtypes) == list(other.dtypes)
        and all(same_cells(cells_of(one, i), cells_of(other, i)) for i in range(one.shape[1]))
    )
