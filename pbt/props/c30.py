from hypothesis import strategies as st

from pbt.core import require
from pbt.props import _frames
from pbt.props._frames import cells_of, identical, same_cell, same_cells

ID = "C30"
RULE = (
    "one data frame (up to 6 columns of integer, float, boolean, text, date, duration and category "
    "types with missing cells; unique or repeated row labels, repeated column names), tolerances, "
    "nillable, reassemble and copy settings; non-trivial if some column changes type"
)
QUICK, THOROUGH = 350, 6000
DTYPES = ["int64", "int64", "float64", "float64", "float64", "int8", "uint16", "int32", "uint64", "float32",
          "float16", "object", "str", "bool", "datetime64[ns]", "timedelta64[ns]", "category"]


@st.composite
def cases(draw):
    return {
        "frame": draw(_frames.frames(DTYPES, min_rows=0, min_cols=0, max_cols=6, max_rows=20,
                                     unique_names=draw(st.booleans()), unique_index=draw(st.booleans()))) | {"exotic": draw(_frames.EXOTIC)},
        "tolerance": draw(st.sampled_from([None, None, (0, 0), (1e-3, 1e-2), (1.0, 1.0), (1e-5, 1e-9), (1e-2, 0), (0, 1e-2), (1e-9, 1e-5)])),
        "nillable": draw(st.booleans()),
        "reassemble": draw(st.integers(0, 3)) > 0,
        "copy_all": draw(st.integers(0, 3)) > 0,
        "spell": draw(st.booleans()),
    }


def strategy(tier):
    return cases()


def run_case(case):
    import numpy as np
    import pandas as pd
    from dustgoggles.pivot import downcast, downcast_df

    df, pristine = _frames.build(case["frame"]), _frames.build(case["frame"])
    kwargs = {}
    atol, rtol = case["tolerance"] or (1e-5, 1e-7)
    if case["tolerance"]:
        kwargs |= {"atol": atol, "rtol": rtol}
    for name, default in (("nillable", False), ("reassemble", True), ("copy_all", True)):
        if case["spell"] or case[name] != default:
            kwargs["use_nillable_int" if name == "nillable" else name] = case[name]
    out = downcast_df(df, **kwargs)
    require(identical(df, pristine), "the input frame changed")
    if case["reassemble"]:
        require(isinstance(out, pd.DataFrame), "returned a", type(out))
        require(list(out.columns) == list(df.columns), "columns", list(out.columns))
        require(list(out.index) == list(df.index), "row labels", list(out.index), "instead of", list(df.index))
        require((out.index.name, out.columns.name) == (df.index.name, df.columns.name), "names", out.index.name, out.columns.name)
        require(out.index.dtype == df.index.dtype, "type of the row labels", out.index.dtype)
        got = [out.iloc[:, i] for i in range(out.shape[1])]
    else:
        require(isinstance(out, list), "returned a", type(out))
        got = out
        for i, col in enumerate(got):
            require(isinstance(col, pd.Series), "list of", type(col))
            require(list(col.index) == list(df.index), "row labels", list(col.index))
    require(len(got) == df.shape[1], len(got), "columns instead of", df.shape[1])
    changed = 0
    for i, ((name, dtype, _), col) in enumerate(zip(case["frame"]["columns"], got)):
        original = pristine.iloc[:, i]
        require(col.name == name, "column", i, "is named", col.name)
        if dtype in ("object", "str", "datetime64[ns]", "timedelta64[ns]", "category"):
            require(col.dtype == original.dtype, "type of column", i, col.dtype)
            require(same_cells(col.tolist(), original.tolist()), "column", i, col.tolist())
            continue
        alone = downcast(original, atol, rtol, "pandas", case["nillable"])["recast"]
        require(col.dtype == alone.dtype, "column", i, "became", col.dtype, "but alone it becomes", alone.dtype)
        require(same_cells(col.tolist(), alone.tolist()), "column", i, col.tolist(), "alone", alone.tolist())
        changed += col.dtype != original.dtype
        slack = 1e-5 if dtype in ("float32", "float16") else 1e-9
        for a, b in zip(original.tolist(), col.tolist()):
            if a != a or (isinstance(a, float) and not np.isfinite(a)):
                require(same_cell(a, b), "cell", a, "became", b)
            elif isinstance(a, int):
                require(a == b, "cell", a, "became", b)
            else:
                require(not _frames.is_missing(b), "cell", a, "went missing")
                error = abs(float(b) - a)
                require(
                    error <= atol * (1 + slack) and error <= abs(a) * rtol * (1 + slack),
                    "cell", a, "became", b,
                )
    labels = ["reassembled" if case["reassemble"] else "list", f"nillable:{case['nillable']}",
              f"unique columns:{df.columns.is_unique}", f"unique rows:{df.index.is_unique}"]
    return changed > 0, labels
