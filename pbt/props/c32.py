from hypothesis import strategies as st

from pbt.core import raises, require
from pbt.props import _frames
from pbt.props._frames import NAN, cells_of, identical, same_cell, same_cells

ID = "C32"
RULE = (
    "one frame and one of: a boolean predicate to split on, a repeat count, or a pattern of repeated "
    "columns (exact copies, copies of another type, copies differing in one cell or in where cells are "
    "missing); non-trivial if both halves have rows / more than one repeat / some name is repeated"
)
QUICK, THOROUGH = 600, 10000
DTYPES = ["int64", "float64", "float64", "object", "str", "bool", "datetime64[ns]", "category", "int8", "Int64"]


@st.composite
def cases(draw):
    op = draw(st.sampled_from(["split", "dupe", "drop", "drop"]))
    if op != "drop":
        frame = draw(_frames.frames(DTYPES, max_rows=25, min_cols=0 if op == "split" else 1,
                                    unique_index=draw(st.booleans()))) | {"exotic": draw(_frames.EXOTIC)}
        n = frame["n_rows"]
        case = {"op": op, "frame": frame}
        if op == "split":
            mask = st.just(draw(st.booleans())) if draw(st.integers(0, 5)) == 0 else st.booleans()
            case["mask"] = draw(st.lists(mask, min_size=n, max_size=n))
            case["predicate"] = draw(st.sampled_from(["series", "series", "boolean", "array", "shuffled", "named"]))
        else:
            case["repeats"] = draw(draw(st.sampled_from([st.integers(0, 4)] * 6 + [st.integers(5, 30)] * 6 + [st.integers(31, 300)])))
        return case
    frame = draw(_frames.frames(DTYPES, max_rows=12, min_cols=1, max_cols=4, unique_index=draw(st.booleans()), missing=1)) | {"exotic": draw(_frames.EXOTIC)}
    # repeat some columns
    columns = list(frame["columns"])
    n = frame["n_rows"]
    for _ in range(draw(st.integers(0, 4))):
        name, dtype, cells = columns[draw(st.integers(0, len(columns) - 1))]
        cells = list(cells)
        change = draw(st.sampled_from(["copy", "copy", "copy", "object", "float", "cell", "gap", "fill"]))
        if change == "object" and dtype in ("int64", "int8", "float64", "str", "bool"):
            dtype = "object"
        elif dtype == "category" and draw(st.booleans()):
            # the same cells, but other categories, or none
            dtype = draw(st.sampled_from(["other category", "str", "object"]))
        elif change == "float" and dtype in ("int64", "int8") and max(map(abs, cells), default=0) < 2**40:
            dtype, cells = "float64", [float(c) for c in cells]
        elif change in ("cell", "gap", "fill") and n:
            at = draw(st.sampled_from([0, n - 1, draw(st.integers(0, n - 1))]))
            if change == "gap" and dtype in _frames.MISSING:
                cells[at] = _frames.MISSING[dtype]
            elif change == "cell":
                cells[at] = draw(_frames.CELLS[dtype])
            elif change == "fill" and any(map(_frames.is_missing, cells)):
                at = [i for i, c in enumerate(cells) if _frames.is_missing(c)][0]
                cells[at] = draw(_frames.CELLS[dtype])
        columns.insert(draw(st.integers(0, len(columns))), (name, dtype, cells))
    if draw(st.integers(0, 29)) == 17:
        # dozens of equal ones, and possibly one that is not
        name, dtype, cells = columns[draw(st.integers(0, len(columns) - 1))]
        columns += [(name, dtype, cells)] * draw(st.integers(20, 40))
        if n and draw(st.booleans()):
            columns.append((name, dtype, [*cells[:-1], draw(_frames.CELLS.get(dtype, st.just("z")))]))
    return {"op": op, "frame": dict(frame, columns=columns)}


def strategy(tier):
    return cases()


def run_case(case):
    import pandas as pd
    from dustgoggles.pivot import check_and_drop_duplicate_columns, dupe_df_block, split_on

    df, pristine = _frames.build(case["frame"]), _frames.build(case["frame"])
    op = case["op"]
    if op == "split":
        mask = case["mask"]
        kind = case["predicate"]
        predicate = pd.Series(mask, index=df.index, dtype="boolean" if kind == "boolean" else bool)
        if kind == "array":
            predicate = predicate.to_numpy()
        elif kind == "named":
            predicate.name = df.columns[0] if df.shape[1] else "mask"
        elif kind == "shuffled" and df.index.is_unique:
            # matched by label
            predicate, mask = predicate.iloc[::-1], mask[::-1]
        given = list(mask)
        mask = case["mask"]
        halves = split_on(df, predicate)
        require(len(halves) == 2, len(halves), "parts")
        for half, flag in zip(halves, (True, False)):
            want = pristine.iloc[[i for i, m in enumerate(mask) if m is flag]]
            require(identical(half, want), f"rows where {flag}:", half.to_dict("split"), "instead of", want.to_dict("split"))
        require(predicate.tolist() == given and identical(df, pristine), "an argument changed")
        return any(mask) and not all(mask), [op]
    if op == "dupe":
        repeats = case["repeats"]
        out = dupe_df_block(df, repeats)
        require(list(out.columns) == list(pristine.columns), "columns", list(out.columns))
        require(len(out) == len(pristine) * repeats, len(out), "rows instead of", len(pristine) * repeats)
        for i in range(pristine.shape[1]):
            want = [c for c in cells_of(pristine, i) for _ in range(repeats)]
            require(same_cells(cells_of(out, i), want), "column", i, cells_of(out, i), "instead of", want)
        require(identical(df, pristine), "the input changed")
        return repeats > 1 and len(pristine) > 1, [op]
    names = list(pristine.columns)
    firsts, differ = [], False
    for i, name in enumerate(names):
        first = names.index(name)
        if first == i:
            firsts.append(i)
        elif not same_cells(cells_of(pristine, first), cells_of(pristine, i)):
            differ = True
    if differ:
        raises(ValueError, check_and_drop_duplicate_columns, df)
    else:
        out = check_and_drop_duplicate_columns(df)
        require(identical(out, pristine.iloc[:, firsts]), "columns", list(out.columns), out.to_dict("split"))
    require(identical(df, pristine), "the input changed")
    return len(firsts) < len(names), [op, "differing" if differ else "equal" if len(firsts) < len(names) else "unique"]
