from hypothesis import strategies as st

from pbt.core import raises, require
from pbt.props import _frames
from pbt.props._frames import cells_of, identical, is_missing, same_cell

ID = "C31"
RULE = (
    "one frame (integer, float, text, mixed, list, boolean, date, categorical, nullable, complex and nested columns drawn from few values, so that constant rows and "
    "columns are common; missing cells; unique or repeated labels), orientation, and the to_dict, drop_constants and "
    "dropna settings; non-trivial if some but not all columns (rows) are constant"
)
QUICK, THOROUGH = 250, 8000


# without a missing value
WHOLE = ("bool", "uint8")


@st.composite
def cases(draw):
    n_rows = draw(st.one_of(st.integers(1, 5), st.integers(1, 5), st.integers(6, 30)))
    n_cols = draw(st.one_of(st.integers(1, 4), st.integers(1, 4), st.integers(5, 12)))
    names = draw(st.permutations([f"c{i}" for i in range(n_cols - 1)] + [draw(st.sampled_from(["", 0, "é", "z"]))]))
    palette = draw(st.sampled_from(["int", "int", "mixed", "text", "list", "typed", "nested"]))
    how = draw(st.sampled_from(["rows", "columns", None]))
    constant_rows = draw(st.sets(st.integers(0, n_rows - 1), max_size=3)) if how == "columns" else set()
    columns = []
    shared = draw(st.integers(-2, 3))
    for name in names:
        kind = palette if palette != "mixed" else draw(st.sampled_from(["int", "float", "text", "object", "list"]))
        if palette == "int":
            kind = draw(st.sampled_from(["int", "float"]))
        elif palette == "typed":
            kind = draw(st.sampled_from(["bool", "bool", "datetime64[ns]", "category", "Int64", "complex128", "int", "uint8", "timedelta64[ns]"]))
        cell = {
            "int": st.integers(-2, 2), "float": st.sampled_from([0.0, 1.0, -1.0, 2.0, 2.5]),
            "text": st.sampled_from(["a", "b", ""]), "object": st.sampled_from(["a", 1, 2.5, 0]),
            # as many elements as there are rows, or columns, or not
            "list": st.one_of(st.lists(st.integers(0, 1), max_size=3), st.sampled_from([[0] * n_rows, [0] * n_cols, (0,), (), "a"])),
            "nested": st.sampled_from([{}, {"a": 1}, {"a": 1, "b": [2]}, {0: 0}, set(), {1}, frozenset([1]), (1, 2), b"a", "a"]),
            **_frames.CELLS, "uint8": st.integers(0, 2),
            "object": st.sampled_from(["a", 1, 2.5, 0, True, "1"]),
        }[kind]
        if draw(st.integers(0, 2)) == 0:
            cell = st.just(draw(cell))
        cells = draw(st.lists(cell, min_size=n_rows, max_size=n_rows))
        if kind in ("int", "float"):
            for r in constant_rows:
                cells[r] = shared if kind == "int" else float(shared)
        if kind in WHOLE:
            if n_rows > 1 and draw(st.integers(0, 2)) == 0:
                cells = [cells[0]] * (n_rows - 1) + cells[-1:]
        elif kind != "int" and draw(st.integers(0, 2)) == 0:
            gaps = range(n_rows) if draw(st.integers(0, 3)) == 0 else draw(
                st.sets(st.integers(0, n_rows - 1), max_size=n_rows))
            for r in gaps:
                cells[r] = _frames.NAN if kind == "float" else None
        elif kind != "int" and n_rows > 1 and draw(st.integers(0, 3)) == 0:
            # constant but for one cell at the very end or start
            cells = [cells[0]] * n_rows
            cells[draw(st.sampled_from([0, -1]))] = draw(
                st.sampled_from([cells[0], None if kind != "float" else _frames.NAN]))
        columns.append((name, {"int": "int64", "float": "float64", "text": "str", "object": "object", "list": "object", "nested": "object"}.get(kind, kind), cells))
    index = draw(st.sampled_from([None, "texts", "ints"]))
    if index == "texts":
        index = [f"r{i}" for i in range(n_rows)][::-1]
    elif index == "ints":
        index = [(7 * i + 3) % 101 for i in range(n_rows)]
    if draw(st.integers(0, 4)) == 0:
        if index is None:
            index = list(range(n_rows))
        index = [index[i] for i in draw(st.lists(st.integers(0, n_rows - 1), min_size=n_rows, max_size=n_rows))]
    if draw(st.integers(0, 4)) == 0:
        columns = [(draw(st.sampled_from(names)), kind, cells) for _, kind, cells in columns]
    empty = draw(st.integers(0, 39))
    if empty in (20, 22):
        n_rows, index, columns = 0, None, [(name, kind, []) for name, kind, _ in columns]
    if empty in (21, 22):
        columns = []
    return {
        "frame": {"columns": columns, "index": index, "n_rows": n_rows, "exotic": draw(_frames.EXOTIC),
                  "axes": draw(st.sampled_from([(None, None)] * 4 + [("ix", None), (None, "cols"), ("a", "b"), ("", 0)]))}, "how": how,
        "to_dict": draw(st.sampled_from([None, True, False])),
        "drop_constants": draw(st.sampled_from([None, True, False, True])),
        "dropna": draw(st.sampled_from([None, True, False])),
        "unknown": draw(st.integers(0, 15)) == 0,
    }


def strategy(tier):
    return cases()


def run_case(case):
    import pandas as pd
    from dustgoggles.pivot import extract_constants

    df, pristine = _frames.build(case["frame"]), _frames.build(case["frame"])
    kwargs = {k: case[k] for k in ("how", "to_dict", "drop_constants", "dropna") if case[k] is not None}
    if case["unknown"]:
        raises(ValueError, extract_constants, df, how="row")
        raises(ValueError, extract_constants, df, how="index")
    how = case["how"] or "rows"
    to_dict = case["to_dict"] is not False
    dropna = case["dropna"] is not False
    drop = case["drop_constants"] is True
    grid = [cells_of(pristine, i) for i in range(pristine.shape[1])]
    lines = grid if how == "rows" else [[cells[r] for cells in grid] for r in range(len(pristine))]
    constant, values = [], []
    for line in lines:
        present = [x for x in line if not is_missing(x)]
        equal = all(x == present[0] for x in present)
        if dropna:
            is_constant = equal
        else:
            is_constant = equal and len(present) == len(line)
        constant.append(is_constant)
        values.append(present[0] if present else None)
    constants, rest = extract_constants(df, **kwargs)
    require(identical(df, pristine), "the input changed")
    axis = pristine.columns if how == "rows" else pristine.index
    at = [i for i, c in enumerate(constant) if c]
    others = [i for i, c in enumerate(constant) if not c]
    if to_dict:
        require(type(constants) is dict, "constants are a", type(constants))
        labels = list(dict.fromkeys(axis[i] for i in at))
        require(list(constants) == labels or sorted(map(repr, constants)) == sorted(map(repr, labels)),
                "constant labels", list(constants), "instead of", [axis[i] for i in at])
        for i in at:
            got = constants[axis[i]]
            # which of several constants of one label is kept is open
            require(any(same_cell(got, values[j]) for j in at if axis[j] == axis[i]),
                    "constant", axis[i], "is", got, "instead of", values[i])
    else:
        want = pristine.iloc[:, at] if how == "rows" else pristine.iloc[at]
        require(isinstance(constants, pd.DataFrame), "constants are a", type(constants))
        require(identical(constants, want), "constants", constants.to_dict(), "instead of", want.to_dict())
    if drop:
        want = pristine.iloc[:, others] if how == "rows" else pristine.iloc[others]
    else:
        want = pristine
    require(identical(rest, want), "remaining frame", rest.to_dict(), "instead of", want.to_dict())
    return bool(at) and bool(others), [
        f"how:{how}", f"dict:{to_dict}", f"drop:{drop}", f"dropna:{dropna}",
        "some constant" if at else "none constant", *["repeated labels"] * (not axis.is_unique),
        *["empty"] * (not pristine.size),
    ]
