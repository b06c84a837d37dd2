import collections

from hypothesis import strategies as st

from pbt.core import require
from pbt.props import _frames
from pbt.props._frames import NAN, cells_of, is_missing, same_cell, same_cells

ID = "C33"
RULE = (
    "one input for unpack (a series of lists, of equal lengths or not, with gaps), unpack_column (a frame with such a "
    "column), smash (a frame, one to three key columns, optional allowed key values) or squeeze (a series "
    "with repeated labels, boolean or not, and an aggregate); non-trivial if there are at least two rows "
    "and (gaps, several keys, filtered rows, or repeated labels)"
)
QUICK, THOROUGH = 500, 9000
DTYPES = ["int64", "float64", "str", "object", "bool", "int8"]
AGGREGATES = ["sum", "max", "min", "mean", "count", "first", "last", "median", "nunique", "any", "all"]


@st.composite
def packed(draw):
    n = draw(st.one_of(st.integers(1, 6), st.integers(1, 20)))
    width = draw(st.sampled_from([0, 1, 2, 2, 3, 5, 1, 2, 3, 12, 25]))
    kinds = [draw(st.sampled_from(["int64", "float64", "str", "object"])) for _ in range(width)]
    rows = [[draw(_frames.CELLS[k]) for k in kinds] for _ in range(n)]
    gaps = draw(st.one_of(st.just(set()), st.sets(st.integers(0, n - 1), max_size=n)))
    kind = draw(st.sampled_from(["list", "tuple"]))
    if draw(st.integers(0, 3)) == 0:
        rows = [r[:draw(st.integers(0, width))] for r in rows]
    return n, [None if i in gaps else (tuple(r) if kind == "tuple" else r) for i, r in enumerate(rows)]


@st.composite
def cases(draw):
    op = draw(st.sampled_from(["unpack", "unpack_column", "smash", "smash", "squeeze", "squeeze"]))
    if op in ("unpack", "unpack_column"):
        n, rows = draw(packed())
        index = draw(st.sampled_from([None, [f"r{i}" for i in range(n)][::-1], [(7 * i + 3) % 101 for i in range(n)]]))
        if draw(st.booleans() if op == "unpack" else st.sampled_from([True, False, False])):
            index = draw(st.lists(st.sampled_from(["b", "a", "c"]), min_size=n, max_size=n))
        name = draw(st.sampled_from(["col", "x", "a_1", "é", 7, " x", ""]))
        case = {"op": op, "rows": rows, "index": index, "name": name}
        if op == "unpack_column":
            others = draw(_frames.frames(DTYPES, names=st.sampled_from(["k", "other", "z", "x_", "c", 3, 5]),
                                         min_rows=n, max_rows=n, indexes=("range",), max_cols=4))
            case["others"] = others["columns"]
            case["at"] = draw(st.integers(0, len(others["columns"])))
        return case
    if op == "smash":
        frame = draw(_frames.frames(DTYPES, names=st.sampled_from(["k", "other", "a_b", "z", "é", 3, "c", "q", " k", "K", "", "variable", "value"]),
                                    min_cols=1, max_cols=6, max_rows=12, unique_index=draw(st.booleans())))
        n_keys = draw(st.integers(1, min(3, len(frame["columns"]))))
        if draw(st.integers(0, 19)) == 17:
            n_keys = draw(st.integers(1, len(frame["columns"])))
        keys = draw(st.permutations([c[0] for c in frame["columns"]]))[:n_keys]
        pool = [st.sampled_from(["a", "b", "", "x y", " a", "A"]), st.integers(0, 3), st.sampled_from([0.5, 1.5, 2.0])]
        columns = []
        for name, dtype, cells in frame["columns"]:
            if name in keys:
                kind = draw(st.integers(0, 2))
                dtype = ("str", "int64", "float64")[kind]
                cells = draw(st.lists(pool[kind], min_size=frame["n_rows"], max_size=frame["n_rows"]))
            columns.append((name, dtype, cells))
        values = None
        if draw(st.booleans()):
            seen = sorted({c for name, _, cells in columns if name in keys for c in cells}, key=repr)
            values = draw(st.lists(st.sampled_from(seen + ["nope"]), max_size=6)) if seen else ["nope"]
            if draw(st.booleans()) and seen:
                values = draw(st.permutations(seen))[: draw(st.integers(len(seen) // 2, len(seen)))]
        return {"op": op, "frame": dict(frame, columns=columns), "keys": keys,
                "single": n_keys == 1 and draw(st.booleans()), "values": values,
                "as": draw(st.sampled_from(["list", "tuple", "index", "keys"])),
                "values_as": draw(st.sampled_from(["list", "tuple", "set", "keys"]))}
    n = draw(st.one_of(st.integers(1, 8), st.integers(1, 30)))
    labels = draw(st.sampled_from([
        st.integers(0, 4), st.sampled_from(["a", "b", "c", "é"]), st.integers(0, 60), st.sampled_from([0.5, 1.5, 2.0]),
    ]))
    kind = draw(st.sampled_from(["bool", "bool", "int", "float", "str"]))
    agg = draw(st.one_of(st.none(), st.sampled_from(AGGREGATES)))
    if kind == "bool":
        agg = draw(st.sampled_from([None, None, "sum", "any", "all", "first", "max", "count"]))
    if kind == "str":
        agg = draw(st.sampled_from([None, "first", "last", "max", "min", "count", "nunique"]))
    cell = {"bool": st.booleans(), "int": st.integers(-50, 50), "float": st.integers(-40, 40).map(lambda x: x / 4),
            "str": st.sampled_from(["p", "q", "", "rr"])}[kind]
    if kind == "bool" and draw(st.booleans()):
        cell = st.sampled_from([False, False, False, True])
    cells = draw(st.lists(cell, min_size=n, max_size=n))
    if kind == "float" and draw(st.booleans()):
        for i in draw(st.sets(st.integers(0, n - 1), max_size=n)):
            cells[i] = NAN
    return {"op": op, "labels": draw(st.lists(labels, min_size=n, max_size=n)), "kind": kind, "cells": cells, "agg": agg,
            "name": draw(st.sampled_from([None, "v", "value", "é", 3, "index", "label", 0])),
            "index_name": draw(st.sampled_from([None, "label", "ix", "v", "value", 0]))}


def strategy(tier):
    return cases()


def aggregate(agg, kind, cells):
    present = [c for c in cells if not is_missing(c)]
    if agg == "count":
        return len(present)
    if agg == "nunique":
        return len(set(present))
    if agg == "sum":
        return sum(present)
    if agg == "any":
        return any(bool(c) for c in present)
    if agg == "all":
        return all(bool(c) for c in present)
    if not present:
        return None
    return {
        "max": max, "min": min, "first": lambda xs: xs[0], "last": lambda xs: xs[-1],
        "mean": lambda xs: sum(xs) / len(xs),
        "median": lambda xs: (sorted(xs)[(len(xs) - 1) // 2] + sorted(xs)[len(xs) // 2]) / 2,
    }[agg](present)


def near(a, b):
    if is_missing(a) or is_missing(b):
        return same_cell(a, b)
    if isinstance(b, float):
        return abs(a - b) <= 1e-9 * max(1, abs(b))
    return a == b


def check_unpacked(frame, columns, rows, labels):
    """frame's given columns hold the lists of the rows that are not missing"""
    kept = [i for i, r in enumerate(rows) if r is not None]
    for j, column in enumerate(columns):
        got = cells_of(frame, list(frame.columns).index(column))
        for i in kept:
            if j >= len(rows[i]):
                require(is_missing(got[i]), column, "row", labels[i], "is", got[i], "although its list is shorter")
                continue
            require(same_cell(got[i], rows[i][j]), column, "row", labels[i], "is", got[i],
                    "instead of", rows[i][j])


def run_case(case):
    import pandas as pd
    from dustgoggles.pivot import smash, squeeze, unpack, unpack_column

    op = case["op"]
    if op in ("unpack", "unpack_column"):
        rows = [list(r) if isinstance(r, list) else r for r in case["rows"]]
        labels = case["index"] or list(range(len(rows)))
        packed_series = _frames.series(rows, "object", labels, case["name"])
        kept = [i for i, r in enumerate(rows) if r is not None]
        width = max((len(rows[i]) for i in kept), default=0)
        new = [f"{case['name']}_{i}" for i in range(width)]
        if op == "unpack":
            out = unpack(packed_series)
            require(list(out.columns) == new, "columns", list(out.columns))
            require(list(out.index) == [labels[i] for i in kept], "rows", list(out.index))
            for position, i in enumerate(kept):
                for column, cell in enumerate(rows[i]):
                    got = out.iloc[position, column]
                    require(same_cell(got, cell), "row", position, "column", column, "is", got, "instead of", cell)
                for column in range(len(rows[i]), width):
                    require(is_missing(out.iloc[position, column]), "row", position, "is longer than its list")
            require(packed_series.tolist() == case["rows"], "the input changed")
            return len(kept) > 1 and len(kept) < len(rows), [op]
        cols = [_frames.series(cells, dtype, labels, name) for name, dtype, cells in case["others"]]
        names = [c[0] for c in case["others"]]
        cols.insert(case["at"], packed_series)
        names.insert(case["at"], case["name"])
        df = pd.concat(cols, axis=1)
        df.columns = pd.Index(names, dtype=object)
        out = unpack_column(df, case["name"])
        require(list(df.columns) == names, "the input has columns", list(df.columns))
        rest = [n for n in names if n != case["name"]]
        require(sorted(map(repr, out.columns)) == sorted(map(repr, rest + new)), "columns", list(out.columns))
        require([c for c in out.columns if c in rest] == rest, "order of the other columns", list(out.columns))
        require(list(out.index) == labels, "rows", list(out.index))
        for name, _, cells in case["others"]:
            require(same_cells(out[name].tolist(), _frames.series(cells, _).tolist()), "column", name, out[name].tolist())
        check_unpacked(out, new, rows, labels)
        for column in new:
            got = out[column].tolist()
            require(all(is_missing(got[i]) for i, r in enumerate(rows) if r is None), "gaps filled in", column, got)
        return len(rows) > 1 and width > 0 and bool(names[1:]), [op]
    if op == "smash":
        df, pristine = _frames.build(case["frame"]), _frames.build(case["frame"])
        keys, values = case["keys"], case["values"]
        args = [keys[0] if case["single"] else {
            "list": list, "tuple": tuple, "index": lambda ks: pd.Index(ks, dtype=object), "keys": lambda ks: dict.fromkeys(ks).keys(),
        }[case["as"]](keys)]
        if values is not None:
            args.append({"list": list, "tuple": tuple, "set": set,
                         "keys": lambda vs: dict.fromkeys(vs).keys()}[case["values_as"]](values))
        out = smash(df, *args)
        require(_frames.identical(df, pristine), "the input changed")
        columns = {name: cells_of(pristine, i) for i, name in enumerate(pristine.columns)}
        want = collections.Counter()
        kept = 0
        for r in range(case["frame"]["n_rows"]):
            parts = [columns[k][r] for k in keys]
            if values is not None and not all(any(p == v for v in values) for p in parts):
                continue
            kept += 1
            for name, cells in columns.items():
                if name not in keys:
                    cell = cells[r]
                    label = "_".join(map(str, parts + [name]))
                    want[(label, "missing" if is_missing(cell) else repr(normal(cell)))] += 1
        got = collections.Counter(
            (label, "missing" if is_missing(cell) else repr(normal(cell)))
            for label, cell in zip(out.index.tolist(), out.tolist())
        )
        require(got == want, "extra", dict(got - want), "lost", dict(want - got))
        return case["frame"]["n_rows"] > 1 and len(keys) < len(columns) and (len(keys) > 1 or values is not None), [
            op, f"keys:{len(keys)}", "filtered" if values is not None else "all"]
    cells, labels, agg = case["cells"], case["labels"], case["agg"]
    dtype = {"bool": "bool", "int": "int64", "float": "float64", "str": "str"}[case["kind"]]
    index = pd.Index(labels, name=case["index_name"])
    given = pd.Series(cells, index=index, dtype=dtype, name=case["name"])
    out = squeeze(given, *([agg] if agg else []))
    require(given.index.tolist() == labels and same_cells(given.tolist(), cells), "the input changed")
    groups = {}
    for label, cell in zip(labels, cells):
        groups.setdefault(label, []).append(cell)
    require(isinstance(out, pd.Series), "returned a", type(out))
    require(sorted(map(repr, out.index.tolist())) == sorted(map(repr, groups)), "labels", out.index.tolist(),
            "instead of", list(groups))
    require(out.name == case["name"] and out.index.name == case["index_name"], "names", out.name, out.index.name)
    for label, cell in zip(out.index.tolist(), out.tolist()):
        group = groups[label]
        if agg is None:
            want = any(group) if case["kind"] == "bool" else group[0]
        else:
            want = aggregate(agg, case["kind"], group)
        require(near(cell, want), "entry", label, "is", cell, "instead of", want)
    return len(groups) < len(labels), [op, f"agg:{agg}", f"kind:{case['kind']}"]


def normal(cell):
    if isinstance(cell, bool):
        return float(cell)
    if isinstance(cell, (int, float)):
        return float(cell)
    return cell
