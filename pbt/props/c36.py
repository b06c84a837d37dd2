from hypothesis import strategies as st

from pbt.core import require
from pbt.props import _parquet
from pbt.props._parquet import build, folder, freeze, quiet, rows, write

ID = "C36"
RULE = (
    "one parquet file (any row-group size, sorted, clustered or random keys, keys missing here and there or in "
    "whole row groups, with or without statistics) and a list of bounds drawn from "
    "its values, their neighbours, values between, outside and reversed; non-trivial if some but not all rows "
    "lie within and there are several row groups"
)
QUICK, THOROUGH = 250, 5000


@st.composite
def cases(draw):
    table = draw(_parquet.tables(max_rows=draw(st.sampled_from([12, 60])), key_types=(*_parquet.KEYS, "string")))
    cells = next(c for n, _, c in table["columns"] if n == "key")
    kind = next(k for n, k, _ in table["columns"] if n == "key")
    at = st.sampled_from(cells)
    if kind == "string":
        bound = st.one_of(at, at, st.sampled_from([min(cells), max(cells), max(cells) + " ", min(cells)[:-1]]), _parquet.TEXT_KEYS[0])
        return rest(draw, table, bound)
    exact = kind.startswith("float")
    near = st.builds(lambda c, d: c + d, at, st.sampled_from([-1, 1, 0, 0.5, -0.5] if exact else [-1, 1, 0]))
    edge = st.sampled_from([min(cells), max(cells), max(cells) + 1, min(cells) - 1])
    bound = st.one_of(at, near, edge)
    low, high = {"int64": (-2**54, 2**54), "int8": (-128, 127), "uint16": (0, 65535), "int32": (-2**31, 2**31 - 1),
                 "uint64": (0, 2**54)}.get(kind, (-1e301, 1e301))
    bound = bound.map(lambda b: min(max(b, low), high))
    if kind == "float32":
        bound = bound.map(lambda b: float(_single(b)))
    return rest(draw, table, bound)


def rest(draw, table, bound):
    bounds = draw(st.lists(st.tuples(bound, bound), min_size=1, max_size=4))
    if draw(st.integers(0, 3)) == 0:
        table["columns"] = [(n, k, drop(draw, c, k, table["group"]) if n == "key" else c) for n, k, c in table["columns"]]
    return {
        "statistics": draw(st.integers(0, 7)) != 3,
        "table": table, "bounds": [tuple(sorted(b)) if draw(st.integers(0, 7)) else b for b in bounds],
        "columns": draw(st.one_of(st.none(), st.lists(st.sampled_from([n for n, _, _ in table["columns"]]), min_size=1, unique=True))),
        "verbose": draw(st.sampled_from([False, False, True])),
        "reverse_records": draw(st.integers(0, 9)) == 0,
    }


def drop(draw, cells, kind, size):
    """the cells with some missing, or all of some row groups"""
    n = len(cells)
    gone = draw(st.sets(st.integers(0, n - 1), max_size=max(1, n // 2)))
    for group in draw(st.sets(st.integers(0, (n - 1) // size), max_size=3)):
        gone |= set(range(group * size, min(n, (group + 1) * size)))
    missing = st.sampled_from([None, _parquet.NAN]) if kind.startswith("float") else st.none()
    fill = draw(st.one_of(missing.map(st.just), st.just(missing)))
    return [draw(fill) if i in gone else cell for i, cell in enumerate(cells)]


def _single(value):
    import struct
    return struct.unpack("f", struct.pack("f", value))[0] if abs(value) < 3e38 else 3e38


def strategy(tier):
    return cases()


def run_case(case):
    import pyarrow as pa
    from pyarrow import parquet
    from dustgoggles.mosaic import parquet_metadata_records, read_between

    table = case["table"]
    n, size = table["n_rows"], table["group"]
    hit = False
    labels = []
    with folder() as scratch:
        path = scratch / "in.parquet"
        data = write(table, path, write_statistics=case["statistics"])
        keys, selection = data["key"].to_pylist(), {}
        if case["columns"] is not None:
            selection = {"columns": list(case["columns"])}
            data = data.select(case["columns"])
        everything = rows(data)
        present = [key is not None and key == key for key in keys]
        groups = [[k for k, here in zip(keys[i:i + size], present[i:i + size]) if here] for i in range(0, n, size)]
        # without statistics or values, whether a group is read is its own business
        untold = not case["statistics"] or not all(groups) or bool(table.get("hollow"))
        groups = [g for g in groups if g]
        reader = parquet.ParquetFile(path)
        records = [r for r in parquet_metadata_records(path) if r["path_in_schema"] == "key"]
        for low, high in case["bounds"]:
            with quiet() as said:
                out = read_between(reader, "key", (low, high), records, verbose=case["verbose"], **selection)
            if not case["verbose"]:
                require(said.getvalue() == "", "printed", said.getvalue())
            want = [row for row, key, here in zip(everything, keys, present) if here and low <= key < high]
            touching = [g for g in groups if max(g) >= low and min(g) <= high]
            overlapping = [g for g in groups if max(g) >= low and min(g) < high]
            if out is None:
                require(not overlapping, "returned None though a row group overlaps", (low, high))
                require(not want, "lost", len(want), "rows between", (low, high))
                labels.append("none")
                continue
            require(touching or untold, "returned a table though no row group reaches", (low, high))
            require(isinstance(out, pa.Table), "returned a", type(out))
            require(out.schema.names == data.schema.names, "columns", out.schema.names)
            require(rows(out) == want, "between", (low, high), "got", len(rows(out)), "rows:", rows(out)[:6],
                    "instead of", len(want), "rows:", want[:6])
            labels.append("rows" if want else "empty")
            hit |= 0 < len(want) < n and size < n
        labels += ["missing keys"] * (not all(present)) + ["no statistics"] * (not case["statistics"])
        reader.close()
    return hit, labels
