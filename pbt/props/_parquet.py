"""generated parquet files as plain data"""
import contextlib
import io
import os
import pathlib
import tempfile

from hypothesis import strategies as st

NAN = float("nan")
KEYS = {
    "int64": [st.integers(-5, 5), st.integers(-1000, 1000), st.sampled_from([0, 1, 2**53 - 1, 2**53, -2**53, 7]),
              st.just(3), st.integers(-2**53, 2**53)],
    "int8": [st.integers(-128, 127), st.integers(0, 3)],
    "uint16": [st.integers(0, 65535), st.integers(0, 3)],
    "int32": [st.integers(-2**31, 2**31 - 1), st.integers(-2, 2)],
    "uint64": [st.integers(0, 2**53), st.integers(0, 4)],
    "float64": [
        st.integers(-4, 4).map(lambda x: x / 2), st.floats(-1e300, 1e300), st.floats(-1, 1),
        st.sampled_from([0.0, -0.0, 1e300, -1e300, 1e-300, 5e-324, 0.1, 0.30000000000000004]),
        st.sampled_from([0.0, 0.1, 0.2, 0.3, 0.4, 0.5, 0.6, 0.7, 0.8, 0.9, 1.0]), st.just(-2.5),
    ],
    "float32": [st.floats(-2.0**100, 2.0**100, width=32), st.integers(-3, 3).map(float)],
}
TEXT_KEYS = [st.sampled_from(["a", "b", "c", "ab", "A", "é", "", "z", "a ", "zz", "10", "9"]), st.text(alphabet="abAé ", max_size=4),
             st.integers(0, 1200).map(lambda i: f"key {i}")]
OTHERS = {
    "int64": st.integers(-9, 9), "float64": st.one_of(st.sampled_from([0.5, NAN, -1.0]), st.integers(-3, 3).map(float)),
    "string": st.sampled_from(["a", "b", "", "é", "a longer text"]), "bool": st.booleans(),
    "list": st.lists(st.integers(0, 3), max_size=2),
}


@st.composite
def tables(draw, max_rows=60, key_types=tuple(KEYS), nulls_in_others=True, may_be_empty=False, may_be_long=False):
    if may_be_empty and draw(st.integers(0, 29)) == 17:
        columns = [("key", draw(st.sampled_from(key_types)), [])]
        columns += [(f"o{i}", draw(st.sampled_from(list(OTHERS))), []) for i in range(draw(st.integers(0, 2)))]
        return {"columns": columns, "n_rows": 0, "group": 1, "serial": draw(st.booleans()),
                "hollow": draw(st.sampled_from([[], [0], [0, 0]]))}
    n = draw(st.one_of(st.integers(1, 12), st.integers(1, 12), st.integers(1, max_rows)))
    if may_be_long and draw(st.integers(0, 39)) == 17:
        # a great many rows
        key_type = draw(st.sampled_from(["int64", "float64"]))
        keys = draw(st.lists(draw(st.sampled_from(KEYS[key_type])), min_size=20, max_size=60))
        n = draw(st.integers(5000, 12000))
        # not the same order in each repetition
        cells = [keys[(i * i + i // 7) % len(keys)] for i in range(n)]
        return {"columns": [("key", key_type, cells)], "n_rows": n, "group": draw(st.sampled_from([n, 6000, 3000])),
                "serial": True, "hollow": []}
    many_groups = draw(st.integers(0, 19)) == 17
    if many_groups:
        n = draw(st.integers(22, 80))
    key_type = draw(st.sampled_from([k for k in key_types for _ in range(3 if k in ("int64", "float64") else 1)]))
    pool = TEXT_KEYS if key_type == "string" else KEYS[key_type]
    cells = draw(st.lists(draw(st.sampled_from(pool)), min_size=n, max_size=n))
    order = draw(st.sampled_from(["as is", "as is", "sorted", "reversed", "runs"]))
    if order == "sorted":
        cells.sort()
    elif order == "reversed":
        cells.sort(reverse=True)
    elif order == "runs":
        run = draw(st.integers(2, 10))
        cells = [cells[i // run] for i in range(n)]
    columns = [("key", key_type, cells)]
    for i in range(draw(st.integers(0, 3))):
        kind = draw(st.sampled_from(list(OTHERS)))
        other = draw(st.lists(OTHERS[kind], min_size=n, max_size=n))
        if nulls_in_others and draw(st.integers(0, 2)) == 0:
            for at in draw(st.sets(st.integers(0, n - 1), max_size=n)):
                other[at] = None
        columns.insert(draw(st.integers(0, len(columns))), (draw(st.sampled_from(["o", "key_", "é", "x.y"])) + str(i), kind, other))
    if draw(st.integers(0, 39)) == 17 and len(columns) > 1:
        _, kind, other = next(c for c in columns if c[0] != "key")
        many = [(f"wide{i}", kind, other) for i in range(draw(st.integers(21, 30)))]
        columns = many + columns if draw(st.booleans()) else columns + many
    return {
        "columns": columns, "n_rows": n,
        "group": draw(st.integers(1, n // 21)) if many_groups else draw(st.one_of(st.just(n), st.integers(1, 4), st.integers(1, max(1, n - 1)), st.integers(1, max(1, n // 2)))),
        "serial": draw(st.booleans()),
        "hollow": draw(st.lists(st.integers(0, 5), min_size=1, max_size=3)) if draw(st.integers(0, 14)) == 7 else [],
    }


def build(table):
    import pyarrow as pa

    types = {"string": pa.string(), "bool": pa.bool_(), "list": pa.list_(pa.int64()), "float64": pa.float64(),
             "float32": pa.float32()}
    arrays, names = [], []
    for name, kind, cells in table["columns"]:
        arrays.append(pa.array(cells, type=types.get(kind) or getattr(pa, kind)()))
        names.append(name)
    if table["serial"]:
        arrays.append(pa.array(range(table["n_rows"]), type=pa.int32()))
        names.append("serial")
    return pa.table(arrays, names=names)


@contextlib.contextmanager
def folder():
    with tempfile.TemporaryDirectory(dir=os.getcwd()) as path:
        yield pathlib.Path(path)


def write(table, path, **kwargs):
    from pyarrow import parquet

    data = build(table)
    if not table.get("hollow") and table["n_rows"]:
        parquet.write_table(data, path, row_group_size=table["group"], **kwargs)
        return data
    # row groups without rows here and there, or no row group at all
    with parquet.ParquetWriter(path, data.schema, **kwargs) as writer:
        starts = list(range(0, table["n_rows"], table["group"]))
        for i in range(max([len(starts), *(at + 1 for at in table["hollow"])])):
            for _ in range(table["hollow"].count(i)):
                writer.write_table(data.slice(0, 0))
            if i < len(starts):
                writer.write_table(data.slice(starts[i], table["group"]), row_group_size=table["group"])
    return data


def freeze(value):
    """hashable stand-in for a cell; NaN equals NaN, 0.0 differs from -0.0 and from 0"""
    if isinstance(value, list):
        return ("list", tuple(map(freeze, value)))
    return (type(value).__name__, repr(value))


def rows(table):
    columns = [[freeze(v) for v in table.column(i).to_pylist()] for i in range(table.num_columns)]
    return list(zip(*columns))


@contextlib.contextmanager
def quiet():
    stream = io.StringIO()
    with contextlib.redirect_stdout(stream):
        yield stream
