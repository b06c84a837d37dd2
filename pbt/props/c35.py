import collections
import math

from hypothesis import strategies as st

from pbt.core import require
from pbt.props import _parquet
from pbt.props._parquet import KEYS, build, folder, freeze, quiet, rows, write

ID = "C35"
RULE = (
    "one parquet file (integer or float sort column of 7 types with repeated, clustered, evenly spaced or "
    "extreme values; up to 3 other columns with missing cells and lists; any row-group size), direction, "
    "number of chunks, output row-group size and dictionary setting, inline processor, verbosity; "
    "non-trivial if rows must move and there is more than one row group and more than one chunk"
)
QUICK, THOROUGH = 250, 5000


@st.composite
def cases(draw):
    table = draw(_parquet.tables(max_rows=draw(st.sampled_from([12, 60, 200])), may_be_empty=True, may_be_long=True))
    return {
        "table": table,
        "direction": draw(st.sampled_from([None, "ascending", "descending", "descending"])),
        "n_chunks": draw(st.sampled_from([None, 1, 2, 3, 5, 11, 40])),
        "row_group_size": draw(st.sampled_from([None, 1, 3, 7, 1000])),
        "use_dictionary": draw(st.sampled_from([None, True, False, "key"])),
        "processor": draw(st.sampled_from([None, None, "identity", "mark", "cast", "drop", "drop"])),
        "schema": draw(st.booleans()),
        "verbose": draw(st.sampled_from([False, False, None, True])),
        "path": draw(st.booleans()), "version": draw(st.sampled_from([None, None, "1.0", "2.4", "2.6"])),
    }


def strategy(tier):
    return cases()


def run_case(case):
    import pyarrow as pa
    import pyarrow.compute as pac
    from pyarrow import parquet
    from dustgoggles.mosaic import sort_chunked

    table = case["table"]
    with folder() as scratch:
        source, target = scratch / "in.parquet", scratch / "out.parquet"
        data = write(table, source)
        before = source.read_bytes()
        kwargs = {k: case[k] for k in ("direction", "n_chunks", "row_group_size", "verbose", "version") if case[k] is not None}
        if case["use_dictionary"] is not None:
            kwargs["use_dictionary"] = ["key"] if case["use_dictionary"] == "key" else case["use_dictionary"]
        schema = data.schema
        calls = []
        pivot = sorted(data["key"].to_pylist() or [0])[len(data) // 2]
        if case["processor"]:
            def processor(chunk):
                calls.append(len(chunk))
                at = chunk.schema.get_field_index("serial")
                if case["processor"] == "drop":
                    return chunk.filter(pac.less(chunk["key"], pa.scalar(pivot, chunk["key"].type)))
                if case["processor"] == "identity" or at < 0:
                    return chunk
                if case["processor"] == "mark":
                    return chunk.set_column(at, "serial", pac.add(chunk["serial"], pa.scalar(1000, pa.int32())))
                return chunk.set_column(at, "serial", pac.cast(chunk["serial"], pa.string()))
            kwargs["inline_processor"] = processor
            if case["processor"] == "cast" and table["serial"]:
                at = schema.get_field_index("serial")
                schema = schema.set(at, pa.field("serial", pa.string()))
                kwargs["schema"] = schema
        if case["schema"]:
            kwargs["schema"] = schema
        with quiet() as said:
            sort_chunked(*(map(str, (source, target)) if case["path"] else (source, target)), "key", **kwargs)
        if case["verbose"] is False:
            require(said.getvalue() == "", "printed", said.getvalue())
        require(source.read_bytes() == before, "the input file changed")
        out = parquet.read_table(target)
        with parquet.ParquetFile(target) as file:
            meta = file.metadata
    if table["serial"] and case["processor"] in ("mark", "cast"):
        at = data.schema.get_field_index("serial")
        data = data.set_column(
            at, "serial",
            pac.add(data["serial"], pa.scalar(1000, pa.int32())) if case["processor"] == "mark"
            else pac.cast(data["serial"], pa.string()))
    if case["processor"] == "drop":
        data = data.filter(pac.less(data["key"], pa.scalar(pivot, data["key"].type)))
    groups = [meta.row_group(i) for i in range(meta.num_row_groups)]
    if case["row_group_size"] is not None:
        sizes = [g.num_rows for g in groups]
        require(max(sizes, default=0) <= case["row_group_size"], "row groups of", sizes, "rows")
    if case["use_dictionary"] is False:
        require(not any(g.column(i).has_dictionary_page for g in groups for i in range(meta.num_columns)), "a column has a dictionary")
    if case["version"] is not None:
        require((meta.format_version == "1.0") == (case["version"] == "1.0"), "format version", meta.format_version)
    require(out.schema.equals(schema), "schema", str(out.schema), "instead of", str(schema))
    got, want = collections.Counter(rows(out)), collections.Counter(rows(data))
    require(got == want, "extra rows", list((got - want).elements())[:5], "lost rows", list((want - got).elements())[:5])
    if case["processor"]:
        require(sum(calls) == table["n_rows"], "processed", sum(calls), "rows of", table["n_rows"])
        require(len(calls) <= (case["n_chunks"] or 10), len(calls), "chunks instead of", case["n_chunks"] or 10)
    keys = out["key"].to_pylist()
    descending = case["direction"] == "descending"
    for a, b in zip(keys, keys[1:]):
        require(a >= b if descending else a <= b, "order:", keys)
    original = data["key"].to_pylist()
    chunks = case["n_chunks"] or 10
    moves = original != keys
    return moves and table["group"] < table["n_rows"] and chunks > 1 and len(set(keys)) > 1, [
        f"chunks:{chunks}", f"direction:{case['direction']}", f"processor:{case['processor']}",
        "one value" if len(set(keys)) == 1 else "values",
        *["row groups without rows"] * bool(table.get("hollow")), *["no rows"] * (not table["n_rows"]),
    ]


def _missing_keys():
    """rows with a null or NaN sort key disappear"""
    table = {"columns": [("key", "float64", [2.0, None, 1.0, float("nan")])], "n_rows": 4, "group": 4, "serial": True}
    from pyarrow import parquet
    from dustgoggles.mosaic import sort_chunked

    with folder() as scratch:
        write(table, scratch / "i.parquet")
        sort_chunked(scratch / "i.parquet", scratch / "o.parquet", "key", verbose=False)
        return parquet.read_metadata(scratch / "o.parquet").num_rows < 4


FINDINGS = {"C35-missing-keys": _missing_keys}
ASSUMPTIONS = ["sort keys are finite and present, integers at most 2**53 in magnitude, files have statistics"]
