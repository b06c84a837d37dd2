import collections

from hypothesis import strategies as st

from pbt.core import require
from pbt.props import _parquet
from pbt.props._parquet import build, folder, write

ID = "C37"
RULE = (
    "one parquet file (up to 5 columns, lists among them, any row-group size, compression, dictionary and "
    "statistics setting); metadata records and both summary frames are compared with pyarrow's own metadata; "
    "non-trivial if there is more than one row group and more than one column"
)
QUICK, THOROUGH = 160, 3000


@st.composite
def cases(draw):
    return {
        "table": draw(_parquet.tables(max_rows=draw(st.sampled_from([12, 60, 300])))),
        "compression": draw(st.sampled_from(["snappy", "none", "gzip", "zstd"])),
        "use_dictionary": draw(st.sampled_from([True, False, "key"])),
        "write_statistics": draw(st.sampled_from([True, True, False, "key"])),
        "extended": draw(st.sampled_from([None, False, True])),
    }


def strategy(tier):
    return cases()


def same(a, b):
    if type(a) is dict and type(b) is dict:
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, float) and isinstance(b, float) and a != a and b != b:
        return True
    return a == b


BRIEF = {"column": "path_in_schema", "type": "physical_type", "comp_size": "total_compressed_size",
         "uncomp_size": "total_uncompressed_size", "num_values": "num_values", "dict_page": "has_dictionary_page",
         "encodings": "encodings", "compression": "compression", "col_ix": "col_ix"}


def alike(got, want):
    if isinstance(want, (tuple, list)):
        return list(got) == list(want)
    return bool(got == want)


def run_case(case):
    import pandas as pd
    from pyarrow import parquet
    from dustgoggles.mosaic import meta_column_df, meta_record_df, parquet_metadata_records

    kwargs = {k: ["key"] if case[k] == "key" else case[k] for k in ("use_dictionary", "write_statistics")}
    with folder() as scratch:
        path = scratch / "t.parquet"
        write(case["table"], path, compression=case["compression"], **kwargs)
        meta = parquet.read_metadata(path)
        records = parquet_metadata_records(path)
        extended = {} if case["extended"] is None else {"extended": case["extended"]}
        frame = meta_record_df([dict(r) for r in records], **extended)
        turned = meta_column_df(path, **extended)
    chunks = collections.defaultdict(dict)
    for g in range(meta.num_row_groups):
        for c in range(meta.num_columns):
            chunks[c][g] = meta.row_group(g).column(c).to_dict()
    seen = collections.Counter((r["col_ix"], r["row_group"]) for r in records)
    require(
        seen == collections.Counter((c, g) for c in chunks for g in chunks[c]),
        "records for", dict(seen),
    )
    for record in records:
        want = dict(chunks[record["col_ix"]][record["row_group"]])
        statistics = want.pop("statistics", None)
        # "num_values" names both the chunk's length and the statistics' count of present values
        counts = [want.pop("num_values")] + ([statistics["num_values"]] if statistics else [])
        require(record.get("num_values") in counts, "value count", record.get("num_values"), "instead of", counts)
        for key, value in want.items():
            require(key in record and same(record[key], value), "record", key, record.get(key), "instead of", value)
        for key, value in (statistics or {}).items():
            if key not in want and key != "num_values":
                require(key in record and same(record[key], value), "statistic", key, record.get(key), "instead of", value)
        expected = set(want) | {"num_values"} | set(statistics or {}) | {"row_group", "col_ix"}
        require(set(record) - {"statistics"} <= expected, "unknown fields", set(record) - expected)
    # summaries
    names = [chunks[c][0]["path_in_schema"] for c in sorted(chunks)]
    require(list(frame["column"]) == names, "columns", list(frame["column"]), "instead of", names)
    require(list(turned.columns) == names, "columns", list(turned.columns), "instead of", names)
    if not case["extended"]:
        require(set(frame.columns) == set(BRIEF), "a brief summary holds", list(frame.columns))
    for c, name in enumerate(names):
        parts = list(chunks[c].values())
        sums = {
            "type": parts[0]["physical_type"],
            "num_values": sum(r["num_values"] for r in records if r["col_ix"] == c),
            "comp_size": sum(p["total_compressed_size"] for p in parts),
            "uncomp_size": sum(p["total_uncompressed_size"] for p in parts),
        }
        for field, want in sums.items():
            got = frame[field].iloc[c]
            require(got == want, "summary of", name, field, got, "instead of", want)
            got = turned.loc[field].iloc[c]
            require(got == want, "column summary of", name, field, got, "instead of", want)
        # everything else is told if it is the same in every row group
        mine = [r for r in records if r["col_ix"] == c]
        for field in BRIEF if not case["extended"] else set(mine[0]) - set(BRIEF.values()) | set(BRIEF):
            key = BRIEF.get(field, field)
            if key in sums or field in sums or key == "statistics":
                continue
            values = [r.get(key) for r in mine]
            if any(not same(v, values[0]) for v in values) or any(v is None or v != v for v in values):
                continue
            require(field in frame.columns, "no", field, "in", list(frame.columns))
            for got in (frame[field].iloc[c], turned.loc[field].iloc[c]):
                require(alike(got, values[0]), "summary of", name, field, got, "instead of", values[0])
    return meta.num_row_groups > 1 and meta.num_columns > 1, [
        f"groups>1:{meta.num_row_groups > 1}", f"extended:{case['extended']}"]
