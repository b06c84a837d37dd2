import gzip
import io
import itertools
import pathlib
import shutil

from hypothesis import strategies as st

from pbt.core import raises, require

ID = "C39"
RULE = (
    "one file of text with PVL end markers and null runs placed anywhere (none, adjacent, cut by the size limit, "
    "preceded by near-markers, in either order), a size limit, and a way of opening it; checked through "
    "head_file, trim_label, get_label_text and the cached variants, with existence and listing of paths; non-trivial if a marker is present or the "
    "file is longer than the limit"
)
QUICK, THOROUGH = 1200, 25000
END, NULLS = b"END\r\n", b"\x00\x00\x00"
PIECES = [
    END, END, NULLS, NULLS, b"\x00", b"\x00\x00", b"END", b"END\n", b"\r\n", b"END \r\n", b"END_OBJECT\r\n", b"end\r\n", b"EEND\r\n",
    b"A = 1\r\n", b"text", b"x", b"\n", b"\xc3\xa9", b"\x00" * 7, b"", b"END\rEND\r\n", b"END_GROUP = END\r\n",
]


@st.composite
def cases(draw):
    pieces = draw(st.lists(st.sampled_from(PIECES), max_size=12))
    if draw(st.integers(0, 3)) == 0:
        pieces = [p for p in pieces if p not in (END, b"END\rEND\r\n", b"EEND\r\n", b"END_GROUP = END\r\n")]
    if draw(st.integers(0, 3)) == 0:
        pieces = [p for p in pieces if b"\x00" not in p]
    pad = draw(st.sampled_from([0, 0, 0, 0, 0, 0, 10, 10, 1000, 1000, 40000, 40000, 70000, 140000]))
    at = draw(st.integers(0, len(pieces)))
    data = b"".join(pieces[:at] + [b"." * pad] + pieces[at:])
    limit = draw(st.one_of(
        st.none(), st.integers(0, 30), st.integers(max(0, len(data) - 8), len(data) + 3), st.just(len(data)), st.just(35592)))
    return {
        "data": data, "limit": limit, "raise": draw(st.sampled_from([None, None, True, False])),
        "listing": draw(st.lists(st.sampled_from(["a", "b.lbl", ".hidden", "é", "c d"]), unique=True, max_size=3)),
        "how": draw(st.sampled_from(["path", "str", "reader", "bytesio", "raw", "gzip", "seeked", "custom", "pathlike", "bytes",
                                     "label", "label_str", "label"])),
    }


def strategy(tier):
    return cases()


def decodable(data):
    try:
        return data.decode()
    except UnicodeDecodeError:
        return None


def outcome(func, *args, **kwargs):
    try:
        return ("value", func(*args, **kwargs))
    except UnicodeDecodeError:
        return ("undecodable",)
    except ValueError as ex:
        return ("ValueError",)


class Reader:
    """no more than what head_file asks for"""

    def __init__(self, data):
        self.stream, self.closed = io.BytesIO(data), False

    def read(self, size):
        return self.stream.read(size)

    def close(self):
        self.closed = True


class Named:
    def __init__(self, path):
        self.path = path

    def __fspath__(self):
        return str(self.path)


_serial = itertools.count()


def run_case(case):
    from dustgoggles import scrape

    data, limit, how = case["data"], case["limit"], case["how"]
    path = pathlib.Path.cwd() / f"label{next(_serial)}.img"
    require(scrape.cached_exists(path.with_suffix(".absent")) is False, path, "does not exist")
    path.write_bytes(data)
    labels = [how]
    try:
        for _ in range(2):
            require(scrape.cached_exists(str(path)) is True, path, "exists")
        if case["listing"]:
            folder = path.with_suffix(".d")
            folder.mkdir()
            for name in case["listing"]:
                (folder / name).write_bytes(b"")
            for _ in range(2):
                require(sorted(scrape.cached_ls(folder)) == sorted(case["listing"]), "listing", scrape.cached_ls(folder))
            shutil.rmtree(folder)
        given = {
            "str": str(path), "label_str": str(path), "bytes": bytes(path), "pathlike": Named(path),
        }.get(how, path)
        if how.startswith("label"):
            size = 35592 if limit is None else limit
            args = [] if limit is None else [limit]
            text = decodable(data[:size])
            want = ("undecodable",) if text is None else ("value", text)
            for loader in (scrape.get_label_text, scrape.cached_label_loader, scrape.cached_label_loader):
                got = outcome(loader, given, *args)
                require(got == want, "label text", got, "instead of", want)
            return len(data) > size, labels
        size = 500 * 1024 if limit is None else limit

        def opened():
            if how == "reader":
                return open(path, "rb")
            if how == "raw":
                return open(path, "rb", buffering=0)
            if how == "gzip":
                return gzip.open(io.BytesIO(gzip.compress(data, 1)))
            if how == "seeked":
                # reading goes on from where the reader is
                reader = io.BytesIO(b"END\r\nbefore" + data)
                reader.seek(11)
                return reader
            if how == "custom":
                return Reader(data)
            return io.BytesIO(data) if how == "bytesio" else given

        reader = opened()
        head = scrape.head_file(reader, size)
        require(not hasattr(reader, "read") or reader.closed, "the reader is left open")
        require(head.tell() == 0, "head positioned at", head.tell())
        require(head.read() == data[:size], "head differs")
        start = data[:size]
        end, nulls = start.find(END), start.find(NULLS)
        if end >= 0:
            kept = start[: end + len(END)]
            labels.append("end marker")
        elif nulls >= 0:
            kept = start[: nulls + 3]
            labels.append("nulls")
        else:
            kept = None
            labels.append("no marker")
        if kept is None and case["raise"]:
            want = ("ValueError",)
        else:
            text = decodable(start if kept is None else kept)
            want = ("undecodable",) if text is None else ("value", text)
        args = [] if limit is None else [limit]
        kwargs = {} if case["raise"] is None else {"raise_for_failure": case["raise"]}
        trimmers = [scrape.trim_label] + ([scrape.cached_label_trimmer] * 2 if how in ("path", "str", "bytes", "pathlike") else [])
        for trim in trimmers:
            got = outcome(trim, opened(), *args, **kwargs)
            require(got == want, "trimmed", got, "instead of", want)
        return kept is not None or len(data) > size, labels
    finally:
        path.unlink()
