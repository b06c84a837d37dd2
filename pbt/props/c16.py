import json
import os
import pathlib
import shutil
import tempfile

from hypothesis import strategies as st

from pbt.core import Violation, require
from pbt.gen import names, same, small_ints

ID = "C16"
RULE = (
    "up to 25 track / dump / pause / clear / new-tracker operations over up to 3 trackers writing to "
    "up to 2 paths, metadata sometimes not JSON-serializable; after every operation each log file is "
    "parsed and compared; non-trivial if a file held at least 2 dumps and some dump failed or was "
    "paused"
)
QUICK, THOROUGH = 700, 12000

JSONABLE = st.one_of(
    small_ints, names, st.text(max_size=10), st.sampled_from([None, True, 1.5, "]", "],[", "\n", "\x00", "\ud800", "\u2028", 10**30]),
    st.lists(st.one_of(small_ints, names), max_size=3),
    st.dictionaries(names, small_ints, max_size=2),
)
BAD = ["object", "set", "bytes", "cycle", "tuplekey", "complex", "deep"]


def bad_value(kind):
    if kind == "object":
        return object()
    if kind == "set":
        return {1}
    if kind == "bytes":
        return b"x"
    if kind == "complex":
        return 1j
    if kind == "tuplekey":
        return {(1, 2): 3}
    if kind == "cycle":
        cycle = []
        cycle.append(cycle)
        return cycle
    # serializable start, failure late in the stream
    return ["fine"] * 50 + [{"fine": [object()]}]


def more(mappings):
    """now and then with many more keys"""
    return st.tuples(mappings, st.integers(0, 99), st.integers(21, 40)).map(
        lambda x: x[0] | ({f"k{i}": i for i in range(x[2])} if x[1] == 17 else {}))


def op_strategy():
    which = st.sampled_from([0, 0, 1, 2])
    return st.one_of(
        st.tuples(st.just("track"), which, more(st.dictionaries(st.sampled_from("abc"), JSONABLE, max_size=2))),
        st.tuples(st.just("dump"), which),
        st.tuples(st.just("dump"), which),
        st.tuples(st.just("dump"), which),
        st.tuples(st.just("dump"), st.just(0)),
        st.tuples(st.just("bad"), which, st.sampled_from(BAD)),
        st.tuples(st.just("pause"), which, st.sampled_from([True, False, False])),
        st.tuples(st.just("clear"), st.sampled_from([1, 2])),
        st.tuples(st.just("meta"), which, more(st.dictionaries(st.sampled_from("xyz"), JSONABLE, max_size=1))),
        st.tuples(st.just("new"), which, st.sampled_from(["", "other", "other.2", "run 1", "é"])),
        st.tuples(st.just("big"), which),
    )


# pairs of names that something less than the whole name would confuse
NAME_PAIRS = [("log", "log2"), ("log", "log2"), ("run.1", "run.2"), ("a b", "a"), ("é", "e"), ("Log", "log"), ("x" * 60 + "1", "x" * 60 + "2"),
              ("log.json", "log"), ("_log", "log"), ("log ", "log"),
              ("a b", "a_b"), ("a.b", "a_b"), ("a-b", "a_b"), ("e\u0301", "é"), ("log", "log.json.json"), ("1", "01"), ("log\t", "log")]


def strategy(tier):
    return st.tuples(st.sampled_from(NAME_PAIRS), st.lists(op_strategy(), min_size=8, max_size=30))


def some_function():
    pass


def through_json(thing):
    return json.loads(json.dumps(thing))


class Mirror:
    """one tracker, its path, and the history it should have"""

    def __init__(self, tracker, path):
        self.tracker, self.path = tracker, path
        self.history, self.metadata, self.paused, self.bad = [], {}, False, False


def run_case(case):
    from dustgoggles.tracker import Tracker

    names_, ops = case

    root = os.environ.get("VERIF_SCRATCH", tempfile.gettempdir())
    scratch = pathlib.Path(tempfile.mkdtemp(dir=root))
    try:
        return history(names_, ops, scratch, Tracker)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def history(names_, ops, scratch, Tracker):
    files = {}  # path: list of dumped states
    mirrors, paths = {}, {}

    def new(number, identifier):
        # tracker 0 and 1 share a path, unless another identifier is asked for
        name = names_[0 if number < 2 else 1]
        tracker = Tracker(name, identifier=identifier, outdir=scratch)
        mirrors[number] = Mirror(tracker, pathlib.Path(tracker.outpath))
        paths[name, identifier] = mirrors[number].path
        require(len(set(paths.values())) == len(paths), "two logs share a file", paths)

    for number in range(3):
        new(number, "")
    require(mirrors[0].path == mirrors[1].path, "equal names and folders give different paths")
    require(mirrors[0].path != mirrors[2].path, "different names give one path")
    require(all(m.path.parent == scratch for m in mirrors.values()), "outdir is not used")
    most = interrupted = 0
    for op in ops:
        mirror = mirrors[op[1]]
        tracker = mirror.tracker
        if op[0] in ("track", "bad", "big"):
            times = 30 if op[0] == "big" else 1
            for i in range(times):
                metadata = op[2] if op[0] == "track" else {"a": "x" * (40 * i)}
                if op[0] == "bad":
                    metadata = {"a": bad_value(op[2])}
                    mirror.bad = True
                tracker.track(some_function, **metadata)
                record = dict(target="some_function", trackcount=len(mirror.history) + 1)
                mirror.history.append(record | mirror.metadata | metadata)
        elif op[0] == "meta":
            tracker.set_metadata(**op[2])
            mirror.metadata = mirror.metadata | op[2]
        elif op[0] == "pause":
            tracker.paused = mirror.paused = op[2]
        elif op[0] == "clear":
            tracker.clear()
            mirror.history, mirror.bad = [], False
            files.pop(mirror.path, None)
        elif op[0] == "new":
            new(op[1], op[2])
        else:
            raw = mirror.path.read_bytes() if mirror.path.exists() else None
            if mirror.paused:
                tracker.dump()
                interrupted += 1
            elif mirror.bad:
                interrupted += 1
                try:
                    tracker.dump()
                except Exception:
                    pass
                else:
                    raise Violation("dumping something unserializable did not raise")
            else:
                tracker.dump()
                files.setdefault(mirror.path, []).append(
                    (tracker.name, through_json(mirror.history))
                )
            if mirror.paused or mirror.bad:
                now = mirror.path.read_bytes() if mirror.path.exists() else None
                require(now == raw, "a paused or failed dump changed the file")
        for path in {m.path for m in mirrors.values()} | set(files):
            if path not in files:
                require(not path.exists(), path.name, "exists")
                continue
            try:
                content = json.loads(path.read_text(encoding="utf-8"))
            except ValueError as ex:
                raise Violation(f"the log is not JSON: {ex}: {path.read_bytes()[:400]!r}")
            require(type(content) is list, "the log is a", type(content))
            got = []
            for state in content:
                for record in state["history"]:
                    record.pop("lineno", None)
                    record.pop("caller", None)
                got.append((state["name"], state["history"]))
            require(same(got, files[path]), "the log holds", got, "instead of", files[path])
            most = max(most, len(got))
        extra = set(os.listdir(scratch)) - {p.name for p in files}
        require(not extra, "unexpected files", extra)
    return most >= 2 and interrupted > 0, [f"dumps:{min(most, 6)}", f"blocked:{min(interrupted, 3)}"]
