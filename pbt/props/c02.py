from hypothesis import strategies as st

from pbt.core import Violation, require
from pbt.props import _shm
from pbt.props._shm import Raised, ensure, same

ID = "C02"
RULE = (
    "one history on one Notepad (three codecs) or GridPaper through up to four handles in two processes, mixing sets "
    "and deletes that must succeed with ones that must raise (values that cannot be encoded at all or part of the way "
    "in, arrays of objects, metadata that the index cannot hold, unusable, over-long, absent, present and reserved keys); before and after every failing "
    "call all values and listings are compared through every handle; non-trivial if an operation failed while entries "
    "were present"
)
QUICK, THOROUGH = 300, 2000
CASE_TIMEOUT = 60


class Unpicklable:
    def __reduce__(self):
        raise ValueError("cannot be pickled")

    def __repr__(self):
        raise ValueError("has no repr")


class Shape:
    """quacks like an array until it is stored"""
    size, itemsize, shape = 3, 8, (3,)


def bad_value(kind, codec):
    import numpy as np

    return {
        "lambda": lambda: lambda: 1, "late": lambda: ["x" * 500, {"a": Unpicklable()}], "self": Unpicklable,
        "set": lambda: {"a": {1, 2}}, "object": object, "bytes": lambda: ["a", b"b"],
        "circular": lambda: circular(), "list": lambda: [1, 2, 3], "none": lambda: None, "int": lambda: 3,
        "text": lambda: "text", "objects": lambda: np.array([{"a": 1}, None] * 40, dtype=object), "shape": Shape,
        "nested": lambda: np.zeros(3, dtype=[("a", "O"), ("b", "f8")]),
    }[kind]()


def circular():
    out = []
    out.append(out)
    return out


BAD = {
    "pickle": ["lambda", "late", "self"], "json": ["set", "object", "bytes", "late", "circular", "lambda"],
    "literal": ["self", "late"], "grid": ["list", "none", "int", "text", "objects", "shape", "nested"],
}
BAD_KEYS = ["a/b", "/", "nul\0", "k" * 300, "/a", "a\0"]
# metadata that no index, or not a plain one, can hold
BAD_META = {"meta set": lambda: {1}, "meta bytes": lambda: {"a": b""}, "meta text": lambda: "text"}
RESERVED = ["index", "index_0", "indexed", "index_key_0", "index_count", "index "]


def _open(state, handle, prefix, codec, no_lockout, create, meta):
    from dustgoggles.codex import codecs
    from dustgoggles.codex.implements import GridPaper, MetaTagIndex, Notepad

    kwargs = {"no_lockout": True} if no_lockout else {}
    if meta:
        kwargs["index_type"] = MetaTagIndex
    if codec == "grid":
        state[handle] = GridPaper(prefix, create=create, **kwargs)
        return
    if codec != "pickle":
        kwargs["codec_factory"] = {"json": codecs.json_codec_factory, "literal": codecs.ast_codec_factory}[codec]
    state[handle] = Notepad(prefix, create=create, **kwargs)


def make(value, codec):
    import numpy as np

    if value[0] == "bad":
        return bad_value(value[1], codec)
    return np.arange(value[1]) if codec == "grid" else value[1]


def _set(state, handle, codec, key, value, how):
    pad, value = state[handle], make(value, codec)
    if how == "item":
        pad[key] = value
    elif how == "set":
        pad.set(key, value)
    elif how == "new":
        pad.set(key, value, exists_ok=False)
    elif how in BAD_META:
        pad.set(key, value, BAD_META[how]())
    else:
        pad.__setitem__(key, value, exists_ok=False)


def _delete(state, handle, key):
    del state[handle][key]


def _everything(state, handle, names, absent):
    import numpy as np

    pad = state[handle]
    keys = list(pad.keys())
    items = [(k, (v.dtype.str, v.shape, v.tobytes()) if isinstance(v, np.ndarray) else v) for k, v in pad.iteritems()]
    gone = []
    for name in absent:
        try:
            pad[name]
        except KeyError:
            gone.append(name)
    return keys, items, gone


VERBS = {"open": _open, "set": _set, "delete": _delete, "everything": _everything}


@st.composite
def cases(draw):
    codec = draw(st.sampled_from(["pickle", "json", "literal", "grid", "grid"]))
    handles = draw(st.integers(1, 4))
    pool = list({str(k): k for k in draw(_shm.key_pools(2, 5))}.values())
    key, handle = st.sampled_from(pool), st.integers(0, handles - 1)
    good = {"pickle": _shm.picklables, "json": _shm.json_values, "literal": _shm.literals,
            "grid": st.one_of(st.integers(0, 6), st.integers(0, 3000))}[codec]
    if codec != "grid":
        good = _shm.perhaps_large(draw, good, codec == "json")
    good = st.tuples(st.just("good"), good)
    bad = st.tuples(st.just("bad"), st.sampled_from(BAD[codec]))
    how = st.sampled_from(["item", "item", "set", "new"] + (["new_item"] if codec == "grid" else []))
    meta = codec != "grid" and draw(st.booleans())
    mishow = how if codec == "grid" else st.sampled_from(["meta set", "meta bytes"] if meta else list(BAD_META))
    one = st.one_of(
        st.tuples(st.just("set"), handle, key, good, st.just("item")),
        st.tuples(st.just("set"), handle, key, good, st.just("item")),
        st.tuples(st.just("set"), handle, key, good, how),
        st.tuples(st.just("set"), handle, key, bad, how),
        st.tuples(st.just("set"), handle, key, bad, how),
        st.tuples(st.just("set"), handle, key, good, mishow),
        st.tuples(st.just("set"), handle, st.sampled_from(BAD_KEYS + RESERVED), good, how),
        st.tuples(st.just("delete"), handle, key),
        st.tuples(st.just("delete"), handle, st.one_of(key, st.sampled_from(BAD_KEYS + RESERVED + ["never set"]))),
    )
    return {
        "codec": codec, "no_lockout": draw(st.booleans()), "meta": meta,
        "homes": [0] + draw(st.lists(st.integers(0, 1), min_size=handles - 1, max_size=handles - 1)),
        "ops": draw(st.lists(one, min_size=3, max_size=draw(st.sampled_from([8, 20])))),
    }


def strategy(tier):
    return cases()


def setup():
    global cast
    cast = _shm.Cast(VERBS, remotes=1)


def teardown():
    cast.stop()


def run_case(case):
    import numpy as np

    prefix, codec, homes = _shm.fresh_prefix(), case["codec"], case["homes"]
    model = {}
    pool = sorted({str(op[2]) for op in case["ops"] if op[2] not in BAD_KEYS + RESERVED})
    failures = set()

    def do(h, verb, *args):
        return cast[homes[h]].do(verb, h, *args)

    def check(h, when):
        absent = [n for n in pool if n not in model]
        keys, items, gone = ensure(do(h, "everything", sorted(model), absent), when, "reading everything")
        require(sorted(keys) == sorted(model), when, "handle", h, "lists", sorted(keys), "instead of", sorted(model))
        require(sorted(k for k, _ in items) == sorted(model), when, "items", items)
        for k, v in items:
            require(same(v, model[k]), when, "handle", h, "reads", k, "as", v, "instead of", model[k])
        require(gone == absent, when, "absent keys", absent, "of which only", gone, "raise KeyError")

    try:
        for h in range(len(homes)):
            ensure(do(h, "open", prefix, codec, case["no_lockout"], h == 0, case["meta"]), "opening")
        for op in case["ops"]:
            verb, h, key = op[:3]
            name = str(key)
            usable, reserved = key not in BAD_KEYS + RESERVED, key in RESERVED
            if verb == "set":
                _, _, _, value, how = op
                fails = not usable or value[0] == "bad" or (how.startswith("new") and name in model) or how in BAD_META
                result = do(h, "set", codec, key, value, how)
            else:
                fails = name not in model
                result = do(h, "delete", key)
            if not fails:
                ensure(result, op)
                if verb == "set":
                    stored = make(value, codec)
                    model[name] = (stored.dtype.str, stored.shape, stored.tobytes()) if codec == "grid" else stored
                else:
                    del model[name]
                check((h + 1) % len(homes), f"after {verb} of {key!r}")
                continue
            require(isinstance(result, Raised), verb, op[2:], "did not raise")
            if reserved or (verb == "delete" and usable) or (
                verb == "set" and usable and value[0] == "good" and how not in BAD_META
            ):
                require(result.isa("KeyError"), verb, op[2:], "raised", result)
            for other in range(len(homes)):
                check(other, f"after failing {verb} of {key!r}")
            failures.add(("reserved" if reserved else "bad key" if not usable else
                          "bad value" if verb == "set" and value[0] == "bad" else
                          "bad metadata" if verb == "set" and how in BAD_META else "present" if verb == "set" else "absent",
                          bool(model)))
        for n in pool:  # an absent key can be set anew, once
            if n not in model:
                fresh = ("good", 2)
                ensure(do(len(homes) - 1, "set", codec, n, fresh, "new"), "exists_ok=False on absent", n)
                again = do(0, "set", codec, n, fresh, "new")
                require(isinstance(again, Raised) and again.isa("KeyError"), "exists_ok=False on present", n, "gave", again)
                stored = make(fresh, codec)
                model[n] = (stored.dtype.str, stored.shape, stored.tobytes()) if codec == "grid" else stored
        check(len(homes) - 1, "at the end")
        return any(full for _, full in failures), [codec] + [f for f, _ in failures]
    except BaseException:
        _shm.wipe(prefix)
        cast.revive()
        raise
    finally:
        _shm.wipe(prefix)
        cast.drop()


ASSUMPTIONS = ["keys that are usable are as in C01; operations do not overlap in time"]
