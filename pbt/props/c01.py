import os

from hypothesis import strategies as st

from pbt.core import REPO, Violation, require
from pbt.props import _shm
from pbt.props._shm import Raised, ensure, same

ID = "C01"
RULE = (
    "one history of sets, overwrites, deletes, clears, reopenings and reads (up to 40 operations, now and then "
    "hundreds of keys) through up to six handles in three processes on one prefix, for one codec and one type of index, with or without "
    "locking, string and integer keys; after every operation some handle, at the end every handle, must agree with "
    "a dict; non-trivial if at least two handles wrote and something was overwritten or deleted"
)
QUICK, THOROUGH = 300, 2000
CASE_TIMEOUT = 60
CODECS = {"pickle": _shm.picklables, "json": _shm.json_values, "literal": _shm.literals}


# ------------------------------------------------------------------ operations
def _open(state, handle, prefix, codec, index, no_lockout, create, update):
    from dustgoggles.codex import codecs, implements
    from dustgoggles.codex.implements import Notepad

    kwargs = {} if index == "TagIndex" else {"index_type": getattr(implements, index)}
    if codec != "pickle":
        kwargs["codec_factory"] = {"json": codecs.json_codec_factory, "literal": codecs.ast_codec_factory}[codec]
    if no_lockout:
        kwargs["no_lockout"] = True
    if update:
        kwargs["update_on_init"] = True
    state[handle] = Notepad(prefix, create=create, **kwargs)


def _unfetched(state, handle, key):
    """the block that holds the value, not the value"""
    pad = state[handle]
    block = pad.get(key, None, False)
    if block is not None:
        require(block.name == pad.address(key), "the block of", key, "is", block.name)
        require(block.buf.tobytes() == pad.get_raw(key), "the block of", key, "holds", block.buf.tobytes())
        block.close()
    return block is not None


def _delete(state, handle, key):
    del state[handle][key]


def _set(state, handle, key, value, how):
    pad = state[handle]
    if how == "item":
        pad[key] = value
    elif how == "set":
        pad.set(key, value)
    elif isinstance(how, tuple):
        pad.set(key, value, how[1])
    else:
        pad.set(key, value, exists_ok=False)


def _many(state, handle, count, value):
    for i in range(count):
        state[handle][f"m{i}"] = (value, i) if not isinstance(value, list) else [value, i]


def _drop_many(state, handle, numbers):
    for i in numbers:
        del state[handle][f"m{i}"]


def _wander(state, handle, verb, meddle):
    """go through keys or items, and ask for listings or delete what has been seen on the way"""
    pad, out = state[handle], []
    for thing in getattr(pad, verb)():
        out.append(thing)
        if meddle != "delete":
            pad.keys()
        if meddle != "list":
            del pad[thing[0] if verb == "iteritems" else thing]
        if meddle == "both":
            pad.keys()
    return out


DEFAULT = "the default"
VERBS = {
    "open": _open, "set": _set, "delete": _delete, "many": _many, "drop_many": _drop_many, "wander": _wander,
    "clear": lambda s, h: s[h].clear(),
    "item": lambda s, h, k: s[h][k],
    "get": lambda s, h, k: s[h].get(k),
    "default": lambda s, h, k: s[h].get(k, DEFAULT),
    "unfetched": _unfetched,
    "keys": lambda s, h: list(s[h].keys()),
    "iterkeys": lambda s, h: list(s[h].iterkeys()),
    "itervalues": lambda s, h: list(s[h].itervalues()),
    "iteritems": lambda s, h: list(s[h].iteritems()),
    "str": lambda s, h: (str(s[h]), repr(s[h])),
    "metadata": lambda s, h: s[h].index.items(),
    "close": lambda s, h: s[h].close(),
}


LISTINGS = ["keys", "iterkeys", "iteritems", "itervalues", "str"]
orders = st.integers(0, 9)  # which of the listings is asked first


@st.composite
def cases(draw):
    codec = draw(st.sampled_from(["pickle", "pickle", "json", "literal"]))
    handles = draw(st.sampled_from([1, 2, 3, 3, 4, 6]))
    index = draw(st.sampled_from(["TagIndex"] * 5 + ["MetaTagIndex", "MetaTagIndex", "FakeIndex"]))
    ways = ["item", "item", "set", "new"]
    if index == "MetaTagIndex":
        # metadata given along with the value stays with the key
        ways += [("meta", m) for m in ([1], "x" * 40, {"a": None}, 0, "")]
    pool = draw(_shm.key_pools(draw(st.sampled_from([1, 2, 3, 4])), 6))
    key = st.sampled_from(pool)
    value = _shm.perhaps_large(draw, CODECS[codec], codec == "json")
    handle = st.integers(0, handles - 1)
    one = st.one_of(
        st.tuples(st.just("set"), handle, key, value, st.sampled_from(ways)),
        st.tuples(st.just("set"), handle, key, value, st.just("item")),
        st.tuples(st.just("set"), handle, key, value, st.just("item")),
        st.tuples(st.just("delete"), handle, key),
        st.tuples(st.just("read"), handle, key),
        st.tuples(st.just("list"), handle, orders),
        st.tuples(st.just("reopen"), handle),
        st.tuples(st.just("wander"), handle, st.sampled_from(["keys", "iterkeys", "iteritems"]), st.sampled_from(["list", "list", "delete", "both"])),
        st.tuples(st.just("clear"), handle) if index != "FakeIndex" and draw(st.integers(0, 3)) == 0 else st.tuples(st.just("list"), handle, orders),
    )
    low, high = draw(st.sampled_from([(1, 8), (5, 16), (10, 20), (20, 40)]))
    ops = draw(st.lists(one, min_size=low, max_size=high))
    if draw(st.integers(0, 12)) == 0:
        count = draw(st.sampled_from([12, 40, 270]))
        value_ = [0] if codec == "json" else 0
        ops.insert(draw(st.integers(0, len(ops))), ("many", draw(handle), count, value_))
        some = draw(st.lists(st.integers(0, count - 1), unique=True, max_size=12))
        ops.append(("drop_many", draw(handle), some))
    return {
        "codec": codec, "index": index, "no_lockout": draw(st.booleans()),
        "homes": [0] + draw(st.lists(st.integers(0, 2), min_size=handles - 1, max_size=handles - 1)),
        "ops": ops,
    }


def strategy(tier):
    return cases()


def setup():
    global cast
    cast = _shm.Cast(VERBS)


def teardown():
    cast.stop()


class Bench:
    """the system under test and its model"""
    def __init__(self, case):
        self.prefix = _shm.fresh_prefix()
        self.case, self.model, self.metadata = case, {}, {}
        self.homes = case["homes"]
        for h in range(len(self.homes)):
            ensure(self.open(h, h == 0), "opening")

    def open(self, h, create=False):
        return self.do(h, "open", self.prefix, self.case["codec"], self.case["index"], self.case["no_lockout"], create, h % 2 == 1)

    def do(self, h, verb, *args):
        return cast[self.homes[h]].do(verb, h, *args)

    def check_key(self, h, key):
        name = str(key)
        got, got_get, got_default = (self.do(h, verb, key) for verb in ("item", "get", "default"))
        block = ensure(self.do(h, "unfetched", key), "asking for the block of", key)
        require(block == (name in self.model), key, "has a block:", block)
        if name in self.model:
            want = self.model[name]
            for how, g in (("subscript", got), ("get", got_get), ("get with default", got_default)):
                ensure(g, how, key)
                require(same(g, want), how, "of", key, "through handle", h, "gave", g, "instead of", want)
        else:
            require(isinstance(got, Raised) and got.isa("KeyError"), "absent", key, "subscripting gave", got)
            require(got_get is None, "absent", key, "get gave", got_get)
            require(got_default == DEFAULT, "absent", key, "get with default gave", got_default)

    def check_list(self, h, order=0):
        want = sorted(self.model)
        if self.case["index"] == "FakeIndex":
            return  # lists nothing, as documented
        if self.case["index"] == "MetaTagIndex":
            got = ensure(self.do(h, "metadata"), "index items")
            require(
                sorted((k, repr(m)) for k, m in got) == sorted((k, repr(self.metadata.get(k))) for k in want),
                "index items", got, "instead of", self.metadata,
            )
        # none of the listings may depend on another having been asked for before
        order %= len(LISTINGS)
        answers = {
            verb: ensure(self.do(h, verb), verb) for verb in LISTINGS[order:] + LISTINGS[:order]
        }
        for verb in ("keys", "iterkeys"):
            got = answers[verb]
            require(sorted(got) == want, verb, "through handle", h, "gave", sorted(got)[:40], "instead of", want[:40])
        items = answers["iteritems"]
        require(sorted(k for k, _ in items) == want, "iteritems keys", [k for k, _ in items])
        for k, v in items:
            require(same(v, self.model[k]), "iteritems", k, v, "instead of", self.model[k])
        values = answers["itervalues"]
        require(len(values) == len(items) and all(map(same, values, [v for _, v in items])), "itervalues", values)
        for text in answers["str"]:
            require(all(repr(k) in text for k in want), "str", text)


def run_case(case):
    bench = Bench(case)
    model, writers, changed = bench.model, set(), False
    try:
        for op in case["ops"]:
            verb, h = op[0], op[1]
            if verb == "set":
                _, _, key, value, how = op
                name = str(key)
                result = bench.do(h, "set", key, value, how)
                if how == "new" and name in model:
                    require(isinstance(result, Raised) and result.isa("KeyError"), "set of present", key, "gave", result)
                else:
                    ensure(result, "setting", key, "to", value)
                    changed |= name in model
                    model[name] = value
                    if isinstance(how, tuple):
                        bench.metadata[name] = how[1]
                    writers.add(h)
                bench.check_key((h + 1) % len(bench.homes), key)
            elif verb == "delete":
                result = bench.do(h, "delete", op[2])
                if str(op[2]) in model:
                    ensure(result, "deleting", op[2])
                    del model[str(op[2])]
                    bench.metadata.pop(str(op[2]), None)
                    changed = True
                    writers.add(h)
                else:
                    require(isinstance(result, Raised) and result.isa("KeyError"), "deleting absent", op[2], "gave", result)
                bench.check_key((h + 1) % len(bench.homes), op[2])
                bench.check_list((h + 1) % len(bench.homes), len(model))
            elif verb == "clear":
                ensure(bench.do(h, "clear"), "clearing")
                model.clear()
                bench.metadata.clear()
                writers.add(h)
            elif verb == "many":
                ensure(bench.do(h, "many", *op[2:]), "setting many")
                for i in range(op[2]):
                    model[f"m{i}"] = (op[3], i) if not isinstance(op[3], list) else [op[3], i]
            elif verb == "drop_many":
                numbers = [i for i in op[2] if f"m{i}" in model]
                ensure(bench.do(h, "drop_many", numbers), "deleting many")
                for i in numbers:
                    del model[f"m{i}"]
            elif verb == "read":
                bench.check_key(h, op[2])
            elif verb == "list":
                bench.check_list(h, op[2])
            elif verb == "wander" and case["index"] != "FakeIndex":
                got = ensure(bench.do(h, *op[:1], *op[2:]), "going through", op[2], op[3])
                seen = [k for k, _ in got] if op[2] == "iteritems" else got
                require(sorted(seen) == sorted(model), op[2], "while", op[3], "gave", sorted(seen)[:40], "instead of", sorted(model)[:40])
                if op[2] == "iteritems":
                    require(all(same(v, model[k]) for k, v in got), op[2], "while", op[3], "gave", got, "instead of", model)
                if op[3] != "list":
                    model.clear()
                    bench.metadata.clear()
            elif verb == "reopen":
                ensure(bench.open(h), "reopening")
        used = {op[2] for op in case["ops"] if op[0] in ("set", "delete", "read")}
        for h in range(len(bench.homes)):
            bench.check_list(h, len(case["ops"]) + h)
            for key in used:
                bench.check_key(h, key)
        labels = [case["codec"], case["index"], f"locking:{not case['no_lockout']}", f"processes:{len(set(case['homes']))}"]
        return len(writers) > 1 and changed, labels
    except BaseException:
        _shm.wipe(bench.prefix)
        cast.revive()
        raise
    finally:
        _shm.wipe(bench.prefix)
        cast.drop()


def _tracked_nonascii():
    """in a process whose resource tracker is at work, which c01 otherwise silences"""
    import subprocess
    import sys

    prefix = _shm.fresh_prefix()
    code = (
        "from dustgoggles.codex.implements import Notepad\n"
        f"pad = Notepad({prefix!r}, create=True)\n"
        "try: pad['\\xe9'] = 1\n"
        "except UnicodeEncodeError: print('still')\n"
    )
    env = dict(os.environ) | {"PYTHONPATH": REPO}
    done = subprocess.run([sys.executable, "-B", "-c", code], env=env, capture_output=True, text=True, timeout=60)
    _shm.wipe(prefix)
    return "still" in done.stdout


FINDINGS = {"C01-nonascii": _tracked_nonascii}
ASSUMPTIONS = [
    "a notepad with a FakeIndex lists nothing, as documented: there only reading, setting and deleting are claimed",
    "keys with characters outside ASCII are exercised with the resource tracker silenced (see known finding C01-nonascii)",
    "keys are non-empty, have no '/' or NUL, are short, and do not begin with 'index'; no other prefix extends this one",
    "operations do not overlap in time (C05 covers that)",
]
