import atexit
import os
import pickle
import random
import shutil
import sys

from hypothesis import strategies as st

from pbt.core import Violation, require
from pbt.props import _shm, c03
from pbt.props._shm import Raised, ensure, same

ID = "C06"
RULE = (
    "one history over up to four notepads, array papers, indexes and stickies on similar names: creating (again), "
    "attaching (to nothing), filling, deleting, dumping, closing (with a dump) through any handle in three processes, and "
    "leaving a process that opened some of them with cleanup_on_exit; all shared memory is compared byte for byte around "
    "every operation that must not change it; non-trivial if something that held entries was closed while something "
    "else held entries"
)
QUICK, THOROUGH = 180, 4000
CASE_TIMEOUT = 60
KINDS = ["Notepad", "Notepad", "GridPaper", "GridPaper", "TagIndex", "MetaTagIndex", "Sticky"]
NAMES = ["", "a", "ab", "b", "a.b", "aindex", "index", "0", "a count", "x" * 40]
keys = st.one_of(st.sampled_from(_shm.KEYS), _shm.keys.filter(lambda k: isinstance(k, str) and len(k) < 20))


def owned(kind, name, block):
    """does the block belong to the thing of that kind and name"""
    return block.startswith(name + "_") or (kind not in ("Notepad", "GridPaper") and block == name)


def _open(state, handle, kind, name, no_lockout, create, cleanup, via=None):
    from dustgoggles.codex import codecs, implements

    if kind == "Sticky":
        state[handle] = implements.Sticky(name, cleanup_on_exit=cleanup)
        return
    kwargs = {"no_lockout": True} if no_lockout else {}
    if via == "json":
        kwargs["codec_factory"] = codecs.json_codec_factory
    state[handle] = getattr(implements, kind)(name, create=create, cleanup_on_exit=cleanup, **kwargs)


def _put(state, handle, kind, key, value):
    it = state[handle]
    if kind == "Sticky":
        it.stick(value)
    elif kind == "GridPaper":
        it[key] = c03.array(value)
    elif kind == "Notepad":
        it[key] = value
    elif kind == "TagIndex":
        it.add(key)
    else:
        it.add(key, value)


def _remove(state, handle, kind, key):
    if kind == "Sticky":
        state[handle].pull()
    else:
        del state[handle][key]


def _look(state, handle, kind):
    it = state[handle]
    if kind == "Sticky":
        return it.read(reread=True)
    return sorted(it.keys() if kind in ("Notepad", "GridPaper") else it.update())


def _dump(state, handle, key, name, mode=None):
    if mode is not None:
        state[handle].dump(key, name, mode)
    elif name is None:
        state[handle].dump(key)
    else:
        state[handle].dump(key, name)


def _close(state, handle, dump):
    if dump is None:
        state[handle].close()
    else:
        state[handle].close(dump=dump)


def _leave(state, opens, ops):
    """a process that opens things with cleanup_on_exit, works and ends"""
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            null = os.open(os.devnull, os.O_WRONLY)
            os.dup2(null, 1)
            os.dup2(null, 2)
            atexit._clear()
            mine, ignored = {}, []
            sys.unraisablehook = lambda problem: ignored.append(problem)
            for args in opens:
                _open(mine, *args)
            for verb, *args in ops:
                VERBS[verb](mine, *args)
            atexit._run_exitfuncs()
            code = 2 if ignored else 0
        finally:
            os._exit(code)
    return os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])


def _reborn(state, kind, name, no_lockout, key, values):
    """a process closes what it wants cleaned up, and makes it anew to stay: what do others find after it?"""
    opens = [("first", kind, name, no_lockout, True, True), ("second", kind, name, no_lockout, True, False)]
    code = _leave({}, [], [("open", *opens[0]), ("put", "first", kind, key, values[0]), ("close", "first", None),
                           ("open", *opens[1]), ("put", "second", kind, key, values[1])])
    mine = {}
    try:
        _open(mine, "found", kind, name, no_lockout, False, False)
        seen = _look(mine, "found", kind)
        mine["found"].close()
    except Exception as problem:
        seen = repr(problem)
    left = [block for block in _shm.blocks(name) if owned(kind, name, block)]
    for block in left:
        os.unlink(f"{_shm.SHM}/{block}")
    return code, seen, left


def _cd(state, where):
    os.chdir(where)


def _noted(state, value, cleanup):
    """a process that leaves a note without choosing its address; is it there, then and after the process?"""
    from dustgoggles.codex import implements

    here, there = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            atexit._clear()
            random.seed()
            note = implements.Sticky.note(value, cleanup_on_exit=cleanup)
            seen = implements.Sticky(note.address).read()
            os.write(there, f"{note.address} {int(seen == value)}".encode())
            code = 0
            atexit._run_exitfuncs()
        finally:
            os._exit(code)
    os.close(there)
    with open(here, "rb") as stream:
        said = stream.read().decode()
    code = os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
    address, _, seen = said.partition(" ")
    left = bool(address) and os.path.exists(f"{_shm.SHM}/{address}")
    if left:
        os.unlink(f"{_shm.SHM}/{address}")
    return code, seen, left


def _nameless(state, kind, no_lockout, key, value):
    """make something that chooses its own name, use it, attach to it by that name, close it"""
    from dustgoggles.codex import implements

    random.seed()  # or all processes choose the same
    names = []
    for _ in range(2):
        lock = {"no_lockout": True} if no_lockout else {}
        mine = {"made": getattr(implements, kind)(create=True, **lock)}
        name = mine["made"].name if kind.endswith("Index") else mine["made"].prefix
        names.append(str(name))
        try:
            for block in ("", "_index"):
                require((f"{name}{block}" in _shm.blocks(str(name))) == (bool(block) != kind.endswith("Index")), kind, "made", _shm.blocks(str(name)))
            _open(mine, "attached", kind, name, no_lockout, False, False)
            _put(mine, "made", kind, key, value)
            for which in ("made", "attached"):
                require(_look(mine, which, kind) == [str(key)], which, kind, name, "lists", _look(mine, which, kind))
            _close(mine, "attached", None)
            require(not (left := {b for b in _shm.blocks(str(name)) if owned(kind, str(name), b)}), "closing", kind, name, "left", left)
        finally:
            for block in _shm.blocks(str(name)):
                if owned(kind, str(name), block):
                    os.unlink(f"{_shm.SHM}/{block}")
    return names


VERBS = {
    "nameless": _shm.unlucky(_nameless), "noted": _shm.unlucky(_noted, lambda said: said[:2] == (0, "1")), "open": _open, "put": _put, "remove": _remove, "look": _look, "dump": _dump, "close": _close, "leave": _leave, "reborn": _reborn, "cd": _cd,
    "lose": lambda s, h: s.pop(h, None) and None,
}


@st.composite
def cases(draw):
    n = draw(st.integers(1, 4))
    names = draw(st.lists(st.sampled_from(NAMES), min_size=n, max_size=n, unique=True))
    things = [
        {"kind": draw(st.sampled_from(KINDS)), "name": name, "no_lockout": draw(st.booleans()),
         "via": draw(st.sampled_from([None, None, "json"]))}
        for name in names
    ]
    pool = draw(st.lists(keys, min_size=2, max_size=5, unique_by=lambda k: str(k).replace(".", "_")))
    thing, home, key = st.integers(0, n - 1), st.integers(0, 2), st.sampled_from(pool)
    value = st.tuples(st.integers(0, 9), st.sampled_from([1, 3, 100, 5000]), st.sampled_from(["<f8", "<i2", "|u1", ">c8", "|b1"]))
    cleaned = st.lists(st.tuples(thing, st.booleans(), st.sampled_from(["leave", "leave", "close", "remove"])), min_size=1, max_size=2)
    one = st.one_of(
        st.tuples(st.just("create"), thing, home), st.tuples(st.just("create"), thing, home),
        st.tuples(st.just("attach"), thing, home, st.booleans()),
        st.tuples(st.just("put"), thing, home, key, value), st.tuples(st.just("put"), thing, home, key, value),
        st.tuples(st.just("put"), thing, home, key, value), st.tuples(st.just("put"), thing, home, key, value),
        st.tuples(st.just("remove"), thing, home, key),
        st.tuples(st.just("dump"), thing, home, key, st.sampled_from(["default", "chosen", "default over", "chosen over", "chosen append over", "chosen append over"])),
        st.tuples(st.just("close"), thing, home, st.sampled_from([None, None, False, True])),
        st.tuples(st.just("leave"), cleaned, home, key, value),
        st.tuples(st.just("noted"), value, home, st.booleans()),
        st.tuples(st.just("reborn"), st.sampled_from(KINDS), home, key, value, st.booleans()),
        st.tuples(st.just("nameless"), st.sampled_from([k for k in KINDS if k != "Sticky"]), home, key, value, st.booleans()),
    )
    if draw(st.integers(0, 59)) == 37:
        # one thing with a great many entries
        small = st.tuples(st.integers(0, 9), st.just(1), st.just("|u1"))
        many = [("put", 0, draw(home), k, draw(small)) for k in range(draw(st.integers(129, 150)))]
        ends = st.one_of(st.tuples(st.just("close"), st.just(0), home, st.sampled_from([None, True])),
                         st.tuples(st.just("create"), st.just(0), home))
        return {"things": [dict(things[0], kind=draw(st.sampled_from([k for k in KINDS if k != "Sticky"])))],
                "ops": [("create", 0, 0), *many, *draw(st.lists(ends, min_size=1, max_size=3))]}
    low, high = draw(st.sampled_from([(3, 10), (8, 20), (16, 40)]))
    started = [("create", i, draw(home)) for i in range(n) if draw(st.integers(0, 3))]
    return {"things": things, "ops": started + draw(st.lists(one, min_size=low, max_size=high))}


def strategy(tier):
    return cases()


def setup():
    global cast, base
    cast = _shm.Cast(VERBS)
    base = os.getcwd()


def teardown():
    cast.stop()


def content(kind, value):
    number, size, dtype = value
    if kind == "GridPaper":
        shape = [(), (0,), (1,), (2, 3), (size,), (size // 2, 2), (3, 0), (1, 1, 2), (7,), (4, 4)][number % 10]
        return (dtype, shape, number * size, "plain")
    return {"n": number, "text": "x" * size}


def run_case(case):
    prefix, things = _shm.fresh_prefix(), case["things"]
    where = os.path.join(base, prefix)
    os.mkdir(where)
    # what is there: thing index -> {key: value}; the handles of things that are there
    there, handles, serial, last = {}, {}, [0], []
    trivial = True
    labels = set()

    def name(i):
        return prefix + things[i]["name"]

    def handle(i, home):
        """a handle on thing i, preferably in process `home`"""
        if not handles.get(i):
            return None
        return next((h for h in reversed(handles[i]) if h[0] == home), handles[i][home % len(handles[i])])

    def do(h, verb, *args):
        return cast[h[0]].do(verb, h[1], *args)

    def new(i, home, create, other_way=False):
        thing = things[i]
        serial[0] += 1
        h = (home, serial[0])
        return h, do(h, "open", thing["kind"], name(i), thing["no_lockout"] != other_way, create, False,
                     thing["via"] if thing["kind"] == "Notepad" else None)

    def rest(i, blocks):
        return {b: v for b, v in blocks.items() if not owned(things[i]["kind"], name(i), b)}

    def changed(old, fresh):
        return {b for b in old.keys() | fresh.keys() if old.get(b) != fresh.get(b)}

    def check_gone(i, before, what):
        nonlocal trivial
        after = _shm.snapshot(prefix)
        left = sorted(after.keys() - rest(i, after).keys())
        require(not left, what, things[i], "left", left)
        require(rest(i, before) == after, what, things[i], "changed", changed(rest(i, before), after))
        if there.get(i) and any(there[j] for j in there if j != i):
            trivial = False
        labels.add(f"closed {things[i]['kind']}")
        there.pop(i, None)
        handles.pop(i, None)

    try:
        for home in range(3):
            cast[home].do("cd", where)
        for op in case["ops"]:
            verb, i = op[0], op[1]
            before = _shm.snapshot(prefix)
            if verb == "nameless":
                names = ensure(cast[op[2]].do(verb, i, op[5], op[3], content(i, op[4])), "using a nameless", i)
                require(before == _shm.snapshot(prefix), "a nameless", i, "changed something else")
                if last and len({*names, *last}) == 1:
                    raise Violation(f"every nameless {i} is called {names[0]}")
                last += names
                continue
            if verb == "noted":
                said = ensure(cast[op[2]].do(verb, content("Sticky", i), op[3]), "leaving a note")
                require(said == (0, "1", not op[3]), "exit code, note read, note left:", said, "with cleanup", op[3])
                require(before == _shm.snapshot(prefix), "a note elsewhere changed something else")
                continue
            if verb == "reborn":
                values = [content(i, op[4]), content(i, (op[4][0] + 1, *op[4][1:]))]
                said = cast[op[2]].do(verb, i, f"{prefix}reborn", op[5], op[3], values)
                expected = values[1] if i == "Sticky" else [str(op[3])]
                require(said == (0, expected, []), "exit code, what is found, what is left:", said, "for a", i, "closed and made anew")
                require(before == _shm.snapshot(prefix), "a", i, "elsewhere changed something")
                continue
            if verb == "leave":
                opens, steps, gone, kept = [], [], [], {}
                for j, (i, create, end) in enumerate(op[1]):
                    if any(i == o[1] for o in gone):
                        continue
                    kind = things[i]["kind"]
                    if kind != "Sticky" and (i in there) == create:
                        create = not create
                    opens.append((j, kind, name(i), things[i]["no_lockout"], create, True, things[i]["via"] if kind == "Notepad" else None))
                    steps.append(("put", j, kind, op[3], content(kind, op[4])))
                    if end == "remove" and kind != "Sticky":
                        steps.append(("remove", j, kind, op[3]))
                    if end == "close":
                        steps.append(("close", j, None))
                    gone.append((j, i))
                require(cast[op[2]].do("leave", opens, steps) == 0, "a process working with", opens, steps, "failed")
                for j, i in gone:
                    there.setdefault(i, {op[3]: None})
                for j, i in gone:
                    survivors = {b: v for b, v in before.items() if not any(owned(things[k]["kind"], name(k), b) for _, k in gone)}
                    check_gone(i, survivors | {b: v for b, v in _shm.snapshot(prefix).items()
                                               if owned(things[i]["kind"], name(i), b)}, "leaving a process that had")
                labels.add("process left")
                continue
            kind = things[i]["kind"]
            home = op[2]
            if verb in ("create", "attach"):
                create = verb == "create"
                h, result = new(i, home, create, *op[3:])
                if kind == "Sticky":
                    ensure(result, "opening a sticky")
                    there.setdefault(i, {})
                    handles.setdefault(i, []).append(h)
                    require(before == _shm.snapshot(prefix), "opening a sticky changed shared memory")
                elif create and i in there:
                    require(isinstance(result, Raised), "creating", things[i], "over an existing one gave", result)
                    require(before == (now := _shm.snapshot(prefix)), "failing to create", things[i], "changed", changed(before, now))
                    labels.add("created over")
                elif not create and i not in there:
                    require(isinstance(result, Raised) and result.isa("FileNotFoundError"), "attaching to an absent", things[i], "gave", result)
                    require(before == (now := _shm.snapshot(prefix)), "failing to attach to", things[i], "changed", changed(before, now))
                    labels.add("attached to nothing")
                else:
                    ensure(result, verb, things[i])
                    require(rest(i, before) == rest(i, _shm.snapshot(prefix)), "opening", things[i], "changed something else")
                    there.setdefault(i, {})
                    handles.setdefault(i, []).append(h)
                    if kind != "Sticky":
                        listed = ensure(do(h, "look", kind), "listing")
                        require(listed == sorted(map(str, there[i])), "a newly opened", things[i], "lists", listed)
                continue
            h = handle(i, home)
            if h is None:
                continue
            entries = there[i]
            if verb == "put":
                key = str(op[3]) if kind != "Sticky" else ""
                ensure(do(h, "put", kind, op[3], content(kind, op[4])), "putting", op[3])
                entries[key] = content(kind, op[4])
                require(rest(i, before) == (now := rest(i, _shm.snapshot(prefix))), "putting into", things[i], "changed", changed(rest(i, before), now))
            elif verb == "remove":
                key = str(op[3]) if kind != "Sticky" else ""
                if key in entries:
                    ensure(do(h, "remove", kind, op[3]), "removing", op[3])
                    require(rest(i, before) == (now := rest(i, _shm.snapshot(prefix))), "removing from", things[i], "changed", changed(rest(i, before), now))
                    del entries[key]
                    if kind == "Sticky":
                        require(name(i) not in now, "the pulled note is still there")
            elif verb == "dump" and kind in ("Notepad", "GridPaper"):
                key = str(op[3])
                file = "chosen.file" if op[4].startswith("chosen") else None
                if key not in entries and (len(key) % 2 or not entries):
                    # there is nothing to dump, so nothing in place of what is there
                    path = dump_path(where, name(i), key, file)
                    if op[4].endswith("over"):
                        with open(path, "wb") as stream:
                            stream.write(b"old")
                    mode = "ab" if "append" in op[4] and kind == "Notepad" else None
                    out = do(h, "dump", op[3], file, mode)
                    require(isinstance(out, _shm.Raised), "dumping absent", key, "gave", out)
                    if op[4].endswith("over"):
                        with open(path, "rb") as stream:
                            require(stream.read() == b"old", "dumping absent", key, "changed", path)
                        os.unlink(path)
                    require(os.listdir(where) == [], "dumping absent", key, "left", os.listdir(where))
                    require(before == _shm.snapshot(prefix), "dumping absent", key, "changed shared memory")
                    continue
                if key not in entries:
                    key = sorted(entries)[len(key) % len(entries)]
                old, mode = b"", None
                if "append" in op[4] and kind == "Notepad":
                    old, mode = b"old" * (1 + 50 * (len(key) % 2)), "ab"
                if op[4].endswith("over"):
                    # there is such a file already
                    with open(dump_path(where, name(i), key, file), "wb") as stream:
                        stream.write(b"old" * (1 + 50 * (len(key) % 2)))
                ensure(do(h, "dump", op[3] if str(op[3]) == key else key, file, mode), "dumping", key)
                check_dump(where, name(i), kind, key, entries[key], before, things[i]["via"], file, old)
                require(before == _shm.snapshot(prefix), "dumping changed shared memory")
                require(os.listdir(where) == [], "dumping left", os.listdir(where))
            elif verb == "close":
                if kind == "Sticky" and not entries:
                    continue
                dump = op[3] if kind in ("Notepad", "GridPaper") else None
                ensure(do(h, "close", dump), "closing", things[i])
                for key, value in entries.items() if dump else ():
                    check_dump(where, name(i), kind, key, value, before, things[i]["via"], None)
                require(os.listdir(where) == [], "closing left files", os.listdir(where))
                check_gone(i, before, "closing")
        for i in list(there):
            if things[i]["kind"] == "Sticky" and not there[i]:
                continue
            before = _shm.snapshot(prefix)
            ensure(do(handle(i, 1), "close", None), "closing", things[i])
            check_gone(i, before, "finally closing")
        left = _shm.blocks(prefix)
        require(not left, "after closing everything there is", left)
        return not trivial, labels
    except BaseException:
        _shm.wipe(prefix)
        cast.revive()
        raise
    finally:
        _shm.wipe(prefix)
        cast.drop()
        for home in range(3):
            cast[home].do("cd", base)
        shutil.rmtree(where, ignore_errors=True)


def dump_path(where, name, key, file):
    return os.path.join(where, file or f"{name}_{key}".replace(".", "_"))


def check_dump(where, name, kind, key, value, blocks, via, file, old=b""):
    path = dump_path(where, name, key, file)
    require(os.path.isfile(path), "there is no dump", path, "but", os.listdir(where))
    with open(path, "rb") as stream:
        data = stream.read()
    os.unlink(path)
    require(data.startswith(old), "appending a dump of", key, "gave", data[:50])
    data = data[len(old):]
    if kind == "GridPaper":
        require(data == c03.array(value).tobytes(), "dump of", key, "is", data[:50], "for", value)
    else:
        require(data == blocks[f"{name}_{key}"], "dump of", key, "is", data[:50], "instead of", blocks[f"{name}_{key}"][:50])
        if via is None:
            require(same(pickle.loads(data), value), "dump of", key, "holds", pickle.loads(data))


ASSUMPTIONS = [
    "no two names are such that one is the other plus '_' and more; handles opened before a close are not used after it; "
    "leaving a process is a forked child that runs its exit functions (C10 ends real ones); indexes that list nothing "
    "(FakeIndex) cannot be closed this way, as documented",
]
