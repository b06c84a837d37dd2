import gc
import os
import pathlib
import weakref

from hypothesis import strategies as st

from pbt.core import Violation, require
from pbt.props import _shm

ID = "C44"
RULE = (
    "one history of writes, reads, listings, failures and deletions on one Notepad, GridPaper, TagIndex, MetaTagIndex, Sticky, "
    "SlidingLock or the block helpers, through up to three handles, gone through four times, after which everything is closed or "
    "deleted, and dropped; the descriptors and mappings of blocks that the process holds are counted after each time and at the "
    "end; non-trivial if something was overwritten, deleted or replaced while another handle was open, or something failed"
)
QUICK, THOROUGH = 250, 6000
CASE_TIMEOUT = 60
KINDS = ["Notepad", "Notepad", "GridPaper", "GridPaper", "TagIndex", "MetaTagIndex", "Sticky", "lock", "blocks"]
VERBS = {
    "Notepad": ["set", "set", "set", "refuse", "bad", "get", "get", "unfetched", "raw", "missing", "del", "list", "items", "str", "dump", "reserved"],
    "GridPaper": ["set", "set", "set", "refuse", "bad", "get", "get", "default", "view", "unfetched", "raw", "missing", "del", "list", "items", "str", "dump", "reserved"],
    "TagIndex": ["add", "add", "refuse", "bad", "check", "del", "list", "missing"],
    "MetaTagIndex": ["add", "add", "refuse", "bad", "check", "get", "del", "list", "items", "values", "missing"],
    "Sticky": ["note", "stick", "stick", "read", "reread", "fresh", "bad", "pull", "str"],
    "lock": ["enter", "enter", "fail", "again"],
    "blocks": ["open", "open", "overwrite", "attach", "fetch", "exists", "delete", "missing", "mnemonic"],
}
KEYS = ["a", "b", "c", "é", "7"]
SIZES = [1, 3, 40, 5000, 20000]


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(KINDS))
    op = st.tuples(st.sampled_from(VERBS[kind]), st.integers(0, 2), st.integers(0, len(KEYS) - 1), st.sampled_from(SIZES))
    return {
        "kind": kind, "ops": draw(st.lists(op, min_size=2, max_size=draw(st.sampled_from([6, 20, 40])))),
        "handles": draw(st.integers(1, 3)), "no_lockout": draw(st.integers(0, 3)) == 0,
        "end": draw(st.sampled_from(["close", "close", "drop"])), "cleanup": draw(st.booleans()),
        # what differs from one time to the next
        "vary": draw(st.sampled_from(["nothing", "sizes", "keys"])),
        # what is read is held on to
        "keep": draw(st.booleans()),
    }


def strategy(tier):
    return cases()


def setup():
    import dustgoggles.codex.implements  # noqa: what it imports is frozen too

    _shm.patch()
    # collections need not look at what was there before the first case
    gc.collect()
    gc.freeze()


def teardown():
    _shm.unpatch()


def held(word):
    """descriptors and mappings of blocks (or files) whose names contain the word"""
    gc.collect()
    links = []
    for fd in os.listdir("/proc/self/fd"):
        try:
            links.append(os.readlink(f"/proc/self/fd/{fd}"))
        except OSError:
            pass
    found = [x for x in links if word in x]
    with open("/proc/self/maps") as file:
        return sorted(found + [line.split(None, 5)[5].strip() for line in file if word in line])


class Unencodable:
    def __reduce__(self):
        raise LookupError("cannot be encoded")


def pad_step(handle, kind, verb, key, size, folder):
    """one operation on a notepad or grid; returns what the caller may keep"""
    import numpy as np

    value = "x" * size if kind == "Notepad" else np.arange(size, dtype="u1")
    if verb == "set":
        handle[key] = value
    elif verb == "refuse":
        handle.set(key, value, exists_ok=False)
    elif verb == "bad":
        handle[key] = Unencodable() if kind == "Notepad" else np.array([None])
    elif verb == "get":
        return handle.get(key, None) if kind == "Notepad" else handle[key]
    elif verb == "default":
        handle.get("absent", "default")
    elif verb == "view":
        view = handle.get(key, None, True, False)
        require(view is None or view.sum() >= 0)
    elif verb == "unfetched":
        block = handle.get(key, None, fetch=False)
        require(block is None or len(bytes(block.buf)) > 0, "an empty block")
    elif verb == "raw":
        handle.get_raw(key)
    elif verb == "missing":
        handle["absent"]
    elif verb == "del":
        del handle[key]
    elif verb == "list":
        return list(handle.keys())
    elif verb == "items":
        return list(handle.iteritems())
    elif verb == "str":
        str(handle), repr(handle)
    elif verb == "dump":
        handle.dump(key, str(folder / "dumped"))
    elif verb == "reserved":
        handle["index"] = value


def index_step(handle, kind, verb, key, size):
    if verb == "add":
        handle.add(key, "x" * size if kind == "MetaTagIndex" else None)
    elif verb == "refuse":
        handle.add(key, None, exists_ok=False)
    elif verb == "bad":
        handle.add(key, Unencodable())
    elif verb == "check":
        handle.check(key)
    elif verb == "get":
        return handle[key]
    elif verb == "del":
        handle.remove(key)
    elif verb == "list":
        return list(handle.update())
    elif verb == "items":
        return list(handle.items())
    elif verb == "values":
        return list(handle.values())
    elif verb == "missing":
        handle.remove("absent")


def sticky_step(handle, verb, size, address):
    from dustgoggles.codex.implements import Sticky

    if verb == "note":
        Sticky.note(["x" * size], address)
    elif verb == "stick":
        handle.stick(b"x" * size)
    elif verb == "read":
        return handle.read()
    elif verb == "reread":
        return handle.read(reread=True)
    elif verb == "fresh":
        return Sticky(address).read()
    elif verb == "bad":
        handle.stick(Unencodable())
    elif verb == "pull":
        handle.pull()
    elif verb == "str":
        str(handle), repr(handle)


def lock_step(handle, verb, name):
    from dustgoggles.codex.implements import SlidingLock

    if verb == "enter":
        with SlidingLock(name):
            pass
    elif verb == "fail":
        with SlidingLock(name):
            raise LookupError
    elif verb == "again":
        with handle:
            pass


def block_step(verb, name, size):
    from dustgoggles.codex import memutilz
    from dustgoggles.codex.codecs import generic_mnemonic_factory, pickle_codec_factory

    if verb == "open":
        memutilz.open_block(name, size).buf[:1] = b"x"
    elif verb == "overwrite":
        memutilz.open_block(name, size, overwrite=True).buf[:1] = b"x"
    elif verb == "attach":
        return bytes(memutilz.open_block(name, size, create=False).buf)
    elif verb == "fetch":
        return memutilz.fetch_block_bytes(name)
    elif verb == "exists":
        return memutilz.exists_block(name)
    elif verb == "delete":
        memutilz.delete_block(name, True)
    elif verb == "missing":
        memutilz.delete_block(name + "absent")
    elif verb == "mnemonic":
        (memorize, remember), (encode, decode) = generic_mnemonic_factory(), pickle_codec_factory()
        memorize("x" * size, name, True, encode)
        remember(name, False)
        return remember(name, True, decode)


def run_case(case):
    _shm.sleeps[0] = 0
    prefix, folder = _shm.fresh_prefix(), pathlib.Path.cwd()
    handles = []
    try:
        return history(case, prefix, folder, handles)
    finally:
        handles.clear()
        _shm.wipe(prefix)
        (folder / "dumped").unlink(missing_ok=True)


def history(case, prefix, folder, handles):
    from dustgoggles.codex import implements

    kind = case["kind"]
    padlike, indexlike = kind in ("Notepad", "GridPaper"), kind in ("TagIndex", "MetaTagIndex")
    ends = {"cleanup_on_exit": case["cleanup"] and case["end"] == "close"}
    for i in range(case["handles"]):
        if padlike or indexlike:
            handles.append(getattr(implements, kind)(
                prefix, create=i == 0, no_lockout=case["no_lockout"], **(ends if i == 0 else {})))
        elif kind == "Sticky":
            handles.append(implements.Sticky(prefix, **(ends if i == 0 else {})))
        elif kind == "lock":
            handles.append(implements.SlidingLock(prefix))
    kept, failures, touched, changed = [], 0, set(), False

    def step(verb, which, key, size):
        nonlocal failures
        handle = handles[which % len(handles)] if handles else None
        try:
            if padlike:
                got = pad_step(handle, kind, verb, key, size, folder)
            elif indexlike:
                got = index_step(handle, kind, verb, key, size)
            elif kind == "Sticky":
                got = sticky_step(handle, verb, size, prefix)
            elif kind == "lock":
                got = lock_step(handle, verb, prefix)
            else:
                got = block_step(verb, prefix + key, size)
        except Violation:
            raise
        except Exception:
            failures += 1
            got = None
        if case["keep"] and got is not None:
            kept.append(got)

    def empty(keys):
        for key in keys:
            if padlike or indexlike:
                step("del", 0, key, 0)
        if kind == "Sticky":
            step("pull", 0, "", 0)
        if kind == "blocks":
            for key in keys:
                step("delete", 0, key, 0)

    counts, left = [], []
    for turn in range(4):
        kept.clear()
        keys = [f"{k}{turn}" for k in KEYS] if case["vary"] == "keys" else KEYS
        for verb, which, key, size in case["ops"]:
            step(verb, which, keys[key], size + turn * (case["vary"] == "sizes"))
            changed |= key in touched and verb in ("set", "del", "stick", "pull", "overwrite", "delete", "add")
            touched.add(key)
        counts.append(held(prefix))
        require(not held("dumped"), "a file that something was dumped into is still open")
        empty(keys)
        left.append(_shm.blocks(prefix))
    # grids hold the blocks of the views they have handed out
    if not (kind == "GridPaper" and any(op[0] == "view" for op in case["ops"])):
        for later in counts[1:]:
            require(len(later) <= len(counts[0]), "the process first held", counts[0], "and, having done the same again,", later)
    for later in left[1:]:
        require(later == left[0], "emptied, it first left", sorted(left[0]), "and, having done the same again,", sorted(later))
    if case["end"] == "close" and handles and kind != "lock":
        try:
            handles[0].close()
        except FileNotFoundError:
            require(kind == "Sticky", "closing a", kind, "failed")
            if ends["cleanup_on_exit"]:
                handles[0].stick(1)
                handles[0].close()
        require(not _shm.blocks(prefix), "closed, it left", _shm.blocks(prefix))
    ghosts = [weakref.ref(h) for h in handles]
    handles.clear()
    kept.clear()
    require(not held(prefix), "with everything dropped the process still holds", held(prefix))
    require(all(g() is None for g in ghosts), "something still refers to the handle that was dropped")
    return changed and case["handles"] > 1 or failures > 8, [kind, f"handles:{case['handles']}", f"end:{case['end']}"]


ASSUMPTIONS = [
    "a GridPaper may hold the blocks of the views it has handed out for as long as it lives; blocks kept by the caller are the "
    "caller's; descriptors and mappings are those /proc/self lists, after garbage collection",
]
