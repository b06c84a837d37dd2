from hypothesis import strategies as st

from pbt.core import require
from pbt.props import _shm
from pbt.props._shm import Raised, ensure

ID = "C09"
RULE = (
    "one history of opens (new, attached, overwriting; 1 byte to 5 pages), writes and reads through open blocks, fetches, "
    "existence tests, deletes (missing_ok or not) and closes of blocks on up to three names by three processes, against a "
    "dictionary; non-trivial if a block was overwritten or deleted while still open, and looked at afterwards"
)
QUICK, THOROUGH = 350, 8000
CASE_TIMEOUT = 60
NAMES = ["", "a", "_", "é", "_count", "a.b", " ", "x" * 100]


def _open(state, handle, name, size, how):
    from dustgoggles.codex.memutilz import open_block

    if how == "plain":
        block = open_block(name, size)
    elif how == "overwrite":
        block = open_block(name, size, overwrite=True)
    elif how == "positional":
        block = open_block(name, size, True, True)
    elif how == "explicit":
        block = open_block(name, size, create=True, overwrite=False)
    else:
        block = open_block(name, size, create=False)
    state[handle] = block
    return bytes(block.buf), block.size


def _write(state, handle, offset, data):
    block = state[handle]
    offset %= block.size
    data = data[:block.size - offset]
    block.buf[offset:offset + len(data)] = data
    return offset, data


def _read(state, handle):
    return bytes(state[handle].buf)


def _close(state, handle):
    state.pop(handle).close()


def _fetch(state, name):
    from dustgoggles.codex.memutilz import fetch_block_bytes

    return fetch_block_bytes(name)


def _exists(state, name):
    from dustgoggles.codex.memutilz import exists_block

    return exists_block(name)


def _delete(state, name, missing_ok):
    from dustgoggles.codex.memutilz import delete_block

    return delete_block(name) if missing_ok is None else delete_block(name, missing_ok)


VERBS = {"open": _open, "write": _write, "read": _read, "close": _close, "fetch": _fetch, "exists": _exists, "delete": _delete}


@st.composite
def cases(draw):
    n = draw(st.sampled_from([1, 1, 2, 3]))
    names = draw(st.lists(st.sampled_from(NAMES), min_size=n, max_size=n, unique=True))
    which, home, number = st.integers(0, n - 1), st.integers(0, 2), st.integers(0, 20)
    size = st.one_of(st.integers(1, 20), st.integers(1, 20), st.sampled_from([1, 8, 4095, 4096, 4097, 8192, 20000]))
    if draw(st.integers(0, 11)) == 0:
        size = size | st.sampled_from([65536, 2**20 - 1, 2**20 + 5, 3 * 2**20])
    data = st.one_of(st.binary(min_size=1, max_size=30), st.integers(1, 9000).map(lambda k: bytes([k % 251 + 1]) * k))
    opened = st.tuples(st.just("open"), which, home, size, st.sampled_from(
        ["plain", "plain", "overwrite", "overwrite", "positional", "explicit", "attach"]))
    one = st.one_of(
        opened, opened, opened,
        st.tuples(st.just("write"), number, st.integers(0, 9000) | st.just(0), data),
        st.tuples(st.just("write"), number, st.integers(0, 9000) | st.sampled_from([0, -1]), data),
        st.tuples(st.just("close"), number),
        st.tuples(st.just("fetch"), which, home), st.tuples(st.just("exists"), which, home),
        st.tuples(st.just("delete"), which, home, st.sampled_from([None, True, False])),
    )
    low, high = draw(st.sampled_from([(2, 8), (8, 20), (16, 40)]))
    return {"names": names, "ops": draw(st.lists(one, min_size=low, max_size=high))}


def strategy(tier):
    return cases()


def setup():
    global cast
    cast = _shm.Cast(VERBS)


def teardown():
    cast.stop()


def run_case(case):
    prefix = _shm.fresh_prefix()
    named = {}      # name index -> bytearray: what the block of that name holds
    handles = []    # [home, id, bytearray, still named]
    serial = 0
    nontrivial, labels = False, set()

    def name(i):
        return prefix + case["names"][i]

    def compare():
        want = {name(i): bytes(v) for i, v in named.items()}
        got = _shm.snapshot(prefix)
        require(got == want, "blocks", {k: v[:40] for k, v in got.items()}, "instead of", {k: v[:40] for k, v in want.items()})

    try:
        for op in case["ops"]:
            verb, i = op[:2]
            if verb == "open":
                _, _, home, size, how = op
                serial += 1
                result = cast[home].do("open", serial, name(i), size, how)
                if how == "attach" and i not in named:
                    require(isinstance(result, Raised) and result.isa("FileNotFoundError"), "attaching to nothing gave", result)
                    compare()
                    continue
                content, stated = ensure(result, "opening", name(i), size, how)
                require(stated == len(content), "size", stated, "of", len(content), "bytes")
                if i in named and how in ("plain", "explicit", "attach"):
                    require(content == bytes(named[i]), "attached to", content[:40], "instead of", bytes(named[i])[:40])
                    labels.add("attached")
                else:
                    require(len(content) >= size, "opened", len(content), "bytes instead of", size)
                    if i in named:
                        # a new block of the requested size (whole pages on some systems)
                        require(len(content) in (size, -(-size // 4096) * 4096), "overwritten by", len(content), "bytes for", size)
                        labels.add("overwritten")
                    for handle in handles:
                        if named.get(i) is handle[2]:
                            handle[3] = False
                    named[i] = bytearray(content)
                handles.append([home, serial, named[i], True])
            elif verb in ("write", "close"):
                if not handles:
                    continue
                handle = handles[i % len(handles)]
                if verb == "close":
                    ensure(cast[handle[0]].do("close", handle[1]), "closing")
                    handles.remove(handle)
                else:
                    offset, data = ensure(cast[handle[0]].do("write", handle[1], *op[2:]), "writing")
                    handle[2][offset:offset + len(data)] = data
            elif verb == "fetch":
                got = cast[op[2]].do("fetch", name(i))
                if i in named:
                    require(ensure(got, "fetching") == bytes(named[i]), "fetched", got[:40], "instead of", bytes(named[i])[:40])
                    require(type(got) is bytes, "fetched", type(got))
                else:
                    require(isinstance(got, Raised) and got.isa("FileNotFoundError"), "fetching nothing gave", got)
            elif verb == "exists":
                require(cast[op[2]].do("exists", name(i)) is (i in named), "existence of", name(i), i in named)
            elif verb == "delete":
                _, _, home, missing_ok = op
                result = cast[home].do("delete", name(i), missing_ok)
                if i in named or missing_ok:
                    require(result is None, "deleting gave", result)
                    labels.add("deleted" if i in named else "missing was fine")
                    for handle in handles:
                        if named.get(i) is handle[2]:
                            handle[3] = False
                    named.pop(i, None)
                else:
                    require(isinstance(result, Raised) and result.isa("FileNotFoundError"), "deleting nothing gave", result)
            compare()
            for home, number, content, live in handles:
                got = ensure(cast[home].do("read", number), "reading an open block")
                require(got == bytes(content), "an open block holds", got[:40], "instead of", bytes(content)[:40])
                nontrivial |= not live
        for i in range(len(case["names"])):
            for home in range(3):
                require(cast[home].do("exists", name(i)) is (i in named), "existence of", name(i), i in named)
        compare()
        return nontrivial, labels
    except BaseException:
        _shm.wipe(prefix)
        cast.revive()
        raise
    finally:
        _shm.wipe(prefix)
        cast.drop()


ASSUMPTIONS = ["names are usable as block names; operations do not overlap in time; what a new block holds, and overwrite together with create=False, are not claimed"]
