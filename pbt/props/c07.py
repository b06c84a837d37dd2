import fcntl
import random
import threading

from hypothesis import strategies as st

from pbt.core import require
from pbt.props import _shm
from pbt.props._shm import Raised, ensure, same

ID = "C07"
RULE = (
    "one history of notes, re-sticks (of values whose encodings take 4 bytes to 70 kB, None included), reads, rereads, "
    "fresh reads, pulls and closes on up to three addresses through up to six handles in three processes; non-trivial if "
    "an address was re-stuck and read afterwards through a handle that had not stuck the new value"
)
QUICK, THOROUGH = 350, 8000
CASE_TIMEOUT = 60
ADDRESSES = ["", "a", "_", "_a", " b", "é", "0", "a.b", "x" * 100, "", " ", "a ", "A", "a_b", "a b", "00", "e\u0301", "x" * 99 + "y", "b\n", "a%20b"]


class Point:
    """an instance of an ordinary class"""
    def __init__(self, x):
        self.x = x

    def __eq__(self, other):
        return type(other) is Point and same(self.x, other.x)

    def __hash__(self):
        return 0

    def __repr__(self):
        return f"Point({self.x!r})"


def _new(state, handle, address, value, how):
    from dustgoggles.codex.implements import Sticky

    if how == "note":
        state[handle] = Sticky.note(value, address)
    elif how == "note named":
        state[handle] = Sticky.note(obj=value, address=address, cleanup_on_exit=False)
    elif how == "value":
        state[handle] = Sticky(address, value)
    else:
        state[handle] = Sticky(address)
    state["cache", handle] = None if how == "bare" else value


def _stick(state, handle, value):
    state[handle].stick(value)
    state["cache", handle] = value


def _read(state, handle, how):
    it, cached = state[handle], state["cache", handle]
    got = it.read(True) if how == "reread" else it.read(reread=True) if how == "named" else it.read()
    if how == "read" and cached is not None:
        require(got is cached, "a sticky with the cached object", cached, "read", got)
    state["cache", handle] = got
    if got is None and how == "read":
        require("unread" in str(it) and "unread" in repr(it), "an unread sticky is shown as", str(it), "and", repr(it))
    elif got is not None:
        require(str(it) == str(got) and repr(got) in repr(it), "a sticky of", got, "is shown as", str(it), "and", repr(it))
    return got


UNREADABLE = {"function": lambda: lambda: 1, "lock": threading.Lock, "generator": lambda: [1, (x for x in ())],
              "late": lambda: [b"x" * 100000, lambda: 1], "raises": lambda: Raises()}


class Raises:
    def __reduce__(self):
        raise KeyError("not this one")


def _misstick(state, handle, kind):
    """stick what cannot be pickled: nothing happens but an exception"""
    it, cached = state[handle], state["cache", handle]
    it_said = str(it), repr(it)
    try:
        it.stick(UNREADABLE[kind]())
    except Exception:
        pass
    else:
        require(False, "sticking a", kind, "was fine")
    require((str(it), repr(it)) == it_said, "it was shown as", it_said, "and is as", it)
    if cached is not None:
        got = it.read()
        require(got is cached, "a failed stick changed", cached, "to", got)


def _end(state, handle, how):
    getattr(state[handle], how)()


def _fresh(state, address):
    from dustgoggles.codex.implements import Sticky

    return Sticky(address).read()


def _nameless(state, values, how):
    """notes that choose their own addresses"""
    from dustgoggles.codex.implements import Sticky

    random.seed()  # or all processes choose the same
    seen = []
    for value in values:
        before = _shm.blocks("")
        note = Sticky.note(value) if how == "note" else Sticky.note(value, None, False)
        try:
            seen.append(note.address)
            require(isinstance(note.address, str) and note.address in _shm.blocks("") - before,
                    "there is no new block at", note.address)
            require(note.read() is value or value is None, "a new note reads", note.read())
            got = Sticky(note.address).read()
            require(same(got, value), "a fresh read gave", got, "instead of", value)
        finally:
            note.pull()
        require(note.address not in _shm.blocks(""), "the pulled note is still there")
    require(len(set(seen)) > 1 or len(seen) < 4, "all notes chose", seen)


def _numbered(state, number, values, how):
    """a note whose address is a number"""
    from dustgoggles.codex.implements import Sticky

    with open(__file__) as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)  # other workers use the same number
        if _shm.blocks(str(number)) & {str(number)}:
            return
        note = Sticky.note(values[0], number) if how == "note" else Sticky(number)
        try:
            note.stick(values[1])
            require(str(number) in _shm.blocks(str(number)), "there is no block at", number)
            for address in (number, str(number)):
                got = Sticky(address).read()
                require(same(got, values[1]), "a fresh read of", address, "gave", got, "instead of", values[1])
        finally:
            note.pull()
        require(Sticky(number).read() is None, "the pulled note is still there")


VERBS = {"numbered": _numbered, "nameless": _shm.unlucky(_nameless), "new": _new, "stick": _stick, "misstick": _misstick, "read": _read, "end": _end, "fresh": _fresh}


@st.composite
def cases(draw):
    n = draw(st.sampled_from([1, 1, 2, 3]))
    addresses = draw(st.lists(st.sampled_from(ADDRESSES), min_size=n, max_size=n, unique=True))
    which, handle, home = st.integers(0, n - 1), st.integers(0, 5), st.integers(0, 2)
    value = st.one_of(_shm.picklables, _shm.picklables, st.sampled_from([None, 0, False, "", [], b""]),
                      _shm.literals.map(Point))
    value = _shm.perhaps_large(draw, value)
    if draw(st.integers(0, 2)) == 0:
        # values whose encodings are of the same size
        value = draw(st.sampled_from([st.integers(1, 5), st.sampled_from(["ab", "cd", "ba"]), st.sampled_from([b"xy", b"yx"])]))
    elif draw(st.integers(0, 4)) == 0:
        # None replaces other values and they replace it
        value = st.sampled_from([None, None, 0, "", "ab", [1]])
    one = st.one_of(
        st.tuples(st.just("new"), handle, which, value, st.sampled_from(["note", "note", "note named", "bare", "bare", "value"]), home),
        st.tuples(st.just("new"), handle, which, value, st.sampled_from(["note", "note", "note named", "bare", "bare", "value"]), home),
        st.tuples(st.just("stick"), handle, value), st.tuples(st.just("stick"), handle, value),
        st.tuples(st.just("read"), handle, st.sampled_from(["read", "read", "reread", "named"])),
        st.tuples(st.just("read"), handle, st.sampled_from(["read", "read", "reread", "named"])),
        st.tuples(st.just("misstick"), handle, st.sampled_from(sorted(UNREADABLE))),
        st.tuples(st.just("end"), handle, st.sampled_from(["close", "pull"])),
        st.tuples(st.just("fresh"), which, home),
        st.tuples(st.just("numbered"), st.sampled_from([0, 0, 7, -1, 2**40]), home, st.tuples(value, value), st.sampled_from(["note", "note", "bare"])),
        st.tuples(st.just("nameless"), st.sampled_from([[1], [2, "x"], [None], [1, 2, 3, [4]]]), home, st.sampled_from(["note", "placed"])),
    )
    low, high = draw(st.sampled_from([(2, 8), (8, 20), (16, 40)]))
    return {"addresses": addresses, "ops": draw(st.lists(one, min_size=low, max_size=high))}


def strategy(tier):
    return cases()


def setup():
    global cast
    cast = _shm.Cast(VERBS)


def teardown():
    cast.stop()


NOTHING = object()


def run_case(case):
    prefix = _shm.fresh_prefix()
    stuck = {}     # address -> value
    handles = {}   # number -> [home, address index, cached value]
    restuck = {}   # address -> handle that stuck the value that replaced another
    nontrivial, labels = False, set()

    def do(number, verb, *args):
        return cast[handles[number][0]].do(verb, number, *args)

    def address(i):
        return prefix + case["addresses"][i]

    def stick(number, i, value):
        if i in stuck:
            restuck[i] = number
        stuck[i] = value
        handles[number][2] = value
        require(address(i) in _shm.blocks(prefix), "nothing is at", address(i))

    try:
        for op in case["ops"]:
            verb, number = op[0], op[1]
            present = _shm.blocks(prefix)
            require(present == {address(i) for i in stuck}, "blocks", present, "for notes at", sorted(stuck))
            if verb == "numbered":
                ensure(cast[op[2]].do("numbered", op[1], op[3], op[4]), "a note at the address", op[1])
                continue
            if verb == "nameless":
                ensure(cast[op[2]].do("nameless", op[1], op[3]), "notes without an address")
                continue
            if verb == "new":
                _, _, i, value, how, home = op
                handles[number] = [home, i, None]
                ensure(do(number, "new", address(i), value, how), "making a sticky")
                if how.startswith("note"):
                    stick(number, i, value)
                elif how == "value":
                    handles[number][2] = value
                labels.add(how)
                continue
            if verb == "fresh":
                _, i, home = op
                got = ensure(cast[home].do("fresh", address(i)), "reading afresh")
                want = stuck.get(i)
                require(same(got, want), "a fresh read of", address(i), "gave", got, "instead of", want)
                nontrivial |= i in restuck
                labels.add("fresh of nothing" if i not in stuck else "fresh")
                require(_shm.blocks(prefix) == present, "reading changed which blocks exist")
                continue
            if not handles:
                continue
            number = sorted(handles)[number % len(handles)]
            if verb == "stick":
                ensure(do(number, "stick", op[2]), "sticking", op[2])
                stick(number, handles[number][1], op[2])
            elif verb == "misstick":
                before = _shm.snapshot(prefix)
                ensure(do(number, "misstick", op[2]), "sticking a", op[2])
                require(before == _shm.snapshot(prefix), "a failed stick changed shared memory")
            elif verb == "read":
                _, i, cached = handles[number]
                got = ensure(do(number, "read", op[2]), "reading")
                if op[2] == "read" and cached is not None:
                    want = cached
                else:
                    want = handles[number][2] = stuck.get(i)
                    if cached is not None and i not in stuck:
                        del handles[number]  # whether it still counts as having a cached object is left open
                    nontrivial |= i in restuck and restuck[i] != number
                require(same(got, want), op[2], "of", address(i), "gave", got, "instead of", want)
                require(_shm.blocks(prefix) == present, "reading changed which blocks exist")
                labels.add(op[2] + (" cached" if cached is not None else ""))
            elif verb == "end":
                i = handles[number][1]
                if i in stuck:
                    ensure(do(number, "end", op[2]), op[2])
                    del stuck[i]
                    restuck.pop(i, None)
                    labels.add(op[2])
        for i in range(len(case["addresses"])):
            for home in range(3):
                got = ensure(cast[home].do("fresh", address(i)), "reading afresh")
                require(same(got, stuck.get(i)), "a fresh read of", address(i), "gave", got, "instead of", stuck.get(i))
        require(_shm.blocks(prefix) == {address(i) for i in stuck}, "blocks at the end", _shm.blocks(prefix))
        return nontrivial, labels
    except BaseException:
        _shm.wipe(prefix)
        cast.revive()
        raise
    finally:
        _shm.wipe(prefix)
        cast.drop()


ASSUMPTIONS = [
    "addresses are usable as block names (no '/' and no NUL, at most 250 bytes) and are strings; operations do not overlap in time",
]
