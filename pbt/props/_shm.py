"""
Driving shared memory objects through several handles in several processes.

Names: every block a case makes begins with vp<pid>x<case number>, so that leftovers can be found
and removed. The resource tracker is told nothing about shared memory (it would otherwise unlink
blocks that other processes still use); C10 looks at the real tracker.

An Actor owns handles and performs operations on them; a Remote is an Actor in a forked process.
Operations run one at a time, so any attempt to wait for a lock is a deadlock and is reported.
"""
import ctypes
import itertools
import multiprocessing
import os
import pickle
import signal
import time
import unicodedata

from hypothesis import strategies as st

from pbt.core import Violation, require

SHM = "/dev/shm"
_case = itertools.count()
_real_sleep = time.sleep
sleeps = [0, None]


def fresh_prefix():
    return f"vp{os.getpid()}x{next(_case)}"


def blocks(prefix):
    return {n for n in os.listdir(SHM) if n.startswith(prefix)}


def snapshot(prefix):
    out = {}
    for name in blocks(prefix):
        with open(f"{SHM}/{name}", "rb") as file:
            out[name] = file.read()
    return out


def wipe(prefix):
    for name in blocks(prefix):
        try:
            os.unlink(f"{SHM}/{name}")
        except FileNotFoundError:
            pass


def _counting_sleep(seconds):
    sleeps[0] += 1
    if sleeps[0] > 300:
        sleeps[0] = 0
        raise Violation("waits for a lock that nobody else holds")
    _real_sleep(0)


def quiet_tracker():
    from multiprocessing import resource_tracker

    if getattr(resource_tracker, "vp_quiet", False):
        return
    register, unregister = resource_tracker.register, resource_tracker.unregister
    resource_tracker.register = (
        lambda name, rtype: None if rtype == "shared_memory" else register(name, rtype)
    )
    resource_tracker.unregister = (
        lambda name, rtype: None if rtype == "shared_memory" else unregister(name, rtype)
    )
    resource_tracker.vp_quiet = True


def patch():
    quiet_tracker()
    time.sleep = _counting_sleep


def unpatch():
    time.sleep = _real_sleep


def unlucky(verb, fine=lambda result: True):
    """
    the same, but tried up to three times: six random digits may happen to be in use already, by
    another worker or by whatever ran here before
    """
    def tried(*args):
        for _ in range(2):
            try:
                result = verb(*args)
            except Exception:
                continue
            if fine(result):
                return result
        return verb(*args)

    return tried


class Raised(tuple):
    """(type names along the method resolution order, text)"""
    __slots__ = ()

    def isa(self, *names):
        return any(n in self[0] for n in names)


def raised(ex):
    return Raised((tuple(c.__name__ for c in type(ex).__mro__), str(ex)[:300]))


class Actor:
    def __init__(self, verbs):
        self.verbs, self.state = verbs, {}

    def do(self, verb, *args):
        sleeps[0] = 0
        try:
            return self.verbs[verb](self.state, *args)
        except Violation:
            raise
        except Exception as ex:
            return raised(ex)

    def drop(self):
        self.state.clear()

    def stop(self):
        self.drop()


class Remote:
    """an actor in another process"""
    def __init__(self, verbs):
        here, there = multiprocessing.Pipe()
        self.pid = os.fork()
        if self.pid == 0:
            ctypes.CDLL(None).prctl(1, signal.SIGKILL)  # die with the parent
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            here.close()
            actor = Actor(verbs)
            while True:
                try:
                    request = there.recv_bytes()
                except EOFError:
                    os._exit(0)
                try:
                    verb, args = pickle.loads(request)
                    if verb == "drop":
                        result = actor.drop()
                    else:
                        result = actor.do(verb, *args)
                    answer = pickle.dumps((True, result))
                except BaseException as ex:
                    answer = pickle.dumps((False, f"{type(ex).__name__}: {ex}"))
                there.send_bytes(answer)
        there.close()
        self.pipe = here

    def do(self, verb, *args):
        self.pipe.send_bytes(pickle.dumps((verb, args)))
        try:
            fine, result = pickle.loads(self.pipe.recv_bytes())
        except EOFError:
            raise Violation(f"the process running {verb}{args!r} died") from None
        if not fine:
            raise Violation(f"in another process: {result}")
        return result

    def drop(self):
        self.do("drop")

    def stop(self):
        self.pipe.close()
        try:
            os.kill(self.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        os.waitpid(self.pid, 0)


class Cast:
    """actor 0 is in this process, the others are not"""
    def __init__(self, verbs, remotes=2):
        patch()
        self.verbs = verbs
        self.actors = [Remote(verbs) for _ in range(remotes)]
        self.actors.insert(0, Actor(verbs))

    def __getitem__(self, index):
        return self.actors[index]

    def revive(self):
        """replace processes that died or hang"""
        for i, actor in enumerate(self.actors):
            if i:
                actor.stop()
                self.actors[i] = Remote(self.verbs)

    def drop(self):
        for actor in self.actors:
            actor.drop()

    def stop(self):
        for actor in self.actors:
            actor.stop()
        unpatch()


def ensure(result, *message):
    """result of an operation that must not raise"""
    if isinstance(result, Raised):
        raise Violation(" ".join(m if isinstance(m, str) else repr(m) for m in message)
                        + f" raised {result[0][0]}: {result[1]}")
    return result


# ---------------------------------------------------------------- generators
KEYS = ["a", "b", "ab", "a.b", "1", "01", "2", "key", "é", " ", "A", "count", "name", "val_0", "key_0", "0", "x-y",
        "idx", "Index", "lock", "k" * 60, "-1", "None", "日本", "a_b", "1_lock", "ndex", "i"]
keys = st.one_of(
    st.sampled_from(KEYS[:7]), st.sampled_from(KEYS[:7]), st.sampled_from(KEYS),
    st.sampled_from([1, 2, 0, -1, 10, 2**40]),
    st.text(st.characters(exclude_characters="/\0", exclude_categories=("Cs",)), min_size=1, max_size=12)
    .filter(lambda k: not k.startswith("index") and k not in (".", "..")),
)
VARIANTS = [
    lambda k: k + " ", lambda k: " " + k, str.upper, str.swapcase, str.title, lambda k: k + "\n", lambda k: k + "0", lambda k: "0" + k,
    lambda k: k + k, lambda k: "k" * 64 + k, lambda k: "k" * 64 + k + "b", lambda k: k[:-1], lambda k: k[::-1], repr, lambda k: "+" + k,
    lambda k: k + ".0", lambda k: k + "\u0301", lambda k: unicodedata.normalize("NFD", k), lambda k: unicodedata.normalize("NFKC", k),
    lambda k: k + "\u200b", lambda k: k + "\x1f", lambda k: f"[{k}]", lambda k: k + "*", lambda k: k + ",", lambda k: k + "\\",
]


@st.composite
def key_pools(draw, low, high, source=keys):
    """keys; sometimes several that differ from one of them by little"""
    pool = draw(st.lists(source, min_size=low, max_size=high))
    if draw(st.integers(0, 2)) == 0:
        base = str(pool[0])
        for variant in draw(st.lists(st.sampled_from(VARIANTS), min_size=1, max_size=3)):
            key = variant(base)
            if key and key not in (".", "..") and not key.startswith("index") and "/" not in key and len(key.encode()) < 130:
                pool.append(key)
    if draw(st.integers(0, 7)) == 0:
        # they differ only far from the beginning
        stem = "k" * draw(st.sampled_from([16, 32, 64, 90, 105]))
        pool = [key for key in pool if len(str(key).encode()) < 40] or ["a"]
        pool = [stem + str(key) for key in pool] + [stem]
    return pool


def perhaps_large(draw, values, text=False):
    """now and then, values of more than a megabyte as well"""
    if draw(st.integers(0, 9)):
        return values
    return st.one_of(values, values, st.sampled_from([2**20 - 20, 2**20 + 5, 3 * 2**20]).map(lambda n: "y" * n if text else b"y" * n))


json_values = st.recursive(
    st.one_of(st.none(), st.booleans(), st.integers(), st.text(max_size=6), st.floats(allow_nan=False, allow_infinity=True),
              st.integers(1, 30000).map(lambda n: "x" * n)),
    lambda c: st.one_of(st.lists(c, max_size=3), st.dictionaries(st.text(max_size=4), c, max_size=3)), max_leaves=6)
literals = st.recursive(
    st.one_of(st.none(), st.booleans(), st.integers(), st.text(max_size=6), st.binary(max_size=6),
              st.floats(allow_nan=False, allow_infinity=False), st.complex_numbers(allow_nan=False, allow_infinity=False),
              st.integers(1, 9000).map(lambda n: "x" * n)),
    lambda c: st.one_of(st.lists(c, max_size=3), st.tuples(c, c), st.tuples(c), st.just(()),
                        st.dictionaries(st.one_of(st.text(max_size=4), st.integers(), st.tuples(st.integers())), c, max_size=3),
                        st.sets(st.integers(), min_size=1, max_size=3)), max_leaves=6)
class Slotted:
    __slots__ = ("x",)

    def __init__(self, x):
        self.x = x

    def __eq__(self, other):
        return type(other) is Slotted and self.x == other.x

    def __hash__(self):
        return hash(self.x)

    def __repr__(self):
        return f"Slotted({self.x!r})"


picklables = st.one_of(
    literals, literals, st.frozensets(st.integers(), max_size=3), st.just(float("inf")), st.binary(max_size=40),
    st.integers(1, 70000).map(lambda n: b"\0" * n), st.sampled_from([range(3), slice(1, 2), Slotted(3), Slotted(()), int, ValueError, Ellipsis]),
)


def same(a, b):
    """equal, with equal types all the way down"""
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(map(same, a, b))
    if isinstance(a, dict):
        return list(map(repr, a)) == list(map(repr, b)) and all(map(same, a.values(), b.values()))
    if isinstance(a, float):
        return repr(a) == repr(b)
    # a complex number's literal does not tell the sign of a part that is zero
    return a == b
