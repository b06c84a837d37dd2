import json

from hypothesis import strategies as st

from pbt.core import Violation, raises, require
from pbt.props import _sched, _shm
from pbt.props._shm import same

ID = "C05"
RULE = (
    "two to four virtual processes, or threads with one handle between them, each with a short program (enter and leave one "
    "named lock; or add, set, get, remove and delete its own keys on one locked TagIndex, MetaTagIndex, Notepad or GridPaper, "
    "and look at all its keys), and one schedule over their single "
    "shared memory steps: up to 25 chosen turns, then fair, in one "
    "case of 25 repeated with the first process interrupted after each of its steps in turn; non-trivial if some process was "
    "interrupted inside an operation for another one"
)
QUICK, THOROUGH = 1100, 30000
CASE_TIMEOUT = 60
KINDS = ["lock", "lock", "TagIndex", "MetaTagIndex", "Notepad", "GridPaper"]


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(KINDS))
    sweep = draw(st.integers(0, 24)) == 0
    n = draw(st.sampled_from([2, 2, 2, 3] if sweep else [2, 2, 3, 3, 4]))
    if kind == "lock":
        entry = st.tuples(st.integers(0, 4), st.booleans(), st.sampled_from(["fine", "fine", "fine", "raise"]))
        programs = draw(st.lists(st.lists(entry, min_size=1, max_size=1 if sweep else 3), min_size=n, max_size=n))
    else:
        op = st.tuples(st.sampled_from(["put", "put", "drop", "drop", "get", "look"]), st.sampled_from([0, 0, 1, 2]), st.integers(0, 5))
        programs = draw(st.lists(st.lists(op, min_size=1, max_size=2 if sweep else 4), min_size=n, max_size=n))
        if sweep and draw(st.booleans()):  # a removal that moves what the first process works on
            programs[1] = [("drop", 0, draw(st.integers(0, 1)))]
    length = draw(st.sampled_from([3, 12, 40, 100, 100, 200]))
    lengths = st.integers(1, length)
    if draw(st.booleans()):
        lengths = st.one_of(lengths, st.just(0))
    segment = st.tuples(st.integers(0, n - 1), lengths)
    return {
        "kind": kind, "programs": programs,
        "sweep": sweep, "threads": draw(st.integers(0, 2)) == 0,
        "warm": draw(st.sampled_from([0, 0, 0, 0, 1, 2, 5] + [254, 255] * (not sweep))),
        "before": draw(st.sampled_from([2, 2, 3] if sweep else [0, 1, 2, 2, 3])) if kind != "lock" else 0,
        "schedule": [(1, 0)] * draw(st.integers(0, 2) if sweep else st.just(0)) + draw(st.lists(segment, max_size=draw(st.sampled_from([0, 0, 2] if sweep else [3, 8, 25])))),
        "quantum": draw(st.sampled_from([1, 2, 7, 25, 100])),
    }


def strategy(tier):
    return cases()


def setup():
    _sched.patch()
    import dustgoggles.codex.implements  # noqa: the code under test now sees the stand-in


def run_locks(world, case):
    from dustgoggles.codex.implements import SlidingLock

    inside, entered = [], []
    for _ in range(case["warm"]):
        with SlidingLock("l"):
            pass

    def program(me, entries):
        mine = None
        for steps, reuse, end in entries:
            if mine is None or not reuse:
                mine = SlidingLock("l")
            try:
                with mine:
                    require(not inside, "process", me, "entered the lock that", inside, "is in")
                    inside.append(me)
                    for _ in range(steps):
                        _sched.point()
                        require(inside == [me], "inside the lock at once:", inside)
                    inside.remove(me)
                    entered.append(me)
                    if end == "raise":
                        raise LookupError
            except LookupError:
                require(end == "raise", "an entry raised")
            world.between()

    world.run([lambda i=i, p=p: program(i, p) for i, p in enumerate(case["programs"])], case["schedule"], case["quantum"])
    require(sorted(entered) == sorted(i for i, p in enumerate(case["programs"]) for _ in p), "entered", entered)


def value(kind, me, n):
    if kind == "TagIndex":
        return None
    if kind == "MetaTagIndex":
        return {"of": me, "n": "x" * n * 30}
    if kind == "Notepad":
        return [me, "x" * n * 30]
    import numpy as np

    return np.arange(n * 3, dtype=["f4", ">i2", "c8", "u1"][me % 4]).reshape(3, n)


def check_value(kind, got, want, what):
    if kind == "TagIndex":
        require(isinstance(got, int) and got >= 0, what, "has slot", got)
        return
    if kind == "GridPaper":
        fine = got.dtype == want.dtype and got.shape == want.shape and (got == want).all()
    else:
        fine = same(json.loads(got) if kind == "MetaTagIndex" else got, want)
    require(fine, what, "is", got, "instead of", want)


def run_index(world, case):
    from dustgoggles.codex import implements

    kind = case["kind"]
    padlike = kind in ("Notepad", "GridPaper")
    cls = getattr(implements, kind)

    def put(handle, key, new):
        if padlike:
            handle[key] = new
        elif kind == "TagIndex":
            handle.add(key)
        else:
            handle.add(key, new)

    model = {}
    first = cls("p", create=True)
    for _ in range(case["warm"]):  # advance the lock's counter
        put(first, "warm", value(kind, 0, 1))
    if case["warm"]:
        del first["warm"]
    for i in range(case["before"]):
        new = value(kind, 0, i)
        put(first, f"before{i}", new)
        model[f"before{i}"] = new

    def program(me, ops):
        handle = first if case["threads"] else cls("p", create=False)
        for verb, key, n in ops:
            key = f"k{me}.{key}" if key else f"before{me}"
            if verb == "get":
                # a key that nobody else changes
                if n % 2 and case["before"] > len(case["programs"]):
                    key = f"before{len(case['programs'])}"
                if key in model:
                    got = handle[key] if kind != "TagIndex" else handle.check(key)
                    check_value(kind, got, model[key], f"while others work, {key}")
                elif kind != "TagIndex":
                    raises(KeyError, lambda: handle[key])
                else:
                    require(handle.check(key) is None, "the absent key", key, "has slot", handle.check(key))
            elif verb == "look":
                # what it finds while others work is not told here, but it disturbs nobody
                try:
                    list(handle.keys()) if padlike else handle.update()
                    list(handle.iteritems()) if padlike and n > 3 else None
                except Exception:
                    pass
            elif verb == "put":
                new = value(kind, me, n)
                put(handle, key, new)
                model[key] = new
            else:
                try:
                    if padlike or n % 2:
                        del handle[key]
                    else:
                        handle.remove(key)
                except KeyError:
                    require(key not in model, "removing the present key", key, "raised KeyError")
                else:
                    require(key in model, "removing the absent key", key, "did not raise")
                    del model[key]
            world.between()

    world.run([lambda i=i, p=p: program(i, p) for i, p in enumerate(case["programs"])], case["schedule"], case["quantum"])
    last = first if case["threads"] and case["warm"] else cls("p", create=False)
    listed = list(last.keys()) if padlike else list(last.update())
    require(sorted(listed) == sorted(model), "afterwards the keys are", listed, "instead of", sorted(model))
    for key, want in model.items():
        if kind != "TagIndex":
            check_value(kind, last[key], want, f"afterwards {key}")
        if not padlike:
            require(last.check(key) in range(len(model)), "slot of", key, last.check(key))
    if not padlike:
        require(len({last.check(k) for k in model}) == len(model), "two keys share a slot")
    if kind == "MetaTagIndex":
        got = dict(last.items())
        require(same({k: got[k] for k in sorted(got)}, {k: json.loads(json.dumps(model[k])) for k in sorted(model)}),
                "afterwards the items are", got, "instead of", model)
    # the index is not left locked either
    put(last, "afterwards", value(kind, 0, 1))
    del last["afterwards"]


def run_once(case):
    world = _sched.new_world()
    try:
        (run_locks if case["kind"] == "lock" else run_index)(world, case)
    finally:
        _sched.new_world()
    return world


def run_case(case):
    switches = waits = 0
    if case["sweep"]:  # interrupt the first process after each of its steps in turn
        for steps in range(1, 500):
            world = run_once(case | {"schedule": [(0, steps)] + case["schedule"]})
            switches, waits = switches + world.switches, waits + world.waits
            if world.spared:
                break
    else:
        world = run_once(case)
        switches, waits = world.switches, world.waits
    return switches > 0, [
        case["kind"], f"processes:{len(case['programs'])}", "switched" if switches else "", "waited" if waits else "",
        "threads" if case["threads"] else "", f"swept: {case['kind']}" if case["sweep"] else "",
    ]


def _giving_up():
    """one holds the lock, a second gives up waiting, a third that came later gets it, and then a fourth does too"""
    import threading

    from dustgoggles.codex.implements import SlidingLock

    name = f"{_shm.fresh_prefix()}giving-up"
    ends, begun, inside, most = {}, {}, set(), [0]

    def hold(who):
        lock = SlidingLock(name)
        lock.delay = 0.001
        with lock:
            inside.add(who)
            most[0] = max(most[0], len(inside))
            begun[who].set()
            ends[who].wait(5)
            inside.discard(who)

    def give_up():
        lock = SlidingLock(name)
        lock.max_spins, lock.delay = 4, 0.1
        try:
            with lock:
                pass
        except TimeoutError:
            pass

    def start(what, who=None):
        ends[who], begun[who] = threading.Event(), threading.Event()
        thread = threading.Thread(target=what, args=[] if who is None else [who])
        thread.start()
        begun[who].wait(0.1)
        return thread

    try:
        first, second, third = start(hold, "first"), start(give_up), start(hold, "third")
        second.join()
        ends["first"].set()
        first.join()
        begun["third"].wait(2)
        fourth = start(hold, "fourth")
        begun["fourth"].wait(0.5)
        for event in ends.values():
            event.set()
        for thread in (third, fourth):
            thread.join()
        return most[0] > 1
    finally:
        _shm.wipe(name)


def _swept(prepare, write, read, allowed):
    """in a world of virtual processes: does a reader ever see what it must not, if the writer is interrupted once"""
    import os
    import sys

    pid = os.fork()
    if pid == 0:
        found = 0
        try:
            for name in [m for m in sys.modules if m.split(".")[0] == "dustgoggles"]:
                del sys.modules[name]
            setup()
            from dustgoggles.codex import implements

            for steps in range(1, 60):
                world = _sched.new_world()
                pad, saw = implements.Notepad("p", create=True), []
                prepare(pad)

                def reader():
                    try:
                        saw.append(read(pad))
                    except Exception as ex:
                        saw.append(type(ex).__name__)

                world.run([lambda: write(implements.Notepad("p")), reader], [(0, steps), (1, 0)], 100)
                found |= saw[0] not in allowed
        finally:
            os._exit(found)
    return os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1]) == 1


def _torn_read():
    return _swept(lambda pad: pad.set("k", "old"), lambda pad: pad.set("k", "newer"), lambda pad: pad.get("k"), ["old", "newer"])


def _torn_listing():
    return _swept(lambda pad: pad.set("k", 1), lambda pad: pad.set("other", 2), lambda pad: sorted(pad.keys()), [["k"], ["k", "other"]])


FINDINGS = {"C05-giving-up": _giving_up, "C05-torn-read": _torn_read, "C05-torn-listing": _torn_listing}
ASSUMPTIONS = [
    "the shared memory the programs see is a stand-in that takes one step at a time: creating a block is two steps (the name "
    "appears, then the size), every other block operation one; torn reads of a single block and processes that die or are "
    "interrupted by signals are not modelled; no process gives up waiting (max_spins; the known finding); "
    "keys are read, or the index listed, only while nobody is changing them (the other known findings)",
]
