import multiprocessing
import os
import signal
import threading
import time

from hypothesis import strategies as st

from pbt.core import require
from pbt.props import _shm
from pbt.props._shm import same

ID = "C42"
RULE = (
    "one to four calls of one function (returning its arguments, a generated value of up to 40 kB, or raising a generated "
    "exception, after changing its arguments and a global) through wrap_piped (blocking or not) or through piped run in a "
    "thread or child process (results of up to 3 MB); non-trivial if a call raises, is given arguments, or returns more than 4 kB"
)
QUICK, THOROUGH = 60, 2500
CASE_TIMEOUT = 60


class OddError(Exception):
    def __init__(self, a, b=2):
        super().__init__(a)
        self.b = b


EXCEPTIONS = [ValueError("v"), KeyError(("k", 1)), OddError(1), ZeroDivisionError(), StopIteration(3), TypeError("t", 2),
              OSError(2, "no such thing", "file"), UnicodeDecodeError("utf8", b"\xff", 0, 1, "why"), ExceptionGroup("g", [ValueError(1)]),
              AssertionError(), MemoryError("m"), EOFError(), BrokenPipeError(32, "pipe"), TimeoutError()]
STATE = {"touched": 0}
VALUES = st.one_of(_shm.picklables, st.sampled_from([None, (), b"", 0]), st.integers(0, 40000).map(lambda n: "x" * n))


@st.composite
def cases(draw):
    how = draw(st.sampled_from(["wrapped", "wrapped", "wrapped", "unblocked", "piped thread", "piped process"]))
    call = st.fixed_dictionaries({
        "args": st.lists(VALUES, max_size=3), "kwargs": st.dictionaries(st.sampled_from(["a", "func", "args", "block"]), VALUES, max_size=2),
        "end": st.one_of(st.tuples(st.just("return"), VALUES), st.tuples(st.just("echo"), st.none()),
                         st.tuples(st.just("raise"), st.integers(0, len(EXCEPTIONS) - 1)),
                         st.tuples(st.just("give an exception"), st.integers(0, len(EXCEPTIONS) - 1)),
                         st.tuples(st.just("big"), st.integers(100_000, 3_000_000)) if how.startswith("piped")
                         else st.tuples(st.just("big"), st.integers(0, 45_000)))})
    return {"how": how, "calls": draw(st.lists(call, min_size=1, max_size=4))}


def strategy(tier):
    return cases()


def alike(got, want):
    if isinstance(want, Exception):
        return type(got) is type(want) and same(got.args, want.args) and vars(got) == vars(want) if not isinstance(want, ExceptionGroup) \
            else repr(got) == repr(want)
    return same(got, want)


def run_case(case):
    from dustgoggles.test_utils import piped, wrap_piped

    how, nontrivial = case["how"], False
    STATE["touched"] = 0
    parent = os.getpid()
    current = [None]

    def func(*args, **kwargs):
        STATE["touched"] += 1
        for arg in args:
            if isinstance(arg, list):
                arg.append("changed")
        end, what = current[0]
        if end == "raise":
            raise EXCEPTIONS[what]
        if end == "give an exception":
            return EXCEPTIONS[what]
        if end == "big":
            return b"\1" * what
        return what if end == "return" else (args, kwargs, os.getpid() != parent)

    wrapped = wrap_piped(func) if how == "wrapped" else wrap_piped(func, False) if how == "unblocked" else None
    for call in case["calls"]:
        current[0] = end, what = call["end"]
        args = [list(a) if isinstance(a, list) else a for a in call["args"]]
        kwargs = call["kwargs"]
        size = len(_shm.pickle.dumps((args, kwargs)))
        if size > 45_000 and not how.startswith("piped") and end == "echo":
            continue
        said = [a + ["changed"] if isinstance(a, list) else a for a in call["args"]]
        want = {"return": lambda: what, "echo": lambda: (tuple(said), kwargs, how != "piped thread"), "big": lambda: b"\1" * what}.get(
            end, lambda: EXCEPTIONS[what])()
        if how == "wrapped":
            got = wrapped(*args, **kwargs)
        elif how == "unblocked":
            process = wrapped(*args, **kwargs)
            process.join(30)
            require(process.exitcode == 0, "the child process ended with", process.exitcode)
            process.close()
        else:
            here, sendback = piped(func)
            made = threading.Thread if how == "piped thread" else multiprocessing.Process
            worker = made(target=sendback, args=args, kwargs=kwargs)
            worker.start()
            require(here.poll(30), "nothing came back")
            got = here.recv()
            worker.join()
            here.close()
        if how != "unblocked":
            require(alike(got, want), how, "gave", got, "instead of", want)
        if how != "piped thread":
            require(STATE["touched"] == 0 and same(args, call["args"]), "the call changed this process:", STATE, args)
            require(not multiprocessing.active_children(), "child processes are left")
        nontrivial |= end == "raise" or bool(args) or end == "big" and what > 4000
    return nontrivial, [how] + sorted({c["end"][0] for c in case["calls"]})


def _hangs(func):
    """does a blocking call of func in a child process not come back"""
    pid = os.fork()
    if pid == 0:
        try:
            null = os.open(os.devnull, os.O_WRONLY)
            os.dup2(null, 2)
            os.setpgid(0, 0)
            from dustgoggles.test_utils import wrap_piped

            wrap_piped(func)()
        finally:
            os._exit(0)
    for _ in range(50):
        if os.waitpid(pid, os.WNOHANG)[0]:
            return False
        time.sleep(0.05)
    os.killpg(pid, signal.SIGKILL)
    os.waitpid(pid, 0)
    return True


def _large():
    return _hangs(lambda: b"x" * 3_000_000)


def _unpicklable():
    return _hangs(lambda: lambda: 0)


FINDINGS = {"C42-large-result": _large, "C42-unpicklable-result": _unpicklable}
ASSUMPTIONS = [
    "the start method is fork; arguments of blocking calls are such that the result's pickle is at most 45 kB, results can be "
    "pickled and unpickled (the two known findings); the function ends by returning or raising an Exception",
]
