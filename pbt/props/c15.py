import functools
import pathlib

from hypothesis import strategies as st

from pbt.core import require
from pbt.gen import names, same, small_ints

ID = "C15"
RULE = (
    "up to 40 track / set_metadata / pause / clear / dump operations on a tracker, tracked functions "
    "with and without names, called from several places; non-trivial if at least 3 records were made "
    "with metadata set before some of them"
)
QUICK, THOROUGH = 1000, 20000

KEYS = st.sampled_from(["a", "b", "step", "name", "note", "version", "x_y", "a", "b", "step", "exception", "metadata", "history",
                        "target", "caller", "lineno", "trackcount", "not an identifier", "é"])
VALUES = st.one_of(small_ints, names, st.sampled_from([None, True, 1.5]),
                   st.lists(small_ints, max_size=2), st.sampled_from([{}, {"a": 1}, {"a": {"b": [1]}}, (), (1, "x"), ""]))
METADATA = st.tuples(st.dictionaries(KEYS, VALUES, max_size=3), st.integers(0, 99), st.integers(21, 40)).map(
    lambda x: x[0] | ({f"k{i}": i for i in range(x[2])} if x[1] == 17 else {}))


class Callable_:
    def __call__(self):
        pass

    def method(self):
        pass

    def __str__(self):
        return "a nameless callable"


def first_function():
    pass


def second_function():
    pass


async def coroutine_function():
    pass


FUNCTIONS = {
    "first": (first_function, "first_function"), "second": (second_function, "second_function"),
    "builtin": (len, "len"), "lambda": (lambda: 0, "<lambda>"),
    "method": (Callable_().method, "method"), "async": (coroutine_function, "coroutine_function"),
    "class": (Callable_, "Callable_"), "type": (dict, "dict"),
    "nameless": (Callable_(), "a nameless callable"),
    "partial": (functools.partial(len, "x"), None), "text": ("just text", "just text"),
}


def op_strategy():
    return st.one_of(
        st.tuples(st.just("track"), st.sampled_from(list(FUNCTIONS)),
                  st.sampled_from(["caller_one", "caller_two", "deep", "object", "lambda"]), METADATA),
        st.tuples(st.just("track"), st.sampled_from(["first", "second"]),
                  st.just("caller_one"), METADATA),
        st.tuples(st.just("meta"), METADATA),
        st.tuples(st.just("pause"), st.booleans()),
        st.tuples(st.sampled_from(["clear", "dump", "track_many"])),
    )


def strategy(tier):
    return st.lists(op_strategy(), min_size=1, max_size=40)


def caller_one(tracker, func, metadata):
    tracker.track(func, **metadata)


def caller_two(tracker, func, metadata):
    return tracker.track(func, **metadata)


def caller_deep(tracker, func, metadata):
    def inner_caller():
        return tracker.track(func, **metadata)

    return inner_caller()


class Caller:
    def __call__(self, tracker, func, metadata):
        # on the
        # third line from the first
        return tracker.track(
            func,
            **metadata
        )


CALLERS = {
    "caller_one": (caller_one, "caller_one", [1]), "caller_two": (caller_two, "caller_two", [1]),
    "deep": (caller_deep, "inner_caller", [2]), "object": (Caller(), "__call__", range(3, 7)),
    "lambda": (lambda tracker, func, metadata: tracker.track(func, **metadata), "<lambda>", [0]),
}


def lines_of(caller):
    """where the call is, as numbered from the first line of the function"""
    func, _, lines = CALLERS[caller]
    first = getattr(func, "__code__", Caller.__call__.__code__).co_firstlineno
    return {first + line for line in lines}


def alike(value, wanted):
    return value in wanted if type(wanted) is set else same(value, wanted)


def run_case(ops):
    from dustgoggles.tracker import Tracker, TrivialTracker

    scratch = pathlib.Path.cwd() / "c15"
    tracker, trivial = Tracker("history", outdir=scratch), TrivialTracker()
    tracker.clear()
    model, metadata, made, meta_used = [], {}, 0, False

    def track(func, name, caller, own):
        nonlocal made, meta_used
        caller_func, caller_name, _ = CALLERS[caller]
        caller_func(tracker, func, own)
        require(caller_func(trivial, func, own) is None, "a trivial tracker returned something")
        record = {"target": name, "caller": caller_name, "trackcount": len(model) + 1, "lineno": lines_of(caller)}
        model.append(record | {k: v for k, v in metadata.items()} | own)
        made += 1
        meta_used |= bool(metadata)

    for op in ops:
        if op[0] == "track":
            func, name = FUNCTIONS[op[1]]
            track(func, name or str(func), op[2], dict(op[3]))
        elif op[0] == "track_many":
            for i in range(12):
                track(first_function, "first_function", "caller_one", {"a": i})
        elif op[0] == "meta":
            tracker.set_metadata(**op[1])
            trivial.set_metadata(**op[1])
            metadata = metadata | op[1]
        elif op[0] == "pause":
            tracker.paused = op[1]
            require(tracker.paused is op[1], "pause state")
        elif op[0] == "clear":
            tracker.clear()
            trivial.clear()
            model.clear()
        else:
            tracker.dump()
            trivial.dump()
        got = list(tracker.history)
        require(len(got) == len(model), len(got), "records instead of", len(model))
        require(
            all(set(a) == set(b) and all(alike(a[k], b[k]) for k in a) for a, b in zip(got, model)),
            "history is", got, "instead of", model,
        )
        require(not trivial.history and not trivial.log, "a trivial tracker recorded something")
    tracker.clear()
    return made >= 3 and meta_used, [f"records:{min(made, 20)}"]
