import functools
import itertools

from hypothesis import strategies as st

from pbt.core import Violation, require
from pbt.gen import names, same, small_ints

ID = "C41"
RULE = (
    "one adaptor applied to a recording function with generated positional and keyword arguments, "
    "or an optionalized function that returns or raises; non-trivial if there is at least one "
    "argument, or an exception is raised"
)
QUICK, THOROUGH = 2500, 40000

VALUES = st.one_of(small_ints, names, st.sampled_from([None, (1, 2), 1.5, False]),
                   st.lists(small_ints, max_size=3))
ARGS = st.lists(VALUES, max_size=6)
KWARGS = st.dictionaries(st.sampled_from(["p", "q", "r", "func_", "count"]), VALUES, max_size=3)


class OddError(Exception):
    def __init__(self, a, b):
        super().__init__(a)
        self.b = b


EXCEPTIONS = {
    "value": lambda: ValueError("v"), "key": lambda: KeyError("k"), "odd": lambda: OddError(1, 2),
    "zero": lambda: ZeroDivisionError(), "stop": lambda: StopIteration(3),
    "type": lambda: TypeError("t"), "group": lambda: ExceptionGroup("g", [ValueError()]),
    "memory": lambda: MemoryError(), "recursion": lambda: RecursionError(),
    "keyboard": lambda: KeyboardInterrupt(), "exit": lambda: SystemExit(3),
    "generator": lambda: GeneratorExit(),
}


def strategy(tier):
    adaptors = st.sampled_from(
        ["constant", "zero", "splat", "triggerize", "pass", "catch", "argstop", "gmap", "filtern"]
    )
    return st.one_of(
        st.tuples(adaptors, ARGS, KWARGS, st.integers(0, 7), VALUES),
        st.tuples(adaptors, ARGS, KWARGS, st.integers(0, 7), VALUES),
        st.tuples(st.just("optional"), ARGS, KWARGS,
                  st.sampled_from(["none"] + list(EXCEPTIONS)), st.sampled_from(["zero", "record"])),
    )


class Recorder:
    def __init__(self, result, exception=None):
        self.calls = []
        self.result, self.exception = result, exception

    def function(self):
        def recorded_name(*args, **kwargs):
            self.calls.append((args, kwargs))
            if self.exception is not None:
                raise self.exception
            return self.result

        return recorded_name


def named(func, message):
    require(func.__name__ == "recorded_name", message, "lost the wrapped function's name")


def run_case(case):
    from dustgoggles import func as f

    op, args, kwargs, number, value = case
    token = object()
    rec = Recorder(token)
    func = rec.function()
    nontrivial = bool(args)
    if op == "constant":
        got = f.constant(value)
        for _ in range(2):
            require(got(*args, **kwargs) is value, "constant returned something else")
    elif op == "zero":
        require(f.zero(*args, **kwargs) is None, "zero returned something")
    elif op == "splat":
        adapted = f.splat(func)
        named(adapted, "splat")
        spread = [list, tuple, iter, str][number % 4]
        given = "".join(map(str, args)) if spread is str else spread(args)
        want = tuple(given) if spread is not iter else tuple(args)
        require(adapted(given) is token, "splat changed the result")
        require(rec.calls == [(want, {})], "splat called with", rec.calls)
    elif op == "triggerize":
        adapted = f.triggerize(func)
        named(adapted, "triggerize")
        require(adapted(value) is value, "trigger changed its input")
        require(rec.calls == [((), {})], "trigger called", rec.calls)
        require(adapted() is None and len(rec.calls) == 2, "trigger without input")
    elif op == "pass":
        require(f.pass_parameters(func, *args, **kwargs) is token, "changed the result")
        require(rec.calls == [(tuple(args), kwargs)], "called with", rec.calls)
    elif op == "catch":
        flag = [True, False, 1, 0, "", "x", [], [0]][number]
        default_given = number % 3 == 0
        extra = {"_default": value} if default_given else {}
        got = f.catch_interaction(flag, func, *args, **kwargs, **extra)
        if flag:
            require(rec.calls == [], "called although non-interactive")
            require(got is value if default_given else got == "", "default is", got)
        else:
            require(got is token, "changed the result")
            require(rec.calls == [(tuple(args), kwargs)], "called with", rec.calls)
    elif op == "argstop":
        count = number
        for unpack in (True, False, None):
            rec.calls.clear()
            options = {} if unpack is None else {"unpack": unpack}
            adapted = f.argstop(func, count, **options)
            named(adapted, "argstop")
            given = list(args)
            if len(given) == 1 and unpack is not False:
                given = [tuple(args) * 3]
            require(adapted(*given, **kwargs) is token, "changed the result")
            taken = given[0] if len(given) == 1 and unpack is not False else given
            require(
                rec.calls == [(tuple(taken)[:count], kwargs)],
                "argstop", count, unpack, given, "called with", rec.calls,
            )
        rec.calls.clear()
        f.argstop(func)(*(args + [1, 2]), **kwargs)
        require(rec.calls == [((), kwargs)], "argstop without a count called with", rec.calls)
    elif op == "gmap":
        columns = [args, list(reversed(args))] * 4
        columns = columns[: 1 + (number % 2 if len(args) % 2 else number)]
        pair = lambda *xs: ("f", *xs)
        want = [("f", *xs) for xs in zip(*columns)]
        got = f.gmap(pair, *[iter(c) for c in columns])
        require(type(got) is tuple and same(list(got), want), "gmap gave", got)
        for evaluator in (list, len, iter):
            seen = []

            def counting(fn, *its):
                seen.append(fn)
                return list(map(fn, *its))

            got = f.gmap(pair, *columns, mapper=counting, evaluator=evaluator)
            if evaluator is len:
                require(got == len(want), "gmap evaluated to", got)
            else:
                require(same(list(got), want), "gmap evaluated to", got)
            require(seen == [pair], "the mapper ran", len(seen), "times")
        # an evaluator that takes only some of the results, of any number of cases
        asked = []

        def asking(*xs):
            asked.append(xs)
            return ("f", *xs)

        some = lambda results: list(itertools.islice(results, number))
        endless = [itertools.cycle(c + [value]) for c in columns]
        wanted = [("f", *xs) for xs in itertools.islice(zip(*(itertools.cycle(c + [value]) for c in columns)), number)]
        require(same(f.gmap(asking, *endless, evaluator=some), wanted), "gmap of endless cases gave another result")
        require(same(asked, [w[1:] for w in wanted]), "gmap asked for", len(asked), "results of", number)
    elif op == "filtern":
        keep = [bool, lambda x: isinstance(x, int), lambda x: x is None, lambda x: False,
                lambda x: x == value, lambda x: isinstance(x, str), lambda x: [],
                lambda x: hasattr(x, "__len__") and x][number]
        stream = iter(args)
        wanted = [i for i, x in enumerate(args) if keep(x)]
        if not wanted:
            try:
                got = f.filtern(keep, stream)
            except StopIteration:
                pass
            else:
                raise Violation(f"filtern found {got!r}")
        else:
            require(f.filtern(keep, stream) is args[wanted[0]], "filtern found another item")
            # nothing after the first hit is consumed
            require(list(stream) == args[wanted[0] + 1:], "filtern consumed too much")
        nontrivial = bool(wanted) and wanted[0] > 0
    else:
        exception = None if number == "none" else EXCEPTIONS[number]()
        rec = Recorder(token, exception)
        received = []

        def callback(exc):
            received.append(exc)
            return "ignored"

        if value == "record":
            adapted = f.optionalize(rec.function(), exc_callback=callback)
        else:
            adapted = f.optionalize(rec.function())
        named(adapted, "optionalize")
        for turn in (1, 2):
            received.clear()
            try:
                got = adapted(*args, **kwargs)
            except BaseException as ex:
                require(ex is exception, "raised", ex, "instead of", exception)
                require(not isinstance(ex, Exception), "an ordinary exception escaped")
                require(received == [], "the callback ran for", ex)
            else:
                if exception is None:
                    require(got is token, "changed the result")
                    require(received == [], "the callback ran without an exception")
                else:
                    require(isinstance(exception, Exception), exception, "was swallowed")
                    require(got is None, "returned", got, "after an exception")
                    if value == "record":
                        require(
                            len(received) == 1 and received[0] is exception, "callback", received
                        )
            require(rec.calls == [(tuple(args), kwargs)] * turn, "called with", rec.calls)
        if isinstance(exception, Exception):
            # what the callback itself raises is not caught
            for kind in (ValueError, KeyError, KeyboardInterrupt):
                complaint = kind("from the callback")
                try:
                    got = f.optionalize(rec.function(), Recorder(None, complaint).function())(*args, **kwargs)
                except BaseException as ex:
                    require(ex is complaint, "raised", ex, "instead of", complaint)
                else:
                    raise Violation(f"an exception from the callback was swallowed, giving {got!r}")
        return exception is not None or bool(args), [f"optional:{number}"]
    return nontrivial, [op]
