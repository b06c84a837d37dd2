import inspect
import traceback

from hypothesis import strategies as st

from pbt.core import Violation, raises, require

ID = "C18"
RULE = (
    "a history of up to 14 load / reload / unload / call operations on a Dynamic made lazily or not, "
    "optional or not, with or without load_on_call, over sources that return, raise at depth 0-4 (through finally, re-raising, chaining, with, loops, lambdas, generator expressions), or "
    "do not compile; non-trivial if the load state changed at least twice and a call raised"
)
QUICK, THOROUGH = 800, 15000


CALLS = {
    "plain": ["return {f}({x})"],
    "finally": ["try:", "    return {f}({x})", "finally:", "    after = 1", "    after += 1"],
    "reraise": ["try:", "    return {f}({x})", "except Exception:", "    after = 1", "    raise"],
    "named": ["try:", "    return {f}({x})", "except Exception as ex:", "    after = 1", "    raise ex"],
    "other": ["try:", "    return {f}({x})", "except KeyError as ex:", "    raise ValueError({x}) from ex"],
    "with": ["import contextlib", "with contextlib.nullcontext(), \\", "        contextlib.suppress(OSError):", "    got = {f}({x})", "return got"],
    "loop": ["for i in range(3):", "    if i == 1:", "        got = {f}(", "            {x}", "        )", "return got"],
    "lambda": ["return (lambda: {f}({x}))()"],
    "generator": ["return list(", "    {f}({x}) for _ in range(2)", ")[0]"],
    "sorted": ["return sorted([{x}, {x}], key={f})", "# not reached"],
    "deep": ["def again(n):", "    if n:", "        return again(n - 1)", "    return {f}({x})", "return again(40)"],
}


def raising_source(depth, error, calls):
    lines = ["def made(x):", "    if x == 0:", "        return 'fine'"]
    pad = "    "
    for level in range(depth):
        lines.append(f"{pad}def nested{level}(y):")
        pad += "    "
        if level % 2:
            lines.append(f"{pad}z = y")
    lines.append(f"{pad}if x < 0:")
    lines.append(f"{pad}    return ('negative', x)")
    lines.append(f"{pad}raise {error}")
    for level in reversed(range(depth)):
        pad = pad[:-4]
        lines += [pad + line.format(f=f"nested{level}", x="x") for line in CALLS[calls[level]]]
    return "\n".join(lines) + "\n"


ERRORS = ["ValueError(x)", "KeyError('k')", "ZeroDivisionError()", "StopIteration(x)",
          "RuntimeError('a', x)", "MISSING_NAME", "AssertionError()", "KeyboardInterrupt(x)", "SystemExit(x)",
          "ValueError('long ' * 300, x)", "RuntimeError('two\\nlines\\n\\n' + str(x))", "OSError('\\u00e9\\u2028\\ud800 %s {} ')",
          "OSError(2, 'no such thing', 'name')", "ExceptionGroup('several', [ValueError(x)])"]
BAD_SOURCES = ["def made(x:\n    return x", "def made(x)\n    return x", "x = 1", "", "return 3",
               "def made(x):\nreturn x", "\x00", "made(", "def made(x):\n    return x y",
               "    def made(x):\n        return x\n", "\n  def made(x):\n    return x\n", "\ndef made(x):\n    return x)\n\n"]
# what may come before and after a definition; it does move the lines
AROUND = ["", "", "\n", "\n\n\n", "# about\n\n", "\r\n", "   \n\t\n", "'about'\n", "\\\n\n", "\f\n"]


@st.composite
def cases(draw):
    def a_source(good):
        if good:
            depth = draw(st.integers(0, 4))
            definition = raising_source(depth, draw(st.sampled_from(ERRORS)),
                                        [draw(st.sampled_from(sorted(CALLS))) for _ in range(depth)])
            return depth, draw(st.sampled_from(AROUND)) + definition + draw(st.sampled_from(AROUND[:5]))
        return 0, draw(st.sampled_from(BAD_SOURCES))

    good = draw(st.integers(0, 4)) > 0
    depth, source = a_source(good)
    other = draw(st.sampled_from([None, None, False, True, not good]))
    often = draw(st.integers(0, 19)) == 17
    ops = draw(
        st.lists(
            st.one_of(
                st.tuples(st.sampled_from(["load", "reload", "unload", "unload", "steps"] + ["swap"] * 2 * (other is not None))),
                st.tuples(st.just("call"), st.sampled_from([0, -1, 1, 5]),
                          st.sampled_from([None, None, True, False]), st.booleans()),
                st.tuples(st.just("call"), st.just(2), st.sampled_from([None, True]), st.booleans()),
                # with arguments it does not take
                st.tuples(st.just("call"), st.just("wrong"), st.sampled_from([None, True, False]), st.sampled_from([(), (1, 2), (5, 0, 1)])),
            ),
            min_size=1, max_size=14,
        )
    )
    if often:
        ops = [op for op in ops for _ in range(draw(st.integers(8, 40)) if op[0] == "call" else 1)]
    return {
        "good": good, "source": source, "depth": depth, "ops": ops,
        # another source, which "swap" exchanges with the one the Dynamic has
        "other": None if other is None else [other, a_source(other)[1]],
        "optional": draw(st.booleans()), "lazy": draw(st.booleans()) or not good,
        "load_on_call": draw(st.sampled_from([True, True, False])),
        "globals": draw(st.sampled_from([None, "some"])),
    }


def strategy(tier):
    return cases()


def reference(source):
    """the same function defined by Python itself"""
    namespace = {"__name__": "reference"}
    exec(compile(source, "", "exec"), namespace)
    return namespace["made"]


def run_case(case):
    from dustgoggles import dynamic as module

    class Source:
        def __init__(self, good, text):
            self.good, self.text = good, text
            self.function = reference(text) if good else None
            self.not_python = None
            try:
                compile(text, "", "exec")
            except Exception as ex:
                self.not_python = ex

    source, other = Source(case["good"], case["source"]), None
    if case["other"] is not None:
        other = Source(*case["other"])
    globals_ = {"some": 1} if case["globals"] else None
    dynamic = module.Dynamic(
        source.text, globals_, optional=case["optional"], lazy=case["lazy"],
        load_on_call=case["load_on_call"],
    )
    normal = source.function  # what is loaded, if anything is
    loaded, call_fail, compile_fail = not case["lazy"], False, False
    wanted_errors = []  # ("compile", exception or None) or ("call", exception, frames)
    changes = raised_calls = 0

    def try_load(reload):
        nonlocal loaded, compile_fail, changes, normal
        if source.good:
            dynamic.load(reload) if reload else dynamic.load()
            changes += not loaded
            loaded, normal = True, source.function
        elif loaded:
            # what was loaded stays, whether or not this raises
            func = dynamic.func
            try:
                dynamic.load(reload)
            except Exception:
                pass
            failed_compile()
            if dynamic.func is not func:
                require(dynamic.func is not None and dynamic.func(0) == "fine", "source that does not compile was installed")
        else:
            raises(Exception, dynamic.load, reload)
            failed_compile()

    def failed_compile():
        nonlocal compile_fail
        compile_fail = True
        wanted_errors.append(("compile", source.not_python))

    def check_state():
        require((dynamic.func is not None) == loaded, "loaded is", dynamic.func, "not", loaded)
        require((dynamic.__name__ == "made") == loaded, "loaded:", loaded, "but named", dynamic.__name__)
        require(("(x)" in str(dynamic)) == loaded and str(dynamic) == repr(dynamic), "loaded:", loaded, "but shown as", dynamic)
        require(bool(dynamic.call_fail) == call_fail, "call_fail is", dynamic.call_fail)
        require(bool(dynamic.compile_fail) == compile_fail, "compile_fail", dynamic.compile_fail)
        require(
            [e["category"] for e in dynamic.errors] == [w[0] for w in wanted_errors],
            "errors", dynamic.errors, "instead of", wanted_errors,
        )
        for record, wanted in zip(dynamic.errors, wanted_errors):
            if wanted[0] != "call":
                not_python = wanted[1]
                if not_python is not None:
                    text = str(record["exception"])
                    require(type(not_python).__name__ in text and str(not_python) in text, "compile error recorded as", text)
                continue
            _, exc, frames = wanted
            text = str(record["exception"])
            require(
                type(exc).__name__ in text and str(exc) in text, "exception recorded as", text,
            )
            columns = [record["name"], record["lineno"], record["filename"]]
            require(
                len({len(c) for c in columns}) == 1 and len(columns[0]) >= len(frames),
                "traceback columns", columns,
            )
            tail = [list(c)[len(c) - len(frames):] for c in columns]
            require(
                all(n.split(".")[-1] == f.name for n, f in zip(tail[0], frames)),
                "functions", record["name"], "instead of", [f.name for f in frames],
            )
            require(
                tail[1] == [f.lineno for f in frames], "lines", record["lineno"],
                "instead of", [f.lineno for f in frames],
            )
            require(
                tail[2] == [f.filename for f in frames], "files", record["filename"],
                "instead of", [f.filename for f in frames],
            )

    check_state()
    for op in case["ops"]:
        if op[0] == "load":
            if loaded:
                raises(module.AlreadyLoadedError, dynamic.load)
            else:
                try_load(False)
        elif op[0] == "reload":
            try_load(True)
        elif op[0] == "swap":
            source, other = other, source
            dynamic.source = source.text
        elif op[0] == "steps":
            # the two halves of loading
            if loaded:
                code, func = dynamic.code, dynamic.func
                raises(module.AlreadyLoadedError, dynamic.define)
                raises(module.AlreadyLoadedError, dynamic.compile_source, False)
                require(dynamic.code is code and dynamic.func is func, "refusing to load again changed what is loaded")
            elif source.good:
                dynamic.compile_source()
                raises(module.AlreadyLoadedError, dynamic.compile_source, recompile=False)
                dynamic.define()
                loaded, changes, normal = True, changes + 1, source.function
        elif op[0] == "unload":
            dynamic.unload()
            changes += loaded
            loaded = call_fail = compile_fail = False
            wanted_errors.clear()
        else:
            _, x, override, named = op
            kwargs = {} if override is None else {"_optional": override}
            if x == "wrong":
                args = named
            else:
                args = () if named else (x,)
                if named:
                    kwargs["x"] = x
            optional = case["optional"] if override is None else override
            if not loaded and not case["load_on_call"]:
                raises(module.UnreadyError, dynamic, *args, **kwargs)
            elif not loaded and not source.good:
                raises(Exception, dynamic, *args, **kwargs)
                failed_compile()
            else:
                if not loaded:
                    loaded, changes, normal = True, changes + 1, source.function
                try:
                    want, exc = normal(*(args if x == "wrong" else (x,))), None
                except (Exception, KeyboardInterrupt, SystemExit) as ex:
                    exc, frames = ex, traceback.extract_tb(ex.__traceback__)[1:]
                if exc is None:
                    require(dynamic(*args, **kwargs) == want, "call gave the wrong value")
                elif optional and isinstance(exc, Exception):
                    raised_calls += 1
                    require(dynamic(*args, **kwargs) is None, "a failed optional call gave a value")
                    call_fail = True
                    wanted_errors.append(("call", exc, frames))
                else:
                    raised_calls += 1
                    got = raises(type(exc), dynamic, *args, **kwargs)
                    require(str(got) == str(exc), "raised", got, "instead of", exc)
        check_state()
    return changes >= 2 and raised_calls >= 1, [
        f"good:{case['good']}", f"optional:{case['optional']}", f"depth:{case['depth']}",
        f"errors:{min(len(wanted_errors), 3)}", f"swap:{case['other'] is not None}",
    ]
