import copy
import functools
import importlib.util
import inspect
import os
import pathlib
import sys
import types

from hypothesis import strategies as st

from pbt.core import raises, require
from pbt.gen import same
from pbt.props import _source

ID = "C17"
RULE = (
    "one generated function (parameters of every kind without defaults, annotations, branches, loops, "
    "try, nested functions, lambdas, comprehensions, generator bodies, reads of supplied globals) "
    "called with several argument lists through a Dynamic (eager, lazy, reloaded, from a function in "
    "a file, reloaded) and by define(compile_source()); non-trivial if some call returns a value"
)
QUICK, THOROUGH = 500, 8000


@st.composite
def cases(draw):
    mode = draw(st.sampled_from(["source", "source", "lazy", "reload", "direct", "function"]))
    text, kinds = draw(_source.sources(wrapping=mode != "function"))
    edit = draw(_source.sources()) if mode == "reload" and draw(st.booleans()) else None
    if mode == "reload" and draw(st.integers(0, 2)) == 0:
        # an edit that changes nothing but a constant
        one, other = draw(st.permutations(["1000", "2000", "'one'", "'two'", "1.5", "True"]))[:2]
        text, edit = (text.replace("    trail = []", f"    trail = [{it}]", 1) for it in (one, other))
        edit = edit, kinds
    return {
        "mode": mode, "source": text,
        "globals": draw(st.sampled_from(["given", "given", "late"])),
        "optional": draw(st.sampled_from([None, None, "named", "placed"])) if mode == "function" else None,
        "edit": edit,
        "calls": draw(st.lists(_source.argument_lists(kinds), min_size=1, max_size=4)),
    }


def strategy(tier):
    return cases()


def plain(value, path=()):
    """values that can be compared between two definitions of one function"""
    if id(value) in path or len(path) > 12:
        return "deeper"
    inner = functools.partial(plain, path=path + (id(value),))
    if isinstance(value, types.FunctionType):
        return ("function", value.__name__)
    if isinstance(value, types.GeneratorType):
        out = []
        try:
            for item in value:
                out.append(inner(item))
        except Exception as ex:
            out.append((type(ex), str(ex)))
        return ("generator", out)
    if isinstance(value, types.CoroutineType):
        try:
            value.send(None)
        except StopIteration as ex:
            return ("coroutine", inner(ex.value))
        except Exception as ex:
            return ("coroutine raised", type(ex), str(ex))
    if isinstance(value, (list, tuple)):
        return type(value)(map(inner, value))
    if isinstance(value, dict):
        return {k: inner(v) for k, v in value.items()}
    return value


def outcome(func, args, kwargs):
    args, kwargs = copy.deepcopy(args), copy.deepcopy(kwargs)
    try:
        return ("returned", plain(func(*args, **kwargs)))
    except Exception as ex:
        return ("raised", type(ex), str(ex))


def signature_of(func):
    signature = inspect.signature(func)
    return [(p.name, p.kind) for p in signature.parameters.values()]


_modules = [0]
CALLER = """

class Caller:
    def __call__(self, x, *rest, key=None):
        return x, rest, key


caller = Caller()
"""


def load_module(text):
    _modules[0] += 1
    name = f"generated_{os.getpid()}_{_modules[0]}"
    path = pathlib.Path.cwd() / f"{name}.py"
    header = "G_INT, G_STR, G_LIST, shadowed = 7, 'glob', [1, 2, 3], 'global one'\n"
    path.write_text(header + "def helper(x):\n    return ('helped', x)\n\n\n" + text + CALLER, encoding="utf-8")
    spec = importlib.util.spec_from_file_location(name, path)
    module = importlib.util.module_from_spec(spec)
    sys.modules[name] = module
    spec.loader.exec_module(module)
    return module, path


def run_case(case):
    from dustgoggles.dynamic import Dynamic, compile_source, define, digsource

    text, mode = case["source"], case["mode"]
    namespace = _source.make_globals()
    exec(compile(text, "<normal>", "exec"), namespace)
    normal = namespace["made"]
    # globals may also be filled in after the function has been made
    supplied = _source.make_globals() if case["globals"] == "given" else {}
    cleanup = None

    def agrees(func, what):
        returned = 0
        for args, kwargs in case["calls"]:
            want = outcome(normal, args, kwargs)
            if case["optional"] and want[0] == "raised":
                want = ("returned", None)
            got = outcome(func, args, kwargs)
            require(same(want, got), what, "called with", (args, kwargs), "gave", got,
                    "instead of", want)
            returned += want[0] == "returned"
        return returned

    def described(dynamic, what):
        require(dynamic.__name__ == "made", what, "is named", dynamic.__name__)
        require(
            signature_of(dynamic) == signature_of(normal), what, "has signature",
            inspect.signature(dynamic),
        )

    if mode == "direct":
        func = define(compile_source(text), supplied)
        supplied.update(_source.make_globals())
        require(func.__name__ == "made", "is named", func.__name__)
        returned = agrees(func, "define(compile_source())")
        require(signature_of(func) == signature_of(normal), "signature", inspect.signature(func))
    elif mode == "function":
        reference, reference_path = load_module(text)
        module, path = load_module(text)
        try:
            reference.helper = module.helper
            original, normal = module.made, reference.made
            namespace, supplied = vars(reference), vars(module)
            init = {None: ((), {}), "named": ((), {"optional": True}), "placed": ((None, None, True), {})}[case["optional"]]
            dynamic = Dynamic.from_function(original, *init[0], **init[1])
            described(dynamic, "from_function")
            require(dynamic.func is original and dynamic.code is original.__code__, "made of another function")
            for what in (original, functools.partial(original, 1), dynamic, functools.partial(original), types.MethodType(original, 1)):
                require(digsource(what) == inspect.getsource(original), "the source of", what, "is", digsource(what))
            # a function remains one with whatever attributes
            original.func = module.helper
            require(digsource(original) == inspect.getsource(original), "the source of a function with attributes")
            del original.func
            raises(TypeError, digsource, 3)
            returned = agrees(dynamic, "from_function")
            require(dynamic.source == inspect.getsource(original), "source", dynamic.source)
            require(dynamic.globals_ is original.__globals__, "globals are not the function's")
            dynamic.unload()
            dynamic.load()
            described(dynamic, "reloaded from_function")
            agrees(dynamic, "reloaded from_function")
            # called without loading first
            dynamic.unload()
            agrees(dynamic, "from_function, loaded by a call")
            caller = Dynamic.from_function(module.caller)
            source = inspect.getsource(module.Caller.__call__)
            require(same(caller(1, key=dynamic), (1, (), dynamic)), "a callable object gave", caller(1, key=dynamic))
            require(caller.source == source and caller.code is module.Caller.__call__.__code__, "source", caller.source)
            require(digsource(caller) == digsource(caller.func) == source, "source of a callable object", digsource(caller))
        finally:
            for made, where in ((module, path), (reference, reference_path)):
                where.unlink()
                sys.modules.pop(made.__name__, None)
    else:
        dynamic = Dynamic(text, supplied, lazy=True) if mode == "lazy" else Dynamic(text, supplied)
        if mode == "lazy":
            require(dynamic.func is None and dynamic.code is None, "a lazy Dynamic is loaded at once")
        else:
            described(dynamic, "a new Dynamic")
        if mode == "reload":
            dynamic.unload()
            dynamic.load()
            dynamic.load(reload=True)
        supplied.update(_source.make_globals())
        returned = agrees(dynamic, f"Dynamic ({mode})")
        described(dynamic, f"Dynamic ({mode})")
        require(dynamic.source == text and dynamic.globals_ is supplied, "source or globals lost")
        require(dynamic.errors == [] and not dynamic.call_fail and not dynamic.compile_fail,
                "error state", dynamic.errors)
        if case["edit"]:
            # loading again defines what the source says now
            dynamic.source = text = case["edit"][0]
            exec(compile(text, "<normal>", "exec"), namespace)
            normal = namespace["made"]
            dynamic.load(reload=True)
            agrees(dynamic, "Dynamic (edited)")
            described(dynamic, "Dynamic (edited)")
    ignored = {"made", "Caller", "caller", "__builtins__", "__name__", "__doc__", "__file__", "__spec__", "__loader__", "__cached__", "__annotations__"}
    globals_now = [
        {k: plain(v) for k, v in g.items() if k not in ignored} for g in (supplied, namespace)
    ]
    require(same(*globals_now), "left the globals as", globals_now[0], "instead of", globals_now[1])
    return returned > 0, [f"mode:{mode}", f"returned:{min(returned, 3)}"]


def _defaults():
    from dustgoggles.dynamic import Dynamic

    try:
        return Dynamic("def f(x=1):\n    return x")() != 1
    except TypeError:
        return True


FINDINGS = {"C17-defaults": _defaults}
