from hypothesis import strategies as st

from pbt.core import raises, require
from pbt.gen import same
from pbt.props._comp import (
    KW, STEP_NAMES, VALUES, drop_bad_inserts, make_step, model_fold, named_steps,
)

ID = "C13"
RULE = (
    "a composition built from None, a mapping or a sequence, edited by up to 12 add_step (new, "
    "existing or no name), add_send, add_insert and reindex operations with executions in between; "
    "non-trivial if a step was replaced or named by default and the order still differs from 0..n-1"
)
QUICK, THOROUGH = 1500, 25000


NAMED = ("plain", "partial", "method", "echo", "falsy", "object", "dynamic")


def name_of(func):
    # partials and callable objects have no name; they are called by their string form
    return getattr(func, "__name__", None) or str(func)


@st.composite
def cases(draw):
    form = draw(st.sampled_from(["none", "steps", "steps", "steps", "steps", "empty"]))
    if form in ("none", "empty"):
        step_items, as_sequence = (), form == "empty" and draw(st.booleans())
    else:
        step_items, as_sequence = draw(named_steps(1, 5))
        step_items = tuple((n, s if s[0] in NAMED else ("plain",) + s[1:2] + ((), ())) for n, s in step_items)
    ops = []
    for i in range(draw(st.integers(1, 12))):
        kind = draw(st.sampled_from(
            ["step", "step", "step", "default", "default", "send", "bad_send", "insert", "reindex",
             "run"]))
        if kind == "step":
            ops.append((kind, draw(st.one_of(
                STEP_NAMES, st.sampled_from([n for n, _ in step_items] or [0]),
                st.sampled_from([(1, 2), 2.5, False]))), f"n{i}"))
        elif kind == "default":
            ops.append((kind, f"n{i}"))
        elif kind in ("send", "bad_send"):
            ops.append((kind, draw(STEP_NAMES)))
        elif kind == "insert":
            ops.append((kind, draw(STEP_NAMES), draw(KW), draw(VALUES)))
        else:
            ops.append((kind,))
    first_sends = first_inserts = None
    if step_items and draw(st.integers(0, 2)) == 0:
        # given from the start, none of them for some steps
        first_sends = tuple((n, draw(st.integers(0, 2))) for n, _ in step_items if as_sequence or draw(st.booleans()))
    if step_items and draw(st.integers(0, 2)) == 0:
        first_inserts = tuple(
            (n, draw(st.dictionaries(KW, VALUES, max_size=1))) for n, _ in step_items if as_sequence or draw(st.booleans()))
    return {"first_sends": first_sends, "first_inserts": first_inserts, "form": form, "steps": step_items, "sequence": as_sequence, "ops": ops}


def run_case(case):
    from dustgoggles.composition import Composition

    log, installed = [], {}
    model, inserts, sends = {}, {}, {}
    if case["form"] == "none":
        composition = Composition()
        model[0] = installed[0] = None
    else:
        functions = [(name, make_step(spec, log)) for name, spec in case["steps"]]
        options = {}
        if case["first_sends"] is not None:
            sends = dict(case["first_sends"])
            options["sends"] = {n: [(repr, None, None)] * k for n, k in sends.items()}
        if case["first_inserts"] is not None:
            inserts = {n: dict(more) for n, more in case["first_inserts"]}
            options["inserts"] = {n: dict(more) for n, more in inserts.items()}
        if case["sequence"]:
            options = {k: tuple(v.values()) for k, v in options.items()}
        composition = Composition(
            tuple(f for _, f in functions) if case["sequence"] else dict(functions), **options,
        )
        model = dict(case["steps"])
        installed = dict(functions)
    replaced = False

    def add(label, name=None, default=False):
        nonlocal replaced
        spec = ("plain", label, (), ())
        func = make_step(spec, log)
        if default:
            name = len(model) + 1
            composition.add_step(func)
        else:
            composition.add_step(func, name)
        replaced |= name in model or default
        model[name] = spec
        installed[name] = func

    for op in case["ops"]:
        if op[0] == "step":
            add(op[2], op[1])
        elif op[0] == "default":
            add(op[1], default=True)
        elif op[0] == "send":
            composition.add_send(op[1], pipe=repr)
            sends[op[1]] = sends.get(op[1], 0) + 1
        elif op[0] == "bad_send":
            raises(ValueError, composition.add_send, op[1])
            raises(ValueError, composition.add_send, op[1], None, None, 0)
        elif op[0] == "insert":
            composition.add_insert(*op[1:])
            inserts.setdefault(op[1], {})[op[2]] = op[3]
        elif op[0] == "reindex":
            composition.reindex()
            installed = dict(enumerate(installed[name] for name in model))
            model = dict(enumerate(model.values()))
        elif model:
            want_log = []
            state = "sig"
            for name, spec in model.items():
                if spec is None:
                    if inserts.get(name):
                        state = None  # identity takes no keywords
                        break
                    continue
                state = model_fold([(name, spec)], inserts, state, want_log)[-1]
            if state is not None:
                log.clear()
                got = composition.execute("sig")
                require(same(got, state), "executed to", got, "instead of", state)
                require(log == want_log, "calls", log, "instead of", want_log)
        require(
            same(tuple(composition.index), tuple(model)), "index", composition.index,
            "instead of", tuple(model),
        )
        require(
            same(tuple(composition.insert_index), tuple(inserts)), "insert_index",
            composition.insert_index, "instead of", tuple(inserts),
        )
        require(
            same(tuple(composition.send_index), tuple(sends)), "send_index",
            composition.send_index, "instead of", tuple(sends),
        )
        require(
            [len(v) for v in composition.sends.values()] == list(sends.values()),
            "number of sends", composition.sends,
        )
        wanted_names = [
            "identity" if s is None else name_of(installed[n]) for n, s in model.items()
        ]
        text = str(composition)
        require(repr(composition) == text, "repr", repr(composition), "and str", text)
        shown = [*model, *inserts, *sends]
        require(
            all(repr(name) in text for name in shown), "not every one of", shown, "is in", text,
        )
        require(
            composition.function_names == wanted_names, "functions", composition.function_names,
            "instead of", wanted_names,
        )
    return replaced and list(model) != list(range(len(model))), [
        f"form:{case['form']}", f"steps:{min(len(model), 8)}",
    ]


def strategy(tier):
    return cases()
