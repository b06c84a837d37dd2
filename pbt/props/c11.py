import itertools

from hypothesis import strategies as st

from pbt.core import require
from pbt.gen import same
from pbt.props._comp import (
    StepError, VALUES, callable_ok, drop_bad_inserts, insert_maps, make_step, model_fold, named_steps,
)

ID = "C11"
RULE = (
    "a composition of 1-15 steps (functions, methods, partials, curries; mapping or sequence) with "
    "inserts, executed several times by execute, call and lazy iteration; non-trivial if at least 2 "
    "steps have inserts or partial arguments and one of them displaces the signal from slot 0"
)
QUICK, THOROUGH = 1000, 30000


@st.composite
def cases(draw):
    step_items, as_sequence = draw(named_steps())
    inserts = {}
    for name, _ in step_items:
        if draw(st.booleans()):
            inserts[name] = dict(draw(insert_maps()))
    if draw(st.integers(0, 4)) == 0:
        inserts["nobody"] = {0: "ghost", "p": "ghost"}
    inserts = drop_bad_inserts(step_items, inserts)
    runs = draw(
        st.lists(
            st.tuples(st.sampled_from(["execute", "call", "iter", "none", "kw"]), VALUES),
            min_size=1, max_size=4,
        )
    )
    insert_sequence = as_sequence and all(isinstance(k, int) for k in inserts)
    return {
        "steps": step_items, "sequence": as_sequence,
        "inserts": tuple((k, tuple(v.items())) for k, v in inserts.items()),
        # keywords given to an execution go to the hook that subclasses may define
        "special": draw(st.one_of(st.none(), st.dictionaries(st.sampled_from(["mode", "limit"]), VALUES, max_size=2))),
        "insert_sequence": insert_sequence and draw(st.booleans()), "runs": runs,
    }


def run_case(case):
    from dustgoggles.composition import Composition

    log = []
    inserts = {k: dict(v) for k, v in case["inserts"]}
    functions = [(name, make_step(spec, log)) for name, spec in case["steps"]]
    steps = tuple(f for _, f in functions) if case["sequence"] else dict(functions)
    if case["sequence"] and len(functions) % 2:
        steps = list(steps)
    given = {k: dict(v) for k, v in inserts.items()}
    if case["insert_sequence"]:
        given = [dict(inserts.get(i, {})) for i in range(len(functions))]
    special = case["special"]

    class Bound(Composition):
        def _bind_special_runtime_kwargs(self, special_kwargs):
            log.append(("bind", sorted(special_kwargs.items())))

    composition = (Composition if special is None else Bound)(steps, inserts=given if inserts else None)
    snapshot = lambda: (
        list(composition.steps.items()),
        [(k, list(v.items())) for k, v in composition.inserts.items()],
        list(composition.sends.items()),
    )
    before = snapshot()
    for how, signal in case["runs"]:
        if how == "none":
            signal = None
        wanted_log = [] if special is None else [("bind", sorted(special.items()))]
        extra = special or {}
        want = model_fold(case["steps"], inserts, signal, wanted_log)
        log.clear()
        if how == "execute":
            got = composition.execute(signal, **extra)
        elif how == "call":
            got = composition(signal, **extra)
        elif how == "kw":
            got = composition.execute(signal=signal, **extra)
        elif how == "none":
            got = composition.execute(**extra)
        else:
            iterator = composition.itercall(signal, **extra)
            require(log == [], "iteration was not lazy")
            for i, expected in enumerate(want):
                got = next(iterator)
                require(same(got, expected), "intermediate result", i, got, "not", expected)
                require(len(log) == i + 1 + (special is not None), "iteration ran ahead", log)
            require(next(iterator, "end") == "end", "iteration yields too much")
        require(same(got, want[-1]), how, "gave", got, "instead of", want[-1])
        require(log == wanted_log, "calls were", log, "instead of", wanted_log)
        require(before == snapshot(), "executing changed steps, inserts or sends")
    busy = sum(
        bool(spec[2] or spec[3] or inserts.get(name)) for name, spec in case["steps"]
    )
    displaced = any(spec[2] or 0 in inserts.get(name, {}) for name, spec in case["steps"])
    return busy >= 2 and displaced, [
        f"steps:{min(len(functions), 8)}", "sequence" if case["sequence"] else "mapping",
    ] + sorted({f"kind:{spec[0]}" for _, spec in case["steps"]})


def strategy(tier):
    return cases()
