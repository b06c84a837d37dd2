import pathlib

from hypothesis import strategies as st

from pbt.core import Violation, require
from pbt.gen import same, small_ints
from pbt.props._comp import make_step, model_call, STEP_NAMES, KINDS

ID = "C14"
RULE = (
    "a composition (optional or not, tracked from the start, later or not) executed up to 6 times with steps added or "
    "replaced in between and a fault injected into a chosen step or send of chosen executions; "
    "non-trivial if at least one execution failed and one succeeded"
)
QUICK, THOROUGH = 1000, 20000


class OddError(Exception):
    def __init__(self, a, b):
        super().__init__(a, b)


class SilentError(Exception):
    def __str__(self):
        return ""


EXCEPTIONS = {
    "value": lambda: ValueError("bad value"), "key": lambda: KeyError("k"),
    "zero": lambda: ZeroDivisionError(), "odd": lambda: OddError(1, 2),
    "silent": lambda: SilentError("x"), "type": lambda: TypeError("t"),
    "attribute": lambda: AttributeError("func"), "index": lambda: IndexError(3),
    "runtime": lambda: RuntimeError("r"), "assert": lambda: AssertionError(),
    "keyboard": lambda: KeyboardInterrupt(), "exit": lambda: SystemExit(3),
    "group": lambda: ExceptionGroup("g", [ValueError(1)]), "os": lambda: FileNotFoundError(2, "x"),
}


@st.composite
def cases(draw):
    as_sequence = draw(st.booleans())
    count = draw(st.integers(21, 40)) if draw(st.integers(0, 39)) == 17 else draw(st.integers(1, 5))
    step_items, seen = [], set()
    for i in range(count):
        name = i if as_sequence else draw(st.one_of(STEP_NAMES, st.just(f"s{i}")))
        if name not in seen:
            seen.add(name)
            kind = draw(st.sampled_from(["plain", "plain", "partial", "method", "strict", "echo", "falsy"]))
            step_items.append((name, (kind, f"f{i}", (), ())))
    step_names = [n for n, _ in step_items]
    n_sends = draw(st.integers(0, 3))
    sends = [(draw(st.sampled_from(step_names)), i) for i in range(n_sends)]
    ops = []
    for i in range(draw(st.integers(1, 6))):
        kind = draw(st.sampled_from(["run", "run", "run", "replace", "add", "default", "send", "track"]))
        if kind == "track":
            ops.append(("track",))
        elif kind == "run":
            fault = None
            if draw(st.integers(0, 2)):
                where = draw(st.sampled_from(["step", "step", "send"]))
                fault = (where, draw(st.integers(0, 5 if count < 6 else 39)), draw(st.sampled_from(list(EXCEPTIONS))))
            ops.append(("run", draw(small_ints), fault))
        elif kind == "replace":
            ops.append(("step", draw(st.sampled_from(step_names)), f"r{i}"))
        elif kind == "add":
            ops.append(("step", draw(st.one_of(STEP_NAMES, st.just(f"a{i}"))), f"a{i}"))
        elif kind == "default":
            ops.append(("step", None, f"d{i}"))
        else:
            one = ("send", draw(st.sampled_from(step_names)), 10 + i)
            ops += [one] * (draw(st.integers(20, 30)) if draw(st.integers(0, 19)) == 17 else 1)
    if not any(op[0] == "run" for op in ops):
        ops.append(("run", 0, None))
    return {
        "steps": step_items, "sequence": as_sequence, "sends": sends, "ops": ops,
        "optional": draw(st.sampled_from([None, False, True, True])), "tracker": draw(st.sampled_from([None, "real", "real"])),
        "name": draw(st.sampled_from([None, "pipe", ""])),
    }


def target_name(func):
    # what a tracker calls a function: its name, or else its string form
    return getattr(func, "__name__", None) or str(func)


def run_case(case):
    from dustgoggles import tracker as tracker_module
    from dustgoggles.composition import Composition
    from dustgoggles.tracker import Tracker

    log, current, exception = [], {"fault": None}, {}

    def fault(where, what):
        active = current["fault"]
        if active is not None and active[0] == where and active[1] == what:
            raise current["exception"]

    def step_fault(label):
        fault("step", label)

    installed, model_steps = {}, {}

    def function(spec):
        return make_step(spec, log, step_fault)

    for name, spec in case["steps"]:
        installed[name], model_steps[name] = function(spec), spec

    def send_pipe(number):
        def pipe(value):
            log.append(("send", number, value))
            fault("send", number)

        return pipe

    initial = {}
    for name, number in case["sends"]:
        initial.setdefault(name, []).append((send_pipe(number), None, None))
    tracker = None
    scratch = pathlib.Path.cwd() / "trackers"
    if case["tracker"]:
        tracker = Tracker("t", outdir=scratch)
    composition = Composition(
        list(installed.values()) if case["sequence"] else dict(installed),
        sends=initial or None, tracker=tracker, name=case["name"],
        **({} if case["optional"] is None else {"optional": case["optional"]}),
    )
    title = composition.name if case["name"] is None else case["name"]
    require(composition.name == title, "the composition's name is", composition.name)
    require(tracker is None or tracker.name == title, "the tracker's name is", tracker and tracker.name)
    sends = list(case["sends"])
    failed = succeeded = 0
    for op in case["ops"]:
        if op[0] == "track":
            usual = tracker_module.__file__
            try:  # trackers made without arguments write next to their package
                tracker_module.__file__ = str(scratch / "package" / "tracker.py")
                scratch.mkdir(exist_ok=True)
                composition.track()
            finally:
                tracker_module.__file__ = usual
            require(isinstance(composition.tracker, Tracker), "tracked by", composition.tracker)
            require(tracker is None or composition.tracker is tracker, "track() changed the tracker")
            require(tracker is not None or composition.tracker.history == [], "a new tracker is not empty")
            tracker = composition.tracker
            continue
        if op[0] == "step":
            _, name, label = op
            spec = ("plain", label, (), ())
            func = function(spec)
            if name is None:
                name = len(model_steps) + 1
                composition.add_step(func)
            else:
                composition.add_step(func, name)
            installed[name], model_steps[name] = func, spec
            continue
        if op[0] == "send":
            composition.add_send(op[1], pipe=send_pipe(op[2]))
            sends.append((op[1], op[2]))
            continue
        _, signal, wanted_fault = op
        current["fault"] = None
        if wanted_fault is not None:
            where, position, kind = wanted_fault
            pool = [s[1] for s in model_steps.values()] if where == "step" else [n for _, n in sends]
            if pool:
                current["fault"] = (where, pool[position % len(pool)])
                current["exception"] = EXCEPTIONS[kind]()
        # the model: which events, which step fails
        want_log, completed, failing, state = [], [], None, signal
        maybe = None
        try:
            for name, spec in model_steps.items():
                running = name
                where_now = "step"
                state = model_call(spec, state, {}, want_log, step_fault)
                where_now = "send"
                for source, number in sends:
                    if source == name:
                        want_log.append(("send", number, state))
                        fault("send", number)
                completed.append(name)
        except BaseException as ex:
            require(ex is current["exception"], "model failure")
            failing = running
            maybe = running if where_now == "send" else None
        log.clear()
        history_before = len(tracker.history) if tracker else 0
        try:
            got, raised = composition.execute(signal), None
        except Exception as ex:
            got, raised = None, ex
        except (KeyboardInterrupt, SystemExit) as ex:
            if ex is not current.get("exception"):
                raise
            got, raised = None, ex
        require(log == want_log, "events were", log, "instead of", want_log)
        if failing is None:
            succeeded += 1
            require(raised is None, "raised", raised)
            require(same(got, state), "gave", got, "instead of", state)
        else:
            failed += 1
            if case["optional"] and isinstance(current["exception"], Exception):
                require(raised is None, "an optional composition raised", raised)
                require(got is None, "an optional composition returned", got)
            else:
                require(
                    raised is current["exception"], "raised", raised, "instead of",
                    current["exception"],
                )
        if tracker is None:
            continue
        new = tracker.history[history_before:]
        wanted = [(name, target_name(installed[name])) for name in completed]
        options = [wanted]
        if maybe is not None:
            options.append(wanted + [(maybe, target_name(installed[maybe]))])
        ordinary = failing is not None and isinstance(current["exception"], Exception)
        if ordinary or (failing is not None and new and "exception" in new[-1]):
            require(len(new) > 0, "the failure was not recorded")
            record = new.pop()
            require(
                record["target"] == target_name(installed[failing]), "the failure names",
                record["target"], "instead of", target_name(installed[failing]),
            )
            exc = current["exception"]
            text = str(record.get("exception"))
            require(
                type(exc).__name__ in text and str(exc) in text, "recorded exception", text,
            )
        recorded = [(r.get("step"), r["target"]) for r in new]
        require(
            recorded in options and all("exception" not in r for r in new),
            "recorded", recorded, "instead of", wanted,
        )
        require(
            [r["trackcount"] for r in tracker.history] == list(range(1, len(tracker.history) + 1)),
            "records are misnumbered",
        )
    return failed > 0 and succeeded > 0, [
        f"optional:{case['optional']}", f"tracker:{case['tracker']}", f"failed:{min(failed, 3)}",
    ]


def _stop_iteration():
    from dustgoggles.composition import Composition

    def step(_):
        raise StopIteration

    try:
        Composition([step]).execute(1)
    except RuntimeError:
        return True
    except StopIteration:
        return False
    return True


FINDINGS = {"C14-stop-iteration": _stop_iteration}


def strategy(tier):
    return cases()
