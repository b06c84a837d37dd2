import io
from collections import OrderedDict, deque

from hypothesis import strategies as st

from pbt.core import raises, require
from pbt.gen import same
from pbt.props._comp import (
    KW, StepError, VALUES, callable_ok, drop_bad_inserts, insert_maps, make_step, model_call,
    named_steps, steps,
)

ID = "C12"
RULE = (
    "a composition with sends of every target kind, executed up to 5 times with sends, inserts, "
    "captures and steps added in between; non-trivial if at least 2 executions happened with at "
    "least 3 sends of which one delivers into a step of the composition"
)
QUICK, THOROUGH = 1200, 25000

# a star marks a pipe that several sends share
PIPES = st.sampled_from([None, "tag", "none", "label", "same", "tag*", "label*"])
TARGETS = ["pipe", "list", "list_at", "dict", "write", "insert", "insert"]


@st.composite
def sends(draw, step_names, number):
    """(number, from step, pipe, target kind, target, pointer)"""
    kind = draw(st.sampled_from(TARGETS))
    pipe = draw(PIPES)
    target = pointer = None
    if kind == "pipe":
        pipe = pipe or "tag"
    elif kind == "list_at":
        pointer = draw(st.integers(-3, 2))
    elif kind == "dict":
        pointer = draw(st.one_of(KW, st.integers(0, 3), st.sampled_from([(1, 2), None, 1.5])))
    elif kind == "insert":
        target = draw(st.sampled_from(step_names + ["later"]))
        pointer = draw(KW)
        if draw(st.integers(0, 3)) == 0:
            pointer = draw(st.integers(0, 2))
    # which of the shared list / dict / stream targets
    shared = draw(st.integers(0, 3 if kind == "list" else 2 if kind == "list_at" else 1))
    source = draw(st.sampled_from(step_names + ["later"]))
    return (number, source, pipe, kind, target if kind == "insert" else shared, pointer)


@st.composite
def cases(draw):
    step_items, as_sequence = draw(named_steps(1, 4))
    # every step must accept any delivered insert
    step_items = tuple(
        (name, spec if spec[0] in ("plain", "partial", "method", "echo", "falsy") else ("plain", spec[1], (), ()))
        for name, spec in step_items
    )
    step_names = [name for name, _ in step_items]
    string_or_int = [n for n in step_names if isinstance(n, (str, int))]
    ops, n = [], 0
    for _ in range(draw(st.integers(2, 12))):
        kind = draw(st.sampled_from(
            ["send", "send", "send", "run", "run", "insert", "capture", "captures", "step", "later"]))
        if kind == "send":
            one = draw(sends(string_or_int, n))
            # now and then very many
            ops += [("send", one)] * (draw(st.integers(21, 40)) if draw(st.integers(0, 29)) == 17 else 1)
            n += 1
        elif kind == "run":
            ops.append(("run", draw(VALUES), draw(st.sampled_from(["execute", "call", "iter"]))))
        elif kind == "insert":
            ops.append(("insert", draw(st.sampled_from(string_or_int + ["later"])),
                        draw(st.one_of(KW, st.integers(0, 3))), draw(VALUES)))
        elif kind == "capture":
            ops.append(("capture", draw(st.sampled_from(string_or_int)),
                        draw(st.sampled_from(["own", "given", "empty", "shared", "deque", "dict", "own type"]))))
        elif kind == "captures":
            ops.append(("captures",))
        elif kind == "step":
            ops.append(("step", draw(st.sampled_from(string_or_int)), (draw(st.sampled_from(["plain", "echo"])), f"r{len(ops)}", (), ())))
        else:
            ops.append(("step", "later", (draw(st.sampled_from(["plain", "echo"])), f"l{len(ops)}", (), ())))
    ops.append(("run", draw(VALUES), "execute"))
    initial = [draw(sends(string_or_int, 100 + i)) for i in range(draw(st.integers(0, 3)))]
    if draw(st.integers(0, 3)) == 0:
        # a send without pipe and target does nothing, and does not keep later ones from happening
        initial.insert(0, (99, initial[0][1] if initial else string_or_int[0], None, "null", None,
                           draw(st.sampled_from([None, 0, "p"]))))
    return {
        "steps": step_items, "sequence": as_sequence, "initial": initial, "ops": ops,
        "send_form": draw(st.sampled_from(["mapping", "sequence"])) if as_sequence else "mapping",
    }


class Log(list):
    """a list of a type of its own"""


class Stream:
    """a writable target that is neither list nor dict"""

    def __init__(self, log, number):
        self.log, self.number = log, number

    def write(self, thing):
        self.log.append(("write", self.number, thing))


def pipe_result(kind, value):
    if kind == "tag":
        return ("piped", value)
    if kind == "none":
        return None
    if kind == "label":
        return value[0] if isinstance(value, tuple) and value else type(value).__name__
    return value


class World:
    """targets of sends: the real ones and, in a second instance, the model's"""

    def __init__(self):
        self.log = []
        self.lists = [["x", "y", "z"], Log(["u", "v", "w"]), deque("rst"), []]
        self.dicts = [{}, OrderedDict({"p": "old"})]
        self.captured = []
        self.pipes = {}
        self.empty = []

    def contents(self):
        return (self.lists, self.dicts, self.captured)


def real_send(send, world):
    number, source, pipe, kind, target, pointer = send
    real_pipe = None
    if pipe is not None:
        def real_pipe(value):
            world.log.append(("pipe", pipe if "*" in pipe else number, value))
            return pipe_result(pipe.strip("*"), value)
        if "*" in pipe:
            real_pipe = world.pipes.setdefault(pipe, real_pipe)
    real_target = {
        "pipe": lambda: None, "null": lambda: None, "list": lambda: world.lists[target],
        "list_at": lambda: world.lists[target], "dict": lambda: world.dicts[target],
        "write": lambda: Stream(world.log, number), "insert": lambda: target,
    }[kind]()
    return source, real_pipe, real_target, pointer


def model_send(send, value, world, inserts):
    number, _, pipe, kind, target, pointer = send
    if pipe is not None:
        world.log.append(("pipe", pipe if "*" in pipe else number, value))
        value = pipe_result(pipe.strip("*"), value)
    if kind == "list":
        world.lists[target].append(value)
    elif kind == "list_at":
        world.lists[target][pointer] = value
    elif kind == "dict":
        world.dicts[target][pointer] = value
    elif kind == "write":
        world.log.append(("write", number, value))
    elif kind == "insert":
        inserts.setdefault(target, {})[pointer] = value
    elif kind == "capture":
        target[0] = value


def run_case(case):
    from dustgoggles.composition import Composition

    real, model = World(), World()
    functions = [(name, make_step(spec, real.log)) for name, spec in case["steps"]]
    initial = {}
    for send in case["initial"]:
        source, *rest = real_send(send, real)
        initial.setdefault(source, []).append(tuple(rest))
    if case["send_form"] == "sequence":
        given = [initial.get(i, []) for i in range(len(functions))]
        known = set(range(len(functions)))
        model_sends = [s for s in case["initial"] if s[1] in known]
    else:
        given = initial
        model_sends = list(case["initial"])
    composition = Composition(
        [f for _, f in functions] if case["sequence"] else dict(functions), sends=given or None,
    )
    model_steps = dict(case["steps"])
    inserts, runs, all_captures = {}, 0, None
    for op in case["ops"]:
        if op[0] == "send":
            source, pipe, target, pointer = real_send(op[1], real)
            composition.add_send(source, pipe=pipe, target=target, pointer=pointer)
            model_sends.append(op[1])
        elif op[0] == "insert":
            composition.add_insert(*op[1:])
            inserts.setdefault(op[1], {})[op[2]] = op[3]
        elif op[0] == "capture":
            def make(world):
                target = {
                    "own": lambda: None, "given": lambda: [None], "empty": list, "deque": lambda: deque([None, 1]),
                    "shared": lambda: world.lists[0], "dict": dict, "own type": lambda: Log([None, 2]),
                }[op[2]]()
                if op[2] == "empty":
                    world.empty.append(target)
                return target

            target, mirror = make(real), make(model)
            composition.add_capture(op[1], target)
            if target is None:
                mirror = [None]
            elif op[2] != "shared":
                real.captured.append(target)
                model.captured.append(mirror)
            model_sends.append((None, op[1], None, "capture", mirror, 0))
        elif op[0] == "captures":
            composition.add_captures()
            all_captures = {name: [None] for name in model_steps}
            for name, mirror in all_captures.items():
                model_sends.append((None, name, None, "capture", mirror, 0))
        elif op[0] == "step":
            composition.add_step(make_step(op[2], real.log), op[1])
            model_steps[op[1]] = op[2]
        else:
            _, signal, how = op
            runs += 1
            state = signal
            for world in (real, model):
                # targets need a place for the output when it comes, not earlier
                while world.empty:
                    world.empty.pop().append("filler")
            for name, spec in model_steps.items():
                state = model_call(spec, state, inserts.get(name, {}), model.log)
                for send in model_sends:
                    if send[1] == name:
                        model_send(send, state, model, inserts)
            if how == "iter":
                *_, got = composition.itercall(signal)
            else:
                got = getattr(composition, "execute" if how == "execute" else "__call__")(signal)
            require(same(got, state), "execution gave", got, "instead of", state)
            require(real.log == model.log, "events were", real.log, "instead of", model.log)
            require(same(real.contents(), model.contents()), "targets hold", real.contents(),
                    "instead of", model.contents())
            live = {k: v for k, v in inserts.items() if v}
            require(
                {k: v for k, v in composition.inserts.items() if v} == live,
                "inserts are", composition.inserts, "instead of", live,
            )
            if all_captures is not None:
                require(
                    composition.captures == all_captures, "captures", composition.captures,
                    "instead of", all_captures,
                )
    into = sum(s[3] == "insert" for s in model_sends)
    return runs >= 2 and len(model_sends) >= 3 and into >= 1, [
        f"runs:{min(runs, 4)}", f"sends:{min(len(model_sends), 8)}",
    ] + sorted({f"target:{s[3]}" for s in model_sends})


def strategy(tier):
    return cases()
