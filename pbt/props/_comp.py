"""
shared by C11-C14: compositions described as plain data, built twice -- once as a real Composition
and once as a small interpreter (Model) that defines what executing it means.

A step is (kind, label, positional, keywords): kind plain / partial / curry / method / strict, the
last two being a bound method and a function whose parameters are all named. Every step function
logs its call and returns (label, args, sorted keywords), so a wrongly placed or missing argument
shows in the result; an echo returns its first argument itself and a falsy step something false.
"""
import enum
import functools

from hypothesis import strategies as st

from pbt.core import require
from pbt.gen import names, small_ints

VALUES = st.one_of(
    small_ints, names, st.sampled_from([None, False, 0, "", (1, 2), ("L", (), ())]),
    st.lists(small_ints, max_size=2),
)
KW = st.sampled_from(["p", "q", "r", "s"])
KEYWORDS = st.dictionaries(KW, VALUES, max_size=3)
POSITIONAL = st.lists(VALUES, max_size=4)


class Number(enum.IntEnum):
    FOUR = 4
    TWENTY = 20


class Name(str, enum.Enum):
    DELTA = "delta"
    Q = "q"


class Text(str):
    """an ordinary subclass of str"""


STEP_NAMES = st.sampled_from(["alpha", "beta", "gamma", "", 0, 1, 2, 3, 7, -1] * 2 + [Number.FOUR, Name.DELTA, Text("epsilon"), Number.TWENTY])

# positions and keywords of types derived from int and str
SPECIAL = st.sampled_from([0, "p", 1, "q"] * 2 + [Number.FOUR, Name.Q, Text("r")])
KINDS = st.sampled_from(
    ["plain", "plain", "partial", "partial", "curry", "method", "strict", "echo", "falsy", "object", "dynamic"]
)
FALSY = [None, 0, "", False, (), 0.0]


@st.composite
def steps(draw, index):
    kind = draw(KINDS)
    positional, keywords = (), ()
    if kind in ("partial", "curry"):
        positional = tuple(draw(POSITIONAL))
        keywords = tuple(draw(KEYWORDS).items())
    return (kind, f"f{index}", positional, keywords)


@st.composite
def insert_maps(draw):
    out = {}
    if draw(st.integers(0, 7)) == 0:
        # many positions, so that slots of two digits are reached; given in any order
        first = draw(st.integers(0, 2))
        for slot in draw(st.permutations(range(first, draw(st.sampled_from([4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 13, 25, 40]))))):
            out[slot] = ("wide", slot)
    for _ in range(draw(st.integers(0, 4))):
        slot = st.one_of(st.integers(0, 5), st.sampled_from([9, 10, 11, 12, 100]))
        out[draw(st.one_of(KW, slot, SPECIAL))] = draw(VALUES)
    return tuple(out.items())


class Method:
    def __init__(self, body):
        self.body = body

    def run(self, *args, **kwargs):
        return self.body(args, kwargs)


class Callable:
    """a callable object that has something else under the name partials use"""
    func = "nothing to call"

    def __init__(self, body):
        self.body = body

    def __call__(self, *args, **kwargs):
        return self.body(args, kwargs)


def result_of(label, args, kwargs):
    return (label, tuple(args), tuple(sorted(kwargs.items())))


def outcome(spec, args, kwargs):
    kind, label = spec[:2]
    if kind == "echo":
        return args[0]
    if kind == "falsy":
        return FALSY[sum(map(ord, label)) % len(FALSY)]
    return result_of(label, args, kwargs)


def make_step(spec, log, fault=None):
    """the real callable; fault(label) may raise"""
    import cytoolz

    kind, label, positional, keywords = spec

    def body(args, kwargs):
        log.append(("call", label, tuple(args), tuple(sorted(kwargs.items()))))
        if fault is not None:
            fault(label)
        return outcome(spec, args, kwargs)

    def plain(*args, **kwargs):
        return body(args, kwargs)

    def strict(first, second="D2", third="D3", *, p="Dp", q="Dq", r="Dr", s="Ds"):
        return body(
            (first, second, third), {"p": p, "q": q, "r": r, "s": s}
        )

    plain.__name__ = strict.__name__ = label
    if kind == "object":
        return Callable(body)
    if kind == "dynamic":
        from dustgoggles.dynamic import Dynamic

        return Dynamic(f"def {label}(*args, **kwargs):\n    return body(args, kwargs)", {"body": body}, lazy=len(label) % 2 == 0)
    if kind == "partial":
        return functools.partial(plain, *positional, **dict(keywords))
    if kind == "curry":
        # cytoolz evaluates a curry as soon as it can be called, so it gets its arguments through
        # a function that cannot be called without two more
        def needy(a0, a1, *args, **kwargs):
            return body((a0, a1) + args, kwargs)

        needy.__name__ = label
        return cytoolz.curry(needy, *positional[:1], **dict(keywords))
    if kind == "method":
        return Method(body).run
    if kind == "strict":
        return strict
    return plain


class StepError(Exception):
    """the model says this call cannot be made"""


def model_call(spec, state, inserts, log, fault=None):
    """what calling the step means"""
    kind, label, positional, keywords = spec
    if kind == "curry":
        positional = positional[:1]
    args = dict(enumerate(positional))
    args.update({k: v for k, v in inserts.items() if isinstance(k, int)})
    slot = 0
    while slot in args:
        slot += 1
    args[slot] = state
    args = [args[k] for k in sorted(args)]
    kwargs = dict(keywords)
    kwargs.update({k: v for k, v in inserts.items() if isinstance(k, str)})
    if kind == "curry" and len(args) < 2:
        raise StepError("curry needs two arguments")
    if kind == "strict":
        if len(args) > 3:
            raise StepError("strict takes three arguments")
        args = args + ["D2", "D3"][len(args) - 1:]
        kwargs = {"p": "Dp", "q": "Dq", "r": "Dr", "s": "Ds"} | kwargs
    log.append(("call", label, tuple(args), tuple(sorted(kwargs.items()))))
    if fault is not None:
        fault(label)
    return outcome(spec, args, kwargs)


def model_fold(step_items, inserts, signal, log):
    """successive results of an execution without sends"""
    state, out = signal, []
    for name, spec in step_items:
        state = model_call(spec, state, inserts.get(name, {}), log)
        out.append(state)
    return out


@st.composite
def named_steps(draw, low=1, high=6):
    """((name, spec), ...) and whether the composition is to be given a sequence"""
    count = draw(st.one_of(st.integers(low, high), st.integers(low, high), st.integers(high, 15)))
    if draw(st.integers(0, 24)) == 0:
        count = draw(st.integers(21, 40))
    as_sequence = draw(st.integers(0, 2)) == 0
    out, seen = [], set()
    for i in range(count):
        name = i if as_sequence else draw(st.one_of(STEP_NAMES, st.just(f"s{i}")))
        if name in seen:
            continue
        seen.add(name)
        out.append((name, draw(steps(i))))
    return tuple(out), as_sequence


def callable_ok(step_items, inserts):
    """does every step accept the arguments its inserts give it?"""
    try:
        model_fold(step_items, inserts, None, [])
    except StepError:
        return False
    return True


def drop_bad_inserts(step_items, inserts):
    """remove the inserts of steps that could not be called with them"""
    fixed = dict(inserts)
    for name, spec in step_items:
        if not callable_ok([(name, spec)], fixed):
            if spec[0] == "curry":
                # give the curried step the argument it needs
                fixed[name] = {0: "i0"} | {
                    k: v for k, v in fixed.get(name, {}).items() if isinstance(k, str)
                }
            if not callable_ok([(name, spec)], fixed):
                fixed[name] = {}
    return fixed
