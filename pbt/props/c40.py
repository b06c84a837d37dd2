import collections.abc
import itertools
import numbers
import operator

from hypothesis import strategies as st

from pbt.core import require
from pbt.gen import names, same, small_ints

ID = "C40"
RULE = (
    "one combinator (are_in with and/or, intersection, disjoint, is_it, naturals) on generated "
    "collections; non-trivial if the items are partly in and partly out (are_in), the sets overlap "
    "but differ (intersection, disjoint), or a non-member is tested (is_it)"
)
QUICK, THOROUGH = 2500, 40000

ITEMS = st.one_of(st.integers(0, 9), st.sampled_from(["a", "b", "ab", None, (1,), 1.0, True, "", 2.5]))


def now_and_then_many(elements):
    """now and then dozens of them, the last as drawn second"""
    return st.tuples(elements, st.integers(0, 29), st.integers(5, 30)).map(
        lambda x: x[0][:1] * x[2] + x[0][1:] if x[1] == 17 else x[0] * x[2] if x[1] == 18 else x[0])


LISTS = st.lists(st.integers(0, 2), max_size=2) | st.sampled_from([{}, {"a": 1}, {1}, bytearray(b"a")])
HASHABLES = now_and_then_many(st.lists(ITEMS, max_size=12))
CONTAINERS = {
    "list": list, "tuple": tuple, "set": set, "frozenset": frozenset,
    "dict": lambda xs: dict.fromkeys(xs, 0), "keys": lambda xs: dict.fromkeys(xs).keys(),
    "values": lambda xs: dict(enumerate(xs)).values(),
}
ITERABLES = {**CONTAINERS, "gen": lambda xs: iter(list(xs))}
TYPES = [int, str, bool, float, type(None), tuple, list, dict, object, Exception, KeyError,
         LookupError, complex]
# types that say themselves what belongs to them
OPEN_TYPES = [collections.abc.Mapping, collections.abc.Sized, collections.abc.Hashable, collections.abc.Sequence,
              numbers.Number, numbers.Integral, int | str, None.__class__ | list]
OBJECTS = [1, True, "a", 1.0, None, (1,), [1], {}, KeyError("x"), LookupError(), 1j, b"", object]


class Posing:
    """is a dict as far as isinstance is concerned"""
    __class__ = property(lambda self: dict)


OBJECTS += [Posing()]


def strategy(tier):
    container = st.sampled_from(list(CONTAINERS))
    return st.one_of(
        st.tuples(st.just("are_in"), st.lists(ITEMS, min_size=1, max_size=8),
                  st.sampled_from(["list", "tuple", "set", "keys"]),
                  st.lists(st.tuples(container, HASHABLES), min_size=1, max_size=4),
                  st.sampled_from(["default", "and", "or"])),
        # things that cannot be hashed
        st.tuples(st.just("are_in"), st.lists(LISTS | ITEMS, min_size=1, max_size=5), st.sampled_from(["list", "tuple", "values"]),
                  st.lists(st.tuples(st.sampled_from(["list", "tuple", "values"]), st.lists(LISTS | ITEMS, max_size=8)), min_size=1, max_size=4),
                  st.sampled_from(["default", "and", "or"])),
        st.tuples(st.just("are_in_text"), st.lists(st.text("abc", max_size=3), min_size=1, max_size=4),
                  st.text("abc", max_size=6), st.sampled_from(["default", "or"])),
        st.tuples(st.just("sets"), now_and_then_many(st.lists(
            st.tuples(st.sampled_from(list(ITERABLES)), HASHABLES), min_size=1, max_size=5)),
            st.lists(ITEMS, max_size=4)),
        st.tuples(st.just("is_it"), st.lists(st.integers(0, len(TYPES) - 1), max_size=4),
                  st.lists(st.integers(0, len(OPEN_TYPES) - 1), max_size=2)),
        st.tuples(st.just("naturals"), st.one_of(st.integers(1, 400), st.integers(1, 400), st.sampled_from([1000, 70_000, 300_000]))),
    )


def run_case(case):
    from dustgoggles import func as f

    op = case[0]
    if op == "are_in":
        items = CONTAINERS[case[2]](case[1])
        oper = {"default": (), "and": (operator.and_,), "or": (operator.or_,)}[case[4]]
        combine = any if case[4] == "or" else all
        predicate = f.are_in(items, *oper)
        mixed = False
        for kind, content in case[3]:
            container = CONTAINERS[kind](content)
            flags = [any(x is y or x == y for y in container) for x in list(items)]
            # asked twice: the predicate must not consume its items
            for _ in range(2):
                require(
                    bool(predicate(container)) is combine(flags),
                    "are_in", case[1], case[4], "of", content, "is", predicate(container),
                )
            mixed |= any(flags) and not all(flags)
        return mixed, [f"are_in:{case[4]}"]
    if op == "are_in_text":
        oper = (operator.or_,) if case[3] == "or" else ()
        flags = [part in case[2] for part in case[1]]
        want = any(flags) if case[3] == "or" else all(flags)
        require(bool(f.are_in(case[1], *oper)(case[2])) is want, "substrings", case)
        return any(flags) and not all(flags), ["are_in:text"]
    if op == "sets":
        # every other input also holds a few common elements
        contents = [list(case[2]) + content for _, content in case[1]]
        make = lambda: [ITERABLES[kind](xs) for (kind, _), xs in zip(case[1], contents)]
        listed = [list(x) for x in make()]
        shared = [x for x in listed[0] if all(x in other for other in listed[1:])]
        got = f.intersection(*make())
        require(type(got) is set and got == set(shared), "intersection", got, "not", shared)
        rest = f.disjoint(*make())
        want = [[x for x in xs if x not in shared] for xs in listed]
        require(same([list(r) for r in rest], want), "disjoint", rest, "not", want)
        return bool(shared) and any(want), [f"sets:{len(listed)}"]
    if op == "is_it":
        types_ = tuple(TYPES[i] for i in case[1])
        others = tuple(OPEN_TYPES[i] for i in case[2])
        predicate = f.is_it(*types_, *others)
        for thing in OBJECTS:
            want = any(t in type(thing).__mro__ + thing.__class__.__mro__ for t in types_) or any(isinstance(thing, t) for t in others)
            require(predicate(thing) is want, "is_it", types_, "of", thing)
        return bool(types_), ["is_it"]
    got = list(itertools.islice(f.naturals(), case[1]))
    require(got == list(range(1, case[1] + 1)), "naturals", got)
    return case[1] > 1, ["naturals"]
