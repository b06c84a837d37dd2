import collections
import itertools
import warnings

from hypothesis import strategies as st

from pbt.core import require
from pbt.gen import MAKERS, Tree, build, depth, names, same, small_ints

ID = "C23"
RULE = (
    "one nested mapping whose branches end in records at equal or different depths, with default or "
    "given level names (list, tuple, range, string, iterator, odd or repeated); non-trivial if it yields at least 3 records "
    "with at least 2 path labels"
)
QUICK, THOROUGH = 2000, 30000

KEYS = st.one_of(names, small_ints, st.sampled_from([None, (1, "a"), 2.5]))
FIELDS = st.one_of(names, small_ints, st.sampled_from(["lat", "lon", "L0", "L1"]))
LEAVES = st.one_of(small_ints, names, st.sampled_from([None, 1.5, (1, 2)]),
                   st.lists(small_ints, max_size=2))
KINDS = ["d", "d", "d", "d", "o", "s", "p", "u", "c"]


@st.composite
def records(draw):
    """an innermost mapping with at least one non-mapping value, mapping values included"""
    pairs = {}
    for _ in range(draw(st.integers(1, 4))):
        pairs[draw(FIELDS)] = draw(LEAVES)
    if draw(st.integers(0, 5)) == 0:
        pairs[draw(FIELDS)] = Tree((draw(st.sampled_from(KINDS + ["f"])), (("inner", 1),)))
        if all(isinstance(v, Tree) for v in pairs.values()):
            pairs["plain"] = 0
    if draw(st.integers(0, 79)) == 17:
        pairs.update((f"field{i}", i) for i in range(draw(st.integers(21, 40))))
    if draw(st.integers(0, 79)) == 17:
        # many mappings among the fields
        inner = Tree((draw(st.sampled_from(KINDS + ["f"])), (("inner", 1),)))
        pairs = {**{f"map{i}": inner for i in range(draw(st.integers(21, 40)))}, **pairs}
    items = list(pairs.items())
    if draw(st.booleans()):
        items.reverse()
    return Tree((draw(st.sampled_from(KINDS)), tuple(items)))


@st.composite
def branches(draw, levels, ragged):
    """a mapping whose every value is a mapping, records below"""
    pairs, seen = [], set()
    for _ in range(draw(st.integers(0 if levels < 3 else 1, 3))):
        key = draw(KEYS)
        if key in seen:
            continue
        seen.add(key)
        down = levels - 1
        if ragged and down > 0:
            down = draw(st.integers(0, down))
        if draw(st.integers(0, 30)) == 0:
            pairs.append((key, Tree((draw(st.sampled_from(KINDS + ["f"])), ()))))
        else:
            pairs.append((key, draw(records()) if down <= 0 else draw(branches(down, ragged))))
    if levels < 3 and draw(st.integers(0, 49)) == 17:
        # many records side by side
        some = [draw(records()) for _ in range(2)]
        more = [(f"w{i}", some[i % 2]) for i in range(draw(st.integers(21, 40)))]
        pairs = pairs + more if draw(st.booleans()) else more + pairs
    return Tree((draw(st.sampled_from(KINDS + ["f"])), tuple(pairs)))


@st.composite
def cases(draw):
    tree = draw(branches(draw(st.integers(1, 4)), draw(st.booleans())))
    if draw(st.integers(0, 39)) == 17:
        # many levels
        for i in range(draw(st.integers(9, 40))):
            tree = Tree((draw(st.sampled_from(KINDS + ["f"])), ((draw(KEYS), tree),)))
    levels = max(depth(tree), 1)
    form = draw(st.sampled_from(["default", "default", "list", "tuple", "range", "text", "keys", "odd", "same", "iterator", "count"]))
    extra = draw(st.integers(0, 2))
    return {"tree": tree, "names": (form, levels + extra)}


def level_names(form, n):
    if form == "list":
        return [f"L{i}" for i in range(n)]
    if form == "tuple":
        return tuple(("lat", "lon", "c", "x")[i] if i < 4 else i for i in range(n))
    if form == "range":
        return range(n)
    if form == "text":
        return "".join(chr(ord("a") + i) for i in range(n))
    if form == "odd":
        return [None, 0, "", ("a",), 1.5, False, frozenset(), -1, "x", *range(10, 10 + n)][:n]
    if form == "same":
        # a deeper level of the same name wins
        return ["level" if i % 2 else "other" for i in range(n)]
    if form == "iterator":
        return iter([f"L{i}" for i in range(n)])
    if form == "count":
        return itertools.count(5)
    return {f"K{i}": None for i in range(n)}.keys()


def expected_records(mapping, name_at, path=()):
    out = []
    for key, child in mapping.items():
        here = path + (key,)
        if any(not isinstance(v, collections.abc.Mapping) for v in child.values()):
            record = dict(child)
            for level, label in enumerate(here):
                record[name_at(level)] = label
            out.append((record, len(here)))
        else:
            out += expected_records(child, name_at, here)
    return out


def run_case(case):
    with warnings.catch_warnings():
        # copying itertools' iterators is deprecated
        warnings.simplefilter("ignore")
        return compare(case)


def compare(case):
    from dustgoggles.structures import to_records

    nested = build(case["tree"])
    form, n = case["names"]
    if form == "default":
        got, name_at = to_records(nested), lambda level: level + 1
    else:
        given = level_names(form, n)
        listed = list(itertools.islice(level_names(form, n), 100))
        got, name_at = to_records(nested, level_names=given), lambda level: listed[level]
        once = form in ("iterator", "count")
        require(once or list(given) == listed, "the supplied level names changed")
        require(
            once or
            all(same(dict(a), dict(b)) for a, b in zip(got, to_records(nested, None, given))),
            "a second call with the same level names differs",
        )
    want = expected_records(nested, name_at)
    require(isinstance(got, list), "returned a", type(got))
    require(len(got) == len(want), len(got), "records instead of", len(want))
    for record, (wanted, _) in zip(got, want):
        require(
            set(record) == set(wanted) and all(same(record[k], wanted[k]) for k in wanted),
            "record", record, "instead of", wanted,
        )
    require(same(nested, build(case["tree"])), "the nested mapping changed")
    paths = {levels for _, levels in want}
    return len(want) >= 3 and max(paths, default=0) >= 2, [
        f"names:{form}", f"records:{min(len(want), 10)}", "ragged" if len(paths) > 1 else "even",
    ]


def strategy(tier):
    return cases()
