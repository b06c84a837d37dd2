import collections

from hypothesis import strategies as st

from pbt.core import require
from pbt.gen import MAKERS, MTYPES, Tree, build, depth, names, same, small_ints, trees

ID = "C22"
RULE = (
    "a pair of nested mappings, the second often derived from the first so keys overlap at depth, "
    "with default or given mapping types; non-trivial if a key was merged at least 2 levels down"
)
QUICK, THOROUGH = 1500, 30000

KEYS = st.one_of(names, small_ints, st.sampled_from([None, (1,), 2.5]))
LEAVES = st.one_of(small_ints, names, st.sampled_from([None, 1.5, (), (1, 2)]),
                   st.lists(small_ints, max_size=2))
TYPES = {"default": (dict, collections.OrderedDict), **MTYPES}


@st.composite
def derived(draw, tree, kinds):
    """a second tree: some keys dropped, some kept, some replaced, some added"""
    def walk(node):
        pairs = []
        for k, v in node[1]:
            fate = draw(st.integers(0, 9))
            if fate == 0:
                continue
            if fate == 1:
                pairs.append((k, draw(LEAVES)))
            elif fate == 2:
                pairs.append((k, draw(trees(KEYS, LEAVES, kinds, max_depth=2, spine=0))))
            elif isinstance(v, Tree):
                pairs.append((k, walk(v)))
            else:
                pairs.append((k, v if fate < 6 else draw(LEAVES)))
        if draw(st.integers(0, 2)) == 0:
            k = draw(KEYS)
            if k not in [p[0] for p in pairs]:
                pairs.insert(draw(st.integers(0, len(pairs))), (k, draw(LEAVES)))
        return Tree((draw(st.sampled_from(kinds)), tuple(pairs)))

    return walk(tree)


@st.composite
def cases(draw):
    types_ = draw(st.sampled_from(["default", "default", "dict", "od", "foreign", "abc"]))
    kinds = draw(st.sampled_from([["d"], ["d", "o"], ["d", "o", "s", "f", "u", "p", "c"]]))
    first = draw(trees(KEYS, LEAVES, kinds, max_depth=5, spine=25))
    how = draw(st.integers(0, 9))
    if how < 7:
        second = draw(derived(first, kinds))
    elif how < 8:
        second = Tree(("d", ()))
    else:
        second = draw(trees(KEYS, LEAVES, kinds, max_depth=4))
    if draw(st.integers(0, 4)) == 0:
        first, second = second, first
    return {"first": first, "second": second, "mtypes": types_}


def merged(a, b, mtypes, deepest, level=0):
    """{key: value} by definition; order is not claimed"""
    out = {}
    for k in a:
        out[k] = a[k]
    for k in b:
        if k in a and isinstance(a[k], mtypes) and isinstance(b[k], mtypes):
            out[k] = Merged(merged(a[k], b[k], mtypes, deepest, level + 1))
            deepest.append(level + 1)
        else:
            out[k] = b[k]
    return out


class Merged(dict):
    """marks a mapping that merging makes"""


def agrees(got, want):
    if isinstance(want, Merged):
        return (
            isinstance(got, collections.abc.Mapping)
            and set(got) == set(want)
            and all(agrees(got[k], want[k]) for k in want)
        )
    return same(got, want)


def as_plain(mapping):
    """deep dict of a mapping, for comparisons in which mapping types do not matter"""
    if isinstance(mapping, collections.abc.Mapping):
        return {k: as_plain(v) for k, v in mapping.items()}
    return mapping


def run_case(case):
    from dustgoggles.structures import rmerge

    first, second = build(case["first"]), build(case["second"])
    mtypes = TYPES[case["mtypes"]]
    extra = () if case["mtypes"] == "default" else (mtypes,)
    deepest = []
    want = Merged(merged(first, second, mtypes, deepest))
    got = rmerge(first, second, *extra)
    require(isinstance(got, dict), "returned a", type(got))
    require(agrees(got, want), "merged to", got, "instead of", want)
    require(same(first, build(case["first"])), "the first mapping changed")
    require(same(second, build(case["second"])), "the second mapping changed")
    for a, b in ((first, {}), ({}, first), (first, first)):
        again = rmerge(a, b, *extra)
        require(as_plain(again) == as_plain(first), "merging with", b, "gave", again)
    return any(level > 1 for level in deepest), [
        f"mtypes:{case['mtypes']}", f"merges:{min(len(deepest), 5)}",
        f"depth:{min(depth(case['first']), 6)}",
    ]


def strategy(tier):
    return cases()
