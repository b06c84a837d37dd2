import collections

from hypothesis import assume
from hypothesis import strategies as st

from pbt.core import require
from pbt.gen import MTYPES, Tree, build, depth, same, small_ints, trees

ID = "C24"
RULE = (
    "one nested mapping with string, integer or mixed keys, an escape string and mapping types; "
    "joined paths collide in no case; non-trivial if a leaf lies at least 3 levels deep"
)
QUICK, THOROUGH = 2000, 30000

PLAIN = st.sampled_from(["a", "b", "c", "key", "val", "x1", "Z", "é", "q q", "%"])
KEYS = {
    "text": PLAIN,
    "mixed": st.one_of(PLAIN, small_ints, st.sampled_from([None, 2.5, (1, 2), True, ""])),
    "under": st.sampled_from(["a_b", "a", "b", "_", "x_", "_y", "c"]),
}
LEAVES = st.one_of(small_ints, PLAIN, st.sampled_from([None, 1.5, (1, 2)]),
                   st.lists(small_ints, max_size=2))


@st.composite
def cases(draw):
    keys = KEYS[draw(st.sampled_from(["text", "mixed", "under"]))]
    tree = draw(
        trees(keys, LEAVES, ["d", "d", "d", "o", "s", "f", "p", "u"], max_depth=5, min_width=1, nest=55,
              spine=20)
    )
    return {
        "tree": tree,
        "escape": draw(st.sampled_from(["", "", "'", '"', "<>", "_", "%s", "{0}", "\\"])),
        "mtypes": draw(st.sampled_from(["dict", "dict", "od", "foreign", "abc"])),
    }


def leaves(mapping, mtypes, path=()):
    for k, v in mapping.items():
        if isinstance(v, mtypes):
            yield from leaves(v, mtypes, path + (k,))
        else:
            yield path + (k,), v


def joined(path, escape):
    return "_".join([f"{escape}{p}{escape}" for p in path[:-1]] + [str(path[-1])])


def run_case(case):
    from dustgoggles.structures import unnest

    mtypes, escape = MTYPES[case["mtypes"]], case["escape"]
    kind = case["tree"][0]
    nested = build(case["tree"])
    assume(isinstance(nested, mtypes))
    found = list(leaves(nested, mtypes))
    want = [(joined(path, escape), v) for path, v in found]
    if len({k for k, _ in want}) < len(want):
        return False, ["collision (skipped)"]
    kwargs = {} if case["mtypes"] == "dict" else {"mtypes": mtypes}
    if escape:
        kwargs["escape"] = escape
    got = unnest(nested, **kwargs)
    require(isinstance(got, dict), "returned a", type(got))
    require(
        len(got) == len(want) and all(
            k1 == k2 and same(v1, v2) for (k1, v1), (k2, v2) in zip(got.items(), want)
        ),
        "unnested to", got, "instead of", want,
    )
    require(same(nested, build(case["tree"])), "the nested mapping changed")
    deepest = max((len(path) for path, _ in found), default=0)
    return deepest >= 3, [f"deepest:{min(deepest, 6)}", f"escape:{escape!r}", f"root:{kind}"]


def strategy(tier):
    return cases()
