"""shared by C19-C21: generated digs and an independent definition of what they should find"""
import functools
import operator
import re

from hypothesis import strategies as st

from pbt.gen import MTYPES, Tree, build, names, same, small_ints, trees

KEYS = st.one_of(
    names, small_ints, st.sampled_from([None, (1, "a"), True, 1.5, frozenset([1])]),
)
LEAVES = st.one_of(
    small_ints, names, st.sampled_from([None, 0.0, 1.5, True, (1, 2), "target", b"a"]),
    st.lists(st.one_of(small_ints, st.just({"a": 1})), max_size=3),
)
KINDS = ["d", "d", "d", "o", "s", "f", "u", "p", "c"]


def contains_ref(ref, thing):
    return isinstance(thing, str) and ref in thing


# comparison functions: called with (ref, thing)
COMPARISONS = {
    "eq": operator.eq,
    "ne": operator.ne,
    "type": lambda ref, thing: type(ref) is type(thing),
    "re": lambda ref, thing: re.match(re.escape(str(ref)), str(thing)),
    "contains": lambda ref, thing: isinstance(thing, str) and str(ref) in thing,
    # asymmetric, returns truthy non-bools
    "prefix": lambda ref, thing: [1] if str(thing).startswith(str(ref)[:1]) else [],
}
# predicates of (key, value)
PREDICATES = {
    "never": lambda k, v: False,
    "always": lambda k, v: True,
    "strkey": lambda k, v: isinstance(k, str),
    "mapping": lambda k, v: hasattr(v, "items"),
    "leaf": lambda k, v: not hasattr(v, "items"),
    "intval": lambda k, v: isinstance(v, int) and v,
    "both": lambda k, v: isinstance(k, str) and isinstance(v, (int, str)),
    "empty": lambda k, v: hasattr(v, "items") and len(v) == 0,
    "a_and_big": lambda k, v: k == "a" and isinstance(v, int) and v > 3,
    "len": lambda k, v: hasattr(v, "__len__") and len(v) or 0,
}


class Judge:
    """something callable that is not a function"""
    def __init__(self, func):
        self.func = func

    def __call__(self, key, value):
        return self.func(key, value)

    def judge(self, key, value):
        return self.func(key, value)


CALLABLES = {
    "plain": lambda f: f, "partial": functools.partial, "object": Judge, "method": lambda f: Judge(f).judge,
    "slot": lambda f: Judge(f).__call__, "cached": lambda f: functools.wraps(f)(Judge(f)),
    "class": lambda f: type("Verdict", (), {"__new__": lambda cls, k, v: f(k, v)}),
    "bound": lambda f: functools.partial(lambda other, k, v: f(k, v), "first"),
}


FEW_KEYS = st.sampled_from(["a", "b", "c", 1, None])
FEW_LEAVES = st.sampled_from([0, 1, "target", "t", None, 4, []])
# things that are equal but not the same
ALIKE = st.sampled_from([1, True, 1.0, 0, False, 0.0, -0.0, (1,), (True,), (1.0,)])


@st.composite
def dig_cases(draw, dense=None):
    if dense is None:
        dense = draw(st.booleans())
    if draw(st.integers(0, 9)) == 0:
        return draw(lookalikes())
    if dense:
        # few distinct keys and values, so that one query matches on several levels
        mtypes = draw(st.sampled_from(["dict", "abc", "foreign", "dict", "abc", "foreign", "od"]))
        kinds = ["d", "o", "o", "f"] if mtypes == "od" else ["d", "d", "s", "f"]
        tree = draw(trees(FEW_KEYS, FEW_LEAVES, kinds, max_depth=5, min_width=2, nest=65))
        if draw(st.integers(0, 2)) == 0 and mtypes != "od":
            return draw(contended(tree, mtypes))
    else:
        tree = draw(trees(KEYS, LEAVES, KINDS, max_depth=5))
        mtypes = draw(st.sampled_from(list(MTYPES)))
    form = draw(st.sampled_from(["default", "match", "match", "predicate"]))
    if form == "default":
        query = ("default", draw(KEYS))
        if dense or draw(st.integers(0, 3)) == 0:
            query = ("default", ref_from(tree, "key", draw(st.integers(0, 50))))
    elif form == "match":
        match = draw(st.sampled_from(["key", "value"]))
        ref = draw(KEYS if match == "key" else LEAVES)
        if dense or draw(st.integers(0, 3)) == 0:
            ref = ref_from(tree, match, draw(st.integers(0, 50)))
        query = ("match", match, ref, draw(st.sampled_from(list(COMPARISONS))))
    else:
        query = ("predicate", draw(st.sampled_from(list(PREDICATES))),
                 draw(st.sampled_from(["key", "value", "item"])), draw(st.sampled_from(["plain", "plain"] + list(CALLABLES))))
    shared = draw(st.integers(0, 3)) == 0
    if shared:
        tree = repeat_branches(tree, draw(st.integers(0, 3)))
    return {"tree": tree, "mtypes": mtypes, "query": query, "shared": shared}


@st.composite
def lookalikes(draw):
    """keys and values that are equal but differ in type, and comparisons that tell them apart"""
    tree = draw(trees(ALIKE, ALIKE, ["d", "d", "s"], max_depth=4, min_width=2, nest=65))
    match = draw(st.sampled_from(["key", "value"]))
    ref = ref_from(tree, match, draw(st.integers(0, 50)))
    query = ("match", match, ref, draw(st.sampled_from(["type", "type", "eq", "re", "prefix"])))
    return {"tree": tree, "mtypes": draw(st.sampled_from(["dict", "abc"])), "query": query, "shared": False}


def repeat_branches(tree, which):
    """the same mapping with one of its branches in a second place, or more"""
    kind, pairs = tree
    branches = [v for _, v in pairs if isinstance(v, Tree)]
    if not branches:
        return tree
    branch = branches[which % len(branches)]
    keys = [k for k, _ in pairs]
    pairs = tuple(
        (k, repeat_branches(v, which) if which == 3 and isinstance(v, Tree) and v is not branch else v) for k, v in pairs
    )
    return Tree((kind, pairs + (("again", branch),) * ("again" not in keys) + (("once more", Tree(("d", (("in", branch),)))),) * ("once more" not in keys)))


@st.composite
def contended(draw, tree, mtypes):
    """a mapping that has matches on different levels of several branches"""
    match = draw(st.sampled_from(["key", "value"]))
    kinds = st.sampled_from(["d", "d", "s"])

    def branch(levels, number):
        pair = ("wanted", number) if match == "key" else (f"k{number}", "wanted")
        decoys = draw(st.lists(st.sampled_from(["d1", "d2"]), max_size=2, unique=True))
        pairs = [(d, draw(FEW_LEAVES)) for d in decoys] + [pair]
        draw(st.randoms(use_true_random=False)).shuffle(pairs)
        node = Tree((draw(kinds), tuple(pairs)))
        for level in range(levels):
            node = Tree((draw(kinds), ((f"l{level}", node),) + draw(st.sampled_from([(), (("x", 1),), (("y", Tree(("d", ()))),)]))))
        return node

    levels = draw(st.lists(st.integers(0, 4), min_size=2, max_size=4))
    pairs = [(f"b{i}", branch(n, i)) for i, n in enumerate(levels)]
    pairs.insert(draw(st.integers(0, len(pairs))), ("rest", tree))
    query = draw(st.sampled_from([
        ("match", match, "wanted", "eq"), ("match", match, "wanted", "contains"),
        ("default", "wanted") if match == "key" else ("match", match, "wanted", "eq"),
    ]))
    return {"tree": Tree((draw(kinds), tuple(pairs))), "mtypes": mtypes, "query": query, "shared": False}


def ref_from(tree, match, n):
    """a key or value that occurs somewhere in the tree, by preference not at the top"""
    found, top = [], []

    def walk(node, out):
        for k, v in node[1]:
            if match == "key" or not isinstance(v, Tree):
                out.append(k if match == "key" else v)
            if isinstance(v, Tree):
                walk(v, found)

    walk(tree, top)
    found = [x for x in found if x not in top] or top
    return found[n % len(found)] if found else "a"


def call_args(query):
    """the arguments the dig_for_* functions take after the mapping"""
    if query[0] == "default":
        return (query[1],), {}
    if query[0] == "match":
        _, match, ref, comparison = query
        kwargs = {"match": match}
        if comparison != "eq":
            kwargs["base_pred"] = COMPARISONS[comparison]
        return (ref,), kwargs
    return (CALLABLES[query[3]](PREDICATES[query[1]]),), {"match": query[2]}


def satisfied(query, key, value):
    if query[0] == "default":
        return query[1] == key
    if query[0] == "match":
        _, match, ref, comparison = query
        return COMPARISONS[comparison](ref, key if match == "key" else value)
    return PREDICATES[query[1]](key, value)


def all_matches(mapping, query, mtypes):
    """(depth, key, value) in the documented order"""
    out = []

    def walk(m, level):
        for k in list(m):
            if satisfied(query, k, m[k]):
                out.append((level, k, m[k]))
        for k in list(m):
            if isinstance(m[k], mtypes):
                walk(m[k], level + 1)

    walk(mapping, 0)
    return out


def pair_same(a, b):
    return same(a[0], b[0]) and same(a[1], b[1])
