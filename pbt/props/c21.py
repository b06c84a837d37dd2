import collections
import functools

from hypothesis import strategies as st

from pbt.core import require
from pbt.gen import MTYPES, Tree, build, depth, names, same, small_ints, trees
from pbt.props._dig import KEYS, LEAVES, PREDICATES

ID = "C21"
RULE = (
    "either one nested mutable mapping with a filter and a setter, or a history of nested "
    "assignments and reads on a NestingDict followed by todict; non-trivial if pairs on at least 2 "
    "levels were edited, or the NestingDict became at least 2 levels deep"
)
QUICK, THOROUGH = 2000, 30000

SETTERS = {
    "none": lambda k, v: None,
    "key": lambda k, v: k,
    "repr": lambda k, v: repr(k),
    "wrap": lambda k, v: {"w": 1},
    "wrapkey": lambda k, v: {"a": 2, 9: "z"},
    "listed": lambda k, v: [v],
    "same": lambda k, v: v,
    "od": lambda k, v: collections.OrderedDict(q=5),
}
# filters that a mapping-returning setter cannot satisfy without end
BOUNDED = ["never", "strkey_leaf", "a_and_big", "empty_leaf", "big_key"]
FILTERS = {
    **PREDICATES,
    "strkey_leaf": lambda k, v: k in ("b", "c", "key") and not hasattr(v, "items"),
    "empty_leaf": lambda k, v: isinstance(v, (str, list)) and len(v) == 0,
    "big_key": lambda k, v: isinstance(k, int) and k > 3 and k != 9,
    # these see what the setter has done so far, through the counter they are bound to
    "few": lambda n, k, v: n[0] < 3,
    "even": lambda n, k, v: n[0] % 2 == 0 and not hasattr(v, "items"),
    "mapkey": lambda k, v: k in ("b", "c", "x_y"),
}


@st.composite
def edit_cases(draw):
    tree = draw(trees(KEYS, LEAVES, ["d", "d", "o", "s", "f"], max_depth=5, spine=12))
    setter = draw(st.sampled_from(list(SETTERS)))
    choices = BOUNDED + ["mapkey", "few"] if setter in ("wrap", "wrapkey", "od") else list(FILTERS)
    return {
        "kind": "edit", "tree": tree, "setter": setter,
        "filter": draw(st.sampled_from(choices)),
        "mtypes": draw(st.sampled_from(["dict", "dict", "od", "foreign"])),
    }


PATH = st.lists(st.one_of(names, small_ints), min_size=1, max_size=5)


@st.composite
def nesting_cases(draw):
    ops = draw(
        st.lists(
            st.one_of(
                st.tuples(st.just("set"), PATH, st.one_of(small_ints, names, st.just({"plain": 1}), st.sampled_from(["nested", "kin"]))),
                st.tuples(st.just("touch"), PATH),
                st.tuples(st.just("del"), PATH),
            ),
            min_size=1, max_size=10,
        )
    )
    seed = draw(st.sampled_from([(), (("s", 1), ("t", {"plain": {"deep": 2}}))]))
    return {"kind": "nesting", "ops": ops, "seed": seed}


def strategy(tier):
    return st.one_of(edit_cases(), edit_cases(), nesting_cases())


def model_edit(mapping, keep, setter, mtypes, counts, level=0):
    """the documented edit, written as its own recursion"""
    hits = [k for k in mapping if keep(k, mapping[k])]
    for k in hits:
        mapping[k] = setter(k, mapping[k])
        counts.append(level)
    for k in list(mapping):
        if isinstance(mapping[k], mtypes):
            model_edit(mapping[k], keep, setter, mtypes, counts, level + 1)


def run_edit(case):
    from dustgoggles.structures import dig_and_edit

    mapping, model = build(case["tree"]), build(case["tree"])
    mtypes = MTYPES[case["mtypes"]]

    def functions():
        keep, done = FILTERS[case["filter"]], [0]

        def setter(key, value):
            done[0] += 1
            return SETTERS[case["setter"]](key, value)

        return functools.partial(keep, done) if case["filter"] in ("few", "even") else keep, setter

    keep, setter = functions()
    counts = []
    model_edit(model, keep, setter, mtypes, counts)
    keep, setter = functions()
    if case["mtypes"] == "dict":
        result = dig_and_edit(mapping, keep, setter)
    else:
        result = dig_and_edit(mapping, keep, setter, mtypes)
    require(result is mapping, "dig_and_edit did not return the object it was given")
    require(same(mapping, model), "edited to", mapping, "instead of", model)
    return len(set(counts)) > 1, [f"setter:{case['setter']}", f"edits:{min(len(counts), 4)}"]


def run_nesting(case):
    from dustgoggles.structures import NestingDict

    nesting, model = NestingDict(), {}
    for k, v in case["seed"]:
        # plain values given at construction
        nesting[k] = v
        model[k] = v
    levels = 0
    for op, path, *value in case["ops"]:
        # walk the model first: is every level above the last a nested level?
        node, walkable = model, True
        for key in path[:-1]:
            if key in node and not isinstance(node[key], Level):
                walkable = False
                break
            node = node.get(key, Level())
        if not walkable:
            continue
        real, node = nesting, model
        for key in path[:-1]:
            real = real[key]
            require(isinstance(real, NestingDict), "a created level is a", type(real))
            node = node.setdefault(key, Level())
        if op == "set":
            value = value[0]
            node[path[-1]] = value
            if value in ("nested", "kin"):
                # a level made elsewhere
                value = NestingDict() if value == "nested" else type("Kin", (NestingDict,), {})()
                value["p"]["q"] = 1
                node[path[-1]] = Level(p=Level(q=1))
            real[path[-1]] = value
            require(real[path[-1]] is value, "read back another object")
        elif op == "touch":
            got = real[path[-1]]
            if path[-1] in node:
                require(got == node[path[-1]], "read", got, "not", node[path[-1]])
            else:
                node[path[-1]] = Level()
                require(isinstance(got, NestingDict) and len(got) == 0, "new level is", got)
        elif path[-1] in node:
            del real[path[-1]]
            del node[path[-1]]
        levels = max(levels, len(path))
        require(nesting == model, "contents", nesting, "not", model)
        require(repr(nesting) == repr(plain(model)), "repr is", repr(nesting))
    plain_dict = nesting.todict()
    require(same(plain_dict, plain(model)), "todict gave", plain_dict, "not", plain(model))
    return levels > 1, ["nesting", f"levels:{levels}"]


class Level(dict):
    """a level the NestingDict should have made"""


def plain(model):
    if isinstance(model, Level):
        return {k: plain(v) for k, v in model.items()}
    if type(model) is dict:
        return {k: plain(v) for k, v in model.items()}
    return model


def run_case(case):
    return run_edit(case) if case["kind"] == "edit" else run_nesting(case)
