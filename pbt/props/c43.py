import itertools
import random

from hypothesis import strategies as st

from pbt.core import require

ID = "C43"
RULE = (
    "one state of the generator of random numbers, a quantity of 0 to 60, a depth of 1 to 6, a branch weight and key and value "
    "types (named ones, or functions whose keys do not repeat); non-trivial if the result nests at least two deep"
)
QUICK, THOROUGH = 600, 12000


class Key:
    """a hashable that is equal to no other"""
    made = itertools.count()

    def __init__(self):
        self.number = next(Key.made)


def fresh_str():
    return f"key{next(Key.made)}"


def given():
    return ["a list"]


def nothing():
    return None


TYPES = {"str": str, "int": int, "float": float, "tuple": tuple, "given": given, "nothing": nothing, "Key": Key, "fresh": fresh_str}
SAFE = ["float", "Key", "fresh"]


@st.composite
def cases(draw):
    depth = draw(st.sampled_from([None, 1, 2, 3, 4, 5, 6]))
    keytypes = draw(st.lists(st.sampled_from(SAFE + (["str", "int", "tuple"] if depth == 1 else [])), min_size=1, max_size=3))
    types = draw(st.lists(st.sampled_from([k for k in TYPES if k not in ("Key", "fresh")]), min_size=1, max_size=4))
    if draw(st.integers(0, 5)) == 0:
        types, keytypes = draw(st.lists(st.sampled_from(SAFE), min_size=1, max_size=2)), None
    return {
        "seed": draw(st.integers(0, 2**32)), "quantity": draw(st.one_of(st.integers(0, 60), st.integers(0, 5))), "depth": depth,
        "weight": draw(st.sampled_from([None, 0, 0.4, 0.9, 1])), "keytypes": keytypes, "types": types,
        "as_tuple": draw(st.booleans()),
    }


def strategy(tier):
    return cases()


def is_of(value, name):
    if name == "str":
        return type(value) is str and 1 <= len(value) <= 10 and value.isascii() and value.isalpha()
    if name == "int":
        return type(value) is int and abs(value) <= 100000
    if name == "float":
        return type(value) is float and abs(value) <= 100000 and round(value, 2) == value
    if name == "tuple":
        return type(value) is tuple and 1 <= len(value) <= 10 and all(is_of(x, "float") for x in value)
    if name == "fresh":
        return type(value) is str and value.startswith("key")
    return isinstance(value, Key) if name == "Key" else value == TYPES[name]()


def run_case(case):
    from dustgoggles.test_utils import core, random_nested_dict

    core.RNG.seed(case["seed"])
    random.seed(case["seed"])
    make = tuple if case["as_tuple"] else list
    kwargs = {"types": make(TYPES[t] for t in case["types"])}
    if case["keytypes"] is not None:
        kwargs["keytypes"] = make(TYPES[t] for t in case["keytypes"])
    if case["depth"] is not None:
        kwargs["maxdepth"] = case["depth"]
    if case["weight"] is not None:
        kwargs["branch_weight"] = case["weight"]
    result = random_nested_dict(case["quantity"], **kwargs)
    leaves, depths = [], [0]

    def walk(level, depth):
        require(type(level) is dict, "a level is a", type(level))
        for key, value in level.items():
            require(any(is_of(key, t) for t in case["keytypes"] or case["types"]), "key", key, "is of none of", case["keytypes"] or case["types"])
            if isinstance(value, dict):
                walk(value, depth + 1)
            else:
                require(any(is_of(value, t) for t in case["types"]), "value", value, "is of none of", case["types"])
                leaves.append(value)
                depths.append(depth)

    walk(result, 1)
    require(max(depths) <= (case["depth"] or 4), "the result nests", max(depths), "deep")
    require(len(leaves) <= case["quantity"], len(leaves), "values instead of", case["quantity"])
    if (case["keytypes"] or case["types"]) == ["Key"]:
        require(len(leaves) == case["quantity"], len(leaves), "values instead of", case["quantity"])
    for name in case["types"]:
        require(is_of(core.randval(TYPES[name]), name), "a random", name, "is", core.randval(TYPES[name]))
    return max(depths) > 1, [f"depth:{max(depths)}"]


def _collision():
    """two levels and two keys: a key for a level is drawn that already holds a value"""
    from dustgoggles.test_utils import core, random_nested_dict

    for seed in range(200):
        core.RNG.seed(seed)
        try:
            random_nested_dict(20, 2, types=(int,), keytypes=(lambda: core.RNG.choice("ab"),))
        except (AttributeError, TypeError):
            return True
    return False


FINDINGS = {"C43-repeated-key": _collision}
ASSUMPTIONS = ["keys below the first level of nesting are drawn from types that practically never repeat (the known finding)"]
