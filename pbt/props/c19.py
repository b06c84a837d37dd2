from pbt.core import require
from pbt.gen import MTYPES, build, build_shared, depth, same
from pbt.props._dig import all_matches, call_args, dig_cases

ID = "C19"
RULE = (
    "one nested mapping (dict, OrderedDict, dict subclass, UserDict, foreign Mapping levels), one "
    "query form, one tuple of mapping types; non-trivial if there are at least 2 matches on at "
    "least 2 levels"
)
QUICK, THOROUGH = 1500, 25000
strategy = lambda tier: dig_cases()


def run_case(case):
    from dustgoggles.structures import dig_for_items, dig_for_keys, dig_for_values

    mapping, pristine = (build_shared if case["shared"] else build)(case["tree"]), build(case["tree"])
    mtypes = MTYPES[case["mtypes"]]
    args, kwargs = call_args(case["query"])
    if case["mtypes"] != "dict":
        kwargs = kwargs | {"mtypes": mtypes}
    expected = all_matches(mapping, case["query"], mtypes)
    for func, pick in (
        (dig_for_items, lambda k, v: (k, v)),
        (dig_for_keys, lambda k, v: k),
        (dig_for_values, lambda k, v: v),
    ):
        found = func(mapping, *args, **kwargs)
        if not expected:
            require(found is None, func.__name__, "found", found, "where nothing matches")
            continue
        wanted = [pick(k, v) for _, k, v in expected]
        require(isinstance(found, list), func.__name__, "did not return a list")
        require(
            len(found) == len(wanted) and all(map(same, found, wanted)),
            func.__name__, "found", found, "instead of", wanted,
        )
        require(same(mapping, pristine), func.__name__, "changed the searched mapping")
    levels = {level for level, _, _ in expected}
    return len(expected) > 1 and len(levels) > 1, [
        f"query:{case['query'][0]}", f"mtypes:{case['mtypes']}",
        f"matches:{min(len(expected), 5)}", f"depth:{min(depth(case['tree']), 6)}",
    ]


def _item_constant():
    from dustgoggles.structures import dig_for_items

    try:
        return dig_for_items({"a": 1}, ("a", 1), match="item") != [("a", 1)]
    except TypeError:
        return True


FINDINGS = {"C19-item-constant": _item_constant}
