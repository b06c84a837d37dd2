from pbt.core import require
from pbt.gen import MTYPES, build, build_shared, depth, same
from pbt.props._dig import all_matches, call_args, dig_cases, pair_same, satisfied

ID = "C20"
RULE = (
    "one nested mapping, query and mapping types as in C19; non-trivial if the breadth-first first "
    "match is not the one a depth-first search meets first"
)
QUICK, THOROUGH = 2000, 30000
strategy = lambda tier: dig_cases(dense=True)


def breadth_first(mapping, query, mtypes):
    queue = [mapping]
    while queue:
        nest = queue.pop(0)
        for k, v in nest.items():
            if satisfied(query, k, v):
                return k, v
        queue += [v for v in nest.values() if isinstance(v, mtypes)]
    return None


def depth_first(mapping, query, mtypes):
    for k, v in mapping.items():
        if satisfied(query, k, v):
            return k, v
    for v in mapping.values():
        if isinstance(v, mtypes):
            found = depth_first(v, query, mtypes)
            if found is not None:
                return found
    return None


def run_case(case):
    from dustgoggles.structures import dig_for_item, dig_for_key, dig_for_value, dig_for_items

    mapping, pristine = (build_shared if case["shared"] else build)(case["tree"]), build(case["tree"])
    mtypes = MTYPES[case["mtypes"]]
    args, kwargs = call_args(case["query"])
    if case["mtypes"] != "dict":
        kwargs = kwargs | {"mtypes": mtypes}
    expected = breadth_first(mapping, case["query"], mtypes)
    item = dig_for_item(mapping, *args, **kwargs)
    key = dig_for_key(mapping, *args, **kwargs)
    value = dig_for_value(mapping, *args, **kwargs)
    require(same(mapping, pristine), "the searched mapping changed")
    everything = dig_for_items(mapping, *args, **kwargs)
    if expected is None:
        require(
            item is None and key is None and value is None and everything is None,
            "found", (item, key, value, everything), "where nothing matches",
        )
    else:
        require(item is not None and pair_same(item, expected), "item", item, "not", expected)
        require(same(key, expected[0]), "key", key, "not", expected[0])
        require(same(value, expected[1]), "value", value, "not", expected[1])
        require(
            any(pair_same(item, other) for other in everything),
            "the single match is not among all matches",
        )
    naive = depth_first(mapping, case["query"], mtypes)
    differs = expected is not None and not (naive[0] is expected[0] and naive[1] is expected[1])
    return differs, [
        f"query:{case['query'][0]}", "found" if expected is not None else "absent",
        f"depth:{min(depth(case['tree']), 6)}",
    ]


def _item_constant():
    from dustgoggles.structures import dig_for_item

    try:
        return dig_for_item({"a": 1}, ("a", 1), match="item") != ("a", 1)
    except TypeError:
        return True


FINDINGS = {"C20-item-constant": _item_constant}
