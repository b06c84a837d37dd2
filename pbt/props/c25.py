import collections

from hypothesis import strategies as st

from pbt.core import raises, require
from pbt.gen import MAKERS, Tree, build, names, same, small_ints

ID = "C25"
RULE = (
    "a nesting of dicts, lists, tuples, named tuples and attribute objects and a key path, often "
    "guided by what is there and then broken at one level; non-trivial if at least 2 keys were "
    "followed. Or a collection of mappings and one key; non-trivial if both present and missing"
)
QUICK, THOROUGH = 2500, 40000

Point = collections.namedtuple("Point", ["x", "y", "z"])


class Thing:
    """an object with attributes and no items"""

    def __init__(self, **attrs):
        self.__dict__.update(attrs)


class Both:
    """items by any key except those that raise IndexError or KeyError; also attributes"""

    def __init__(self, items, attrs):
        self._items = items
        self.__dict__.update(attrs)

    def __getitem__(self, key):
        return self._items[key]


SCALARS = st.one_of(small_ints, names, st.sampled_from([None, 1.5, False]))
ATTRS = st.sampled_from(["x", "y", "name", "real", "data"])


@st.composite
def nodes(draw, level=0):
    if level >= 5 or draw(st.integers(0, 9)) < (1 if level < 2 else 4):
        return draw(SCALARS)
    kind = draw(st.sampled_from(["dict", "dict", "list", "tuple", "point", "thing", "both", "od", "p", "u"]))
    inner = nodes(level + 1)
    if kind in ("dict", "od", "p", "u"):
        return (kind, draw(st.dictionaries(st.one_of(names, small_ints), inner, max_size=3)))
    if kind in ("list", "tuple"):
        return (kind, draw(st.lists(inner, max_size=3)))
    if kind == "point":
        return (kind, [draw(inner), draw(SCALARS), draw(SCALARS)])
    if kind == "thing":
        return (kind, draw(st.dictionaries(ATTRS, inner, max_size=3)))
    return (kind, draw(st.dictionaries(st.one_of(ATTRS, small_ints), inner, max_size=2)),
            draw(st.dictionaries(ATTRS, inner, max_size=2)))


def make(node):
    if not isinstance(node, tuple) or not node or not isinstance(node[0], str) or len(node) < 2:
        return node
    kind, content = node[0], node[1]
    if kind == "dict":
        return {k: make(v) for k, v in content.items()}
    if kind in ("p", "u"):
        return MAKERS[kind]([(k, make(v)) for k, v in content.items()])
    if kind == "od":
        return collections.OrderedDict((k, make(v)) for k, v in content.items())
    if kind == "list":
        return [make(v) for v in content]
    if kind == "tuple":
        return tuple(make(v) for v in content)
    if kind == "point":
        return Point(*[make(v) for v in content])
    if kind == "thing":
        return Thing(**{k: make(v) for k, v in content.items()})
    return Both({k: make(v) for k, v in content.items()}, {k: make(v) for k, v in node[2].items()})


BAD_KEYS = st.sampled_from(["nope", 99, -99, None, (1,), 1.5, "keys", "append", "real", True])


@st.composite
def get_cases(draw):
    node = draw(nodes())
    path, here = [], node
    for _ in range(draw(st.integers(0, 6))):
        if draw(st.integers(0, 9)) == 0:
            path.append(draw(st.one_of(BAD_KEYS, names, small_ints)))
            continue
        options = {}
        if isinstance(here, tuple) and len(here) >= 2 and isinstance(here[0], str):
            kind, content = here[0], here[1]
            if kind in ("dict", "od", "p", "u", "thing", "both"):
                options = dict(content)
                if kind == "both":
                    options = here[2] | options
            elif kind in ("list", "tuple"):
                options = dict(enumerate(content)) | {
                    -1 - i: v for i, v in enumerate(reversed(content))
                }
            elif kind == "point":
                options = dict(zip("xyz", content)) | dict(enumerate(content))
        if options:
            key = draw(st.sampled_from(list(options)))
            path.append(key)
            here = options[key]
        else:
            if draw(st.booleans()):
                break
            path.append(draw(st.one_of(BAD_KEYS, names)))
            here = None
    if draw(st.integers(0, 29)) == 17:
        # far down
        for i in range(draw(st.integers(19, 35))):
            kind, key = draw(st.sampled_from([("dict", "k"), ("list", 0), ("thing", "x"), ("od", 3), ("tuple", -1)]))
            if kind in ("list", "tuple"):
                node = (kind, [node])
            else:
                node = (kind, {key: node})
            path.insert(0, key)
    # True and False index sequences; keep them as keys all the same
    return {
        "kind": "get", "node": node, "path": path,
        "default": draw(st.sampled_from(["omit", None, 0, "dflt"])),
        "form": draw(st.sampled_from(["list", "tuple", "iter", "keys", "deque", "text"])),
    }


@st.composite
def all_cases(draw):
    key = draw(st.one_of(names, small_ints))
    mappings = draw(
        st.lists(
            st.one_of(
                st.dictionaries(st.one_of(names, small_ints), SCALARS, max_size=4),
                st.builds(lambda v: {key: v}, SCALARS),
            ),
            max_size=6,
        )
    )
    if draw(st.integers(0, 29)) == 17 and mappings:
        mappings = mappings * draw(st.integers(11, 30))
    return {
        "kind": "all", "key": key, "mappings": mappings,
        "as": draw(st.sampled_from(["list", "tuple", "dict", "od", "gen", "p", "f", "u", "c", "view"])),
        "default": draw(st.sampled_from(["omit", None, "dflt"])),
        "kinds": draw(st.sampled_from(["d", "dopfuc"])),
    }


def strategy(tier):
    return st.one_of(get_cases(), get_cases(), all_cases())


MISSING = object()


def one_level(obj, key):
    try:
        return obj[key]
    except (KeyError, IndexError, TypeError):
        pass
    if isinstance(key, str) and hasattr(obj, key):
        return getattr(obj, key)
    return MISSING


def path_as(form, path):
    if form == "keys" and len(set(path)) == len(path):
        return dict.fromkeys(path)
    if form == "text" and all(isinstance(key, str) and len(key) == 1 for key in path):
        return "".join(path)
    return {"tuple": tuple, "iter": iter, "deque": collections.deque}.get(form, list)(path)


def run_get(case):
    from dustgoggles.structures import get_from, getitemattr

    obj = make(case["node"])
    want, steps = obj, 0
    for key in case["path"]:
        below = one_level(want, key)
        if below is MISSING:
            raises(Exception, getitemattr, want, key)
            want = None if case["default"] == "omit" else case["default"]
            found = False
            break
        require(
            is_same(getitemattr(want, key), below), "getitemattr", key, "of", want, "wrong"
        )
        want, steps = below, steps + 1
    else:
        found = True
    extra = () if case["default"] == "omit" else (case["default"],)
    got = get_from(obj, path_as(case["form"], case["path"]), *extra)
    require(is_same(got, want), "path", case["path"], "gave", got, "instead of", want)
    return steps >= 2, [f"found:{found}", f"steps:{min(steps, 6)}"]


def is_same(a, b):
    # bound methods and immutable items are equal rather than identical
    return a is b or (type(a) is type(b) and a == b)


def run_all(case):
    from dustgoggles.structures import get_from_all

    key, kinds = case["key"], case["kinds"]
    mappings = [MAKERS[kinds[i % len(kinds)]](m.items()) for i, m in enumerate(case["mappings"])]
    collection = {
        "list": lambda: list(mappings), "tuple": lambda: tuple(mappings),
        "dict": lambda: dict(enumerate(mappings)),
        "od": lambda: collections.OrderedDict((str(i), m) for i, m in enumerate(mappings)),
        "gen": lambda: (m for m in mappings), "view": lambda: dict(enumerate(mappings)).values(),
        **{k: lambda k=k: MAKERS[k](enumerate(mappings)) for k in "pfuc"},
    }[case["as"]]()
    default = None if case["default"] == "omit" else case["default"]
    extra = () if case["default"] == "omit" else (default,)
    got = get_from_all(key, collection, *extra)
    want = [m[key] if key in m else default for m in mappings]
    require(type(got) is list and same(got, want), "got", got, "instead of", want)
    present = sum(key in m for m in mappings)
    return 0 < present < len(mappings), ["all", f"as:{case['as']}"]


def run_case(case):
    return run_get(case) if case["kind"] == "get" else run_all(case)
