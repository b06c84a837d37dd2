import array
import collections
import enum
import itertools
import pickle
import types

from hypothesis import strategies as st

from pbt.core import raises, require
from pbt.gen import Foreign, names, same, small_ints

ID = "C26"
RULE = (
    "one helper (listify, enumerate_as_mapping, reindex_mapping, insert_after, separate_by) with "
    "one collection or mapping of any kind; non-trivial if the collection has at least 2 elements"
)
QUICK, THOROUGH = 2500, 40000

ITEMS = st.one_of(small_ints, names, st.sampled_from([None, 1.5, (1, 2), True, 0]))
KEYS = st.one_of(names, small_ints, st.sampled_from([None, (1, 2), 1.5]))
SEQS = st.one_of(st.lists(ITEMS, max_size=30), st.integers(20, 60).map(lambda n: list(range(n))))
COLLECTIONS = {
    "list": list, "tuple": tuple, "dict": lambda xs: dict.fromkeys(xs, 1),
    "deque": collections.deque, "set": set, "frozenset": frozenset,
    "keys": lambda xs: dict.fromkeys(xs).keys(), "values": lambda xs: dict(enumerate(xs)).values(),
    "range": lambda xs: range(len(xs)), "foreign": lambda xs: Foreign(dict.fromkeys(xs, 2)),
    "bytes": lambda xs: bytes(range(len(xs))), "bytearray": lambda xs: bytearray(range(len(xs))),
    "ints": lambda xs: array.array("h", range(len(xs))), "user list": collections.UserList,
    "items": lambda xs: dict(enumerate(xs)).items(), "chain": lambda xs: collections.ChainMap({}, dict.fromkeys(xs)),
    "subclass": lambda xs: Listed(xs), "named": lambda xs: Pair(len(xs), xs), "sized": lambda xs: Sized(xs),
}


class Listed(list):
    pass


class Text(str):
    pass


class Named(str, enum.Enum):
    MEMBER = "member"


class Sized:
    """all a collection needs, and no more"""

    def __init__(self, elements):
        self.elements = list(elements)

    def __iter__(self):
        return iter(self.elements)

    def __len__(self):
        return len(self.elements)

    def __contains__(self, thing):
        return thing in self.elements


class Sequential:
    """can be iterated over, but is no collection"""

    def __init__(self, elements):
        self.elements = elements

    def __getitem__(self, n):
        return self.elements[n]

    def __len__(self):
        return len(self.elements)


# things that hold elements but are no collections
LAZY = {
    "iter": iter, "generator": lambda xs: (x for x in xs), "map": lambda xs: map(str, xs), "zip": zip, "reversed": reversed,
    "enumerate": enumerate, "sequential": Sequential, "chain": itertools.chain, "keys": lambda xs: iter(dict.fromkeys(xs)),
}
Pair = collections.namedtuple("Pair", ["one", "other"])
MAPPINGS = {
    "dict": dict, "od": collections.OrderedDict, "foreign": Foreign,
    "proxy": lambda d: types.MappingProxyType(dict(d)), "user": collections.UserDict,
}
ATOMS = st.one_of(
    st.text(max_size=5), st.integers(), st.floats(allow_nan=False),
    st.sampled_from([None, True, len, int, Ellipsis, "", Text("ab"), Named.MEMBER, "x" * 50, 1j]),
)
PREDICATES = {
    "truthy": bool, "int": lambda x: isinstance(x, int), "value": lambda x: x,
    "one": lambda x: 1 if x else 0, "true": lambda x: x is True, "none": lambda x: None,
    "positive": lambda x: isinstance(x, (int, float)) and x > 0,
}

dicts = st.one_of(
    st.dictionaries(KEYS, ITEMS, max_size=20),
    st.integers(21, 50).flatmap(lambda n: ITEMS.map(lambda x: {**{i: i for i in range(n)}, "last": x})))


def strategy(tier):
    return st.one_of(
        st.tuples(st.just("listify"), st.sampled_from(list(COLLECTIONS)), SEQS),
        st.tuples(st.just("listify"), st.just("atom"), ATOMS),
        st.tuples(st.just("listify_lazy"), st.sampled_from(list(LAZY)), SEQS),
        st.tuples(st.just("enumerate"), st.sampled_from(["list", "tuple", "gen", "str", "deque"]), SEQS),
        st.tuples(st.just("enumerate_mapping"), st.sampled_from(list(MAPPINGS)), dicts),
        st.tuples(st.just("reindex"), st.sampled_from(list(MAPPINGS)), dicts),
        st.tuples(st.just("reindex_bad"), st.sampled_from(["list", "tuple", "set", "atom"]), SEQS),
        st.tuples(st.just("insert"), st.sampled_from(list(MAPPINGS)), dicts,
                  st.integers(0, 40), KEYS, ITEMS),
        st.tuples(st.just("separate"), st.sampled_from(["list", "tuple", "dict", "gen"]), SEQS,
                  st.sampled_from(list(PREDICATES))),
    )


def twin(key):
    """an equal key that is another object where the type allows it"""
    if type(key) is int and abs(key) < 2**53:
        return float(key)
    if type(key) is float and key.is_integer():
        return int(key)
    return pickle.loads(pickle.dumps(key))


def run_case(case):
    from dustgoggles import structures as s

    op, kind, content = case[:3]
    size = len(content) if hasattr(content, "__len__") else 1
    if op == "listify_lazy":
        thing = LAZY[kind](content)
        got = s.listify(thing)
        require(type(got) is list and len(got) == 1 and got[0] is thing, "listify of", thing, "gave", got)
        if kind in ("iter", "generator", "reversed"):
            require(same(list(thing), content[::-1] if kind == "reversed" else content), "listify used up", thing)
        return len(content) > 1, [op]
    if op == "listify":
        if kind == "atom":
            require(same(s.listify(content), [content]), "listify wrapped", content, "wrongly")
            return False, ["listify:atom"]
        collection = COLLECTIONS[kind](content)
        got = s.listify(collection)
        require(type(got) is list and got is not collection, "listify gave", type(got))
        require(same(got, list(iter(collection))), "listify gave", got)
        got.append("sentinel")
        require("sentinel" not in list(collection), "listify aliases its input")
    elif op == "enumerate":
        make = {"gen": iter, "str": lambda xs: "".join(map(str, xs)),
                "deque": collections.deque, "list": list, "tuple": tuple}[kind]
        elements = list(make(content))
        got = s.enumerate_as_mapping(make(content))
        require(same(list(got.keys()), list(range(len(elements)))), "keys", got)
        require(same(list(got.values()), elements), "values", got)
        require(s.enumerate_as_mapping(None) == {}, "None did not become an empty mapping")
    elif op == "enumerate_mapping":
        mapping = MAPPINGS[kind](content)
        require(s.enumerate_as_mapping(mapping) is mapping, "a mapping was not left as it is")
        require(same(dict(mapping), content), "the mapping changed")
    elif op == "reindex":
        mapping = MAPPINGS[kind](content)
        got = s.reindex_mapping(mapping)
        require(got is not mapping, "reindexing returned its input")
        require(same(list(got.keys()), list(range(len(content)))), "keys", got)
        require(same(list(got.values()), list(content.values())), "values", got)
        require(same(dict(mapping), content), "the mapping changed")
    elif op == "reindex_bad":
        thing = {"list": list, "tuple": tuple, "set": set, "atom": len}[kind](content)
        raises((AssertionError, TypeError, ValueError), s.reindex_mapping, thing)
    elif op == "insert":
        at, new_key, new_value = case[3:]
        mapping = MAPPINGS[kind](content)
        keys = list(content)
        if not keys or at >= 35:
            got = s.insert_after("new!", new_value, "absent!", mapping)
            require(same(dict(got), content) and list(got) == keys, "absent prior key gave", got)
            return False, ["insert:absent"]
        prior = keys[at % len(keys)]
        if new_key in content:
            new_key = ("fresh", new_key)
        got = s.insert_after(new_key, new_value, twin(prior), mapping)
        want = []
        for k in keys:
            want.append((k, content[k]))
            if k == prior:
                want.append((new_key, new_value))
        require(same(list(got.items()), want), "inserted to", got, "instead of", want)
        require(same(dict(mapping), content), "the mapping changed")
    else:
        predicate = PREDICATES[case[3]]
        make = {"list": list, "tuple": tuple, "gen": iter,
                "dict": lambda xs: dict.fromkeys(xs)}[kind]
        elements = list(make(content))
        hits, misses = s.separate_by(make(content), predicate)
        require(same(list(hits), [x for x in elements if predicate(x) is True]), "hits", hits)
        require(
            same(list(misses), [x for x in elements if predicate(x) is not True]),
            "misses", misses,
        )
    return size >= 2, [f"{op}:{kind}"]
