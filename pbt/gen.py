"""strategies shared by several properties; every generated value is plain picklable data"""
import collections
import collections.abc
import types

from hypothesis import strategies as st

# ------------------------------------------------------------------ scalars
names = st.sampled_from(["a", "b", "c", "d", "key", "x_y", "", "é", "9", "A", " a", "a.b"])
small_ints = st.integers(-3, 12)
any_ints = st.one_of(small_ints, st.integers(), st.integers(-2**70, 2**70))
finite_floats = st.floats(allow_nan=False, allow_infinity=False)
texts = st.one_of(names, st.text(max_size=8), st.text(min_size=20, max_size=60))


def skewed_sizes(small, large):
    """mostly small sizes, now and then a large one"""
    return st.one_of(
        st.integers(0, small), st.integers(0, small), st.integers(0, small),
        st.integers(small, large),
    )


# ----------------------------------------------------------------- mappings
class SubDict(dict):
    """a dict subclass"""


class Foreign(collections.abc.MutableMapping):
    """a mapping that is not a dict"""

    def __init__(self, pairs=()):
        self._d = dict(pairs)

    def __getitem__(self, key):
        return self._d[key]

    def __setitem__(self, key, value):
        self._d[key] = value

    def __delitem__(self, key):
        del self._d[key]

    def __iter__(self):
        return iter(self._d)

    def __len__(self):
        return len(self._d)

    def __eq__(self, other):
        return type(other) is Foreign and list(self.items()) == list(other.items())

    __hash__ = None

    def __repr__(self):
        return f"Foreign({self._d!r})"


MAKERS = {
    "d": dict, "o": collections.OrderedDict, "s": SubDict, "f": Foreign,
    "u": collections.UserDict, "p": lambda pairs: types.MappingProxyType(dict(pairs)),
    "c": lambda pairs: collections.ChainMap(dict(pairs)),
}
MTYPES = {
    "dict": (dict,),
    "od": (collections.OrderedDict,),
    "foreign": (dict, Foreign),
    "abc": (collections.abc.Mapping,),
    "user": (collections.UserDict, dict),
}


class Tree(tuple):
    """
    description of a nested mapping: (kind, ((key, child), ...)); anything that is not a Tree is
    a leaf. build() makes the mapping itself, afresh each time.
    """
    __slots__ = ()

    def __repr__(self):
        return f"Tree({tuple.__repr__(self)})"


def build(node):
    if not isinstance(node, Tree):
        if isinstance(node, list):
            return [build(x) for x in node]
        return node
    kind, pairs = node
    return MAKERS[kind]([(k, build(v)) for k, v in pairs])


def build_shared(node, made=None):
    """like build(), but equal branches become one and the same object"""
    if not isinstance(node, Tree):
        return build(node)
    made = {} if made is None else made
    if repr(node) not in made:
        kind, pairs = node
        made[repr(node)] = MAKERS[kind]([(k, build_shared(v, made)) for k, v in pairs])
    return made[repr(node)]


def depth(node):
    if not isinstance(node, Tree):
        return 0
    return 1 + max((depth(v) for _, v in node[1]), default=0)


def same(a, b):
    """equal in value, type and key order, at every level"""
    if type(a) is not type(b):
        return False
    if isinstance(a, collections.abc.Mapping):
        return len(a) == len(b) and all(
            same(k1, k2) and same(v1, v2)
            for (k1, v1), (k2, v2) in zip(a.items(), b.items())
        )
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(map(same, a, b))
    if isinstance(a, float):
        return a == b or (a != a and b != b)
    return a is b or a == b


def widened(tree, number, width, leaves):
    """the same tree with many more keys in one of its mappings"""
    kind, pairs = tree
    branches = [k for k, v in pairs if isinstance(v, Tree)]
    if number and branches:
        chosen = branches[number % len(branches)]
        pairs = tuple((k, widened(v, number // 2, width, leaves) if k is chosen else v) for k, v in pairs)
    else:
        more = tuple((f"w{i}", leaves[i % len(leaves)]) for i in range(width) if f"w{i}" not in [k for k, _ in pairs])
        pairs = more + pairs if number % 2 else pairs + more
    return Tree((kind, pairs))


@st.composite
def trees(draw, keys, leaves, kinds=("d",), max_depth=4, max_width=4, min_width=1, nest=45,
          spine=30):
    """
    nested mappings; now and then a long spine or a wide level. Few draws per node: shape comes
    from small integers, so that thousands of cases per second can be generated.
    """
    budget = [draw(st.sampled_from([6, 12, 25, 40]))]

    def node(level):
        kind = kinds[0] if len(kinds) == 1 else draw(st.sampled_from(kinds))
        width = draw(st.integers(0 if level >= 2 else min_width, max_width))
        pairs, seen = [], set()
        for _ in range(width):
            if budget[0] <= 0:
                break
            budget[0] -= 1
            key = draw(keys)
            for _ in range(4):
                if key not in seen:
                    break
                key = draw(keys)
            if key in seen:
                continue
            seen.add(key)
            if level + 1 < max_depth and draw(st.integers(0, 99)) >= 100 - nest:
                pairs.append((key, node(level + 1)))
            else:
                pairs.append((key, draw(leaves)))
        return Tree((kind, tuple(pairs)))

    tree = node(0)
    if draw(st.integers(0, 29)) == 17:
        more = [draw(leaves) for _ in range(3)]
        if nest:
            # branches among them, each alike
            more.append(Tree((draw(st.sampled_from(kinds)), ((draw(keys), draw(leaves)),))))
            more = more[-1:] if draw(st.booleans()) else more
        tree = widened(tree, draw(st.integers(0, 5)), draw(st.integers(21, 40)), more)
    if spine and draw(st.integers(0, 19)) == 0:
        for _ in range(draw(st.integers(3, spine))):
            kind = kinds[0] if len(kinds) == 1 else draw(st.sampled_from(kinds))
            extra = ((draw(keys), draw(leaves)),) if draw(st.booleans()) else ()
            key = draw(keys)
            pairs = tuple(p for p in extra if p[0] != key)
            inner = ((key, tree),)
            tree = Tree((kind, inner + pairs if draw(st.booleans()) else pairs + inner))
    return tree
