import json

from hypothesis import strategies as st

from pbt.core import require
from pbt.props import _shm, c03
from pbt.props._shm import Raised, ensure

ID = "C08"
RULE = (
    "either one value through one codec, or one history of stores (values of 2 bytes to 70 kB by three codecs, arrays of 30 "
    "dtypes and 18 shapes, exists_ok or not) and fetches (values, blocks, copies and views) at two addresses by two "
    "processes; non-trivial if the value is a container, or something was replaced by an encoding of another length and "
    "fetched afterwards"
)
QUICK, THOROUGH = 500, 12000
CASE_TIMEOUT = 60
text = st.text(max_size=8) | st.text(st.characters(), max_size=4) | st.sampled_from(
    ["'", '"', "\\", "\\'\"", "\n", "\0", "{}", "None", "é", "\ud800", "\U0001f600", "x" * 3000, "b'a'", "\u2028", "\\x41"])
numbers = st.integers() | st.integers(-2**200, 2**200) | st.sampled_from([10**4000, -10**300, 2**63, -2**63, 0, -1])
floats = st.floats(allow_nan=False, allow_infinity=False) | st.sampled_from([-0.0, 5e-324, 1.7976931348623157e308, 0.1, 1e16, 1e22])
json_leaves = st.none() | st.booleans() | numbers | floats | text | st.sampled_from([float("inf"), float("-inf")])
json_values = st.recursive(json_leaves, lambda c: st.lists(c, max_size=4) | st.dictionaries(text, c, max_size=4), max_leaves=12)
binary = st.binary(max_size=8) | st.sampled_from([b"'", b'"', b"\\", b"\0\xff", b"'\""])
flat = st.none() | st.booleans() | numbers | floats | text | binary | st.complex_numbers(allow_nan=False, allow_infinity=False) | st.sampled_from([1j, -1j, 0j, 1e300 - 1e-300j])
hashable = st.recursive(flat, lambda c: st.tuples() | st.tuples(c) | st.tuples(c, c), max_leaves=3)
literals = st.recursive(flat, lambda c: (
    st.lists(c, max_size=4) | st.tuples() | st.tuples(c) | st.tuples(c, c) | st.sets(hashable, max_size=3)
    | st.dictionaries(hashable, c, max_size=4)), max_leaves=12)
VALUES = {"json": json_values, "literal": literals, "pickle": _shm.picklables | literals}


def equal(a, b):
    """equal values of the same type, all the way down"""
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(map(equal, a, b))
    if isinstance(a, dict):
        return len(a) == len(b) and all(equal(k, m) and equal(v, w) for (k, v), (m, w) in zip(a.items(), b.items()))
    if isinstance(a, (set, frozenset)):
        return a == b and sorted(map(kinds, a)) == sorted(map(kinds, b))
    return a == b


def kinds(x):
    if isinstance(x, (tuple, frozenset)):
        return f"{type(x).__name__}({','.join(map(kinds, x))})"
    return type(x).__name__


def codec(name):
    from dustgoggles.codex import codecs

    return {"json": codecs.json_codec_factory, "literal": codecs.ast_codec_factory, "pickle": codecs.pickle_codec_factory}[name]()


def encoded(name, value):
    blob = codec(name)[0](value)
    require(type(blob) is bytes, name, "encoded", value, "as", type(blob))
    return blob


def _store(state, address, name, value, exists_ok):
    """returns what a fetch needs, and the encoding"""
    from dustgoggles.codex import codecs

    if name == "array":
        memorize, _ = codecs.numpy_mnemonic_factory()
        array = c03.array(value)
        metadata, block = memorize(array, address, exists_ok, value[2] % 2 == 0)
        require((block is None) == (value[2] % 2 == 1), "keep_open", value[2] % 2 == 0, "gave the block", block)
        return json.dumps(metadata), array.tobytes()
    memorize, _ = codecs.generic_mnemonic_factory()
    # encoded here: a set may list its elements in another order once it has been sent somewhere else
    return memorize(value, address, exists_ok, codec(name)[0]), encoded(name, value)


def _fetch(state, address, name, ticket, how):
    from dustgoggles.codex import codecs

    if name == "array":
        _, remember = codecs.numpy_mnemonic_factory()
        if how == "block":
            block = remember(ticket, False)
            return bytes(block.buf)
        array, block = remember(ticket, True, how == "value")
        require(how != "value" or array.flags.writeable, "a copy that cannot be written")
        require((block is None) == (how == "value"), "remembering a copy", how == "value", "gave the block", block)
        return c03.facts(array)
    _, remember = codecs.generic_mnemonic_factory()
    if how == "block":
        block = remember(address, False)
        return bytes(block.buf)
    return remember(address, True, codec(name)[1]) if how == "value" else remember(address, decode=codec(name)[1])


VERBS = {"store": _store, "fetch": _fetch}


@st.composite
def histories(draw):
    spec = st.tuples(st.sampled_from(c03.DTYPES), st.sampled_from(c03.SHAPES + c03.BIG[:2]), st.integers(0, 10**6),
                     st.sampled_from(["plain", "fortran", "strided", "reversed", "readonly"]))
    thing = st.one_of(*(st.tuples(st.just(n), VALUES[n]) for n in VALUES), st.tuples(st.just("array"), spec),
                      st.tuples(st.just("array"), spec))
    where, home = st.integers(0, 1), st.integers(0, 1)
    one = st.one_of(
        st.tuples(st.just("store"), where, home, thing, st.sampled_from([True, True, True, False])),
        st.tuples(st.just("store"), where, home, thing, st.sampled_from([True, True, True, False])),
        st.tuples(st.just("fetch"), where, home, st.sampled_from(["value", "view", "block"])),
    )
    return {"ops": draw(st.lists(one, min_size=2, max_size=10))}


@st.composite
def single(draw):
    name = draw(st.sampled_from(list(VALUES)))
    return {"codec": name, "value": draw(VALUES[name])}


def strategy(tier):
    return st.one_of(single(), histories())


def setup():
    global cast
    cast = _shm.Cast(VERBS, remotes=1)


def teardown():
    cast.stop()


def run_single(name, value):
    encode, decode = codec(name)
    blob = encoded(name, value)
    back = decode(blob)
    require(equal(back, value), name, "turned", value, "into", back, "by way of", blob[:200])
    # the other half of another pair does the same
    require(equal(codec(name)[1](blob), value), "another decoder disagrees on", value)
    return isinstance(value, (list, dict, tuple, set)), [name, f"{name}: {type(value).__name__}"]


def run_case(case):
    if "codec" in case:
        return run_single(case["codec"], case["value"])
    prefix = _shm.fresh_prefix()
    stored = {}     # address index -> (codec, value, ticket, length of the encoding)
    replaced = nontrivial = False
    try:
        def check(i, home, how):
            nonlocal nontrivial
            name, value, ticket, blob = stored[i]
            got = ensure(cast[home].do("fetch", prefix + str(i), name, ticket, how), "fetching", value)
            nontrivial |= replaced
            if name == "array":
                facts = c03.facts(c03.array(value))
                if how == "block":
                    require(c03.clean(got[:len(blob)], value[0]) == facts[2], "the block of", value, "holds", got[:50])
                else:
                    require(got == facts, "the array", value, "came back as", got[:2], got[2][:50])
            elif how == "block":
                require(got == blob, "the block of", value, "holds", got[:100], "instead of", blob[:100])
            else:
                require(equal(got, value), name, "stored", value, "and fetched", got)

        for op in case["ops"]:
            verb, i, home = op[:3]
            if verb == "fetch":
                if i in stored:
                    check(i, home, op[3])
                continue
            (name, value), exists_ok = op[3:]
            before = _shm.snapshot(prefix)
            result = cast[home].do("store", prefix + str(i), name, value, exists_ok)
            if i in stored and not exists_ok:
                require(isinstance(result, Raised) and result.isa("FileExistsError"), "storing over an existing block gave", result)
                require(before == _shm.snapshot(prefix), "a refused store changed something")
            else:
                result, blob = ensure(result, "storing", value, "with", name)
                replaced |= i in stored and len(stored[i][3]) != len(blob)
                stored[i] = (name, value, result, blob)
                require(_shm.blocks(prefix) == {prefix + str(j) for j in stored}, "blocks", _shm.blocks(prefix))
            for j in stored:
                check(j, 1 - home, "value")
        for j in stored:
            for how in ("view", "block"):
                check(j, 0, how)
        return nontrivial, ["history", "replaced" if replaced else ""]
    except BaseException:
        _shm.wipe(prefix)
        cast.revive()
        raise
    finally:
        _shm.wipe(prefix)


ASSUMPTIONS = [
    "integers have at most 4300 digits and values nest at most as deep as Python's own serialisers allow; a complex "
    "number's parts may lose the sign of zero (they still compare equal); arrays as in C03",
]
