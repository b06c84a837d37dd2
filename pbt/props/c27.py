from hypothesis import strategies as st

from pbt.core import raises, require
from pbt.gen import names, small_ints

ID = "C27"
RULE = (
    "a sequence of assignments and reads on a HashDict with the default or a supplied equivalence; "
    "non-trivial if some key was reassigned and two different objects were equivalent"
)
QUICK, THOROUGH = 2000, 30000

EQUIVALENCES = {
    "hash": None, "type": lambda v: type(v).__name__, "str": str, "len": lambda v: len(str(v)),
    "parity": lambda v: hash(str(v)) % 2, "identity": id, "constant": lambda v: None,
    "frozen": lambda v: tuple(v) if isinstance(v, list) else v,
}
KEYS = st.one_of(names, small_ints, st.sampled_from([None, (1, 2), 1.0, True]))
HASHABLE = st.one_of(
    st.integers(0, 4), st.sampled_from([1.0, 2.0, True, False, "a", "1", "", (1,), -1, -2, None]),
    st.text(max_size=3), st.integers(2**61 - 3, 2**61 + 3),
)


@st.composite
def cases(draw):
    equivalence = draw(st.sampled_from(list(EQUIVALENCES)))
    values = HASHABLE
    if equivalence in ("type", "str", "len", "identity", "frozen", "constant"):
        values = st.one_of(HASHABLE, st.lists(st.integers(0, 2), max_size=2))
    ops = draw(
        st.lists(
            st.one_of(
                st.tuples(st.just("set"), KEYS, values),
                st.tuples(st.just("set"), st.sampled_from(["a", "b"]), values),
                st.tuples(st.just("get"), KEYS),
            ),
            min_size=1, max_size=40,
        )
    )
    return {"equivalence": equivalence, "ops": ops}


def run_case(case):
    from dustgoggles.structures import HashDict

    equivalence = EQUIVALENCES[case["equivalence"]]
    hashdict = HashDict() if equivalence is None else HashDict(equivalence)
    equivalence = equivalence or hash
    first, assigned = {}, {}
    reassigned = shared = False
    for op, key, *value in case["ops"]:
        if op == "set":
            value = value[0]
            cls = equivalence(value)
            reassigned |= key in assigned
            shared |= cls in first and first[cls] is not value
            first.setdefault(cls, value)
            assigned[key] = cls
            hashdict[key] = value
        elif key not in assigned:
            raises(KeyError, hashdict.__getitem__, key)
        else:
            require(hashdict[key] is first[assigned[key]], "key", key, "read", hashdict[key])
        text = str(hashdict)
        require(repr(hashdict) == text, "str is", text, "but repr is", repr(hashdict))
        numbers = [int(w) for w in text.split() if w.isdigit()]
        require(
            numbers == [len(assigned), len(first)], "reported", text,
            "with", len(assigned), "keys and", len(first), "classes",
        )
    for key, cls in assigned.items():
        require(hashdict[key] is first[cls], "key", key, "finally read", hashdict[key])
    return reassigned and shared, [f"equivalence:{case['equivalence']}"]


def strategy(tier):
    return cases()
