import json

from hypothesis import strategies as st

from pbt.core import require
from pbt.props import _shm
from pbt.props._shm import Raised, ensure, same

ID = "C04"
RULE = (
    "one history of adds (with and without metadata, exists_ok or not), re-adds, removals, bulk adds of up to 300 keys, "
    "bulk removals in any order, reopenings and lookups on one TagIndex or MetaTagIndex, locked or not, through up to five "
    "handles in three processes; non-trivial if a key was removed that was not in the last slot, and something was looked "
    "up afterwards"
)
QUICK, THOROUGH = 250, 3000
CASE_TIMEOUT = 90
keys = st.one_of(
    _shm.keys, _shm.keys,
    st.text(st.characters(exclude_categories=("Cs",)), min_size=1, max_size=300),
    st.sampled_from(["index", "index_1", "/", "a/b", "\0", "a\0", "\n", "..", "a" * 5000, "key_0", "0", "name_0", "b'a'"]),
)


def _open(state, handle, name, kind, no_lockout, create):
    from dustgoggles.codex import implements

    if handle in state:
        state.setdefault("old", []).append(state[handle])
    state[handle] = getattr(implements, kind)(name, create=create, no_lockout=no_lockout)


def _add(state, handle, key, value, exists_ok):
    kwargs = {} if exists_ok is None else {"exists_ok": exists_ok}
    if value is None:
        return state[handle].add(key, **kwargs)
    return state[handle].add(key, value, **kwargs)


def _remove(state, handle, key, how):
    if how == "del":
        del state[handle][key]
    else:
        state[handle].remove(key)


def _look(state, handle, keys):
    """everything the index says"""
    index = state[handle]
    out = {"update": list(index.update()), "slots": [index.check(k) for k in keys]}
    if hasattr(index, "items"):
        out |= {"keys": list(index.keys()), "values": list(index.values()), "items": [tuple(i) for i in index.items()]}
    return out


BAD = {"set": lambda: {"a": {1}}, "bytes": lambda: [b"a"], "object": object, "text": lambda: "text", "list": lambda: [1, "a"]}


def _misadd(state, handle, key, kind, exists_ok):
    state[handle].add(key, BAD[kind](), exists_ok=exists_ok)


VERBS = {
    "misadd": _misadd,
    "open": _open, "add": _add, "remove": _remove, "look": _look,
    "raw": lambda s, h, k: s[h][k],
    "check": lambda s, h, k: s[h].check(k),
    "adds": lambda s, h, ks: [s[h].add(k) for k in ks],
    "removes": lambda s, h, ks: [s[h].remove(k) for k in ks][:0],
}


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(["TagIndex", "MetaTagIndex", "MetaTagIndex"]))
    handles = draw(st.sampled_from([1, 2, 3, 5]))
    pool = draw(_shm.key_pools(1, draw(st.sampled_from([2, 4, 8])), keys))
    key, handle = st.sampled_from(pool), st.integers(0, handles - 1)
    value = st.one_of(st.none(), _shm.json_values, st.sampled_from([0, False, "", [], {}])) if kind == "MetaTagIndex" else st.none()
    ok = st.sampled_from([None, None, True, False])
    big = draw(st.integers(0, 24)) == 0
    one = st.one_of(
        st.tuples(st.just("add"), handle, key, value, ok),
        st.tuples(st.just("add"), handle, key, value, ok),
        st.tuples(st.just("add"), handle, key, value, ok),
        st.tuples(st.just("remove"), handle, key, st.sampled_from(["del", "remove"])),
        st.tuples(st.just("remove"), handle, key, st.sampled_from(["del", "remove"])),
        st.tuples(st.just("adds"), handle, st.integers(0, 3), st.integers(257, 300) if big else st.integers(1, 20)),
        st.tuples(st.just("removes"), handle, st.integers(0, 3), st.integers(1, 12), st.integers(0, 10**6)),
        st.tuples(st.just("reopen"), handle),
        st.tuples(st.just("look"), handle),
        # metadata that this index cannot hold
        st.tuples(st.just("misadd"), handle, key, st.sampled_from(["set", "bytes", "object"] if kind == "MetaTagIndex" else list(BAD)),
                  st.booleans()),
    )
    if draw(st.booleans()):  # no bulk operations, and more lookups of single keys
        one = one.filter(lambda o: o[0] not in ("adds", "removes"))
    low, high = draw(st.sampled_from([(2, 8), (8, 16), (16, 40)]))
    first = []
    if big:
        # positions of two bytes, and moves from there to positions of one
        which = draw(st.integers(0, 3))
        first = [("adds", draw(handle), which, draw(st.integers(257, 275))),
                 ("removes", draw(handle), which, draw(st.integers(1, 12)), draw(st.integers(0, 10**6)))]
    return {
        "kind": kind, "no_lockout": draw(st.booleans()),
        "homes": [0] + draw(st.lists(st.integers(0, 2), min_size=handles - 1, max_size=handles - 1)),
        "ops": first + draw(st.lists(one, min_size=min(low, 8), max_size=8 if big else high)),
    }


def strategy(tier):
    return cases()


def setup():
    global cast
    cast = _shm.Cast(VERBS)


def teardown():
    cast.stop()


def run_case(case):
    prefix, homes, meta = _shm.fresh_prefix(), case["homes"], case["kind"] == "MetaTagIndex"
    name = f"{prefix}_index"
    model = {}      # key: metadata
    order = []      # slot order, only to know whether a removal moves a key
    moved = looked = False

    def do(h, verb, *args):
        return cast[homes[h]].do(verb, h, *args)

    def look(h):
        ask = sorted({str(o[2]) for o in case["ops"] if o[0] in ("add", "remove", "misadd")} | set(model))
        out = ensure(do(h, "look", ask), "listing")
        require(sorted(out["update"]) == sorted(model), "update gave", out["update"], "instead of", sorted(model))
        slots = dict(zip(ask, out["slots"]))
        taken = []
        for key, slot in slots.items():
            if key in model:
                require(type(slot) is int and slot in range(len(model)), "slot of", key, "is", slot, "of", len(model))
                taken.append(slot)
            else:
                require(slot is None, "absent", key, "has slot", slot)
        require(len(set(taken)) == len(taken), "slots", slots)
        if meta:
            require(sorted(out["keys"]) == sorted(model), "keys gave", out["keys"], "instead of", sorted(model))
            require(len(out["values"]) == len(out["items"]) == len(model), "lengths", out)
            require([k for k, _ in out["items"]] == out["keys"], "items", out["items"], "keys", out["keys"])
            for (key, value), alone in zip(out["items"], out["values"]):
                require(same(value, model[key]), "metadata of", key, "is", value, "instead of", model[key])
                require(same(alone, value), "values", alone, "items", value)

    try:
        for h in range(len(homes)):
            ensure(do(h, "open", name, case["kind"], case["no_lockout"], h == 0), "opening")
        for op in case["ops"]:
            verb, h = op[0], op[1]
            other = (h + 1) % len(homes)
            if verb == "add":
                key = str(op[2])
                result = do(h, "add", *op[2:])
                if key in model and op[4] is False:
                    require(isinstance(result, Raised) and result.isa("FileExistsError"), "re-adding", key, "gave", result)
                else:
                    ensure(result, "adding", key)
                    if key not in model:
                        order.append(key)
                        model[key] = None
                    if op[3] is not None:
                        model[key] = json.loads(json.dumps(op[3]))
                require(ensure(do(other, "check", op[2]), "check") in range(len(model)), "a present key has no slot")
            elif verb == "misadd":
                require(isinstance(result := do(h, "misadd", *op[2:]), Raised), "adding", op[2:], "did not raise")
            elif verb == "remove":
                key = str(op[2])
                result = do(h, "remove", *op[2:])
                if key in model:
                    ensure(result, "removing", key)
                    spot = order.index(key)
                    moved |= spot != len(order) - 1
                    order[spot] = order[-1]
                    order.pop()
                    del model[key]
                else:
                    require(isinstance(result, Raised) and result.isa("KeyError"), "removing absent", key, "gave", result)
                require(ensure(do(other, "check", op[2]), "check") is None, "a removed key has a slot")
            elif verb == "adds":
                new = [f"bulk{op[2]}.{i}" for i in range(op[3])]
                ensure(do(h, "adds", new), "adding")
                for key in new:
                    if key not in model:
                        order.append(key)
                        model[key] = None
            elif verb == "removes":
                gone = []
                for i in range(op[3]):
                    if not order:
                        break
                    spot = (op[4] * (i + 7) + op[2]) % len(order)
                    gone.append(order[spot])
                    moved |= spot != len(order) - 1
                    order[spot] = order[-1]
                    order.pop()
                ensure(do(h, "removes", gone), "removing", gone)
                for key in gone:
                    del model[key]
            elif verb == "reopen":
                ensure(do(h, "open", name, case["kind"], case["no_lockout"], False), "reopening")
            else:
                look(h)
            look(other)
            looked |= moved
        for h in range(len(homes)):
            look(h)
        if meta:
            for key, value in list(model.items())[:20]:
                if value is not None:
                    raw = ensure(do(0, "raw", key), "getting", key)
                    require(same(json.loads(raw), value), "raw metadata of", key, "is", raw, "instead of", value)
            require(isinstance(raw := do(0, "raw", "surely absent"), Raised) and raw.isa("KeyError"), "absent key gave", raw)
        return looked, [
            case["kind"], f"processes:{len(set(homes))}", "moved" if moved else "", "over 256 keys" if len(model) > 256 else "",
        ]
    except BaseException:
        _shm.wipe(prefix)
        cast.revive()
        raise
    finally:
        _shm.wipe(prefix)
        cast.drop()


ASSUMPTIONS = [
    "indexes are TagIndex and MetaTagIndex (a FakeIndex lists nothing by design); keys are non-empty strings that UTF-8 "
    "can encode, or integers, which stand for their decimal strings; metadata is JSON-stable; operations do not overlap",
]
