from hypothesis import strategies as st

from pbt.core import Violation, require
from pbt.props import _shm
from pbt.props._shm import Raised, ensure

ID = "C03"
RULE = (
    "one history of array sets (any of 30 dtypes in both byte orders, 0 to 4 dimensions, empty, strided and transposed, "
    "up to 100 kB), overwrites with other shapes, sizes and dtypes, deletes, clears, reopenings, copied reads that are "
    "then scribbled on, and shared views that are written through, via up to five handles in three processes; "
    "non-trivial if some array was replaced by one of another size or dtype, or written through a view"
)
QUICK, THOROUGH = 250, 2000
CASE_TIMEOUT = 60
DTYPES = ["|b1", "|i1", "|u1", "<i2", ">i2", "<u2", ">u4", "<i4", "<i8", ">i8", "<u8", "<f2", ">f2", "<f4", ">f4", "<f8", ">f8",
          "<c8", ">c8", "<c16", ">c16", "<U3", ">U5", "|S4", "<M8[D]", ">M8[ns]", "<m8[s]", "<m8[us]", "|V5", "<f16", "<c32"]
SHAPES = [(), (0,), (1,), (3,), (7,), (2, 3), (3, 2), (0, 4), (4, 0), (1, 1, 1), (2, 2, 2), (1, 5), (5, 1), (2, 1, 3, 1), (40,), (16, 16),
          (6,), (2, 0, 3)]
BIG = [(4096,), (3, 1000), (100, 100), (4097,), (12345,)]


def array(spec):
    """the array a spec describes: pseudo-random bytes in the given layout, all of them valid elements"""
    import numpy as np

    dtype, shape, seed, layout = np.dtype(spec[0]), spec[1], spec[2], spec[3]
    rng = np.random.Generator(np.random.PCG64(seed))
    n = int(np.prod(shape, dtype=int))
    if dtype.kind == "b":
        flat = rng.integers(0, 2, n).astype(dtype)
    elif dtype.kind == "U":
        flat = np.array(["".join(chr(c) for c in rng.integers(97, 1000, dtype.itemsize // 4)) for _ in range(n)], dtype=dtype)
    elif dtype.itemsize > 16 or dtype.str[1:] == "f16":
        flat = rng.standard_normal(n).astype(dtype)
    else:
        flat = np.frombuffer(rng.bytes(n * dtype.itemsize), dtype=dtype)
    out = flat.reshape(shape).copy()
    if layout == "fortran":
        out = np.asfortranarray(out)
    elif layout == "strided" and shape:
        wide = np.repeat(out, 2, axis=-1) if n else out
        out = wide[..., ::2] if n else out
    elif layout == "reversed" and shape:
        out = out[::-1]
    elif layout == "readonly":
        out.flags.writeable = False
    return out


def clean(data, dtype):
    """without the padding bytes of extended floats, which nobody preserves"""
    import numpy as np

    if np.dtype(dtype).str[1:] not in ("f16", "c32"):
        return data
    rows = np.frombuffer(data, dtype="u1").reshape(-1, 16).copy()
    rows[:, 10:] = 0
    return rows.tobytes()


def facts(a):
    return (a.dtype.str, a.shape, clean(a.tobytes(), a.dtype))


def _open(state, handle, prefix, no_lockout, create):
    from dustgoggles.codex.implements import GridPaper

    if handle in state:
        state.setdefault("old", []).append(state[handle])  # views live as long as their paper
    state[handle] = GridPaper(prefix, create=create, **({"no_lockout": True} if no_lockout else {}))


def _set(state, handle, key, spec, how):
    a = array(spec)
    before = facts(a)
    pad = state[handle]
    if how == "item":
        pad[key] = a
    elif how == "set":
        pad.set(key, a)
    else:
        pad.__setitem__(key, a, keep_open=True)
    return facts(a) == before


def _delete(state, handle, key):
    del state[handle][key]


def _read(state, handle, key, how, scribble):
    import numpy as np

    pad = state[handle]
    if how == "item":
        a = pad[key]
    elif how == "get":
        a = pad.get(key, "the default", copy=True)
    elif how == "view":
        a = pad.get(key, "the default")
    elif how == "iter":
        a = dict(pad.iteritems()).get(str(key), "the default")
    else:
        block = pad.get(key, "the default", fetch=False)
        return block if isinstance(block, str) else bytes(block.buf)
    if not isinstance(a, np.ndarray):
        return a
    out = facts(a)
    if scribble and how in ("item", "get", "iter"):
        require(a.flags.writeable, "a copy that cannot be written")
        scribble_on(a)
    return out


def scribble_on(a):
    import numpy as np

    if a.dtype.kind == "U":
        a[...] = np.array("zzzzz", dtype=a.dtype)
    else:
        a[...] = np.frombuffer(b"\x01" * a.dtype.itemsize, dtype=a.dtype)[0]
    return a


def _hold(state, handle, key, name, copy):
    import numpy as np

    a = state[handle].get(key, copy=copy)
    if isinstance(a, np.ndarray):
        state[name] = a
        return facts(a)
    return a


def _held(state, name):
    return facts(state[name])


def _write(state, name):
    scribble_on(state[name])
    return facts(state[name])


VERBS = {
    "open": _open, "set": _set, "delete": _delete, "read": _read, "hold": _hold, "held": _held, "write": _write,
    "clear": lambda s, h: s[h].clear(), "keys": lambda s, h: (list(s[h].keys()), list(s[h].iterkeys()), str(s[h])),
}


@st.composite
def cases(draw):
    handles = draw(st.sampled_from([1, 2, 3, 5]))
    pool = draw(_shm.key_pools(1, 4))
    key, handle = st.sampled_from(pool), st.integers(0, handles - 1)
    few = draw(st.lists(st.sampled_from(DTYPES), min_size=1, max_size=5))
    dtype = st.sampled_from(few) if draw(st.booleans()) else st.sampled_from(DTYPES)
    shape = st.sampled_from(SHAPES if draw(st.integers(0, 3)) else SHAPES + BIG)
    spec = st.tuples(dtype, shape, st.integers(0, 10**6), st.sampled_from(["plain", "plain", "fortran", "strided", "reversed", "readonly"]))
    one = st.one_of(
        st.tuples(st.just("set"), handle, key, spec, st.sampled_from(["item", "item", "set", "keep"])),
        st.tuples(st.just("set"), handle, key, spec, st.just("item")),
        st.tuples(st.just("set"), handle, key, spec, st.just("item")),
        st.tuples(st.just("read"), handle, key, st.sampled_from(["item", "get", "view", "iter", "block"]), st.booleans()),
        st.tuples(st.just("delete"), handle, key),
        st.tuples(st.just("hold"), handle, key, st.booleans()),
        st.tuples(st.just("hold"), handle, key, st.just(False)),
        st.tuples(st.just("write"), st.integers(0, 30)),
        st.tuples(st.just("write"), st.integers(0, 30)),
        st.tuples(st.sampled_from(["clear", "reopen", "list", "list", "reopen"]), handle),
    )
    low, high = draw(st.sampled_from([(2, 8), (8, 16), (16, 36)]))
    return {
        "no_lockout": draw(st.booleans()),
        "homes": [0] + draw(st.lists(st.integers(0, 2), min_size=handles - 1, max_size=handles - 1)),
        "ops": draw(st.lists(one, min_size=low, max_size=high)),
    }


def strategy(tier):
    return cases()


def setup():
    global cast
    cast = _shm.Cast(VERBS)


def teardown():
    cast.stop()


def run_case(case):
    prefix, homes = _shm.fresh_prefix(), case["homes"]
    model, age = {}, {}     # facts of each present array; how often its entry was replaced or deleted
    held = []               # [home, name, facts, key, age of the entry, is it a copy]
    replaced = written = False

    def do(h, verb, *args):
        return cast[homes[h]].do(verb, h, *args)

    def check(h, key, how="item", scribble=False):
        got, name = do(h, "read", key, how, scribble), str(key)
        if name not in model:
            if how == "item":
                require(isinstance(got, Raised) and got.isa("KeyError"), "absent", key, "read as", got)
            else:
                require(got == "the default", "absent", key, how, "gave", got)
            return
        ensure(got, how, key)
        want = model[name]
        if how == "block":
            require(clean(got[: len(want[2])], want[0]) == want[2], "block of", key, got[:60], "instead of", want[2][:60])
        else:
            require(got == want, how, "of", key, "through handle", h, "gave", (got[:2], got[2][:40]), "instead of", (want[:2], want[2][:40]))

    def check_held():
        for home, name, want, key, born, copied in held:
            if copied:
                require(cast[home].do("held", name) == want, "a copy of", key, "changed by itself")
            elif age.get(key) == born and key in model:
                got = cast[home].do("held", name)
                require(got == model[key], "view of", key, "shows", got[2][:40], "instead of", model[key][2][:40])

    try:
        for h in range(len(homes)):
            ensure(do(h, "open", prefix, case["no_lockout"], h == 0), "opening")
        for op in case["ops"]:
            verb, h = op[0], op[1]
            other = (h + 1) % len(homes)
            if verb == "set":
                _, _, key, spec, how = op
                require(ensure(do(h, "set", key, spec, how), "setting", key, spec) is True, "the stored array changed")
                want = facts(array(spec))
                if str(key) in model:
                    old = model[str(key)]
                    replaced |= len(old[2]) != len(want[2]) or old[0] != want[0]
                model[str(key)] = want
                age[str(key)] = age.get(str(key), 0) + 1
                check(other, key)
            elif verb == "delete":
                result = do(h, "delete", op[2])
                name = str(op[2])
                if name in model:
                    ensure(result, "deleting", name)
                    del model[name]
                    age[name] += 1
                else:
                    require(isinstance(result, Raised) and result.isa("KeyError"), "deleting absent", name, "gave", result)
                check(other, op[2])
            elif verb == "clear":
                ensure(do(h, "clear"), "clearing")
                for name in model:
                    age[name] += 1
                model.clear()
            elif verb == "reopen":
                ensure(do(h, "open", prefix, case["no_lockout"], False), "reopening")
            elif verb == "read":
                check(h, *op[2:])
                check(h, op[2])
            elif verb == "hold" and len(held) < 8:
                _, _, key, copy = op
                label = f"held{len(held)}"
                got = do(h, "hold", key, label, copy)
                if str(key) in model:
                    ensure(got, "reading", key)
                    require(got == model[str(key)], "reading", key, "gave", got[:2])
                    held.append([homes[h], label, got, str(key), age[str(key)], copy])
                else:
                    require(got is None, "absent", key, "get gave", got)
            elif verb == "write" and held:
                record = held[h % len(held)]
                home, label, _, key, born, copied = record
                live = key in model and age[key] == born
                if not copied and not live:
                    continue
                got = ensure(cast[home].do("write", label), "writing into a", "copy" if copied else "view", "of", key)
                record[2] = got
                if not copied:
                    model[key] = got
                    written = True
                for g in range(len(homes)):
                    check(g, key)
            elif verb == "list":
                keys, more, text = ensure(do(h, "keys"), "listing")
                require(sorted(keys) == sorted(model) == sorted(more), "keys", keys, more, "instead of", sorted(model))
                require(all(repr(k) in text for k in model), "str", text)
            check_held()
        used = {op[2] for op in case["ops"] if op[0] in ("set", "delete", "read", "hold")}
        for h in range(len(homes)):
            keys, more, _ = ensure(do(h, "keys"), "listing")
            require(sorted(keys) == sorted(model) == sorted(more), "keys", keys, more, "instead of", sorted(model))
            for key in used:
                check(h, key)
        return replaced or written, [
            f"processes:{len(set(homes))}", "replaced" if replaced else "", "view written" if written else "",
        ]
    except BaseException:
        _shm.wipe(prefix)
        cast.revive()
        raise
    finally:
        _shm.wipe(prefix)
        cast.drop()


def _structured():
    import numpy as np
    from dustgoggles.codex.implements import GridPaper

    _shm.patch()
    prefix = _shm.fresh_prefix()
    try:
        paper = GridPaper(prefix, create=True)
        paper["a"] = np.zeros(2, dtype=[("x", "i4"), ("y", "f8")])
        return paper["a"].dtype.names is None
    finally:
        _shm.wipe(prefix)
        _shm.unpatch()


FINDINGS = {"C03-structured": _structured}
ASSUMPTIONS = [
    "arrays have a dtype that numpy itself can rebuild from dtype.str: no named fields (known finding), no "
    "zero-width strings; keys as in C01; operations do not overlap in time",
]
