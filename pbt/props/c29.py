import warnings
from fractions import Fraction

from hypothesis import strategies as st

from pbt.core import Violation, raises, require

ID = "C29"
RULE = (
    "one non-empty array (every integer and float width (long doubles included), 1-3 dimensions, boundary values of every "
    "candidate type, zeros, subnormals, NaN, infinities), tolerances, output library and nillable "
    "setting; non-trivial if the result has another type than the input"
)
QUICK, THOROUGH = 1500, 30000

INT_DTYPES = [f"{u}int{n}" for u in ("", "u") for n in (8, 16, 32, 64)]
FLOAT_DTYPES = ["float16", "float32", "float64"] * 2 + ["longdouble"]
EDGES = sorted(
    {s * (2**n + d) for n in (0, 7, 8, 10, 11, 15, 16, 23, 24, 31, 32, 52, 53, 62, 63, 64)
     for d in (-2, -1, 0, 1, 2) for s in (1, -1)}
    | {65504, 65505, 65519, 65520, -65504, -65505, 0}
)
FLOAT_EDGES = [
    0.0, -0.0, 0.5, 1.5, 0.1, 1 / 3, 1e-5, 5e-5, 4.9e-5, 1e-6, 1e-7, 6e-8, 5.9e-8, 6.1e-5, 1e-45,
    1.4e-45, 5e-324, 2.2e-308, 3.4028234663852886e38, 3.4028235677973366e38, 1e39, 1.7e308, 65504.0,
    65519.9, 100.00001, 1.0000001, 1 + 2**-10, 1 + 2**-11, 1 + 2**-23, 1 + 2**-24, 2.00005,
]


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(["int", "float", "float", "float", "bad", "list"]))
    if kind == "bad":
        return {"kind": kind, "dtype": draw(st.sampled_from(
            ["complex64", "complex128", "datetime64[ns]", "object", "datetime64[D]"]))}
    if kind == "int":
        dtype = draw(st.sampled_from(INT_DTYPES))
        bits = int(dtype.split("int")[1])
        low, high = (0, 2**bits - 1) if dtype[0] == "u" else (-2**(bits - 1), 2**(bits - 1) - 1)
        edge = st.sampled_from([e for e in EDGES if low <= e <= high])
        small = st.integers(max(low, -5), min(high, 20))
        elements = draw(st.sampled_from([small, edge, st.one_of(small, edge), st.integers(low, high)]))
    else:
        dtype = draw(st.sampled_from(FLOAT_DTYPES)) if kind == "float" else "float64"
        whole = st.sampled_from(EDGES).map(float)
        small = st.integers(-5, 300).map(float)
        near = st.builds(lambda a, b: a + b, small, st.sampled_from([0, 1e-6, 4e-5, 6e-5, 1e-3, 0.5, -4e-5]))
        edge = st.sampled_from(FLOAT_EDGES + [-x for x in FLOAT_EDGES])
        any_ = st.floats(allow_nan=False, allow_infinity=False)
        elements = draw(st.sampled_from(
            [small, whole, near, edge, any_, st.one_of(small, near), st.one_of(small, whole, edge),
             st.floats(-1e3, 1e3, width=16), st.floats(width=32, allow_nan=False, allow_infinity=False)]))
        if draw(st.integers(0, 2)) == 0:
            special = st.sampled_from([float("nan")] * 2 + [float("inf"), float("-inf")])
            if draw(st.booleans()):
                special = st.just(float("nan"))
            elements = st.one_of(elements, elements, special)
    values = draw(st.lists(elements, min_size=draw(st.integers(0, 11)) > 0, max_size=draw(st.sampled_from([1, 2, 4, 8, 24]))))
    library = draw(st.sampled_from(["numpy", "numpy", "pandas"])) if dtype != "longdouble" else "numpy"
    return {
        "kind": kind, "dtype": dtype, "values": values,
        "shape": draw(st.sampled_from(["flat", "flat", "column", "square", "strided", "swapped", "fortran", "scalar", "reversed", "locked"])),
        "tolerance": draw(st.sampled_from(
            [None, None, (0, 0), (1e-3, 1e-2), (1.0, 1.0), (1e-5, 1e-7), (float("inf"), 1e-3),
             (1e-4, float("inf")), (0.5, 0.1)])),
        "library": library,
        "nillable": library == "pandas" and draw(st.booleans()),
        "named": draw(st.booleans()),
        # the last value after this many times the first
        "long": draw(st.sampled_from([700, 2000, 5000])) if values and draw(st.integers(0, 29)) == 17 else 0,
        # values that only long doubles can hold
        "stretch": draw(st.sampled_from([None, None, "precise", "large", "tiny"])) if dtype == "longdouble" else None,
    }


def strategy(tier):
    return cases()


def candidate_types(arr, nillable):
    """types in the documented order; the last one is the input's own"""
    import numpy as np

    finite = arr[np.isfinite(arr)]
    if finite.size == 0:
        return [arr.dtype]
    out = []
    if finite.size == arr.size or (nillable and not np.isinf(arr).any()):
        out += [f"uint{n}" for n in (8, 16, 32, 64)] + [f"int{n}" for n in (8, 16, 32, 64)]
    out += [f for f in ("float16", "float32", "float64") if np.dtype(f).itemsize < arr.dtype.itemsize]
    return [np.dtype(t) for t in out] + [arr.dtype]


def exact_errors(values, dtype):
    """max absolute and relative error of casting to dtype; None if it cannot hold the values"""
    import numpy as np

    if dtype.kind in "iu":
        info = np.iinfo(dtype)
        if not all(info.min <= v <= info.max for v in values):
            return None
        cast = [int(v) for v in values]
    else:
        top = Fraction(float(np.finfo(dtype).max))
        if not all(-top <= v <= top for v in values):
            return None
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            cast = [Fraction(float(dtype.type(float(v)))) for v in values]
    offsets = [abs(v - c) for v, c in zip(values, cast)]
    return max(offsets), max((o / abs(v) for o, v in zip(offsets, values) if v), default=Fraction(0))


def exactly(value):
    return Fraction(*value.as_integer_ratio())


def close(reported, true, slack):
    true = float(true)
    return abs(float(reported) - true) <= slack * true + 1e-300 or float(reported) == true


def run_case(case):
    import numpy as np
    import pandas as pd
    from dustgoggles.pivot import downcast

    if case["kind"] == "bad":
        raises(TypeError, downcast, np.zeros(3, dtype=case["dtype"]))
        return False, ["bad"]
    case = dict(case, values=[case["values"][0]] * case["long"] + case["values"]) if case["long"] else case
    with np.errstate(all="ignore"):
        arr = np.array(case["values"], dtype=case["dtype"])
        if case["stretch"] == "precise":
            arr = arr + arr * np.longdouble(2) ** -60
        elif case["stretch"]:
            arr = arr * np.longdouble(10) ** (400 if case["stretch"] == "large" else -400)
    library = case["library"]
    shape = case["shape"] if library == "numpy" else "flat"
    if case["kind"] == "list":
        given = [float(v) for v in case["values"]]
        shape = "flat"
    elif shape == "column":
        arr = given = arr[:, None]
    elif shape == "square":
        arr = given = np.tile(arr, (3, 2, 1))
    elif shape == "strided":
        arr = given = np.repeat(arr, 2)[::2]
    elif shape == "swapped":
        # the other byte order
        arr = given = arr.astype(arr.dtype.newbyteorder("S"))
    elif shape == "fortran":
        arr = given = np.asfortranarray(np.stack([arr, arr[::-1]]))
    elif shape == "scalar" and arr.size:
        arr = given = np.array(arr[0])
    elif shape == "reversed":
        arr = given = arr[::-1]
    elif shape == "locked":
        given = arr
        arr.flags.writeable = False
    else:
        given = arr
    if case["named"] and library == "pandas" and case["kind"] != "list":
        given = pd.Series(arr, name="column name", index=range(5, 5 + arr.size))
    pristine = arr.copy()
    kwargs = {} if library == "numpy" else {"library": "pandas"}
    if case["nillable"]:
        kwargs["use_nillable_int"] = True
    atol, rtol = case["tolerance"] or (5e-5, 1e-6)
    if case["tolerance"]:
        kwargs |= {"atol": atol, "rtol": rtol}
    # what it documents that it does not handle
    raises(TypeError, downcast, given, library="numpy", use_nillable_int=True)
    for other in ("complex128", "datetime64[s]", object):
        raises(TypeError, downcast, np.zeros(2, other))
    result = downcast(given, **kwargs)
    got, aerr, rerr = result["recast"], result["aerr"], result["rerr"]
    require(np.array_equal(arr, pristine, equal_nan=arr.dtype.kind == "f"), "the input changed")
    if library == "pandas":
        require(isinstance(got, pd.Series), "returned a", type(got))
        require(got.name == getattr(given, "name", None), "name", got.name)
        extension = isinstance(got.dtype, pd.api.extensions.ExtensionDtype)
        got_dtype = got.dtype.numpy_dtype if extension else got.dtype
        missing = got.isna().to_numpy()
        if extension:
            require(
                arr.dtype.kind == "f" and np.array_equal(missing, np.isnan(arr)),
                "missing values moved",
            )
            require(missing.any(), "a nillable type without missing values")
        cells = [None if m else c for m, c in zip(missing, got.tolist())] if extension else got.tolist()
    else:
        require(isinstance(got, np.ndarray), "returned a", type(got))
        require(got.shape == arr.shape, "shape", got.shape, "instead of", arr.shape)
        got_dtype, cells = got.dtype, got.ravel().tolist()
    # whichever byte order
    got_dtype, own = np.dtype(got_dtype).newbyteorder("="), arr.dtype.newbyteorder("=")
    originals = arr.ravel().tolist()
    require(len(cells) == len(originals), len(cells), "elements instead of", len(originals))
    if not originals:
        require(got_dtype.kind in ("iuf" if arr.dtype.kind == "f" else "iu"), "no elements became", got_dtype)
        require(aerr == 0 and rerr == 0, "errors", aerr, rerr)
        return False, ["empty"]
    if arr.dtype.kind in "iu":
        require(cells == originals, "integers changed: ", cells, "instead of", originals)
        low, high = min(originals), max(originals)
        narrowest = next(
            np.dtype(f"{'u' if low >= 0 else ''}int{n}") for n in (8, 16, 32, 64)
            if np.iinfo(f"{'u' if low >= 0 else ''}int{n}").min <= low
            and high <= np.iinfo(f"{'u' if low >= 0 else ''}int{n}").max
        )
        require(got_dtype == narrowest, "type", got_dtype, "instead of", narrowest)
        require(aerr == 0 and rerr == 0, "errors", aerr, rerr)
        return narrowest != own, ["int", f"to:{got_dtype}"]
    finite = [exactly(v) for v in originals if np.isfinite(v)]
    # cells: finite ones within tolerance (checked exactly), others preserved
    got_finite = []
    for original, cell in zip(originals, cells):
        if np.isfinite(original):
            require(cell is not None and np.isfinite(cell), original, "became", cell)
            got_finite.append(exactly(cell))
        elif cell is None:
            require(np.isnan(original), original, "became missing")
        else:
            require(
                cell == original or (cell != cell and original != original), original, "became", cell,
            )
    slack = {2: 3e-3, 4: 1e-5, 8: 1e-9, 16: 1e-9}[arr.dtype.itemsize]
    if finite:
        offsets = [abs(a - b) for a, b in zip(finite, got_finite)]
        relative = max((o / abs(v) for o, v in zip(offsets, finite) if v), default=Fraction(0))
        require(close(aerr, max(offsets), slack), "reported absolute error", aerr, float(max(offsets)))
        require(close(rerr, relative, slack), "reported relative error", rerr, float(relative))
        require(float(max(offsets)) <= atol * (1 + slack), "absolute error", float(max(offsets)))
        require(float(relative) <= rtol * (1 + slack), "relative error", float(relative))
    allowed = []
    nonfinite = len(finite) < len(originals)
    for dtype in candidate_types(arr, case["nillable"]):
        if dtype == arr.dtype:
            allowed.append(own)
            break
        errors = exact_errors(finite, dtype)
        if errors is None:
            continue
        a, r = map(float, errors)
        if a > atol * (1 + slack) or r > rtol * (1 + slack):
            continue
        allowed.append(dtype)
        if a <= atol * (1 - slack) and r <= rtol * (1 - slack):
            break
    require(got_dtype in allowed, "type", got_dtype, "instead of", allowed)
    if nonfinite and got_dtype.kind in "iu":
        require(library == "pandas" and case["nillable"], "missing values in an integer array")
    return got_dtype != own, [f"from:{own}", f"to:{got_dtype}", f"library:{library}"]
