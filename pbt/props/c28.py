import collections
import multiprocessing
import time

from hypothesis import strategies as st

from pbt.core import Violation, raises, require
from pbt.gen import names, same, small_ints

ID = "C28"
RULE = (
    "one or more maps of a function that may raise over 0-20 generated argument records, in process "
    "or in 1-8 worker processes, chunked or not, through a reused MaybePool or map_into_pool; "
    "non-trivial if some record raised and some did not"
)
QUICK, THOROUGH = 300, 3000
CASE_TIMEOUT = 90


class CustomError(Exception):
    pass


def work(mode, x=None, *rest, **kwargs):
    if mode == "raise":
        raise ValueError("raised", x)
    if mode == "custom":
        error = CustomError(x)
        error.detail = [x, rest]
        error.add_note("noted")
        raise error
    if mode == "key":
        raise KeyError(x)
    if mode == "interrupt":
        raise KeyboardInterrupt(x)
    if mode == "return":
        # an exception that is a result like any other
        return ValueError("returned", x)
    if mode == "slow":
        time.sleep(0.002)
    if mode == "none":
        return None
    if mode == "false":
        return False
    if mode == "dict":
        return {"chunk_0": x, x: kwargs}
    return (mode, x, rest, tuple(sorted(kwargs.items())))


VALUES = st.one_of(small_ints, st.sampled_from(["a", None, (1, 2), 2.5]))
MODES = st.sampled_from(["ok", "ok", "ok", "ok", "slow", "none", "false", "dict", "raise", "custom", "key", "return"])
FINE = st.sampled_from(["ok", "slow", "none", "false", "dict", "ok", "slow", "return"])


@st.composite
def record_lists(draw):
    modes = draw(st.sampled_from([MODES, MODES, FINE]))
    count = draw(st.one_of(st.integers(0, 6), st.integers(0, 6), st.integers(0, 20), st.integers(0, 12)))
    with_keys = draw(st.sampled_from(["no", "all", "some"]))
    records = []
    free = [None, "", (), -1, 1.5, b"", frozenset()]
    if with_keys == "all":
        free += [0, 100]
    for i in range(count):
        record = {"args": (draw(modes), draw(VALUES)) + tuple(draw(st.lists(VALUES, max_size=1)))}
        if draw(st.integers(0, 2)) == 0:
            record["kwargs"] = draw(
                st.dictionaries(st.sampled_from(["p", "q"]), VALUES, max_size=2)
            )
        if draw(st.integers(0, 5)) == 0:  # no positional arguments at all
            record = {"kwargs": {"mode": record["args"][0], "x": record["args"][1]}}
        if with_keys == "all" or (with_keys == "some" and draw(st.booleans())):
            record["key"] = draw(st.sampled_from([f"k{i}", f"k{i}", (i, "k"), *free]))
            if record["key"] in free:
                free.remove(record["key"])
        records.append(record)
    if draw(st.integers(0, 19)) == 17 and records:
        # many more of the same, under names of their own
        for i in range(len(records), draw(st.integers(21, 50))):
            more = dict(records[i % count])
            if "key" in more:
                more["key"] = f"k{i}"
            records.append(more)
    return records


@st.composite
def cases(draw):
    threads = draw(st.sampled_from([None] * 6 + [1, 2, 3, 4, 8] + [1, 2, 3, 4, 24]))
    if draw(st.integers(0, 9)) == 0:
        # interrupted in process: nothing swallows that
        records = draw(record_lists())
        at = draw(st.integers(0, len(records)))
        return {"kind": "interrupt", "threads": None, "records": [*records[:at], {"args": ("interrupt", 1)}, *records[at:]]}
    if draw(st.integers(0, 2)) == 0:
        return {
            "kind": "into", "threads": threads, "records": draw(record_lists()),
            "filter": draw(st.booleans()), "chunks": draw(st.sampled_from([True, False, None])),
        }
    return {
        "kind": "pool", "threads": threads, "apply": draw(st.booleans()),
        "maps": draw(st.lists(st.tuples(record_lists(), st.booleans()), min_size=1, max_size=3)),
    }


def strategy(tier):
    return cases()


def copy_records(records):
    """new records, their positional arguments in any kind of sequence, in any kind of iterable"""
    kinds = [tuple, list, collections.deque]
    made = [
        {k: (dict(v) if k == "kwargs" else kinds[i % 3](v) if k == "args" else v) for k, v in r.items()}
        for i, r in enumerate(records)
    ]
    which = sum(map(len, made)) % 5
    return [made, tuple(made), iter(made), dict(enumerate(made)).values(), (r for r in made)][which]


def expected(records):
    """[(key, value or exception, failed)] in order"""
    out = []
    for i, record in enumerate(records):
        try:
            out.append((record.get("key", i), work(*record.get("args", ()), **record.get("kwargs", {})), False))
        except Exception as ex:
            out.append((record.get("key", i), ex, True))
    return out


def alike(got, want):
    if isinstance(want, Exception):
        return type(got) is type(want) and got.args == want.args and vars(got) == vars(want)
    return same(got, want)


def check_plain(got, want, filtered=False):
    want = [w for w in want if not (filtered and isinstance(w[1], Exception))]
    require(
        set(got) == {k for k, _, _ in want} and len(got) == len(want), "keys", list(got),
        "instead of", [k for k, _, _ in want],
    )
    for key, value, _ in want:
        require(alike(got[key], value), "record", key, "gave", got[key], "instead of", value)


def check_chunked(got, want, threads, filtered=False):
    failures = [v for _, v, failed in want if failed]
    good = {k: v for k, v, failed in want if not failed}
    largest = -(-len(want) // threads)
    if filtered:
        want = [w for w in want if w[2] or not isinstance(w[1], Exception)]
        good = {k: v for k, v in good.items() if not isinstance(v, Exception)}
    chunk_keys = [k for k in got if isinstance(k, str) and k.startswith("chunk_") and k not in good]
    for key, value in got.items():
        if key in chunk_keys:
            continue
        require(key in good, "unexpected key", key)
        require(alike(value, good[key]), "record", key, "gave", value, "instead of", good[key])
    missing = len(want) - (len(got) - len(chunk_keys))
    if not failures:
        require(missing == 0 and not chunk_keys, "lost", missing, "records without a failure")
        return
    if filtered:
        require(not chunk_keys, "exceptions were not filtered", chunk_keys)
        broken = len(failures)
    else:
        broken = len(chunk_keys)
        require(1 <= broken <= len(failures), broken, "failed chunks for", len(failures), "failures")
        for key in chunk_keys:
            require(key[6:].isdigit() and int(key[6:]) < threads, "chunk name", key)
            require(
                any(alike(got[key], f) for f in failures), "chunk", key, "failed with", got[key],
            )
    require(
        len(failures) <= missing <= broken * largest, missing, "records missing from", broken,
        "failed chunks of at most", largest,
    )


def apply(pool, records):
    """one call at a time, none of them among the results of a map"""
    before = pool.n_results
    for i, record in enumerate(copy_records(records)):
        args, kwargs = record.get("args", ()), record.get("kwargs", {})
        given = [args, kwargs] if kwargs else [args] if args or i % 2 else []
        if not given:
            args = given = [("ok",)]
            args = args[0]
        result = pool.apply(work, *given)
        try:
            want = work(*args, **kwargs)
        except Exception as ex:
            for _ in range(2):
                require(alike(raises(type(ex), result.get), ex), "applying raised the wrong exception")
        else:
            got = result.get()
            require(alike(got, want), "applying gave", got, "instead of", want)
            require(result.get() is got, "a second get gave something else")
        require(result.ready(), "not ready after the result was got")
    require(pool.n_results == before, "applying added to the results of a map")


def wait(pool, count):
    limit = time.monotonic() + 60
    while not pool.ready():
        require(
            0 <= pool.n_ready <= pool.n_results, "more ready than results", pool.n_ready,
        )
        require(len(pool.results_ready()) == count, "readiness of", pool.results_ready(), "instead of", count, "results")
        require(0 <= pool.n_running <= count, pool.n_running, "running of", count)
        if time.monotonic() > limit:
            raise Violation("results never became ready")
        time.sleep(0.001)


def run_case(case):
    from dustgoggles.structures import MaybePool, map_into_pool

    threads = case["threads"]
    if case["kind"] == "interrupt":
        raises(KeyboardInterrupt, map_into_pool, work, copy_records(case["records"]))
        raises(KeyboardInterrupt, MaybePool().map, work, copy_records(case["records"]))
        return False, ["interrupt"]
    if case["kind"] == "into":
        want = expected(case["records"])
        options = {} if case["chunks"] is None else {"as_chunks": case["chunks"]}
        if case["filter"]:
            options["filter_exc"] = True
        if threads is not None:
            options["threads"] = threads
        got = map_into_pool(work, copy_records(case["records"]), **options)
        require(not multiprocessing.active_children(), "worker processes are left")
        if len(want) % 4 == 3:
            # nor if the records are unusable
            # (holding the exception holds everything its frames do)
            failure = raises(Exception, map_into_pool, work, list(copy_records(case["records"])) + [None], **options)
            require(not multiprocessing.active_children(), "worker processes are left after", failure)
            del failure
        if threads is None or case["chunks"] is False:
            check_plain(got, want, case["filter"])
            if threads is None:
                require(list(got) == [k for k, v, _ in want if not (isinstance(v, Exception) and case["filter"])], "order")
        else:
            check_chunked(got, want, threads, case["filter"])
        wanted = [want]
    else:
        pool = MaybePool(threads)
        wanted = []
        try:
            if case["apply"]:
                apply(pool, case["maps"][0][0])
            for records, as_chunks in case["maps"]:
                want = expected(records)
                wanted.append(want)
                pool.map(work, copy_records(records), as_chunks=as_chunks)
                chunked = as_chunks and threads is not None
                count = threads if chunked else len(want)
                wait(pool, count)
                require(pool.n_results == count, pool.n_results, "results instead of", count)
                require(
                    pool.n_ready == count and pool.n_running == 0, "ready", pool.n_ready,
                    "running", pool.n_running,
                )
                require(
                    len(pool.results_ready()) == count and all(pool.results_ready().values()),
                    "results_ready", pool.results_ready(),
                )
                for _ in range(2):
                    if chunked:
                        check_chunked(pool.get(), want, threads)
                    else:
                        check_plain(pool.get(), want)
                failures = [v for _, v, failed in want if failed]
                try:
                    got = pool.get(raise_exc=True)
                except Exception as ex:
                    options = failures if chunked else failures[:1]
                    require(any(alike(ex, f) for f in options), "get raised", ex)
                else:
                    require(not failures, "get(raise_exc=True) did not raise")
                    check_plain(got, want)
            if len(wanted[0]) % 2:
                # left to end by itself
                pool.close()
                pool.join()
                require(not multiprocessing.active_children(), "worker processes are left by the closed pool")
        finally:
            if not len(case["maps"][0][0]) % 3:
                pool.close()
            pool.terminate()
            try:
                pool.join()
            except ValueError as ex:
                raise Violation(f"a terminated pool is still running: {ex}") from ex
            require(not multiprocessing.active_children(), "worker processes are left")
        require(pool.n_results == 0, "terminate kept results")
    failed = any(f for want in wanted for _, _, f in want)
    fine = any(not f for want in wanted for _, _, f in want)
    return failed and fine, [case["kind"], f"threads:{threads}"]
