"""
Runner shared by every property check.

A property module (pbt/props/cNN.py) provides

    ID, RULE               property id; text saying what a case is and when it is non-trivial
    QUICK, THOROUGH        examples per worker in each tier
    strategy(tier)         Hypothesis strategy producing one plain, picklable case
    run_case(case)         executes the case against the code in /repo and the oracle.
                           raises on any disagreement; returns (nontrivial, labels)
  optional:
    WORKERS                worker processes (default 6 quick / 8 thorough)
    CASE_TIMEOUT           seconds of wall clock after which one case counts as hung
    setup(), teardown()    once per worker
    FINDINGS               {finding id: zero-argument callable that is truthy while the known
                           defect still shows}; ids must be listed in known_findings.json

All randomness is Hypothesis's, seeded from VERIF_SEED and the worker index.
"""
import base64
import collections
import hashlib
import importlib
import json
import os
import pathlib
import pickle
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = "/repo"
HYPOTHESIS_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
SHRINK_BUDGET_S = 45.0


class Violation(AssertionError):
    """the property does not hold on this case"""


def fail(message):
    raise Violation(message)


def require(condition, *message):
    if not condition:
        raise Violation(" ".join(m if isinstance(m, str) else repr(m) for m in message))


def raises(exc_types, func, *args, **kwargs):
    """require that func raises one of exc_types; returns the exception"""
    try:
        result = func(*args, **kwargs)
    except exc_types as ex:
        return ex
    raise Violation(
        f"expected {exc_types} from {getattr(func, '__name__', func)}{args!r}, got {result!r}"
    )


def bootstrap():
    """put the code under test and Hypothesis on the path, in that order of trust"""
    if REPO in sys.path:
        sys.path.remove(REPO)
    sys.path.insert(0, REPO)
    if HYPOTHESIS_SITE not in sys.path:
        sys.path.append(HYPOTHESIS_SITE)
    sys.dont_write_bytecode = True


def load(prop_id):
    bootstrap()
    module = importlib.import_module(f"pbt.props.{prop_id.lower()}")
    import dustgoggles
    if not dustgoggles.__file__.startswith(REPO + "/"):
        raise RuntimeError(f"testing the wrong dustgoggles: {dustgoggles.__file__}")
    return module


def short(obj, limit=700):
    text = obj if isinstance(obj, str) else repr(obj)
    return text if len(text) <= limit else text[:limit] + f"... ({len(text)} chars)"


def digest(case):
    try:
        blob = repr(case).encode("utf-8", "backslashreplace")
    except Exception:
        blob = pickle.dumps(case)
    return hashlib.blake2b(blob, digest_size=8).hexdigest()


# --------------------------------------------------------------------- worker
class Worker:
    def __init__(self, prop, tier, seed, index, out):
        self.prop, self.tier, self.seed, self.index = prop, tier, seed, index
        self.out = pathlib.Path(out)
        self.evaluations = 0
        self.nontrivial = set()
        self.labels = collections.Counter()
        self.samples = []
        self.failure = None
        self.first_failure_at = None
        self.current = None
        self.failures_seen = 0
        self.case_fd = os.open(self.out.with_suffix(".case"), os.O_RDWR | os.O_CREAT)

    def report(self, status, **extra):
        record = {
            "status": status,
            "evaluations": self.evaluations,
            "nontrivial": sorted(self.nontrivial),
            "labels": dict(self.labels),
            "samples": self.samples,
        } | extra
        temp = self.out.with_suffix(".tmp")
        temp.write_text(json.dumps(record))
        temp.replace(self.out)

    def describe_failure(self, case, error):
        return {
            "case": short(case, 20000),
            "pickle": base64.b64encode(pickle.dumps(case)).decode(),
            "error": short(error, 6000),
        }

    def note_case(self, case):
        """leave the case where the parent finds it should this process die of a signal"""
        blob = pickle.dumps(case)
        os.pwrite(self.case_fd, len(blob).to_bytes(8, "little") + blob, 0)

    def on_hang(self, *_):
        stack = "".join(traceback.format_stack(limit=15))
        self.report(
            "violation",
            failure=self.describe_failure(
                self.current,
                f"case did not finish within {self.prop_timeout} s\n{stack}"
            ),
        )
        os._exit(0)

    def one(self, case):
        if self.first_failure_at is not None:
            if time.monotonic() - self.first_failure_at > SHRINK_BUDGET_S:
                return  # out of shrinking time: keep the smallest failure so far
        self.current = case
        self.evaluations += 1
        self.note_case(case)
        signal.setitimer(signal.ITIMER_REAL, self.prop_timeout)
        try:
            nontrivial, labels = self.prop.run_case(case)
        except BaseException as ex:
            if type(ex).__module__.startswith("hypothesis"):
                raise
            self.failures_seen += 1
            if self.first_failure_at is None:
                self.first_failure_at = time.monotonic()
            failure = self.describe_failure(case, traceback.format_exc())
            if self.failure is None or (
                len(failure["pickle"]) <= len(self.failure["pickle"])
            ):
                self.failure = failure
            if isinstance(ex, Exception):
                raise
            raise Violation(f"escaped {type(ex).__name__}: {ex}") from None
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        for label in labels:
            self.labels[label] += 1
        if nontrivial:
            key = digest(case)
            if key not in self.nontrivial:
                self.nontrivial.add(key)
                # a few samples spread over the run
                if len(self.nontrivial) in (2, 20, 200, 1000):
                    self.samples.append(short(case))

    def run(self):
        import hypothesis
        from hypothesis import HealthCheck, Phase, given, settings

        prop = self.prop
        examples = prop.QUICK if self.tier == "quick" else prop.THOROUGH
        override = os.environ.get("VERIF_EXAMPLES")
        if override:
            examples = int(override)
        self.prop_timeout = getattr(prop, "CASE_TIMEOUT", 60)
        signal.signal(signal.SIGALRM, self.on_hang)
        getattr(prop, "setup", lambda: None)()
        try:
            test = given(prop.strategy(self.tier))(lambda case: self.one(case))
            test = settings(
                max_examples=examples,
                deadline=None,
                database=None,
                phases=(Phase.generate, Phase.shrink),
                suppress_health_check=list(HealthCheck),
                report_multiple_bugs=False,
                print_blob=False,
            )(test)
            test = hypothesis.seed(self.seed * 1000 + self.index)(test)
            try:
                test()
            except Exception:
                if self.failure is None:
                    raise
        finally:
            getattr(prop, "teardown", lambda: None)()
        if self.failure is not None:
            self.report("violation", failure=self.failure)
        else:
            self.report("ok")


# deaths that come from the code under test rather than from the machine
CRASHES = (signal.SIGSEGV, signal.SIGBUS, signal.SIGABRT, signal.SIGFPE, signal.SIGILL)
MEMORY_LIMIT = 6 << 30


def crashed(out, returncode):
    """the result of a worker that died without reporting"""
    try:
        blob = out.with_suffix(".case").read_bytes()
        blob = blob[8: 8 + int.from_bytes(blob[:8], "little")]
        case = pickle.loads(blob)
    except Exception:
        return {"status": "error"}
    if -returncode not in CRASHES:
        return {"status": "error"}
    return {
        "status": "violation", "evaluations": 1, "nontrivial": [], "labels": {}, "samples": [],
        "failure": {
            "case": short(case, 20000),
            "pickle": base64.b64encode(blob).decode(),
            "error": f"the process died of {signal.Signals(-returncode).name} during this case",
        },
    }


def worker_main(prop_id, tier, seed, index, out):
    import resource

    # code that eats memory without end gets a MemoryError instead of ending everything
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY_LIMIT, MEMORY_LIMIT))
    prop = load(prop_id)
    Worker(prop, tier, seed, index, out).run()


# --------------------------------------------------------------------- parent
def selfcheck():
    bootstrap()
    import hypothesis
    import dustgoggles

    print(f"hypothesis {hypothesis.__version__}, dustgoggles from {dustgoggles.__file__}")


def known_findings(prop_id):
    path = VERIF / "known_findings.json"
    listed = json.loads(path.read_text())["findings"] if path.exists() else []
    return [
        rec for rec in listed
        if rec["property"] == prop_id and rec["status"] == "known"
    ]


def child_env(scratch):
    env = dict(os.environ)
    env |= {
        "PYTHONHASHSEED": "0",
        "PYTHONDONTWRITEBYTECODE": "1",
        "PYTHONNOUSERSITE": "1",
        "PYTHONPATH": str(VERIF),
        "PYTHONWARNINGS": "ignore",
        "VERIF_SCRATCH": str(scratch),
        "TMPDIR": str(scratch),
        "HOME": str(scratch),
        "OMP_NUM_THREADS": "1",
        "OPENBLAS_NUM_THREADS": "1",
        "ARROW_NUM_THREADS": "1",
        "TZ": "UTC",
    }
    return env


def stop(processes):
    for process in processes:
        if process.poll() is None:
            try:
                os.killpg(process.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
    for process in processes:
        process.wait()


def run_property(prop_id, tier, seed):
    start = time.monotonic()
    scratch = pathlib.Path(tempfile.mkdtemp(prefix=f"pbt_{prop_id}_"))
    shm_before = set(os.listdir("/dev/shm")) if os.path.isdir("/dev/shm") else set()
    env = child_env(scratch)
    processes, outs, logs = [], [], []
    try:
        meta = json.loads(
            subprocess.run(
                [sys.executable, "-B", str(VERIF / "run.py"), prop_id, "--describe"],
                env=env, cwd=scratch, capture_output=True, text=True, check=True,
            ).stdout.splitlines()[-1]
        )
        n_workers = meta["workers_quick"] if tier == "quick" else meta["workers_thorough"]
        for index in range(n_workers):
            out, log = scratch / f"worker{index}.json", scratch / f"worker{index}.log"
            cwd = scratch / f"cwd{index}"
            cwd.mkdir()
            stream = log.open("w")
            processes.append(
                subprocess.Popen(
                    [
                        sys.executable, "-B", str(VERIF / "run.py"), prop_id, "--worker",
                        str(index), "--tier", tier, "--seed", str(seed), "--out", str(out),
                    ],
                    env=env, cwd=cwd, stdout=stream, stderr=stream, start_new_session=True,
                )
            )
            stream.close()
            outs.append(out)
            logs.append(log)
        results = {}
        failed = None
        while len(results) < n_workers:
            for index, process in enumerate(processes):
                if index in results or process.poll() is None:
                    continue
                if outs[index].exists():
                    results[index] = json.loads(outs[index].read_text())
                    if results[index]["status"] == "violation" and failed is None:
                        failed = index
                else:
                    results[index] = crashed(outs[index], process.returncode)
                    if results[index]["status"] == "violation" and failed is None:
                        failed = index
            if failed is not None:
                break
            time.sleep(0.02)
        stop(processes)
        errors = [i for i, r in results.items() if r["status"] == "error"]
        if failed is None and errors:
            sys.stderr.write(logs[errors[0]].read_text()[-6000:])
            print(f"ERROR property={prop_id}: worker {errors[0]} of the check crashed")
            return 2
        done = [r for r in results.values() if r["status"] != "error"]
        finding_lines = []
        if failed is None and meta["has_findings"]:
            probe = subprocess.run(
                [sys.executable, "-B", str(VERIF / "run.py"), prop_id, "--findings"],
                env=env, cwd=scratch, capture_output=True, text=True, timeout=300,
            )
            if probe.returncode != 0:
                sys.stderr.write(probe.stderr[-4000:])
                print(f"ERROR property={prop_id}: finding probes crashed")
                return 2
            finding_lines = [
                line for line in probe.stdout.splitlines() if line.startswith("KNOWN-FINDING")
            ]
        nontrivial, labels, samples = set(), collections.Counter(), []
        for r in done:
            nontrivial |= set(r["nontrivial"])
            labels.update(r["labels"])
            for sample in r["samples"]:
                if len(samples) < 6:
                    samples.append(sample)
        evaluations = sum(r["evaluations"] for r in done)
        if failed is not None:
            samples = samples or [results[failed]["failure"]["case"][:700]]
        evidence = {
            "property": prop_id,
            "tier": tier,
            "seed": seed,
            "level": "exploration",
            "coverage": {
                "evaluations": evaluations,
                "distinct_nontrivial": len(nontrivial),
                "rule": meta["rule"],
                "samples": samples,
                "labels": dict(sorted(labels.items(), key=lambda kv: -kv[1])),
                "workers": n_workers,
            },
            "assumptions": meta["assumptions"],
            "wall_s": round(time.monotonic() - start, 2),
            "violations": 0 if failed is None else 1,
        }
        (VERIF / "evidence").mkdir(exist_ok=True)
        (VERIF / "evidence" / f"{prop_id}.json").write_text(json.dumps(evidence, indent=1))
        if failed is not None:
            failure = results[failed]["failure"]
            replays = VERIF / "replays"
            replays.mkdir(exist_ok=True)
            path = replays / f"{prop_id}-seed{seed}-{tier}.json"
            path.write_text(
                json.dumps(
                    {
                        "property": prop_id, "seed": seed, "tier": tier, "worker": failed,
                        "replay": f"python run.py {prop_id} --replay {path}",
                    } | failure,
                    indent=1,
                )
            )
            print(f"failing case: {short(failure['case'], 1500)}")
            print(failure["error"][-2500:])
            print(f"VIOLATION property={prop_id} replay={path}")
            return 1
        for line in finding_lines:
            print(line)
        print(
            f"OK property={prop_id} tier={tier} seed={seed} cases={evaluations} "
            f"nontrivial={len(nontrivial)} wall={evidence['wall_s']}s"
        )
        return 0
    finally:
        stop(processes)
        shutil.rmtree(scratch, ignore_errors=True)
        # blocks left by cases (only ones carrying this harness's own prefix)
        if os.path.isdir("/dev/shm"):
            tags = tuple(f"vp{process.pid}x" for process in processes)
            for name in set(os.listdir("/dev/shm")) - shm_before:
                if tags and name.startswith(tags):
                    try:
                        os.unlink(f"/dev/shm/{name}")
                    except OSError:
                        pass


def describe(prop_id):
    prop = load(prop_id)
    workers = getattr(prop, "WORKERS", None)
    print(
        json.dumps(
            {
                "rule": prop.RULE,
                "workers_quick": workers or 6,
                "workers_thorough": workers or 8,
                "assumptions": getattr(prop, "ASSUMPTIONS", []),
                "has_findings": bool(getattr(prop, "FINDINGS", {})),
            }
        )
    )


def run_findings(prop_id):
    prop = load(prop_id)
    for rec in known_findings(prop_id):
        probe = prop.FINDINGS[rec["id"]]
        if probe():
            print(f"KNOWN-FINDING: property={prop_id} {rec['id']}: {rec['what']}")


def replay(prop_id, path):
    prop = load(prop_id)
    path = os.path.abspath(path)
    scratch = tempfile.mkdtemp(prefix=f"pbt_{prop_id}_replay_")
    os.environ["VERIF_SCRATCH"] = os.environ["TMPDIR"] = tempfile.tempdir = scratch
    os.chdir(scratch)
    case = pickle.loads(base64.b64decode(json.loads(pathlib.Path(path).read_text())["pickle"]))
    getattr(prop, "setup", lambda: None)()
    try:
        prop.run_case(case)
    except BaseException:
        traceback.print_exc()
        print(f"VIOLATION property={prop_id} replay={path}")
        return 1
    finally:
        getattr(prop, "teardown", lambda: None)()
        shutil.rmtree(scratch, ignore_errors=True)
    print(f"OK property={prop_id} replay={path}")
    return 0
