import json
import os
import pathlib
import pickle
import subprocess
import sys

from hypothesis import strategies as st

from pbt.core import REPO, Violation, require
from pbt.props import _shm

ID = "C10"
RULE = (
    "one real Python process (with the real resource tracker) that does or does not deactivate the tracker, then creates, "
    "overwrites, opens, writes and deletes blocks, notepads and stickies, itself and in forked children, or in children of any start method that deactivate it themselves, uses queues, pools, "
    "locks and other semaphores under the fork, spawn and forkserver methods, and ends normally, by an exception, by "
    "os._exit or by SIGKILL; afterwards, when its tracker has ended too, /dev/shm is compared with a model; non-trivial if "
    "some block outlived or was to be removed with the process"
)
QUICK, THOROUGH = 50, 1500
CASE_TIMEOUT = 120
CHILD = pathlib.Path(__file__).with_name("_c10_child.py")


@st.composite
def cases(draw):
    name = st.integers(0, 4)
    size, byte = st.sampled_from([1, 2, 8, 100, 4096, 5000]), st.integers(1, 255)
    small = [
        st.tuples(st.just("block"), name, size, byte, st.sampled_from(["raw", "open", "open", "overwrite"])),
        st.tuples(st.just("block"), name, size, byte, st.sampled_from(["raw", "open", "open", "overwrite"])),
        st.tuples(st.just("attach"), name, st.booleans()), st.tuples(st.just("attach"), name, st.booleans()),
        st.tuples(st.just("write"), name, byte), st.tuples(st.just("delete"), name),
        st.tuples(st.just("note"), name, st.sampled_from([0, "a", [1, 2], None, "x" * 5000])),
    ]
    method = st.sampled_from(["fork", "fork", "spawn", "forkserver"])
    large = small + [
        st.tuples(st.just("pad"), name, st.dictionaries(st.sampled_from(["a", "b", "ab"]), st.integers(0, 5), max_size=2), st.booleans()),
        st.tuples(st.just("unpad"), name),
        st.tuples(st.just("sync"), method), st.tuples(st.just("sync"), st.just("spawn")),
        st.tuples(st.just("child"), st.lists(st.one_of(*small), min_size=1, max_size=4), st.just("fork"), st.just(False)),
        st.tuples(st.just("child"), st.lists(st.one_of(*small), min_size=1, max_size=4), method, st.just(True)),
        st.tuples(st.just("queue"), method, st.integers(0, 3)),
    ] + [st.tuples(st.just("pool"), method, st.integers(0, 5))] * (draw(st.integers(0, 3)) == 0)
    calls, ops = draw(st.sampled_from([0, 1, 1, 1, 2])), draw(st.lists(st.one_of(*large), min_size=1, max_size=8))
    if not calls:
        # a child may have a tracker of its own, which removes blocks at some time after the child ends
        ops = [op for op in ops if op[0] != "child" or op[3]]
    return {
        "first": draw(st.lists(st.tuples(st.sampled_from(["sync", "queue"]), method), max_size=2)) if draw(st.booleans()) else [],
        "calls": calls,
        "call_again": draw(st.sampled_from([-1, -1, 0, 1, 2])),
        "before": draw(st.lists(st.tuples(name, size, byte), max_size=3, unique_by=lambda b: b[0])),
        "ops": ops,
        "end": draw(st.sampled_from(["normal", "normal", "raise", "_exit", "kill"])),
    }


def strategy(tier):
    return cases()


class Model:
    """which blocks there are, as far as they can be predicted, and who has opened them"""
    def __init__(self, prefix):
        self.prefix = prefix
        self.blocks = {}      # full name -> bytes, or a predicate on bytes
        self.opened = set()   # full names of blocks opened by the process and not deleted
        self.pads = {}        # pad name -> [{key: value}, cleanup]
        self.notes = set()
        self.made = {}        # how often a block of the name was made

    def plan(self, op, held, pads=True, tracked=True):
        """the op to perform, or None if it makes no sense now"""
        verb, *args = op
        if verb in ("sync", "queue", "pool"):
            return [verb, *args]
        if verb == "child":
            mine, ops = {}, []
            for inner in args[0]:
                # what a child does that has deactivated the tracker itself is nobody's business
                planned = self.plan(inner, mine, False, tracked and not args[2])
                if planned:
                    ops.append(planned)
            return ["child", ops, *args[1:]] if ops else None
        kind = {"note": "n", "pad": "p", "unpad": "p"}.get(verb, "b")
        name = f"{self.prefix}{kind}{args[0]}"
        args = args[1:]
        if verb == "block":
            size, byte, how = args
            if name in self.blocks:
                if how == "raw":
                    return None
                if how == "open":
                    size = len(self.blocks[name])
            if how == "overwrite" or name not in self.blocks:
                self.made[name] = self.made.get(name, 0) + 1
            self.blocks[name] = bytes([byte]) * size
            self.opened |= {name} if tracked else set()
            held[name] = self.made.get(name, 0)
        elif verb == "attach":
            if name not in self.blocks:
                return None
            self.opened |= {name} if tracked else set()
            held[name] = self.made.get(name, 0)
        elif verb == "write":
            # a handle of a block that was replaced in the meantime writes to nothing
            if name not in self.blocks or held.get(name) != self.made.get(name, 0):
                return None
            self.blocks[name] = bytes([args[0]]) * len(self.blocks[name])
        elif verb == "delete":
            if name not in held or name not in self.blocks:
                return None
            del held[name]
            del self.blocks[name]
            self.opened -= {name} if tracked else set()
        elif verb == "note":
            if not pads and name in self.notes:
                return None
            self.notes.add(name)
            self.blocks[name] = lambda data, value=args[0]: pickle.loads(data) == value
            self.opened |= {name} if tracked else set()
        elif verb == "pad":
            if name in self.pads:
                return None
            self.pads[name] = args
        elif verb == "unpad":
            if name not in self.pads:
                return None
            del self.pads[name]
        return [verb, name, *args]


def run_case(case):
    prefix = _shm.fresh_prefix()
    model = Model(prefix)
    for number, size, byte in case["before"]:
        name = f"{prefix}b{number}"
        pathlib.Path(f"{_shm.SHM}/{name}").write_bytes(bytes([byte]) * size)
        model.blocks[name] = bytes([byte]) * size
    held = {}
    ops = [planned for op in case["ops"] if (planned := model.plan(op, held))]
    program = {"calls": case["calls"], "call_again": case["call_again"], "ops": ops, "first": [[verb, how, 1] for verb, how in case["first"]], "end": case["end"]}
    semaphores = []
    try:
        env = dict(os.environ) | {"PYTHONPATH": REPO}
        env.pop("PYTHONWARNINGS", None)
        process = subprocess.Popen(
            [sys.executable, "-B", str(CHILD), json.dumps(program)], env=env, text=True, start_new_session=True,
            stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
        )
        try:
            # the tracker holds the other end of stderr: when that is closed, it has cleaned up
            out, err = process.communicate(timeout=100)
        except subprocess.TimeoutExpired:
            os.killpg(process.pid, 9)
            raise Violation(f"the process or its tracker does not end: {program}") from None
        semaphores = [line.split()[1] for line in out.splitlines() if line.startswith("SEM")]
        require("DONE" in out, "the process failed:", err[-1500:])
        want = {"normal": 0, "raise": 3, "_exit": 0, "kill": -9}[case["end"]]
        require(process.returncode == want, "exit status", process.returncode, "instead of", want, err[-500:])
        left = [s for s in semaphores if os.path.exists(f"{_shm.SHM}/sem.{s.lstrip('/')}")]
        require(not left, "semaphores that nothing tracked any more:", left)
        now = _shm.snapshot(prefix)
        plain = {n: v for n, v in now.items() if n[len(prefix)] != "p"}
        if case["calls"]:
            expected = model.blocks
            require("Traceback" not in err, "the tracker failed:", err[-1500:])
            require("shared_memory" not in err, "the tracker still knows of shared memory:", err[-1500:])
            if case["end"] in ("normal", "raise"):
                require("leaked" not in err, "the tracker thinks something was leaked:", err[-1500:])
        else:
            expected = {n: v for n, v in model.blocks.items() if n not in model.opened}
        require(plain.keys() == expected.keys(), "blocks afterwards", sorted(plain), "instead of", sorted(expected), err[-500:])
        for name, content in expected.items():
            fine = content(plain[name]) if callable(content) else content == plain[name]
            require(fine, "block", name, "holds", plain[name][:50])
        for number in range(5):
            name = f"{prefix}p{number}"
            blocks = {n: v for n, v in now.items() if n.startswith(name)}
            values, cleanup = model.pads.get(name, (None, None))
            if values is None or not case["calls"] or (cleanup and case["end"] in ("normal", "raise")):
                require(not blocks, "blocks of a notepad", model.pads.get(name), "afterwards:", sorted(blocks))
            else:
                got = {n[len(name) + 1:]: pickle.loads(v) for n, v in blocks.items() if not n.startswith(name + "_index")}
                require(got == values, "the notepad holds", got, "instead of", values)
                require(int.from_bytes(blocks[name + "_index"], "little") == len(values), "its index", blocks)
        touched = bool(model.opened or model.pads or any(o[0] == "child" for o in ops))
        return touched, [
            f"calls:{case['calls']}", f"end:{case['end']}", *{o[0] for o in ops}, *{f"child deactivates:{o[2]}" for o in ops if o[0] == "child" and o[3]}, "tracker running before" if case["first"] else "", *{f"{o[0]}:{o[1]}" for o in ops if o[0] in ("sync", "queue", "pool")},
            "semaphores left to the tracker" if semaphores and case["end"] in ("_exit", "kill") else "",
        ]
    finally:
        _shm.wipe(prefix)
        for name in semaphores:
            try:
                os.unlink(f"{_shm.SHM}/sem.{name.lstrip('/')}")
            except FileNotFoundError:
                pass


ASSUMPTIONS = [
    "Linux: blocks are files in /dev/shm; blocks created before the call, and processes started by the spawn and forkserver "
    "methods that open blocks without calling it themselves, are not claimed; names are ASCII (Python's tracker takes no others)",
]
