"""the process C10 starts: follows a program given as JSON and ends as told"""
import json
import multiprocessing
import os
import signal
import sys


def answer(queue, lock, n):
    with lock:
        queue.put([n, "x" * n])


def double(x):
    return 2 * x


def forked(ops, own):
    held = {}
    if own:
        from dustgoggles.codex.memutilz import deactivate_shared_memory_resource_tracker

        deactivate_shared_memory_resource_tracker()
    for op in ops:
        perform(op, held)


def perform(op, held):
    verb, *args = op
    if verb not in ("sync", "queue", "pool"):
        from dustgoggles.codex import implements, memutilz
        from multiprocessing.shared_memory import SharedMemory

    if verb == "block":
        name, size, byte, how = args
        if how == "raw":
            block = SharedMemory(name, create=True, size=size)
        else:
            block = memutilz.open_block(name, size, overwrite=how == "overwrite")
        block.buf[:] = bytes([byte]) * block.size
        held[name] = block
    elif verb == "attach":
        held[args[0]] = SharedMemory(args[0]) if args[1] else memutilz.open_block(args[0], 3)
    elif verb == "write":
        held[args[0]].buf[:] = bytes([args[1]]) * held[args[0]].size
    elif verb == "delete":
        held.pop(args[0]).close()
        memutilz.delete_block(args[0])
    elif verb == "note":
        held[args[0]] = implements.Sticky.note(args[1], args[0])
    elif verb == "pad":
        held[args[0]] = pad = implements.Notepad(args[0], create=True, cleanup_on_exit=args[2])
        for key, value in args[1].items():
            pad[key] = value
    elif verb == "unpad":
        held.pop(args[0]).close()
    elif verb == "queue":
        context = multiprocessing.get_context(args[0])
        queue, lock = context.Queue(), context.Lock()
        process = context.Process(target=answer, args=(queue, lock, args[1]))
        process.start()
        got = queue.get(timeout=40)
        process.join()
        assert got == [args[1], "x" * args[1]] and process.exitcode == 0, (got, process.exitcode)
    elif verb == "pool":
        with multiprocessing.get_context(args[0]).Pool(2) as pool:
            assert pool.map(double, range(args[1])) == [2 * x for x in range(args[1])]
    elif verb == "sync":
        context = multiprocessing.get_context(args[0])
        things = [context.Semaphore(2), context.RLock(), context.Event(), context.Condition(), context.Barrier(1), context.BoundedSemaphore(1)]
        assert things[0].acquire(timeout=5) and things[0].acquire(timeout=5) and not things[0].acquire(block=False)
        things[2].set()
        assert things[2].is_set()
        held["sync", len(held)] = things
        print("SEM", things[0]._semlock.name, flush=True)
    elif verb == "child":
        process = multiprocessing.get_context(args[1]).Process(target=forked, args=(args[0], args[2]))
        process.start()
        process.join()
        assert process.exitcode == 0, process.exitcode
    else:
        raise ValueError(verb)


if __name__ == "__main__":
    program = json.loads(sys.argv[1])
    from dustgoggles.codex.memutilz import deactivate_shared_memory_resource_tracker

    # things that may start the tracker before it is deactivated; none of them makes a block
    before = {}
    for op in program["first"]:
        perform(op, before)
    for _ in range(program["calls"]):
        deactivate_shared_memory_resource_tracker()
    held = {}
    for i, op in enumerate(program["ops"]):
        perform(op, held)
        if i == program["call_again"] and program["calls"]:
            deactivate_shared_memory_resource_tracker()
    print("DONE", flush=True)
    if program["end"] == "raise":
        raise SystemExit(3)
    if program["end"] == "_exit":
        os._exit(0)
    if program["end"] == "kill":
        os.kill(os.getpid(), signal.SIGKILL)
