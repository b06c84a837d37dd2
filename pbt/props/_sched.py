"""
A deterministic world of shared memory: an in-memory stand-in for SharedMemory whose every step is a
scheduling point, and virtual processes (threads that run one at a time, as a schedule says).

Creating a block takes two steps, as it does in the operating system (the name appears, then the
block gets its size); attaching to one that has no size yet fails as it does in Python.
"""
import sys
import threading
import time

from pbt.core import Violation


WHOLE = 10**9  # the budget of a turn that lasts until the operation ends or waits


class Stopped(BaseException):
    """ends a virtual process whose world has ended"""


class Segment:
    __slots__ = ("data",)

    def __init__(self):
        self.data = None


class Buffer:
    """like SharedMemory.buf, with a scheduling point at every use"""
    def __init__(self, segment):
        self.segment = segment

    def __getitem__(self, item):
        point()
        return memoryview(self.segment.data)[item]

    def __setitem__(self, item, value):
        point()
        memoryview(self.segment.data)[item] = value

    def __len__(self):
        return len(self.segment.data)

    def __bytes__(self):
        point()
        return bytes(self.segment.data)

    def __iter__(self):
        point()
        return iter(bytes(self.segment.data))

    def __buffer__(self, flags):
        point()
        return memoryview(self.segment.data)

    def __eq__(self, other):
        return memoryview(self.segment.data) == other

    def tobytes(self, *_):
        return bytes(self)

    def tolist(self):
        return list(bytes(self))

    def hex(self):
        return bytes(self).hex()

    def release(self):
        pass

    nbytes = property(__len__)


class SharedMemory:
    def __init__(self, name=None, create=False, size=0, *, track=True):
        if not size >= 0:
            raise ValueError("'size' must be a positive integer")
        if create and size == 0:
            raise ValueError("'size' must be a positive number different from zero")
        self._name, self.segment = name, None
        store = world.store
        point()
        if create:
            if name in store:
                raise FileExistsError(17, "File exists", name)
            segment = store[name] = Segment()
            point()
            segment.data = bytearray(size)
        else:
            if name not in store:
                raise FileNotFoundError(2, "No such file or directory", name)
            segment = store[name]
            point()
            if segment.data is None:
                raise ValueError("cannot mmap an empty file")
        self.segment = segment
        self._buf = Buffer(segment)

    name = property(lambda self: self._name)
    buf = property(lambda self: self._buf)
    size = property(lambda self: len(self.segment.data))

    def unlink(self):
        point()
        if world.store.pop(self._name, None) is None:
            raise FileNotFoundError(2, "No such file or directory", self._name)

    def close(self):
        self._buf = None


class Process:
    def __init__(self, world, number, program):
        self.world, self.number, self.program = world, number, program
        self.baton = threading.Lock()
        self.baton.acquire()
        self.done, self.error = False, None
        self.thread = threading.Thread(target=self.run, daemon=True)

    def run(self):
        self.baton.acquire()
        try:
            if not self.world.stopping:
                self.program()
        except Stopped:
            pass
        except BaseException as ex:
            self.error = ex
        finally:
            self.done = True
            self.world.hand_over()


class World:
    """
    runs programs under a schedule [(which live process, how many steps), ...], then fairly.
    0 steps stand for a turn until the operation is over or has to wait.
    """
    def __init__(self, limit=60000):
        self.store, self.processes, self.limit = {}, [], limit
        self.stopping = self.stuck = False
        self.current, self.steps, self.switches, self.budget = None, 0, 0, 0
        self.alone, self.spared = 0, False
        self.waits = 0  # turns given up while waiting for a lock

    def choose(self):
        live = [p for p in self.processes if not p.done]
        if not live:
            return None
        for who, length in self.schedule:
            self.budget = length or WHOLE
            return live[who % len(live)]
        self.budget = self.quantum
        later = [p for p in live if self.current is None or p.number > self.current.number]
        return (later or live)[0]

    def between(self):
        """the current process is between two operations"""
        if self.budget > WHOLE // 2:
            self.point(force=None)

    def point(self, force=False):
        me = self.current
        if me is None or me.thread is not threading.current_thread():
            return
        if self.stopping:
            raise Stopped
        self.steps += 1
        if self.steps > self.limit:
            self.stuck = self.stopping = True
            raise Stopped
        self.budget -= 1
        if self.budget > 0 and force is False:
            return
        chosen = self.choose()
        self.waits += force is True
        if chosen is me and force:  # it waits: somebody else must run
            others = [p for p in self.processes if not p.done and p is not me]
            chosen = min(others, key=lambda p: (p.number < me.number, p.number)) if others else me
        if chosen is not me:
            self.switches += 1
            self.current = chosen
            chosen.baton.release()
            me.baton.acquire()
            if self.stopping:
                raise Stopped

    def hand_over(self):
        """the current process has ended"""
        self.spared |= self.switches == 0  # it ended within the first turn
        if self.stopping:
            chosen = next((p for p in self.processes if not p.done), None)
        else:
            chosen = self.choose()
        self.current = chosen
        if chosen is None:
            self.finished.release()
        else:
            chosen.baton.release()

    def run(self, programs, schedule, quantum):
        self.schedule, self.quantum = iter(schedule), quantum
        self.finished = threading.Lock()
        self.finished.acquire()
        self.processes = [Process(self, i, program) for i, program in enumerate(programs)]
        for process in self.processes:
            process.thread.start()
        self.current = self.choose()
        self.current.baton.release()
        self.finished.acquire()
        for process in self.processes:
            process.thread.join()
        self.current = None
        for process in self.processes:
            if process.error is not None:
                raise process.error
        if self.stuck:
            raise Violation(f"no end after {self.limit} steps, although every process keeps being run")


world = World()


def point(force=False):
    world.point(force)


def new_world(**kwargs):
    global world
    world = World(**kwargs)
    return world


_real_sleep = time.sleep


def _sleep(seconds):
    if world.current is not None and world.current.thread is threading.current_thread():
        point(force=True)
    elif world.current is None:
        world.alone += 1
        if world.alone > 300:
            raise Violation("waits for a lock that nobody else holds")
    else:
        _real_sleep(seconds)


def patch():
    """must run before the code under test is imported"""
    from multiprocessing import shared_memory

    shared_memory.SharedMemory = SharedMemory
    time.sleep = _sleep
    for name in [n for n in sys.modules if n.split(".")[0] == "dustgoggles"]:
        del sys.modules[name]
