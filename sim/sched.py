"""
Deterministic scheduler. Simulated processes and threads are real threads of which exactly one is ever runnable; who
runs next is decided only by the plan: `switches` is a list of [gap, j]: after `gap` yield points, hand over to the j-th
other runnable task. `spots` is a list of [mod, rem, skip, times, j]: at the source lines whose number falls in class `rem` modulo
`mod`, hand over, after `skip` and for at most `times` visits; so rarely executed lines are switched at as often as hot ones. A spot may name a file, and the number of
yield points after which the task that was stopped there goes on. A file whose name is preceded by + is also switched at within its lines: after each call,
where the interpreter itself may switch threads.
"""
import ast
import builtins
import os
import random
import sys
import threading
import time
import types
import warnings
import zlib
from _thread import allocate_lock

from sim.ctx import HarnessError, SimAbort, SimCrash

CURRENT = threading.local()


def signal():
    """release() wakes the one that does acquire(). (a plain lock: those of threading are simulated)"""
    lock = allocate_lock()
    lock.acquire()
    return lock


class Task:
    def __init__(self, sched, name, fn, pid):
        self.sched = sched
        self.name = name
        self.fn = fn
        self.pid = pid
        self.sem = signal()
        self.waiting = None        # the lock that it waits for
        self.done = False
        self.dead = False          # crashed: nothing it does has an effect any more
        self.error = None
        self.thread = threading.Thread(target=self.body, daemon=True)

    def body(self):
        self.sem.acquire()
        CURRENT.task = self
        try:
            if not self.sched.aborted:
                self.fn()
        except SimCrash:
            pass
        except BaseException as e:  # noqa
            self.error = e
        finally:
            CURRENT.task = None
            self.done = True
            self.sched.back.release()


def current_task():
    return getattr(CURRENT, "task", None)


class Sched:
    def __init__(self, switches, ctx, max_steps=3_000_000, spots=()):
        self.fine = {file[0][1:] for m, r, s, t, j, *file in spots or () if file and file[0].startswith("+")}
        self.spots = [{"mod": max(1, int(m)), "rem": int(r), "skip": int(s), "times": int(t), "j": int(j), "file": file[0].lstrip("+") if file else None, "back": int(file[1]) if len(file) > 1 else None} for m, r, s, t, j, *file in spots or ()]
        self.spot_of = {}
        self.away = None        # [task to return to, after so many yield points]
        self.switches = [(max(0, int(g)), int(j)) for g, j in switches]
        self.ctx = ctx
        self.tasks = []
        self.back = signal()
        self.steps = 0
        self.gap = self.switches[0][0] if self.switches else None
        self.pos = 0
        self.max_steps = max_steps
        self.aborted = False
        self.next_task = None
        self.preemptions = 0
        self.log_switches = True

    def spawn(self, name, fn, pid=0):
        task = Task(self, name, fn, pid)
        self.tasks.append(task)
        task.thread.start()
        return task

    def runnable(self):
        return [t for t in self.tasks if not t.done]

    def run(self):
        """Runs all tasks to the end."""
        with FineCode(self.fine):
            self.run_tasks()

    def run_tasks(self):
        task = None
        while True:
            ready = self.runnable()
            if not ready:
                break
            task = self.next_task if self.next_task in ready else ready[0]
            self.next_task = None
            task.sem.release()
            self.back.acquire()
        for t in self.tasks:
            t.thread.join(20)
        for t in self.tasks:
            if t.error is not None and not isinstance(t.error, SimAbort):
                raise t.error

    def spot(self, frame):
        code = frame.f_code
        within = frame.f_lasti if getattr(CURRENT, "within", False) else None
        key = (code.co_filename, frame.f_lineno, within)
        found = self.spot_of.get(key)
        if found is None:
            file = code.co_filename.rpartition('/')[2]
            place = f"{file}:{frame.f_lineno}"
            if within is not None:
                place += f":{within}"
            name = zlib.crc32(place.encode())
            found = self.spot_of[key] = [s for s in self.spots if name % s["mod"] == s["rem"] % s["mod"] and s["file"] in (None, file)]
        for s in found:
            if s["skip"] > 0:
                s["skip"] -= 1
            elif s["times"] > 0:
                s["times"] -= 1
                return s
        return None

    def yield_point(self, label=None, frame=None):
        """Called by the running task. May hand over to another task."""
        task = current_task()
        if task is None:
            return
        self.steps += 1
        if self.steps > self.max_steps:
            from sim.ctx import Violation
            raise Violation("no-progress", f"no end after {self.steps} scheduling steps")
        target = None
        if self.away:
            if self.away[0] is task or self.away[0].done:
                self.away = None
            elif self.away[1] > 0:
                self.away[1] -= 1
            else:
                target = self.away[0]
                self.away = None
        spot = self.spot(frame) if target is None and frame is not None and self.spots else None
        if spot:
            j = spot["j"]
        elif target is None:
            if self.gap is None:
                return
            if self.gap > 0:
                self.gap -= 1
                return
            j = self.switches[self.pos][1]
            self.pos += 1
            self.gap = self.switches[self.pos][0] if self.pos < len(self.switches) else None
        others = [t for t in self.runnable() if t is not task]
        if not others:
            return
        if target is None:
            target = others[j % len(others)]
        if spot and spot["back"] is not None:
            self.away = [task, spot["back"]]
        self.preemptions += 1
        if self.log_switches:
            self.ctx.event("switch", task.name, "->", target.name, label or "")
        self.hand_over(task, target)

    def hand_over(self, task, target):
        self.next_task = target
        self.back.release()
        task.sem.acquire()

    def wait_for(self, lock, timeout):
        """The running task waits for a lock: the others go on until it is free."""
        task = current_task()
        task.waiting = lock
        try:
            while not lock.attempt():
                self.steps += 1
                others = [t for t in self.tasks if not t.done and t is not task and (t.waiting is None or not t.waiting.locked())]
                if not others or self.steps > self.max_steps:
                    if timeout is not None and timeout >= 0:
                        return False
                    from sim.ctx import Violation
                    raise Violation("deadlock", f"{task.name} waits for a lock that is never released")
                # take turns
                later = [t for t in others if self.tasks.index(t) > self.tasks.index(task)]
                self.hand_over(task, (later or others)[0])
            return True
        finally:
            task.waiting = None


def gen_switches(rng, n, max_gap, tasks=4):
    """A random preemption list: mixture of bursts and long stretches."""
    out = []
    style = rng.random()
    for _ in range(n):
        if style < 0.3:
            gap = rng.randrange(0, 3)
        elif style < 0.6:
            gap = rng.randrange(0, max(1, max_gap))
        else:
            gap = int(rng.expovariate(1.0 / max(1, max_gap / 4)))
        out.append([gap, rng.randrange(0, max(1, tasks - 1))])
    return out


def gen_spots(rng, tasks=4, files=(), focus=0.3):
    """Source lines to switch at; files: where these are sought sometimes (guides the search, nothing more)."""
    if files and rng.random() < focus:
        mod = rng.choice([1, 2, 4, 8])
        within = "+" if rng.random() < 0.35 else ""
        x = rng.random()
        if x < 0.25:
            # at one of the first places that are passed
            return [[1, 0, rng.randrange(rng.choice([8, 30, 120])), 1, rng.randrange(0, max(1, tasks - 1)), within + rng.choice(files)]]
        if x < 0.45:
            # away at one visit of a place, and back at a later one (by the other)
            place, skip, other, file = [mod, rng.randrange(mod)], rng.choice([rng.randrange(5), rng.randrange(40)]), rng.randrange(0, max(1, tasks - 1)), within + rng.choice(files)
            return [place + [skip, 1, other, file], place + [skip + rng.choice([1, 2, 3, rng.randrange(1, 30)]), 1, 0, file]]
        back = [rng.choice([3, 20, 100, 400, 1500])] if rng.random() < 0.4 else []
        if back:
            back[0] = rng.randrange(1, back[0] + 1)
        return [[mod, rng.randrange(mod), rng.choice([0, 0, 1, rng.randrange(30)]), rng.choice([1, 1, 2, 10]), rng.randrange(0, max(1, tasks - 1)), within + file] + back for file in rng.sample(files, min(len(files), rng.choice([1, 1, 2])))]
    if rng.random() < 0.4:
        return []
    out = []
    for _ in range(rng.choice([1, 1, 2, 5])):
        mod = rng.choice([3, 10, 40, 150, 400])
        out.append([mod, rng.randrange(mod), rng.choice([0, 0, 1, rng.randrange(30)]), rng.choice([1, 1, 2, 10, 100]), rng.randrange(0, max(1, tasks - 1))])
    return out


class AfterCalls(ast.NodeTransformer):
    """f(x) becomes SIM_AFTER(f(x))"""

    def visit_Call(self, node):
        self.generic_visit(node)
        return ast.copy_location(ast.Call(ast.copy_location(ast.Name("SIM_AFTER", ast.Load()), node), [node], []), node)


def sim_after(value):
    """Every call of the `fine` files is followed by this: a place to switch, within the line."""
    hook = getattr(CURRENT, "hook", None)
    if hook is not None:
        CURRENT.within = True
        try:
            hook(sys._getframe(1))
        finally:
            CURRENT.within = False
    return value


builtins.SIM_AFTER = sim_after


def codes_of(code, found):
    place = code.co_qualname, code.co_firstlineno
    # (two functions at one line can't be told apart)
    found[place] = None if place in found else code
    for c in code.co_consts:
        if isinstance(c, types.CodeType):
            codes_of(c, found)
    return found


def functions_of(module):
    for value in list(vars(module).values()):
        members = list(vars(value).values()) if isinstance(value, type) and value.__module__ == module.__name__ else [value]
        for f in members:
            f = getattr(f, "__func__", f)
            if isinstance(f, types.FunctionType) and f.__code__.co_filename == module.__file__:
                yield f


class FineCode:
    """In the files of this name, the functions are replaced by ones that can be stopped after each call."""

    cache = {}

    def __init__(self, files):
        self.files = files
        self.old = []

    def __enter__(self):
        if self.files:
            for name, module in sorted(sys.modules.items()):
                path = getattr(module, "__file__", None) or ""
                if name.startswith("richard.") and path.rpartition('/')[2] in self.files:
                    if path not in self.cache:
                        with open(path) as f:
                            tree = ast.fix_missing_locations(AfterCalls().visit(ast.parse(f.read())))
                        with warnings.catch_warnings():
                            warnings.simplefilter("ignore")
                            self.cache[path] = codes_of(compile(tree, path, "exec"), {})
                    for f in functions_of(module):
                        new = self.cache[path].get((f.__code__.co_qualname, f.__code__.co_firstlineno))
                        if new is not None and new.co_freevars == f.__code__.co_freevars and not any(f is g for g, c in self.old):
                            self.old.append((f, f.__code__))
                            f.__code__ = new

    def __exit__(self, *exc):
        for f, code in self.old:
            f.__code__ = code
        return False


class LineTracer:
    """sys.settrace based: calls `hook(frame)` for each executed line of the code under test (richard/...)."""

    def __init__(self, hook, prefix):
        self.hook = hook
        self.prefix = prefix

    def global_trace(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(self.prefix):
            return self.local_trace
        return None

    def local_trace(self, frame, event, arg):
        if event == "line":
            self.hook(frame)
        return self.local_trace

    def __enter__(self):
        self.old = sys.gettrace()
        self.old_hook = getattr(CURRENT, "hook", None)
        CURRENT.hook = self.hook
        sys.settrace(self.global_trace)
        return self

    def __exit__(self, *exc):
        sys.settrace(self.old)
        CURRENT.hook = self.old_hook
        return False


class SimClock:
    """The only clock the code under test sees."""

    def __init__(self, start=1_700_000_000.0):
        self.now = start
        self.start = start
        self.on_sleep = None

    def advance(self, seconds):
        self.now += max(0.0, float(seconds))

    def elapsed(self):
        return self.now - self.start


class Seams:
    """Replaces clock, randomness and process identity for the duration of a run."""

    def __init__(self, ctx, clock, seed=0, sched=None):
        self.ctx = ctx
        self.clock = clock
        self.sched = sched
        self.rand = random.Random(seed)
        self.saved = []

    def patch(self, obj, name, value):
        self.saved.append((obj, name, getattr(obj, name)))
        setattr(obj, name, value)

    def __enter__(self):
        clock = self.clock

        def sleep(seconds):
            clock.advance(seconds)
            if self.sched:
                self.sched.yield_point("sleep")

        self.patch(time, "time", lambda: clock.now)
        self.patch(time, "monotonic", lambda: clock.now)
        self.patch(time, "perf_counter", lambda: clock.now)
        self.patch(time, "time_ns", lambda: int(clock.now * 1e9))
        self.patch(time, "monotonic_ns", lambda: int(clock.now * 1e9))
        self.patch(time, "perf_counter_ns", lambda: int(clock.now * 1e9))
        self.patch(time, "sleep", sleep)
        rand = self.rand
        self.patch(os, "urandom", lambda n: bytes(rand.getrandbits(8) for _ in range(n)))
        random.seed(self.rand.getrandbits(64))
        import tempfile

        class Names:
            def __iter__(self):
                return self

            def __next__(self):
                return "%08x" % rand.getrandbits(32)
        self.patch(tempfile, "_name_sequence", Names())
        real_getpid = os.getpid

        def getpid():
            task = current_task()
            return task.pid if task and task.pid else real_getpid()
        self.patch(os, "getpid", getpid)
        return self

    def __exit__(self, *exc):
        for obj, name, value in reversed(self.saved):
            setattr(obj, name, value)
        self.saved = []
        return False
