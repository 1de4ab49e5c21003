"""Per-run context: event log, counters, probes and the violation type."""
import hashlib
import json


class Violation(BaseException):
    """The property is broken in this run. `cls` is the stable violation class used by the minimiser."""

    def __init__(self, cls: str, message: str):
        super().__init__(f"[{cls}] {message}")
        self.cls = cls
        self.message = message


class HarnessError(BaseException):
    """The harness (not the code under test) misbehaved."""


class SimAbort(BaseException):
    """Base of everything the simulator throws through the code under test to stop a simulated process."""


class SimCrash(SimAbort):
    """The simulated process died here."""


class SimHang(SimAbort):
    """The code under test waits for something that never happens."""


class SimInterrupt(KeyboardInterrupt):
    """The user interrupted the request (Ctrl-C)."""


class Ctx:
    def __init__(self):
        self.log = []
        self.faults = {}
        self.probes = {}
        self.sim_time = 0.0
        self.states = set()
        self.nontrivial = False
        self.notes = []

    def event(self, *parts):
        self.log.append(" ".join(str(p) for p in parts))

    def fault(self, kind):
        self.faults[kind] = self.faults.get(kind, 0) + 1
        self.nontrivial = True

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def state(self, *parts):
        self.states.add(hashlib.sha1(repr(parts).encode()).hexdigest()[:12])

    def digest(self):
        return hashlib.sha1("\n".join(self.log).encode("utf-8", "backslashreplace")).hexdigest()


def canonical(value):
    return json.dumps(value, sort_keys=True, default=repr)
