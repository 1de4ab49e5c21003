"""
Worker process. Reads a job (JSON) from stdin, writes one JSON object per line to stdout.

Every simulated run executes in a child forked from this (warmed-up) process, so that a run is a pure function of its
plan and the code under test: no state survives from one run to the next, and a run that hangs can be ended.
"""
import importlib
import json
import os
import random
import select
import signal
import sys
import time
import traceback

from sim.ctx import Ctx, HarnessError, SimAbort, Violation


def load(prop):
    return importlib.import_module("sim.props." + prop.lower())


def rng_for(prop, seed, index):
    return random.Random(f"{prop}/{seed}/{index}")


def make_plan(mod, seed, index, tier):
    plan = mod.gen(rng_for(mod.ID, seed, index), tier, index)
    # the plan is what the replay file holds: make sure nothing is lost in the file
    return json.loads(json.dumps(plan))


def execute(mod, plan):
    """Runs the plan in this process; returns the outcome as a dict."""
    ctx = Ctx()
    out = {"violation": None, "harness": None}
    try:
        mod.run(plan, ctx)
    except Violation as v:
        out["violation"] = {"cls": v.cls, "message": v.message}
        ctx.event("VIOLATION", v.cls, v.message)
    except HarnessError as e:
        out["harness"] = "".join(traceback.format_exception(e))[-4000:]
    except BaseException as e:  # noqa - anything that escapes is a harness problem, never an alarm
        out["harness"] = "".join(traceback.format_exception(e))[-4000:]
    out["digest"] = ctx.digest()
    out["faults"] = ctx.faults
    out["probes"] = ctx.probes
    out["sim_time"] = ctx.sim_time
    out["states"] = sorted(ctx.states)
    out["nontrivial"] = ctx.nontrivial
    out["events"] = len(ctx.log)
    out["notes"] = ctx.notes
    if os.environ.get("SIM_KEEP_LOG"):
        out["log"] = ctx.log
    return out


def run_forked(mod, plan, timeout):
    """Runs the plan in a forked child."""
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            devnull = os.open(os.devnull, os.O_WRONLY)
            os.dup2(devnull, 1)
            os.setpgid(0, 0)
            out = execute(mod, plan)
            data = json.dumps(out, default=repr).encode("utf-8", "backslashreplace")
            pos = 0
            while pos < len(data):
                pos += os.write(w, data[pos:])
        except BaseException:
            traceback.print_exc()
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    chunks = []
    deadline = time.monotonic() + timeout
    timed_out = False
    while True:
        left = deadline - time.monotonic()
        if left <= 0:
            timed_out = True
            break
        ready, _, _ = select.select([r], [], [], left)
        if not ready:
            timed_out = True
            break
        chunk = os.read(r, 1 << 20)
        if not chunk:
            break
        chunks.append(chunk)
    os.close(r)
    if timed_out:
        try:
            os.kill(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
    _, status = os.waitpid(pid, 0)
    cleanup = getattr(mod, "cleanup_child", None)
    if cleanup:
        cleanup(pid)
    if timed_out:
        return {"violation": {"cls": "no-progress", "message": f"the run did not finish within {timeout:.0f} s (normal: milliseconds)"},
                "harness": None, "digest": "no-progress", "faults": {}, "probes": {}, "sim_time": 0, "states": [],
                "nontrivial": True, "events": 0, "notes": [], "timeout": True}
    try:
        return json.loads(b"".join(chunks))
    except Exception:
        return {"violation": None, "harness": f"child ended without a result, status {status}", "digest": "", "faults": {},
                "probes": {}, "sim_time": 0, "states": [], "nontrivial": False, "events": 0, "notes": []}


def emit(obj):
    sys.stdout.write(json.dumps(obj, default=repr) + "\n")
    sys.stdout.flush()


def job_batch(job, mod):
    """Runs the indices of this job until done, the deadline, or enough violations."""
    agg = {"runs": 0, "faults": {}, "probes": {}, "sim_time": 0.0, "events": 0}
    digests, states, sample_digests = set(), set(), {}
    samples = []
    found = 0
    deadline = time.monotonic() + job["max_seconds"]
    complete = True
    for index in job["indices"]:
        if time.monotonic() > deadline:
            complete = False
            break
        plan = make_plan(mod, job["seed"], index, job["tier"])
        out = run_forked(mod, plan, job["run_timeout"])
        if out["harness"]:
            emit({"kind": "harness", "index": index, "error": out["harness"]})
            break
        agg["runs"] += 1
        agg["sim_time"] += out["sim_time"]
        agg["events"] += out["events"]
        for k, v in out["faults"].items():
            agg["faults"][k] = agg["faults"].get(k, 0) + v
        for k, v in out["probes"].items():
            agg["probes"][k] = agg["probes"].get(k, 0) + v
        states.update(out["states"])
        if out["nontrivial"]:
            digests.add(out["digest"])
        if index in job["record"]:
            sample_digests[index] = out["digest"]
        if len(samples) < 1 and out["nontrivial"] and not out["violation"]:
            samples.append({"index": index, "plan": plan, "events": out["events"], "faults": out["faults"]})
        for note in out["notes"]:
            emit({"kind": "note", "index": index, "note": note})
        if out["violation"]:
            emit({"kind": "violation", "index": index, "plan": plan, "violation": out["violation"], "digest": out["digest"]})
            found += 1
            if found >= job["max_violations"]:
                complete = False
                break
    emit({"kind": "done", "agg": agg, "digests": sorted(digests), "states": sorted(states), "record": sample_digests,
          "samples": samples, "complete": complete})


def job_replay(job, mod):
    out = run_forked(mod, job["plan"], job["run_timeout"])
    emit({"kind": "replay", "out": out})


def job_shrink(job, mod):
    from sim.shrink import minimise
    deadline = time.monotonic() + job["max_seconds"]
    cls = job["cls"]
    tried = [0]

    def fails(plan):
        if time.monotonic() > deadline:
            return False
        tried[0] += 1
        out = run_forked(mod, plan, job["run_timeout"])
        return bool(out["violation"]) and out["violation"]["cls"] == cls and not out["harness"]

    plan = minimise(job["plan"], mod, fails, lambda: time.monotonic() > deadline)
    emit({"kind": "shrunk", "plan": plan, "tried": tried[0]})


def main():
    job = json.loads(sys.stdin.read())
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    except Exception:
        pass
    from sim import locks
    locks.install()
    mod = load(job["prop"])
    if hasattr(mod, "warm"):
        mod.warm()
    {"batch": job_batch, "replay": job_replay, "shrink": job_shrink}[job["job"]](job, mod)


if __name__ == "__main__":
    main()
