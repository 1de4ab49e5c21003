"""
Master of one check: distributes simulated runs over worker processes, minimises and verifies failures, writes evidence.

exit 0: the property held on every run; exit 1 with a VIOLATION line: it is broken; exit 2: the check itself failed.
"""
import argparse
import json
import os
import shutil
import subprocess
import sys
import tempfile
import threading
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
PYTHON = os.environ.get("SIM_PYTHON", "/opt/venv/bin/python")
if not os.path.exists(PYTHON):
    PYTHON = sys.executable


def child_env(scratch, hashseed="0", keep_log=False):
    env = dict(os.environ)
    env.update({
        "PYTHONHASHSEED": hashseed,
        "PYTHONDONTWRITEBYTECODE": "1",
        "PYTHONPYCACHEPREFIX": "/nonexistent/pycache",
        "PYTHONPATH": f"{REPO}:{ROOT}",
        "SIM_SCRATCH": scratch,
        "SIM_REPO": REPO,
        "TZ": "UTC",
        "LC_ALL": "C.UTF-8",
        "NO_PROXY": "*",
    })
    for name in ("HTTP_PROXY", "HTTPS_PROXY", "http_proxy", "https_proxy", "ALL_PROXY", "all_proxy", "REQUESTS_CA_BUNDLE"):
        env.pop(name, None)
    env.pop("SIM_KEEP_LOG", None)
    if keep_log:
        env["SIM_KEEP_LOG"] = "1"
    return env


def start_worker(job, scratch, hashseed="0", keep_log=False):
    proc = subprocess.Popen([PYTHON, "-W", "ignore", "-m", "sim.worker"], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                            stderr=subprocess.PIPE, env=child_env(scratch, hashseed, keep_log), cwd=scratch, text=True,
                            encoding="utf-8", errors="backslashreplace")
    lines, errs = [], []

    def feed():
        try:
            proc.stdin.write(json.dumps(job))
            proc.stdin.close()
        except BrokenPipeError:
            pass

    def read_out():
        for line in proc.stdout:
            lines.append(line)

    def read_err():
        for line in proc.stderr:
            errs.append(line)

    threads = [threading.Thread(target=f, daemon=True) for f in (feed, read_out, read_err)]
    for t in threads:
        t.start()
    return proc, threads, lines, errs


def finish(worker, timeout):
    proc, threads, lines, errs = worker
    try:
        proc.wait(timeout=timeout)
    except subprocess.TimeoutExpired:
        proc.kill()
        proc.wait()
        return None, "worker exceeded its time limit"
    for t in threads:
        t.join(10)
    out = [json.loads(line) for line in lines if line.strip().startswith("{")]
    if proc.returncode != 0:
        return out, f"worker exit {proc.returncode}: " + "".join(errs)[-3000:]
    return out, None


def one_job(job, scratch, timeout, hashseed="0", keep_log=False):
    out, error = finish(start_worker(job, scratch, hashseed, keep_log), timeout)
    return out or [], error


def replay(prop, plan, scratch, run_timeout, hashseed="0", keep_log=False):
    job = {"job": "replay", "prop": prop, "plan": plan, "run_timeout": run_timeout}
    out, error = one_job(job, scratch, run_timeout + 60, hashseed, keep_log)
    for item in out:
        if item["kind"] == "replay":
            return item["out"], None
    return None, error or "no result"


def die(message):
    print(f"CHECK-ERROR {message}", file=sys.stderr)
    print(f"CHECK-ERROR {message}")
    sys.exit(2)


def known_findings(prop):
    path = os.path.join(ROOT, "known_findings.json")
    with open(path) as f:
        data = json.load(f)
    return [entry for entry in data["findings"] if entry["property"] == prop and entry["status"] == "known"]


def run_check(prop, tier, seed, args):
    sys.path[:0] = [REPO, ROOT]
    sys.dont_write_bytecode = True
    import importlib
    mod = importlib.import_module("sim.props." + prop.lower())
    start = time.monotonic()
    scratch = tempfile.mkdtemp(prefix=f"vsim-{prop}-")
    try:
        code = run_check_in(mod, prop, tier, seed, args, scratch, start)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return code


def report(mod, prop, tier, seed, index, plan, violation, digest, scratch, shrink_seconds):
    """Minimise, verify in fresh processes, write the replay file and print the VIOLATION line. Returns True when confirmed."""
    cls = violation["cls"]
    candidates = []
    if cls != "no-progress":
        job = {"job": "shrink", "prop": prop, "plan": plan, "cls": cls, "run_timeout": mod.RUN_TIMEOUT, "max_seconds": shrink_seconds}
        out, _ = one_job(job, scratch, shrink_seconds + mod.RUN_TIMEOUT + 60)
        for item in out:
            if item["kind"] == "shrunk":
                candidates.append(("minimised", item["plan"], item["tried"]))
    candidates.append(("original", plan, 0))
    for label, cand, tried in candidates:
        confirmed = None
        digests = []
        for attempt in range(4):
            res, error = replay(prop, cand, scratch, mod.RUN_TIMEOUT, keep_log=True)
            if res and res["violation"] and res["violation"]["cls"] == cls:
                confirmed = confirmed or res
                digests.append(res["digest"])
                if len(digests) == 2:
                    break
        if confirmed:
            folder = os.path.join(ROOT, "replays")
            os.makedirs(folder, exist_ok=True)
            path = os.path.join(folder, f"{prop}-{seed}-{index}.json")
            with open(path, "w") as f:
                json.dump({
                    "property": prop, "seed": seed, "tier": tier, "index": index, "class": cls,
                    "message": confirmed["violation"]["message"], "kind": label, "shrink_attempts": tried,
                    "digest": confirmed["digest"], "reproduced_exactly": len(set(digests)) == 1 and len(digests) == 2,
                    "plan": cand, "log": confirmed.get("log", []),
                }, f, indent=1)
            print(f"violation class={cls} seed={seed} index={index} ({label} plan, digest {confirmed['digest'][:12]})")
            print("  " + confirmed["violation"]["message"][:1500])
            print(f"VIOLATION property={prop} replay={path}")
            return True
    return False


def run_check_in(mod, prop, tier, seed, args, scratch, start):
    n_workers = args.workers or max(1, min(16, len(os.sched_getaffinity(0))))
    runs = args.runs or mod.RUNS[tier]
    cap = {"quick": 400, "thorough": 7200}[tier]
    if args.max_seconds:
        cap = args.max_seconds
    known = known_findings(prop)
    known_cls = {entry["class"]: entry for entry in known}

    # known findings: re-demonstrate each of them
    known_seen = set()
    fixed_violations = []
    fixed = mod.fixed_plans() if hasattr(mod, "fixed_plans") else []
    for i, plan in enumerate(fixed):
        plan = json.loads(json.dumps(plan))
        res, error = replay(prop, plan, scratch, mod.RUN_TIMEOUT)
        if res is None or res["harness"]:
            die(f"{prop} fixed plan {i}: {error or res['harness']}")
        if res["violation"]:
            cls = res["violation"]["cls"]
            if cls in known_cls:
                known_seen.add(cls)
            else:
                fixed_violations.append((f"fixed{i}", plan, res["violation"], res["digest"]))

    # the search
    record_n = min(runs, getattr(mod, "REPEATED", {"quick": 48, "thorough": 200})[tier])
    record = set(range(0, runs, max(1, runs // record_n)))
    workers = []
    for w in range(n_workers):
        indices = list(range(w, runs, n_workers))
        if not indices:
            continue
        job = {"job": "batch", "prop": prop, "seed": seed, "tier": tier, "indices": indices, "record": [i for i in indices if i in record],
               "max_seconds": cap, "run_timeout": mod.RUN_TIMEOUT, "max_violations": 1}
        workers.append(start_worker(job, scratch))
    results, violations, errors, notes = [], [], [], []
    for worker in workers:
        out, error = finish(worker, cap + mod.RUN_TIMEOUT + 120)
        if error:
            errors.append(error)
        for item in out or []:
            if item["kind"] == "violation":
                violations.append(item)
            elif item["kind"] == "harness":
                errors.append(f"index {item['index']}: {item['error']}")
            elif item["kind"] == "note":
                notes.append(item)
            elif item["kind"] == "done":
                results.append(item)
    search_s = time.monotonic() - start

    agg = {"runs": 0, "faults": {}, "probes": {}, "sim_time": 0.0, "events": 0}
    digests, states, recorded, samples = set(), set(), {}, []
    for item in results:
        for key in ("runs", "sim_time", "events"):
            agg[key] += item["agg"][key]
        for key in ("faults", "probes"):
            for k, v in item["agg"][key].items():
                agg[key][k] = agg[key].get(k, 0) + v
        digests.update(item["digests"])
        states.update(item["states"])
        recorded.update({int(k): v for k, v in item["record"].items()})
        samples.extend(item["samples"])

    # determinism: repeat a sample of the runs in other processes, in another order, with another hash seed
    mismatches = []
    rerun = 0
    if recorded and not violations and not errors:
        order = sorted(recorded, reverse=True)
        jobs = []
        parts = max(1, min(n_workers, 4))
        for p in range(parts):
            idx = order[p::parts]
            if idx:
                jobs.append((p, start_worker({"job": "batch", "prop": prop, "seed": seed, "tier": tier, "indices": idx, "record": idx,
                                              "max_seconds": cap, "run_timeout": mod.RUN_TIMEOUT, "max_violations": 1},
                                             scratch, hashseed=str(1000 + 77 * p))))
        for p, worker in jobs:
            out, error = finish(worker, cap + mod.RUN_TIMEOUT + 120)
            if error:
                errors.append("determinism: " + error)
            for item in out or []:
                if item["kind"] == "done":
                    for k, v in item["record"].items():
                        rerun += 1
                        if recorded.get(int(k)) != v:
                            mismatches.append((int(k), 1000 + 77 * p))
                elif item["kind"] == "violation":
                    if getattr(mod, "MISMATCH_IS_VIOLATION", False):
                        # the same run had no violation with the first hash seed
                        mismatches.append((item["index"], 1000 + 77 * p))
                    else:
                        violations.append(item)
                elif item["kind"] == "harness":
                    errors.append(f"determinism index {item['index']}: {item['error']}")

    if mismatches and getattr(mod, "MISMATCH_IS_VIOLATION", False) and not violations:
        index, hashseed = mismatches[0]
        sys.path[:0] = [ROOT]
        from sim.worker import make_plan
        plan = make_plan(mod, seed, index, tier)
        a, _ = replay(prop, plan, scratch, mod.RUN_TIMEOUT, hashseed="0", keep_log=True)
        b, _ = replay(prop, plan, scratch, mod.RUN_TIMEOUT, hashseed=str(hashseed), keep_log=True)
        if a and b and a["digest"] != b["digest"]:
            folder = os.path.join(ROOT, "replays")
            os.makedirs(folder, exist_ok=True)
            path = os.path.join(folder, f"{prop}-{seed}-{index}-hashseed.json")
            with open(path, "w") as f:
                json.dump({"property": prop, "seed": seed, "tier": tier, "index": index, "class": "hash-seed-dependent", "hashseeds": ["0", str(hashseed)],
                           "message": "the same history gives different answers under another interpreter hash seed",
                           "digest": a["digest"], "digest_b": b["digest"], "plan": plan, "log": a.get("log"), "log_b": b.get("log")}, f, indent=1)
            diff = [(x, y) for x, y in zip(a.get("log", []), b.get("log", [])) if x != y][:1]
            print(f"violation class=hash-seed-dependent seed={seed} index={index}: {diff}")
            print(f"VIOLATION property={prop} replay={path}")
            write_evidence(mod, prop, tier, seed, agg, digests, states, samples, search_s, start, rerun, mismatches, known_seen, 1, runs, notes, n_workers)
            return 1

    confirmed = 0
    unconfirmed = 0
    known_hits = {}
    todo = fixed_violations + [(v["index"], v["plan"], v["violation"], v["digest"]) for v in sorted(violations, key=lambda v: v["index"])]
    seen_cls = set()
    for index, plan, violation, digest in todo:
        if violation["cls"] in known_cls:
            known_seen.add(violation["cls"])
            known_hits[violation["cls"]] = known_hits.get(violation["cls"], 0) + 1
            continue
        if violation["cls"] in seen_cls or len(seen_cls) >= 3:
            continue
        if report(mod, prop, tier, seed, index, plan, violation, digest, scratch, 60 if tier == "quick" else 300):
            confirmed += 1
            seen_cls.add(violation["cls"])
        else:
            unconfirmed += 1
            errors.append(f"index {index}: {violation} did not reproduce in a fresh process")
    for cls in sorted(known_seen):
        print(f"KNOWN-FINDING: property={prop} {known_cls[cls]['what']}")

    write_evidence(mod, prop, tier, seed, agg, digests, states, samples, search_s, start, rerun, mismatches, known_seen, confirmed, runs, notes, n_workers)
    print(f"{prop} {tier}: {agg['runs']}/{runs} runs, {len(digests)} distinct non-trivial, {len(states)} states, "
          f"faults {sum(agg['faults'].values())}, {time.monotonic() - start:.1f} s, determinism {rerun} reruns {len(mismatches)} mismatches")
    if args.verbose:
        print(json.dumps({"faults": agg["faults"], "probes": agg["probes"]}, indent=1, sort_keys=True))
    if confirmed:
        return 1
    if errors:
        die(f"{prop}: " + errors[0])
    if agg["runs"] < runs * 0.1:
        die(f"{prop}: only {agg['runs']} of {runs} runs were done within {cap} s")
    if mismatches:
        if os.environ.get("SIM_STRICT"):
            die(f"{prop}: runs are not deterministic: {mismatches[:5]}")
        print(f"note: {len(mismatches)} of {rerun} repeated runs had another event log: {mismatches[:5]}")
    missing = [p for p in getattr(mod, "REQUIRED_PROBES", []) if not agg["probes"].get(p)]
    if missing:
        print(f"note: probes that were never hit: {missing}")
        if os.environ.get("SIM_STRICT"):
            die(f"{prop}: probes never hit: {missing}")
    return 0


def write_evidence(mod, prop, tier, seed, agg, digests, states, samples, search_s, start, rerun, mismatches, known_seen, confirmed, runs, notes, n_workers):
    folder = os.path.join(ROOT, "evidence")
    os.makedirs(folder, exist_ok=True)
    hours = max(search_s, 1e-6) / 3600
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": mod.LEVEL,
        "coverage": {
            "evaluations": agg["runs"],
            "distinct_nontrivial": len(digests),
            "rule": mod.RULE,
            "samples": samples[:3],
            "planned_runs": runs,
            "runs_per_hour": round(agg["runs"] / hours),
            "seeds_per_hour": round(agg["runs"] / hours),
            "workers": n_workers,
            "simulated_seconds": round(agg["sim_time"], 3),
            "simulated_events": agg["events"],
            "faults_injected": agg["faults"],
            "probes": agg["probes"],
            "distinct_states": len(states),
            "state_measure": mod.STATE_MEASURE,
            "real_components": mod.REAL,
            "stubbed_components": mod.STUBS,
            "determinism": {"repeated_runs": rerun, "hash_seeds": "0 against 1000+77k", "different_event_logs": len(mismatches)},
            "known_findings_seen": sorted(known_seen),
            "notes": notes[:5],
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.monotonic() - start, 2),
        "violations": confirmed,
    }
    path = os.path.join(folder, f"{prop}.json")
    tmp = path + ".tmp"
    with open(tmp, "w") as f:
        json.dump(evidence, f, indent=1)
    os.replace(tmp, path)


def run_replay(prop, path):
    with open(path) as f:
        data = json.load(f)
    prop = data["property"]
    sys.path[:0] = [REPO, ROOT]
    sys.dont_write_bytecode = True
    import importlib
    mod = importlib.import_module("sim.props." + prop.lower())
    scratch = tempfile.mkdtemp(prefix=f"vsim-{prop}-")
    try:
        res, error = replay(prop, data["plan"], scratch, mod.RUN_TIMEOUT, keep_log=True)
        if data["class"] == "hash-seed-dependent":
            other, _ = replay(prop, data["plan"], scratch, mod.RUN_TIMEOUT, hashseed=data["hashseeds"][1], keep_log=True)
            if res and other and res["digest"] != other["digest"]:
                print(f"VIOLATION property={prop} replay={path}")
                return 1
            return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    if res is None or res["harness"]:
        die(error or res["harness"])
    for line in res.get("log", []):
        print(line)
    print("digest", res["digest"], "same as recorded" if res["digest"] == data["digest"] else "DIFFERENT from recorded")
    if res["violation"]:
        print(res["violation"]["message"])
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    return 0


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument("property")
    parser.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    parser.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    parser.add_argument("--replay")
    parser.add_argument("--runs", type=int)
    parser.add_argument("--workers", type=int)
    parser.add_argument("--max-seconds", type=float)
    parser.add_argument("--verbose", action="store_true")
    args = parser.parse_args()
    if args.replay:
        sys.exit(run_replay(args.property, args.replay))
    print(f"VERIF_SEED={args.seed} VERIF_TIER={args.tier}")
    sys.exit(run_check(args.property, args.tier, args.seed, args))
