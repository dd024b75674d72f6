"""
Runs a check: distributes simulated runs over worker processes, collects
violations and statistics, minimises and writes the replay file, writes the
evidence.
"""
import fcntl
import json
import os
import re
import shutil
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PYTHON = "/opt/venv/bin/python"
GROUPS = 16


def interpreter():
    return PYTHON if os.path.exists(PYTHON) else sys.executable


class Scratch:
    """A directory of our own, with a path that does not vary between invocations"""
    def __init__(self, tag: str):
        parent = "/dev/shm" if os.access("/dev/shm", os.W_OK) else "/tmp"
        for k in range(100):
            path = f"{parent}/dsim-{tag}-{k}"
            os.makedirs(path, exist_ok=True)
            self.lock = open(path + "/.lock", "w")
            try:
                fcntl.flock(self.lock, fcntl.LOCK_EX | fcntl.LOCK_NB)
            except OSError:
                self.lock.close()
                continue
            self.path = path
            return
        raise RuntimeError("no scratch directory")

    def remove(self):
        shutil.rmtree(self.path, ignore_errors=True)
        self.lock.close()


def start_worker(args: dict, hashseed: int):
    env = dict(os.environ, PYTHONHASHSEED=str(hashseed), PYTHONPATH=VERIF,
               PYTHONDONTWRITEBYTECODE="1")
    for name in ("GIT_DIR", "GIT_WORK_TREE", "GIT_INDEX_FILE"):
        env.pop(name, None)
    process = subprocess.Popen([interpreter(), "-m", "dsim.worker"], stdin=subprocess.PIPE,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=VERIF)
    errors = []

    def drain():
        errors.append(process.stderr.read())
    thread = threading.Thread(target=drain, daemon=True)
    thread.start()
    process.stdin.write(json.dumps(args).encode())
    process.stdin.close()
    return process, thread, errors


def call_worker(args: dict, hashseed: int, on_message, timeout=1e9):
    """Run a worker to its end; on_message gets every message. Returns stderr"""
    process, thread, errors = start_worker(args, hashseed)
    timer = None
    if timeout < 1e8:
        timer = threading.Timer(timeout, process.kill)
        timer.start()
    for line in process.stdout:
        try:
            message = json.loads(line)
        except ValueError:
            continue
        if on_message(message) == "stop":
            process.kill()
            break
    process.wait()
    if timer:
        timer.cancel()
    thread.join(5)
    process.stdout.close()
    return (errors[0] if errors else b"").decode("utf-8", "replace")


def hashseed_of(index: int, seed: int) -> int:
    return group_of(index) * 7919 + seed % 1000 + 1


def group_of(index: int) -> int:
    # 12: a multiple of all numbers of variants, which belong together
    return index // 12 % GROUPS


def run_check(profile_id, tier, seed, runs=None, jobs=None, max_violations=1, quiet=False):
    from . import meta
    info = meta.CHECKS[profile_id]
    runs = runs or info["runs"][tier]
    jobs = jobs or min(8, os.cpu_count() or 1)
    started = time.monotonic()
    scratch = Scratch(profile_id)
    groups = [[i for i in range(runs) if group_of(i) == g] for g in range(GROUPS)]
    pending = [g for g in range(GROUPS) if groups[g]]
    messages = {g: [] for g in pending}
    stderr = {}
    lock = threading.Lock()
    stop = threading.Event()

    def consume():
        while True:
            with lock:
                if not pending or stop.is_set():
                    return
                g = pending.pop(0)

            def on_message(m, g=g):
                messages[g].append(m)
                if "violation" in m or "error" in m or "hang" in m:
                    stop.set()
                return None

            stderr[g] = call_worker(
                {"mode": "search", "profile": profile_id, "indexes": groups[g], "seed": seed,
                 "tier": tier, "base": scratch.path, "max_violations": max_violations},
                hashseed_of(groups[g][0], seed), on_message,
                info.get("wall", {}).get(tier, 850 if tier == "quick" else 3 * 3600))

    threads = [threading.Thread(target=consume) for _ in range(jobs)]
    for t in threads:
        t.start()
    for t in threads:
        t.join()

    stats_list, violations, errors, hangs, unfinished = [], [], [], [], []
    for g, ms in messages.items():
        finished = False
        for m in ms:
            if "stats" in m:
                stats_list.append(m["stats"])
                finished = True
            elif "violation" in m:
                violations.append(m)
            elif "error" in m:
                errors.append(m)
                finished = True
            elif "hang" in m:
                hangs.append(m)
                finished = True
        if not finished and not (stop.is_set() and not ms):
            unfinished.append((g, stderr.get(g, "")[-2000:]))
    result = {"stats": merge(stats_list), "violations": sorted(violations, key=lambda v: v["index"]),
              "errors": errors, "hangs": hangs, "unfinished": unfinished, "scratch": scratch,
              "wall": time.monotonic() - started, "runs": runs, "jobs": jobs}
    return result


def merge(stats_list):
    total = {}
    for s in stats_list:
        for k, v in s.items():
            if isinstance(v, dict):
                d = total.setdefault(k, {})
                for kk, vv in v.items():
                    d[kk] = d.get(kk, 0) + vv
            elif isinstance(v, list):
                total.setdefault(k, []).extend(v)
            else:
                total[k] = total.get(k, 0) + v
    return total


def known_findings():
    """known: property=<id> kind=<kind> match=<regular expression> # text"""
    result = []
    path = VERIF + "/KNOWN_FINDINGS"
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                m = re.match(r"^known: property=(\S+) kind=(\S+) match=(.*?)(?: # (.*))?$", line.strip())
                if m:
                    result.append(m.groups())
    return result


def is_known(profile_id, violation):
    for prop, kind, pattern, text in known_findings():
        if prop == profile_id and kind == violation["kind"] and re.search(pattern, violation["message"]):
            return text or pattern
    return None


def minimise(profile_id, tier, seed, v, base, budget=40):
    found = {}

    def on_message(m):
        if "minimised" in m:
            found.update(m)

    call_worker({"mode": "minimise", "profile": profile_id, "index": v["index"], "seed": seed,
                 "tier": tier, "base": base, "case": v["case"], "plan": v["plan"],
                 "violation": v["violation"], "budget": budget},
                hashseed_of(v["index"], seed), on_message, budget + 60)
    return found


def replay_case(profile_id, tier, seed, index, case, plan, base, hashseed=None, timeout=200):
    found = {}

    def on_message(m):
        if "replayed" in m or "hang" in m or "error" in m:
            found.update(m)

    call_worker({"mode": "replay", "profile": profile_id, "index": index, "seed": seed, "tier": tier,
                 "base": base, "case": case, "plan": plan},
                hashseed if hashseed is not None else hashseed_of(index, seed), on_message, timeout)
    return found


def write_evidence(profile_id, tier, seed, result, violations, extra=None):
    from . import meta
    info = meta.CHECKS[profile_id]
    s = result["stats"]
    wall = result["wall"]
    runs = s.get("runs", 0)
    digests = s.get("digests", [])
    fired = s.get("fired", {})
    by_kind = {}
    for k, v in fired.items():
        by_kind[k.split(" @ ")[0]] = by_kind.get(k.split(" @ ")[0], 0) + v
    probes = dict(sorted(s.get("probes", {}).items()))
    unreached = [p for p in info.get("expect_probes", []) if not probes.get(p)]
    evidence = {
        "property": profile_id, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": min(len(set(digests)), s.get("nontrivial", 0)),
            "rule": info["rule"],
            "samples": s.get("samples", [])[:3] or [{"note": "no run completed"}],
            "runs_per_hour": round(runs / wall * 3600) if wall else 0,
            "seeds": runs,
            "simulated_seconds": round(s.get("sim_time", 0.0), 1),
            "simulated_events": s.get("events", 0),
            "runs_with_faults": s.get("faulty_runs", 0),
            "faults_injected_by_kind": dict(sorted(by_kind.items())),
            "faults_injected_by_kind_and_place": dict(sorted(fired.items())),
            "distinct_event_histories": len(set(digests)),
            "distinct_interleavings": len(set(s.get("schedules", []))),
            "context_switches": s.get("switches", 0),
            "event_kinds": dict(sorted(s.get("kinds", {}).items())),
            "probes": probes,
            "probes_never_hit": unreached,
            "real_git_commands": s.get("fallbacks", 0),
            "real_components": "all code of dataladmetadatamodel from /repo's working tree, fasteners, "
                               "appdirs, tempfile, subprocess.run, the file system (tmpfs)",
            "stubs": "git (in-process emulation on real repository directories), fcntl locks, "
                     "process creation and death, clocks, sleep, network transport of fetch",
            "exhaustive": False,
        },
        "assumptions": info["assumptions"],
        "wall_s": round(wall, 2),
        "violations": len(violations),
    }
    if extra:
        evidence["coverage"].update(extra)
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    with open(f"{VERIF}/evidence/{profile_id}.json", "w") as f:
        json.dump(evidence, f, indent=1, sort_keys=True)


def write_replay(profile_id, tier, seed, v, minimised, confirmed):
    os.makedirs(VERIF + "/replays", exist_ok=True)
    path = f"{VERIF}/replays/{profile_id}-{seed}-{v['index']}.json"
    m = minimised or {}
    data = {"property": profile_id, "tier": tier, "verif_seed": seed, "index": v["index"],
            "hashseed": hashseed_of(v["index"], seed),
            "violation": m.get("violation", v["violation"]), "minimised": bool(m),
            "replay_confirmed": confirmed,
            "case": m.get("case", v["case"]), "plan": m.get("plan", v["plan"]),
            "trace": m.get("trace", []),
            "original": {"violation": v["violation"], "plan": v["plan"],
                         "faults": len(v["plan"]["faults"]), "switches": len(v["plan"]["switches"])}}
    with open(path, "w") as f:
        json.dump(data, f, indent=1)
    return path


def main(argv):
    import argparse
    from . import meta
    parser = argparse.ArgumentParser()
    parser.add_argument("property", choices=sorted(meta.CHECKS))
    parser.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    parser.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or "1"))
    parser.add_argument("--runs", type=int)
    parser.add_argument("--jobs", type=int)
    parser.add_argument("--replay")
    parser.add_argument("--no-minimise", action="store_true")
    args = parser.parse_args(argv)
    tier = args.tier if args.tier in ("quick", "thorough") else "quick"
    pid = args.property

    if args.replay:
        with open(args.replay) as f:
            data = json.load(f)
        scratch = Scratch(pid)
        try:
            found = replay_case(pid, data["tier"], data["verif_seed"], data["index"], data["case"],
                                data["plan"], scratch.path, data["hashseed"])
        finally:
            scratch.remove()
        for line in found.get("trace", []):
            print("  " + line)
        violation = found.get("replayed") or ({"kind": "hang", "message": "run does not end"}
                                              if "hang" in found else None)
        if violation:
            print(f"{violation['kind']}: {violation['message']}")
            print(f"VIOLATION property={pid} replay={args.replay}")
            return 1
        if "replayed" not in found:
            print("error:", found)
            return 2
        print("the replay shows no violation")
        return 0

    print(f"{pid}: {meta.CHECKS[pid]['title']}; seed {args.seed}, tier {tier}", flush=True)
    result = run_check(pid, tier, args.seed, args.runs, args.jobs)
    scratch = result["scratch"]
    try:
        report, known = [], {}
        for v in result["violations"]:
            text = is_known(pid, v["violation"])
            if text:
                known.setdefault(text, v)
            else:
                report.append(v)
        for h in result["hangs"]:
            # confirm: a run that does not end, ends neither on its own
            again = {}

            def on_message(m):
                again.update(m)
            call_worker({"mode": "search", "profile": pid, "indexes": [h["hang"]], "seed": args.seed,
                         "tier": tier, "base": scratch.path}, hashseed_of(h["hang"], args.seed),
                        on_message, 300)
            if "hang" in again:
                report.append({"violation": {"kind": "hang", "message": "the run does not end: "
                                             + str(h["stacks"])[-1500:]},
                               "index": h["hang"], "case": h.get("case", {}), "plan": {"faults": {}, "switches": {}}})
        write_evidence(pid, tier, args.seed, result, report)
        for text, v in known.items():
            print(f"KNOWN-FINDING: property={pid} {text}")
        s = result["stats"]
        if report:
            v = report[0]
            print(f"{v['violation']['kind']}: {v['violation']['message']}")
            minimised, confirmed = None, False
            if not args.no_minimise and v["violation"]["kind"] != "hang":
                m = minimise(pid, tier, args.seed, v, scratch.path)
                minimised = m.get("minimised")
                if minimised:
                    print(f"minimised ({m['attempts']} attempts): {minimised['violation']['kind']}: "
                          f"{minimised['violation']['message']}")
                    print(f"  faults: {json.dumps(minimised['plan']['faults'])}")
                    print(f"  switches: {len(minimised['plan']['switches'])}")
                use = minimised or v
                again = replay_case(pid, tier, args.seed, v["index"], use["case"], use["plan"], scratch.path)
                confirmed = bool(again.get("replayed")) and \
                    again["replayed"]["kind"] == v["violation"]["kind"]
                print(f"replay in a fresh process {'confirms' if confirmed else 'DOES NOT confirm'} it")
            path = write_replay(pid, tier, args.seed, v, minimised, confirmed)
            print(f"VIOLATION property={pid} replay={path}")
            return 1
        if result["errors"] or result["unfinished"] or result["hangs"]:
            for e in result["errors"][:3]:
                print("harness error in run", e.get("error"), e["message"])
                print(e["traceback"][-3000:])
            for g, err in result["unfinished"][:3]:
                print(f"worker group {g} did not finish: {err}")
            for h in result["hangs"][:2]:
                print("unconfirmed hang", h)
            return 2
        print(f"held: {s['runs']} runs, {s['events']} events, {s['sim_time']:.0f} simulated seconds, "
              f"{sum(s['fired'].values())} faults in {s['faulty_runs']} runs, {s['switches']} switches, "
              f"{len(set(s['digests']))} distinct histories, {result['wall']:.1f} s, "
              f"{s['runs'] / result['wall'] * 3600:.0f} runs/hour")
        return 0
    finally:
        scratch.remove()


def setup():
    """nothing has to be built; make sure that the parts are there"""
    code = ("import dsim.seams, dsim.loader, dsim.profiles; dsim.seams.install(); dsim.loader.prepare(); "
            "print('ready')")
    return subprocess.run([interpreter(), "-c", code], cwd=VERIF, env=dict(os.environ, PYTHONPATH=VERIF)).returncode
