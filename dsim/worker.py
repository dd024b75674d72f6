"""
Worker process: executes simulated runs of one property, or replays or minimises
one run. Started by runner.py with a fixed PYTHONHASHSEED.
"""
import copy
import gc
import json
import logging
import os
import shutil
import sys
import threading
import time
import traceback

from . import gen, kernel

HANG_LIMIT = float(os.environ.get("DSIM_HANG_LIMIT", "90"))


def setup():
    from . import loader, seams
    sys.dont_write_bytecode = True
    sys.unraisablehook = lambda *a: None
    logging.disable(logging.CRITICAL)
    gc.disable()
    seams.install()
    loader.prepare()


class Watch:
    """Reports a run which does not return, e.g. because of an endless loop"""
    def __init__(self):
        from .seams import real
        self.real = real
        self.started = None
        self.index = None
        self.case = {}
        self.thread = threading.Thread(target=self.loop, daemon=True)
        self.thread.start()

    def loop(self):
        while True:
            self.real["sleep"](1.0)
            started = self.started
            if started is not None and self.real["monotonic"]() - started > HANG_LIMIT:
                frames = sys._current_frames()
                stacks = [traceback.format_stack(f)[-6:] for i, f in frames.items()
                          if i != threading.get_ident()]
                emit({"hang": self.index, "stacks": stacks, "case": self.case})
                os._exit(3)

    def __enter__(self):
        self.started = self.real["monotonic"]()

    def __exit__(self, *a):
        self.started = None


def emit(obj):
    sys.__stdout__.write(json.dumps(obj) + "\n")
    sys.__stdout__.flush()


def execute(profile, case, plan, root, seed, step_cap=None, record=None):
    """One run. Returns (sim, violation or None)"""
    from . import engine
    from .kernel import HarnessError, Stuck
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    sim = engine.new_sim(seed, root, case, plan, step_cap)
    if record is not None:
        sim.record = []
    violation = None
    try:
        try:
            profile.run(sim, case)
        except engine.Violation as v:
            violation = {"kind": v.kind, "message": v.message.replace(root, "~")}
        except Stuck as s:
            violation = {"kind": s.kind, "message": str(s).replace(root, "~")}
    finally:
        shutil.rmtree(root, ignore_errors=True)
    if violation:
        sim.log(f"VIOLATION {violation['kind']}: {violation['message']}")
    return sim, violation


_records = {}       # of the workload that was run last


def make_case(profile, index, verif_seed, tier, base, watch):
    """
    Consecutive runs share a workload: the first one shows which events there are,
    the others have faults at some of them.
    """
    number, variant = divmod(index, profile.variants)
    case = profile.make(f"{verif_seed}:{profile.id}:{number}", tier, number)
    faults = case["search"].get("faults")
    if not faults:
        if variant:
            case = profile.make(f"{verif_seed}:{profile.id}:{number}.{variant}", tier, index)
        return case, False
    plain = dict(case, search=dict(case["search"], faults=[] if profile.variants > 2 else [
        {k: v for k, v in f.items() if k != "pool"} for f in faults]))
    if variant == 0:
        return plain, True
    if number not in _records:
        first = index - variant
        _records.clear()
        run_one(profile, first, verif_seed, tier, base, watch, copy.deepcopy(plain), None, number)
    return dict(case, search=dict(case["search"], faults=gen.place(
        faults, _records[number], kernel.APPLICABLE, f"{verif_seed}:{profile.id}:{index}:place"))), False


def run_one(profile, index, verif_seed, tier, base, watch, case=None, plan=None, record=None):
    seed = f"{verif_seed}:{profile.id}:{index}"
    watch.index = index
    if case is None:
        case, first = make_case(profile, index, verif_seed, tier, base, watch)
        if first:
            record = index // profile.variants
    watch.case = case
    with watch:
        sim, violation = execute(profile, case, plan, f"{base}/{index}", seed, record=record)
    if record is not None:
        _records.clear()
        _records[record] = sim.record
    return case, sim, violation


def search(args):
    from .profiles import PROFILES
    profile = PROFILES[args["profile"]]
    watch = Watch()
    stats = {"runs": 0, "events": 0, "sim_time": 0.0, "fired": {}, "kinds": {}, "probes": {},
             "switches": 0, "fallbacks": 0, "digests": [], "schedules": [], "nontrivial": 0,
             "faulty_runs": 0, "ops": 0}
    started = watch.real["monotonic"]()
    violations = 0
    samples = []
    for n, index in enumerate(args["indexes"]):
        try:
            case, sim, violation = run_one(profile, index, args["seed"], args["tier"],
                                           args["base"], watch)
        except Exception as e:
            emit({"error": index, "message": f"{type(e).__name__}: {e}",
                  "traceback": traceback.format_exc()})
            return
        stats["runs"] += 1
        stats["events"] += sim.steps
        stats["sim_time"] += sim.clock
        stats["switches"] += sim.switches
        stats["fallbacks"] += sim.fallbacks
        for k, v in sim.damages.items():
            stats["fired"][k] = stats["fired"].get(k, 0) + v
        for f in sim.fired:
            k = f"{f['kind']} @ {f['event']}"
            stats["fired"][k] = stats["fired"].get(k, 0) + 1
        stats["faulty_runs"] += bool(sim.fired or sim.damages)
        for k, v in sim.kinds.items():
            stats["kinds"][k] = stats["kinds"].get(k, 0) + v
        for k, v in sim.probes.items():
            stats["probes"][k] = stats["probes"].get(k, 0) + v
        digest = sim.digest()
        stats["digests"].append(digest[:16])
        if sim.switches:
            stats["schedules"].append(sim.switch_hash.hexdigest()[:16])
        if profile.nontrivial(sim, case):
            stats["nontrivial"] += 1
        if len(samples) < 2 and profile.nontrivial(sim, case):
            samples.append(sample(index, case, sim))
        if args.get("digests"):
            emit({"run": index, "digest": digest,
                  "trace": sim.trace if args.get("traces") else None})
        if violation:
            violations += 1
            emit({"violation": violation, "index": index, "case": case, "plan": sim.used,
                  "seed": f"{args['seed']}:{profile.id}:{index}"})
            if violations >= args.get("max_violations", 3):
                break
        if n % 40 == 39:
            gc.collect()
    stats["wall"] = watch.real["monotonic"]() - started
    stats["samples"] = samples
    emit({"stats": stats})


def sample(index, case, sim):
    def brief(o):
        out = {k: v for k, v in o.items() if k in ("id", "op", "ver", "path", "file", "what", "which")}
        if "ops" in o:
            out["ops"] = [brief(x) for x in o["ops"]][:12]
        return out
    return {"run": index, "knobs": case.get("knobs"),
            "phases": [{"procs": [{"name": p["name"], "ops": [brief(o) for o in p["ops"]][:25]}
                                  for p in ph["procs"]]} for ph in case["phases"]][:6],
            "faults_fired": sim.fired[:6], "events": sim.steps, "switches": sim.switches}


def replay(args):
    from .profiles import PROFILES
    profile = PROFILES[args["profile"]]
    watch = Watch()
    _, sim, violation = run_one(profile, args["index"], args["seed"], args["tier"], args["base"],
                                watch, args["case"], args["plan"])
    emit({"replayed": violation, "trace": sim.trace[-args.get("tail", 60):], "digest": sim.digest(),
          "used": sim.used})


def all_op_lists(case):
    """Every list of operations in a case"""
    stack = [p for ph in case["phases"] for p in ph["procs"]]
    while stack:
        holder = stack.pop()
        yield holder["ops"]
        stack.extend(o for o in holder["ops"] if isinstance(o, dict) and "ops" in o)


def minimise(args):
    """Shrink operations, faults and switches while the same kind of violation persists"""
    from .profiles import PROFILES
    profile = PROFILES[args["profile"]]
    watch = Watch()
    deadline = watch.real["monotonic"]() + args.get("budget", 45)
    kind = args["violation"]["kind"]
    attempts = 0

    def fails(case, plan):
        nonlocal attempts
        attempts += 1
        if attempts % 30 == 0:
            gc.collect()
        try:
            _, sim, violation = run_one(profile, args["index"], args["seed"], args["tier"],
                                        args["base"], watch, copy.deepcopy(case), plan)
        except Exception:
            return None
        if violation is not None and violation["kind"] == kind:
            return sim, violation
        return None

    case, plan = args["case"], args["plan"]
    first = fails(case, plan)
    if first is None:
        emit({"minimised": None, "attempts": attempts})
        return
    best_sim, best_violation = first
    plan = {"faults": dict(best_sim.used["faults"]), "switches": dict(best_sim.used["switches"])}

    def out_of_time():
        return watch.real["monotonic"]() > deadline

    def shrink_list(get, put, chunk_start):
        """Delta debugging over a list"""
        nonlocal best_sim, best_violation
        changed = False
        chunk = chunk_start
        while chunk >= 1 and not out_of_time():
            i = 0
            while i < len(get()) and not out_of_time():
                saved = get()
                put(saved[:i] + saved[i + chunk:])
                result = fails(case, plan)
                if result:
                    best_sim, best_violation = result
                    changed = True
                else:
                    put(saved)
                    i += chunk
            chunk //= 2
        return changed

    for _ in range(4):
        changed = False
        for field in ("faults", "switches"):
            keys = list(plan[field])
            if not keys:
                continue
            values = dict(plan[field])

            def put(ks, field=field, values=values):
                plan[field] = {k: values[k] for k in ks}
            changed |= shrink_list(lambda field=field: list(plan[field]), put, max(1, len(keys) // 2))
        # whole phases and processes
        changed |= shrink_list(lambda: case["phases"], lambda v: case.__setitem__("phases", v),
                               max(1, len(case["phases"]) // 2))
        for phase in case["phases"]:
            if len(phase["procs"]) > 1:
                changed |= shrink_list(lambda phase=phase: phase["procs"],
                                       lambda v, phase=phase: phase.__setitem__("procs", v), 1)
        for ops in list(all_op_lists(case)):
            if out_of_time():
                break
            def put_ops(v, ops=ops):
                ops[:] = v
            changed |= shrink_list(lambda ops=ops: list(ops), put_ops, max(1, len(ops) // 2))
        if not changed or out_of_time():
            break
    final = fails(case, plan)
    if final:
        best_sim, best_violation = final
    emit({"minimised": {"case": case, "plan": plan, "violation": best_violation,
                        "trace": best_sim.trace[-200:], "digest": best_sim.digest()},
          "attempts": attempts})


def main():
    args = json.loads(sys.stdin.read())
    setup()
    try:
        {"search": search, "replay": replay, "minimise": minimise}[args["mode"]](args)
    except SystemExit:
        raise
    except BaseException as e:
        emit({"error": None, "message": f"{type(e).__name__}: {e}", "traceback": traceback.format_exc()})
    sys.__stdout__.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
