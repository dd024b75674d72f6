"""
The simulation kernel: simulated processes, scheduler, clock, fault injection,
and the explicit plan (faults and context switches) that makes a run repeatable.

A simulated process is a Python thread that owns a private instance of all
modules of the package under test (see loader.py). At every moment exactly one
thread runs. Control changes hands only inside `Sim.event()`, `Sim.sleep()` and
`Sim.block()`, which the seams (seams.py) call; who continues is decided by the
schedule, never by the operating system.

Every event has an address "process/operation/number"; a plan maps addresses to
faults and to context switches, and is therefore independent of any random
number generator. In search mode the plan is produced on the fly by a seeded
generator, in replay mode it is given.
"""
import errno
import hashlib
import os
import random
import sys
import threading
from typing import Callable, Dict, List, Optional

from . import loader


class SimKilled(BaseException):
    """The simulated process does not exist anymore"""


class SimAbort(BaseException):
    """The whole run is being torn down"""


class HarnessError(Exception):
    """The harness misbehaved; never reported as violation"""


class Stuck(Exception):
    """No task can make progress, or the step budget is used up"""
    def __init__(self, kind, message):
        super().__init__(message)
        self.kind = kind


_tasks_by_ident: Dict[int, "Task"] = {}


def current_task() -> Optional["Task"]:
    return _tasks_by_ident.get(threading.get_ident())


class Proc:
    """A simulated operating system process"""
    def __init__(self, sim: "Sim", name: str):
        self.sim = sim
        self.name = name
        self.dead = False
        self.skew = 0.0
        self.files = 0
        self.pid = 1000 + len(sim.procs)
        self.modules = loader.instantiate()
        sim.procs.append(self)

    def __getattr__(self, name):
        # proc.TreeVersionList etc.: look up public names in the module instances
        target = loader.API.get(name)
        if target is None:
            raise AttributeError(name)
        return getattr(self.modules["dataladmetadatamodel." + target], name)

    def mod(self, name):
        return self.modules["dataladmetadatamodel." + name]


class Op:
    __slots__ = ("id", "count", "faults", "start_step")

    def __init__(self, op_id, start_step):
        self.id = op_id
        self.count = 0
        self.faults = []
        self.start_step = start_step


class Task:
    def __init__(self, sim: "Sim", proc: Proc, fn: Callable, index: int):
        self.sim = sim
        self.proc = proc
        self.fn = fn
        self.index = index
        self.name = proc.name
        self.sem = threading.Semaphore(0)
        self.op = Op("-", 0)
        self.state = "ready"            # ready, blocked, done
        self.wake_at: Optional[float] = None
        self.ready_fn: Optional[Callable] = None
        self.error: Optional[BaseException] = None
        self.git_step: Optional[Callable] = None

    def runnable(self) -> bool:
        if self.state == "ready":
            return True
        if self.state == "blocked":
            if self.wake_at is not None and self.wake_at <= self.sim.clock:
                return True
            if self.ready_fn is not None and self.ready_fn():
                return True
        return False


# Which faults make sense at which events
APPLICABLE = {
    "fail": lambda k: k.startswith("git.") or k.startswith("fs.") or k == "lock.try",
    "lostack": lambda k: k.startswith("git.") and k.endswith(".end"),
    "kill": lambda k: k.startswith("git."),
    "spawn": lambda k: k.startswith("git.") and k.endswith(".start"),
    "interrupt": lambda k: k.startswith("git.") or k == "sleep",
    "enospc": lambda k: k.startswith("git.") and ".write." in k or k.startswith("fs."),
    "crash": lambda k: True,
    "crash-child": lambda k: k.startswith("git.") and not k.endswith(".end"),
    "stall": lambda k: True,
    "jump": lambda k: True,
    "netfail": lambda k: ".write.connect" in k,
    "netcut": lambda k: k.startswith("git.fetch.write.object"),
    "refrace": lambda k: False,
}

COST = {"git": 0.002, "fs": 0.0001, "lock": 0.0001, "sleep": 0.0, "user": 0.001}


class Sim:
    def __init__(self,
                 seed: str,
                 root: str,
                 plan: Optional[dict] = None,
                 search: Optional[dict] = None,
                 step_cap: int = 60000):
        """
        plan: explicit faults and switches (replay); None = search mode
        search: settings for search mode:
            switch: probability of a context switch at an event
            faults: list of armed faults {proc, op, cls, skip, kind, arg, times}
        """
        self.seed = seed
        self.root = root
        self.replaying = plan is not None
        self.plan = plan if plan is not None else {"faults": {}, "switches": {}}
        self.used: dict = {"faults": {}, "switches": {}}
        self.search = search or {}
        self.record = None         # (task, operation, event kind), to place faults in later runs
        self.armed = [dict(f, seen=0) for f in self.search.get("faults", [])]
        self.sched_rng = random.Random(f"{seed}:sched")
        self.switch_p = self.search.get("switch", 0.0)
        self.step_cap = step_cap
        self.steps = 0
        self.clock = 0.0
        self.epoch = 1_600_000_000.0
        self.jump = 0.0
        self.procs: List[Proc] = []
        self.tasks: List[Task] = []
        self.current: Optional[Task] = None
        self.phase = 0
        self.aborting: Optional[BaseException] = None
        self.main_sem = threading.Semaphore(0)
        self.trace: List[str] = []
        self.trace_on = True
        self.faults_enabled = True
        self.fired: List[dict] = []
        self.kinds: Dict[str, int] = {}
        self.damages: Dict[str, int] = {}       # of stored data, by kind
        self.switches = 0
        self.switch_hash = hashlib.sha1()
        self.probes: Dict[str, int] = {}
        self.locks: Dict[int, dict] = {}
        self.quiet = 0
        self.sleeps: Dict[str, int] = {}
        self.git = None            # set by seams.attach
        self.on_event: Optional[Callable] = None
        self.module_owner: Optional[Proc] = None
        self.names = 0
        self.tmp_dir = root + "/tmp"
        self.fallbacks = 0
        self.oracle_uses_real_git = False

    # -- bookkeeping ---------------------------------------------------------
    def probe(self, name: str, n: int = 1):
        self.probes[name] = self.probes.get(name, 0) + n

    def log(self, text: str):
        if self.trace_on:
            self.trace.append(text.replace(self.root, "~"))

    def digest(self) -> str:
        return hashlib.sha1("\n".join(self.trace).encode("utf-8", "backslashreplace")).hexdigest()

    # -- events --------------------------------------------------------------
    def event(self, kind: str, detail: str = "", can_crash: bool = True) -> Optional[dict]:
        """
        Called by the seams before an effect. Returns a fault which the caller has
        to realise, or None. Crashes, stalls and clock jumps are realised here.
        """
        task = current_task()
        if task is None or self.quiet:
            return None
        if self.aborting is not None:
            raise SimAbort()
        proc = task.proc
        if proc.dead:
            raise SimKilled()
        op = task.op
        number = op.count
        op.count += 1
        self.steps += 1
        self.clock += COST.get(kind.split(".", 1)[0], 0.0005)
        address = f"{task.name}/{op.id}/{number}"
        self.kinds[kind] = self.kinds.get(kind, 0) + 1
        self.log(f"{address} {kind} {detail}")
        if self.steps > self.step_cap:
            self.abort(Stuck("step-cap", f"no end after {self.step_cap} events ({kind} {detail})"))
            raise SimAbort()
        self._schedule_point(task, address)
        if proc.dead:
            raise SimKilled()
        if self.record is not None and self.faults_enabled:
            self.record.append((task.name, op.id, kind))
        fault = self._decide(task, address, kind) if self.faults_enabled else None
        if self.on_event is not None:
            self.on_event(task, kind, detail)
        if fault is None:
            return None
        op.faults.append(fault)
        self.fired.append(dict(fault, at=address, event=kind))
        self.log(f"{address} FAULT {fault['kind']}")
        if fault["kind"] == "crash":
            self.kill(proc)
            raise SimKilled()
        if fault["kind"] == "stall":
            self._stall(task, fault.get("arg", 1.0), address)
            return None
        if fault["kind"] == "jump":
            self.jump += fault.get("arg", 3600.0)
            return None
        return fault

    def _decide(self, task: Task, address: str, kind: str) -> Optional[dict]:
        if self.replaying:
            fault = self.plan["faults"].get(address)
            if fault is None or not APPLICABLE[fault["kind"]](kind):
                return None
            self.used["faults"][address] = fault
            return fault
        for armed in self.armed:
            if armed.get("times", 1) <= 0:
                continue
            if armed.get("proc") not in (None, task.name):
                continue
            if armed.get("op") not in (None, task.op.id):
                continue
            if not kind.startswith(armed["cls"]) or not APPLICABLE[armed["kind"]](kind):
                continue
            if armed.get("ends") and not kind.endswith(armed["ends"]):
                continue
            armed["seen"] += 1
            if armed["seen"] <= armed["skip"]:
                continue
            armed["times"] = armed.get("times", 1) - 1
            fault = {"kind": armed["kind"]}
            if "arg" in armed:
                fault["arg"] = armed["arg"]
            self.used["faults"][address] = fault
            return fault
        return None

    def kill(self, proc: Proc):
        """SIGKILL: the kernel releases the locks of the process"""
        proc.dead = True
        for table in self.locks.values():
            table.pop(proc.name, None)

    def abort(self, error: BaseException):
        if self.aborting is None:
            self.aborting = error

    # -- scheduling ----------------------------------------------------------
    def _runnable(self) -> List[Task]:
        return [t for t in self.tasks if t.runnable()]

    def _schedule_point(self, task: Task, address: str):
        if len(self.tasks) < 2:
            return
        if self.replaying:
            target = self.plan["switches"].get(address)
            if target is None or target == task.name:
                return
            for other in self.tasks:
                if other.name == target and other.runnable():
                    break
            else:
                return
        else:
            if self.switch_p <= 0 or self.sched_rng.random() >= self.switch_p:
                return
            others = [t for t in self._runnable() if t is not task]
            if not others:
                return
            other = self.sched_rng.choice(others)
        self.used["switches"][address] = other.name
        self._transfer(task, other)

    def _pick(self, key: str) -> Optional[Task]:
        """Choose a task when the current one can not continue"""
        candidates = self._runnable()
        if not candidates:
            sleepers = [t.wake_at for t in self.tasks
                        if t.state == "blocked" and t.wake_at is not None]
            if not sleepers:
                return None
            self.clock = max(self.clock, min(sleepers))
            candidates = self._runnable()
        choice = candidates[0]
        if self.replaying:
            target = self.plan["switches"].get(key)
            for t in candidates:
                if t.name == target:
                    choice = t
        elif len(candidates) > 1:
            choice = self.sched_rng.choice(candidates)
        if choice is not candidates[0]:
            self.used["switches"][key] = choice.name
        return choice

    def _transfer(self, task: Task, other: Task):
        self.switches += 1
        self.switch_hash.update(f"{task.name}:{task.op.id}:{task.op.count}>{other.name};".encode())
        self.log(f"  -> {other.name}")
        self._activate(other)
        other.sem.release()
        task.sem.acquire()
        if self.aborting is not None:
            raise SimAbort()

    def _activate(self, task: Task):
        task.state = "ready"
        task.wake_at = None
        task.ready_fn = None
        self.current = task
        self.use_modules(task.proc)

    def use_modules(self, proc: Proc):
        if self.module_owner is not proc:
            loader.activate(proc.modules)
            self.module_owner = proc

    def _wait(self, task: Task, key: str):
        """The current task is blocked: let somebody else run until it is ready"""
        other = self._pick(key)
        if other is None:
            self.abort(Stuck("deadlock", "all tasks wait: " + ", ".join(
                f"{t.name} in {t.op.id}" for t in self.tasks if t.state == "blocked")))
            raise SimAbort()
        if other is task:
            self._activate(task)
            return
        self._transfer(task, other)

    def sleep(self, duration: float):
        task = current_task()
        if task.proc.dead:
            raise SimKilled()
        self.sleeps[task.name] = self.sleeps.get(task.name, 0) + 1
        fault = self.event("sleep", f"{duration:.4f}")
        if fault and fault["kind"] == "interrupt":
            raise KeyboardInterrupt()
        task.state = "blocked"
        task.wake_at = self.clock + max(0.0, duration)
        self._wait(task, f"{task.name}/{task.op.id}/{task.op.count}/b")

    def _stall(self, task: Task, duration: float, address: str):
        if len(self.tasks) < 2:
            self.clock += duration
            return
        task.state = "blocked"
        task.wake_at = self.clock + duration
        self._wait(task, address + "/s")

    def block(self, ready_fn: Callable):
        task = current_task()
        task.state = "blocked"
        task.ready_fn = ready_fn
        self._wait(task, f"{task.name}/{task.op.id}/{task.op.count}/b")

    # -- running ---------------------------------------------------------------
    def spawn(self, name: str) -> Proc:
        proc = Proc(self, name)
        return proc

    def run(self, jobs) -> List[Task]:
        """
        Run the jobs, a list of (process, function), concurrently to completion.
        Returns the finished tasks. Raises Stuck and harness errors.
        """
        self.phase += 1
        self.tasks = [Task(self, proc, fn, i) for i, (proc, fn) in enumerate(jobs)]
        finished = self.tasks
        if len(self.tasks) == 1:
            task = self.tasks[0]
            self._activate(task)
            _tasks_by_ident[threading.get_ident()] = task
            try:
                self._body(task)
            finally:
                del _tasks_by_ident[threading.get_ident()]
        else:
            threads = []
            for task in self.tasks:
                thread = threading.Thread(target=self._thread, args=(task,), daemon=True)
                threads.append(thread)
                thread.start()
            first = self._pick(f"phase{self.phase}")
            self._activate(first)
            first.sem.release()
            self.main_sem.acquire()
            for thread in threads:
                thread.join()
        self.tasks = []
        self.current = None
        if self.aborting is not None:
            error, self.aborting = self.aborting, None
            raise error
        for task in finished:
            if task.error is not None:
                raise task.error
        return finished

    def _body(self, task: Task):
        try:
            task.fn(task)
        except SimKilled:
            pass
        except SimAbort:
            pass
        except BaseException as e:        # harness code leaked an exception
            task.error = e
            self.abort(e)
        task.state = "done"

    def _thread(self, task: Task):
        _tasks_by_ident[threading.get_ident()] = task
        task.sem.acquire()
        try:
            if self.aborting is None:
                self._body(task)
            else:
                task.state = "done"
        finally:
            del _tasks_by_ident[threading.get_ident()]
            self._next_after(task)

    def _next_after(self, task: Task):
        if self.aborting is not None:
            # tear down: release the tasks one after the other
            for other in self.tasks:
                if other.state != "done":
                    other.sem.release()
                    return
            self.main_sem.release()
            return
        if all(t.state == "done" for t in self.tasks):
            self.main_sem.release()
            return
        other = self._pick(f"{task.name}/end")
        if other is None:
            self.abort(Stuck("deadlock", "all tasks wait: " + ", ".join(
                f"{t.name} in {t.op.id}" for t in self.tasks if t.state == "blocked")))
            self._next_after(task)
            return
        self.log(f"  => {other.name}")
        self._activate(other)
        other.sem.release()

    # -- operations -------------------------------------------------------------
    def begin_op(self, op_id: str) -> Op:
        task = current_task()
        task.op = Op(op_id, self.steps)
        self.log(f"{task.name} BEGIN {op_id}")
        if task.proc.dead:
            raise SimKilled()
        return task.op

    def undisturbed(self):
        return _Undisturbed(self)

    # -- clocks -------------------------------------------------------------------
    def now(self, proc: Proc) -> float:
        return self.epoch + self.clock + self.jump + proc.skew


class _Undisturbed:
    """No events, no faults, no switches inside: harness work"""
    def __init__(self, sim):
        self.sim = sim

    def __enter__(self):
        self.sim.quiet += 1

    def __exit__(self, *args):
        self.sim.quiet -= 1
        return False


def os_error(number: int, path: str = "") -> OSError:
    return OSError(number, os.strerror(number), path)
