"""
One profile per property: generates the cases (workload, faults, knobs) and says
which oracles run when. A case is explicit JSON; running it needs no randomness
except that of the schedule, which is recorded.
"""
import base64
import copy

from . import engine, foreign
from .gen import (FILE_EVENTS, Gen, READ_EVENTS, SessionGen, Vocabulary, WRITE_EVENTS, arm, flatten)

DIRS = ["with space", "ümlaut", "semi;colon", "dollar$HOME", "quo'te\"s", "-dash", "tab\tname", "a&b|c",
        "Mixed Case", "trailing ", " leading", "dot.git", "50%20x", "[x]*?", "back\\slash", "new\nline"]
# Texts whose git blobs have names with the same first nine or six digits
COLLIDING = [[129561, 297743], [309455, 487283], [340034, 431045], [47553, 215191, 344722, 377597],
             [168605, 310037, 504922, 759020], [206298, 448899, 518847, 543210]]
STORE, GC, ITEMS, PROGRESS, MEND = ({"check": c} for c in ("store", "gc", "items", "progress", "mend"))

PURGING = {"unget": 3, "purge": 2, "read_all": 2}
SHARING = {"us_set": 6, "held": 2, "auto": 5}


class Profile:
    id = None
    variants = 1        # runs per workload

    def make(self, seed, tier, index):
        g = Gen(seed)
        g.tier, g.index = tier, index
        case = {"realms": {"R": {}}, "knobs": {}, "search": {}, "phases": []}
        self.build(g, case)
        return case

    def build(self, g, case):
        raise NotImplementedError

    def run(self, sim, case):
        world = engine.World(sim, case)
        sim.oracle_uses_real_git = bool(case["knobs"].get("real_oracle"))
        engine.run_phases(world, case)

    def nontrivial(self, sim, case):
        return sim.git.refs_written > 0


# ---------------------------------------------------------------------------
# common parts
def vocabulary(g, size=None):
    return Vocabulary(g, size or g.r.randrange(1, 4), g.r.choice([0.0, 0.2, 0.6]))


def n_ops(g, high=12):
    if g.chance(0.03):
        return g.r.randrange(20, 60)
    return g.r.randrange(1, high)


def common_knobs(g, case, realm="R"):
    if g.chance(0.25):
        case["realms"][realm]["dir"] = g.r.choice(DIRS)
    if g.chance(0.15):
        case["realms"][realm]["config"] = {"core.quotepath": "false"}
    if g.chance(0.5):
        case["knobs"]["cache"] = g.r.choice([1, 2, 3, 5, 8])
    if g.chance(0.012):
        case["knobs"]["real_oracle"] = True


def phase(name, procs, after=(), faults=True):
    return {"id": name, "procs": procs, "after": list(after), "faults": faults}


def sessions(g, s, n, high=10, **kw):
    ops = []
    for _ in range(n):
        ops += s.session(n_ops(g, high), saves=g.r.choice([1, 1, 1, 2]), fresh=g.chance(0.25), **kw)
    return ops


def setup_phase(g, s, case, after=(), chance=0.8, high=10):
    """something that is in the store before it gets difficult"""
    if g.chance(chance):
        case["phases"].append(phase("setup", [{"name": "P0", "exit": True,
                                               "ops": sessions(g, s, g.r.randrange(1, 3), high)}],
                                    after, faults=False))


def puts(g, v, s, n, flush=True, text=0.15):
    """operations that store standalone elements"""
    ops = []
    for i in range(n):
        kind = g.r.random()
        if not hasattr(g, "collide"):
            # neighbours in the object references
            g.collide = g.r.choice(COLLIDING) if g.chance(0.3) else None
        if g.collide and g.chance(0.5):
            ops.append(s.base("put", what="text", text=f"c{g.r.choice(g.collide)}"))
        elif kind < text:
            content = g.r.choice(["", "line\n", "a\r\nb\x0b\x0c\x1c\x85\u2028c\n\n", "no newline", "ü\x00\n"])
            ops.append(s.base("put", what="text", text=content + (g.token() if g.chance(0.8) else "")))
        elif kind < 0.75:
            ops.append(s.base("put", what="ft", files=g.files(v.odd, g.r.randrange(1, 4))))
        else:
            ops.append(s.base("put", what="tree", tree=g.tree(v.odd)))
        if flush and g.chance(0.4):
            ops.append(s.base("flush"))
    if flush:
        ops.append(s.base("flush"))
    return ops


def set_faults(g, case, ops, classes, kinds, most=2, proc=None, weight=None):
    case["search"].setdefault("faults", []).extend(
        arm(g, ops, classes, kinds, g.r.randrange(1, most + 1), proc, weight))


def rot(g, s, ops, what):
    """damage of stored data before or between some operations"""
    for _ in range(g.r.choice([1, 1, 2])):
        ops.insert(0 if g.chance(0.5) else g.r.randrange(len(ops) + 1),
                   s.base("rot", what=g.r.choice(what), n=g.r.randrange(1000), count=g.r.choice([1, 1, 2, 5]),
                          corrupt=g.chance(0.4)))


HEAVY_SAVE = {"save_tvl": 6, "save_us": 5, "flush": 5, "save_sub": 2, "unget_tree": 2, "put": 5, "copy": 5}


# ---------------------------------------------------------------------------
class C01(Profile):
    """what was saved is what every later process reads"""
    id = "C01"

    def build(self, g, case):
        common_knobs(g, case)
        v = vocabulary(g)
        s = SessionGen(g, v, {"held": 1, "unget": 0.5, "purge": 0.3, "save_sub": 0.7})
        for i in range(g.r.randrange(1, 4)):
            ops = sessions(g, s, g.r.randrange(1, 3))
            if g.chance(0.25):
                ops += puts(g, v, s, g.r.randrange(1, 3))
            if g.chance(0.1):
                case["knobs"].setdefault("skew", {})[f"P{i}"] = g.r.choice([1e6, -1e6, 3.5])
            case["phases"].append(phase(f"p{i}", [{"name": f"P{i}", "ops": ops, "exit": g.chance(0.8)}],
                                        [STORE, ITEMS, GC]))
            if g.chance(0.1):
                case["search"].setdefault("faults", []).extend(arm(g, ops, [""], ["jump"], 2))


class C02(Profile):
    """a process dies at any point: old or new content, never something else"""
    id = "C02"
    variants = 4

    def build(self, g, case):
        common_knobs(g, case)
        v = vocabulary(g)
        s = SessionGen(g, v, {"save_sub": 1, "unget": 1})
        setup_phase(g, s, case, [STORE])
        for i in range(1 if g.chance(0.7) else 2):
            ops = sessions(g, s, g.r.randrange(1, 3))
            set_faults(g, case, ops, ["git.", "git.", "git.update-ref", "fs.", ""],
                       ["crash", "crash", "crash-child"], 1, weight=HEAVY_SAVE)
            case["phases"].append(phase(f"victim{i}", [{"name": f"V{i}", "ops": ops, "exit": True}], [STORE, GC]))
        after = sessions(g, s, 1)
        case["phases"].append(phase("after", [{"name": "A", "ops": after, "exit": True}], [STORE, GC, PROGRESS]))

    def nontrivial(self, sim, case):
        return bool(sim.fired)


class C03(Profile):
    """an operation that fails changes nothing that others see, and one that returns did its work"""
    id = "C03"
    variants = 4
    policy = "abort"

    def build(self, g, case):
        common_knobs(g, case)
        v = vocabulary(g)
        s = SessionGen(g, v, {"save_sub": 1, "unget": 1, "held": 1})
        setup_phase(g, s, case, [STORE])
        ops = sessions(g, s, g.r.randrange(1, 4))
        if g.chance(0.2):
            ops += puts(g, v, s, 2)
        set_faults(g, case, ops, WRITE_EVENTS + FILE_EVENTS,
                   ["fail", "kill", "lostack", "spawn", "enospc", "interrupt"], 3, weight=HEAVY_SAVE)
        case["phases"].append(phase("faults", [{"name": "P1", "ops": ops, "policy": self.policy}], [STORE]))
        # the same process goes on
        case["phases"].append(phase("goes-on", [{"name": "P1", "ops": sessions(g, s, 1), "exit": True}],
                                    [STORE, ITEMS, GC], faults=False))
        case["phases"].append(phase("other", [{"name": "P2", "ops": sessions(g, s, 1), "exit": True}],
                                    [STORE, ITEMS, GC], faults=False))

    def nontrivial(self, sim, case):
        return bool(sim.fired)


class C04(C03):
    """an operation that failed can be repeated"""
    id = "C04"
    policy = "retry"

    def build(self, g, case):
        common_knobs(g, case)
        v = vocabulary(g)
        two = g.chance(0.3)
        mix = {"save_sub": 1, "unget": 1, "held": 1}
        if two:
            case["realms"]["D"] = {}
            mix["copy"] = 2
        s = SessionGen(g, v, mix, copy_to="D" if two else None)
        setup_phase(g, s, case, [STORE])
        ops = sessions(g, s, g.r.randrange(1, 4))
        if two:
            ops.append(s.base("flush", realm="D"))
        if g.chance(0.2):
            ops += puts(g, v, s, 2)
        set_faults(g, case, ops, WRITE_EVENTS + FILE_EVENTS + (READ_EVENTS if g.chance(0.3) else []),
                   ["fail", "kill", "lostack", "spawn", "enospc", "interrupt"], 3, weight=HEAVY_SAVE)
        after = [STORE, ITEMS, GC] + ([dict(STORE, realm="D"), dict(GC, realm="D")] if two else [])
        case["phases"].append(phase("faults", [{"name": "P1", "ops": ops, "policy": "retry"}], after))
        case["phases"].append(phase("goes-on", [{"name": "P1", "ops": sessions(g, s, 1), "exit": True}],
                                    [STORE, ITEMS, GC], faults=False))
        case["phases"].append(phase("other", [{"name": "P2", "ops": sessions(g, s, 1), "exit": True}],
                                    [STORE, ITEMS, GC], faults=False))


class C05(C03):
    """what can not be read is not treated as missing"""
    id = "C05"
    variants = 4

    def build(self, g, case):
        common_knobs(g, case)
        v = vocabulary(g)
        s = SessionGen(g, v, {"lookup": 3, "read": 3, "read_file": 2, "read_all": 2})
        setup_phase(g, s, case, [STORE], 1.0)
        references = g.chance(0.35)
        if references:
            # object references that share directories with the ones that are added later
            g.collide = g.r.choice(COLLIDING)
            case["phases"].append(phase("before", [{"name": "B", "ops": puts(g, v, s, g.r.randrange(2, 5)),
                                                    "exit": True}], [ITEMS, GC], faults=False))
        ops = sessions(g, s, 1 if references else g.r.randrange(1, 5), 6)
        for o in ops:
            if o["op"] == "open" and g.chance(0.2):
                k = v.tree_key()
                o.update(via="nodes", ds=g.r.choice(v.uuids), **k)
        if references or g.chance(0.1):
            ops += puts(g, v, s, g.r.randrange(1, 4))
        if g.chance(0.3):
            self.damage(g, case, v, s, ops, references)
            return
        focus = g.r.choice([{"open": 6, "auto": 4, "read_all": 2, "save_tvl": 1, "save_us": 1},
                            {"flush": 1}, {"open": 6, "auto": 4, "flush": 8},
                            {"read_file": 6, "md": 6, "read": 4, "lookup": 4, "read_all": 4, "hold": 2}])
        if references:
            focus = {"open": 1, "auto": 1, "flush": 25}
        set_faults(g, case, ops, READ_EVENTS, ["fail", "kill", "lostack", "spawn", "interrupt"], 3, weight=focus)
        case["phases"].append(phase("faults", [{"name": "P1", "ops": ops, "exit": True,
                                                "policy": g.r.choice(["retry", "retry", "abort"])}],
                                    [STORE, ITEMS, GC]))
        case["phases"].append(phase("other", [{"name": "P2", "ops": sessions(g, s, 1), "exit": True}],
                                    [STORE, ITEMS, GC], faults=False))


    def damage(self, g, case, v, s, ops, references):
        """stored data is damaged, and mended later"""
        rot(g, s, ops, ["ref", "top", "any", "references"] + 3 * references * ["references"])
        if g.chance(0.2):
            set_faults(g, case, ops, READ_EVENTS + WRITE_EVENTS, ["fail", "kill", "interrupt"], 1)
        case["phases"].append(phase("damaged", [{"name": "P1", "ops": ops, "policy": "abort"}], [MEND, STORE]))
        # the same process goes on
        more = sessions(g, s, 1)
        if references:
            more += puts(g, v, s, g.r.randrange(1, 3))
        case["phases"].append(phase("goes-on", [{"name": "P1", "ops": more, "exit": True}],
                                    [STORE, ITEMS, GC], faults=False))
        case["phases"].append(phase("other", [{"name": "P2", "ops": sessions(g, s, 1), "exit": True}],
                                    [STORE, ITEMS, GC], faults=False))

    def nontrivial(self, sim, case):
        return bool(sim.fired or sim.damages)


class C06(Profile):
    """after save and flush, git gc removes nothing that the store needs"""
    id = "C06"

    def build(self, g, case):
        common_knobs(g, case)
        v = vocabulary(g)
        s = SessionGen(g, v, {**SHARING, "save_sub": 1, "unget": 1, "purge": 0.3, "set_dlm": 2, "add_sub": 2,
                              "rm_sub": 2, "rm_file": 2})
        for i in range(g.r.randrange(1, 5)):
            ops = []
            for _ in range(g.r.randrange(1, 3)):
                ops += s.session(n_ops(g, 9), saves=g.r.choice([1, 1, 2]), fresh=g.chance(0.25))
                ops.append(s.base("gc"))
            if g.chance(0.2):
                ops += puts(g, v, s, g.r.randrange(1, 3))
            case["phases"].append(phase(f"p{i}", [{"name": f"P{i}", "ops": ops, "exit": g.chance(0.8)}],
                                        [GC, ITEMS]))

    def nontrivial(self, sim, case):
        return sim.probes.get("gc", 0) > 0 and sim.probes.get("gc-dropped-objects", 0) > 0


class C07(Profile):
    """concurrent transactions under the backend lock: no update is lost"""
    id = "C07"
    variants = 2

    def build(self, g, case):
        common_knobs(g, case)
        if g.chance(0.1):
            case["realms"]["R"].pop("dir", None)
        v = vocabulary(g)
        generators = []
        s0 = SessionGen(g, v, {})
        setup_phase(g, s0, case, [STORE], 0.6, 6)
        procs = []
        everything = []
        for i in range(g.r.choice([2, 2, 3, 4])):
            s = SessionGen(g, v, {"read_all": 1, "unget": 0.3})
            s.trees = {k: set(p) for k, p in s0.trees.items()}
            s.uuids = {k: set(p) for k, p in s0.uuids.items()}
            ops = []
            for _ in range(g.r.randrange(1, 4)):
                inner = s.session(g.r.randrange(1, 5), fresh=g.chance(0.3))
                txn = s.base("txn", ops=inner)
                if g.chance(0.3):
                    txn["spelling"] = g.r.choice(["dots", "up", "link"])
                ops.append(txn)
                if g.chance(0.2):
                    ops.append(s.base("work", steps=g.r.randrange(1, 6)))
            everything.append(ops)
            procs.append({"name": f"W{i}", "ops": ops, "exit": True,
                          "policy": g.r.choice(["retry", "abort"])})
        case["search"]["switch"] = g.r.choice([0.01, 0.05, 0.2, 0.5])
        roll = g.r.random()
        ops = g.r.choice(everything)
        if roll < 0.25:
            set_faults(g, case, ops, ["git.", "", "git.update-ref", "lock."], ["crash", "crash-child"], 1)
        elif roll < 0.4:
            set_faults(g, case, ops, ["git.", "lock.", ""], ["stall"], 3)
        elif roll < 0.6:
            set_faults(g, case, ops, WRITE_EVENTS + READ_EVENTS + ["lock.try"],
                       ["fail", "kill", "lostack", "spawn", "enospc", "interrupt"], 2)
        case["phases"].append(phase("writers", procs, [STORE, GC, PROGRESS]))
        case["phases"].append(phase("after", [{"name": "A", "ops": sessions(g, s0, 1, 4), "exit": True}],
                                    [STORE, GC], faults=False))

    def nontrivial(self, sim, case):
        return sim.probes.get("critical-sections", 0) >= 2 and sim.switches > 0


class C08(Profile):
    """concurrent flushes: everything that anybody flushed is protected"""
    id = "C08"
    variants = 2

    def build(self, g, case):
        common_knobs(g, case)
        case["knobs"]["gc_any_time"] = True
        v = vocabulary(g, 2)
        v.odd = 0.1
        s = SessionGen(g, v, {})
        for i in range(g.r.randrange(1, 4)):
            procs = []
            everything = []
            for k in range(g.r.choice([2, 2, 3, 4])):
                ops = puts(g, v, s, g.r.randrange(1, 5), text=0.25)
                everything.append(ops)
                procs.append({"name": f"F{i}.{k}", "ops": ops, "exit": True,
                              "policy": g.r.choice(["retry", "abort"])})
            roll = g.r.random()
            ops = g.r.choice(everything)
            if roll < 0.2:
                set_faults(g, case, ops, ["git.", "lock.", "git.update-ref"], ["crash", "crash-child"], 1,
                           weight={"flush": 3})
            elif roll < 0.4:
                set_faults(g, case, ops, ["git.", "lock."], ["stall"], 3, weight={"flush": 3})
            elif roll < 0.6:
                set_faults(g, case, ops, WRITE_EVENTS + READ_EVENTS + ["lock.try"],
                           ["fail", "kill", "lostack", "spawn", "enospc", "interrupt"], 2, weight={"flush": 4})
            case["phases"].append(phase(f"f{i}", procs, [ITEMS, GC, PROGRESS]))
        case["search"]["switch"] = g.r.choice([0.02, 0.1, 0.3, 0.6])

    def nontrivial(self, sim, case):
        return sim.probes.get("items-protected", 0) >= 2 and sim.switches > 0


class C09(Profile):
    """the backend lock: exclusive, reentrant, always released"""
    id = "C09"
    variants = 2

    def build(self, g, case):
        if g.chance(0.3):
            case["realms"]["R"]["dir"] = g.r.choice(DIRS)
        bare = g.chance(0.2)
        if bare:
            case["realms"]["R"]["init"] = False
        two = g.chance(0.35)
        if two:
            case["realms"]["S"] = {}
            if g.chance(0.3):
                # similar paths, but different repositories
                case["realms"]["R"]["dir"], case["realms"]["S"]["dir"] = g.r.choice([
                    ("Md", "md"), ("md", "md "), ("md", "md/sub"), ("a/md", "b/md"), ("md", "md.git")])
        v = vocabulary(g, 1)
        v.odd = 0.0
        s = SessionGen(g, v, {})
        spellings = [None, None, "dots", "up", "link"]

        def work(realm="R"):
            # locks are taken in the order R, S, to avoid deadlocks
            ops = []
            for _ in range(g.r.randrange(0, 3)):
                ops.append(s.base("work", steps=g.r.randrange(1, 5)))
            if not (bare and realm == "R") and g.chance(0.25):
                ops += puts(g, v, s if realm == "R" else SessionGen(g, v, {}, realm="S"), 1, text=1.0)
            return ops

        def section(depth, realm):
            o = s.base("locked", ops=work(realm))
            if realm != "R":
                o["realm"] = realm
            o["spelling"] = g.r.choice(spellings)
            if depth < 3 and g.chance(0.4):
                o["ops"].append(section(depth + 1, "S" if two and realm == "R" and g.chance(0.3) else realm))
                o["ops"] += work(realm)
            if g.chance(0.2):
                o["raise"] = g.r.choice(["user", "interrupt", "runtime"])
            return o

        procs = []
        everything = []
        for k in range(g.r.choice([1, 2, 2, 3, 4])):
            ops = []
            for _ in range(g.r.randrange(1, 5)):
                if g.chance(0.7):
                    ops.append(section(1, "S" if two and g.chance(0.4) else "R"))
                else:
                    n = g.r.randrange(1, 4)
                    ops += [s.base("lock", spelling=g.r.choice(spellings), once=True) for _ in range(n)]
                    ops += work()
                    for _ in range(n):
                        ops.append(s.base("unlock", spelling=g.r.choice(spellings), once=True))
                        ops += work()
                if g.chance(0.5):
                    ops += work()
            everything.append(ops)
            procs.append({"name": f"L{k}", "ops": ops, "policy": "abort"})
        case["search"]["switch"] = g.r.choice([0.05, 0.2, 0.5])
        roll = g.r.random()
        ops = g.r.choice(everything)
        if roll < 0.3:
            set_faults(g, case, ops, [""], ["crash"], 2)
        elif roll < 0.5:
            set_faults(g, case, ops, [""], ["stall"], 3)
        elif roll < 0.75:
            set_faults(g, case, ops, ["lock.try", "fs.open", "fs.mkdir"], ["fail"], 3,
                       weight={"locked": 6, "lock": 6})
        elif roll < 0.85:
            set_faults(g, case, ops, ["sleep"], ["interrupt"], 2, weight={"locked": 6, "lock": 6})
        if g.chance(0.2):
            set_faults(g, case, ops, [""], ["jump"], 2)
        case["phases"].append(phase("locks", procs, [PROGRESS] + ([dict(PROGRESS, realm="S")] if two else [])))
        again = [{"name": p["name"], "ops": [section(1, "R")]} for p in procs]
        case["phases"].append(phase("again", again, [PROGRESS], faults=False))

    def nontrivial(self, sim, case):
        return sim.probes.get("critical-sections", 0) >= 2


class C10(Profile):
    """readers without a lock see complete states, in their order"""
    id = "C10"
    variants = 2

    def build(self, g, case):
        common_knobs(g, case)
        v = vocabulary(g)
        s0 = SessionGen(g, v, {})
        setup_phase(g, s0, case, [], 0.6, 6)
        procs = []
        written = []
        for i in range(g.r.choice([1, 1, 2])):
            s = SessionGen(g, v, {"unget": 0.3})
            s.trees = {k: set(p) for k, p in s0.trees.items()}
            s.uuids = {k: set(p) for k, p in s0.uuids.items()}
            ops = [s.base("txn", ops=s.session(g.r.randrange(1, 5), fresh=g.chance(0.3)))
                   for _ in range(g.r.randrange(1, 4))]
            written += ops
            procs.append({"name": f"W{i}", "ops": ops, "exit": True, "policy": "abort"})
        for i in range(g.r.choice([1, 2, 2, 3])):
            ops = []
            for _ in range(g.r.randrange(1, 6)):
                o = s0.base("snapshot")
                if g.chance(0.3):
                    o["as_path"] = True
                ops.append(o)
                if g.chance(0.3):
                    ops.append(s0.base("work", steps=g.r.randrange(1, 8)))
            procs.append({"name": f"R{i}", "ops": ops, "exit": True, "policy": "retry"})
        case["search"]["switch"] = g.r.choice([0.05, 0.2, 0.5])
        roll = g.r.random()
        if roll < 0.2:
            set_faults(g, case, written, ["git.", "git.update-ref"], ["crash", "crash-child"], 1)
        elif roll < 0.4:
            set_faults(g, case, written, ["git.", ""], ["stall"], 3)
        elif roll < 0.55:
            set_faults(g, case, written, WRITE_EVENTS, ["fail", "kill", "lostack", "enospc"], 2)
        case["phases"].append(phase("both", procs, [STORE]))

    def nontrivial(self, sim, case):
        return sim.probes.get("snapshots", 0) > 0 and sim.switches > 0


class C11(Profile):
    """releasing memory changes nothing"""
    id = "C11"
    variants = 2

    def build(self, g, case):
        common_knobs(g, case)
        v = vocabulary(g)
        s = SessionGen(g, v, {**PURGING, "unget": 6, "purge": 4, "read_all": 4, "read": 4, "read_file": 3,
                              "save_sub": 1, "lookup": 2, "held": 5, "us_set": 3})
        setup_phase(g, s, case, [STORE], 0.6)
        for i in range(g.r.randrange(1, 3)):
            ops = []
            for _ in range(g.r.randrange(1, 3)):
                part = s.session(n_ops(g, 14), saves=g.r.choice([1, 2, 3]), fresh=g.chance(0.2))
                if g.chance(0.6):
                    # use it after it was saved
                    for _ in range(g.r.randrange(1, 6)):
                        o = s.operation()
                        if o:
                            part.append(o)
                    part += [s.base("read_all")] + s.save()
                ops += part
            case["phases"].append(phase(f"p{i}", [{"name": f"P{i}", "ops": ops, "exit": True}], [STORE, GC]))
            if g.chance(0.3):
                set_faults(g, case, ops, READ_EVENTS + WRITE_EVENTS, ["fail", "kill", "spawn", "interrupt"], 2)

    def nontrivial(self, sim, case):
        return any(sim.probes.get(p) for p in ("purged", "op:unget_tree", "op:unget_vl", "op:unget_el",
                                               "op:unget_md"))


class C12(Profile):
    """saving a container saves what is below, whatever was saved before on its own"""
    id = "C12"
    variants = 2

    def build(self, g, case):
        common_knobs(g, case)
        v = vocabulary(g)
        s = SessionGen(g, v, {"save_sub": 10, "held": 3, "md_file": 8, "md_ds": 5, "us_set": 2, "unget": 1,
                              "read_all": 1, "set_files": 2})
        setup_phase(g, s, case, [STORE], 0.5)
        for i in range(g.r.randrange(1, 3)):
            ops = []
            for _ in range(g.r.randrange(1, 3)):
                ops += s.session(n_ops(g, 14), saves=g.r.choice([1, 2, 3]), fresh=g.chance(0.2))
            case["phases"].append(phase(f"p{i}", [{"name": f"P{i}", "ops": ops, "exit": True}], [STORE, GC]))
            if g.chance(0.25):
                set_faults(g, case, ops, WRITE_EVENTS, ["fail", "kill", "lostack", "spawn", "interrupt"], 2,
                           weight={"save_sub": 5, "save_tvl": 2, "save_us": 2})

    def nontrivial(self, sim, case):
        return sim.probes.get("op:save_sub", 0) > 0


class C13(Profile):
    """copies have the content of the source, and a life of their own"""
    id = "C13"
    variants = 2

    def build(self, g, case):
        common_knobs(g, case)
        case["realms"]["D"] = {}
        if g.chance(0.2):
            case["realms"]["D"]["dir"] = g.r.choice(DIRS) + "2"
        v = vocabulary(g)
        s = SessionGen(g, v, {"copy": 6, "unget": 1, "purge": 0.5, "held": 1}, copy_to="D")
        d = SessionGen(g, v, {"unget": 0.5}, realm="D")
        setup_phase(g, s, case, [STORE], 0.7)
        if g.chance(0.5):
            case["phases"].append(phase("setup-d", [{"name": "PD", "ops": sessions(g, d, 1, 5), "exit": True}],
                                        faults=False))
        ops = sessions(g, s, g.r.randrange(1, 3), 14)
        names = []
        top = False
        for o in ops:
            if o["op"] == "copy":
                if o["what"] not in ("tvl", "us") and g.chance(0.1):
                    o["to"] = "R"
                elif o["what"] in ("tree", "mrr", "vl"):
                    o["as"] = f"c{len(names)}"
                    names.append((o["as"], o["what"]))
                top = top or o["what"] in ("tvl", "us")
        ops.append(d.base("flush"))
        if g.chance(0.8):
            # go on with the copies, and modify them: the source must not change
            ops.append(d.base("open"))
            for name, what in names:
                k = v.tree_key()
                if what == "tree":
                    ops.append(d.base("tvl_set", ts="7", copied=name, **k))
                    d.trees.setdefault((k["ver"], k["prefix"]), set()).update(["", *v.paths])
                else:
                    u = g.r.choice(v.uuids)
                    o = d.base("us_set", ts="8", uuid=u, copied=name, **k)
                    ops.append(o)
                    d.uuids.setdefault(u, set()).add((k["ver"], k["prefix"]))
                if g.chance(0.5):
                    o = d.operation()
                    if o:
                        ops.append(o)
            for k, paths in s.trees.items():
                if top:
                    d.trees.setdefault(k, set()).update(paths)
            for _ in range(g.r.randrange(0, 5)):
                o = d.operation()
                if o:
                    ops.append(o)
            ops += d.save()
        if g.chance(0.3):
            ops += [s.base("read_all")] + s.save()
        if g.chance(0.3):
            set_faults(g, case, ops, WRITE_EVENTS + READ_EVENTS, ["fail", "kill", "lostack", "spawn", "interrupt"],
                       2, weight={"copy": 8})
        case["phases"].append(phase("copy", [{"name": "P1", "ops": ops, "exit": True}],
                                    [STORE, dict(STORE, realm="D"), GC, dict(GC, realm="D")]))

    def nontrivial(self, sim, case):
        return any(p.startswith("copied-") for p in sim.probes)


class C14(Profile):
    """one process, several realms: what is saved where is protected there"""
    id = "C14"

    def build(self, g, case):
        common_knobs(g, case)
        names = ["R", "S"] + (["T"] if g.chance(0.2) else [])
        for n in names[1:]:
            case["realms"][n] = {}
            if g.chance(0.2):
                case["realms"][n]["dir"] = g.r.choice(DIRS) + n
        v = vocabulary(g)
        gens = {n: SessionGen(g, v, {"unget": 0.5, "us_set": 4}, realm=n) for n in names}
        for i in range(g.r.randrange(1, 3)):
            lists = []
            for n in names:
                ops = []
                for _ in range(g.r.randrange(1, 3)):
                    ops += gens[n].session(n_ops(g, 8), saves=g.r.choice([1, 2]), fresh=g.chance(0.2),
                                           flush=g.chance(0.85))
                if g.chance(0.3):
                    ops += puts(g, v, gens[n], 2)
                lists.append(ops)
            # interleave
            merged = []
            while any(lists):
                ops = g.r.choice([x for x in lists if x])
                for _ in range(g.r.randrange(1, 6)):
                    if ops:
                        merged.append(ops.pop(0))
                if g.chance(0.15):
                    a, b = g.r.sample(names, 2)
                    k = v.tree_key()
                    tree = g.tree(v.odd)
                    for n in (a, b):
                        gens[n].trees[(k["ver"], k["prefix"])] = set(tree)
                    o = gens[a].base("share", other=b, ts=str(g.r.randrange(1000)), tree=tree, **k)
                    merged.append(o)
                if g.chance(0.1):
                    merged.append(gens[g.r.choice(names)].base("flush"))
                if g.chance(0.1):
                    merged.append(gens[g.r.choice(names)].base("gc"))
            merged += [gens[n].base("flush") for n in names]
            if any(o["op"] == "share" for o in merged):
                # an element that is part of two realms is not released here
                merged = [o for o in merged if not o["op"].startswith("unget")]
                # and it is saved in both
                for n in names:
                    merged += gens[n].save()
            case["phases"].append(phase(f"p{i}", [{"name": f"P{i}", "ops": merged, "exit": True}],
                                        [dict(c, realm=n) for n in names for c in (STORE, ITEMS, GC)]))

    def nontrivial(self, sim, case):
        return sim.git.refs_written > 3


REMOTES = ["https://example.org/r.git", "ssh://host/srv/md", "git@host:store", "git://h/x", "http://h/y z"]
# different stores with similar URLs
SIMILAR = [("https://example.org/r.git", "https://example.org/r"), ("https://h/a/md", "https://h/b/md"),
           ("https://h/Md", "https://h/md"), ("git@host:md", "ssh://git@host/md"), ("https://a.org/md", "https://b.org/md"),
           ("https://h:81/md", "https://h:82/md"), ("https://u@h/md", "https://v@h/md"), ("http://h/md", "https://h/md"),
           ("https://h/md?a=1", "https://h/md?a=2"), ("https://h/a_b", "https://h/a/b"), ("https://h/md", "https://h/md#x"),
           ("https://h/ü", "https://h/u"), ("git@h:x/" + "long/" * 40 + "a", "git@h:x/" + "long/" * 40 + "b")]


class C15(Profile):
    """reading through a URL: the present content of that store, and only of that one"""
    id = "C15"

    def build(self, g, case):
        common_knobs(g, case)
        similar = g.chance(0.5)
        urls = list(g.r.choice(SIMILAR)) if similar else g.r.sample(REMOTES, 2)
        g.r.shuffle(urls)
        case["realms"]["R"]["url"] = urls[0]
        names = ["R"]
        if similar or g.chance(0.5):
            case["realms"]["S"] = {"url": urls[1]}
            names.append("S")
        v = vocabulary(g)
        gens = {n: SessionGen(g, v, {}, realm=n) for n in names}

        def reads(n):
            ops = []
            for _ in range(n):
                s = gens[g.r.choice(names)]
                roll = g.r.random()
                if roll < 0.7:
                    o = s.base("snapshot", url=True)
                    if g.chance(0.15):
                        o.pop("url")
                elif roll < 0.9:
                    t = s.some_target() or dict(v.tree_key(), path="")
                    o = s.base("lookup_remote", ds=g.r.choice(v.uuids), ver=t["ver"], prefix=t["prefix"])
                else:
                    o = s.base("remote_write", ver=g.r.choice(v.versions), tree=g.tree(v.odd),
                               explicit=g.chance(0.5))
                ops.append(o)
            return ops

        for i in range(g.r.randrange(2, 5)):
            if g.chance(0.75):
                n = g.r.choice(names)
                case["phases"].append(phase(f"w{i}", [{"name": f"W{i}", "ops": sessions(g, gens[n], 1, 8),
                                                       "exit": True}], [{"check": "store", "realm": n},
                                                                        {"check": "gc", "realm": n}]))
            else:
                # writers and remote readers at the same time
                n = g.r.choice(names)
                procs = [{"name": f"W{i}", "exit": True, "ops": [
                    gens[n].base("txn", ops=gens[n].session(g.r.randrange(1, 4))) for _ in range(2)]}]
                for k in range(g.r.randrange(1, 3)):
                    procs.append({"name": f"C{i}.{k}", "exit": True, "ops": [
                        gens[g.r.choice(names)].base("snapshot", url=True) for _ in range(g.r.randrange(1, 4))]})
                case["phases"].append(phase(f"c{i}", procs, [{"check": "store", "realm": n}]))
            readers = [{"name": f"Q{k}", "ops": reads(g.r.randrange(1, 4))}
                       for k in range(g.r.choice([2, 3] if similar else [1, 1, 2, 3]))]
            for r in readers:
                if len(readers) > 1:
                    # several processes use the local cache at the same time
                    r["ops"] = [o for o in r["ops"] if o["op"] != "remote_write"]
            case["phases"].append(phase(f"r{i}", readers))
        case["search"]["switch"] = g.r.choice([0.05, 0.2, 0.5])

    def nontrivial(self, sim, case):
        return sim.probes.get("snapshots", 0) > 0 and sim.kinds.get("git.fetch.start", 0) > 0


class C16(Profile):
    """an unreliable network or local cache: an error or the right answer, never a wrong one"""
    id = "C16"
    variants = 3

    def build(self, g, case):
        common_knobs(g, case)
        case["realms"]["R"]["url"] = g.r.choice(REMOTES)
        v = vocabulary(g)
        s = SessionGen(g, v, {})
        case["phases"].append(phase("w", [{"name": "W", "ops": sessions(g, s, 1, 8), "exit": True}],
                                    faults=False))
        classes = ["git.fetch", "git.fetch.write", "git.init", "git.cat-file", "git.show", "git.ls-tree",
                   "git.ls-remote", "git.update-ref"]
        for i in range(g.r.randrange(1, 4)):
            procs = []
            for k in range(g.r.choice([1, 1, 2])):
                ops = []
                for _ in range(g.r.randrange(1, 4)):
                    if g.chance(0.8):
                        ops.append(s.base("snapshot", url=True))
                    else:
                        t = s.some_target() or dict(v.tree_key(), path="")
                        ops.append(s.base("lookup_remote", ds=g.r.choice(v.uuids), ver=t["ver"],
                                          prefix=t["prefix"]))
                procs.append({"name": f"Q{i}.{k}", "ops": ops, "exit": True,
                              "policy": g.r.choice(["retry", "retry", "abort"])})
                kinds = ["netfail", "netcut", "fail", "kill", "lostack", "spawn", "interrupt", "enospc"]
                if g.chance(0.4):
                    kinds = ["crash", "crash-child"]
                if g.chance(0.15):
                    # the remote repository is damaged
                    rot(g, s, ops, ["ref", "ref", "top", "any"])
                    procs[-1]["policy"] = "abort"
                    continue
                set_faults(g, case, ops, classes, kinds, 3 if kinds[0] != "crash" else 1)
            damaged = any(o["op"] == "rot" for p in procs for o in p["ops"])
            for p in procs:
                p["policy"] = "abort" if damaged else p["policy"]
            case["phases"].append(phase(f"q{i}", procs, [MEND] if damaged else []))
            if g.chance(0.5):
                case["phases"].append(phase(f"w{i}", [{"name": f"W{i}", "ops": sessions(g, s, 1, 5),
                                                       "exit": True}], faults=False))
        # nothing is wrong anymore: it must work at once
        case["phases"].append(phase("healed", [{"name": "H", "exit": True, "ops": [
            s.base("snapshot", url=True), s.base("snapshot", url=True)]}], faults=False))
        case["search"]["switch"] = g.r.choice([0.05, 0.2])

    def nontrivial(self, sim, case):
        return bool(sim.fired or sim.damages) and sim.kinds.get("git.fetch.start", 0) > 0


class C17(Profile):
    """work on one record does not need the others"""
    id = "C17"

    def build(self, g, case):
        common_knobs(g, case)
        case["knobs"]["clean_saves"] = True
        v = vocabulary(g)
        s = SessionGen(g, v, {"tvl_set": 4})
        for i in range(g.r.randrange(1, 3)):
            case["phases"].append(phase(f"setup{i}", [{"name": f"P{i}", "ops": sessions(g, s, 1, 14),
                                                       "exit": True}], [STORE]))
        for i in range(g.r.randrange(1, 4)):
            t = s.some_target()
            if t is None:
                break
            ids = [u for u, ks in s.uuids.items() if ks]
            file = g.r.choice(v.files) if g.chance(0.6) else None
            hide = s.base("hide", file=file, **t)
            ops = [hide, s.base("open")]
            if file is not None:
                ops.append(s.base("read_file", file=file, **t))
            else:
                ops.append(s.base("read_dlm", **t))
            if g.chance(0.6):
                for _ in range(g.r.randrange(1, 3)):
                    o = s.base("md", run=g.run(), **t)
                    if file is not None:
                        o["file"] = file
                    ops.append(o)
            ops += s.save()
            if g.chance(0.4):
                ops += [s.base("save_tvl"), s.base("save_us")]
            ops.append(s.base("unhide"))
            case["phases"].append(phase(f"local{i}", [{"name": f"L{i}", "ops": ops, "exit": True,
                                                       "policy": "abort"}], [STORE, GC]))

    def nontrivial(self, sim, case):
        return sim.probes.get("hidden-objects", 0) > 0


class C18(Profile):
    """conversion of legacy reference stores loses nothing"""
    id = "C18"
    variants = 3

    def build(self, g, case):
        common_knobs(g, case)
        case["knobs"]["gc_any_time"] = True
        v = vocabulary(g, 2)
        s = SessionGen(g, v, {})
        gens = [s]
        if g.chance(0.3):
            case["realms"]["S"] = {}
            gens.append(SessionGen(g, v, {}, realm="S"))

        def checks():
            return [dict(x, realm=z.realm) for z in gens for x in (ITEMS, GC)]

        def legacy(s):
            o = s.base("legacy", items=[g.files(v.odd, g.r.randrange(1, 4)) for _ in range(g.r.randrange(1, 4))])
            return o

        if g.chance(0.5):
            # there is a new store as well
            case["phases"].append(phase("new", [{"name": "N", "ops": puts(g, v, s, 2), "exit": True}], [ITEMS]))
        case["phases"].append(phase("legacy", [{"name": "O", "ops": [legacy(z) for z in gens], "exit": True}],
                                    checks(), faults=False))
        everything = []
        for i in range(g.r.randrange(1, 3)):
            procs = []
            for k in range(g.r.choice([1, 1, 2, 3])):
                ops = []
                for z in g.r.sample(gens, g.r.randrange(1, len(gens) + 1)):
                    ops += [z.base("flush")] if g.chance(0.4) else puts(g, v, z, g.r.randrange(1, 3))
                    if g.chance(0.3):
                        ops += [g.r.choice(gens).base("flush")]
                everything.append(ops)
                procs.append({"name": f"F{i}.{k}", "ops": ops, "exit": True,
                              "policy": g.r.choice(["retry", "abort"])})
            damaged = g.chance(0.15)
            if damaged:
                for p in procs:
                    p["policy"] = "abort"
                rot(g, g.r.choice(gens), g.r.choice(procs)["ops"], ["references", "references", "ref", "any"])
            case["phases"].append(phase(f"f{i}", procs, [MEND] * damaged + checks()))
            if g.chance(0.2):
                case["phases"].append(phase(f"legacy{i}", [{"name": f"O{i}", "ops": [legacy(g.r.choice(gens))],
                                                            "exit": True}], checks(), faults=False))
        roll = g.r.random()
        ops = g.r.choice(everything)
        if roll < 0.35:
            set_faults(g, case, ops, ["git.", "git.update-ref", "git.ls-tree", "lock."],
                       ["crash", "crash-child"], 1, weight={"flush": 5})
        elif roll < 0.8:
            set_faults(g, case, ops, WRITE_EVENTS + READ_EVENTS + ["lock.try", "git.ls-tree"],
                       ["fail", "kill", "lostack", "spawn", "enospc", "interrupt"], 3, weight={"flush": 6})
        case["search"]["switch"] = g.r.choice([0.02, 0.1, 0.3])
        case["phases"].append(phase("last", [{"name": "Z", "exit": True, "ops": [
            z.base(op) for z in gens for op in ("flush", "expect_no_legacy")]}], checks(), faults=False))

    def nontrivial(self, sim, case):
        return sim.probes.get("legacy-items", 0) > 0


class C19(Profile):
    """flushing the object references is all or nothing, and nothing is forgotten"""
    id = "C19"
    variants = 4

    def build(self, g, case):
        common_knobs(g, case)
        case["knobs"]["gc_any_time"] = True
        v = vocabulary(g, 2)
        s = SessionGen(g, v, {})
        if g.chance(0.7):
            case["phases"].append(phase("before", [{"name": "B", "ops": puts(g, v, s, g.r.randrange(1, 5)),
                                                    "exit": True}], [ITEMS, GC], faults=False))
        ops = puts(g, v, s, g.r.randrange(1, 6))
        set_faults(g, case, ops, WRITE_EVENTS + READ_EVENTS + ["lock.try", "fs.", "git.mktree", "git.update-ref"],
                   ["fail", "kill", "lostack", "spawn", "enospc", "interrupt"], 3, weight={"flush": 6})
        if g.chance(0.3):
            set_faults(g, case, ops, ["git.", "git.update-ref", "git.mktree"], ["crash", "crash-child"], 1,
                       weight={"flush": 6})
        damaged = g.chance(0.15)
        if damaged:
            rot(g, s, ops, ["references", "references", "ref", "any"])
        case["phases"].append(phase("faults", [{"name": "P", "ops": ops, "policy": "abort" if damaged else
                                                g.r.choice(["retry", "abort"])}], [MEND] * damaged + [ITEMS]))
        case["phases"].append(phase("later", [{"name": "P", "ops": [s.base("flush")], "exit": True}],
                                    [ITEMS, GC], faults=False))
        case["phases"].append(phase("other", [{"name": "O", "ops": puts(g, v, s, g.r.randrange(1, 3)),
                                               "exit": True}], [ITEMS, GC], faults=False))

    def nontrivial(self, sim, case):
        return bool(sim.fired or sim.damages)


class C20(Profile):
    """get or create: creates what is missing, once, and nothing when it is not asked to"""
    id = "C20"
    variants = 2

    def build(self, g, case):
        common_knobs(g, case)
        case["knobs"]["clean_saves"] = True
        v = vocabulary(g, g.r.choice([1, 1, 2]))
        v.prefixes = v.prefixes[1:3]
        v.paths = v.paths[1:3]
        s = SessionGen(g, v, {"auto": 10, "lookup": 6, "md_ds": 3, "md_file": 3, "read_all": 2, "read": 2,
                              "tvl_set": 1, "us_set": 1})
        for i in range(g.r.randrange(1, 4)):
            ops = []
            for _ in range(g.r.randrange(1, 4)):
                ops += s.session(n_ops(g, 10), saves=g.r.choice([1, 2]), fresh=g.chance(0.5))
                if g.chance(0.5):
                    # look for things, and save: nothing may be written
                    ops.append(s.base("open"))
                    for _ in range(g.r.randrange(1, 5)):
                        o = s.auto()
                        o["op"] = "lookup"
                        ops.append(o)
                    ops += s.save()
            case["phases"].append(phase(f"p{i}", [{"name": f"P{i}", "ops": ops, "exit": True}], [STORE, GC]))
            if g.chance(0.2):
                set_faults(g, case, ops, READ_EVENTS, ["fail", "kill", "spawn", "interrupt"], 2,
                           weight={"auto": 4, "lookup": 4})

    def nontrivial(self, sim, case):
        return sim.probes.get("op:auto", 0) > 1


class C21(Profile):
    """the write cache changes nothing but the number of git commands"""
    id = "C21"
    variants = 2

    def build(self, g, case):
        case["realms"]["S"] = {}
        g.present_time = False
        v = vocabulary(g)
        case["knobs"]["cache"] = {"A": g.r.choice([1, 2, 3, 4, 7, 2000]), "B": g.r.choice([2, 5, 11, 2000])}
        faulty = g.chance(0.3)
        big = g.index % (400 if g.tier == "quick" else 100) == 7
        specs = []
        for _ in range(g.r.randrange(1, 4)):
            tree = g.tree(v.odd)
            for spec in tree.values():
                if g.chance(0.5):
                    spec["files"] = g.files(v.odd, g.r.randrange(1, 14))
                    if g.chance(0.3) and spec["files"]:
                        # equal content in several files
                        first = next(iter(spec["files"].values()))
                        spec["files"] = {p: first if g.chance(0.5) else r for p, r in spec["files"].items()}
            specs.append((v.tree_key(), tree))
        if big:
            case["knobs"]["cache"] = {"A": 2000, "B": 64}
            k, tree = specs[0]
            tree[""] = {"id": g.uuid(), "version": k["ver"], "dlm": None,
                        "files": {f"d{i % 7}/f{i}": [g.run(False)] for i in range(1100)}}
        change = [(g.r.choice(v.files), g.run()) for _ in range(g.r.randrange(0, 4))]
        ops = {}
        for name, realm in (("A", "R"), ("B", "S")):
            s = SessionGen(g, v, {}, realm=realm)
            ops[name] = [s.base("open")]
            for k, tree in specs:
                ops[name].append(s.base("tvl_set", ts="1", tree=tree, **k))
            saves = [s.base("save_tvl"), s.base("save_us"), s.base("flush")]
            ops[name] += saves
            for file, run in change:
                t = dict(specs[0][0], path="")
                ops[name].append(s.base("md", run=run, file=file, **t))
            ops[name] += [s.base("read_all")] + [s.base(o["op"]) for o in saves]
        after = [dict(c, realm=n) for n in ("R", "S") for c in (STORE, GC)] + [{"check": "tempdirs"}]
        if faulty:
            set_faults(g, case, ops["A"], ["git.hash-object", "fs.open", "fs.write", "fs.mkdir"],
                       ["fail", "kill", "lostack", "enospc", "spawn", "interrupt"], 2,
                       weight={"save_tvl": 10, "save_us": 1})
        else:
            after.append({"check": "same-objects", "other": "S"})
        procs = [{"name": n, "ops": ops[n]} for n in ("A", "B")]
        if g.chance(0.5):
            case["phases"].append(phase("both", procs, after))
            case["search"]["switch"] = 0.1
        else:
            case["phases"].append(phase("first", procs[:1]))
            case["phases"].append(phase("second", procs[1:], after))


class C22(Profile):
    """metadata sources: exact copies or an error"""
    id = "C22"
    variants = 3

    def build(self, g, case):
        for n in ("R", "S"):
            case["realms"].setdefault(n, {})
            if g.chance(0.4):
                case["realms"][n]["dir"] = g.r.choice(DIRS) + n
        s = SessionGen(g, vocabulary(g, 1), {})
        ops = []
        names = []
        for i in range(g.r.randrange(1, 4)):
            data = g.r.choice([b"", b"\n", b"text\r\n", bytes(range(256)), b"\x00" * 10, "ü\u2028".encode(),
                               bytes(g.r.randrange(256) for _ in range(g.r.randrange(1, 2000))),
                               b"x" * g.r.choice([4095, 4096, 65537, 300000])])
            if g.chance(0.7):
                data += g.token().encode()
            names.append(f"b{i}")
            ops.append(s.base("source_put", name=names[-1], data=base64.b64encode(data).decode()))
        for _ in range(g.r.randrange(1, 8)):
            name = g.r.choice(names)
            extra = {}
            if g.chance(0.3):
                extra["suffix"] = g.r.choice(["\n", " ", "\n\n"])
            if g.chance(0.3):
                extra["json"] = True
            roll = g.r.random()
            if roll < 0.45:
                ops.append(s.base("source_copy", name=name, to=g.r.choice(["S", "S", "R"]), **extra))
            elif roll < 0.85:
                ops.append(s.base("source_write", name=name, **extra))
            elif roll < 0.93:
                ops.append(s.base("source_drop", name=name))
        if g.chance(0.6):
            set_faults(g, case, ops, ["git.cat-file", "git.hash-object", "git."],
                       ["fail", "kill", "lostack", "spawn", "enospc", "interrupt"], 3,
                       weight={"source_put": 0, "source_drop": 0})
        case["phases"].append(phase("sources", [{"name": "P", "ops": ops,
                                                 "policy": g.r.choice(["abort", "retry"])}]))

    def nontrivial(self, sim, case):
        return sim.probes.get("source-copied", 0) + sim.probes.get("source-written", 0) > 0


class C23(Profile):
    """a path addresses the same element, however it is spelled"""
    id = "C23"

    def build(self, g, case):
        common_knobs(g, case)
        v = vocabulary(g)
        v.odd = g.r.choice([0.1, 0.4])
        two = g.chance(0.2)
        if two:
            case["realms"]["D"] = {}
        s = SessionGen(g, v, {"held": 1, "unget": 1, "lookup": 3, "read_file": 2, "add_ds": 3, "add_sub": 2, "rm_sub": 2,
                              "rm_file": 2, "copy": 1 if two else 0}, copy_to="D" if two else None)
        for i in range(g.r.randrange(1, 4)):
            ops = sessions(g, s, g.r.randrange(1, 3))
            if g.chance(0.1):
                set_faults(g, case, ops, READ_EVENTS + WRITE_EVENTS, ["fail", "kill", "interrupt"], 1)
            for o in ops:
                if g.chance(0.8):
                    o["spell"] = [g.r.randrange(256) for _ in range(g.r.randrange(1, 4))]
            case["phases"].append(phase(f"p{i}", [{"name": f"P{i}", "ops": ops, "exit": g.chance(0.8),
                                                   "policy": "retry"}], [STORE, GC]))

    def nontrivial(self, sim, case):
        return sim.probes.get("respelled-paths", 0) > 0


class C24(Profile):
    """elements of another version or type are refused, and left alone"""
    id = "C24"

    def build(self, g, case):
        common_knobs(g, case)
        case["knobs"].pop("real_oracle", None)
        remote = g.chance(0.2)
        if remote:
            case["realms"]["R"]["url"] = g.r.choice(REMOTES)
        v = vocabulary(g)
        s = SessionGen(g, v, {"lookup": 2, "read": 3, "read_file": 2, "read_all": 2, "unget": 0.3, "held": 1})
        setup_phase(g, s, case, [STORE], 1.0)
        for i in range(g.r.choice([1, 1, 2])):
            ops = []
            for _ in range(g.r.randrange(1, 5)):
                ops += self.others(s, ops) + s.session(g.r.randrange(1, 5), fresh=g.chance(0.2))
                if remote and g.chance(0.5):
                    ops.append(s.base("snapshot", url=True))
            stamp = g.r.choice([{"version": g.r.choice(["1.0", "2.1", "3.0", "2", "2.00", 2.0, None, "", "2.0 "])},
                                {"type": g.r.choice(["Something", "Text", "", None])},
                                {"type": "Something", "version": "3.0"}])
            if g.chance(0.2):
                # one of the other types
                stamp = {"type": g.r.choice(foreign.TYPES)}
            kinds = g.r.choice([[g.r.choice(foreign.TYPES)], g.r.sample(foreign.TYPES, 2), list(foreign.TYPES)])
            if i == 0 and g.chance(0.4):
                # only some parts of the elements differ, and they are modified
                stamp = {"version": g.r.choice(["1.0", "2.1", "3.0"])}
                kinds = [g.r.choice(foreign.TYPES[1:])]
                mix, s.mix = s.mix, {**s.mix, "md_file": 40, "md_ds": 15, "read_all": 0}
                ops = s.session(g.r.randrange(1, 4))
                s.mix = mix
            kinds = [k for k in kinds if k != stamp.get("type")]
            ops.insert(0 if g.chance(0.7) else g.r.randrange(len(ops)),
                       s.base("convert", types=kinds, stamp=stamp, every=g.r.choice([1, 1, 2, 3, 5])))
            if g.chance(0.15):
                set_faults(g, case, ops, READ_EVENTS + WRITE_EVENTS, ["fail", "kill", "interrupt"], 1)
            case["phases"].append(phase(f"foreign{i}", [{"name": f"P{i}", "ops": ops, "exit": True,
                                                         "policy": "abort"}], [MEND, STORE]))
            more = sessions(g, s, 1)
            more[-1:-1] = self.others(s, more)
            case["phases"].append(phase(f"other{i}", [{"name": f"Q{i}", "ops": more, "exit": True}],
                                        [STORE], faults=False))

    def others(self, s, ops):
        g = s.g
        result = []
        t = s.some_target()
        if t and g.chance(0.6):
            result += [s.base("open"), s.base("roundtrip", **t), s.base("close")]
        if g.chance(0.3):
            result.append(s.base("source_json", what=g.r.choice(["LocalGitMetadataSource", "ImmediateMetadataSource"]),
                                 content=g.content(True), path=g.r.choice(DIRS),
                                 stamp=g.r.choice([None, {"version": "1.0"}, {"version": "3.0"}, {"version": None},
                                                   {"type": "Something"}, {"type": "Metadata"}])))
        return result

    def nontrivial(self, sim, case):
        return bool(sim.damages)


class C25(Profile):
    """one result for every extractor and configuration: the last one"""
    id = "C25"
    variants = 2

    def build(self, g, case):
        common_knobs(g, case)
        v = vocabulary(g, 1)
        v.prefixes, v.paths, v.files = v.prefixes[1:3], v.paths[1:3], v.files[:2]
        # few extractors and configurations
        extractors = g.r.sample(["core", "Core", "core ", "custom", "", "ext/é"], g.r.randrange(1, 3))
        configs = [g.config() for _ in range(g.r.randrange(1, 4))]
        if g.chance(0.5):
            configs += [[c[0] + g.r.choice(["", "", " ", ".0"]), self.almost(g, c[1])] for c in configs]
        two = g.chance(0.3)
        mix = {"md_ds": 12, "md_file": 12, "held": 2, "unget": 1, "purge": 0.3, "save_sub": 1, "read": 1, "set_dlm": 1,
               "set_files": 0.3, "tvl_set": 1, "us_set": 1, "copy": 1 if two else 0}
        if two:
            case["realms"]["D"] = {}
        s0 = SessionGen(g, v, mix, copy_to="D" if two else None)
        after = [STORE, GC] + ([dict(STORE, realm="D")] if two else [])
        setup_phase(g, s0, case, after, 0.8, 6)
        for i in range(g.r.choice([1, 1, 2])):
            procs, everything = [], []
            n = g.r.choice([1, 1, 2, 3])
            for k in range(n):
                s = SessionGen(g, v, mix, copy_to="D" if two else None)
                s.trees = {key: set(p) for key, p in s0.trees.items()}
                s.uuids = {key: set(p) for key, p in s0.uuids.items()}
                ops = []
                for _ in range(g.r.randrange(1, 4)):
                    inner = self.results(s, s.session(n_ops(g, 10), saves=g.r.choice([1, 1, 2])))
                    ops.append(s.base("txn", ops=inner)) if n > 1 else ops.extend(inner)
                everything.append(ops)
                procs.append({"name": f"P{i}.{k}", "ops": ops, "exit": g.chance(0.7),
                              "policy": g.r.choice(["retry", "retry", "abort"])})
            if g.chance(0.3):
                set_faults(g, case, g.r.choice(everything), WRITE_EVENTS + READ_EVENTS + FILE_EVENTS,
                           ["fail", "kill", "lostack", "enospc", "interrupt"], 2, weight=HEAVY_SAVE)
            case["phases"].append(phase(f"p{i}", procs, after))
        case["search"]["switch"] = g.r.choice([0.01, 0.05, 0.2, 0.5])
        case["phases"].append(phase("after", [{"name": "A", "ops": self.results(s0, sessions(g, s0, 1, 6)),
                                               "exit": True}], after, faults=False))
        for p in case["phases"]:
            for proc in p["procs"]:
                for o in flatten(proc["ops"]):
                    self.few(g, o, extractors, configs)

    def almost(self, g, parameter):
        """parameters that differ a little, or in their order only"""
        items = list(copy.deepcopy(parameter).items())
        if items and g.chance(0.5):
            g.r.shuffle(items)
            return dict(items)
        return {**dict(items), g.r.choice(["p", "q", "P"]): g.r.choice(["v", None, "1", "", [], ["v", {}], {"v": 1}])}

    def few(self, g, value, extractors, configs):
        if isinstance(value, dict):
            if "cfg" in value and "ext" in value:
                value["ext"] = g.r.choice(extractors)
                value["cfg"] = copy.deepcopy(g.r.choice(configs))
                return
            value = list(value.values())
        for part in value if isinstance(value, list) else []:
            self.few(g, part, extractors, configs)

    def results(self, s, ops):
        """look at the results now and then"""
        g = s.g
        for _ in range(g.r.randrange(0, 4)):
            t = s.some_target()
            if t:
                if g.chance(0.5):
                    t["file"] = g.r.choice(s.v.files)
                ops.insert(g.r.randrange(1, len(ops) + 1), s.base("results", **t))
        return ops

    def nontrivial(self, sim, case):
        return sim.probes.get("results-replaced", 0) > 0


PROFILES = {p.id: p for p in [c() for c in (
    C01, C02, C03, C04, C05, C06, C07, C08, C09, C10, C11, C12, C13, C14, C15, C16, C17, C18, C19, C20, C21,
    C22, C23, C24, C25)]}
