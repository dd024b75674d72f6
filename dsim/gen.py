"""
Seeded generation of workloads. The generator only produces explicit JSON; all
randomness ends here.
"""
import copy
import random
import string
import uuid
from typing import Dict, List, Optional

PLAIN = ["a", "b", "c", "sub", "file.txt", "x1"]
ODD = ["with space", 'quo"te', "back\\slash", "ümlaut", "日本", "-dash", "tab\there", "*star*",
       '"lead', "semi;colon", "per%cent", "dollar$", "'single'", "bell\x07", "\u2028sep", "\x85nel",
       "\x1cfs", "cr\rx", "a\\", ".hidden", "~tilde", "#hash", "line\nbreak", "trail\n", "é\"\\n",
       "*None*", "None", "@", "head:tail", "{}", "[x]", "end ", " begin", "UPPER", "Upper", "...", "a" * 200, "nbsp\u00a0", "e\u0301", "\u00e9",
       "\x7f", "\ufeffbom", "z\u200bw", "\u212bngstr", "\ufb01", "stra\u00dfe", "strasse", "\U0001f469\u200d\U0001f52c", "a" * 300, ".gitignore",
       "tree", "blob", "0", "\\n", "\\303\\266", "x\ty\tz", "refs", "\u2029p", "%0a", "C:", "a,b", "..a", "\x01\x02", "$(x)", "`x`", "!", "&"]


class Gen:
    def __init__(self, seed: str):
        self.r = random.Random(seed)
        self.n = 0
        self.counter = 0
        self.past: Dict[str, list] = {}
        self.present_time = True        # results that get the present time as time stamp

    def op_id(self) -> str:
        self.n += 1
        return f"o{self.n}"

    def chance(self, p: float) -> bool:
        return self.r.random() < p

    # -- values --------------------------------------------------------------
    def uuid(self) -> str:
        return str(uuid.UUID(int=self.r.getrandbits(128), version=4))

    def version(self) -> str:
        if self.chance(0.7):
            return "%040x" % self.r.getrandbits(160)
        return self.r.choice(["v1", "v2", "1.0", "unknown", "ünicode", "0", "a b", " lead", "x\ny", "q\"", "\u2028", "a/b/", "V1", "01", "1"]) + str(self.r.randrange(50))

    def name(self, odd: float) -> str:
        if self.chance(odd):
            return self.r.choice(ODD)
        if self.chance(0.15):
            return "".join(self.r.choice(string.ascii_letters) for _ in range(self.r.randrange(1, 12)))
        return self.r.choice(PLAIN)

    def path(self, odd: float, depth: int = 3) -> str:
        return "/".join(self.name(odd) for _ in range(self.r.randrange(1, depth + 1)))

    def token(self) -> str:
        self.counter += 1
        return f"tok{self.counter:05d}x"

    def content(self, rich: bool):
        self.counter += 1
        if not rich:
            return {"k": self.counter}
        r = self.r
        return r.choice([
            {"k": self.counter}, [self.counter, None, True], "text %d" % self.counter, self.counter,
            {"nested": {"a": [1, 2.5, {"b": self.counter}]}, "": ""},
            {"uni": "äöü €\U0001f600 \u2028 \x00\x1f", "n": self.counter},
            {"nl": "line1\nline2\r\n\ttab\x0b\x0c\x85", "q": "\"\\'", "n": self.counter},
            {"big": 2 ** 70 + self.counter, "f": 1e-300, "neg": -0.5, "n": self.counter},
            None, "", [], {}, False, 0,
            {"long": "x" * r.choice([10, 100, 5000]), "n": self.counter},
            {"@": {"type": "Reference", "version": "2.0"}, "class_name": "X", "location": "*None*",
             "n": self.counter},
            {"surrogate": "\ud800", "\udcff": self.counter}, {"inf": float("inf"), "tiny": 5e-324, "n": self.counter},
            {"float": 1234567890.1234567, "int": 10 ** 25, "one": 1.0, "n": self.counter}, 1e22, "\x00", "\ufeff",
            {"1": 1, "01": 2, "a b": [[], {}, [[]]], "n": self.counter}, {"null": None, "t": True, "z": 0, "n": self.counter},
        ])

    def config(self):
        r = self.r
        return r.choice([["1.0", {}], ["1.0", {"p": "v"}], ["2.0", {}], ["", {}],
                         ["1.0", {"p": "w", "q": "1"}], ["1.0", {"q": "1", "p": "w"}], ["1", {}], ["1.0", {"p": "v "}],
                         ["1.0", {"P": "v"}], ["1.0", {"ü": "\n"}], ["1.0", {"p": None}], ["1.0", {"p": ["v", {}]}],
                         ["1.0", {"p": {"v": 1}}], ["1.0", {"p": 1.5, "q": "1"}]])

    def again(self, kind, make, change=None):
        """
        Now and then something that existed before: equal elements share their
        objects in the store, and almost equal ones must not.
        """
        past = self.past.setdefault(kind, [])
        if past and self.chance(0.12):
            value = copy.deepcopy(self.r.choice(past))
            if change is not None and self.chance(0.5):
                change(value)
            return value
        value = make()
        past.append(value)
        return copy.deepcopy(value)

    def run(self, rich=True) -> dict:
        def change(run):
            other = self.new_run(rich)
            field = self.r.choice(sorted(run))
            run[field] = other[field]
        return self.again("run", lambda: self.new_run(rich), change)

    def new_run(self, rich=True) -> dict:
        r = self.r
        return {"ts": r.choice([float(r.randrange(10 ** 6)), 0.1 + r.randrange(1000), 1, -1.5, 0,
                                1660000000.1234567 + r.randrange(1000), 1e-9, 2 ** 53 + 1,
                                None if self.present_time else 5.5]),
                "ext": r.choice(["core", "core", "custom", "xmp", "ext/é", "Core", "core ", ""]),
                "author": r.choice(["Alice", "Bob Ö", "", "x\ny", "\ud83d"]),
                "email": r.choice(["a@example.com", ""]),
                "cfg": self.config(), "content": self.content(rich)}

    def runs(self, rich=True) -> list:
        return [self.run(rich) for _ in range(self.r.choice([0, 1, 1, 1, 2, 3]))]

    def files(self, odd, n=None, rich=True) -> Dict[str, list]:
        def change(files):
            for p in sorted(files)[:1]:
                files[p] = self.runs(rich)
        return self.again("files" + str(n), lambda: self.new_files(odd, n, rich), change)

    def new_files(self, odd, n=None, rich=True) -> Dict[str, list]:
        result: Dict[str, list] = {}
        for _ in range(self.r.randrange(0, 5) if n is None else n):
            p = self.path(odd)
            if all(not (q == p or q.startswith(p + "/") or p.startswith(q + "/")) for q in result):
                result[p] = self.runs(rich)
        return result

    def mrr(self, odd, ident=None, version=None, rich=True) -> dict:
        return {"id": ident or self.uuid(), "version": version or self.version(),
                "dlm": None if self.chance(0.15) else self.runs(rich),
                "files": None if self.chance(0.2) else self.files(odd, rich=rich)}

    def tree(self, odd, rich=True) -> dict:
        def change(tree):
            for p in sorted(tree)[:1]:
                tree[p]["dlm"] = self.runs(rich)
        return self.again("tree", lambda: self.new_tree(odd, rich), change)

    def new_tree(self, odd, rich=True) -> dict:
        result = {}
        if self.chance(0.7):
            result[""] = self.mrr(odd, rich=rich)
        for _ in range(self.r.randrange(0, 3)):
            p = self.path(odd, 2)
            if all(q == "" or not (q == p) for q in result):
                result[p] = self.mrr(odd, rich=rich)
        return result


class Vocabulary:
    """Ids, versions and paths that the operations of one run draw from"""
    def __init__(self, g: Gen, size: int, odd: float):
        self.g = g
        self.odd = odd
        self.uuids = [g.uuid() for _ in range(size + 1)]
        self.versions = [g.version() for _ in range(size)]
        self.prefixes = ["", ""] + [g.path(odd, 2) for _ in range(2 if g.chance(0.85) else 8)]
        self.paths = ["", ""] + [g.path(odd, 2) for _ in range(2)]
        self.files = [g.path(odd) for _ in range(5 if g.chance(0.9) else 15)]

    def tree_key(self):
        g = self.g
        return {"ver": g.r.choice(self.versions), "prefix": g.r.choice(self.prefixes)}


# weights of the operation mix inside a session
BASE_MIX = {
    "auto": 6, "md_ds": 4, "md_file": 8, "rm_file": 1, "set_files": 1, "set_dlm": 1, "add_ds": 2,
    "add_sub": 1, "rm_sub": 1, "tvl_set": 2, "us_set": 3, "read": 2, "read_file": 1, "lookup": 1,
    "save_sub": 0, "unget": 0, "purge": 0, "held": 0, "read_all": 1, "copy": 0,
}


class SessionGen:
    """
    Produces operations of sessions. Keeps a rough picture of what exists, such
    that most operations are applicable; operations that turn out not to be are
    skipped when they are executed.
    """
    def __init__(self, g: Gen, vocabulary: Vocabulary, mix: dict, realm="R", copy_to=None):
        self.g, self.v, self.realm = g, vocabulary, realm
        self.mix = {**BASE_MIX, **mix}
        self.trees: Dict[tuple, set] = {}
        self.uuids: Dict[str, set] = {}
        self.known_files: List[tuple] = []
        self.held: List[tuple] = []     # names and kinds
        self.copy_to = copy_to
        self.queue: List[dict] = []     # operations that continue an earlier one

    def base(self, op, **kw):
        o = {"id": self.g.op_id(), "op": op}
        if self.realm != "R":
            o["realm"] = self.realm
        o.update(kw)
        return o

    def time_stamp(self) -> str:
        r = self.g.r
        return str(r.randrange(1000)) if r.random() < .8 else r.choice(
            ["1660000000.1234567", "2022-08-09T12:00:00+02:00", "", "1e3", "é\n", "007", "-1"])

    def some_target(self) -> Optional[dict]:
        g = self.g
        keys = sorted(k for k, paths in self.trees.items() if paths)
        if not keys:
            return None
        ver, prefix = g.r.choice(keys)
        return {"ver": ver, "prefix": prefix, "path": g.r.choice(sorted(self.trees[(ver, prefix)]))}

    def some_listed(self) -> Optional[dict]:
        g = self.g
        ids = sorted(u for u, ks in self.uuids.items() if ks)
        if not ids:
            return None
        u = g.r.choice(ids)
        ver, prefix = g.r.choice(sorted(self.uuids[u]))
        return {"uuid": u, "ver": ver, "prefix": prefix}

    def mrr_target(self) -> Optional[dict]:
        g = self.g
        held = self.held_target("mrr")
        if held:
            return held
        if g.chance(0.25):
            t = self.some_listed()
            if t:
                return t
        return self.some_target()

    def held_target(self, kind: str) -> Optional[dict]:
        names = [name for name, k in self.held if k == kind]
        if names and self.g.chance(0.5):
            return {"held": self.g.r.choice(names)}
        return None

    def auto(self, fresh=False) -> dict:
        g, v = self.g, self.v
        path = g.r.choice(v.paths)
        k = v.tree_key()
        o = self.base("auto", ds=g.r.choice(v.uuids), prefix=k["prefix"], path=path)
        if path:
            o["root"] = g.r.choice(v.uuids)
            o["rootver"] = k["ver"]
            o["ver"] = g.r.choice(v.versions)
            self.trees.setdefault((k["ver"], k["prefix"]), set()).update(["", path])
            self.uuids.setdefault(o["root"], set()).add((k["ver"], k["prefix"]))
            self.uuids.setdefault(o["ds"], set()).add((o["ver"], ""))
        else:
            o["ver"] = k["ver"]
            self.trees.setdefault((k["ver"], k["prefix"]), set()).add("")
            self.uuids.setdefault(o["ds"], set()).add((k["ver"], k["prefix"]))
        if fresh:
            o["fresh"] = True
        return o

    def use_after_release(self, held: dict):
        """an element that somebody holds is released, and then used or modified"""
        g, v = self.g, self.v
        what, name = held["what"], {"held": held["as"]}
        target = {k: held[k] for k in ("uuid", "ver", "prefix", "path", "file") if k in held}
        unget = {"tree": "tree", "vl": "vl", "mrr": "el" if "uuid" in held else "tree", "md": "md"}[what]
        self.queue.append(self.base("unget_" + unget, **target))
        for _ in range(g.r.randrange(1, 3)):
            if what == "vl":
                u = held["uuid"]
                self.queue.append(self.base("us_set", uuid=u, ts=self.time_stamp(), mrr=g.mrr(v.odd, ident=u),
                                            **v.tree_key(), **name))
            elif what == "tree":
                self.queue.append(self.base("add_ds", path=g.path(v.odd, 2), mrr=g.mrr(v.odd), **name))
            elif what == "md":
                self.queue.append(self.base("md", what="md", run=g.run(), **name))
            else:
                self.queue.append(self.base("md", run=g.run(), **({"file": g.r.choice(v.files)} if g.chance(0.6)
                                                                  else {}), **name))

    def operation(self) -> Optional[dict]:
        g, v = self.g, self.v
        if self.queue and g.chance(0.75):
            return self.queue.pop(0)
        names = [n for n, w in self.mix.items() if w]
        kind = g.r.choices(names, [self.mix[n] for n in names])[0]
        if kind == "auto":
            return self.auto()
        if kind == "tvl_set":
            k = v.tree_key()
            tree = g.tree(v.odd)
            self.trees[(k["ver"], k["prefix"])] = set(tree)
            return self.base("tvl_set", ts=self.time_stamp(), tree=tree, **k)
        if kind == "us_set":
            u = g.r.choice(v.uuids)
            k = v.tree_key()
            o = self.base("us_set", uuid=u, ts=self.time_stamp(), **k)
            t = self.some_target() if g.chance(0.6) else None
            if t:
                o["source"] = t
            else:
                o["mrr"] = g.mrr(v.odd, ident=u)
            held = self.held_target("vl")
            if held:
                o.update(held)
                return o
            self.uuids.setdefault(u, set()).add((k["ver"], k["prefix"]))
            return o
        if kind in ("add_ds", "add_sub", "rm_sub"):
            t = self.some_target()
            if t is None:
                return self.auto()
            k = {"ver": t["ver"], "prefix": t["prefix"]}
            held = self.held_target("tree")
            if held:
                k = held
            if kind == "rm_sub":
                paths = [p for p in sorted(self.trees[(t["ver"], t["prefix"])]) if p]
                if not paths:
                    return None
                return self.base("rm_sub", path=g.r.choice(paths), **k)
            path = g.r.choice([p for p in v.paths if p] or ["sub"]) if g.chance(0.6) else g.path(v.odd, 3)
            self.trees[(t["ver"], t["prefix"])].add(path)
            if kind == "add_ds":
                return self.base("add_ds", path=path, mrr=g.mrr(v.odd), **k)
            tree = g.tree(v.odd)
            self.trees[(t["ver"], t["prefix"])].update(
                path + ("/" + p if p else "") for p in tree)
            return self.base("add_sub", path=path, tree=tree, **k)
        if kind == "read_all":
            return self.base("read_all")
        if kind == "lookup":
            o = dict(self.auto())
            o["op"] = "lookup"
            return o
        if kind == "purge":
            self.held.clear()
            self.queue.clear()
            return self.base("purge", which=g.r.choice(["tvl", "us"]))
        if kind == "held":
            what = g.r.choice(["mrr", "mrr", "tree", "vl", "md"])
            t = self.some_target() if what == "tree" else self.some_listed() if what == "vl" \
                else self.mrr_target()
            if t is None or "held" in t:
                return None
            name = f"h{len(self.held)}"
            self.held.append((name, what))
            o = self.base("hold", what=what, **t)
            o["as"] = name
            if what == "md":
                o["file"] = g.r.choice(v.files)
            if g.chance(min(0.6, self.mix["unget"] / 6)):
                self.use_after_release(o)
            return o
        if kind == "unget":
            t = self.some_target()
            what = g.r.choice(["tree", "vl", "el", "md"])
            if what in ("vl", "el"):
                t = self.some_listed()
            if t is None:
                return None
            o = self.base("unget_" + what, **t)
            if what == "md":
                o["file"] = g.r.choice(v.files)
            return o
        if kind == "copy":
            what = g.r.choice(["tvl", "us", "tree", "vl", "mrr", "ft", "dlm", "md", "text"])
            if what == "text":
                return self.base("copy", what=what, to=self.copy_to, state=g.r.choice(["new", "saved", "purged", "stored"]),
                                 text=g.r.choice(["", "line\n", "a\r\nb\u2028c\n\n", "ü\x00"]) + g.token())
            t = (self.some_listed() if what == "vl" else self.some_target()) or {}
            if not t and what not in ("tvl", "us"):
                return None
            t = self.held_target(what) or t
            o = self.base("copy", what=what, to=self.copy_to, **t)
            if what == "md":
                o["file"] = g.r.choice(v.files)
            if what in ("tvl", "vl") and g.chance(0.4):
                o["path_prefix"] = g.path(v.odd, 2)
            return o
        if kind in ("read", "save_sub", "md_file"):
            what = g.r.choice(["tree", "vl", "md"] if kind == "read" else
                              ["tree", "vl"] if kind == "save_sub" else ["md"])
            t = self.held_target(what)
            if t and kind == "md_file":
                return self.base("md", what=what, run=g.run(), **t)
            if t:
                return self.base(kind, what=what, **t)
        t = self.mrr_target()
        if t is None:
            return self.auto()
        if kind == "md_ds":
            return self.base("md", run=g.run(), **t)
        if kind == "md_file":
            if self.known_files and g.chance(0.25):
                t, file = g.r.choice(self.known_files)
                return self.base("md", run=g.run(), file=file, **t)
            o = self.base("md", run=g.run(), file=g.r.choice(v.files), **t)
            if "ver" in t:
                self.known_files.append((t, o["file"]))
            if g.chance(0.15):
                o["direct"] = True
            return o
        if kind == "rm_file":
            return self.base("rm_file", file=g.r.choice(v.files), **t)
        if kind == "set_files":
            return self.base("set_files", files=g.files(v.odd), **t)
        if kind == "set_dlm":
            return self.base("set_dlm", runs=g.runs(), **t)
        if kind == "read":
            return self.base("read", **t)
        if kind == "read_file":
            if self.known_files and g.chance(0.6):
                t, file = g.r.choice(self.known_files)
                return self.base("read_file", file=file, **t)
            return self.base("read_file", file=g.r.choice(v.files), **t)
        if kind == "save_sub":
            what = g.r.choice(["tree", "vl", "mrr", "ft", "dlm", "file"])
            if what == "tree":
                t = self.some_target()
            elif what == "vl":
                t = self.some_listed()
            if t is None:
                return None
            o = self.base("save_sub", what=what, **t)
            if what == "file":
                o["file"] = g.r.choice(v.files)
            return o
        raise AssertionError(kind)

    def save(self, flush=True) -> List[dict]:
        g = self.g
        ops = [self.base("save_tvl"), self.base("save_us")]
        if g.chance(0.3):
            ops.reverse()
        if flush:
            ops.append(self.base("flush"))
        return ops

    def session(self, n_ops, saves=1, flush=True, fresh=False) -> List[dict]:
        """open, modify, save, possibly more than once"""
        self.held, self.queue = [], []
        ops = [self.auto(fresh=True)] if fresh else [self.base("open")]
        for i in range(saves):
            for _ in range(max(1, n_ops // saves)):
                o = self.operation()
                if o is not None:
                    ops.append(o)
            ops.extend(self.save(flush if i == saves - 1 else self.g.chance(0.5) and flush))
        return ops


# ---------------------------------------------------------------------------
# faults
WRITE_EVENTS = ["git.hash-object", "git.mktree", "git.update-ref", "git.update-ref.write",
                "git.hash-object.write", "git.mktree.write"]
READ_EVENTS = ["git.show", "git.cat-file", "git.ls-tree", "git.for-each-ref", "git.show-ref",
               "git.rev-parse"]
FILE_EVENTS = ["fs.mkdir", "fs.open", "fs.write"]

PROCESS_FAULTS = ["fail", "kill", "lostack", "spawn", "enospc", "interrupt"]


def arm(g: Gen, ops: List[dict], classes: List[str], kinds: List[str], n: int, proc=None,
        weight=None) -> List[dict]:
    """
    Arm up to n faults, each inside one operation: the skip-th event of a class.
    """
    result = []
    flat = [o for o in flatten(ops) if o["op"] not in ("gc", "check", "hold", "close", "txn")]
    if not flat:
        return result
    for _ in range(n):
        weights = [(weight or {}).get(o["op"], 1.0) for o in flat]
        if not any(weights):
            return result
        o = g.r.choices(flat, weights)[0]
        cls = g.r.choice(classes)
        kind = g.r.choice(kinds)
        fault = {"op": o["id"], "cls": cls, "kind": kind,
                 "skip": g.r.choice([0, 0, 0, 1, 1, 2, 3, g.r.randrange(8), g.r.randrange(30)])}
        if proc:
            fault["proc"] = proc
        if kind == "spawn":
            fault["arg"] = g.r.choice([11, 12, 24, 23])       # EAGAIN ENOMEM EMFILE ENFILE
        if kind == "fail" and g.chance(0.4):
            fault["arg"] = g.r.choice([1, 1, 1, 127, 255])
        if kind == "jump":
            fault["arg"] = g.r.choice([3600.0, -3600.0, 86400.0 * 400, -86400.0 * 400])
        if kind == "stall":
            fault["arg"] = g.r.choice([0.01, 0.1, 1.0, 30.0])
        if kind in ("enospc", "fail", "netfail") and g.chance(0.25):
            fault["times"] = g.r.randrange(2, 6)
        fault["pool"] = [[f["id"], w] for f, w in zip(flat, weights) if w]
        result.append(fault)
    return result


def place(faults: List[dict], record, applicable, seed: str) -> List[dict]:
    """
    Place armed faults at events that an earlier run of the same workload had:
    all matching events of the chosen operation have the same chance.
    """
    r = random.Random(seed)
    result = []
    for fault in faults:
        fault = dict(fault)
        pool = dict(map(tuple, fault.pop("pool", [])))
        counts: Dict[str, int] = {}
        for task, op, kind in record:
            if op in pool and fault.get("proc") in (None, task) and kind.startswith(fault["cls"]) \
                    and applicable[fault["kind"]](kind):
                counts[op] = counts.get(op, 0) + 1
        if counts:
            ops = sorted(counts)
            fault["op"] = r.choices(ops, [pool[o] for o in ops])[0]
            fault["skip"] = r.randrange(counts[fault["op"]])
        result.append(fault)
    return result



def flatten(ops):
    for o in ops:
        yield o
        if "ops" in o:
            yield from flatten(o["ops"])
