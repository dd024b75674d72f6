"""
Execution of one simulated run of the metadata store.

A case is a JSON value: realms, knobs and a list of phases. A phase runs one or
more simulated processes concurrently, each executing a list of operations
through the public interface of the package. In parallel the operations are
applied to the reference model. Between and inside the phases oracles compare
what a fresh process reads from the store with the model.
"""
import copy
import functools
import os
import shutil
from contextlib import contextmanager
from pathlib import Path, PurePosixPath
from types import SimpleNamespace
from typing import Dict, List, Optional
from uuid import UUID

from . import foreign, loader, seams
from .errors import SessionLost, Skip, Violation
from .kernel import HarnessError, Proc, Sim, SimAbort, SimKilled, Stuck, current_task
from .model import (MD, MRR, US, VL, Tree, diff, dump_element, dump_ft, dump_md, dump_mrr,
                    dump_tree, dump_us, dump_vl, key, parents, short)
from .ops import MoreOps
from .simgit import GitFatal


class Realm:
    def __init__(self, name: str, path: str):
        self.name = name
        self.path = path
        self.tvl: Optional[dict] = None     # dumps of what is stored
        self.us: Optional[dict] = None
        self.history = {"tvl": [(0, None)], "us": [(0, None)]}
        self.pending = set()                # processes with unflushed saves
        self.generation = 0                 # counts visible saves
        self.protected_generation = 0       # the one that the object references cover
        self.items = []                     # standalone elements: protected, see op_put
        self.inflight = {"tvl": [], "us": []}
        self.watchers = []                  # of reads that are in progress
        self.hidden = False
        self.releasing = []                 # processes that are about to release the lock
        self.acquisitions = 0
        self.depth = 0
        self.writers = 0
        self.holder = None
        self.busy = {"tvl": None, "us": None}

    @property
    def git_dir(self):
        return self.path + "/.git"


def respelled(MetadataPath, path, n):
    """the same path, spelled or put together in another way"""
    parts = path.split("/") if path else []
    cut = n // 16 % (len(parts) + 1)
    left, right = "/".join(parts[:cut]), "/".join(parts[cut:])
    return [
        lambda: MetadataPath(path),
        lambda: MetadataPath("./" + path),
        lambda: MetadataPath(path.replace("/", "//")),
        lambda: MetadataPath(path + "/"),
        lambda: MetadataPath(path.replace("/", "/./") + "/."),
        lambda: MetadataPath(*parts),
        lambda: MetadataPath(left, right),
        lambda: MetadataPath(left) / right,
        lambda: MetadataPath(left) / MetadataPath(right),
        lambda: MetadataPath(MetadataPath(path)),
        lambda: MetadataPath(PurePosixPath(path)),
        lambda: functools.reduce(lambda a, b: a / b, parts, MetadataPath("")),
        lambda: functools.reduce(lambda b, a: MetadataPath(a) / b, reversed(parts), MetadataPath()),
        lambda: MetadataPath("/" + path),
        lambda: MetadataPath(str(MetadataPath(left)), ".", MetadataPath(right)),
        lambda: MetadataPath(left).joinpath(right, ""),
    ][n % 16]()


class Session:
    """The handles a process has on one realm, and their model"""
    def __init__(self):
        self.tvl = self.us = None
        self.m_tvl: Optional[VL] = None
        self.m_us: Optional[US] = None
        self.held = {}
        self.clean = {"tvl": False, "us": False}
        self.partial = False


class World:
    def __init__(self, sim: Sim, case: dict):
        self.sim = sim
        self.case = case
        self.concurrent = False
        self.other_ops = 0                  # started operations that might take locks
        self.blobs = {}                     # name: (sha, content), see op_source_put
        self.knobs = case.get("knobs", {})
        self.realms: Dict[str, Realm] = {}
        self.urls: Dict[str, str] = {}
        self.down = set()
        self.clients: Dict[str, "Client"] = {}
        seams.attach(sim, self.resolve_remote)
        os.makedirs(sim.root + "/home", exist_ok=True)
        for name, spec in case["realms"].items():
            path = f"{sim.root}/{spec.get('dir', name)}"
            if spec.get("init", True):
                result = sim.git.run(["git", "init", path], b"", sim.root, {})
                if result.returncode:
                    raise HarnessError(f"init failed {result.stderr}")
                if spec.get("config"):
                    with open(path + "/.git/config", "a") as f:
                        for key, value in spec["config"].items():
                            section, _, variable = key.partition(".")
                            f.write(f"[{section}]\n\t{variable} = {value}\n")
                    sim.git.config[os.path.realpath(path + "/.git")] = spec["config"]
            else:
                os.makedirs(os.path.dirname(path), exist_ok=True)
            self.realms[name] = Realm(name, path)
            if spec.get("url"):
                self.urls[spec["url"]] = name

    def resolve_remote(self, url: str) -> str:
        if url in self.down:
            raise GitFatal(f"unable to access '{url}': Could not resolve host")
        name = self.urls.get(url)
        if name is None:
            raise GitFatal(f"'{url}' does not appear to be a git repository")
        return self.realms[name].git_dir

    def url_of(self, realm: Realm) -> str:
        for url, name in self.urls.items():
            if name == realm.name:
                return url
        raise HarnessError(f"{realm.name} has no url")

    # -- processes -----------------------------------------------------------
    def process(self, name: str) -> Proc:
        proc = self.sim.spawn(name)
        size = self.knobs.get("cache")
        if isinstance(size, dict):
            size = size.get(name)
        if size:
            # tuning knob: capacity of the write cache, if it has one
            for module in proc.modules.values():
                cache = module.__dict__.get("GitBlobCache")
                if isinstance(cache, type) and module.__name__.endswith("metadatamapper"):
                    module.GitBlobCache = functools.partial(cache, maxsize=size)
        proc.skew = self.knobs.get("skew", {}).get(name, 0.0)
        return proc

    # -- oracle ---------------------------------------------------------------
    def read_store(self, realm: Realm, url: Optional[str] = None):
        """(tvl dump, uuid set dump) as a fresh, undisturbed process reads them"""
        sim = self.sim
        previous = sim.module_owner
        with sim.undisturbed():
            proc = Proc(sim, "oracle")
            sim.procs.pop()
            sim.use_modules(proc)
            try:
                tvl, us = proc.get_top_level_metadata_objects("git", url or realm.path)
                return (None if tvl is None else dump_vl(proc, tvl),
                        None if us is None else dump_us(proc, us))
            finally:
                if previous is not None:
                    sim.use_modules(previous)

    @contextmanager
    def intact(self):
        """what is damaged can be read meanwhile"""
        git = self.sim.git
        damage = git.unreadable, git.corrupt, git.broken_refs
        git.unreadable, git.corrupt, git.broken_refs = set(), set(), set()
        others, git.foreign = git.foreign, set()
        refs = self.make_native() if others else []
        try:
            yield
        finally:
            git.unreadable, git.corrupt, git.broken_refs = damage
            git.foreign = others
            with self.sim.undisturbed():
                for repo, name, sha in refs:
                    repo.write_ref(name, sha)

    def make_native(self):
        """elements of other versions are converted back"""
        refs = []
        with self.sim.undisturbed():
            for realm in self.realms.values():
                repo = self.sim.git.repo(realm.git_dir)
                for name, sha in repo.refs().items():
                    if name in foreign.REFS:
                        refs.append((repo, name, sha))
                foreign.make_native(repo)
        return refs

    def observe(self, realm: Realm, context: str):
        try:
            with self.intact():
                return self.read_store(realm)
        except (SimKilled, SimAbort, HarnessError):
            raise
        except BaseException as e:
            raise Violation("unreadable", f"{context}: a fresh process can not read the store of "
                                          f"{realm.name}: {type(e).__name__}: {short(str(e))}")

    def check_store(self, realm: Realm, context: str, kind: str = "content"):
        tvl, us = self.observe(realm, context)
        for name, actual, wanted in (("tree version list", tvl, realm.tvl), ("uuid set", us, realm.us)):
            if actual != wanted:
                raise Violation(kind, f"{context}: {name} of {realm.name} differs from the model: "
                                      + "; ".join(diff(wanted, actual)[:6]))

    def resolve(self, realm: Realm, which: str, new, context: str):
        """After a failed or interrupted save: old or new content, nothing else"""
        tvl, us = self.observe(realm, context)
        actual, other = (tvl, us) if which == "tvl" else (us, tvl)
        old = getattr(realm, which)
        other_name = "us" if which == "tvl" else "tvl"
        if actual != old and actual != new:
            raise Violation("torn", f"{context}: {which} of {realm.name} is neither the old nor the "
                                    f"new content; vs old: {diff(old, actual)[:3]} vs new: {diff(new, actual)[:3]}")
        if realm.busy[other_name] is None and other != getattr(realm, other_name):
            raise Violation("torn", f"{context}: {other_name} of {realm.name} changed while {which} "
                                    f"was saved: {diff(getattr(realm, other_name), other)[:3]}")
        if actual == new:
            self.commit(realm, which, new)
            self.sim.probe("failed-save-visible")
        else:
            self.sim.probe("failed-save-invisible")

    def commit(self, realm: Realm, which: str, new):
        realm.generation += 1
        setattr(realm, which, new)
        realm.history[which].append((self.sim.steps, new))

    def check_items(self, realm: Realm, context: str, kind: str = "content"):
        """every standalone element that is protected must be completely readable"""
        sim = self.sim
        previous = sim.module_owner
        with sim.undisturbed():
            proc = Proc(sim, "oracle")
            sim.procs.pop()
            sim.use_modules(proc)
            try:
                for what, class_name, location, wanted, origin in realm.items:
                    try:
                        got = read_item(proc, realm.path, what, class_name, location)
                    except (SimKilled, SimAbort, HarnessError):
                        raise
                    except BaseException as e:
                        raise Violation(kind, f"{context}: the {what} that {origin} stored in {realm.name} "
                                              f"can not be read: {type(e).__name__}: {short(str(e))}")
                    if got != wanted:
                        raise Violation(kind, f"{context}: the {what} that {origin} stored in {realm.name} "
                                              f"differs: " + "; ".join(diff(wanted, got)[:5]))
            finally:
                if previous is not None:
                    sim.use_modules(previous)
        sim.probe("items-checked", len(realm.items))

    def gc_allowed(self, realm: Realm) -> bool:
        if self.sim.git.damaged():
            return False
        if self.knobs.get("gc_any_time"):
            return True
        if realm.pending and realm.generation != realm.protected_generation:
            return False
        for client in self.clients.values():
            if client.unprotected(realm):
                return False
            if not client.proc.dead and client.sessions.get(realm.name) is not None \
                    and client.sessions[realm.name].partial:
                return False
        return True

    def gc(self, realm: Realm, context: str):
        with self.sim.undisturbed():
            dropped, problems = self.sim.git.prune(realm.git_dir)
        self.sim.probe("gc")
        self.sim.probe("gc-dropped-objects", dropped)
        if problems:
            raise Violation("gc-broken", f"{context}: references lead to missing objects, git gc "
                                         f"fails: {problems[:4]}")
        self.check_store(realm, context + ", after gc", "gc-loss")
        self.check_items(realm, context + ", after gc", "gc-loss")


def read_item(proc, realm_path, what, class_name, location):
    reference = proc.Reference(class_name, location)
    if what == "text":
        element = proc.Text(realm=realm_path, reference=reference)
        element.ensure_mapped()
        return element.content
    if what == "ft":
        return dump_ft(proc, proc.FileTree(realm=realm_path, reference=reference))
    return dump_tree(proc, proc.DatasetTree(realm=realm_path, reference=reference))


# operations that change neither elements nor what is known about them
READS = ("read", "read_file", "read_all", "read_dlm", "roundtrip", "results", "hold")


class Client(MoreOps):
    """What one simulated process does"""

    def __init__(self, world: World, proc: Proc, policy: str):
        self.world = world
        self.sim = world.sim
        self.P = proc
        self.proc = proc
        self.policy = policy
        self.sessions: Dict[str, Optional[Session]] = {}
        self.copies = {}
        self.current = 0                    # operations in progress that might take locks
        world.clients[proc.name] = self

    # -- control ---------------------------------------------------------------
    def main(self, ops):
        def body(task):
            for o in ops:
                try:
                    self.run(o)
                except SessionLost:
                    self.sessions.clear()
        return body

    def realm(self, o) -> Realm:
        return self.world.realms[o.get("realm", "R")]

    def session(self, o) -> Session:
        s = self.sessions.get(o.get("realm", "R"))
        if s is None:
            raise Skip()
        return s

    def run(self, o):
        task = current_task()
        outer = task.op
        takes_locks = o["op"] not in ("lock", "unlock", "locked", "txn", "work")
        if takes_locks:
            self.current += 1
            self.world.other_ops += 1
        try:
            self._run(o)
        finally:
            task.op = outer
            if takes_locks:
                self.current -= 1

    def _run(self, o):
        self.spelling = list(o["spell"]) if "spell" in o else None
        once = o.get("once") or o["op"] in ("txn", "locked")
        attempts = 5 if self.policy == "retry" and not once else 1
        for attempt in range(attempts):
            op = self.sim.begin_op(o["id"] + (f"#{attempt}" if attempt else ""))
            denied = self.sim.git.denied
            try:
                getattr(self, "op_" + o["op"])(o)
                self.sim.probe("op:" + o["op"])
                if attempt:
                    self.sim.probe("retried-ok")
                return
            except Skip:
                self.sim.probe("skipped")
                return
            except (SimKilled, SimAbort, HarnessError, Violation, SessionLost):
                raise
            except BaseException as e:
                self.sim.log(f"{self.proc.name} {o['op']} raised {type(e).__name__}: {short(str(e))}")
                if self.sim.git.denied != denied and not self.realm(o).hidden:
                    self.sim.probe("failed-on-damage")
                    if o["op"] in READS and not op.faults:
                        return      # the session goes on
                    raise SessionLost()
                if not op.faults:
                    raise Violation(
                        "unexpected-error",
                        f"{o['op']} ({op.id}) failed although nothing was injected into it: "
                        f"{type(e).__name__}: {short(str(e))}"
                        + (" (earlier faults: " + ", ".join(
                            f"{f['kind']}@{f['event']}" for f in self.sim.fired) + ")"
                           if self.sim.fired else ""))
                self.sim.probe("op-failed")
                last = e
        if self.policy == "retry" and not once:
            raise HarnessError(f"faults in {attempts} consecutive attempts: {last!r}")
        raise SessionLost()

    # -- helpers -----------------------------------------------------------------
    def path(self, p: str):
        spelling = self.__dict__.get("spelling")
        if spelling is None:
            return self.P.MetadataPath(p)
        path = respelled(self.P.MetadataPath, p, spelling.pop(0) if len(spelling) > 1 else spelling[0])
        again = self.P.MetadataPath(str(path))
        if str(path) != p or path.parts != tuple(p.split("/") if p else ()) or len(path) != len(path.parts) \
                or again != path or hash(again) != hash(path):
            raise Violation("path", f"{spelling}: {p!r} became {path!r} with parts {path.parts}, "
                                    f"from its string {again!r}")
        self.sim.probe("respelled-paths")
        return path

    def api_mrr(self, s: Session, o):
        if "held" in o:
            return self.api_held(s, o, "mrr")
        if o.get("uuid"):
            vl = s.m_us.lists.get(o["uuid"])
            record = vl and vl.records.get(key(o["ver"], o["prefix"]))
            if not record or not isinstance(record[1], MRR):
                raise Skip()
            element = s.us.get_version_list(UUID(o["uuid"])).get_versioned_element(
                o["ver"], self.path(o["prefix"]))[2]
            return element, record[1]
        record = s.m_tvl.records.get(key(o["ver"], o["prefix"]))
        if not record or o["path"] not in record[1].datasets:
            raise Skip()
        tree = s.tvl.get_dataset_tree(o["ver"], self.path(o["prefix"]))[2]
        mrr = tree.get_metadata_root_record(self.path(o["path"]))
        if mrr is None:
            raise Violation("lost-in-memory", f"dataset {o['path']!r} is not in the tree of {o['ver']}")
        return mrr, record[1].datasets[o["path"]]

    def api_held(self, s: Session, o, kind):
        """an element that the session got earlier, it might have been released since"""
        if o["held"] not in s.held or s.held[o["held"]][0] != kind:
            raise Skip()
        return s.held[o["held"]][1:]

    def drop_held(self, s: Session, model):
        """
        An element is released: it remains what it is, but its parts will be read
        again, objects that are held for its parts do not belong to it any more.
        """
        gone = set()

        def collect(m):
            parts = list(m.datasets.values()) if isinstance(m, Tree) else \
                [e for _, e in m.records.values()] if isinstance(m, VL) else \
                [m.dlm] * (m.dlm is not None) + list(m.files.values()) if isinstance(m, MRR) else []
            for part in parts:
                gone.add(id(part))
                collect(part)
        collect(model)
        s.held = {name: entry for name, entry in s.held.items() if id(entry[2]) not in gone}

    def api_tree(self, s: Session, o):
        if "held" in o:
            return self.api_held(s, o, "tree")
        record = s.m_tvl.records.get(key(o["ver"], o["prefix"]))
        if not record:
            raise Skip()
        return s.tvl.get_dataset_tree(o["ver"], self.path(o["prefix"]))[2], record[1]

    def api_vl(self, s: Session, o):
        if "held" in o:
            return self.api_held(s, o, "vl")
        vl = s.m_us.lists.get(o["uuid"])
        if vl is None:
            raise Skip()
        return s.us.get_version_list(UUID(o["uuid"])), vl

    def config(self, cfg):
        return self.P.ExtractorConfiguration(cfg[0], copy.deepcopy(cfg[1]))

    def add_run(self, r, add, metadata, model=None):
        """add an extractor result, return what the model has to add"""
        sim = self.sim
        repeated = model is not None and any(run[:2] == r["cfg"] for run in model.ext.get(r["ext"], ()))
        began, jump = sim.now(self.proc), sim.jump
        add(r["ts"], r["ext"], r["author"], r["email"], self.config(r["cfg"]), copy.deepcopy(r["content"]))
        ts = r["ts"]
        if ts is None:
            # the present time
            ts = metadata().extractor_runs_for_extractor(r["ext"]) \
                .get_instance_for_configuration(self.config(r["cfg"])).time_stamp
            ended = sim.now(self.proc)
            if sim.jump == jump and not (isinstance(ts, (int, float)) and began <= ts <= ended):
                raise Violation("time-stamp", f"{r['ext']!r}: result added between {began} and {ended} has "
                                              f"time stamp {ts!r}")
            sim.probe("present-time")
        if repeated:
            sim.probe("results-replaced")
        return r["ext"], r["cfg"], ts, r["author"], r["email"], r["content"]

    def build_md(self, runs):
        md, model = self.P.Metadata(), MD()
        for r in runs:
            model.add(*self.add_run(r, md.add_extractor_run, lambda: md, model))
        return md, model

    def build_mrr(self, spec):
        P = self.P
        dlm = m_dlm = None
        if spec.get("dlm") is not None:
            dlm, m_dlm = self.build_md(spec["dlm"])
        ft = None
        files = {}
        if spec.get("files") is not None:
            ft = P.FileTree()
            for path, runs in spec["files"].items():
                md, files[path] = self.build_md(runs)
                ft.add_metadata(self.path(path), md)
        return (P.MetadataRootRecord(UUID(spec["id"]), spec["version"], dlm, ft),
                MRR(spec["id"], spec["version"], m_dlm, files))

    def build_tree(self, specs):
        tree, model = self.P.DatasetTree(), Tree()
        for path, spec in specs.items():
            mrr, model.datasets[path] = self.build_mrr(spec)
            tree.add_dataset(self.path(path), mrr)
        return tree, model

    def touched(self, s: Session):
        s.clean = {"tvl": False, "us": False}

    def written(self, realm: Realm):
        realm.pending.add(self.proc.name)

    # -- operations: sessions ----------------------------------------------------
    def op_open(self, o):
        realm = self.realm(o)
        s = Session()
        self.sessions[realm.name] = None
        before = {"tvl": len(realm.history["tvl"]), "us": len(realm.history["us"])}
        if o.get("via") == "nodes":
            # the combined lookup, without creation of the record
            s.tvl, s.us, _ = self.P.get_top_nodes_and_metadata_root_record(
                "git", realm.path, UUID(o["ds"]), o["ver"], self.path(o["prefix"]),
                self.path(""), None, None, False)
            if s.tvl is None and s.us is None and (realm.tvl is None or realm.us is None):
                s.tvl, s.us = self.P.get_top_level_metadata_objects("git", realm.path)
        else:
            s.tvl, s.us = self.P.get_top_level_metadata_objects("git", realm.path)
        self.adopt(realm, s, o)
        if o.get("via") == "nodes" and self.may_complete(s, o):
            raise SessionLost()
        self.sessions[realm.name] = s

    def adopt(self, realm: Realm, s: Session, o):
        for which in ("tvl", "us"):
            stored, handle = getattr(realm, which), getattr(s, which)
            if handle is None and stored is not None:
                raise Violation("absent", f"{o['id']}: the {which} of {realm.name} exists, but was "
                                          f"reported as absent")
            if handle is not None and stored is None:
                raise Violation("phantom", f"{o['id']}: the {which} of {realm.name} does not exist, "
                                           f"but was found")
        if s.tvl is None:
            s.tvl = self.P.TreeVersionList()
        else:
            s.clean["tvl"] = True
        if s.us is None:
            s.us = self.P.UUIDSet()
        else:
            s.clean["us"] = True
        s.m_tvl = VL.load(realm.tvl or {})
        s.m_us = US.load(realm.us or {})

    def op_close(self, o):
        self.session(o)
        self.sessions[o.get("realm", "R")] = None

    def op_txn(self, o):
        """a transaction: sessions inside of the lock of the realm"""
        try:
            self.op_locked(o)
        finally:
            self.sessions[o.get("realm", "R")] = None

    # -- operations: modification ---------------------------------------------------
    def op_auto(self, o):
        """look up a metadata root record, create what is missing"""
        P = self.P
        realm = self.realm(o)
        sub = o["path"] != ""
        fresh = o.get("fresh")
        root = UUID(o["root"]) if sub else None
        if fresh:
            s = Session()
            existed = {w: getattr(realm, w) is not None for w in ("tvl", "us")}
            self.sessions[realm.name] = None
            s.tvl, s.us, mrr = P.get_top_nodes_and_metadata_root_record(
                "git", realm.path, UUID(o["ds"]) if not sub else root,
                o["ver"] if not sub else o["rootver"], self.path(o["prefix"]), self.path(o["path"]),
                UUID(o["ds"]) if sub else None, o["ver"] if sub else None, True)
            s.m_tvl, s.m_us = VL.load(realm.tvl or {}), US.load(realm.us or {})
            self.sessions[realm.name] = s
        else:
            s = self.session(o)
            mrr = P.get_metadata_root_record_from_top_nodes(
                s.tvl, s.us, UUID(o["ds"]), o["ver"], self.path(o["prefix"]), self.path(o["path"]),
                root, o["rootver"] if sub else None, True)
        if mrr is None:
            raise Violation("auto-create", f"{o['id']}: no record was created")
        self.touched(s)

        def tree_ts(ver, prefix):
            for v, (ts, p, _) in s.tvl.versioned_elements:
                if v == ver and str(p) == prefix:
                    return ts
            raise Violation("auto-create", f"{o['id']}: {ver}|{prefix} is missing in the tree version list")

        def uuid_ts(uuid, ver, prefix):
            for v, (ts, p, _) in s.us.get_version_list(UUID(uuid)).versioned_elements:
                if v == ver and str(p) == prefix:
                    return ts
            raise Violation("auto-create", f"{o['id']}: {ver}|{prefix} is missing in the version list of {uuid}")

        def model_tree(ver):
            k = key(ver, o["prefix"])
            if k not in s.m_tvl.records:
                s.m_tvl.records[k] = [tree_ts(ver, o["prefix"]), Tree()]
            return s.m_tvl.records[k][1]

        def model_uuid(uuid, ver, prefix, element):
            vl = s.m_us.lists.setdefault(uuid, VL())
            if key(ver, prefix) not in vl.records:
                vl.records[key(ver, prefix)] = [uuid_ts(uuid, ver, prefix), element]

        if sub:
            tree = model_tree(o["rootver"])
            root_mrr = tree.datasets.setdefault("", MRR(o["root"], o["rootver"], MD(), {}))
            model_uuid(o["root"], o["rootver"], o["prefix"], root_mrr)
            prefix = ""
        else:
            tree = model_tree(o["ver"])
            prefix = o["prefix"]
        m_mrr = tree.datasets.setdefault(o["path"], MRR(o["ds"], o["ver"], MD(), {}))
        model_uuid(o["ds"], o["ver"], prefix, m_mrr)
        with self.sim.undisturbed():
            got = (str(mrr.dataset_identifier), mrr.dataset_version)
        if got != (m_mrr.ident, m_mrr.version):
            raise Violation("auto-create", f"{o['id']}: got the record of {got}, wanted "
                                           f"{(m_mrr.ident, m_mrr.version)}")
        if o.get("hold"):
            s.held[o["hold"]] = ("mrr", mrr, m_mrr)

    def op_lookup(self, o):
        """look up without creation: must tell existing from absent, and change nothing"""
        s = self.session(o)
        sub = o["path"] != ""
        ver, prefix = (o["rootver"], o["prefix"]) if sub else (o["ver"], o["prefix"])
        record = s.m_tvl.records.get(key(ver, prefix))
        exists = record is not None and o["path"] in record[1].datasets \
            and o["ds"] in s.m_us.lists and (not sub or (o["root"] in s.m_us.lists
                                                         and "" in record[1].datasets))
        mrr = self.P.get_metadata_root_record_from_top_nodes(
            s.tvl, s.us, UUID(o["ds"]), o["ver"], self.path(o["prefix"]), self.path(o["path"]),
            UUID(o["root"]) if sub else None, o["rootver"] if sub else None, False)
        if (mrr is not None) != exists:
            raise Violation("lookup", f"{o['id']}: record {'found' if mrr is not None else 'not found'}, "
                                      f"but it {'exists' if exists else 'does not exist'}")
        if exists:
            got = dump_mrr(self.P, mrr)
            wanted = record[1].datasets[o["path"]].dump()
            if got != wanted:
                raise Violation("lookup", f"{o['id']}: wrong record: {diff(wanted, got)[:4]}")
        # Elements that are found on the way, but are not listed under their id
        # might be added there (in memory): neither demanded nor forbidden.
        if self.may_complete(s, o):
            raise SessionLost()

    def may_complete(self, s, o) -> bool:
        sub = o.get("path", "") != ""
        ver, prefix = (o["rootver"], o["prefix"]) if sub else (o["ver"], o["prefix"])
        record = s.m_tvl.records.get(key(ver, prefix))
        if record is None:
            return False
        lists, datasets = s.m_us.lists, record[1].datasets
        if sub:
            if "" not in datasets or o["root"] not in lists:
                return False
            if key(ver, prefix) not in lists[o["root"]].records:
                return True
        return o["ds"] in lists and o.get("path", "") in datasets \
            and key(o["ver"], "" if sub else prefix) not in lists[o["ds"]].records

    def op_md(self, o):
        """add an extractor result to a dataset or to a file of it"""
        P = self.P
        s = self.session(o)
        r = o["run"]
        if o.get("what") == "md":
            md, m_md = self.api_held(s, o, "md")
            self.touched(s)
            m_md.add(*self.add_run(r, md.add_extractor_run, lambda: md, m_md))
            self.sim.probe("held-metadata-changed")
            return
        mrr, m = self.api_mrr(s, o)
        self.touched(s)
        if o.get("file") is None:
            if m.dlm is None:
                md = P.Metadata()
                mrr.set_dataset_level_metadata(md)
            else:
                md = mrr.get_dataset_level_metadata()
            added = self.add_run(r, md.add_extractor_run, lambda: md, m.dlm)
            if m.dlm is None:
                m.dlm = MD()
            m_md = m.dlm
        else:
            f = o["file"]
            if f in m.ghosts:
                raise Skip()
            for other in m.files:
                if other.startswith(f + "/") or f.startswith(other + "/"):
                    raise Skip()
            ft = mrr.file_tree
            if ft is None:
                if m.files:
                    raise Violation("lost-in-memory", f"{o['id']}: the file tree is gone")
                ft = P.FileTree()
                mrr.set_file_tree(ft)
            if o.get("direct"):
                added = self.add_run(r, lambda *args: ft.add_extractor_run(self.path(f), *args),
                                     lambda: ft.get_metadata(self.path(f)), m.files.get(f))
            else:
                md = ft.get_metadata(self.path(f))
                if md is None:
                    if f in m.files:
                        raise Violation("lost-in-memory", f"{o['id']}: file {f!r} is gone")
                    md = P.Metadata()
                    ft.add_metadata(self.path(f), md)
                added = self.add_run(r, md.add_extractor_run, lambda: md, m.files.get(f))
            m_md = m.files.setdefault(f, MD())
        m_md.add(*added)

    def op_rm_file(self, o):
        s = self.session(o)
        mrr, m = self.api_mrr(s, o)
        if o["file"] not in m.files:
            raise Skip()
        self.touched(s)
        mrr.file_tree.mtree.remove_child_at(self.path(o["file"]))
        del m.files[o["file"]]
        m.ghosts.update(parents(o["file"]))

    def op_set_files(self, o):
        s = self.session(o)
        mrr, m = self.api_mrr(s, o)
        ft = self.P.FileTree()
        files = {}
        for path, runs in o["files"].items():
            md, files[path] = self.build_md(runs)
            ft.add_metadata(self.path(path), md)
        self.touched(s)
        mrr.set_file_tree(ft)
        m.files = files
        m.ghosts = set()

    def op_set_dlm(self, o):
        s = self.session(o)
        mrr, m = self.api_mrr(s, o)
        md, m_md = self.build_md(o["runs"])
        self.touched(s)
        mrr.set_dataset_level_metadata(md)
        m.dlm = m_md

    def op_add_ds(self, o):
        s = self.session(o)
        tree, m = self.api_tree(s, o)
        if o["path"] in m.datasets:
            raise Skip()
        mrr, m_mrr = self.build_mrr(o["mrr"])
        self.touched(s)
        tree.add_dataset(self.path(o["path"]), mrr)
        m.datasets[o["path"]] = m_mrr

    def op_add_sub(self, o):
        s = self.session(o)
        tree, m = self.api_tree(s, o)
        p = o["path"]
        if any(d == p or d.startswith(p + "/") for d in m.datasets):
            raise Skip()
        if p in m.ghosts:
            raise Skip()        # an empty node remained there
        sub, m_sub = self.build_tree(o["tree"])
        self.touched(s)
        tree.add_subtree(sub, self.path(p))
        for path, m_mrr in m_sub.datasets.items():
            m.datasets[p + ("/" + path if path else "")] = m_mrr
        if not m_sub.datasets:
            m.ghosts.update([p] + parents(p))

    def op_rm_sub(self, o):
        s = self.session(o)
        tree, m = self.api_tree(s, o)
        p = o["path"]
        gone = [d for d in m.datasets if d == p or d.startswith(p + "/")]
        if not p or not gone:
            raise Skip()
        self.touched(s)
        tree.delete_subtree(self.path(p))
        for d in gone:
            del m.datasets[d]
        m.ghosts = {d for d in m.ghosts if d != p and not d.startswith(p + "/")}
        m.ghosts.update(parents(p))

    def copied(self, o, what):
        """an element that was copied to the realm of the session before"""
        entry = self.copies.get(o["copied"])
        if entry is None or entry[0] != what or entry[3] != o.get("realm", "R"):
            raise Skip()
        return entry[1], entry[2]

    def op_tvl_set(self, o):
        s = self.session(o)
        if "copied" in o:
            tree, dump = self.copied(o, "tree")
            m = Tree.load(dump)
            del self.copies[o["copied"]]
        else:
            tree, m = self.build_tree(o["tree"])
        self.touched(s)
        s.tvl.set_dataset_tree(o["ver"], o["ts"], self.path(o["prefix"]), tree)
        s.m_tvl.records[key(o["ver"], o["prefix"])] = [o["ts"], m]

    def op_share(self, o):
        """the same new dataset tree becomes part of two realms"""
        a, b = self.sessions.get(o.get("realm", "R")), self.sessions.get(o["other"])
        if a is None or b is None:
            raise Skip()
        tree, m = self.build_tree(o["tree"])
        for s in (a, b):
            self.touched(s)
            s.tvl.set_dataset_tree(o["ver"], o["ts"], self.path(o["prefix"]), tree)
            s.m_tvl.records[key(o["ver"], o["prefix"])] = [o["ts"], m]

    def op_us_set(self, o):
        """list a record in the uuid set, optionally one that is in a dataset tree too"""
        P = self.P
        s = self.session(o)
        if "copied" in o:
            entry = self.copies.get(o["copied"])
            if entry is not None and entry[0] == "vl" and entry[3] == o.get("realm", "R"):
                self.touched(s)
                s.us.set_version_list(UUID(o["uuid"]), entry[1])
                s.m_us.lists[o["uuid"]] = VL.load(entry[2])
                del self.copies[o["copied"]]
                return
            mrr, dump = self.copied(o, "mrr")
            m_mrr = MRR.load(dump)
            del self.copies[o["copied"]]
        elif o.get("source"):
            mrr, m_mrr = self.api_mrr(s, o["source"])
        else:
            mrr, m_mrr = self.build_mrr(o["mrr"])
        self.touched(s)
        if "held" in o:
            vl, m_vl = self.api_vl(s, o)
            vl.set_versioned_element(o["ver"], o["ts"], self.path(o["prefix"]), mrr)
            m_vl.records[key(o["ver"], o["prefix"])] = [o["ts"], m_mrr]
            return
        if o["uuid"] in s.m_us.lists:
            vl = s.us.get_version_list(UUID(o["uuid"]))
        else:
            vl = P.VersionList()
            s.us.set_version_list(UUID(o["uuid"]), vl)
        m_vl = s.m_us.lists.setdefault(o["uuid"], VL())
        vl.set_versioned_element(o["ver"], o["ts"], self.path(o["prefix"]), mrr)
        m_vl.records[key(o["ver"], o["prefix"])] = [o["ts"], m_mrr]

    def op_hold(self, o):
        s = self.session(o)
        what = o.get("what", "mrr")
        if what == "tree":
            element = self.api_tree(s, o)
        elif what == "vl":
            element = self.api_vl(s, o)
        else:
            element = self.api_mrr(s, o)
            if what == "md":
                mrr, m = element
                if o["file"] not in m.files:
                    raise Skip()
                element = mrr.file_tree.get_metadata(self.path(o["file"])), m.files[o["file"]]
                if element[0] is None:
                    raise Violation("lost-in-memory", f"{o['id']}: file {o['file']!r} is gone")
        s.held[o["as"]] = (what, *element)

    # -- operations: reading ------------------------------------------------------
    def op_read(self, o):
        s = self.session(o)
        what = o.get("what", "mrr")
        if what == "tree":
            (element, m), dumper = self.api_tree(s, o), dump_tree
        elif what == "vl":
            (element, m), dumper = self.api_vl(s, o), dump_vl
        elif what == "md":
            (element, m), dumper = self.api_held(s, o, "md"), dump_md
        else:
            (element, m), dumper = self.api_mrr(s, o), dump_mrr
        got = dumper(self.P, element)
        if got != m.dump():
            raise Violation("read", f"{o['id']}: record differs from the model: {diff(m.dump(), got)[:5]}")

    def op_read_file(self, o):
        s = self.session(o)
        mrr, m = self.api_mrr(s, o)
        if o["file"] in m.ghosts or any(p.startswith(o["file"] + "/") for p in m.files):
            raise Skip()        # a directory
        ft = mrr.file_tree
        md = None if ft is None else ft.get_metadata(self.path(o["file"]))
        wanted = m.files[o["file"]].dump() if o["file"] in m.files else None
        got = None if md is None else dump_md(self.P, md)
        if got != wanted:
            raise Violation("read", f"{o['id']}: file metadata differs: {diff(wanted, got)[:5]}")

    def op_read_all(self, o):
        s = self.session(o)
        got = dump_vl(self.P, s.tvl)
        if got != s.m_tvl.dump():
            raise Violation("read", f"{o['id']}: tree version list differs from the model: "
                                    f"{diff(s.m_tvl.dump(), got)[:5]}")
        got = dump_us(self.P, s.us)
        if got != s.m_us.dump():
            raise Violation("read", f"{o['id']}: uuid set differs from the model: "
                                    f"{diff(s.m_us.dump(), got)[:5]}")

    # -- operations: release memory --------------------------------------------------
    def op_unget_tree(self, o):
        s, realm = self.session(o), self.realm(o)
        k = key(o["ver"], o["prefix"])
        if k not in s.m_tvl.records:
            raise Skip()
        model = s.m_tvl.records[k][1]
        self.drop_held(s, model)
        s.partial = True
        self.written(realm)
        s.tvl.unget_dataset_tree(o["ver"], self.path(o["prefix"]), realm.path)
        model.release()

    def op_unget_vl(self, o):
        s, realm = self.session(o), self.realm(o)
        if o["uuid"] not in s.m_us.lists:
            raise Skip()
        if (realm.us or {}).get(o["uuid"]) is None:
            raise Skip()        # has no destination yet
        model = s.m_us.lists[o["uuid"]]
        self.drop_held(s, model)
        s.partial = True
        self.written(realm)
        s.us.unget_version_list(UUID(o["uuid"]))
        model.release()

    def op_unget_el(self, o):
        s, realm = self.session(o), self.realm(o)
        vl, m_vl = self.api_vl(s, o)
        k = key(o["ver"], o["prefix"])
        if k not in m_vl.records:
            raise Skip()
        self.drop_held(s, m_vl.records[k][1])
        s.partial = True
        self.written(realm)
        vl.unget_versioned_element(o["ver"], self.path(o["prefix"]), realm.path)
        # whoever else has this element has the same object still
        m_vl.records[k][1].release()

    def op_unget_md(self, o):
        s, realm = self.session(o), self.realm(o)
        mrr, m = self.api_mrr(s, o)
        if o["file"] not in m.files:
            raise Skip()
        ft = mrr.file_tree
        md = ft.get_metadata(self.path(o["file"]))
        if md is None:
            raise Violation("lost-in-memory", f"{o['id']}: file {o['file']!r} is gone")
        s.partial = True
        self.written(realm)
        ft.unget_metadata(md, realm.path)

    def op_purge(self, o):
        """purge a top-level object: succeeds if saved, refuses if changes would be lost"""
        s, realm = self.session(o), self.realm(o)
        which = o["which"]
        handle, model, stored = getattr(s, which), getattr(s, "m_" + which), getattr(realm, which)
        s.held.clear()
        try:
            handle.purge()
        except ValueError as e:
            if s.clean[which]:
                raise Violation("purge", f"{o['id']}: purge of the unmodified {which} was refused: {e}")
            self.sim.probe("purge-refused")
            return
        if model.dump() != stored and not s.partial:
            raise Violation("purge", f"{o['id']}: purge of {which} dropped unsaved changes: "
                                     f"{diff(model.dump(), stored)[:4]}")
        self.sim.probe("purged")
        setattr(s, "m_" + which, type(model).load(model.dump()))

    # -- operations: saving --------------------------------------------------------
    def op_save_sub(self, o):
        """save an inner element on its own, before its containers"""
        s, realm = self.session(o), self.realm(o)
        if o["what"] == "tree":
            element, _ = self.api_tree(s, o)
        elif o["what"] == "vl":
            element, _ = self.api_vl(s, o)
        else:
            mrr, m = self.api_mrr(s, o)
            if o["what"] == "mrr":
                element = mrr
            elif o["what"] == "ft":
                element = mrr.file_tree
            elif o["what"] == "dlm":
                element = None if m.dlm is None else mrr.get_dataset_level_metadata()
            else:
                ft = mrr.file_tree
                element = ft.get_metadata(self.path(o["file"])) \
                    if ft is not None and o["file"] in m.files else None
            if element is None:
                raise Skip()
        s.partial = True
        self.written(realm)
        element.write_out(realm.path)

    def _save(self, o, which):
        s, realm = self.session(o), self.realm(o)
        handle, model = getattr(s, which), getattr(s, "m_" + which)
        new = model.dump()
        op = current_task().op
        self.written(realm)
        realm.busy[which] = self.proc.name
        realm.inflight[which].append(new)
        for watch in realm.watchers:
            watch[which].append(new)
        git = self.sim.git
        before = (git.objects_written, git.refs_written)
        was_clean = s.clean[which]
        try:
            kw = {"force_write": True} if o.get("force") else {}
            handle.write_out(realm.path, **kw)
        except (SimAbort, HarnessError):
            raise
        except BaseException:
            realm.busy[which] = None
            realm.inflight[which].remove(new)
            self.world.resolve(realm, which, new, f"{o['id']} interrupted while saving")
            raise
        realm.busy[which] = None
        realm.inflight[which].remove(new)
        s.clean[which] = True
        s.saved = getattr(s, "saved", set()) | {which}
        self.world.commit(realm, which, new)
        if was_clean and not op.faults and len(self.world.clients) == 1 and not o.get("force") \
                and (git.objects_written, git.refs_written) != before:
            if self.world.knobs.get("clean_saves"):
                raise Violation("needless-write", f"{o['id']}: the {which} was not modified since it was "
                                                  f"read or saved, but saving it wrote to the repository")
            self.sim.probe("clean-save-wrote")
        if op.faults and not realm.hidden and self.world.knobs.get("verify_acks", True):
            self.sim.probe("acked-despite-fault")
            tvl, us = self.world.observe(realm, f"{o['id']} was acknowledged")
            if (tvl if which == "tvl" else us) != new:
                raise Violation("false-ack", f"{o['id']}: save of {which} returned normally, but the "
                                             f"store has other content: "
                                             f"{diff(new, tvl if which == 'tvl' else us)[:5]}")

    def op_save_tvl(self, o):
        self._save(o, "tvl")

    def op_save_us(self, o):
        self._save(o, "us")

    def op_flush(self, o):
        realm = self.realm(o)
        self.P.flush_object_references(Path(realm.path))
        realm.pending.discard(self.proc.name)
        if not realm.pending:
            realm.protected_generation = realm.generation
        self.flushed(realm)
        s = self.sessions.get(realm.name)
        if s is not None and s.clean["tvl"] and s.clean["us"]:
            s.partial = False

    # -- operations: copies ----------------------------------------------------------
    def text(self, o):
        """a text that is stored in a realm, or not stored yet, in memory or not"""
        realm = self.realm(o)
        text = self.P.Text(o["text"])
        if o["state"] != "new":
            self.written(realm)
            reference = text.write_out(realm.path)
            if o["state"] == "purged":
                text.purge()
            elif o["state"] == "stored":
                text = self.P.Text(realm=realm.path, reference=reference)
        return text

    def op_copy(self, o):
        """deepcopy into another realm"""
        P = self.P
        s = self.session(o)
        dest = self.world.realms[o["to"]]
        what = o["what"]
        if what in ("tvl", "us"):
            source, model = getattr(s, what), getattr(s, "m_" + what)
        elif what == "tree":
            source, model = self.api_tree(s, o)
        elif what == "vl":
            source, model = self.api_vl(s, o)
        elif what == "text":
            source, model = self.text(o), SimpleNamespace(dump=lambda: o["text"])
        else:
            mrr, m = self.api_mrr(s, o)
            if what == "mrr":
                source, model = mrr, m
            elif what == "md":
                if o["file"] not in m.files:
                    raise Skip()
                source, model = mrr.file_tree.get_metadata(self.path(o["file"])), m.files[o["file"]]
            elif what == "ft":
                source, model = mrr.file_tree, m
            else:
                source = None if m.dlm is None else mrr.get_dataset_level_metadata()
                model = m.dlm
            if source is None:
                raise Skip()
        wanted = model.dump()
        if what == "ft":
            wanted = wanted["files"]
        kw = {}
        if what in ("tvl", "vl") and o.get("path_prefix"):
            kw["path_prefix"] = self.path(o["path_prefix"])
            moved = {}
            for k, v in wanted.items():
                ver, prefix = k.split("|", 1)
                moved[key(ver, o["path_prefix"] + ("/" + prefix if prefix else ""))] = v
            wanted = moved
        self.written(dest)
        if what in ("tvl", "us"):
            dest.busy[what] = self.proc.name
        try:
            copied = source.deepcopy(new_destination=dest.path, **kw)
        except (SimAbort, HarnessError):
            raise
        except BaseException:
            if what in ("tvl", "us"):
                dest.busy[what] = None
                self.world.resolve(dest, what, wanted, f"{o['id']} interrupted while copying")
            raise
        if what in ("tvl", "us"):
            dest.busy[what] = None
            self.world.commit(dest, what, wanted)
        dumper = {"tvl": dump_vl, "us": dump_us, "vl": dump_vl, "tree": dump_tree, "mrr": dump_mrr,
                  "ft": dump_ft, "dlm": dump_md, "md": dump_md, "text": lambda P, text: text.read_in().content}[what]
        with self.sim.undisturbed():
            got = dumper(P, copied)
            again = dumper(P, source)
        original = model.dump() if what != "ft" else model.dump()["files"]
        if got != wanted:
            raise Violation("copy", f"{o['id']}: copy of {what} differs from the source: {diff(wanted, got)[:5]}")
        if again != original:
            raise Violation("copy", f"{o['id']}: copying changed the source: {diff(original, again)[:5]}")
        self.sim.probe("copied-" + what)
        if o.get("as") and what in ("tree", "mrr", "vl"):
            self.copies[o["as"]] = (what, copied, wanted, dest.name)

    # -- harness actions inside a process's operation list -----------------------------
    def op_gc(self, o):
        realm = self.realm(o)
        if not self.world.gc_allowed(realm):
            raise Skip()
        self.world.gc(realm, o["id"])

    def op_check(self, o):
        self.world.check_store(self.realm(o), o["id"])


def new_sim(seed: str, root: str, case: dict, plan, step_cap=None) -> Sim:
    return Sim(seed, root, plan, case.get("search"), step_cap or case.get("step_cap", 60000))


def run_phases(world: World, case: dict):
    sim = world.sim
    for phase in case["phases"]:
        jobs = []
        world.concurrent = len(phase["procs"]) > 1
        for spec in phase["procs"]:
            client = world.clients.get(spec["name"])
            if client is not None and (client.proc.dead or spec.get("new")):
                client = None
            if client is None:
                name = spec["name"]
                proc = world.process(name)
                client = Client(world, proc, spec.get("policy", "retry"))
            jobs.append((client.proc, client.main(spec["ops"])))
        sim.faults_enabled = phase.get("faults", True)
        sim.run(jobs)
        for spec in phase["procs"]:
            if spec.get("exit"):
                world.clients.pop(spec["name"], None)
        for check in phase.get("after", []):
            sim.log(f"CHECK {check}")
            realm = world.realms[check.get("realm", "R")]
            if check["check"] == "store":
                world.check_store(realm, f"after phase {phase.get('id')}")
            elif check["check"] == "gc":
                if world.gc_allowed(realm):
                    world.gc(realm, f"after phase {phase.get('id')}")
            elif check["check"] == "mend":
                sim.git.mend()
                if sim.git.foreign:
                    sim.git.foreign = set()
                    world.make_native()
            elif check["check"] == "items":
                world.check_items(realm, f"after phase {phase.get('id')}")
            elif check["check"] == "progress":
                check_progress(world, realm, phase)
            elif check["check"] == "tempdirs":
                # an implementation may keep one directory per process
                left = sorted(os.listdir(sim.tmp_dir))
                if len(left) > 2 * len(world.clients):
                    raise Violation("tempdirs", f"after phase {phase.get('id')}: temporary files remain: {left[:5]}")
            elif check["check"] == "same-objects":
                check_same_objects(world, realm, world.realms[check["other"]])
            else:
                raise HarnessError(f"unknown check {check}")


def check_progress(world: World, realm: Realm, phase):
    """whatever happened before, a new process gets the lock without waiting"""
    sim = world.sim
    outcome = []

    def body(task):
        sim.begin_op("progress")
        task.proc.lock_backend(Path(realm.path))
        outcome.append("locked")
        task.proc.unlock_backend(Path(realm.path))
        outcome.append("unlocked")

    enabled, sim.faults_enabled = sim.faults_enabled, False
    try:
        before = sim.steps
        sim.run([(sim.spawn("prober"), body)])
    except Stuck as s:
        raise Violation("no-progress", f"after phase {phase.get('id')}: a new process does not get the lock of "
                                       f"{realm.name}, although nobody has it: {s}")
    except (SimAbort, HarnessError, Violation):
        raise
    except Exception as e:
        raise Violation("no-progress", f"after phase {phase.get('id')}: a new process can not lock "
                                       f"{realm.name}: {type(e).__name__}: {e}")
    finally:
        sim.faults_enabled = enabled
    if sim.steps - before > 60 or outcome != ["locked", "unlocked"]:
        raise Violation("no-progress", f"after phase {phase.get('id')}: a new process needed {sim.steps - before} "
                                       f"events for a free lock of {realm.name}")
    sim.probe("progress-checked")


def check_same_objects(world: World, a: Realm, b: Realm):
    sim = world.sim
    with sim.undisturbed():
        sets = [set(sim.git.repo(r.git_dir).all_objects()) for r in (a, b)]
        refs = [{k: v for k, v in sim.git.repo(r.git_dir).refs().items()} for r in (a, b)]
    if sets[0] != sets[1]:
        raise Violation("objects", f"{a.name} and {b.name} got the same metadata, but hold different objects: "
                                   f"{sorted(sets[0] ^ sets[1])[:4]}")
    if refs[0] != refs[1]:
        raise Violation("objects", f"{a.name} and {b.name} got the same metadata, but have different references: "
                                   f"{diff(refs[0], refs[1])[:4]}")
    sim.probe("object-sets-compared")
