"""
More operations of simulated processes: standalone elements, backend locks,
snapshot reads, remote access, legacy stores, metadata sources, locality.
"""
import base64
import copy
import json
import os
from pathlib import Path
from uuid import UUID

from . import foreign
from .errors import SessionLost, Skip, Violation
from .kernel import HarnessError, SimAbort, SimKilled, current_task
from .model import (US, VL, diff, dump_ft, dump_md, dump_tree, dump_us, dump_vl, key, short)
from .simgit import mode_type, obj_hash, parse_tree


class UserError(Exception):
    """Raised by the workload inside of a critical section"""


def raw_closure(sim, git_dir, sha):
    return sim.git.repo(git_dir).closure(sha)


class MoreOps:
    # -- standalone elements ---------------------------------------------------------
    def op_put(self, o):
        """write a file tree, dataset tree or metadata element that no list refers to"""
        P, realm = self.P, self.realm(o)
        unflushed = self.__dict__.setdefault("unflushed", {})
        waiting = self.__dict__.setdefault("waiting", {})
        if o["id"] in waiting:
            element, wanted = waiting[o["id"]]      # repeated after a failure
        elif o["what"] == "text":
            element, wanted = P.Text(o["text"]), o["text"]
        elif o["what"] == "ft":
            element, wanted = P.FileTree(), {}
            for path, runs in o["files"].items():
                md, m = self.build_md(runs)
                element.add_metadata(self.path(path), md)
                wanted[path] = m.dump()
        else:
            element, m = self.build_tree(o["tree"])
            wanted = m.dump()
        waiting[o["id"]] = (element, wanted)
        self.__dict__.setdefault("unprotected_in", set()).add(realm.name)
        self.written(realm)
        reference = element.write_out(realm.path)
        del waiting[o["id"]]
        if reference.is_none_reference():
            self.sim.probe("put-none")
            return
        item = (o["what"], reference.class_name, reference.location, wanted, o["id"])
        if o["what"] == "text":
            # nothing protects a text, its user has to do that
            P.add_blob_reference(reference.location, realm.path)
        unflushed.setdefault(realm.name, []).append(item)

    def flushed(self, realm):
        """called after a successful flush: everything this process wrote is protected"""
        items = self.__dict__.setdefault("unflushed", {}).pop(realm.name, [])
        self.__dict__.setdefault("unprotected_in", set()).discard(realm.name)
        if items:
            self.sim.probe("items-protected", len(items))
        realm.items.extend(items)

    def unprotected(self, realm) -> bool:
        """did this process write an element that a flush will protect?"""
        return not self.proc.dead and realm.name in self.__dict__.get("unprotected_in", ())

    def op_legacy(self, o):
        """
        Put elements into the realm the way an old version of the package did:
        their objects are protected by the legacy reference stores only.
        """
        realm, sim = self.realm(o), self.sim
        with sim.undisturbed():
            repo = sim.git.repo(realm.git_dir)
            stores = {"trees": {}, "blobs": {}}
            for name, sub in stores.items():
                ref = repo.read_ref("refs/datalad/object-references/" + name)
                if ref:
                    for mode, entry, sha in parse_tree(repo.read(ref)[1]):
                        sub[entry.decode()] = sha
            for spec in o["items"]:
                element, wanted = self.P.FileTree(), {}
                for path, runs in spec.items():
                    md, m = self.build_md(runs)
                    element.add_metadata(self.path(path), md)
                    wanted[path] = m.dump()
                blobs = {}
                for path in wanted:
                    md = element.get_metadata(self.path(path))
                    blobs[path] = obj_hash("blob", md.to_json().encode())
                before = set(repo.all_objects())
                reference = self.write_as_legacy(element, realm)
                if reference.is_none_reference():
                    continue
                for sha in blobs.values():
                    if repo.read(sha) is None:
                        raise HarnessError("legacy metadata blob was not found")
                    stores["blobs"]["object_reference:" + sha] = sha
                stores["trees"]["object_reference:" + reference.location] = reference.location
                realm.items.append(("ft", reference.class_name, reference.location, wanted, o["id"]))
                sim.probe("legacy-items")
            for name, sub in stores.items():
                if not sub or (o.get("only") and name != o["only"]):
                    continue
                mode = "040000 tree" if name == "trees" else "100644 blob"
                data = "".join(f"{mode} {sha}\t{entry}\n" for entry, sha in sub.items())
                result = sim.git.run(["git", "--git-dir", realm.git_dir, "mktree"], data.encode(),
                                     sim.root, {})
                assert result.returncode == 0, result.stderr
                sha = result.stdout.decode().strip()
                result = sim.git.run(["git", "--git-dir", realm.git_dir, "update-ref",
                                      "refs/datalad/object-references/" + name, sha], b"", sim.root, {})
                assert result.returncode == 0, result.stderr

    def write_as_legacy(self, element, realm):
        """write out in an extra process, such that no references are pending here"""
        from .kernel import Proc
        sim = self.sim
        proc = Proc(sim, "legacy-writer")
        sim.procs.pop()
        P = proc
        copied = P.FileTree()
        for path, md in element.get_paths_recursive():
            copied.add_metadata(P.MetadataPath(str(path)), P.Metadata.from_json(md.to_json()))
        sim.use_modules(proc)
        try:
            return copied.write_out(realm.path)
        finally:
            sim.use_modules(self.proc)

    def op_expect_no_legacy(self, o):
        realm = self.realm(o)
        with self.sim.undisturbed():
            refs = self.sim.git.repo(realm.git_dir).refs()
        left = [r for r in refs if r.startswith("refs/datalad/object-references/")]
        if left:
            raise Violation("legacy-left", f"{o['id']}: after an undisturbed flush in a new process the "
                                           f"legacy stores still exist: {left}")

    # -- locks ------------------------------------------------------------------------
    def spelled(self, realm, spelling):
        path = realm.path
        if spelling == "dots":
            path = f"{os.path.dirname(path)}/./{os.path.basename(path)}"
        elif spelling == "up":
            path = f"{path}/../{os.path.basename(path)}"
        elif spelling == "link":
            link = path + "-link"
            if not os.path.lexists(link):
                with self.sim.undisturbed():
                    os.symlink(path, link)
            path = link
        elif spelling == "relative":
            path = os.path.relpath(path)
        return Path(path)

    def entered(self, realm, o):
        holder = realm.holder
        if holder is not None and holder is not self.proc and not holder.dead:
            raise Violation("mutual-exclusion", f"{o['id']}: {self.proc.name} got the lock of {realm.name}, "
                                                f"but {holder.name} has it")
        if holder is not self.proc:
            realm.depth = 0
        realm.holder = self.proc
        realm.depth += 1
        realm.acquisitions += 1
        self.sim.probe("critical-sections")
        if realm.depth > 1:
            self.sim.probe("nested-locks")

    def left(self, realm):
        realm.depth -= 1
        if realm.depth == 0:
            realm.holder = None
            realm.releasing.append(self.proc)

    def released(self, realm):
        if self.proc in realm.releasing:
            realm.releasing.remove(self.proc)

    def acquire(self, realm, o, take):
        """take the lock, check that it was not waited for without need"""
        sim = self.sim
        op = current_task().op
        start = (realm.acquisitions, self.world.other_ops)
        free = not any(c.current and c is not self and not c.proc.dead for c in self.world.clients.values()) \
            and (realm.holder is None or realm.holder.dead or realm.holder is self.proc) \
            and not [p for p in realm.releasing if not p.dead]
        before = self.sleep_count()
        take()
        waited = self.sleep_count() - before
        if free and (realm.acquisitions, self.world.other_ops) == start and waited and not op.faults:
            raise Violation("needless-wait", f"{o['id']}: {self.proc.name} waited for the lock of "
                                             f"{realm.name}, which nobody had")
        if waited:
            sim.probe("waited-for-lock")

    def sleep_count(self):
        return self.sim.sleeps.get(self.proc.name, 0)

    def op_lock(self, o):
        realm = self.realm(o)
        path = self.spelled(realm, o.get("spelling"))
        self.acquire(realm, o, lambda: self.P.lock_backend(path))
        self.entered(realm, o)
        self.__dict__.setdefault("held_locks", []).append((realm, o.get("spelling")))

    def op_unlock(self, o):
        held = self.__dict__.setdefault("held_locks", [])
        name = o.get("realm", "R")
        for i in range(len(held) - 1, -1, -1):
            if held[i][0].name == name:
                realm, spelling = held.pop(i)
                break
        else:
            raise Skip()
        self.still_mine(realm, o)
        # leave before the lock is released: others may take it immediately
        self.left(realm)
        self.P.unlock_backend(self.spelled(realm, o.get("spelling", spelling)))
        self.released(realm)

    def still_mine(self, realm, o):
        if realm.holder is not self.proc:
            raise Violation("mutual-exclusion", f"{o['id']}: {self.proc.name} has the lock of "
                                                f"{realm.name}, but {realm.holder and realm.holder.name} "
                                                f"got it meanwhile")

    def op_locked(self, o):
        """a critical section with operations inside, possibly left by an exception"""
        realm = self.realm(o)
        path = self.spelled(realm, o.get("spelling"))
        manager = self.P.locked_backend(path)
        self.acquire(realm, o, manager.__enter__)
        self.entered(realm, o)
        error = None
        try:
            try:
                for sub in o["ops"]:
                    self.run(sub)
                if o.get("raise"):
                    raise {"user": UserError, "interrupt": KeyboardInterrupt,
                           "runtime": RuntimeError}[o["raise"]]("the workload failed")
            except BaseException as e:
                error = e
                raise
            finally:
                if not self.proc.dead:
                    if not isinstance(error, (SimAbort, Violation)):
                        self.still_mine(realm, o)
                    self.left(realm)
                    if error is None:
                        manager.__exit__(None, None, None)
                    else:
                        manager.__exit__(type(error), error, error.__traceback__)
                    self.released(realm)
        except (UserError, KeyboardInterrupt, RuntimeError) as e:
            if o.get("raise") and str(e) == "the workload failed":
                self.sim.probe("section-left-by-exception")
                return
            raise

    def op_work(self, o):
        """time passes"""
        for _ in range(o.get("steps", 1)):
            self.sim.event("user.work")
        for realm, _ in self.__dict__.get("held_locks", []):
            self.still_mine(realm, o)

    # -- snapshot reads ---------------------------------------------------------------
    def op_snapshot(self, o):
        """
        Read both top-level elements completely, without a lock, possibly through a
        remote URL. Each one must be a state the store had during the read, and
        must not be older than what this process saw before.
        """
        realm, sim = self.realm(o), self.sim
        seen = self.__dict__.setdefault("seen", {}).setdefault(realm.name, {"tvl": 0, "us": 0})
        start = {w: len(realm.history[w]) - 1 for w in ("tvl", "us")}
        marks = {w: list(realm.inflight[w]) for w in ("tvl", "us")}
        watch = {"tvl": [], "us": []}
        realm.watchers.append(watch)
        try:
            where = realm.path
            if o.get("url"):
                where = self.world.url_of(realm)
            if o.get("as_path"):
                where = Path(where)
            tvl, us = self.P.get_top_level_metadata_objects("git", where)
            got = {"tvl": None if tvl is None else dump_vl(self.P, tvl),
                   "us": None if us is None else dump_us(self.P, us)}
        finally:
            realm.watchers = [w for w in realm.watchers if w is not watch]
        for w in ("tvl", "us"):
            history = realm.history[w]
            allowed = [h[1] for h in history[start[w]:]]
            if got[w] in allowed:
                # the last position with this content
                position = start[w] + max(i for i, a in enumerate(allowed) if a == got[w])
                if position < seen[w]:
                    raise Violation("backwards", f"{o['id']}: {self.proc.name} saw state {position} of the "
                                                 f"{w} of {realm.name} after state {seen[w]}")
                seen[w] = start[w] + min(i for i, a in enumerate(allowed) if a == got[w])
                continue
            if got[w] in marks[w] + watch[w]:
                sim.probe("read-in-flight-save")
                if got[w] in realm.inflight[w]:
                    seen[w] = len(history)          # the position it will get
                continue
            old = [i for i, h in enumerate(history[:start[w]]) if h[1] == got[w]]
            kind = "absent" if got[w] is None else "stale" if old else "snapshot"
            raise Violation(kind, f"{o['id']}: {self.proc.name} read a {w} of {realm.name} that the store "
                                  f"did not have during the read"
                            + (f" (it is state {old[-1]}, the store is at {start[w]} or later)" if old else "")
                            + f": {diff(history[-1][1], got[w])[:5]}")
        sim.probe("snapshots")
        if any(len(realm.history[w]) - 1 > start[w] for w in ("tvl", "us")):
            sim.probe("snapshot-during-change")

    # -- remote -------------------------------------------------------------------------
    def op_remote_write(self, o):
        """remote stores are read only: an attempt to write is refused, without effect"""
        realm, sim = self.realm(o), self.sim
        url = self.world.url_of(realm)
        tvl, us = self.P.get_top_level_metadata_objects("git", url)
        if (tvl is None) != (realm.tvl is None):
            raise Violation("absent", f"{o['id']}: wrong presence of the tree version list at {url}")
        if tvl is None:
            raise Skip()
        with sim.undisturbed():
            repo = sim.git.repo(realm.git_dir)
            before = (repo.refs(), len(repo.all_objects()))
        tree, _ = self.build_tree(o["tree"])
        tvl.set_dataset_tree(o["ver"], "1", self.path(""), tree)
        try:
            tvl.write_out(url) if o.get("explicit") else tvl.write_out()
        except RuntimeError:
            sim.probe("remote-write-refused")
        else:
            raise Violation("remote-write", f"{o['id']}: writing to {url} was not refused")
        with sim.undisturbed():
            if (repo.refs(), len(repo.all_objects())) != before:
                raise Violation("remote-write", f"{o['id']}: the remote {url} was modified")

    def op_lookup_remote(self, o):
        """look up one record through a url, complete or absent"""
        realm = self.realm(o)
        url = self.world.url_of(realm)
        wanted = {w: realm.history[w][-1][1] for w in ("tvl", "us")}
        tvl, us, mrr = self.P.get_top_nodes_and_metadata_root_record(
            "git", url, UUID(o["ds"]), o["ver"], self.path(o["prefix"]), self.path(""), None, None, False)
        if self.world.concurrent:
            return
        record = (wanted["tvl"] or {}).get(key(o["ver"], o["prefix"]))
        exists = record is not None and "" in record[1]["datasets"] and o["ds"] in (wanted["us"] or {})
        if (mrr is not None) != exists:
            raise Violation("lookup", f"{o['id']}: record at {url} {'found' if mrr else 'not found'}")
        if exists:
            from .model import dump_mrr
            got = dump_mrr(self.P, mrr)
            if got != record[1]["datasets"][""]:
                raise Violation("lookup", f"{o['id']}: wrong record: {diff(record[1]['datasets'][''], got)[:4]}")

    # -- metadata sources ------------------------------------------------------------------
    def op_source_put(self, o):
        """a blob appears in a realm"""
        realm = self.realm(o)
        data = base64.b64decode(o["data"])
        with self.sim.undisturbed():
            sha = self.sim.git.repo(realm.git_dir).write("blob", data)
        self.world.blobs[o["name"]] = (sha, data)

    def source(self, o):
        if o["name"] not in self.world.blobs:
            raise Skip()
        sha, data = self.world.blobs[o["name"]]
        source = self.P.LocalGitMetadataSource(Path(self.realm(o).path), sha + o.get("suffix", ""))
        if o.get("json"):
            again = self.P.MetadataSource.from_json_str(source.to_json_str())
            if again != source:
                raise Violation("source", f"{o['id']}: source changed in a JSON round trip: {again}")
            source = again
        return source, sha, data

    def op_source_copy(self, o):
        source, sha, data = self.source(o)
        dest = self.world.realms[o["to"]]
        with self.sim.undisturbed():
            repo = self.sim.git.repo(dest.git_dir)
            before = set(repo.all_objects())
            exists = self.sim.git.repo(self.realm(o).git_dir).read(sha) is not None
        try:
            result = source.copy_object_to(Path(dest.path))
        except (SimAbort, SimKilled, HarnessError):
            raise
        except Exception:
            with self.sim.undisturbed():
                added = set(repo.all_objects()) - before - {sha}
            if added:
                raise Violation("source", f"{o['id']}: a failed copy left wrong objects in the destination: "
                                          f"{sorted(added)}")
            if exists:
                raise
            self.sim.probe("source-missing")
            return
        with self.sim.undisturbed():
            entry = repo.read(sha)
        if result != sha or entry != ("blob", data):
            raise Violation("source", f"{o['id']}: copy reported as done, but the destination has "
                                      f"{short(entry)}, reference {result}")
        self.sim.probe("source-copied")

    def op_source_write(self, o):
        source, sha, data = self.source(o)
        with self.sim.undisturbed():
            exists = self.sim.git.repo(self.realm(o).git_dir).read(sha) is not None
        path = f"{self.sim.root}/out-{o['id']}"
        try:
            with self.sim_open(path) as f:
                source.write_object_to(f)
        except (SimAbort, SimKilled, HarnessError):
            raise
        except Exception:
            if exists:
                raise
            self.sim.probe("source-missing")
            return
        with self.sim.undisturbed():
            with open(path, "rb") as f:
                got = f.read()
        if got != data:
            raise Violation("source", f"{o['id']}: wrote {short(got)} instead of {short(data)}")
        self.sim.probe("source-written")

    def sim_open(self, path):
        with self.sim.undisturbed():
            return open(path, "wb")

    def op_source_json(self, o):
        """a source equals its JSON form, elements of another version or type are refused"""
        P = self.P
        if o["what"] == "LocalGitMetadataSource":
            source = P.LocalGitMetadataSource(Path("/" + o["path"]), "0123456789" * 4)
        else:
            source = P.ImmediateMetadataSource(copy.deepcopy(o["content"]))
        obj = json.loads(source.to_json_str())
        if o["stamp"] is None:
            again = P.MetadataSource.from_json_obj(obj)
            if not again == source:
                raise Violation("roundtrip", f"{o['id']}: source changed in a JSON round trip: {again}")
            self.sim.probe("source-roundtrips")
            return
        obj["@"].update(o["stamp"])
        try:
            again = P.MetadataSource.from_json_obj(obj)
        except Exception:
            again = None
        if again is not None:
            raise Violation("foreign", f"{o['id']}: {o['what']} with {o['stamp']} was accepted")
        self.sim.probe("sources-refused")

    def op_source_drop(self, o):
        realm = self.realm(o)
        if o["name"] not in self.world.blobs:
            raise Skip()
        with self.sim.undisturbed():
            self.sim.git.repo(realm.git_dir).drop(self.world.blobs[o["name"]][0])

    # -- damaged repositories -------------------------------------------------------------
    def op_rot(self, o):
        """
        Stored data is damaged until it is mended: a reference is torn, or objects
        are missing or have files with invalid content.
        """
        realm, sim = self.realm(o), self.sim
        with sim.undisturbed():
            repo = sim.git.repo(realm.git_dir)
            refs = repo.refs()
            if not refs:
                raise Skip()
            if o["what"] == "ref":
                sim.git.broken_refs.add((repo.dir, list(refs)[o["n"] % len(refs)]))
            else:
                victims = []
                if o["what"] == "any":
                    victims = repo.all_objects()
                else:
                    # the top-level objects and what they consist of
                    wanted = [r for r in refs if ("object-references" in r) == (o["what"] == "references")]
                    stack = [(refs[r], 0) for r in wanted]
                    while stack:
                        sha, depth = stack.pop()
                        entry = repo.read(sha)
                        if entry is None:
                            continue
                        victims.append(sha)
                        if entry[0] == "tree" and depth < 3:
                            stack += [(c, depth + 1) for m, _, c in parse_tree(entry[1])
                                      if o["what"] == "top" or mode_type(m) == "tree"]
                if not victims:
                    raise Skip()
                for i in range(o.get("count", 1)):
                    victim = repo.dir, victims[(o["n"] + 5 * i) % len(victims)]
                    sim.git.unreadable.add(victim)
                    if o.get("corrupt"):
                        sim.git.corrupt.add(victim)
            kind = o["what"] + ("-torn" if o["what"] == "ref" else "-corrupt" if o.get("corrupt") else "-missing")
            sim.damages["damage:" + kind] = sim.damages.get("damage:" + kind, 0) + 1

    def op_convert(self, o):
        """a process of another version of the model stores the elements again"""
        realm, sim = self.realm(o), self.sim
        with sim.undisturbed():
            found = foreign.make_foreign(sim.git.repo(realm.git_dir), o["types"], o["stamp"], o["every"])
            sim.git.foreign |= found
            if found:
                for kind in o["types"]:
                    kind = f"other-{'-and-'.join(sorted(o['stamp']))}:{kind}"
                    sim.damages[kind] = sim.damages.get(kind, 0) + 1

    def op_roundtrip(self, o):
        """elements are equal to what is read from their JSON form"""
        s, P = self.session(o), self.P
        mrr, m = self.api_mrr(s, o)
        found = []
        md = mrr.get_dataset_level_metadata()
        if md is not None:
            found.append((md, m.dlm))
        if mrr.file_tree is not None:
            for path in sorted(m.files):
                md = mrr.file_tree.get_metadata(self.path(path))
                if md is not None:
                    found.append((md, m.files[path]))
        for md, model in found:
            md.ensure_mapped()
            again = P.Metadata.from_json(md.to_json())
            if dump_md(P, again) != model.dump():
                raise Violation("roundtrip", f"{o['id']}: metadata changed in a JSON round trip: "
                                             f"{diff(model.dump(), dump_md(P, again))[:4]}")
            if not again == md:
                raise Violation("roundtrip", f"{o['id']}: metadata does not equal its JSON round trip")
            if md.reference is not None:
                reference = P.Reference.from_json_str(md.reference.to_json_str())
                if not reference == md.reference:
                    raise Violation("roundtrip", f"{o['id']}: {md.reference} changed in a JSON round trip")
            self.sim.probe("roundtrips")
            for name, instance_set in md.extractor_runs:
                for element in [instance_set] + instance_set.configurations + list(instance_set):
                    copied = type(element).from_json_str(element.to_json_str())
                    if not copied == element:
                        raise Violation("roundtrip", f"{o['id']}: {type(element).__name__} changed in a JSON "
                                                     f"round trip: {short(element.to_json_str())}")

    def op_results(self, o):
        """the ways to look at results agree: one for every extractor and configuration"""
        s, P = self.session(o), self.P
        mrr, m = self.api_mrr(s, o)
        if o.get("file") is None:
            md, model = mrr.get_dataset_level_metadata(), m.dlm
        else:
            if o["file"] not in m.files:
                raise Skip()
            md, model = mrr.file_tree.get_metadata(self.path(o["file"])), m.files[o["file"]]
        if md is None or model is None:
            if md is not model:
                raise Violation("results", f"{o['id']}: metadata is {md}, should be {model}")
            raise Skip()

        def wrong(what):
            raise Violation("results", f"{o['id']}: {what}")

        if sorted(md.extractors) != sorted(model.ext):
            wrong(f"extractors are {list(md.extractors)}, should be {list(model.ext)}")
        for name, runs in model.ext.items():
            results = md.extractor_runs_for_extractor(name)
            found = list(results)
            if len(found) != len(runs) or len(results.configurations) != len(runs) \
                    or len(results.instances) != len(runs):
                wrong(f"{name!r} has {len(found)} results for {len(results.configurations)} configurations, "
                      f"should have {len(runs)}")
            for version, parameter, ts, author, email, content in runs:
                # equal parameters in another order
                parameter = dict(sorted(parameter.items(), reverse=True))
                configuration = P.ExtractorConfiguration(version, copy.deepcopy(parameter))
                result = results.get_instance_for_configuration(configuration)
                same = [f for f in found if f.configuration == configuration]
                if len(same) != 1 or same[0] != result or results.configurations.count(configuration) != 1:
                    wrong(f"{name!r} has {len(same)} results for configuration {version!r}, {parameter!r}")
                index = results.configurations.index(configuration)
                if results.get_instance_for_configuration_index(index) != result:
                    wrong(f"{name!r} has another result at index {index}")
                got = (result.configuration.version, dict(result.configuration.parameter), result.time_stamp,
                       result.author_name, result.author_email, result.metadata_content)
                if got != (version, parameter, ts, author, email, content):
                    wrong(f"{name!r} has {short(got)} for configuration {version!r}, {parameter!r}, should be "
                          f"{short((version, parameter, ts, author, email, content))}")
            try:
                results.get_instance_for_configuration(P.ExtractorConfiguration("another", {"x": "y"}))
            except (ValueError, LookupError):
                pass
            else:
                wrong(f"{name!r} has a result for a configuration that was not added")
        self.sim.probe("results-compared", sum(len(r) for r in model.ext.values()))

    # -- locality -----------------------------------------------------------------------
    def op_hide(self, o):
        """
        Make every object unreadable that is not on the way to one record, and
        optionally one of its files
        """
        realm, sim = self.realm(o), self.sim
        record = (realm.tvl or {}).get(key(o["ver"], o["prefix"]))
        if not record or o["path"] not in record[1]["datasets"]:
            raise Skip()
        if o.get("file") and any(p.startswith(o["file"] + "/")
                                 for p in record[1]["datasets"][o["path"]]["files"]):
            raise Skip()        # a directory
        from .kernel import Proc
        with sim.undisturbed():
            git_dir = os.path.realpath(realm.git_dir)
            proc = Proc(sim, "oracle")
            sim.procs.pop()
            sim.use_modules(proc)
            real, sim.oracle_uses_real_git = sim.oracle_uses_real_git, False
            try:
                sim.git.reads.clear()
                tvl, us = proc.get_top_level_metadata_objects("git", realm.path)
                if o.get("uuid") and UUID(o["uuid"]) in us.uuids():
                    us.get_version_list(UUID(o["uuid"])).ensure_mapped()
                tree = tvl.get_dataset_tree(o["ver"], proc.MetadataPath(o["prefix"]))[2]
                mrr = tree.get_metadata_root_record(proc.MetadataPath(o["path"]))
                if o.get("file") is None:
                    mrr.get_dataset_level_metadata()
                elif mrr.file_tree is not None:
                    md = mrr.file_tree.get_metadata(proc.MetadataPath(o["file"]))
                    if md is not None:
                        md.ensure_mapped()
                needed = {sha for d, sha in sim.git.reads if d == git_dir}
            finally:
                sim.oracle_uses_real_git = real
                sim.use_modules(self.proc)
            repo = sim.git.repo(git_dir)
            try:
                # what it takes is known from the format of the store, not only
                # from what the code reads
                needed = self.way_to(repo, o)
            except (KeyError, TypeError, ValueError):
                sim.probe("way-by-reading")
            refs = set(repo.refs().values())
            references = repo.read_ref("refs/datalad/object-references-2.0")
            keep = set(needed) | refs
            if references:
                # the object reference tree itself is bookkeeping
                stack = [(references, 0)]
                while stack:
                    sha, depth = stack.pop()
                    keep.add(sha)
                    if depth < 3:
                        stack += [(c, depth + 1) for m, _, c in parse_tree(repo.read(sha)[1])
                                  if mode_type(m) == "tree"]
            hidden = [s for s in repo.all_objects() if s not in keep]
            sim.git.unreadable.update((git_dir, s) for s in hidden)
            sim.probe("hidden-objects", len(hidden))
            realm.hidden = True

    def way_to(self, repo, o):
        """The objects that lead to a record, and to its dataset-level metadata or one of its files"""
        def blob(sha):
            needed.add(sha)
            return json.loads(repo.read(sha)[1].decode())

        def entry(tree, name):
            needed.add(tree)
            return {n.decode(): sha for _, n, sha in parse_tree(repo.read(tree)[1])}[name]

        needed = set()
        uuid_set = repo.read_ref("refs/datalad/dataset-uuid-set")
        needed.add(uuid_set)
        if o.get("uuid"):
            try:
                needed.add(entry(uuid_set, o["uuid"]))
            except KeyError:
                pass
        prefix = str(self.path(o["prefix"]))
        for record in blob(repo.read_ref("refs/datalad/dataset-tree-version-list")):
            if record["primary_data_version"] == o["ver"] and record["path"] in (prefix, prefix or "."):
                tree = record["dataset_tree"]["location"]
                break
        else:
            raise KeyError(o["ver"])
        for name in self.path(o["path"]).parts:
            tree = entry(tree, name)
        record = blob(entry(tree, ".datalad_metadata_root_record"))
        if o.get("file") is None:
            reference = record["dataset_level_metadata"]["location"]
        else:
            reference = record["file_tree"]["location"]
            try:
                if reference != "*None*":
                    for name in self.path(o["file"]).parts:
                        reference = entry(reference, name)
            except KeyError:
                reference = "*None*"        # there is no such file
        if reference != "*None*":
            needed.add(blob(reference)["location"])
        return needed

    def op_read_dlm(self, o):
        """read the dataset-level metadata of one record only"""
        s = self.session(o)
        mrr, m = self.api_mrr(s, o)
        md = mrr.get_dataset_level_metadata()
        got = None if md is None else dump_md(self.P, md)
        wanted = None if m.dlm is None else m.dlm.dump()
        if got != wanted:
            raise Violation("read", f"{o['id']}: dataset-level metadata differs: {diff(wanted, got)[:5]}")

    def op_unhide(self, o):
        self.sim.git.unreadable.clear()
        self.realm(o).hidden = False
