"""
The reference model: plain in-memory objects with the same logical content as the
metadata store, and the functions that extract the logical content ("dump") from
the real objects through the public interface.

A dump is a JSON value. Two stores are equal when their dumps are equal.
"""
import copy
import json
from typing import Dict, List, Optional


def in_order(runs):
    """their order has no meaning"""
    return runs if len(runs) < 2 else sorted(runs, key=lambda run: (run[0], json.dumps(run[1], sort_keys=True)))


class MD:
    """Metadata of one dataset or file"""
    def __init__(self, dump=None):
        self.ext: Dict[str, list] = copy.deepcopy(dump) if dump else {}

    def add(self, ext, cfg, ts, author, email, content):
        runs = self.ext.setdefault(ext, [])
        entry = [cfg[0], cfg[1], ts, author, email, content]
        for i, run in enumerate(runs):
            if run[0] == cfg[0] and run[1] == cfg[1]:
                runs[i] = entry
                return
        runs.append(entry)

    def dump(self):
        return {name: in_order(copy.deepcopy(runs)) for name, runs in self.ext.items()}


class MRR:
    def __init__(self, ident, version, dlm: Optional[MD], files: Optional[Dict[str, MD]]):
        self.ident, self.version, self.dlm = ident, version, dlm
        self.files: Dict[str, MD] = files if files is not None else {}
        # directories that remain in memory, although they are empty
        self.ghosts = set()

    def dump(self):
        return {"id": self.ident, "version": self.version,
                "dlm": None if self.dlm is None else self.dlm.dump(),
                "files": {p: m.dump() for p, m in self.files.items()}}

    def release(self):
        """the object remains the same, but everything below is replaced by copies"""
        self.dlm = None if self.dlm is None else MD(self.dlm.dump())
        self.files = {p: MD(m.dump()) for p, m in self.files.items()}
        self.ghosts = set()

    @staticmethod
    def load(d):
        return MRR(d["id"], d["version"], None if d["dlm"] is None else MD(d["dlm"]),
                   {p: MD(m) for p, m in d["files"].items()})


class Tree:
    def __init__(self):
        self.datasets: Dict[str, MRR] = {}
        self.ghosts = set()

    def dump(self):
        return {"datasets": {p: m.dump() for p, m in self.datasets.items()}}

    def release(self):
        # records might also be part of a version list, the objects that are held
        # for their parts are gone there, too
        for m in self.datasets.values():
            m.release()
        self.datasets = {p: MRR.load(m.dump()) for p, m in self.datasets.items()}
        self.ghosts = set()

    @staticmethod
    def load(d):
        t = Tree()
        t.datasets = {p: MRR.load(m) for p, m in d["datasets"].items()}
        return t


def load_element(d):
    return Tree.load(d) if "datasets" in d else MRR.load(d)


class VL:
    """version list: {version|prefix: [time stamp, element]}"""
    def __init__(self):
        self.records: Dict[str, list] = {}

    def dump(self):
        return {k: [ts, e.dump()] for k, (ts, e) in self.records.items()}

    def release(self):
        for _, element in self.records.values():
            element.release()
        self.records = {k: [ts, load_element(e.dump())] for k, (ts, e) in self.records.items()}

    @staticmethod
    def load(d):
        v = VL()
        v.records = {k: [ts, load_element(e)] for k, (ts, e) in d.items()}
        return v


class US:
    def __init__(self):
        self.lists: Dict[str, VL] = {}

    def dump(self):
        return {u: v.dump() for u, v in self.lists.items()}

    @staticmethod
    def load(d):
        u = US()
        u.lists = {k: VL.load(v) for k, v in d.items()}
        return u


def parents(path: str) -> List[str]:
    parts = path.split("/")
    return ["/".join(parts[:i]) for i in range(1, len(parts))]


def key(version: str, prefix: str) -> str:
    return f"{version}|{prefix}"


# ---------------------------------------------------------------------------
# extraction through the public interface
def dump_md(P, md) -> dict:
    md.ensure_mapped()
    result = {}
    for name, instance_set in md.extractor_runs:
        runs = []
        for cfg in instance_set.configurations:
            inst = instance_set.get_instance_for_configuration(cfg)
            runs.append([cfg.version, dict(cfg.parameter), inst.time_stamp, inst.author_name,
                         inst.author_email, inst.metadata_content])
            if (inst.configuration.version, dict(inst.configuration.parameter)) != \
                    (cfg.version, dict(cfg.parameter)):
                runs.append(["instance has another configuration",
                             inst.configuration.version, dict(inst.configuration.parameter)])
        result[name] = in_order(runs)
    return copy.deepcopy(result)


def dump_ft(P, ft) -> dict:
    files = {}
    for path, md in ft.get_paths_recursive():
        files[str(path)] = None
    for path in files:
        md = ft.get_metadata(P.MetadataPath(path))
        files[path] = "missing" if md is None else dump_md(P, md)
    return files


def dump_mrr(P, mrr) -> dict:
    mrr.ensure_mapped()
    dlm = mrr.dataset_level_metadata
    ft = mrr.file_tree
    return {"id": str(mrr.dataset_identifier), "version": mrr.dataset_version,
            "dlm": None if dlm is None else dump_md(P, mrr.get_dataset_level_metadata()),
            "files": {} if ft is None else dump_ft(P, ft)}


def dump_tree(P, tree) -> dict:
    datasets = {}
    for path, _ in tree.dataset_paths:
        datasets[str(path)] = None
    for path in datasets:
        mrr = tree.get_metadata_root_record(P.MetadataPath(path))
        datasets[path] = "missing" if mrr is None else dump_mrr(P, mrr)
    return {"datasets": datasets}


def dump_element(P, e):
    return dump_tree(P, e) if isinstance(e, P.DatasetTree) else dump_mrr(P, e)


def dump_vl(P, vl) -> dict:
    vl.ensure_mapped()
    result = {}
    for version, prefix in list(vl.versions_and_prefix_paths()):
        ts, prefix_path, element = vl.get_versioned_element(version, prefix)
        result[key(version, str(prefix_path))] = [ts, dump_element(P, element)]
    return result


def dump_us(P, us) -> dict:
    return {str(u): dump_vl(P, us.get_version_list(u)) for u in list(us.uuids())}


def diff(a, b, path="") -> List[str]:
    """Differences between two dumps, for reports"""
    if type(a) != type(b):
        return [f"{path}: {short(a)} != {short(b)}"]
    if isinstance(a, dict):
        out = []
        for k in sorted(set(a) | set(b), key=str):
            if k not in a:
                out.append(f"{path}/{k}: unexpected {short(b[k])}")
            elif k not in b:
                out.append(f"{path}/{k}: lost {short(a[k])}")
            else:
                out.extend(diff(a[k], b[k], f"{path}/{k}"))
            if len(out) > 8:
                break
        return out
    if isinstance(a, list) and len(a) == len(b):
        out = []
        for i, (x, y) in enumerate(zip(a, b)):
            out.extend(diff(x, y, f"{path}[{i}]"))
            if len(out) > 8:
                break
        return out
    return [] if a == b else [f"{path}: {short(a)} != {short(b)}"]


def short(x) -> str:
    s = repr(x)
    return s if len(s) <= 100 else s[:97] + "..."
