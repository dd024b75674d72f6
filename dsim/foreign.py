"""
Elements of another version of the model: what a store looks like after a process
of another version wrote it. The conversion knows the format of the store: JSON
objects with a type and a version below "@", references to objects in them, git
trees. Converted elements still have all the fields, but their meaning changed, so
whoever interprets them gets a wrong content. They keep the original.
"""
import json
import re

from .simgit import mode_type, parse_tree

HEX40 = re.compile(r"^[0-9a-f]{40}$")
REFS = ("refs/datalad/dataset-tree-version-list", "refs/datalad/dataset-uuid-set")
OPAQUE = ("metadata_content", "parameter")
TYPES = ("Reference", "Metadata", "MetadataInstanceSet", "MetadataInstance", "ExtractorConfiguration")
CHANGED = {
    "Reference": {"location": "*None*"},
    "Metadata": {"instance_sets": {}},
    "MetadataInstanceSet": {"parameter_set": [], "instance_set": {}},
    "MetadataInstance": {"metadata_content": "of another version"},
    "ExtractorConfiguration": {"version": "of another version"},
}


class Conversion:
    """rewrites everything that the top-level elements consist of"""
    def __init__(self, repo, change):
        self.repo, self.change = repo, change
        self.done = {}
        self.changed = set()

    def top(self, names=REFS):
        for name in names:
            sha = self.repo.read_ref(name)
            if sha:
                self.repo.write_ref(name, self.object(sha))

    def object(self, sha):
        if sha not in self.done:
            entry = self.repo.read(sha)
            if entry is None:
                return sha
            kind, data = entry
            if kind == "tree":
                data = b"".join(b"%o %s\0" % (mode, name) + bytes.fromhex(self.object(child))
                                for mode, name, child in parse_tree(data))
                self.done[sha] = self.repo.write("tree", data)
            else:
                old = json.loads(data.decode())
                self.marked = False
                new, marked = self.walk(sha, old)
                self.done[sha] = sha if new == old and not marked else \
                    self.repo.write("blob", json.dumps(new).encode())
                if marked:
                    self.changed.add(self.done[sha])
        return self.done[sha]

    def walk(self, sha, value):
        marked = False
        if isinstance(value, list):
            parts = [self.walk(sha, v) for v in value]
            return [p[0] for p in parts], any(p[1] for p in parts)
        if not isinstance(value, dict):
            return value, False
        if "kept" in value and "@" in value:
            value = value["kept"]       # reverts a conversion
            marked = True
        result = {}
        for k, v in value.items():
            result[k] = v
            if k not in OPAQUE and k != "@":
                result[k], m = self.walk(sha, v)
                marked = marked or m
        stamp = value.get("@")
        if isinstance(stamp, dict):
            if stamp.get("type") == "Reference" and HEX40.match(result["location"]):
                result["location"] = self.object(result["location"])
            new = self.change(sha, result)
            if new is not None:
                return new, True
        return result, marked


def make_foreign(repo, types, stamp, every):
    def change(sha, value):
        kind = value["@"]["type"]
        if kind not in types or int(sha[:8], 16) % every:
            return None
        return {**value, **CHANGED[kind], "@": {**value["@"], **stamp}, "kept": value}
    conversion = Conversion(repo, change)
    conversion.top()
    return conversion.changed


def make_native(repo):
    Conversion(repo, lambda sha, value: None).top()
