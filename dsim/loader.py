"""
Private instances of the package under test, one per simulated process.

The sources are read and compiled once per worker from the working tree of
/repo; a simulated process executes the code objects into fresh modules, so that
all module-level state (caches, lock tables, pending object references) is per
process, and a crash or restart of a process loses it, as in reality.
"""
import importlib
import importlib.abc
import importlib.util
import os
import sys
import types
from typing import Dict

REPO = os.environ.get("DSIM_REPO", "/repo")
PACKAGE = "dataladmetadatamodel"

# public names used by the harness
API = {
    "get_top_level_metadata_objects": "common",
    "get_top_nodes_and_metadata_root_record": "common",
    "get_metadata_root_record_from_top_nodes": "common",
    "TreeVersionList": "versionlist",
    "VersionList": "versionlist",
    "UUIDSet": "uuidset",
    "MetadataRootRecord": "metadatarootrecord",
    "DatasetTree": "datasettree",
    "FileTree": "filetree",
    "Metadata": "metadata",
    "ExtractorConfiguration": "metadata",
    "MetadataPath": "metadatapath",
    "MTreeNode": "mtreenode",
    "Text": "text",
    "Reference": "mapper.reference",
    "flush_object_references": "mapper.gitmapper.objectreference",
    "add_tree_reference": "mapper.gitmapper.objectreference",
    "add_blob_reference": "mapper.gitmapper.objectreference",
    "lock_backend": "mapper.gitmapper.utils",
    "unlock_backend": "mapper.gitmapper.utils",
    "locked_backend": "mapper.gitmapper.utils",
    "LocalGitMetadataSource": "metadatasource",
    "ImmediateMetadataSource": "metadatasource",
    "MetadataSource": "metadatasource",
}

_codes: Dict[str, tuple] = {}
_shared: Dict[str, types.ModuleType] = {}
_order = []


class _Loader(importlib.abc.Loader):
    def create_module(self, spec):
        return None

    def exec_module(self, module):
        exec(_codes[module.__name__][0], module.__dict__)


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        entry = _codes.get(name)
        if entry is None:
            return None
        code, filename, package_dir = entry
        spec = importlib.util.spec_from_loader(
            name, _Loader(), origin=filename, is_package=package_dir is not None)
        if package_dir is not None:
            spec.submodule_search_locations = [package_dir]
        spec.has_location = True
        return spec


def prepare():
    """Compile the package. Raises if a source file does not compile."""
    if _codes:
        return
    base = os.path.join(REPO, PACKAGE)
    for folder, dirs, files in os.walk(base):
        dirs[:] = sorted(d for d in dirs if d not in ("tests", "__pycache__"))
        for file in sorted(files):
            if not file.endswith(".py"):
                continue
            path = os.path.join(folder, file)
            relative = os.path.relpath(path, REPO)[:-3].split(os.sep)
            package_dir = None
            if relative[-1] == "__init__":
                relative.pop()
                package_dir = folder
            if not os.path.exists(os.path.join(folder, "__init__.py")):
                continue
            name = ".".join(relative)
            with open(path, "rb") as f:
                code = compile(f.read(), path, "exec", dont_inherit=True)
            _codes[name] = (code, path, package_dir)
            _order.append(name)
    sys.meta_path.insert(0, _Finder())
    # the version module runs git on /repo when asked for the version
    name = PACKAGE + "._version"
    if name in _codes:
        module = types.ModuleType(name)
        module.__package__ = PACKAGE
        module.__file__ = _codes[name][1]
        exec(_codes[name][0], module.__dict__)
        module.get_versions = lambda: {"version": "0+simulated", "full-revisionid": None,
                                       "dirty": None, "error": None, "date": None}
        _shared[name] = module
    for name in [m for m in sys.modules if m.split(".")[0] == PACKAGE]:
        del sys.modules[name]


def _clear():
    for name in [m for m in sys.modules if m == PACKAGE or m.startswith(PACKAGE + ".")]:
        del sys.modules[name]


def instantiate() -> Dict[str, types.ModuleType]:
    saved = {m: sys.modules[m] for m in sys.modules
             if m == PACKAGE or m.startswith(PACKAGE + ".")}
    _clear()
    try:
        sys.modules.update(_shared)
        for name in _order:
            importlib.import_module(name)
        return {m: sys.modules[m] for m in sys.modules
                if m == PACKAGE or m.startswith(PACKAGE + ".")}
    finally:
        _clear()
        sys.modules.update(saved)


def activate(modules: Dict[str, types.ModuleType]):
    _clear()
    sys.modules.update(modules)
