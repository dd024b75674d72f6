"""
Source of properties.jsonl and MANIFEST.json: `python tools/properties.py` writes both.
"""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
GB = "dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py"
OR = "dataladmetadatamodel/mapper/gitmapper/objectreference.py"
GM = "dataladmetadatamodel/mapper/gitmapper/"
MO = "dataladmetadatamodel/mappableobject.py"
VL = "dataladmetadatamodel/versionlist.py"
US = "dataladmetadatamodel/uuidset.py"
CO = "dataladmetadatamodel/common.py"
UT = GM + "utils.py"
MA = GM + "metadatarootrecordmapper.py"
MT = GM + "mtreenodemapper.py"
MD = GM + "metadatamapper.py"
BC = GM + "gitblobcache.py"
LC = GM + "localcache.py"


def prop(id, title, statement, over, text, why, files, mechanism, observe, state=()):
    return {"id": id, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
            "anchors": {"files": files,
                        "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                        "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                        "observe_at": observe, "hook_needed": None}}


TOP = "get_top_level_metadata_objects, write_out of TreeVersionList and UUIDSet, flush_object_references"

PROPERTIES = [
 prop("C01", "What was saved is what every later process reads",
  "After both top-level elements of a metadata store were saved, every later process reads exactly the logical "
  "content that was saved: tree version list, dataset trees, UUID set, version lists, metadata root records, dataset "
  "and file metadata, with all versions, prefix paths, time stamps, names, extractor runs and JSON contents equal. "
  "This holds for every sequence of modifications and saves in any number of processes, for every name that git can "
  "store, for every JSON content and text, and for every path of the repository.",
  ["inputs", "histories", "configurations"],
  "all histories of open/modify/save in a chain of processes; all names, values and repository paths; all sizes of the write cache",
  "The tests save one or two fixed structures with plain names in one process; the guarantee is about all histories and names.",
  [MO, VL, US, "dataladmetadatamodel/metadatarootrecord.py", "dataladmetadatamodel/mtreenode.py", "dataladmetadatamodel/metadata.py", GB, GM],
  [("write_out/read_in", MO), ("mappers for every class", GM), ("git commands", GB)],
  [TOP],
  [("refs/datalad/dataset-tree-version-list, refs/datalad/dataset-uuid-set", "the stored top-level elements", OR)]),
 prop("C02", "A crash leaves the old or the new content, never something else",
  "If a process dies at any point of any operation (before, inside of or after any git command, lock or file "
  "operation), each top-level element of the store has either the content it had before the interrupted save or the "
  "content that was being saved, is completely readable, and the other top-level element is unchanged. Later "
  "processes can open, modify, save and lock the store, without repair.",
  ["crash_points", "histories"],
  "every point at which a process can die while it opens, modifies, saves or flushes; all histories before and after",
  "No test kills a process; the order of object writes and reference updates is never observed.",
  [MO, GM, GB, UT],
  [("bottom-up writing, reference update as last step", GM + "versionlistmapper.py, uuidsetmapper.py"),
   ("lock file released by the operating system", UT)],
  [TOP]),
 prop("C03", "No false success, and failures change nothing that others see",
  "If a git command, a file operation, a lock operation or the creation of a process fails inside an operation, the "
  "operation either raises or its full effect is in the store; it never reports success for something that is not "
  "stored. After a failed save the stored top-level elements have the old or the new content, the failed process can "
  "continue with a freshly opened store, and other processes are not affected.",
  ["fault_sequences", "histories"],
  "every sequence of up to three failing, killed or interrupted system interactions at any place of a save, flush or write",
  "The tests mock subprocess results for a few commands; failures in the middle of a save of nested elements are not reached.",
  [GB, MO, GM, MD, BC],
  [("return code checks", GB), ("clean-up of write cache", GM)],
  [TOP]),
 prop("C04", "A failed operation can be repeated and then completes",
  "If an operation on in-memory metadata (save, partial save, release of memory, copy, flush, lookup) fails because "
  "of an error outside of the process, repeating it in the same process with the same objects succeeds as soon as "
  "the error is gone, and the result is the same as if the error had not happened: nothing is lost, nothing is "
  "stored twice, and everything that is saved is protected against garbage collection.",
  ["fault_sequences", "histories"],
  "every failing interaction inside any operation of a session, followed by a retry with the same in-memory objects",
  "No test continues with objects after a failed save; stale 'saved' marks or half-filled caches only show then.",
  [MO, "dataladmetadatamodel/modifiableobject.py", OR, GM],
  [("saved_on bookkeeping", MO), ("pending object references are kept until they are stored", OR)],
  [TOP, "deepcopy"]),
 prop("C05", "What can not be read is never treated as missing",
  "If something can not be read, for a transient reason or because stored objects or references are damaged or "
  "missing, the operation raises; existing top-level elements, records or object references are never reported as "
  "absent, never replaced by new empty ones and never overwritten. After any history with such failures the store "
  "contains everything that was saved before, as soon as it is readable again.",
  ["fault_sequences", "histories"],
  "every failing read command at any place of open, lookup, get-or-create, read, save or flush; damage to any set of "
  "stored objects and references",
  "The tests only cover reads of elements that exist or do not exist, not of elements that can temporarily not be read.",
  [CO, OR, GB, "dataladmetadatamodel/uuidset.py"],
  [("distinction of missing references from failing commands", CO), ("object reference store is read before it is changed", OR)],
  [TOP, "get_top_nodes_and_metadata_root_record"]),
 prop("C06", "Saved and flushed metadata survives git garbage collection",
  "After the top-level elements were saved and the object references were flushed, an immediate garbage collection "
  "of the git repository (dropping all unreachable objects) succeeds and removes nothing that is needed to read "
  "the complete store, whatever modifications, partial saves, shared records or re-saves led to this state.",
  ["histories"],
  "all histories of modifications, partial saves, releases and re-saves in several processes, with gc after any flush",
  "No test runs git gc; objects that are only mentioned inside of JSON blobs are invisible to git.",
  [OR, GM + "versionlistmapper.py", MA],
  [("add_blob_reference, add_tree_reference, flush_object_references", OR)],
  ["git gc --prune=now after flush_object_references"],
  [("refs/datalad/object-references-2.0", "tree with all protected objects", OR)]),
 prop("C07", "Concurrent writers under the backend lock lose no update",
  "Processes that open, modify, save and flush a store inside of the backend lock (whatever spelling of the "
  "repository path they use) are serialised: the final content of the store is that of some sequential execution of "
  "the transactions that completed, and nothing that a completed transaction saved is lost or unprotected, even if "
  "other processes crash, stall or fail at any point.",
  ["schedules", "crash_points", "fault_sequences"],
  "all interleavings of 2 to 4 writers with crashes, stalls and failing commands",
  "The one concurrency test starts real processes that increment a counter; schedules with crashes and saves are not reached.",
  [UT, OR, CO],
  [("locked_backend", UT)],
  ["locked_backend, " + TOP]),
 prop("C08", "Concurrent flushes keep the references of everybody",
  "If several processes write metadata elements and flush their object references at the same time, without any "
  "further lock, then after every successful flush everything that the flushing process wrote is protected against "
  "garbage collection, and it stays protected, whatever other processes flush, fail to flush or crash at any point.",
  ["schedules", "crash_points", "fault_sequences"],
  "all interleavings of 2 to 4 concurrent flushes with crashes, stalls and failing commands",
  "The tests flush in one process only; the read-modify-write of the reference store is never interleaved.",
  [OR, UT],
  [("flush under the backend lock", OR), ("bucketed reference store", OR)],
  ["flush_object_references, git gc --prune=now"],
  [("refs/datalad/object-references-2.0", "tree with all protected objects", OR)]),
 prop("C09", "The backend lock is exclusive, reentrant and always released",
  "At most one process has the backend lock of a repository at any time, independent of the spelling of the path "
  "with which it is requested; a process can nest it, and keeps it until the outermost section is left; it is released "
  "when a section is left normally or by any exception and when its holder dies. Once nobody holds it, the next "
  "process gets it without waiting, and locks of different repositories are independent.",
  ["schedules", "crash_points", "fault_sequences"],
  "all interleavings of nested sections of up to 4 processes with exceptions, failing lock operations, stalls, crashes and clock jumps",
  "The test of the lock samples a few real schedules without nesting, failures or crashes.",
  [UT],
  [("locked_backend, lock_backend, unlock_backend", UT)],
  ["locked_backend, lock_backend, unlock_backend"],
  [("read_write_locked", "nesting depth and lock file per repository", UT)]),
 prop("C10", "Readers without a lock see complete states in their order",
  "A process that reads a store without the lock, while others save to it, fail or crash, gets for each top-level "
  "element exactly one of the contents that this element had during the read, complete and never mixed, and never "
  "an older state than it saw before. A read never fails and never reports an existing element as absent because of "
  "a concurrent save.",
  ["schedules", "crash_points"],
  "all interleavings of 1 to 2 writers and 1 to 3 readers, with crashes and failures of the writers",
  "No test reads during a write.",
  [CO, GM, GB],
  [("immutable objects, one reference update per element", GM)],
  ["get_top_level_metadata_objects while others save"]),
 prop("C11", "Releasing memory changes nothing",
  "Unloading (purge or unget) any part of the in-memory metadata never changes what is read afterwards or saved "
  "later: modified parts are saved before they are released, or the release is refused; it never drops a "
  "modification, and released parts are read again when they are used, in any order of use, modification, "
  "saving and releasing.",
  ["histories"],
  "all sequences of use, modification, partial save, release and reload of every element class",
  "The tests unget single fresh elements; sequences with reloads, changes and shared records are not reached.",
  [MO, VL, US, "dataladmetadatamodel/filetree.py", "dataladmetadatamodel/datasettree.py", "dataladmetadatamodel/metadatarootrecord.py", "dataladmetadatamodel/mtreenode.py"],
  [("purge refuses unsaved elements, ensure_mapped reloads", MO)],
  ["purge, unget_*, later reads and saves"]),
 prop("C12", "Saving a container saves every change below it",
  "Saving a tree version list or UUID set stores every modification in any element below it, whatever was modified, "
  "saved separately or shared between containers before, and in whatever order; no modification is skipped because "
  "an element or a container counts as saved already.",
  ["histories"],
  "all sequences of modifications at any level, separate saves of inner elements, and saves of containers",
  "The tests check single modification-propagation steps on unsaved or freshly saved elements.",
  [MO, "dataladmetadatamodel/modifiableobject.py", "dataladmetadatamodel/mtreeproxy.py", "dataladmetadatamodel/metadatarootrecord.py", VL, US],
  [("is_saved_on with sub-objects", "dataladmetadatamodel/modifiableobject.py"), ("saved references of sub-objects", MO)],
  ["write_out of inner elements and containers, then a fresh reader"]),
 prop("C13", "Copies equal their source and have a life of their own",
  "A deep copy of any metadata element into another repository is complete there and has the same logical content "
  "(with the requested prefix path, if any); the source stays unchanged and usable, later modifications of copy and "
  "source do not affect each other, and after saving and flushing in the destination it survives garbage "
  "collection there and does not need the source repository.",
  ["histories", "fault_sequences"],
  "all element classes and states (loaded, modified, released), all later histories of copy and source, failing commands during copies",
  "The tests copy fixed, fresh elements; copies of partially loaded or modified elements and their later use are not covered.",
  [MO, VL, US, "dataladmetadatamodel/mtreenode.py", "dataladmetadatamodel/mtreeproxy.py", "dataladmetadatamodel/metadata.py", "dataladmetadatamodel/metadatarootrecord.py", "dataladmetadatamodel/text.py"],
  [("deepcopy", MO)],
  ["deepcopy, write_out, flush_object_references in the destination"]),
 prop("C14", "Several repositories in one process do not mix",
  "A process that works on several metadata stores at the same time, in any interleaving of modifications, saves and "
  "flushes, stores in each repository exactly what was saved to it and protects it there: a flush of one repository "
  "neither protects objects of another one instead, nor discards its pending references, and no repository refers to "
  "objects that only exist in another one.",
  ["histories"],
  "all interleavings of sessions on 2 or 3 repositories in one process, including elements that are part of two stores",
  "The tests use one repository per process and reset module state.",
  [OR, MO, GM],
  [("pending references per repository", OR), ("saved_on per repository", MO)],
  ["saves and flushes to several realms, gc in each of them"],
  [("cached object references", "pending references", OR)]),
 prop("C15", "Reading through a URL gives the present content of that store",
  "Reading a store through a remote URL gives exactly the content that the store at this URL has at that time, for "
  "every URL separately, however often it changed, shrank or was read through the local cache before, by this or by "
  "other processes at the same time, and an absent element is reported as absent. Reads through a URL never modify "
  "the remote store, and attempts to save to a URL are refused.",
  ["histories", "schedules"],
  "all histories of changes of two remote stores and reads by several processes that share the local cache, in all interleavings",
  "The tests mock git or read one fixed remote once; a cache that is used repeatedly or concurrently is not reached.",
  [LC, GB, "dataladmetadatamodel/mapper/reference.py", CO],
  [("local cache repository per remote, fetch before read", LC)],
  ["get_top_level_metadata_objects with a URL"]),
 prop("C16", "An unreliable network gives an error or the right answer",
  "If the network, a git command or the process fails or dies at any point of a remote read, the read raises or "
  "returns correct, present content; it never returns outdated, mixed or incomplete content and never reports "
  "existing elements as absent. The local cache repairs itself: once the failures stop, the next read is correct, "
  "without manual intervention.",
  ["fault_sequences", "crash_points", "schedules"],
  "every failing, cut or killed step of the cache initialisation, fetch or read, in one or two processes, followed by reads",
  "No test fails a fetch or leaves an incomplete cache behind.",
  [LC, GB, CO],
  [("cache initialisation and fetch", LC)],
  ["get_top_level_metadata_objects with a URL after failures"]),
 prop("C17", "Work on one record needs no other objects",
  "Opening a store, reading or modifying one record or file metadata and saving again only needs the stored objects "
  "on the way to that record: it works when all other objects (other datasets, versions and files) can not be read, "
  "and everything else is unchanged afterwards. Saving top-level elements that were not modified since they were read "
  "or saved writes nothing.",
  ["histories", "fault_sequences"],
  "all stores and records, with every object off the path unreadable",
  "The tests use complete, small repositories; whether untouched parts are loaded or written is not observed.",
  [MO, GM, VL, US, "dataladmetadatamodel/mtreenode.py"],
  [("lazy loading", MO), ("is_saved_on", "dataladmetadatamodel/modifiableobject.py")],
  ["read and save with unreadable off-path objects"]),
 prop("C18", "Conversion of legacy reference stores loses no protection",
  "A repository with object reference stores in the old format is converted by the first flushes that happen in it: "
  "everything that was protected by the old stores or by the new store stays protected against garbage collection at "
  "every time, during and after the conversion, whatever fails, crashes or runs concurrently. After an undisturbed "
  "flush by a new process the old stores are gone.",
  ["crash_points", "schedules", "fault_sequences"],
  "every crash or failure point of the conversion, 1 to 3 concurrent converting processes, mixed old and new stores",
  "One test converts a small store without disturbance.",
  [OR],
  [("conversion inside of the flush, removal of old references as last step", OR)],
  ["flush_object_references in a repository with refs/datalad/object-references/{trees,blobs}"]),
 prop("C19", "A flush of object references is all or nothing and forgets nothing",
  "If a flush of object references fails or the process dies at any point of it, the reference store still protects "
  "everything it protected before; the references that were not stored stay pending, and the next successful flush of "
  "the same process protects everything that the process wrote since its last successful flush.",
  ["fault_sequences", "crash_points"],
  "every failing, killed, interrupted or crashing step of a flush, with any number of earlier flushes and pending references",
  "The tests flush without failures.",
  [OR],
  [("pending references are discarded after the reference update only", OR)],
  ["flush_object_references, git gc --prune=now"],
  [("cached object references", "pending references", OR)]),
 prop("C20", "Get-or-create creates what is missing once and nothing else",
  "Looking up a metadata root record with creation enabled returns the stored record if there is one, otherwise it "
  "creates the record and all missing containers, lists it under its dataset id, and repeating it returns the same "
  "record with all changes. Without creation enabled a lookup tells existing records from absent ones, and looking "
  "for absent versions or datasets and saving afterwards changes nothing in the store.",
  ["histories", "inputs"],
  "all histories of lookups with and without creation for datasets and sub-datasets, modifications, saves and reopened stores",
  "The tests call the function on a few fixed states.",
  [CO],
  [("get_metadata_root_record_from_top_nodes", CO)],
  ["get_top_nodes_and_metadata_root_record, get_metadata_root_record_from_top_nodes"]),
 prop("C21", "The write cache for metadata blobs is transparent",
  "The bulk write cache changes nothing but the number of git commands: for every capacity and every number and "
  "content of files, the stored objects, references and logical contents are identical, also if a bulk write fails "
  "and is repeated, and temporary files do not accumulate.",
  ["inputs", "configurations", "fault_sequences"],
  "all capacities, file counts around multiples of the capacity, duplicated contents, and failing bulk writes",
  "The tests write fewer files than the capacity of the cache, except one that mocks git.",
  [BC, MT, MD],
  [("GitBlobCache", BC)],
  ["write_out with different cache sizes"]),
 prop("C22", "Metadata sources deliver exact copies or an error",
  "Copying the object of a local git metadata source into another repository, or writing it to a file, delivers "
  "exactly the bytes of the object, for every content, size and repository path, or raises; a failed or interrupted "
  "copy never leaves a wrong object in the destination that is reported as the copy, and a missing object is reported "
  "as an error.",
  ["inputs", "fault_sequences"],
  "all blob contents and repository paths, failing git commands at either end of the copy",
  "The tests copy one small text without failures.",
  ["dataladmetadatamodel/metadatasource.py"],
  [("LocalGitMetadataSource.copy_object_to, write_object_to", "dataladmetadatamodel/metadatasource.py")],
  ["copy_object_to, write_object_to"]),
 prop("C23", "A path addresses the same element however it is spelled",
  "Metadata paths are relative and normalised: repeated, leading and trailing slashes, '.' components, and the way in "
  "which a path is put together from parts make no difference. All spellings of a path give equal paths, their string "
  "gives an equal path again, and a dataset, file or path prefix that was stored with one spelling is found, listed, "
  "replaced, removed and copied with every other one, in the same and in every later process.",
  ["inputs", "histories"], "all paths, spellings and sessions that address stored elements by them",
  "Tests sample a few spellings, and never use different ones for the same stored element.",
  ["dataladmetadatamodel/metadatapath.py", "dataladmetadatamodel/mtreenode.py", VL],
  [("MetadataPath", "dataladmetadatamodel/metadatapath.py"), ("child lookup by path", "dataladmetadatamodel/mtreenode.py"),
   ("version and prefix keys", VL)], ["MetadataPath", TOP]),
 prop("C24", "Elements of another version or type are refused and left alone",
  "Serialised references, metadata (with instance sets, instances and extractor configurations) and metadata sources "
  "carry their type and the version of the model. Reading an element of the own version gives an element that is "
  "equal to the serialised one. An element that was stored by another version of the model or that is of another type "
  "is refused with an error (metadata sources: error or None), wherever it is in a store; it is never interpreted, "
  "never reported as missing, and never replaced or dropped by work on other parts of the store: if the versions "
  "match again, the content is complete.",
  ["configurations", "histories", "inputs"],
  "all stores with any subset of elements of other versions or types, and all sessions that work with them",
  "The tests check the refusal for single JSON strings, not for elements inside of a store and the work that continues on it.",
  ["dataladmetadatamodel/__init__.py", "dataladmetadatamodel/metadata.py", "dataladmetadatamodel/mapper/reference.py", "dataladmetadatamodel/metadatasource.py", GM],
  [("check_serialized_version, type checks in from_json_obj and init_from_json", "dataladmetadatamodel/metadata.py"),
   ("references in version lists, metadata root records and leaves of file trees", GM)],
  [TOP, "to_json_str, from_json_str, Metadata.to_json, Metadata.from_json"]),
 prop("C25", "An extractor has one result per configuration: the last one",
  "Metadata of a dataset or file holds for every extractor and every distinct configuration (version and parameters, "
  "in any order) that was added exactly one result, the last one that was added by any process; all ways to look at "
  "results agree about it, and results of other extractors and configurations are not affected.",
  ["histories", "schedules", "inputs"],
  "all histories of added results, saves, releases, copies and reloads, in transactions of any number of processes",
  "Tests sample a few sequences on one object in memory.",
  ["dataladmetadatamodel/metadata.py", GM + "metadatamapper.py"],
  [("ExtractorConfiguration equality, MetadataInstanceSet", "dataladmetadatamodel/metadata.py")],
  ["add_extractor_run", "extractor_runs", "get_instance_for_configuration"]),
]

NOT_APPLICABLE = {
}

PYTHON = "/opt/venv/bin/python"


def main():
    from dsim.meta import CHECKS
    with open(HERE + "/properties.jsonl", "w") as f:
        for p in PROPERTIES:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    checks = []
    for p in PROPERTIES:
        if p["id"] in NOT_APPLICABLE:
            continue
        info = CHECKS[p["id"]]
        checks.append({
            "property": p["id"],
            "quick_cmd": f"{PYTHON} check.py {p['id']} --tier quick",
            "thorough_cmd": f"{PYTHON} check.py {p['id']} --tier thorough",
            "evidence_file": f"evidence/{p['id']}.json",
            "technique": "deterministic simulation with seeded search over " + info["search"],
            "level": "exploration",
            "level_note": info["note"] + " Sampled, not exhaustive. Trusts the in-process emulation of git "
                          "(compared with the real git in selftest/) and the reference model.",
        })
    manifest = {
        "version": 1,
        "setup_cmd": f"{PYTHON} check.py --setup",
        "checks": checks,
        "not_applicable": [{"property": k, "reason": v} for k, v in NOT_APPLICABLE.items()],
        "notes": "No hooks in /repo: all seams are at the standard library (subprocess, os, time, fcntl, tempfile). "
                 "KNOWN_FINDINGS lists the repaired defects. selftest/ has the checks of the machinery itself.",
    }
    with open(HERE + "/MANIFEST.json", "w") as f:
        json.dump(manifest, f, indent=1, ensure_ascii=False)
        f.write("\n")


if __name__ == "__main__":
    main()
