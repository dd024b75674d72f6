"""What the checks are called, how much they run, and what their results mean"""

COMMON = [
    "git behaves like the in-process emulation in dsim/simgit.py (compared with git 2.43 in selftest/); git commands "
    "that it does not know are executed by the real git, as one indivisible event",
    "git itself is atomic: an object or reference is written completely or not at all; SIGKILL between two git steps, "
    "but no power loss, i.e. no loss of completed writes",
    "fcntl locks are exclusive between processes, and released when their owner dies",
    "at most three faults per run; at most four processes at the same time",
]


def check(title, quick, rule, search, note, probes=(), assumptions=()):
    return {"title": title, "runs": {"quick": quick, "thorough": quick * 20}, "search": search, "note": note,
            "rule": "Every run: a seeded workload of sessions, schedule and faults, all different. Non-trivial: " + rule,
            "assumptions": COMMON + list(assumptions), "expect_probes": list(probes)}


SAVES = ("op:save_tvl", "op:save_us", "op:flush", "op:md", "op:auto", "gc", "gc-dropped-objects")
CHECKS = {
    "C01": check("what was saved is what every later process reads", 1800,
                 "at least one reference of the store was written.",
                 "histories of sessions, names, contents and repository paths, compared with a reference model",
                 "Saved content equals the model for every sampled history over several processes, also after gc.",
                 SAVES + ("op:put", "op:us_set", "op:add_sub", "op:rm_sub", "op:rm_file", "op:set_files", "op:set_dlm",
                          "items-checked")),
    "C02": check("a crash leaves the old or the new content", 1600, "a crash fired.",
                 "crash points inside of saves, followed by other processes",
                 "Old-or-new content and usability after process death at sampled points, git children may survive.",
                 ("failed-save-visible", "failed-save-invisible", "progress-checked") + SAVES),
    "C03": check("no false success, no visible effect of failures", 1200, "a fault fired.",
                 "failing system interactions inside of operations, process goes on",
                 "Every acknowledged save under an injected fault is read back; failed saves leave old or new content.",
                 ("op-failed", "failed-save-visible", "failed-save-invisible", "acked-despite-fault") + SAVES),
    "C04": check("a failed operation can be repeated", 1000, "a fault fired.",
                 "failing system interactions inside of operations, followed by retries with the same objects",
                 "Retries after sampled faults converge to the state of the undisturbed model.",
                 ("retried-ok", "op:copy", "items-protected") + SAVES),
    "C05": check("what can not be read is not treated as missing", 1800, "a fault fired or stored data was damaged.",
                 "failing reads in open, lookup, get-or-create, save and flush",
                 "No sampled read failure led to an absent, replaced or overwritten element.",
                 ("op-failed", "retried-ok", "items-checked") + SAVES),
    "C06": check("saved and flushed metadata survives gc", 1200, "gc dropped at least one object.",
                 "histories of saves, partial saves and shared records with immediate gc",
                 "gc keeps and can traverse everything that is needed, after sampled histories.", SAVES),
    "C07": check("concurrent writers under the lock lose no update", 1200,
                 "at least two critical sections and one context switch.",
                 "interleavings of locked transactions with crashes, stalls and failing commands",
                 "Final stores equal a sequential model of the completed transactions in sampled schedules.",
                 ("critical-sections", "waited-for-lock", "progress-checked") + SAVES),
    "C08": check("concurrent flushes keep the references of everybody", 1200,
                 "at least two protected elements and one context switch.",
                 "interleavings of flushes with crashes, stalls and failing commands",
                 "After sampled interleavings of flushes, gc keeps everything that was flushed.",
                 ("items-protected", "items-checked", "gc", "gc-dropped-objects", "progress-checked")),
    "C09": check("the backend lock is exclusive, reentrant and released", 5000, "at least two critical sections.",
                 "interleavings of nested lock sections with exceptions, failing lock calls, crashes and clock jumps",
                 "Exclusion, reentrancy, release and progress in sampled schedules.",
                 ("critical-sections", "nested-locks", "waited-for-lock", "section-left-by-exception",
                  "progress-checked"),
                 ["a failing unlock system call is not modelled", "one thread per process"]),
    "C10": check("readers without a lock see complete states in order", 1800, "a snapshot and a context switch.",
                 "interleavings of writers and readers without locks",
                 "Each read returned one state of its time, in order, in sampled schedules.",
                 ("snapshots", "snapshot-during-change", "read-in-flight-save")),
    "C11": check("releasing memory changes nothing", 1800, "an element was purged or ungot.",
                 "histories of use, change, save, release and reload, compared with a reference model",
                 "Release was transparent or refused in sampled histories.",
                 ("purged", "purge-refused", "op:unget_tree", "op:unget_vl", "op:unget_el", "op:unget_md") + SAVES),
    "C12": check("saving a container saves every change below it", 1800, "an inner element was saved on its own.",
                 "histories of changes and saves at all levels, compared with a reference model",
                 "Containers stored all changes in sampled histories.", ("op:save_sub", "op:hold") + SAVES),
    "C13": check("copies equal their source and are independent", 1600, "an element was copied.",
                 "histories of copies, changes of both sides and failing commands",
                 "Copies were complete, independent and protected in sampled histories.",
                 tuple("copied-" + k for k in ("tvl", "us", "tree", "vl", "mrr", "ft", "dlm", "md", "text")) + SAVES),
    "C14": check("several repositories in one process do not mix", 1000, "more than three references were written.",
                 "interleavings of sessions on several repositories with gc",
                 "Every repository held and protected exactly its own content in sampled histories.",
                 SAVES + ("op:share", "items-protected")),
    "C15": check("reading through a URL gives the present content", 900, "a snapshot was read through a fetch.",
                 "histories of two remote stores and interleavings of readers that share the local cache",
                 "Remote reads returned present content of the right store in sampled histories.",
                 ("snapshots", "remote-write-refused", "op:lookup_remote", "snapshot-during-change")),
    "C16": check("an unreliable network gives an error or the right answer", 1600, "a fault fired and a fetch was started.",
                 "network failures, cut transfers, failing commands and crashes in remote reads",
                 "Remote reads raised or were right, and recovered at once, in sampled fault sequences.",
                 ("snapshots", "op-failed", "retried-ok")),
    "C17": check("work on one record needs no other objects", 1800, "at least one object was unreadable.",
                 "stores in which every object off the path of the work is unreadable",
                 "Work on one record and saves without changes were local in sampled stores.",
                 ("hidden-objects", "op:read_file", "op:read_dlm") + SAVES),
    "C18": check("conversion of legacy reference stores loses no protection", 1200, "a legacy store was converted.",
                 "crash points, failures and interleavings of the conversion",
                 "Everything stayed protected during and after sampled conversions.",
                 ("legacy-items", "items-checked", "gc", "op:expect_no_legacy")),
    "C19": check("a flush of object references is all or nothing", 2400, "a fault fired.",
                 "failing steps and crashes inside of flushes, followed by other flushes",
                 "The reference store kept everything, pending references were kept, in sampled fault sequences.",
                 ("items-protected", "items-checked", "op-failed", "gc")),
    "C20": check("get-or-create creates what is missing, once", 2400, "at least two lookups with creation.",
                 "histories of lookups with and without creation, compared with a reference model",
                 "Lookups created, found and reported exactly what the model says in sampled histories.",
                 ("op:auto", "op:lookup") + SAVES),
    "C21": check("the write cache is transparent", 1600, "a reference was written.",
                 "cache capacities, file counts, duplicates and failing bulk writes",
                 "Two cache capacities gave identical object sets and references in sampled cases.",
                 ("object-sets-compared", "retried-ok")),
    "C22": check("metadata sources deliver exact copies or an error", 16000, "a copy or write succeeded.",
                 "contents, repository paths and failing git commands on both ends of a copy",
                 "Copies were exact or raised in sampled fault sequences.",
                 ("source-copied", "source-written", "source-missing", "op-failed")),
    "C23": check("a path addresses the same element however it is spelled", 1600, "a path was spelled in another way.",
                 "histories in which datasets, files and prefixes are addressed by different spellings of their paths",
                 "All spellings addressed the same elements in sampled histories.",
                 ("respelled-paths", "op:lookup", "op:rm_sub", "op:read_file") + SAVES),
    "C24": check("elements of another version or type are refused", 1400,
                 "elements of another version or type were in the store.",
                 "stores in which a part of the elements has another version or type, and sessions that work with them",
                 "Sessions on sampled mixed stores refused such elements or did not touch them; nothing was lost.",
                 ("failed-on-damage", "roundtrips", "source-roundtrips", "sources-refused", "op:convert") + SAVES[:-2]),
    "C25": check("one result for every extractor and configuration", 1600, "an earlier result was replaced.",
                 "histories of added results, saves, releases, reloads, transactions of several processes and failures",
                 "Metadata had exactly the last result of every configuration in sampled histories.",
                 ("results-replaced", "results-compared", "present-time") + SAVES),
}
