#!/usr/bin/env python3
"""
The simulator against reality:

  git     random command sequences on the git emulation and on the real git, which
          work on two repositories; exit codes, outputs, references and objects have
          to be equal, and `git fsck` has to accept what the emulation wrote
  stores  repositories that simulated runs leave behind are accepted by git fsck,
          and the real `git gc` keeps the same objects as the emulated one
  repeat  the same seed gives the same trace, in every worker process, with every
          number of workers

usage: selftest.py [git|stores|repeat] [--n N] [--seed S]
"""
import argparse
import os
import random
import re
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True

from dsim import runner, simgit  # noqa

ENV = {"HOME": "/nonexistent", "PATH": os.environ["PATH"], "GIT_CONFIG_NOSYSTEM": "1", "LC_ALL": "C"}


def real(argv, stdin, cwd):
    r = subprocess.run(argv, input=stdin if stdin is not None else b"", stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, cwd=cwd, env=ENV)
    return r.returncode, r.stdout, r.stderr


def name(rng):
    n = rng.randint(1, 6)
    return "".join(rng.choice("ab.- \t\n\"\\'é\u2028\x7f\x01%$/"[:-1] + "cd") for _ in range(n)).replace("/", "_")


class Pair:
    """Two repositories with the same history"""
    def __init__(self, base, rng):
        self.rng = rng
        self.base = base
        self.dirs = (base + "/sim", base + "/real")
        for d in self.dirs:
            os.makedirs(d)
        self.other = (base + "/simother", base + "/realother")
        self.git = simgit.SimGit(lambda *a: None, lambda url: self.remote(url))
        self.blobs, self.trees = [], [simgit.EMPTY_TREE]
        self.compared = 0
        self.prefix = []
        self.unknown = 0
        self.damaged = False
        self.counts = {}

    @staticmethod
    def remote(url):
        url = url[7:] if url.startswith("file://") else url
        path = url + "/.git" if os.path.isdir(url + "/.git") else url
        if not os.path.isdir(path):
            raise simgit.GitFatal(f"'{url}' does not appear to be a git repository")
        return path

    def both(self, args, stdin=None, compare_out=True, rename=True):
        """args with {d}: own directory, {o}: the other one"""
        outs = []
        for k, d in enumerate(self.dirs):
            argv = [a.replace("{d}", d).replace("{o}", self.other[k]) for a in args]
            data = stdin.replace(b"{d}", d.encode()) if stdin is not None else None
            if k == 0:
                try:
                    r = self.git.run(argv, data, "/", dict(ENV))
                except simgit.Fallback:
                    self.unknown += 1
                    rc, out, err = real(argv, data, "/")
                else:
                    rc, out, err = r.returncode, r.stdout, r.stderr
            else:
                rc, out, err = real(argv, data, "/")
            outs.append((rc, out.replace(d.encode(), b"{d}").replace(self.other[k].encode(), b"{o}"), err))
        (rc0, out0, err0), (rc1, out1, err1) = outs
        self.compared += 1
        command = next(a for a in args[1:] if a[0] not in "-{" and not a.startswith("core."))
        self.counts[command] = self.counts.get(command, 0) + 1
        if "fetch" in args or self.git.corrupt and command in ("show", "cat-file", "ls-tree"):
            rc0, rc1 = bool(rc0), bool(rc1)     # it has many codes
        if rc0 != rc1 or (compare_out and out0 != out1 and not (rc0 and self.damaged)):
            raise AssertionError(f"{args}\nstdin {stdin!r}\nemulation: {rc0} {out0!r} {err0!r}\n"
                                 f"real git:  {rc1} {out1!r} {err1!r}")
        return rc1, out1

    def cmd(self, command, *args, stdin=None):
        prefix, self.prefix = self.prefix, []
        return self.both(["git", "-P", "--git-dir", "{d}/.git"] + prefix + [command] + list(args), stdin)

    def refs(self, dirs=None):
        a, b = dirs or self.dirs
        ra = self.git.repo(a + "/.git").refs()
        _, out, _ = real(["git", "--git-dir", b + "/.git", "for-each-ref", "--format=%(objectname) %(refname)"],
                         None, "/")
        rb = dict(reversed(line.split(" ")) for line in out.decode().splitlines())
        assert ra == rb, (ra, rb)
        return ra

    def some(self):
        r = self.rng
        kind = r.random()
        if kind < .4 and self.blobs:
            return r.choice(self.blobs)
        if kind < .8:
            return r.choice(self.trees)
        if kind < .9:
            return "%040x" % r.getrandbits(160)
        if kind < .95:
            return self.refname()
        return r.choice(["refs/none", "nonsense", "0" * 40])

    def refname(self):
        r = self.rng
        return "refs/" + r.choice(["datalad/dataset-tree-version-list", "datalad/dataset-uuid-set",
                                   "datalad/object-references/tree", "datalad/object-references/blob", "a/b", "a"])

    def step(self):
        r = self.rng
        k = r.choice(["blob", "blob", "files", "tree", "tree", "badtree", "cat", "show", "ls", "update", "update",
                      "old", "delete", "showref", "exists", "fetch", "lsremote", "revparse", "foreach"])
        if k == "blob":
            data = bytes(r.getrandbits(8) for _ in range(r.randint(0, 30)))
            rc, out = self.cmd("hash-object", "-w", "--stdin", stdin=data)
            self.blobs.append(out.decode().strip())
        elif k == "files":
            n = r.randint(0, 4)
            lines = []
            for i in range(n):
                tag = f"f{r.randint(0, 5)} {r.choice(['', 'x', 'é'])}"
                if r.random() < .9:
                    content = bytes(r.getrandbits(8) for _ in range(r.randint(0, 9)))
                    for d in self.dirs:
                        with open(f"{d}/{tag}", "wb") as f:
                            f.write(content)
                lines.append("{d}/" + tag)
            if r.random() < .05:
                lines.append("{d}/missing")
            rc, out = self.cmd("hash-object", "-w", "--no-filters", "--stdin-paths",
                               stdin="".join(x + "\n" for x in lines).encode())
            if rc == 0:
                self.blobs.extend(out.decode().split())
        elif k in ("tree", "badtree"):
            zero = r.random() < .4
            lines, used = [], set()
            for _ in range(r.randint(0, 5)):
                nm = name(r)
                if nm in used or nm in (".", "..", ".git") or "\x00" in nm:
                    continue
                used.add(nm)
                if r.random() < .5 and self.blobs:
                    t, sha = "blob", r.choice(self.blobs)
                else:
                    t, sha = "tree", r.choice(self.trees)
                if k == "badtree" and r.random() < .4:
                    if r.random() < .5:
                        t = "tree" if t == "blob" else "blob"
                    else:
                        sha = "%040x" % r.getrandbits(160)
                raw = nm.encode()
                if not zero:
                    raw = (simgit.quote_c(raw) or nm).encode()
                lines.append(b"%s %s %s\t%s" % (b"100644" if t == "blob" else b"040000", t.encode(), sha.encode(), raw))
            end = b"\x00" if zero else b"\n"
            rc, out = self.cmd("mktree", *(["-z"] if zero else []), *(["--missing"] if k == "badtree" and r.random() < .5 else []),
                               stdin=b"".join(x + end for x in lines))
            if rc == 0 and k == "tree":
                self.trees.append(out.decode().strip())
        elif k == "cat":
            self.prefix = r.choice([[], ["-c", "core.quotepath=false"]])
            self.cmd("cat-file", r.choice(["-p", "-t", "-s", "blob", "tree"]), self.some())
        elif k == "exists":
            self.cmd("cat-file", "-e", self.some())
        elif k == "show":
            self.cmd("show", self.some())
        elif k == "ls":
            self.prefix = r.choice([[], [], ["-c", "core.quotepath=false"], ["-c", "core.quotepath=true"]])
            self.cmd("ls-tree", *r.choice([[], ["-r"], ["-r", "-t"], ["-z"], ["-r", "-t", "-z"], ["--name-only"]]), self.some())
        elif k == "update":
            self.cmd("update-ref", self.refname(), self.some())
        elif k == "old":
            self.cmd("update-ref", self.refname(), self.some(), self.some())
        elif k == "delete":
            self.cmd("update-ref", "-d", self.refname(), *([self.some()] if r.random() < .3 else []))
        elif k == "showref":
            self.cmd("show-ref", *r.choice([[], ["--verify"], ["-q", "--verify"]]), self.refname())
        elif k == "revparse":
            self.cmd("rev-parse", "--verify", *r.choice([[], ["-q"]]), self.some())
        elif k == "foreach":
            self.cmd("for-each-ref", *r.choice([[], ["refs/datalad"], ["refs/datalad/object-references/"]]))
        elif k == "lsremote":
            self.both(["git", "ls-remote", *r.choice([[], ["-q"], ["--exit-code"]]),
                       r.choice(["{d}", "{d}", "{d}-missing"]),
                       *([self.refname()] if r.random() < .7 else [])])
        elif k == "fetch":
            if not os.path.isdir(self.other[0]):
                self.both(["git", "init", "{o}"], compare_out=False)
            spec = r.choice(["", "+"]) + self.refname() + ":" + r.choice(["refs/x/y", self.refname()])
            self.both(["git", "-P", "--git-dir", "{o}/.git", "fetch", *r.choice([[], ["--force"], ["--no-tags"]]),
                       r.choice(["{d}", "file://{d}", "{d}-missing"]), spec], compare_out=False)
            if os.path.isdir(self.other[0]):
                self.refs(self.other)
        self.refs()

    def damaged_step(self):
        """damage something, or execute one of the commands that the package uses"""
        r = self.rng
        k = r.choice(["tear", "drop", "corrupt", "blob", "tree", "show", "cat", "exists", "ls", "update", "delete",
                      "showref", "lsremote"])
        if k == "tear":
            name = self.refname()
            if os.path.isfile(f"{self.dirs[0]}/.git/{name}"):
                content = r.choice(["", "\n", "garbage\n", "1234\n", "0" * 39])
                for d in self.dirs:
                    with open(f"{d}/.git/{name}", "w") as f:
                        f.write(content)
        elif k in ("drop", "corrupt"):
            sha = r.choice(self.blobs + self.trees)
            git_dir = os.path.realpath(self.dirs[0] + "/.git")
            repo = self.git.repo(git_dir)
            if sha == simgit.EMPTY_TREE or not os.path.exists(repo.object_path(sha)):
                return
            path = f"{self.dirs[1]}/.git/objects/{sha[:2]}/{sha[2:]}"
            if k == "drop":
                if (git_dir, sha) not in self.git.corrupt:
                    repo.drop(sha)
                    os.unlink(path)
            else:
                self.git.unreadable.add((git_dir, sha))
                self.git.corrupt.add((git_dir, sha))
                content = r.choice([b"", b"garbage", b"\0" * 50])
                os.chmod(path, 0o600)
                with open(path, "wb") as f:
                    f.write(content)
        elif k == "blob":
            data = bytes([r.getrandbits(2)])
            rc, out = self.cmd("hash-object", "-w", "--stdin", stdin=data)
            self.blobs.append(out.decode().strip())
        elif k == "tree":
            lines = [b"100644 blob %s\tb%d" % (r.choice(self.blobs).encode(), i) for i in range(r.randint(0, 2))] \
                + [b"040000 tree %s\tt" % r.choice(self.trees).encode()]
            rc, out = self.cmd("mktree", "--missing", stdin=b"".join(x + b"\n" for x in lines))
            if rc == 0:
                self.trees.append(out.decode().strip())
        else:
            name = self.refname() if r.random() < .5 else r.choice(self.blobs + self.trees)
            if k == "show":
                self.cmd("show", name)
            elif k == "cat":
                self.cmd("cat-file", "-p", name)
            elif k == "exists":
                self.cmd("cat-file", "-e", name)
            elif k == "ls":
                self.cmd("ls-tree", *r.choice([[], ["-r"], ["-r", "-t"]]), name)
            elif k == "update":
                self.cmd("update-ref", self.refname(), r.choice(self.blobs + self.trees))
            elif k == "delete":
                self.cmd("update-ref", "-d", self.refname())
            elif k == "showref":
                self.cmd("show-ref", "--verify", "--quiet", self.refname())
            else:
                self.both(["git", "ls-remote", "{d}", self.refname()])

    def finish(self):
        objects = []
        for d in self.dirs:
            rc, out, err = real(["git", "--git-dir", d + "/.git", "fsck", "--full", "--no-dangling", "--strict"], None, "/")
            bad = [line for line in (out + err).decode().splitlines()
                   if not re.match(r"(notice|warning|Checking|dangling|unreachable)", line)
                   and "missing" not in line and "broken link" not in line and not line.startswith(" ")
                   and "hasDot" not in line and "zeroPadded" not in line]
            assert not bad, (d, bad)
            _, out, _ = real(["git", "--git-dir", d + "/.git", "cat-file", "--batch-check", "--batch-all-objects"], None, "/")
            objects.append(sorted(out.decode().splitlines()))
        sim_set, real_set = map(set, objects)
        assert sim_set == real_set, (sim_set - real_set, real_set - sim_set)


def test_git(base, n, seed):
    total, unknown, counts = 0, 0, {}
    for k in range(n):
        rng = random.Random(f"{seed}:{k}")
        pair = Pair(f"{base}/g{k}", rng)
        pair.both(["git", "init", "{d}"], compare_out=False)
        try:
            for _ in range(60):
                pair.step()
            pair.finish()
        except AssertionError:
            print("sequence", k)
            raise
        total += pair.compared
        unknown += pair.unknown
        for c, v in pair.counts.items():
            counts[c] = counts.get(c, 0) + v
        shutil.rmtree(pair.base)
    print(f"git: {total} commands in {n} sequences agree ({unknown} of them not emulated): {counts}")


def test_damage(base, n, seed):
    total, counts = 0, {}
    for k in range(n):
        pair = Pair(f"{base}/d{k}", random.Random(f"{seed}:{k}:damage"))
        pair.both(["git", "init", "{d}"], compare_out=False)
        try:
            for i in range(12):
                pair.cmd("update-ref", pair.refname(), pair.cmd("hash-object", "-w", "--stdin",
                                                                stdin=b"%d" % i)[1].decode().strip())
                pair.blobs.append(simgit.obj_hash("blob", b"%d" % i))
            pair.damaged = True     # commands that fail might have printed something before
            for _ in range(80):
                pair.damaged_step()
        except AssertionError:
            print("sequence", k)
            raise
        total += pair.compared
        for c, v in pair.counts.items():
            counts[c] = counts.get(c, 0) + v
        shutil.rmtree(pair.base)
    print(f"damage: {total} commands in {n} sequences agree: {counts}")


def test_stores(base, n, seed):
    code = (
        "import sys, json, os, shutil\n"
        "from dsim import worker, kernel\n"
        "worker.setup()\n"
        "from dsim.profiles import PROFILES\n"
        "base, n, seed = sys.argv[1], int(sys.argv[2]), sys.argv[3]\n"
        "from dsim import engine\n"
        "for pid in ('C01', 'C02', 'C06', 'C08', 'C15', 'C18'):\n"
        "    p = PROFILES[pid]\n"
        "    for i in range(n):\n"
        "        case = p.make(f'{seed}:{pid}:{i}', 'quick', i)\n"
        "        root = f'{base}/{pid}-{i}'\n"
        "        os.makedirs(root)\n"
        "        sim = engine.new_sim(f'{seed}:{pid}:{i}', root, case, None, None)\n"
        "        try:\n"
        "            p.run(sim, case)\n"
        "        except (engine.Violation, kernel.Stuck) as e:\n"
        "            print('VIOLATION', pid, i, e)\n"
        "sys.stdout.flush()\n"
        "os._exit(0)\n")
    env = dict(os.environ, PYTHONPATH=VERIF, PYTHONHASHSEED="1", PYTHONDONTWRITEBYTECODE="1")
    r = subprocess.run([runner.interpreter(), "-c", code, base + "/w", str(n), str(seed)], env=env, cwd=VERIF,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    assert r.returncode == 0 and b"VIOLATION" not in r.stdout, (r.stdout[-2000:], r.stderr[-2000:])
    checked = kept = dropped = 0
    for folder, dirs, _ in os.walk(base + "/w"):
        if ".git" not in dirs:
            continue
        dirs.remove(".git")
        git_dir = folder + "/.git"
        sim = simgit.SimGit(lambda *a: None, lambda url: url)
        rc, out, err = real(["git", "--git-dir", git_dir, "fsck", "--full", "--no-dangling"], None, "/")
        bad = [line for line in (out + err).decode().splitlines()
               if not re.match(r"(notice|warning|Checking|dangling|unreachable)", line)]
        # fetches that were cut leave unreachable trees without their content
        missing = [line for line in bad if "missing" not in line and "broken link" not in line
                   and not line.startswith(" ")]
        assert not missing, (folder, bad)
        copy = base + "/copy"
        shutil.copytree(folder, copy)
        n_dropped, problems = sim.prune(git_dir)
        assert not problems, (folder, problems)
        rc, out, err = real(["git", "--git-dir", copy + "/.git", "gc", "--prune=now", "-q"], None, "/")
        assert rc == 0, err
        _, out, _ = real(["git", "--git-dir", copy + "/.git", "cat-file", "--batch-check=%(objectname)",
                          "--batch-all-objects"], None, "/")
        left = set(out.decode().split())
        mine = set(sim.repo(git_dir).all_objects())
        assert left == mine, (folder, left ^ mine)
        shutil.rmtree(copy)
        checked += 1
        kept += len(mine)
        dropped += n_dropped
    assert checked, "no repositories"
    print(f"stores: {checked} repositories, gc kept {kept} and dropped {dropped} objects in both implementations")


def test_repeat(base, n, seed):
    from dsim import meta
    count = 0
    for pid in sorted(meta.CHECKS):
        seen = []
        for tag, indexes, hashseed in (("a", list(range(n)), 11), ("b", list(range(n)), 4711),
                                       ("c", list(reversed(range(n))), 5)):
            digests = {}

            def on_message(m):
                if "digest" in m:
                    digests[m["run"]] = m["digest"]
            runner.call_worker({"mode": "search", "profile": pid, "indexes": indexes, "seed": int(seed),
                                "tier": "quick", "base": base + "/r", "digests": True}, hashseed, on_message)
            assert len(digests) == n, (pid, len(digests))
            seen.append(digests)
        for other in seen[1:]:
            for i in seen[0]:
                assert seen[0][i] == other[i], f"{pid} run {i}: different traces"
                count += 1
    print(f"repeat: {count} pairs of runs have equal traces")


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument("parts", nargs="*", default=[])
    parser.add_argument("--n", type=int)
    parser.add_argument("--seed", default="1")
    args = parser.parse_args()
    scratch = runner.Scratch("selftest")
    try:
        base = scratch.path + "/t"
        shutil.rmtree(base, ignore_errors=True)
        os.makedirs(base)
        parts = args.parts or ["git", "damage", "stores", "repeat"]
        if "git" in parts:
            test_git(base, args.n or 60, args.seed)
        if "damage" in parts:
            test_damage(base, args.n or 40, args.seed)
        if "stores" in parts:
            test_stores(base, args.n or 12, args.seed)
        if "repeat" in parts:
            test_repeat(base, args.n or 14, args.seed)
    finally:
        scratch.remove()


if __name__ == "__main__":
    main()
