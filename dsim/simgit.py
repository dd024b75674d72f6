"""
SimGit: an in-process emulation of the git plumbing commands that the storage
layer uses, working on real repository directories (loose objects, loose refs).

The emulation exists so that one simulated git command costs microseconds and,
above all, so that the simulator owns every instant inside a command: each
durable write is announced through `step()`, where the simulator may fail the
write, kill the command, or kill the process that issued it.

The on-disk format is git's own, therefore
  - commands or options the emulation does not know are handed to the real git
    binary on the very same directory (`Fallback`), and
  - `selftest/` runs the same workloads on the emulation and on real git and
    compares exit codes, output and resulting refs, and runs `git fsck` on the
    repositories which the emulation produced.
"""
import hashlib
import os
import re
import zlib
from typing import Callable, Dict, List, Optional, Tuple

HEX40 = re.compile(r"^[0-9a-f]{40}$")
HEXANY = re.compile(r"^[0-9a-fA-F]{4,40}$")
TRUTH = {"true": True, "yes": True, "on": True, "1": True, "false": False, "no": False, "off": False, "0": False}
BROKEN = "0" * 40
EMPTY_TREE = "4b825dc642cb6eb9a060e54bf8d69288fbee4904"

_real_open = open
_real_mkdir = os.mkdir
_real_makedirs = os.makedirs
_real_replace = os.replace


class Fallback(Exception):
    """The emulation does not implement this invocation."""


class GitFatal(Exception):
    def __init__(self, message: str, code: int = 128):
        self.message = message
        self.code = code


class BrokenRef(GitFatal):
    """the file of a reference has invalid content"""


class GitKilled(Exception):
    """The simulator killed the git command."""
    def __init__(self, code: int):
        self.code = code


def obj_hash(otype: str, data: bytes) -> str:
    return hashlib.sha1(b"%s %d\x00" % (otype.encode(), len(data)) + data).hexdigest()


def quote_c(raw: bytes, high: bool = True) -> Optional[str]:
    """git's C-style quoting, `high` is core.quotepath; None if not needed"""
    out = []
    needed = False
    for b in raw:
        c = None
        if b == 0x22:
            c = '\\"'
        elif b == 0x5c:
            c = "\\\\"
        elif b < 0x20 or b == 0x7f or b > 0x7f and high:
            c = {7: "\\a", 8: "\\b", 9: "\\t", 10: "\\n", 11: "\\v", 12: "\\f",
                 13: "\\r"}.get(b) or "\\%03o" % b
        if c is None:
            out.append(chr(b))
        else:
            needed = True
            out.append(c)
    return '"' + "".join(out) + '"' if needed else None      # one character per byte


def unquote_c(raw: bytes) -> bytes:
    assert raw[:1] == b'"'
    out = bytearray()
    i = 1
    simple = {ord("a"): 7, ord("b"): 8, ord("f"): 12, ord("n"): 10, ord("r"): 13,
              ord("t"): 9, ord("v"): 11, 0x22: 0x22, 0x5c: 0x5c}
    while True:
        if i >= len(raw):
            raise GitFatal("invalid quoting")
        b = raw[i]
        i += 1
        if b == 0x22:
            if i != len(raw):
                raise GitFatal("invalid quoting")
            return bytes(out)
        if b != 0x5c:
            out.append(b)
            continue
        if i >= len(raw):
            raise GitFatal("invalid quoting")
        e = raw[i]
        i += 1
        if e in simple:
            out.append(simple[e])
        elif 0x30 <= e <= 0x33 and len(raw) >= i + 2:
            try:
                out.append(int(raw[i - 1:i + 2], 8))
            except ValueError:
                raise GitFatal("invalid quoting")
            i += 2
        else:
            raise GitFatal("invalid quoting")


def parse_tree(data: bytes) -> List[Tuple[int, bytes, str]]:
    result = []
    pos = 0
    while pos < len(data):
        nul = data.index(b"\x00", pos)
        mode, name = data[pos:nul].split(b" ", 1)
        result.append((int(mode, 8), name, data[nul + 1:nul + 21].hex()))
        pos = nul + 21
    return result


def mode_type(mode: int) -> str:
    kind = mode & 0o170000
    if kind == 0o040000:
        return "tree"
    if kind == 0o160000:
        return "commit"
    return "blob"


class Result:
    __slots__ = ("returncode", "stdout", "stderr")

    def __init__(self, returncode: int, stdout: bytes = b"", stderr: bytes = b""):
        self.returncode = returncode
        self.stdout = stdout
        self.stderr = stderr


class Repo:
    """Access to one repository directory (the git dir)"""

    def __init__(self, git: "SimGit", git_dir: str):
        self.git = git
        self.dir = git_dir
        self.cache: Dict[str, Tuple[str, bytes]] = git.object_caches.setdefault(git_dir, {})

    # -- objects ---------------------------------------------------------
    def object_path(self, sha: str) -> str:
        return f"{self.dir}/objects/{sha[:2]}/{sha[2:]}"

    def exists(self, sha: str) -> bool:
        if (self.dir, sha) in self.git.unreadable:
            self.git.denied += 1
            return (self.dir, sha) in self.git.corrupt
        if sha == EMPTY_TREE or sha in self.cache:
            return True
        return self.read(sha) is not None

    def read(self, sha: str) -> Optional[Tuple[str, bytes]]:
        if (self.dir, sha) in self.git.unreadable:
            self.git.denied += 1
            return None
        if sha in self.git.foreign:
            self.git.denied += 1
        entry = self.cache.get(sha)
        if entry is not None:
            return entry
        try:
            with _real_open(self.object_path(sha), "rb") as f:
                raw = zlib.decompress(f.read())
        except FileNotFoundError:
            if sha == EMPTY_TREE:
                return "tree", b""
            if os.path.isdir(self.dir + "/objects/pack") and os.listdir(self.dir + "/objects/pack"):
                raise Fallback("packed objects")
            return None
        except zlib.error:
            return None
        header, data = raw.split(b"\x00", 1)
        entry = (header.split(b" ")[0].decode(), data)
        self.cache[sha] = entry
        return entry

    def need(self, sha: str, what: str = "") -> Tuple[str, bytes]:
        entry = self.read(sha)
        if entry is None:
            raise GitFatal(f"bad object {what or sha}")
        return entry

    def write(self, otype: str, data: bytes) -> str:
        sha = obj_hash(otype, data)
        if (self.dir, sha) in self.git.corrupt:
            return sha          # git does not look into the files that it has
        if sha in self.cache and (self.dir, sha) not in self.git.unreadable:
            # git skips writing of objects that it already has
            if os.path.exists(self.object_path(sha)):
                return sha
        self.git.step("object", self.dir)
        folder = f"{self.dir}/objects/{sha[:2]}"
        path = f"{folder}/{sha[2:]}"
        if not os.path.exists(path):
            payload = zlib.compress(
                b"%s %d\x00" % (otype.encode(), len(data)) + data, 1)
            try:
                f = _real_open(path + ".tmp", "wb")
            except FileNotFoundError:
                if not os.path.isdir(f"{self.dir}/objects"):
                    raise GitFatal("unable to write loose object")
                _real_mkdir(folder)
                f = _real_open(path + ".tmp", "wb")
            with f:
                f.write(payload)
            _real_replace(path + ".tmp", path)
        self.git.unreadable.discard((self.dir, sha))
        self.cache[sha] = (otype, data)
        self.git.objects_written += 1
        return sha

    def drop(self, sha: str):
        self.cache.pop(sha, None)
        try:
            os.unlink(self.object_path(sha))
        except FileNotFoundError:
            pass

    def all_objects(self) -> List[str]:
        result = []
        base = self.dir + "/objects"
        for d in sorted(os.listdir(base)):
            if len(d) == 2:
                for name in sorted(os.listdir(f"{base}/{d}")):
                    if len(name) == 38:
                        result.append(d + name)
        return result

    # -- refs ------------------------------------------------------------
    def read_ref(self, name: str, depth: int = 0) -> Optional[str]:
        if (self.dir, name) in self.git.broken_refs:
            self.git.denied += 1
            raise BrokenRef(f"ambiguous argument '{name}': unknown revision")
        try:
            with _real_open(f"{self.dir}/{name}", "r") as f:
                content = f.read().strip()
        except (FileNotFoundError, IsADirectoryError, NotADirectoryError):
            return self._packed_ref(name)
        if content.startswith("ref: "):
            if depth > 5:
                return None
            return self.read_ref(content[5:].strip(), depth + 1)
        if HEX40.match(content):
            return content
        raise BrokenRef(f"ambiguous argument '{name}': unknown revision")

    def _packed_ref(self, name: str) -> Optional[str]:
        try:
            with _real_open(f"{self.dir}/packed-refs", "r") as f:
                for line in f:
                    parts = line.split()
                    if len(parts) == 2 and parts[1] == name and HEX40.match(parts[0]):
                        return parts[0]
        except FileNotFoundError:
            pass
        return None

    def refs(self, broken: bool = False) -> Dict[str, str]:
        result = {}
        try:
            with _real_open(f"{self.dir}/packed-refs", "r") as f:
                for line in f:
                    parts = line.split()
                    if len(parts) == 2 and HEX40.match(parts[0]):
                        result[parts[1]] = parts[0]
        except FileNotFoundError:
            pass
        for base, _, files in os.walk(self.dir + "/refs"):
            for name in files:
                if name.endswith(".lock"):
                    continue
                ref = os.path.relpath(os.path.join(base, name), self.dir)
                try:
                    value = self.read_ref(ref)
                except BrokenRef:
                    # git ignores them (and issues a warning)
                    value = BROKEN if broken else None
                    if not broken:
                        result.pop(ref, None)
                if value:
                    result[ref] = value
        return dict(sorted(result.items()))

    def dangling(self, name: str) -> Optional[str]:
        try:
            return self.read_ref(name)
        except BrokenRef:
            return None

    def write_ref(self, name: str, value: Optional[str], check: Optional[Callable] = None):
        path = f"{self.dir}/{name}"
        lock = path + ".lock"
        self.git.step("ref", name)
        if os.path.exists(lock):
            raise GitFatal(
                f"update_ref failed for ref '{name}': cannot lock ref '{name}': "
                f"Unable to create '{lock}': File exists.")
        try:
            if os.path.isfile(path):
                self.read_ref(name)
        except BrokenRef:
            raise GitFatal(f"update_ref failed for ref '{name}': cannot lock ref '{name}': unable to resolve "
                           f"reference '{name}': reference broken")
        # git verifies the old value while it holds the lock of the reference
        if check is not None:
            check()
        if os.path.isdir(path):
            # leftovers of removed references
            for base, _, files in os.walk(path, topdown=False):
                if files:
                    raise GitFatal(f"update_ref failed for ref '{name}': cannot lock ref '{name}'")
                os.rmdir(base)
        if value is None:
            if self._packed_ref(name) is not None:
                raise Fallback("delete packed ref")
            try:
                os.unlink(path)
            except FileNotFoundError:
                pass
            parent = os.path.dirname(path)
            while parent != self.dir + "/refs" and parent.startswith(self.dir + "/refs/"):
                try:
                    os.rmdir(parent)
                except OSError:
                    break
                parent = os.path.dirname(parent)
            return
        _real_makedirs(os.path.dirname(path), exist_ok=True)
        with _real_open(path + ".new", "w") as f:
            f.write(value + "\n")
        _real_replace(path + ".new", path)
        self.git.refs_written += 1

    # -- names -----------------------------------------------------------
    def resolve(self, name: str) -> Optional[str]:
        if HEX40.match(name):
            return name
        if any(c in name for c in "^~:@{}"):
            raise Fallback(f"revision syntax {name}")
        for pattern in ("{}", "refs/{}", "refs/tags/{}", "refs/heads/{}",
                        "refs/remotes/{}", "refs/remotes/{}/HEAD"):
            candidate = pattern.format(name)
            if candidate.startswith("refs/") or candidate in ("HEAD", "FETCH_HEAD"):
                value = self.read_ref(candidate)
                if value is not None:
                    return value
        if HEXANY.match(name):
            raise Fallback("abbreviated object name")
        return None

    def closure(self, sha: str, have: Optional["Repo"] = None) -> List[str]:
        """All objects reachable from sha; missing objects raise GitFatal"""
        result = []
        seen = set()
        stack = [sha]
        while stack:
            current = stack.pop()
            if current in seen:
                continue
            seen.add(current)
            entry = self.read(current)
            if entry is None:
                raise GitFatal(f"missing object {current}")
            result.append(current)
            if entry[0] == "tree":
                for mode, _, child in parse_tree(entry[1]):
                    if mode_type(mode) != "commit":
                        stack.append(child)
            elif entry[0] == "commit":
                for line in entry[1].split(b"\n"):
                    if line.startswith(b"tree ") or line.startswith(b"parent "):
                        stack.append(line.split(b" ")[1].decode())
                    elif line == b"":
                        break
            elif entry[0] == "tag":
                stack.append(entry[1].split(b"\n")[0].split(b" ")[1].decode())
        return result


class SimGit:
    """
    step(kind, detail): called before every durable effect.
    remote_resolver(url): git dir of a served remote, or raises GitFatal.
    """
    def __init__(self,
                 step: Callable[[str, str], None],
                 remote_resolver: Callable[[str], str]):
        self.step = step
        self.remote_resolver = remote_resolver
        self.object_caches: Dict[str, Dict[str, Tuple[str, bytes]]] = {}
        # objects that can not be read: they are missing, or have a file with
        # invalid content
        self.unreadable = set()
        self.corrupt = set()
        self.broken_refs = set()
        self.foreign = set()        # objects of another version of the model
        self.denied = 0             # how often somebody needed something of that
        self.objects_written = 0
        self.refs_written = 0
        self.reads: List[Tuple[str, str]] = []
        self.config: Dict[str, Dict[str, str]] = {}     # per git dir, keys in lower case
        self.quotepath = True                           # of the current command

    def damaged(self) -> bool:
        return bool(self.unreadable or self.corrupt or self.broken_refs or self.foreign)

    def mend(self):
        for damage in (self.unreadable, self.corrupt, self.broken_refs):
            damage.clear()

    # ---------------------------------------------------------------------
    def repo(self, git_dir: str) -> Repo:
        return Repo(self, os.path.realpath(git_dir))

    def run(self, argv: List[str], stdin: Optional[bytes], cwd: str, env: dict) -> Result:
        """Execute a git command line. Raises Fallback if it can not do it."""
        args = list(argv[1:])
        git_dir = env.get("GIT_DIR")
        directory = cwd
        quotepath = None
        while args and args[0].startswith("-"):
            a = args.pop(0)
            if a in ("-P", "--no-pager", "--literal-pathspecs", "--no-replace-objects",
                     "--no-optional-locks"):
                continue
            if a == "--git-dir":
                git_dir = args.pop(0)
            elif a.startswith("--git-dir="):
                git_dir = a.split("=", 1)[1]
            elif a == "-C":
                directory = os.path.join(directory, args.pop(0))
            elif a == "--version":
                raise Fallback("--version")
            elif a == "-c":
                setting = args.pop(0)
                key, _, value = setting.partition("=")
                if key.lower() == "core.quotepath" and value.lower() in TRUTH:
                    quotepath = TRUTH[value.lower()]
                    continue
                if setting.split("=")[0].lower() not in (
                        "core.fsync", "core.fsyncmethod", "gc.auto", "core.fsyncobjectfiles"):
                    raise Fallback(f"-c {setting}")
            else:
                raise Fallback(f"global option {a}")
        if not args:
            raise Fallback("no command")
        command = args.pop(0)
        handler = getattr(self, "cmd_" + command.replace("-", "_"), None)
        if handler is None:
            raise Fallback(f"command {command}")
        try:
            if command in ("init", "ls_remote", "ls-remote"):
                return handler(directory, args)
            repo = self._open(git_dir, directory)
            if quotepath is None:
                quotepath = TRUTH[self.config.get(repo.dir, {}).get("core.quotepath", "true")]
            self.quotepath = quotepath
            return handler(repo, args, stdin, directory)
        except GitFatal as e:
            return Result(e.code, b"", f"fatal: {e.message}\n".encode() if e.message else b"")
        except GitKilled as e:
            return Result(e.code, b"", b"")
        except OSError as e:
            return Result(128, b"", f"fatal: {e}\n".encode())

    def _open(self, git_dir: Optional[str], directory: str) -> Repo:
        if git_dir is None:
            current = os.path.realpath(directory)
            while True:
                for candidate in (current + "/.git", current):
                    if self._is_git_dir(candidate):
                        return self.repo(candidate)
                parent = os.path.dirname(current)
                if parent == current:
                    raise GitFatal("not a git repository (or any of the parent directories): .git")
                current = parent
        path = os.path.join(directory, git_dir)
        if os.path.isfile(path):
            with _real_open(path) as f:
                content = f.read().strip()
            if content.startswith("gitdir: "):
                path = os.path.join(os.path.dirname(path), content[8:])
        if not self._is_git_dir(path):
            raise GitFatal(f"not a git repository: '{git_dir}'")
        return self.repo(path)

    @staticmethod
    def _is_git_dir(path: str) -> bool:
        return (os.path.isfile(path + "/HEAD") and os.path.isdir(path + "/objects")
                and os.path.isdir(path + "/refs"))

    def _read_obj(self, repo: Repo, name: str, sha: str) -> Tuple[str, bytes]:
        self.reads.append((repo.dir, sha))
        return repo.need(sha, name)

    # -- commands ----------------------------------------------------------
    def cmd_init(self, directory: str, args: List[str]) -> Result:
        paths = [a for a in args if not a.startswith("-")]
        flags = [a for a in args if a.startswith("-")]
        if any(f not in ("-q", "--quiet") for f in flags) or len(paths) > 1:
            raise Fallback("init options")
        root = os.path.join(directory, paths[0] if paths else ".")
        # the order is the one of git: directory, git dir, HEAD and refs, config,
        # objects; a kill in between leaves a directory that is no repository
        git_dir = root + "/.git"
        existing = self._is_git_dir(git_dir)
        self.step("initdir", root)
        _real_makedirs(root, exist_ok=True)
        self.step("initgitdir", root)
        _real_makedirs(git_dir + "/refs/heads", exist_ok=True)
        _real_makedirs(git_dir + "/refs/tags", exist_ok=True)
        if not os.path.exists(git_dir + "/HEAD"):
            self.step("inithead", root)
            with _real_open(git_dir + "/HEAD", "w") as f:
                f.write("ref: refs/heads/main\n")
        if not os.path.exists(git_dir + "/config"):
            with _real_open(git_dir + "/config", "w") as f:
                f.write("[core]\n\trepositoryformatversion = 0\n\tfilemode = true\n"
                        "\tbare = false\n\tlogallrefupdates = true\n")
        self.step("initobjects", root)
        _real_makedirs(git_dir + "/objects/info", exist_ok=True)
        _real_makedirs(git_dir + "/objects/pack", exist_ok=True)
        word = "Reinitialized existing" if existing else "Initialized empty"
        return Result(0, f"{word} Git repository in {git_dir}/\n".encode())

    def cmd_hash_object(self, repo, args, stdin, cwd) -> Result:
        write = False
        use_stdin = False
        use_paths = False
        otype = "blob"
        files = []
        args = list(args)
        while args:
            a = args.pop(0)
            if a == "-w":
                write = True
            elif a == "--stdin":
                use_stdin = True
            elif a == "--stdin-paths":
                use_paths = True
            elif a == "--no-filters":
                pass
            elif a == "-t":
                otype = args.pop(0)
            elif a == "--":
                files.extend(args)
                args = []
            elif a.startswith("-"):
                raise Fallback(f"hash-object {a}")
            else:
                files.append(a)
        if otype != "blob":
            raise Fallback("hash-object type")
        out = []

        def emit(data: bytes):
            out.append(repo.write("blob", data) if write else obj_hash("blob", data))

        if use_stdin:
            emit(stdin or b"")
        if use_paths:
            lines = (stdin or b"").split(b"\n")
            if lines and lines[-1] == b"":
                lines.pop()
            files = [line.decode("utf-8", "surrogateescape") for line in lines] + files
        for path in files:
            try:
                with _real_open(os.path.join(cwd, path), "rb") as f:
                    data = f.read()
            except OSError as e:
                # what was hashed before was already printed
                return Result(128, "".join(o + "\n" for o in out).encode(),
                              f"fatal: could not open '{path}' for reading: {e.strerror}\n".encode())
            emit(data)
        return Result(0, "".join(o + "\n" for o in out).encode())

    def cmd_mktree(self, repo, args, stdin, cwd) -> Result:
        missing = False
        zero = False
        for a in args:
            if a == "--missing":
                missing = True
            elif a == "-z":
                zero = True
            else:
                raise Fallback(f"mktree {a}")
        sep = b"\x00" if zero else b"\n"
        lines = (stdin or b"").split(sep)
        if lines and lines[-1] == b"":
            lines.pop()
        entries = []
        for line in lines:
            if line == b"":
                raise GitFatal("input format error: (blank line only valid in batch mode)")
            head, tab, name = line.partition(b"\t")
            parts = head.split(b" ")
            if not tab or len(parts) != 3 or not re.match(rb"^[0-7]+$", parts[0]) \
                    or not HEX40.match(parts[2].decode("latin1")):
                raise GitFatal(f"input format error: {line.decode('utf-8', 'replace')}")
            mode = int(parts[0], 8)
            sha = parts[2].decode()
            if not zero and name[:1] == b'"':
                name = unquote_c(name)
            if b"/" in name:
                raise GitFatal(f"path {name.decode('utf-8', 'replace')} contains slash")
            shown = name.decode("utf-8", "replace")
            if mode_type(mode) != parts[1].decode("latin1"):
                raise GitFatal(
                    f"entry '{shown}' object type ({parts[1].decode('latin1')}) doesn't match "
                    f"mode type ({mode_type(mode)})")
            entry = repo.read(sha)
            if entry is None:
                if not missing and mode_type(mode) != "commit":
                    raise GitFatal(f"entry '{shown}' object {sha} is unavailable")
            elif entry[0] != mode_type(mode):
                raise GitFatal(f"entry '{shown}' object {sha} is a {entry[0]} but specified type "
                               f"was ({mode_type(mode)})")
            entries.append((mode, name, sha))
        entries.sort(key=lambda e: e[1] + (b"/" if mode_type(e[0]) == "tree" else b""))
        data = b"".join(b"%o %s\x00" % (mode, name) + bytes.fromhex(sha)
                        for mode, name, sha in entries)
        return Result(0, (repo.write("tree", data) + "\n").encode())

    def _name(self, raw: bytes, zero: bool = False) -> bytes:
        if zero:
            return raw
        q = quote_c(raw, self.quotepath)
        return raw if q is None else q.encode("latin-1")

    def _tree_listing(self, data: bytes) -> bytes:
        return b"".join(
            b"%06o %s %s\t%s\n" % (mode, mode_type(mode).encode(), sha.encode(), self._name(name))
            for mode, name, sha in parse_tree(data))

    def cmd_cat_file(self, repo, args, stdin, cwd) -> Result:
        if len(args) != 2:
            raise Fallback("cat-file args")
        flag, name = args
        if flag not in ("-e", "-p", "-t", "-s", "blob", "tree", "commit"):
            raise Fallback(f"cat-file {flag}")
        sha = repo.resolve(name)
        if sha is None:
            raise GitFatal(f"Not a valid object name {name}")
        self.reads.append((repo.dir, sha))
        if flag == "-e":
            return Result(0 if repo.exists(sha) else 1)
        entry = repo.read(sha)
        if entry is None:
            if flag in ("-t", "-s"):
                raise GitFatal("git cat-file: could not get object info")
            if flag == "-p":
                raise GitFatal(f"Not a valid object name {name}")
            raise GitFatal(f"git cat-file {name}: bad file")
        otype, data = entry
        if flag == "-t":
            return Result(0, otype.encode() + b"\n")
        if flag == "-s":
            return Result(0, b"%d\n" % len(data))
        if flag == "-p":
            return Result(0, self._tree_listing(data) if otype == "tree" else data)
        if otype != flag:
            if otype in ("tag", "commit"):
                raise Fallback("cat-file dereference")
            raise GitFatal(f"git cat-file {name}: bad file")
        return Result(0, data)

    def cmd_show(self, repo, args, stdin, cwd) -> Result:
        names = [a for a in args if not a.startswith("-")]
        if len(names) != 1 or len(args) != 1:
            raise Fallback("show args")
        name = names[0]
        sha = repo.resolve(name)
        if sha is None:
            raise GitFatal(
                f"ambiguous argument '{name}': unknown revision or path not in the working tree.\n"
                "Use '--' to separate paths from revisions, like this:\n"
                "'git <command> [<revision>...] -- [<file>...]'")
        otype, data = self._read_obj(repo, name, sha)
        if otype == "blob":
            return Result(0, data)
        if otype == "tree":
            out = b"tree %s\n\n" % name.encode()
            for mode, entry_name, _ in parse_tree(data):
                out += entry_name + (b"/" if mode_type(mode) == "tree" else b"") + b"\n"
            return Result(0, out)
        raise Fallback("show commit")

    def cmd_ls_tree(self, repo, args, stdin, cwd) -> Result:
        recursive = show_trees = only_trees = zero = name_only = False
        names = []
        for a in args:
            if a == "-r":
                recursive = True
            elif a == "-t":
                show_trees = True
            elif a == "-d":
                only_trees = True
            elif a == "-z":
                zero = True
            elif a in ("--name-only", "--name-status"):
                name_only = True
            elif a in ("--full-tree", "--full-name"):
                pass
            elif a.startswith("-"):
                raise Fallback(f"ls-tree {a}")
            else:
                names.append(a)
        if len(names) != 1:
            raise Fallback("ls-tree paths")
        sha = repo.resolve(names[0])
        if sha is None:
            raise GitFatal(f"Not a valid object name {names[0]}")
        self.reads.append((repo.dir, sha))
        entry = repo.read(sha)
        if entry is not None and entry[0] in ("commit", "tag"):
            raise Fallback("ls-tree commit")
        if entry is None or entry[0] != "tree":
            raise GitFatal("not a tree object")
        out = []
        end = b"\x00" if zero else b"\n"

        def walk(data: bytes, prefix: bytes):
            for mode, name, child in parse_tree(data):
                is_tree = mode_type(mode) == "tree"
                if not (is_tree and recursive and not show_trees) and not (only_trees and not is_tree):
                    full = self._name(prefix + name, zero)
                    if name_only:
                        out.append(full + end)
                    else:
                        out.append(b"%06o %s %s\t%s" % (
                            mode, mode_type(mode).encode(), child.encode(), full) + end)
                if is_tree and recursive:
                    self.reads.append((repo.dir, child))
                    sub = repo.read(child)
                    if sub is None:
                        raise GitFatal("", 1)
                    walk(sub[1], prefix + name + b"/")

        walk(entry[1], b"")
        return Result(0, b"".join(out))

    def cmd_update_ref(self, repo, args, stdin, cwd) -> Result:
        delete = False
        rest = []
        args = list(args)
        while args:
            a = args.pop(0)
            if a == "-d":
                delete = True
            elif a == "--no-deref":
                pass
            elif a == "-m":
                args.pop(0)
            elif a.startswith("-"):
                raise Fallback(f"update-ref {a}")
            else:
                rest.append(a)
        if not rest:
            raise Fallback("update-ref args")
        name = rest[0]
        if not re.match(r"^refs/[A-Za-z0-9._/-]+$", name) or ".." in name or name.endswith(".lock"):
            raise Fallback("ref name")

        def check_old(old: str):
            current = repo.read_ref(name)
            wanted = None if set(old) <= {"0"} else repo.resolve(old)
            if wanted is None and old and not set(old) <= {"0"}:
                raise GitFatal(f"{old}: not a valid SHA1")
            if current != wanted:
                if wanted is None:
                    raise GitFatal(f"update_ref failed for ref '{name}': cannot lock ref '{name}': "
                                   f"reference already exists")
                raise GitFatal(f"update_ref failed for ref '{name}': cannot lock ref '{name}': "
                               f"is at {current} but expected {wanted}")

        if delete:
            if len(rest) > 2:
                raise Fallback("update-ref args")
            old = rest[1] if len(rest) == 2 else ""
            if set(old) == {"0"}:
                old = ""
            if old and repo.resolve(old) is None:
                raise GitFatal(f"{old}: not a valid SHA1")
            try:
                repo.write_ref(name, None, (lambda: check_old(old)) if old else None)
            except (GitFatal, NotADirectoryError, IsADirectoryError) as e:
                return Result(1, b"", f"error: {e}\n".encode())
            return Result(0)
        if len(rest) not in (2, 3):
            raise Fallback("update-ref args")
        sha = repo.resolve(rest[1])
        if sha is None:
            raise GitFatal(f"{rest[1]}: not a valid SHA1")
        if not set(sha) - {"0"}:
            raise Fallback("deletion through update")
        entry = repo.read(sha)
        if entry is None and len(rest) == 2 and repo.dangling(name) == sha:
            return Result(0)        # there is nothing to do
        if entry is None:
            raise GitFatal(
                f"update_ref failed for ref '{name}': cannot update ref '{name}': trying to write "
                f"ref '{name}' with nonexistent object {sha}")
        if name.startswith("refs/heads/") and entry[0] != "commit":
            raise GitFatal(
                f"update_ref failed for ref '{name}': cannot update ref '{name}': trying to write "
                f"non-commit object {sha} to branch '{name}'")
        repo.write_ref(name, sha, (lambda: check_old(rest[2])) if len(rest) == 3 else None)
        return Result(0)

    def cmd_fetch(self, repo, args, stdin, cwd) -> Result:
        rest = []
        for a in args:
            if a in ("-f", "--force", "--no-tags", "-n", "--no-recurse-submodules", "-q", "--quiet",
                     "--no-write-fetch-head", "--recurse-submodules=no", "--no-auto-gc",
                     "--no-auto-maintenance", "--no-progress"):
                continue
            if a.startswith("-"):
                raise Fallback(f"fetch {a}")
            rest.append(a)
        if len(rest) < 2:
            raise Fallback("fetch args")
        url, specs = rest[0], rest[1:]
        force = any(a in ("-f", "--force") for a in args)
        self.step("connect", url)
        source = self.repo(self.remote_resolver(url))
        plan = []
        for spec in specs:
            if spec.startswith("+"):
                spec = spec[1:]
            src, _, dst = spec.partition(":")
            if HEX40.match(src):
                sha = src
                if source.read(sha) is None:
                    raise GitFatal(f"remote error: upload-pack: not our ref {sha}")
            else:
                sha = source.read_ref(src) if src.startswith("refs/") or src == "HEAD" else None
                if sha is None and not src.startswith("refs/"):
                    for pattern in ("refs/{}", "refs/tags/{}", "refs/heads/{}"):
                        sha = source.read_ref(pattern.format(src))
                        if sha is not None:
                            break
                if sha is None:
                    raise GitFatal(f"couldn't find remote ref {src}")
            plan.append((sha, dst))
        for sha, dst in plan:
            try:
                needed = source.closure(sha)
            except GitFatal:
                raise GitFatal("remote error: upload-pack: missing object")
            # unpack-objects stores the objects as they arrive, containers first; an
            # interruption leaves trees without their content behind
            for obj in needed:
                otype, data = source.read(obj)
                repo.write(otype, data)
        for sha, dst in plan:
            if dst:
                name = dst if dst.startswith("refs/") else "refs/heads/" + dst
                repo.write_ref(name, sha)
        with _real_open(repo.dir + "/FETCH_HEAD", "w") as f:
            for sha, dst in plan:
                f.write(f"{sha}\tnot-for-merge\t{url}\n")
        return Result(0, b"", f"From {url}\n".encode())

    def cmd_ls_remote(self, directory: str, args: List[str]) -> Result:
        rest = []
        exit_code = False
        for a in args:
            if a == "--exit-code":
                exit_code = True
            elif a in ("-q", "--quiet", "--refs"):
                pass
            elif a.startswith("-"):
                raise Fallback(f"ls-remote {a}")
            else:
                rest.append(a)
        if not rest or any(c in p for p in rest[1:] for c in "*?["):
            raise Fallback("ls-remote args")
        self.step("connect", rest[0])
        source = self.repo(self.remote_resolver(rest[0]))
        found = [(v, k) for k, v in source.refs(broken=True).items()
                 if not rest[1:] or any(k == p or k.endswith("/" + p) for p in rest[1:])]
        if not found and exit_code:
            return Result(2)
        return Result(0, "".join(f"{v}\t{k}\n" for v, k in found).encode())

    def cmd_rev_parse(self, repo, args, stdin, cwd) -> Result:
        quiet = False
        verify = False
        names = []
        for a in args:
            if a in ("-q", "--quiet"):
                quiet = True
            elif a == "--verify":
                verify = True
            elif a.startswith("-"):
                raise Fallback(f"rev-parse {a}")
            else:
                names.append(a)
        if not verify or len(names) != 1:
            raise Fallback("rev-parse")
        sha = repo.resolve(names[0])
        if sha is None:
            if quiet:
                return Result(1)
            raise GitFatal("Needed a single revision")
        return Result(0, sha.encode() + b"\n")

    def cmd_show_ref(self, repo, args, stdin, cwd) -> Result:
        quiet = verify = False
        names = []
        for a in args:
            if a in ("-q", "--quiet"):
                quiet = True
            elif a == "--verify":
                verify = True
            elif a.startswith("-"):
                raise Fallback(f"show-ref {a}")
            else:
                names.append(a)
        refs = repo.refs()
        if verify:
            if len(names) != 1:
                raise Fallback("show-ref")
            if names[0] not in refs:
                return Result(1 if quiet else 128, b"",
                              b"" if quiet else f"fatal: '{names[0]}' - not a valid ref\n".encode())
            if not repo.exists(refs[names[0]]):
                raise GitFatal(f"git show-ref: bad ref {names[0]} ({refs[names[0]]})")
            found = {names[0]: refs[names[0]]}
        else:
            found = {k: v for k, v in refs.items()
                     if not names or any(k == n or k.endswith("/" + n) for n in names)}
        if not found:
            return Result(1)
        return Result(0, b"" if quiet else "".join(f"{v} {k}\n" for k, v in found.items()).encode())

    def cmd_for_each_ref(self, repo, args, stdin, cwd) -> Result:
        fmt = "%(objectname) %(objecttype)\t%(refname)"
        patterns = []
        for a in args:
            if a.startswith("--format="):
                fmt = a[9:]
            elif a.startswith("-"):
                raise Fallback(f"for-each-ref {a}")
            else:
                patterns.append(a.rstrip("/"))
        if any(c in p for p in patterns for c in "*?["):
            raise Fallback("for-each-ref glob")
        if re.sub(r"%\((objectname|objecttype|refname)\)", "", fmt).count("%"):
            raise Fallback("for-each-ref format")
        out = []
        for name, sha in repo.refs().items():
            if patterns and not any(name == p or name.startswith(p + "/") for p in patterns):
                continue
            entry = repo.read(sha)
            if entry is None:
                raise GitFatal(f"missing object {sha} for {name}")
            out.append(fmt.replace("%(objectname)", sha).replace("%(objecttype)", entry[0])
                       .replace("%(refname)", name) + "\n")
        return Result(0, "".join(out).encode())

    # -- maintenance, used by the harness -----------------------------------
    def prune(self, git_dir: str) -> Tuple[int, List[str]]:
        """
        What `git gc --prune=now` does: delete every object that is not reachable
        from a ref. Returns the number of deleted objects, and the list of problems
        that make the real command fail (objects missing below a ref).
        """
        repo = self.repo(git_dir)
        keep = set()
        problems = []
        for name, sha in repo.refs().items():
            stack = [sha]
            while stack:
                current = stack.pop()
                if current in keep:
                    continue
                keep.add(current)
                entry = repo.read(current)
                if entry is None:
                    problems.append(f"{name}: missing {current}")
                    continue
                if entry[0] == "tree":
                    stack.extend(c for m, _, c in parse_tree(entry[1]) if mode_type(m) != "commit")
                elif entry[0] == "commit":
                    for line in entry[1].split(b"\n"):
                        if line == b"":
                            break
                        if line.startswith(b"tree ") or line.startswith(b"parent "):
                            stack.append(line.split(b" ")[1].decode())
                elif entry[0] == "tag":
                    stack.append(entry[1].split(b"\n")[0].split(b" ")[1].decode())
        dropped = 0
        for sha in repo.all_objects():
            if sha not in keep:
                repo.drop(sha)
                dropped += 1
        return dropped, problems
