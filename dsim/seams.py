"""
The seams: standard-library entry points through which the package under test
reaches processes, locks, clocks and files. Each is replaced once per worker by a
dispatcher, which simulates when it is called from a simulated process and
passes through to the real thing otherwise.

No change of the package is necessary: it uses subprocess, fasteners (whose real
code runs on top of the simulated fcntl, files and sleep), tempfile, time, open.
"""
import builtins
import errno
import fcntl
import io
import itertools
import os
import shlex
import signal
import subprocess
import sys
import tempfile
import threading
import time

from .kernel import Sim, SimKilled, SimAbort, current_task, os_error
from .simgit import Fallback, GitFatal, GitKilled, Result, SimGit

real = {}


# ---------------------------------------------------------------------------
# processes
def _command_name(argv) -> str:
    skip = False
    for a in argv[1:]:
        if skip:
            skip = False
        elif a in ("--git-dir", "-C", "-c", "--work-tree"):
            skip = True
        elif not a.startswith("-"):
            return a
    return "?"


class _Spec:
    __slots__ = ("argv", "cwd", "env")

    def __init__(self, argv, cwd, env):
        self.argv, self.cwd, self.env = argv, cwd, env


def _is_git(word: str) -> bool:
    return os.path.basename(os.fspath(word)) == "git"


def _parse_shell(command: str):
    """A pipeline of git commands, or None"""
    lexer = shlex.shlex(command, posix=True, punctuation_chars="|&;<>()")
    lexer.whitespace_split = True
    try:
        words = list(lexer)
    except ValueError:
        return None
    commands = [[]]
    pipefail = False
    for word in words:
        if word == "|":
            commands.append([])
        elif word and set(word) <= set("|&;<>()"):
            if word == ";" and commands == [["set", "-o", "pipefail"]]:
                pipefail = True
                commands = [[]]
                continue
            return None
        else:
            commands[-1].append(word)
    if any(not c or not _is_git(c[0]) for c in commands):
        return None
    if any(ch in command for ch in "$`*?~"):
        return None
    return commands, pipefail


def exit_code(name: str, fault) -> int:
    """of a failed command; where 1 is an answer ("no such object"), it is not a failure"""
    code = fault.get("arg", 128)
    if code == 1 and name not in ("hash-object", "mktree", "update-ref", "fetch", "show", "ls-tree", "init"):
        return 128
    return code


def run_git(sim: Sim, argv, stdin, cwd, env) -> Result:
    """One simulated git process, with its events"""
    git = sim.git
    name = _command_name(argv)
    detail = " ".join(str(a) for a in argv[1:])
    if len(detail) > 300:
        detail = detail[:300]
    # a crash of the caller at this point happens before the child exists
    fault = sim.event(f"git.{name}.start", detail)
    mode = {"kill_now": False, "child_finishes": False}
    if fault:
        kind = fault["kind"]
        if kind == "spawn":
            raise os_error(fault.get("arg", errno.EAGAIN), "git")
        if kind == "fail":
            return Result(exit_code(name, fault), b"", b"fatal: simulated failure\n")
        if kind == "kill":
            return Result(-signal.SIGKILL)
        if kind == "interrupt":
            raise KeyboardInterrupt()
        if kind == "crash-child":
            mode["child_finishes"] = True

    def step(what: str, where: str):
        if mode["child_finishes"]:
            return
        f = sim.event(f"git.{name}.write.{what}", where)
        if not f:
            return
        k = f["kind"]
        if k in ("fail", "enospc", "netfail", "netcut"):
            raise GitFatal({"enospc": "No space left on device",
                            "netfail": "unable to access remote",
                            "netcut": "early EOF"}.get(k, "simulated write failure"))
        if k == "kill":
            raise GitKilled(-signal.SIGKILL)
        if k == "interrupt":
            raise KeyboardInterrupt()
        if k == "crash-child":
            mode["child_finishes"] = True

    task = current_task()
    outer = task.git_step if task else None
    if task:
        task.git_step = step
    try:
        result = git.run(argv, stdin, cwd, env)
    except Fallback as e:
        sim.fallbacks += 1
        sim.log(f"  real git: {e}")
        completed = real_git(argv, stdin, cwd, env)
        git.object_caches.clear()
        result = Result(completed[0], completed[1], completed[2])
    finally:
        if task:
            task.git_step = outer
    if mode["child_finishes"]:
        sim.kill(task.proc)
        raise SimKilled()
    fault = sim.event(f"git.{name}.end", str(result.returncode))
    if fault:
        kind = fault["kind"]
        if kind in ("lostack", "kill"):
            return Result(-signal.SIGKILL, result.stdout[:len(result.stdout) // 2], b"")
        if kind == "fail":
            return Result(exit_code(name, fault), b"", b"fatal: simulated late failure\n")
        if kind == "interrupt":
            raise KeyboardInterrupt()
    return result


def real_git(argv, stdin, cwd, env):
    process = real["Popen"](argv, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                            stderr=subprocess.PIPE, cwd=cwd, env=env)
    out, err = process.communicate(stdin or b"")
    return process.returncode, out, err


class _ProcessStdin(io.BytesIO):
    def __init__(self, owner):
        super().__init__()
        self.owner = owner

    def close(self):
        if not self.closed:
            data = self.getvalue()
            super().close()
            self.owner._provide(data)


class SimPopen:
    """Stands in for subprocess.Popen when the command consists of git commands"""

    def __init__(self, sim, commands, pipefail, args, kw):
        self.sim = sim
        self.args = args
        self.returncode = None
        self.pid = 4242
        self._commands = commands
        self._pipefail = pipefail
        self._cwd = os.fspath(kw.get("cwd") or os.getcwd())
        env = kw.get("env")
        self._env = dict(env) if env is not None else os.environ
        self._text = bool(kw.get("text") or kw.get("universal_newlines")
                          or kw.get("encoding") or kw.get("errors"))
        self.text_mode = self._text
        self.encoding = kw.get("encoding")
        self._encoding = kw.get("encoding") or "utf-8"
        self._errors = kw.get("errors") or "strict"
        self._stdout_to = kw.get("stdout")
        self._stderr_to = kw.get("stderr")
        self._result = None
        self._done = False
        self.stdin = self.stdout = self.stderr = None
        stdin = kw.get("stdin")
        if stdin == subprocess.PIPE:
            raw = _ProcessStdin(self)
            self.stdin = io.TextIOWrapper(raw, self._encoding, self._errors) if self._text else raw
            self._pending_start = True
        else:
            data = b""
            if stdin is not None and stdin != subprocess.DEVNULL:
                data = stdin.read() if hasattr(stdin, "read") else b""
                if isinstance(data, str):
                    data = data.encode()
            self._provide(data)

    # -- execution
    def _provide(self, data: bytes):
        if self._done:
            return
        self._done = True
        code = 0
        out = data
        err = b""
        worst = 0
        for argv in self._commands:
            result = run_git(self.sim, argv, out, self._cwd, self._env)
            out, code = result.stdout, result.returncode
            err += result.stderr
            worst = code or worst
        if self._pipefail:
            code = worst
        if isinstance(self.args, (str, bytes)) and code < 0:
            code = 128 - code       # as reported by the shell
        if self._stderr_to == subprocess.STDOUT:
            out, err = out + err, b""
        self._result = (out, err)
        self.returncode = code
        self._emit(out, self._stdout_to, "stdout")
        self._emit(err, self._stderr_to, "stderr")

    def _emit(self, data: bytes, target, name: str):
        if target == subprocess.PIPE:
            raw = io.BytesIO(data)
            setattr(self, name,
                    io.TextIOWrapper(raw, self._encoding, self._errors) if self._text else raw)
        elif target is None or target in (subprocess.DEVNULL, subprocess.STDOUT):
            pass
        elif isinstance(target, int):
            os.write(target, data)
        else:
            fd = target.fileno()
            while data:
                n = os.write(fd, data)
                data = data[n:]

    # -- interface
    def communicate(self, input=None, timeout=None):
        if not self._done:
            if isinstance(input, str):
                input = input.encode(self._encoding, self._errors)
            if self.stdin is not None:
                if self._text:
                    self.stdin.flush()
                raw = self.stdin.buffer if self._text else self.stdin
                data = raw.getvalue() + (bytes(input) if input else b"")
            else:
                data = b""
            self._provide(data)
        out = self.stdout.read() if self.stdout is not None else None
        err = self.stderr.read() if self.stderr is not None else None
        return out, err

    def poll(self):
        return self.returncode

    def wait(self, timeout=None):
        if not self._done:
            if self.stdin is not None and not self.stdin.closed:
                self.stdin.close()
            if not self._done:
                self._provide(b"")
        return self.returncode

    def kill(self):
        if not self._done:
            self._done = True
            self.returncode = -signal.SIGKILL

    terminate = kill

    def send_signal(self, number):
        self.kill()

    def __enter__(self):
        return self

    def __exit__(self, exc_type, value, traceback):
        if self.stdin is not None and exc_type is None and not self._done:
            self.stdin.close()
        if exc_type is not None:
            self._done = True
        return False


# the simulation whose harness code may run at present
oracle_sim = None


class PopenDispatcher(subprocess.Popen):
    def __new__(cls, args, *pos, **kw):
        task = current_task()
        if task is None or task.sim.quiet:
            # the harness itself: the oracle reads through the emulation, but
            # without events, or through the real git
            sim = oracle_sim
            if sim is None or not sim.quiet or sim.oracle_uses_real_git:
                return real["Popen"](args, *pos, **kw)
        else:
            if task.proc.dead:
                raise SimKilled()
            sim = task.sim
        if pos:
            names = ("bufsize", "executable", "stdin", "stdout", "stderr", "preexec_fn",
                     "close_fds", "shell", "cwd", "env", "universal_newlines")
            kw = {**dict(zip(names, pos)), **kw}
        if kw.get("shell"):
            command = args if isinstance(args, str) else args[0]
            parsed = _parse_shell(command)
            if parsed is not None:
                return SimPopen(sim, parsed[0], parsed[1], args, kw)
        else:
            argv = shlex.split(args) if isinstance(args, str) else [os.fspath(a) for a in args]
            if argv and _is_git(argv[0]):
                return SimPopen(sim, [argv], False, args, kw)
        sim.fallbacks += 1
        sim.event("process.start", str(args)[:100])
        if sim.git is not None:
            sim.git.object_caches.clear()
        return real["Popen"](args, **kw)


# ---------------------------------------------------------------------------
# clocks
def _time():
    task = current_task()
    return real["time"]() if task is None else task.sim.now(task.proc)


def _time_ns():
    task = current_task()
    return real["time_ns"]() if task is None else int(task.sim.now(task.proc) * 1e9)


def _monotonic():
    task = current_task()
    return real["monotonic"]() if task is None else task.sim.clock


def _monotonic_ns():
    task = current_task()
    return real["monotonic_ns"]() if task is None else int(task.sim.clock * 1e9)


def _sleep(duration):
    task = current_task()
    if task is None or task.sim.quiet:
        return real["sleep"](duration)
    task.sim.sleep(float(duration))


# ---------------------------------------------------------------------------
# files
def _inside(sim: Sim, path) -> bool:
    try:
        p = os.fspath(path)
    except TypeError:
        return False
    if isinstance(p, bytes):
        p = p.decode("utf-8", "surrogateescape")
    return os.path.abspath(p).startswith(sim.root)


class SimFile:
    """A file of a simulated process: writes may fail, close releases locks"""

    def __init__(self, sim, proc, file, path, writing):
        self.__dict__.update(_sim=sim, _proc=proc, _file=file, _path=path, _writing=writing)
        self.__dict__["_inode"] = os.fstat(file.fileno()).st_ino

    def __getattr__(self, name):
        return getattr(self._file, name)

    def __setattr__(self, name, value):
        setattr(self._file, name, value)

    def __iter__(self):
        return iter(self._file)

    def __next__(self):
        return next(self._file)

    def write(self, data):
        if self._proc.dead:
            raise SimKilled()
        fault = self._sim.event("fs.write", _show(self._sim, self._path))
        if fault:
            if fault["kind"] in ("enospc", "fail"):
                self._file.write(data[:len(data) // 2])
                self._file.flush()
                raise os_error(errno.ENOSPC if fault["kind"] == "enospc" else errno.EIO, str(self._path))
        return self._file.write(data)

    def writelines(self, lines):
        for line in lines:
            self.write(line)

    def close(self):
        if not self._file.closed:
            self._file.close()
            _drop_lock(self._sim, self._proc, self._inode)

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self.close()
        return False

    def __del__(self):
        try:
            self.close()
        except BaseException:
            pass


def _show(sim, path) -> str:
    return str(path)


def _open(file, mode="r", *args, **kw):
    task = current_task()
    if task is None or task.sim.quiet or isinstance(file, int) or not _inside(task.sim, file):
        return real["open"](file, mode, *args, **kw)
    sim = task.sim
    if task.proc.dead:
        raise SimKilled()
    writing = any(c in mode for c in "wax+")
    if writing:
        fault = sim.event("fs.open", os.fspath(file))
        if fault and fault["kind"] in ("enospc", "fail"):
            raise os_error(errno.ENOSPC if fault["kind"] == "enospc" else errno.EMFILE, os.fspath(file))
    f = real["open"](file, mode, *args, **kw)
    return SimFile(sim, task.proc, f, file, writing)


def _fs_function(name, number_of_paths=1):
    original = real[name] = getattr(os, name)

    def replacement(*args, **kw):
        task = current_task()
        if task is None or task.sim.quiet:
            return original(*args, **kw)
        sim = task.sim
        if task.proc.dead:
            raise SimKilled()
        if kw.get("dir_fd") is None and not (args and _inside(sim, args[0])):
            return original(*args, **kw)
        fault = sim.event(f"fs.{name}", " ".join(str(a) for a in args[:number_of_paths]))
        if fault and fault["kind"] in ("enospc", "fail"):
            code = errno.ENOSPC if fault["kind"] == "enospc" and name in ("mkdir", "rename", "replace") \
                else errno.EACCES
            raise os_error(code, str(args[0]))
        return original(*args, **kw)

    replacement.__name__ = name
    setattr(os, name, replacement)
    return replacement


# ---------------------------------------------------------------------------
# locks: POSIX record locks belong to (process, inode); any close of the inode by
# the process releases them; they vanish with the process.
def _fileno(fd):
    return fd if isinstance(fd, int) else fd.fileno()


def _drop_lock(sim: Sim, proc, inode):
    table = sim.locks.get(inode)
    if table and table.pop(proc.name, None) is not None:
        sim.log(f"{proc.name} closes locked file")


def _conflict(sim: Sim, proc, inode, exclusive) -> bool:
    for owner, mode in sim.locks.get(inode, {}).items():
        if owner != proc.name and (exclusive or mode == "ex"):
            return True
    return False


def _lockf(fd, cmd, length=0, start=0, whence=0):
    task = current_task()
    if task is None or task.sim.quiet:
        return real["lockf"](fd, cmd, length, start, whence)
    sim, proc = task.sim, task.proc
    if proc.dead:
        raise SimKilled()
    inode = os.fstat(_fileno(fd)).st_ino
    if cmd & fcntl.LOCK_UN:
        fault = sim.event("lock.unlock")
        if fault and fault["kind"] == "fail":
            raise os_error(errno.EIO)
        sim.locks.setdefault(inode, {}).pop(proc.name, None)
        return
    exclusive = bool(cmd & fcntl.LOCK_EX)
    fault = sim.event("lock.try")
    if fault and fault["kind"] == "fail":
        raise os_error(errno.ENOLCK)
    if _conflict(sim, proc, inode, exclusive):
        sim.probe("lock-contended")
        if cmd & fcntl.LOCK_NB:
            raise os_error(errno.EAGAIN)
        while _conflict(sim, proc, inode, exclusive):
            sim.block(lambda: not _conflict(sim, proc, inode, exclusive))
    sim.locks.setdefault(inode, {})[proc.name] = "ex" if exclusive else "sh"
    sim.probe("lock-acquired")


def _flock(fd, cmd):
    return _lockf(fd, cmd)


# ---------------------------------------------------------------------------
_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    real.update(Popen=subprocess.Popen, time=time.time, time_ns=time.time_ns,
                monotonic=time.monotonic, monotonic_ns=time.monotonic_ns, sleep=time.sleep,
                open=builtins.open, lockf=fcntl.lockf, flock=fcntl.flock)
    time.time, time.time_ns, time.sleep = _time, _time_ns, _sleep
    time.monotonic, time.monotonic_ns = _monotonic, _monotonic_ns
    fcntl.lockf, fcntl.flock = _lockf, _flock
    # import after the clocks are replaced: fasteners binds sleep and monotonic
    for name in [m for m in sys.modules if m.split(".")[0] == "fasteners"]:
        del sys.modules[name]
    import fasteners  # noqa
    import appdirs    # noqa
    builtins.open = io.open = _open
    for name in ("mkdir", "unlink", "remove", "rmdir"):
        _fs_function(name)
    for name in ("rename", "replace"):
        _fs_function(name, 2)
    subprocess.Popen = PopenDispatcher


class _Names:
    """Deterministic names for temporary files"""
    def __init__(self, sim):
        self.sim = sim

    def __iter__(self):
        return self

    def __next__(self):
        self.sim.names += 1
        task = current_task()
        return f"{task.name if task else 'x'}{self.sim.names:06d}"


def attach(sim: Sim, remote_resolver):
    """Connect the process-wide seams with this run"""
    global oracle_sim
    install()
    oracle_sim = sim
    os.makedirs(sim.tmp_dir, exist_ok=True)
    tempfile.tempdir = sim.tmp_dir
    tempfile._name_sequence = _Names(sim)
    os.environ["XDG_CACHE_HOME"] = sim.root + "/cache"
    os.environ["HOME"] = sim.root + "/home"
    os.environ["GIT_CONFIG_NOSYSTEM"] = "1"
    os.environ["GIT_CONFIG_GLOBAL"] = "/dev/null"
    os.environ["GIT_AUTHOR_NAME"] = os.environ["GIT_COMMITTER_NAME"] = "sim"
    os.environ["GIT_AUTHOR_EMAIL"] = os.environ["GIT_COMMITTER_EMAIL"] = "sim@example.com"
    os.environ["LC_ALL"] = "C.UTF-8"
    def step(kind, detail):
        task = current_task()
        if task is not None and task.git_step is not None and not sim.quiet:
            task.git_step(kind, detail)

    sim.git = SimGit(step, remote_resolver)
    return sim
