"""Process pool for simulated runs.

A zygote is a fresh interpreter with a chosen PYTHONHASHSEED that imports the
code under test once and then forks one child per job, so that every job
starts from the same pristine state and nothing survives it.
"""

import base64
import gc
import importlib
import os
import pickle
import resource
import select
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
# The interpreter that has the optional dependencies (cvc5, pyvcg).
PYTHON = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable


class JobError(Exception):
    """Harness trouble inside a job."""


def _read_exact(fd, n):
    data = b""
    while len(data) < n:
        part = os.read(fd, n - len(data))
        if not part:
            raise EOFError
        data += part
    return data


def send(fd, obj):
    blob = pickle.dumps(obj)
    blob = struct.pack("<I", len(blob)) + blob
    while blob:
        n = os.write(fd, blob)
        blob = blob[n:]


def recv(fd):
    size, = struct.unpack("<I", _read_exact(fd, 4))
    return pickle.loads(_read_exact(fd, size))


class Zygote:
    """Client side."""

    def __init__(self, hashseed):
        env = dict(os.environ)
        env["PYTHONHASHSEED"] = str(hashseed)
        env["PYTHONPATH"] = os.pathsep.join([HERE, REPO, os.path.join(REPO, "tools", "trlc_rst")])
        env["PYTHONDONTWRITEBYTECODE"] = "1"
        env["PYTHONUTF8"] = "1"
        env["LC_ALL"] = "C.UTF-8"
        self.hashseed = hashseed
        self.proc = subprocess.Popen([PYTHON, "-m", "sim.zygote"], env=env, cwd=HERE,
                                     stdin=subprocess.PIPE, stdout=subprocess.PIPE, bufsize=0)

    def call(self, fn, args, timeout=60.0):
        send(self.proc.stdin.fileno(), (fn, args, timeout))
        kind, value = recv(self.proc.stdout.fileno())
        if kind == "ok":
            return value
        if kind == "hang":
            return {"hang": True, "timeout": timeout}
        if kind == "died":
            return {"died": value}
        raise JobError(value)

    def close(self):
        try:
            self.proc.stdin.close()
            self.proc.wait(timeout=5)
        except Exception:  # pylint: disable=broad-except
            self.proc.kill()
            self.proc.wait()


def _record_lines(where):
    """Record the lines of the code under test that any job executes (VERIF_COV=directory)"""
    hits, mon = set(), sys.monitoring
    root = os.path.realpath(REPO) + os.sep

    def line(code, number):
        if code.co_filename.startswith(root):
            hits.add("%s:%d" % (code.co_filename[len(root):], number))
        return mon.DISABLE

    def write():
        with open(os.path.join(where, "%d.lines" % os.getppid()), "a", encoding="UTF-8") as fd:
            fd.write("\n".join(sorted(hits)) + "\n")

    mon.use_tool_id(4, "verif-lines")
    mon.register_callback(4, mon.events.LINE, line)
    mon.set_events(4, mon.events.LINE)
    return write


def _child(wfd, fn, args, scratch):
    try:
        mod, name = fn.split(":")
        fun = getattr(importlib.import_module(mod), name)
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        value = fun(scratch, **args)
        send(wfd, ("ok", value))
    except BaseException:  # pylint: disable=broad-except
        try:
            send(wfd, ("error", traceback.format_exc()))
        except BaseException:  # pylint: disable=broad-except
            pass
    finally:
        if LINES:
            LINES()
        os._exit(0)


LINES = None


def main():
    stdin = os.dup(0)
    stdout = os.dup(1)
    devnull = os.open(os.devnull, os.O_RDWR)
    os.dup2(devnull, 0)
    os.dup2(2, 1)
    # Import the code under test once.
    import trlc.trlc  # noqa
    import trlc.vcg  # noqa
    import sim.jobs  # noqa
    try:
        import bigtree  # noqa
    except ImportError:
        pass
    for mod in os.environ.get("VERIF_PRELOAD", "").split(","):
        if mod:
            importlib.import_module(mod)
    where = os.path.realpath(trlc.trlc.__file__)
    assert where.startswith(os.path.realpath(REPO) + os.sep), where
    sys.setrecursionlimit(1000)
    if os.environ.get("VERIF_COV"):
        global LINES  # pylint: disable=global-statement
        LINES = _record_lines(os.environ["VERIF_COV"])
    base = tempfile.mkdtemp(prefix="trlcsim-", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
    gc.collect()
    gc.freeze()
    try:
        while True:
            try:
                fn, args, timeout = recv(stdin)
            except EOFError:
                break
            scratch = os.path.join(base, "run")
            os.makedirs(scratch, exist_ok=True)
            rfd, wfd = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(rfd)
                os.close(stdin)
                os.close(stdout)
                _child(wfd, fn, args, scratch)
            os.close(wfd)
            reply = _collect(rfd, pid, timeout)
            os.close(rfd)
            shutil.rmtree(scratch, ignore_errors=True)
            try:
                send(stdout, reply)
            except BrokenPipeError:
                break
    finally:
        shutil.rmtree(base, ignore_errors=True)


def _collect(rfd, pid, timeout):
    end = time.monotonic() + timeout
    data = b""
    hang = False
    while True:
        left = end - time.monotonic()
        if left <= 0:
            hang = True
            break
        ready, _, _ = select.select([rfd], [], [], left)
        if ready:
            part = os.read(rfd, 1 << 20)
            if not part:
                break
            data += part
    if hang:
        os.kill(pid, signal.SIGKILL)
    _, status = os.waitpid(pid, 0)
    if hang:
        return ("hang", timeout)
    if len(data) < 4:
        return ("died", status)
    size, = struct.unpack("<I", data[:4])
    if len(data) - 4 != size:
        return ("died", status)
    return pickle.loads(data[4:])


if __name__ == "__main__":
    main()
