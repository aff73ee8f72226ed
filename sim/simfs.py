"""The simulated file system.

A run sees a tree below a fixed virtual root (/simroot), which is also its
current directory.  The bytes live in a private scratch directory; every
access of the code under test goes through the wrappers installed here, and
the wrappers decide, from an explicit plan, the order in which directory
entries are listed, which operation fails and how, how many bytes a read or
write transfers, and which file is changed behind the program's back, and
when.  Nothing outside the scratch directory is touched by these wrappers:
paths outside /simroot are passed through unchanged for reading, and refused
for writing.
"""

import builtins
import errno
import io
import os
import random
import stat as stat_mod
import sys

VROOT = "/simroot"
# When all files were last changed
EPOCH = 10 ** 18

_real = {
    "open": builtins.open,
    "os_open": os.open,
    "scandir": os.scandir,
    "listdir": os.listdir,
    "stat": os.stat,
    "lstat": os.lstat,
    "getcwd": os.getcwd,
    "access": os.access,
    "remove": os.remove,
    "unlink": os.unlink,
    "rename": os.rename,
    "replace": os.replace,
    "mkdir": os.mkdir,
    "readlink": os.readlink,
    "rmdir": os.rmdir,
    "truncate": os.truncate,
    "utime": os.utime,
    "chmod": os.chmod,
}


def captured(funs):
    """Other modules that took hold of one of these functions when they were imported (tokenize, for one)."""
    rv = []
    for name, mod in sorted(sys.modules.items()):
        if mod is None or name in ("os", "builtins", "io", "posix", "_io", __name__) or name.split(".")[0] in ("sim", "props", "importlib"):
            continue
        for attr, value in list(vars(mod).items()):
            if id(value) in funs and not name.startswith("_frozen"):
                rv.append((mod, attr, funs[id(value)]))
    return rv


class HarnessError(Exception):
    """Something in the harness (not the code under test) is wrong."""


def fail(code):
    num = getattr(errno, code)
    return OSError(num, os.strerror(num))


class RawRead(io.RawIOBase):
    """Raw byte source whose every read is decided by the plan."""

    def __init__(self, fs, vpath, data):
        super().__init__()
        self.fs, self.vpath, self.data, self.pos, self.nth = fs, vpath, data, 0, 0
        self.name = vpath
        self.mode = "rb"
        self.fd = None
        self.key = fs.opened(vpath)

    def fileno(self):
        """(For fstat and the like; the content is read through readinto.)"""
        if self.fd is None:
            self.fd = _real["os_open"](self.fs.real(self.vpath), os.O_RDONLY)
        return self.fd

    def isatty(self):
        return False

    def readable(self):
        return True

    def seekable(self):
        return True

    def seek(self, off, whence=0):
        base = (0, self.pos, len(self.data))[whence]
        self.pos = max(0, base + off)
        return self.pos

    def tell(self):
        return self.pos

    def readinto(self, buf):
        n = len(buf)
        act = self.fs.consult("read", self.vpath)
        remaining = len(self.data) - self.pos
        if act is not None:
            kind = act["fault"]
            if kind == "short":
                n = max(1, min(n, act.get("n", 1)))
            elif kind == "EINTR":
                raise InterruptedError(errno.EINTR, "Interrupted system call")
            else:
                raise fail(kind)
        elif self.fs.chunk:
            n = max(1, min(n, self.fs.chunk))
        n = min(n, max(remaining, 0))
        buf[:n] = self.data[self.pos:self.pos + n]
        self.pos += n
        return n

    def close(self):
        if not self.closed:
            act = self.fs.consult("close", self.vpath)
            self.fs.live.pop(self.key, None)
            super().close()
            if self.fd is not None:
                os.close(self.fd)
            if act is not None and act["fault"] != "EINTR":
                raise fail(act["fault"])


class RawWrite(io.RawIOBase):
    """Raw byte sink: delivers to the backing file what the plan lets through."""

    def __init__(self, fs, vpath, fd):
        super().__init__()
        self.fs, self.vpath, self.fd = fs, vpath, fd
        self.total = 0
        self.broken = None
        self.name = vpath
        self.mode = "wb"
        st = os.fstat(fd)
        self.ident = (st.st_dev, st.st_ino)
        self.key = fs.opened(vpath)

    def writable(self):
        return True

    def fileno(self):
        return self.fd

    def isatty(self):
        return False

    def redirected(self):
        """True once the program pointed this descriptor elsewhere (dup2)."""
        st = os.fstat(self.fd)
        return (st.st_dev, st.st_ino) != self.ident

    def write(self, buf):
        data = bytes(buf)
        if self.redirected():
            return len(data)
        if self.broken:
            self.fs.note("write-after-fault", self.vpath, self.broken)
            raise fail(self.broken)
        limit = len(data)
        for act in self.fs.faults_of(self.vpath):
            kind = act["fault"]
            if kind == "short":
                limit = max(1, min(limit, act.get("n", 1)))
                if limit < len(data):
                    self.fs.fire(act, "write", self.vpath)
            elif kind == "EINTR":
                if not act.get("done") and self.total >= act["at"]:
                    act["done"] = True
                    self.fs.fire(act, "write", self.vpath)
                    raise InterruptedError(errno.EINTR, "Interrupted system call")
            elif "at" in act:
                room = act["at"] - self.total
                if act.get("once") and act.get("done"):
                    continue
                if room <= 0:
                    self.fs.fire(act, "write", self.vpath)
                    if act.get("once"):
                        # the device recovers
                        act["done"] = True
                        if kind == "EAGAIN":
                            return None
                        raise fail(kind)
                    self.broken = kind
                    raise fail(kind)
                limit = min(limit, room)
        _write_all(self.fd, data[:limit])
        self.total += limit
        return limit

    def close(self):
        if not self.closed:
            self.fs.live.pop(self.key, None)
            super().close()
            for act in self.fs.faults_of(self.vpath):
                if act.get("when") == "close":
                    self.fs.fire(act, "close", self.vpath)
                    os.close(self.fd)
                    raise fail(act["fault"])
            os.close(self.fd)


def _write_all(fd, data):
    view = memoryview(data)
    while view:
        n = os.write(fd, view)
        view = view[n:]


def _makedirs(path):
    try:
        _real["mkdir"](path)
    except FileExistsError:
        pass
    except FileNotFoundError:
        _makedirs(os.path.dirname(path))
        _real["mkdir"](path)


def os_walk(top):
    """os.walk on the real functions."""
    names = sorted(_real["listdir"](top))
    dirs = [n for n in names if stat_mod.S_ISDIR(_real["lstat"](os.path.join(top, n)).st_mode)]
    yield top, dirs, [n for n in names if n not in dirs]
    for name in dirs:
        yield from os_walk(os.path.join(top, name))


class SimFS:
    """tree: {relative path: str|bytes}; plan: see consult/listing/mutations.

    plan keys:
      order      seed for directory listing order (None: real order sorted)
      faults     list of {"op", "path", "nth", "fault"[, "n"][, "sticky"]}
      chunk      maximum bytes per raw read (0: unlimited)
      out        list of {"path" ("<stdout>" or log file), "fault", "at"|"when"}
      mutations  list of {"op","path","nth","act":"write"|"delete","target","data"}
    """

    def __init__(self, backing, tree, plan=None):
        self.backing = backing
        self.plan = plan or {}
        self.order = self.plan.get("order")
        self.chunk = self.plan.get("chunk", 0)
        self.faults = [dict(f) for f in self.plan.get("faults", [])]
        self.mutations = [dict(m) for m in self.plan.get("mutations", [])]
        self.out_faults = {}
        for act in self.plan.get("out", []):
            self.out_faults.setdefault(act["path"], []).append(dict(act))
        self.counts = {}
        self.trace = []
        self.fired = {}
        self.listings = []
        self.mutation_fired = 0
        self.outside = []
        self.live = {}
        self.handles = 0
        self.armed = True
        _makedirs(backing)
        self.applied = {}
        for rel, content in tree.items():
            self.put(rel, content)
            _real["utime"](os.path.join(backing, rel), ns=(EPOCH, EPOCH))
        self.dirs_extra = self.plan.get("dirs", [])
        for rel in self.dirs_extra:
            _makedirs(os.path.join(backing, rel))

    # -- tree handling outside the program's view --------------------------
    def put(self, rel, content):
        path = os.path.join(self.backing, rel)
        _makedirs(os.path.dirname(path))
        if isinstance(content, str):
            content = content.encode("utf-8", "surrogateescape")
        with _real["open"](path, "wb") as fd:
            fd.write(content)

    def get(self, rel):
        try:
            with _real["open"](os.path.join(self.backing, rel), "rb") as fd:
                return fd.read()
        except FileNotFoundError:
            return None

    def delete(self, rel):
        try:
            _real["unlink"](os.path.join(self.backing, rel))
        except FileNotFoundError:
            pass

    # -- path translation --------------------------------------------------
    def vpath(self, path):
        """Virtual absolute path for what the program passed, or None."""
        if isinstance(path, int) or path is None:
            return None
        path = os.fspath(path)
        if isinstance(path, bytes):
            path = os.fsdecode(path)
        full = path if path.startswith("/") else VROOT + "/" + path
        full = os.path.normpath(full)
        if full == VROOT or full.startswith(VROOT + "/"):
            return full
        return None

    def real(self, vpath):
        return self.backing + vpath[len(VROOT):]

    @staticmethod
    def rel(vpath):
        return vpath[len(VROOT) + 1:]

    # -- the plan ----------------------------------------------------------
    def note(self, *item):
        self.trace.append(item)

    def opened(self, vpath):
        self.handles += 1
        self.live[self.handles] = vpath
        return self.handles

    def fire(self, act, op, vpath):
        name = "%s:%s" % (op, act["fault"])
        self.fired[name] = self.fired.get(name, 0) + 1
        self.note("FAULT", op, vpath, act["fault"])

    def mutate(self, op, rel, nth):
        for mut in self.mutations:
            if mut.get("done") or mut["op"] != op or mut["path"] != rel or mut["nth"] != nth:
                continue
            mut["done"] = True
            self.apply_mutation(mut)

    def apply_mutation(self, mut):
        self.mutation_fired += 1
        self.note("MUTATE", mut["act"], mut["target"])
        if mut["act"] == "delete":
            self.delete(mut["target"])
            self.applied[mut["target"]] = None
        else:
            self.put(mut["target"], mut["data"])
            path = os.path.join(self.backing, mut["target"])
            _real["utime"](path, ns=(EPOCH, EPOCH))
            self.applied[mut["target"]] = self.facts(path)

    def stray(self, op, path):
        """An attempt to change something outside the simulated root."""
        self.outside.append([op, str(path)])
        self.note("OUTSIDE", op, str(path))
        return PermissionError(errno.EACCES, os.strerror(errno.EACCES), str(path))

    def faults_of(self, vpath):
        """Faults of writing one file; "*" stands for any file but standard output."""
        rv = self.out_faults.get(vpath, [])
        return rv if vpath == "<stdout>" else rv + self.out_faults.get("*", [])

    @staticmethod
    def facts(path):
        """What there is to know about a file but its name."""
        st = _real["lstat"](path)
        with _real["open"](path, "rb") as fd:
            return fd.read(), st.st_mode, st.st_mtime_ns

    def photograph(self):
        """All files and directories, with contents, permissions and times."""
        rv = {}
        for path, dirs, names in os_walk(self.backing):
            here = path[len(self.backing) + 1:]
            for name in dirs:
                rv[os.path.join(here, name) + "/"] = _real["lstat"](os.path.join(path, name)).st_mode
            for name in names:
                rv[os.path.join(here, name)] = self.facts(os.path.join(path, name))
        return rv

    def snapshot(self):
        """All files and directories with their contents."""
        rv = {}
        for path, dirs, names in os_walk(self.backing):
            here = path[len(self.backing) + 1:]
            for name in dirs:
                rv[os.path.join(here, name) + "/"] = None
            for name in names:
                with _real["open"](os.path.join(path, name), "rb") as fd:
                    rv[os.path.join(here, name)] = fd.read()
        return rv

    def consult(self, op, vpath):
        rel = self.rel(vpath)
        key = (op, rel)
        nth = self.counts.get(key, 0)
        self.counts[key] = nth + 1
        self.note(op, rel, nth)
        if not self.armed:
            return None
        self.mutate(op, rel, nth)
        for act in self.faults:
            if act["op"] == op and act["path"] == rel and \
               (act["nth"] == nth or (act.get("sticky") and nth >= act["nth"])):
                self.fire(act, op, vpath)
                return act
        return None

    # -- wrappers ----------------------------------------------------------
    def _open(self, file, mode="r", buffering=-1, encoding=None, errors=None,
              newline=None, closefd=True, opener=None):
        vp = self.vpath(file)
        if vp is None:
            if isinstance(file, int):
                return _real["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
            if any(c in mode for c in "wax+") and os.fspath(file) not in (os.devnull,):
                raise self.stray("open", file)
            return _real["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
        binary = "b" in mode
        if any(c in mode for c in "wax+"):
            act = self.consult("openw", vp)
            if act is not None:
                raise fail(act["fault"])
            flags = os.O_WRONLY | os.O_CREAT
            if "w" in mode:
                flags |= os.O_TRUNC
            if "a" in mode:
                flags |= os.O_APPEND
            if "x" in mode:
                flags |= os.O_EXCL
            try:
                fd = _real["os_open"](self.real(vp), flags, 0o644)
            except OSError as err:
                raise OSError(err.errno, os.strerror(err.errno), str(file)) from None
            raw = RawWrite(self, vp, fd)
            buf = io.BufferedWriter(raw) if buffering != 0 else raw
            if binary:
                return buf
            return io.TextIOWrapper(buf, encoding=encoding, errors=errors, newline=newline,
                                    line_buffering=buffering == 1)
        act = self.consult("open", vp)
        if act is not None:
            raise OSError(getattr(errno, act["fault"]), os.strerror(getattr(errno, act["fault"])), str(file))
        try:
            with _real["open"](self.real(vp), "rb") as fd:
                data = fd.read()
        except OSError as err:
            raise OSError(err.errno, os.strerror(err.errno), str(file)) from None
        raw = RawRead(self, vp, data)
        if buffering == 0:
            return raw
        buf = io.BufferedReader(raw)
        if binary:
            return buf
        return io.TextIOWrapper(buf, encoding=encoding or "utf-8", errors=errors, newline=newline)

    def _stat_like(self, name):
        def wrapper(path, *args, **kwargs):
            vp = self.vpath(path)
            if vp is None:
                return _real[name](path, *args, **kwargs)
            act = self.consult("stat", vp)
            if act is not None:
                raise OSError(getattr(errno, act["fault"]), os.strerror(getattr(errno, act["fault"])), str(path))
            try:
                return _real[name](self.real(vp), *args, **kwargs)
            except OSError as err:
                raise OSError(err.errno, os.strerror(err.errno), str(path)) from None
        return wrapper

    def _pass(self, name, count=1):
        def wrapper(*args, **kwargs):
            args = list(args)
            inside = False
            for i in range(min(count, len(args))):
                vp = self.vpath(args[i])
                if vp is not None:
                    args[i] = self.real(vp)
                    inside = True
            if not inside and name not in ("access", "readlink") and not isinstance(args[0], int):
                raise self.stray(name, args[0])
            rv = _real[name](*args, **kwargs)
            if name == "readlink" and inside and isinstance(rv, str) and rv.startswith(self.backing):
                rv = VROOT + rv[len(self.backing):]
            return rv
        return wrapper

    def _os_open(self, path, flags, mode=0o777, *, dir_fd=None):
        vp = self.vpath(path)
        if vp is None:
            if flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT) and path != os.devnull:
                raise self.stray("open", path)
            return _real["os_open"](path, flags, mode, dir_fd=dir_fd)
        writing = flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT)
        act = self.consult("openw" if writing else "open", vp)
        if act is not None:
            raise OSError(getattr(errno, act["fault"]), os.strerror(getattr(errno, act["fault"])), str(path))
        return _real["os_open"](self.real(vp), flags, mode, dir_fd=dir_fd)

    def _shuffled(self, vp, names):
        names = sorted(names)
        if self.order is not None:
            nth = self.counts.get(("list", self.rel(vp)), 0)
            rng = random.Random("%s/%s/%s" % (self.order, self.rel(vp), nth))
            rng.shuffle(names)
        self.listings.append((self.rel(vp), tuple(names)))
        return names

    def _listdir(self, path="."):
        vp = self.vpath(path)
        if vp is None:
            return _real["listdir"](path)
        act = self.consult("list", vp)
        if act is not None:
            raise OSError(getattr(errno, act["fault"]), os.strerror(getattr(errno, act["fault"])), str(path))
        return self._shuffled(vp, _real["listdir"](self.real(vp)))

    def _scandir(self, path="."):
        vp = self.vpath(path)
        if vp is None:
            return _real["scandir"](path)
        act = self.consult("list", vp)
        if act is not None:
            raise OSError(getattr(errno, act["fault"]), os.strerror(getattr(errno, act["fault"])), str(path))
        names = self._shuffled(vp, _real["listdir"](self.real(vp)))
        return _ScanIter([_Entry(self, os.fspath(path), vp, n) for n in names])

    def install(self):
        self._saved = {}
        table = [
            (builtins, "open", self._open), (io, "open", self._open),
            (os, "open", self._os_open),
            (os, "scandir", self._scandir), (os, "listdir", self._listdir),
            (os, "stat", self._stat_like("stat")), (os, "lstat", self._stat_like("lstat")),
            (os, "getcwd", lambda: VROOT),
            (os, "access", self._pass("access")), (os, "readlink", self._pass("readlink")),
            (os, "remove", self._pass("remove")), (os, "unlink", self._pass("unlink")),
            (os, "rename", self._pass("rename", 2)), (os, "replace", self._pass("replace", 2)),
            (os, "mkdir", self._pass("mkdir")), (os, "rmdir", self._pass("rmdir")),
            (os, "truncate", self._pass("truncate")), (os, "utime", self._pass("utime")),
            (os, "chmod", self._pass("chmod")),
        ]
        table += captured({id(getattr(mod, name)): fun for mod, name, fun in table if name != "getcwd"})
        for mod, name, fun in table:
            self._saved[(mod, name)] = getattr(mod, name)
            setattr(mod, name, fun)
        return self

    def uninstall(self):
        for (mod, name), fun in self._saved.items():
            setattr(mod, name, fun)

    def __enter__(self):
        return self.install()

    def __exit__(self, *_):
        self.uninstall()


class _ScanIter:
    def __init__(self, entries):
        self.it = iter(entries)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.it)

    def __enter__(self):
        return self

    def __exit__(self, *_):
        pass

    def close(self):
        pass


class _Entry:
    def __init__(self, fs, parent, vparent, name):
        self.name = name
        self.path = os.path.join(parent, name)
        self._real = fs.real(vparent + "/" + name)
        self._st = None

    def _stat(self, follow=True):
        return _real["stat" if follow else "lstat"](self._real)

    def stat(self, *, follow_symlinks=True):
        return self._stat(follow_symlinks)

    def is_dir(self, *, follow_symlinks=True):
        try:
            return stat_mod.S_ISDIR(self._stat(follow_symlinks).st_mode)
        except FileNotFoundError:
            return False

    def is_file(self, *, follow_symlinks=True):
        try:
            return stat_mod.S_ISREG(self._stat(follow_symlinks).st_mode)
        except FileNotFoundError:
            return False

    def is_symlink(self):
        return stat_mod.S_ISLNK(self._stat(False).st_mode)

    def is_junction(self):
        return False

    def inode(self):
        return self._stat(False).st_ino

    def __fspath__(self):
        return self.path

    def __repr__(self):
        return "<DirEntry %r>" % self.name
