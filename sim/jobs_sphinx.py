"""Jobs of C19: builds of a documentation tree that follow one another.

Every build is one process (a fork) that runs the real Sphinx application with
the real requirement domain.  Only what is on the disk survives it: the
documents and the cache (doctrees and the pickled environment).  The simulator
decides how documents are divided among parallel readers, when a reader is
started, in which order results are merged, when the clock says what, and at
which step a build is killed, interrupted or meets an error."""

import builtins
import importlib.util
import io
import os
import pickle
import random
import re
import shutil
import sys
import types

from sim import zygote

NAME = "trlc_requirement_domain"
RECORDER = "verif_recorder"
LABEL = re.compile(r"[^\n]*?WARNING: \((?P<doc>.*?)(?::(?P<line>\d+))?\):  '(?P<target>.*)' (?P<what>is ambiguous \((?P<n>\d+) targets found\)|not found)")
EPOCH = 1_600_000_000


def prepare():
    """Import the domain under a name of its own (it is called trlc, like the package)."""
    import docutils.parsers.rst.directives.misc  # noqa  # pylint: disable=unused-import
    import sphinx.application
    import sphinx.builders
    import sphinx.builders.dummy  # noqa  # pylint: disable=unused-import
    for ext in sphinx.application.builtin_extensions:
        __import__(ext)
    for ext in ("alabaster", "sphinx.builders.html", "sphinxcontrib.applehelp", "sphinx.parsers", "sphinx.search.en", "docutils.parsers.rst.languages.en"):
        __import__(ext)
    if NAME not in sys.modules:
        path = os.path.join(zygote.REPO, "tools", "sphinx", "extensions", "trlc", "trlc.py")
        spec = importlib.util.spec_from_file_location(NAME, path)
        mod = importlib.util.module_from_spec(spec)
        sys.modules[NAME] = mod
        spec.loader.exec_module(mod)
        recorder()


class Killed(BaseException):
    pass


class Control:
    """Steps of one build, shared by its processes, and what strikes at which."""

    def __init__(self, build, where):
        self.fault = build.get("fault")
        self.rng = random.Random(build.get("sched", 0))
        self.counter = os.path.join(where, "steps")
        self.fired = {}
        self.trace = []
        self.clock = 0
        with open(self.counter, "wb"):
            pass

    def step(self, what, ops=("kill", "interrupt", "die")):
        """One step; true if the fault is due and is one of ops."""
        with open(self.counter, "ab") as fd:
            fd.write(b".")
        n = os.path.getsize(self.counter)
        self.trace.append(what)
        fault = self.fault
        if not fault or n < fault["at"] or os.path.exists(self.counter + ".fired"):
            return None
        if fault["kind"] in ("kill", "interrupt") and fault["kind"] in ops:
            self.fire()
            if fault["kind"] == "interrupt":
                raise KeyboardInterrupt
            raise Killed
        if fault["kind"] in ops:
            self.fire()
            return fault["kind"]
        return None

    def fire(self):
        with open(self.counter + ".fired", "wb"):
            pass


class Reader:
    """A reading or writing process that has been started."""

    def __init__(self, control, func, arg):
        rfd, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(rfd)
            out = ("died", None)
            try:
                if control.step(["reader"], ("die",)):
                    out = ("died", None)
                else:
                    from sphinx.util import logging
                    collector = logging.LogCollector()
                    try:
                        with collector.collect():
                            ret = func(arg)
                        logging.convert_serializable(collector.logs)
                        out = ("ok", (collector.logs, ret))
                    except (Killed, KeyboardInterrupt) as err:
                        out = ("killed" if isinstance(err, Killed) else "interrupted", None)
                    except BaseException as err:  # pylint: disable=broad-except
                        out = ("error", (type(err).__name__ + ": " + str(err), ""))
                blob = pickle.dumps(out)
                with os.fdopen(wfd, "wb") as fd:
                    fd.write(blob)
            finally:
                os._exit(0)
        os.close(wfd)
        with os.fdopen(rfd, "rb") as fd:
            blob = fd.read()
        os.waitpid(pid, 0)
        self.reply = pickle.loads(blob) if blob else ("died", None)


class Tasks:
    """What sphinx.util.parallel.ParallelTasks does, decided by the simulator."""

    control = None

    def __init__(self, nproc):
        self.nproc = max(1, nproc)
        self.waiting, self.running = [], []

    def add_task(self, task_func, arg=None, result_func=None):
        self.waiting.append((task_func, arg, result_func))
        while self.control.rng.random() < 0.5 and self.one():
            pass

    def one(self):
        rng = self.control.rng
        acts = (["start"] if self.waiting and len(self.running) < self.nproc else []) + (["merge"] if self.running else [])
        if not acts:
            return False
        if rng.choice(acts) == "start":
            func, arg, result_func = self.waiting.pop(rng.randrange(len(self.waiting)))
            self.control.trace.append(["start", len(self.waiting)])
            self.running.append((Reader(self.control, func, arg), arg, result_func))
        else:
            reader, arg, result_func = self.running.pop(rng.randrange(len(self.running)))
            self.control.step(["merge", len(self.running)])
            from sphinx.errors import SphinxParallelError
            from sphinx.util import logging
            kind, value = reader.reply
            if kind == "died":
                raise EOFError
            if kind == "killed":
                raise Killed
            if kind == "interrupted":
                raise KeyboardInterrupt
            if kind == "error":
                raise SphinxParallelError(*value)
            logs, ret = value
            for log in logs:
                logging.getLogger("sphinx.util.parallel").handle(log)
            if result_func:
                result_func(arg, ret)
        return True

    def join(self):
        while self.one():
            pass


class Torn:
    """A file that can be written to until something happens."""

    def __init__(self, fd, control, what):
        self.fd, self.control, self.what = fd, control, what

    def write(self, data):
        kind = self.control.step(["write", self.what], ("kill", "interrupt", "full", "torn"))
        if kind:
            # the first part is there, the rest is not
            data = bytes(data)
            self.fd.write(data[:len(data) // 2])
            self.fd.flush()
            if kind == "full":
                raise OSError(28, "No space left on device")
            raise Killed
        return self.fd.write(data)

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self.fd.close()
        return False


def seams(control, build, srcdir):
    """Put the simulator between Sphinx and what is not deterministic."""
    import sphinx.builders as sb

    Tasks.control = control
    sb.ParallelTasks = Tasks
    rng = control.rng

    def make_chunks(arguments, nproc, maxbatch=10):
        del nproc, maxbatch
        how, left, rv = build.get("chunks", 1), list(arguments), []
        while left:
            n = min(len(left), how if how else rng.randint(1, 4))
            rv.append(left[:n])
            left = left[n:]
        return rv
    sb.make_chunks = make_chunks

    class Clock:
        @staticmethod
        def time_ns():
            control.clock += 1
            return (EPOCH + build["now"]) * 1_000_000_000 + control.clock * 1_000_000

        @staticmethod
        def time():
            return Clock.time_ns() / 1e9
    sb.time = Clock

    def simopen(path, mode="r", *args, **kwargs):
        fd = builtins.open(path, mode, *args, **kwargs)  # pylint: disable=unspecified-encoding
        if "w" in mode and "b" in mode:
            control.step(["open", os.path.basename(str(path))])
            return Torn(fd, control, os.path.basename(str(path)))
        return fd
    sb.open = simopen

    real_read = sb.Builder.read_doc

    def read_doc(self, docname, **kwargs):
        if control.step(["read", docname], ("kill", "interrupt", "eio")):
            raise OSError(5, "Input/output error", docname)
        real_read(self, docname, **kwargs)
    sb.Builder.read_doc = read_doc


def recorder():
    from docutils import nodes
    from sphinx.builders import Builder

    class Recorder(Builder):
        """Keeps what a writer is given."""
        name = "recorder"
        allow_parallel = True

        def init(self):
            self.pages, self.index = {}, None

        def get_outdated_docs(self):
            return self.env.found_docs

        def get_target_uri(self, docname, typ=None):
            return docname + ".html"

        def prepare_writing(self, docnames):
            domain = self.env.get_domain("requirement")
            self.index = [[cls.name, cls(domain).generate()] for cls in domain.indices]

        def write_doc_serialized(self, docname, doctree):
            links = []
            for ref in doctree.findall(nodes.reference):
                links.append([ref.astext(), ref.get("refuri") or "#" + str(ref.get("refid"))])
            anchors = sorted(i for node in doctree.findall(nodes.Element) for i in node.get("ids", ()) if i.startswith("requirement-"))
            self.pages[docname] = {"links": links, "anchors": anchors, "text": doctree.astext()}

        def write_doc(self, docname, doctree):
            pass

    mod = types.ModuleType(RECORDER)
    mod.setup = lambda app: app.add_builder(Recorder) or {"parallel_read_safe": True, "parallel_write_safe": True}
    sys.modules[RECORDER] = mod


CONF = {"master_doc": "index", "extensions": [NAME, RECORDER], "keep_warnings": False, "exclude_patterns": ["_build", "*.inc"]}


def one_build(srcdir, cache, build, where, want_trace):
    """Runs in a process of its own."""
    from sphinx.application import Sphinx
    control = Control(build, where)
    seams(control, build, srcdir)
    res = {"rounds": []}
    warnings = io.StringIO()
    try:
        # (the last round of a session is one build; the rounds before it leave the application as it is)
        sys.stdin = io.StringIO()
        app = Sphinx(srcdir, None, os.path.join(where, "out"), os.path.join(cache, "doctrees"), "recorder",
                     confoverrides=dict(CONF, project="p%u" % build.get("config", 0)), status=None, warning=warnings,
                     parallel=build.get("jobs", 1))
        for n in range(build.get("rounds", 1)):
            if n:
                # the same application once more, after the edits of this round
                build["now"] += 1000
                apply_edits(srcdir, build["between"][n - 1], build["now"] - 500)
                warnings.seek(0)
                warnings.truncate()
                app.builder.init()
                # (Sphinx does not notice that doctrees it has in memory are outdated)
                app.env._pickled_doctree_cache.clear()  # pylint: disable=protected-access
                app.env._write_doc_doctree_cache.clear()  # pylint: disable=protected-access
            if build.get("method") == "all":
                app.builder.build_all()
            else:
                app.builder.build_update()
            res["rounds"].append({"pages": app.builder.pages, "index": app.builder.index, "warnings": read_warnings(warnings.getvalue()),
                                  "objects": [list(o) for o in app.env.get_domain("requirement").get_objects()]})
        res["end"] = "done"
    except Killed:
        res["end"] = "killed"
    except KeyboardInterrupt:
        res["end"] = "interrupted"
    except (OSError, EOFError) as err:
        res["end"] = "error: %s" % type(err).__name__
    except Exception as err:  # pylint: disable=broad-except
        if type(err).__name__ not in ("SphinxParallelError", "ExtensionError"):
            raise
        res["end"] = "error: %s" % type(err).__name__
        res["what"] = str(err)[:300]
    res["steps"] = os.path.getsize(control.counter)
    res["fired"] = os.path.exists(control.counter + ".fired")
    if want_trace:
        res["trace"] = control.trace
    return res


def read_warnings(text):
    text = re.sub("\x1b\\[[0-9;]*m", "", text)
    rv, other = [], []
    for line in text.split("\n"):
        m = LABEL.match(line)
        if m:
            rv.append([m["doc"], int(m["line"] or 0), m["target"], m["n"] and int(m["n"]) or 0])
        elif line.strip():
            other.append(line)
    return {"mine": sorted(rv), "other": sorted(other)}


def apply_edits(srcdir, edits, now):
    for path, text in edits:
        full = os.path.join(srcdir, path)
        if text is None:
            if os.path.exists(full):
                os.unlink(full)
            continue
        os.makedirs(os.path.dirname(full), exist_ok=True)
        with open(full, "w", encoding="utf-8") as fd:
            fd.write(text)
        os.utime(full, (EPOCH + now, EPOCH + now))


def forked(fun, *args):
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(rfd)
        out = None
        try:
            out = ("ok", fun(*args))
        except BaseException:  # pylint: disable=broad-except
            import traceback
            out = ("bad", traceback.format_exc())
        try:
            with os.fdopen(wfd, "wb") as fd:
                pickle.dump(out, fd)
        finally:
            if zygote.LINES:
                zygote.LINES()
            os._exit(0)
    os.close(wfd)
    with os.fdopen(rfd, "rb") as fd:
        blob = fd.read()
    os.waitpid(pid, 0)
    kind, value = pickle.loads(blob)
    if kind == "bad":
        raise zygote.JobError(value)
    return value


def history(scratch, steps, clean=True, want_trace=False):
    """steps: [{"edits", "build"}].  The result of each build, and of a clean serial build at the end."""
    prepare()
    src, cache = os.path.join(scratch, "src"), os.path.join(scratch, "cache")
    shutil.rmtree(scratch, ignore_errors=True)
    os.makedirs(src)
    os.makedirs(cache)
    now, rv = 0, []
    for n, step in enumerate(steps):
        now += 1000 + step.get("jump", 0)
        apply_edits(src, step["edits"], now)
        now += 1000
        where = os.path.join(scratch, "w%u" % n)
        os.makedirs(where)
        build = dict(step["build"], now=now)
        rv.append(forked(one_build, src, cache, build, where, want_trace))
        now += 1000 * build.get("rounds", 1)
        if build.get("rounds", 1) > 1:
            # (what the session would have edited is edited even if it failed early)
            for edits in build["between"]:
                apply_edits(src, edits, now)
        shutil.rmtree(where)
    res = {"builds": rv}
    if clean:
        where = os.path.join(scratch, "clean")
        os.makedirs(where)
        res["clean"] = forked(one_build, src, where, {"now": now + 1000}, where, want_trace)
    return res
