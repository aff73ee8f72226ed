"""Jobs of C16 and C18: a process that is struck down at an arbitrary point,
and what a process leaves behind in the file system."""

import contextlib
import gc
import io
import os
import re
import sys

from sim import jobs, sched, simfs, simproc, zygote

class Striker:
    """Counts the steps of the code under test and strikes at one of them."""

    def __init__(self, strike):
        self.strike = strike
        self.sched = sched.Scheduler({})
        self.sched.alive = [0]
        self.sched.own = {0: 0}
        self.limit = sys.getrecursionlimit()
        self.durable = None
        if strike and strike[0] != "stack":
            self.sched.abort_at = {0: [strike[1], strike[0]]}

    def watch(self, fs):
        # a process that is killed leaves behind what the operating system has been given so far
        def on_kill():
            self.durable = fs.photograph()
        self.sched.on_kill = on_kill

    def start(self):
        if self.strike and self.strike[0] == "stack":
            # no more than so many frames beyond this one
            depth, frame = 0, sys._getframe()  # pylint: disable=protected-access
            while frame:
                depth, frame = depth + 1, frame.f_back
            sys.setrecursionlimit(depth + self.strike[1])
        else:
            sys.settrace(self.sched.tracer(0))

    def stop(self):
        sys.settrace(None)
        sys.setrecursionlimit(self.limit)


def changes(fs, before, after):
    # what others changed meanwhile is not the program's doing
    before = dict(before, **{k: v for k, v in fs.applied.items() if v is not None})
    before = {k: v for k, v in before.items() if fs.applied.get(k, v) is not None}
    return {"created": sorted(set(after) - set(before)), "deleted": sorted(set(before) - set(after)),
            "changed": sorted(p for p in before if p in after and before[p] != after[p])}


def no_addresses(text):
    # (--debug-dump shows some)
    return None if text is None else re.sub(r"object at 0x[0-9a-f]*", "object at 0x", text)


def text_of(fs, data):
    return None if data is None else data.decode("utf-8", "surrogateescape").replace(fs.backing, simfs.VROOT)


def process(scratch, tree, argv, tool="trlc", strike=None, plan=None, ident=0, keep=(), line_buffering=False):
    """One process, its steps, and what it did to the file system."""
    if "--verify" in argv:
        from sim import solver as solver_seam
        solver_seam.install({})
    fs = simfs.SimFS(os.path.join(scratch, "fs"), tree, plan)
    jobs.own_identity_hash(ident)
    before = fs.photograph()
    entry = ("module", "trlc") if tool == "trlc" else ("path", os.path.join(zygote.REPO, "tools", "trlc_rst", "trlc_rst.py"))
    striker = Striker(strike)
    striker.watch(fs)
    try:
        res = simproc.run(fs, [tool] + list(argv), entry=entry, line_buffering=line_buffering, before=striker.start)
    finally:
        striker.stop()
    rv = dict(res)
    rv.update(jobs.fs_facts(fs))
    trace = rv.pop("trace")
    rv["writes"] = sorted({t[1] for t in trace if t[0] == "openw"})
    rv["steps"] = striker.sched.step
    rv["struck"] = dict(striker.sched.fired)
    rv["fs"] = changes(fs, before, fs.photograph())
    rv["outside"] = fs.outside
    if striker.durable is not None:
        rv["durable"] = changes(fs, before, striker.durable)
        rv["durable_files"] = {k: no_addresses(text_of(fs, striker.durable.get(k, (None,))[0])) for k in keep}
    rv["files"] = {}
    for k in keep:
        rv["files"][k] = no_addresses(text_of(fs, fs.get(k)))
    rv["out"] = no_addresses(rv["out"])
    return rv


def api(scratch, tree, spec, strike=None, plan=None, ident=0):
    """One run through the API."""
    fs = simfs.SimFS(os.path.join(scratch, "fs"), tree, plan)
    jobs.own_identity_hash(ident)
    before = fs.photograph()
    striker = Striker(strike)
    run, exc = None, None
    sys.unraisablehook = lambda _: None
    with fs:
        run = jobs.Api(spec)
        striker.start()
        try:
            if run.register() or spec.get("ignore_reg"):
                run.process()
        except BaseException as e:  # pylint: disable=broad-except
            exc = e
        finally:
            striker.stop()
        rv = run.result(exc is None, exc is None)
    rv["exc"] = None if exc is None else {"type": type(exc).__name__}
    # what is still open while only the result is held
    exc = None
    gc.collect()
    rv["open"] = sorted(fs.live.values())
    rv["out"] = rv["out"].replace(fs.backing, simfs.VROOT)
    rv.update(jobs.fs_facts(fs))
    rv.pop("trace")
    rv["steps"] = striker.sched.step
    rv["struck"] = dict(striker.sched.fired)
    rv["fs"] = changes(fs, before, fs.photograph())
    rv["outside"] = fs.outside
    return rv


def logs(scratch, tree, runs, plan=None, ident=0):
    """Runs one after the other in one process, each with a message handler of
    its own that writes to a file, or with the handler of an earlier run.
    runs: [{"items", "opts", "log", "prefix", "share", "how", "fail"}]"""
    from trlc.errors import Message_Handler
    from trlc.trlc import Source_Manager
    fs = simfs.SimFS(os.path.join(scratch, "fs"), tree, plan)
    jobs.own_identity_hash(ident)
    rv = {"results": [], "logs": []}
    handlers = {}

    def drive(mh, run):
        opts = run["opts"]
        sm = Source_Manager(mh, lint_mode=opts.get("lint", True), error_recovery=opts.get("recovery", True))
        ok = True
        for item in run["items"]:
            ok &= sm.register_directory(item)
        ok = ok and sm.process() is not None
        if run["fail"]:
            raise sched.Cancelled("by the caller")
        return ok

    stdout = io.StringIO()
    with fs, contextlib.redirect_stdout(stdout):
        for n, run in enumerate(runs):
            made = None
            if run["share"] is not None:
                mh = handlers[run["share"]]
            else:
                buf = None if run["log"] else io.StringIO()
                made = mh = Message_Handler(run["opts"].get("brief", False), out=buf, out_path=run["log"], strip_prefix=run["prefix"])
            handlers[n] = mh
            try:
                if run["how"] == "with":
                    with mh as inner:
                        res = drive(mh, run) if inner is mh else "no handler in its context"
                else:
                    try:
                        res = drive(mh, run)
                    finally:
                        if run["how"] == "close":
                            mh.close()
            except sched.Cancelled:
                res = "cancelled"
            except OSError as err:
                res = type(err).__name__
            rv["results"].append([res, mh.errors, mh.warnings])
            buf = mh.out if isinstance(mh.out, io.StringIO) else None
            if buf is not None:
                rv["logs"].append(text_of(fs, buf.getvalue().encode("utf-8")))
            else:
                rv["logs"].append(text_of(fs, fs.get(run["log"])) if run["how"] != "open" else None)
            del made
        rv["stdout"] = stdout.getvalue()
    rv.update(jobs.fs_facts(fs))
    rv.pop("trace")
    return rv
