"""Jobs of C14: files changed behind the program's back."""

import os
import random
import shutil
import stat

from sim import jobs, simfs
from props import common


def content(fs, rel):
    try:
        return fs.get(rel) or b""
    except IsADirectoryError:
        return b""


def change(fs, rng, target, kind, others):
    """One change of one file on disk."""
    path = os.path.join(fs.backing, target)
    try:
        if stat.S_ISDIR(simfs._real["stat"](path).st_mode):  # pylint: disable=protected-access
            return
    except FileNotFoundError:
        pass
    old = fs.get(target) or b""
    if kind == "delete":
        fs.delete(target)
    elif kind == "empty":
        fs.put(target, b"")
    elif kind == "shift":
        fs.put(target, b"// moved\n\n// down\n" + old)
    elif kind == "damage":
        fs.put(target, common.damage_text(old.decode("utf-8", "surrogateescape"), rng))
    elif kind == "append":
        fs.put(target, old + b"\n}}} $ \"")
    elif kind == "binary":
        fs.put(target, b"\xff\xfe\x00" + old)
    elif kind == "truncate":
        fs.put(target, old[:rng.randrange(len(old) + 1)])
    elif kind == "comment":
        fs.put(target, b"\n".join(b"// gone" for _ in old.split(b"\n")))
    elif kind == "swap" and others:
        fs.put(target, content(fs, rng.choice(others)))
    elif kind == "directory":
        fs.delete(target)
        try:
            simfs._real["mkdir"](path)  # pylint: disable=protected-access
        except FileExistsError:
            pass
    elif kind == "fault":
        fs.faults.append({"op": "open", "path": target, "nth": 0, "sticky": True, "fault": "EIO"})
    elif kind == "create":
        fs.put((target.rpartition("/")[0] + "/" if "/" in target else "") + "zz_new.trlc", b"package Zz_New\n} {\n")
    elif kind == "rename":
        fs.put(target + ".old.trlc", old)
        fs.delete(target)
    fs.note("CHANGE", kind, target)


class Changer:
    """Applies the changes the case asks for, when their point is reached."""

    def __init__(self, fs, edits):
        self.fs, self.edits, self.done = fs, edits, {}

    def reach(self, point, taken):
        for e in self.edits:
            if e["point"] != point or not taken:
                continue
            rng = random.Random(e["seed"])
            targets = sorted(taken)
            if not e.get("all"):
                targets = rng.sample(targets, min(len(targets), e.get("n", 1)))
            for t in targets:
                kind = rng.choice(e["kinds"])
                change(self.fs, rng, t, kind, [x for x in sorted(taken) if x != t])
                self.done[kind] = self.done.get(kind, 0) + 1


def inside(paths, d):
    d = os.path.normpath(d)
    return {p for p in paths if d == "." or p.startswith(d + "/")}


def snap(scratch, tree, spec, edits=(), plan=None, ident=0, ops=False):
    """One run through the API; files change at the points named in edits:
    ["reg", k] after the k-th registration, ["call", k] at the k-th callback,
    ["after", 0] before the result is read, ["op", k] at the k-th time a file
    or directory is opened."""
    fs = simfs.SimFS(os.path.join(scratch, "fs"), tree, plan)
    jobs.own_identity_hash(ident)
    changer = Changer(fs, list(edits))
    paths = set(tree)
    taken = set()
    run = None
    exc = None
    opens = [0]
    closed = set()
    counted = [0]

    real_consult = fs.consult

    def consult(op, vpath):
        rel = fs.rel(vpath)
        if op == "close":
            closed.add(rel)
        elif op in ("open", "list"):
            changer.reach(["op", opens[0]], closed - {rel})
            opens[0] += 1
        return real_consult(op, vpath)
    fs.consult = consult
    if spec.get("opts", {}).get("verify"):
        from sim import solver as solver_seam
        solver_seam.install({})
    again = None
    with fs:
        try:
            run = jobs.Api(spec)

            def hook(_kind, _value):
                # every include file has been read once progress is reported
                now = set(taken)
                if _kind != "begin":
                    now |= closed
                changer.reach(["call", counted[0]], now)
                counted[0] += 1
            run.hook = hook
            for k, item in enumerate(spec["reg"]):
                if item[0] == "dir":
                    ok = run.sm.register_directory(item[1])
                    taken |= inside(paths, item[1])
                elif item[0] == "include":
                    run.sm.register_include(item[1])
                    ok = True
                else:
                    ok = run.sm.register_file(item[1], item[2] if len(item) > 2 else None)
                    taken.add(item[1])
                run.reg_ok = run.reg_ok and bool(ok)
                changer.reach(["reg", k], taken)
            if run.reg_ok or spec.get("ignore_reg", False):
                run.process()
                taken |= closed
            changer.reach(["after", 0], taken)
        except simfs.HarnessError:
            raise
        except (Exception, SystemExit) as e:  # pylint: disable=broad-except
            exc = jobs.describe(e)
        rv = run.result(True, True)
        if exc is None and spec.get("again") and rv["success"]:
            mark = len(run.out.getvalue())
            verdict = run.sm.perform_checks()
            again = [verdict, run.out.getvalue()[mark:]]
    rv["again"] = again
    rv["out"] = rv["out"].replace(fs.backing, simfs.VROOT)
    rv["exc"] = exc
    rv.update(jobs.fs_facts(fs))
    if not ops:
        rv.pop("trace")
    rv["opens"] = opens[0]
    rv["changes"] = changer.done
    rv["steps"] = len(fs.trace)
    shutil.rmtree(fs.backing, ignore_errors=True)
    return rv


def cli_snap(scratch, tree, argv, edits=(), plan=None, ident=0, entry=None):
    """The same for the command-line tool; only ["op", k] points."""
    fs = simfs.SimFS(os.path.join(scratch, "fs"), tree, plan)
    changer = Changer(fs, list(edits))
    closed = set()
    opens = [0]
    real_consult = fs.consult

    def consult(op, vpath):
        rel = fs.rel(vpath)
        if op == "close":
            closed.add(rel)
        elif op in ("open", "list"):
            changer.reach(["op", opens[0]], closed - {rel})
            opens[0] += 1
        elif op == "openw":
            changer.reach(["openw", 0], set(closed))
        return real_consult(op, vpath)
    fs.consult = consult
    jobs.own_identity_hash(ident)
    from sim import simproc
    res = dict(simproc.run(fs, ["trlc"] + list(argv), entry=tuple(entry) if entry else ("module", "trlc")))
    res.update(jobs.fs_facts(fs))
    res.pop("trace")
    res["opens"] = opens[0]
    res["changes"] = changer.done
    res["steps"] = len(fs.trace)
    log = fs.get("out.log")
    res["log"] = None if log is None else log.decode("utf-8", "surrogateescape").replace(fs.backing, simfs.VROOT)
    return res
