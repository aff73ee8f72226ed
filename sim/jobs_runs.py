"""Jobs of C07: several runs in one process."""

import io
import os
import sys

from sim import jobs, sched, simfs


def finish(run, exc, text, fs):
    rv = run.result(True, text) if run is not None else {}
    if "out" in rv:
        rv["out"] = rv["out"].replace(fs.backing, simfs.VROOT)
    rv["exc"] = exc
    return rv


def one(spec, box):
    """A run; box receives the Api object as soon as it exists."""
    if "cli" in spec:
        run = Cli(spec["cli"])
        box.append(run)
        run.run()
        return
    run = jobs.Api(spec)
    box.append(run)
    if run.register() or spec.get("ignore_reg"):
        run.process()


class Cli:
    """A run of the command-line tool's main function in this process."""

    def __init__(self, argv):
        self.argv, self.out, self.err, self.status = argv, None, None, None

    def run(self):
        from trlc import trlc
        old = sys.argv, sys.stdout, sys.stderr
        raw = io.BytesIO()
        self.out = io.TextIOWrapper(raw, encoding="utf-8", newline="\n")
        self.err = io.StringIO()
        sys.argv, sys.stdout, sys.stderr = ["trlc"] + self.argv, self.out, self.err
        try:
            self.status = trlc.main()
        except SystemExit as e:
            self.status = e.code
        finally:
            sys.argv, sys.stdout, sys.stderr = old
            self.out.flush()
            self.out = raw.getvalue().decode("utf-8")

    def result(self, *_):
        return {"out": self.out or "", "err": self.err.getvalue() if self.err else "", "status": self.status}


def history(scratch, tree, steps, ident=0):
    """steps: {"put", "delete", "runs": [spec, ...], "sched", "opcodes", "aborts": {run: [step, kind]}}"""
    fs = simfs.SimFS(os.path.join(scratch, "fs"), tree, {})
    jobs.own_identity_hash(ident)
    sys.unraisablehook = lambda _: None
    results, total, fired, keep = [], 0, {}, []
    with fs:
        for step in steps:
            for rel, text in step.get("put", {}).items():
                fs.put(rel, text)
            for rel in step.get("delete", []):
                fs.delete(rel)
            specs = step["runs"]
            boxes = [[] for _ in specs]
            aborts = {int(k): v for k, v in step.get("aborts", {}).items()}
            switches = []
            if len(specs) == 1:
                if aborts:
                    _, exc, sch = sched.run_one(lambda: one(specs[0], boxes[0]), aborts.get(0))
                    total += sch.step
                    fires = sch.fired
                else:
                    exc = None
                    fires = {}
                    try:
                        one(specs[0], boxes[0])
                    except Exception as e:  # pylint: disable=broad-except
                        exc = e
                excs = [exc]
            else:
                sch = sched.Scheduler(step["sched"], step.get("opcodes", False))
                res = sch.run([(lambda s=s, b=b: one(s, b)) for s, b in zip(specs, boxes)], aborts)
                excs = [e for _, e in res]
                total += sch.step
                fires = sch.fired
                switches = sch.switches
            for k, n in fires.items():
                fired[k] = fired.get(k, 0) + n
            out = []
            for box, exc in zip(boxes, excs):
                run = box[0] if box else None
                desc = jobs.describe(exc) if exc is not None else None
                if desc and type(exc) in sched.ABORTS.values():
                    desc["injected"] = True
                out.append(finish(run, desc, True, fs))
                if step.get("keep"):
                    keep.append((run, exc))
            results.append({"runs": out, "switches": switches, "fired": fires})
            del excs, boxes
    return {"steps": results, "ticks": total, "fired": fired, "ops": len(fs.trace)}
