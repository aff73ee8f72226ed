"""Jobs of C12: callbacks that raise."""

import os

from sim import jobs, simfs


class Cancelled(Exception):
    pass


class Abandon(BaseException):
    pass


def make(kind):
    if kind == "trlc":
        from trlc.errors import TRLC_Error, Location, Kind
        return TRLC_Error(Location("cancelled"), Kind.SYS_ERROR, "cancelled")
    return {"exception": Cancelled("x"), "base": Abandon("x"), "interrupt": KeyboardInterrupt(), "value": ValueError("x"),
            "assert": AssertionError("x"), "os": OSError(5, "x"), "key": KeyError("x"), "memory": MemoryError("x"),
            "stop": StopIteration("x"), "generator": GeneratorExit("x"), "attribute": AttributeError("x"),
            "unicode": UnicodeDecodeError("utf-8", b"x", 0, 1, "x"), "exit": SystemExit(3)}[kind]


def cancel(scratch, tree, spec, at, kind, plan=None, ident=0):
    """One run whose callback number `at` raises."""
    fs = simfs.SimFS(os.path.join(scratch, "fs"), tree, plan)
    jobs.own_identity_hash(ident)
    if spec.get("opts", {}).get("verify"):
        from sim import solver as solver_seam
        solver_seam.install({})
    exc = None
    ours = make(kind)
    returned = False
    with fs:
        run = jobs.Api(spec)

        def hook(_kind, _value):
            if len(run.calls) - 1 == at:
                raise ours
        run.hook = hook
        try:
            if run.register() or spec.get("ignore_reg", False):
                run.process()
                returned = True
        except simfs.HarnessError:
            raise
        except BaseException as e:  # pylint: disable=broad-except
            exc = e
    return {"calls": run.calls, "same": exc is ours, "exc": jobs.describe(exc) if exc is not None else None, "returned": returned,
            "steps": len(fs.trace) + len(run.calls), "fired": fs.fired}
