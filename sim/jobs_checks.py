"""Jobs of C03 and C13: evaluating checks and querying results of one run."""

import io
import os
import random
import sys

from sim import jobs, sched, simfs
from sim.simproc import crash_site


def quiet_handler():
    from trlc.errors import Message_Handler
    out = io.StringIO()
    return Message_Handler(brief=True, out=out), out


def check_once(obj, stab):
    """Evaluates the checks of one object.  (output, verdict)"""
    from trlc.errors import TRLC_Error
    mh, out = quiet_handler()
    try:
        verdict = obj.perform_checks(mh, stab)
        verdict = {True: "ok", False: "failed"}.get(verdict, repr(verdict))
    except TRLC_Error:
        verdict = "error"
    return [out.getvalue(), verdict, mh.errors, mh.warnings]


def evaluate(scratch, tree, spec, program, plan=None, ident=0):
    """program: {"threads": [[object numbers]], "sched": {...}, "opcodes": bool,
    "aborts": {thread: [step, kind]}}.  Every listed object is checked by its
    thread; whatever was aborted is checked again at the end, by itself."""
    fs = simfs.SimFS(os.path.join(scratch, "fs"), tree, plan)
    jobs.own_identity_hash(ident)
    # an abort that strikes inside a finaliser is swallowed by the interpreter
    sys.unraisablehook = lambda _: None
    with fs:
        run = jobs.Api(spec)
        crash = None
        try:
            if run.register():
                run.process()
        except Exception as e:  # pylint: disable=broad-except
            crash = jobs.describe(e)
        stab = run.sm.stab
        objs = list(stab.iter_record_objects())
        names = [o.fully_qualified_name() for o in objs]
        places = [[o.location.file_name, o.location.line_no] for o in objs]
        rv = {"crash": crash, "api": run.result(dump=False), "names": names, "places": places, "results": [], "aborted": []}
        sch = sched.Scheduler(program["sched"], program.get("opcodes", False))

        def worker(numbers, into):
            def task():
                for n in numbers:
                    o = objs[n % len(objs)]
                    into.append([n % len(objs), None])
                    into[-1][1] = check_once(o, stab)
            return task
        logs = [[] for _ in program["threads"]]
        aborts = {int(k): v for k, v in program.get("aborts", {}).items()}
        if objs:
            res = sch.run([worker(numbers, log) for numbers, log in zip(program["threads"], logs)], aborts)
        else:
            res = []
        for i, (_, exc) in enumerate(res):
            if exc is not None:
                rv["aborted"].append([i, type(exc).__name__, None if i in aborts else crash_site(exc)])
        for log in logs:
            for n, r in log:
                if r is not None:
                    rv["results"].append([n, r])
        order = list(range(len(objs)))
        random.Random(program["sched"].get("seed", 0)).shuffle(order)
        rv["again"] = []
        for n in order:
            try:
                rv["again"].append([n, check_once(objs[n], stab)])
            except Exception as e:  # pylint: disable=broad-except
                rv["aborted"].append(["afterwards", type(e).__name__, crash_site(e)])
    rv["steps"] = sch.step
    rv["switches"] = sch.switches
    rv["fired"] = sch.fired
    rv["api"]["out"] = rv["api"]["out"].replace(fs.backing, simfs.VROOT)
    return rv
