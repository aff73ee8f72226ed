"""C05: a failed output write never looks like success."""

import copy
import random
import re

from sim import core
from sim import gen as G
from props import common

ID = "C05"
LEVEL = "fault_enumeration"
RULE = ("A case is one input tree and one command line (output to standard output or to a --log file, line- or block-buffered). "
        "After a fault-free run it is repeated with each fault kind (lasting or passing) at byte offsets spread over the whole output (all offsets of "
        "short outputs), on opening and closing the log file, and with short and interrupted writes. Non-trivial: the "
        "fault-free run writes something and at least one fault fired.")
MEASURE = "distinct (tree, sink, buffering, fault kind, byte offset) points at which a fault fired"
COUNT = {"quick": 500, "thorough": 12000}
REAL, STUB = common.REAL, common.STUB
ASSUMPTIONS = common.ASSUME + ["an output device either keeps failing or fails once"]

KINDS = ["EPIPE", "ENOSPC", "EIO"]


def gen(rng, index):
    big = rng.random() < 0.25
    model = G.generate(rng, pkgs=(1, 2), types=(1, 3), objs=(8, 40) if big else (0, 5), checks=(0, 3), null_unsafe=0.0,
                       warn=rng.choice([0.0, 1.0, 1.0]), fatal=0.0, unused_import=0.4)
    files = G.layout(model, rng, dirs=[""])
    style = rng.choice(["plain"] * 8 + ["version", "help", "damaged", "damaged"])
    argv = []
    if style in ("plain", "damaged"):
        for opt, p in (("--brief", 0.5), ("--no-lint", 0.2), ("--show-file-list", 0.7), ("--debug-api-dump", 0.8),
                       ("--error-on-warnings", 0.1), ("--no-user-warnings", 0.1), ("--skip-trlc-files", 0.05)):
            if rng.random() < p:
                argv.append(opt)
    else:
        argv.append("--" + style)
    sink = "log" if rng.random() < 0.45 and style in ("plain", "damaged") else "stdout"
    return {"model": model, "files": files, "argv": argv, "sink": sink, "line": rng.random() < 0.4,
            "damage": rng.randrange(1 << 30) if style == "damaged" else None, "seed": rng.randrange(1 << 30),
            "foreign": rng.choice([None, None, "ü", "✓ü"]) if style == "plain" else None,
            "entry": rng.choice(["trlc", "trlc", "trlc.trlc"]), "faults": None}


def tree_of(case):
    tree = G.render(case["model"], case["files"])
    if case["damage"] is not None:
        rng = random.Random(case["damage"])
        p = rng.choice(sorted(tree))
        tree[p] = common.damage_text(tree[p], rng)
    if case.get("foreign"):
        # messages and quoted lines with other characters
        tree["zz.rsl"] = "package Zz\ntype T {\n  d String\n}\nchecks T {\n  d != \"%s\", warning \"not %s\", d\n}\n" % ((case["foreign"],) * 2)
        tree["zz.trlc"] = "package Zz\nT a { d = \"%s\" }\nT b { d = \"b\" }\nT c { d = \"%s\" }\n" % ((case["foreign"],) * 2)
    return tree


def execute(env, case, tree, out, encoding="utf-8"):
    argv = list(case["argv"])
    if case["sink"] == "log":
        argv += ["--log", "out.log"]
        if case["seed"] % 3 == 0:
            argv += ["sub/"]
    argv.append(".") if case["sink"] == "log" else None
    if case["sink"] == "log":
        # --log takes several values: keep the positional apart
        argv = ["."] + argv[:-1]
    plan = {"order": None, "out": [f for f in out if f.get("op") != "openw"],
            "faults": [f for f in out if f.get("op") == "openw"]}
    return env.call("sim.jobs:cli", {"tree": tree, "argv": argv, "plan": plan, "keep": ["out.log"],
                                     "line_buffering": case["line"], "encoding": encoding,
                                     "entry": ["module", case["entry"]]}, 0)


def delivered(case, res):
    return res["out"] if case["sink"] == "stdout" else (res["files"]["out.log"] or "")


def offsets(n, rng):
    if n <= 24:
        return list(range(n))
    rv = {0, 1, n - 1, n - 2, n // 2}
    rv |= {x for x in (8191, 8192, 8193, 16384) if x < n}
    while len(rv) < 14:
        rv.add(rng.randrange(n))
    return sorted(rv)


def run(case, env):
    rep = core.Report()
    tree = tree_of(case)
    rng = random.Random(case["seed"])
    path = "<stdout>" if case["sink"] == "stdout" else "/simroot/out.log"
    clean = execute(env, case, tree, [])
    rep.runs += 1
    if "out" not in clean or clean["exc"]:
        rep.hit("no-clean-run")
        rep.nontrivial = False
        return rep
    want = delivered(case, clean)
    size = len(want.encode("utf-8"))
    rep.hit("clean-status-%u" % clean["status"])
    rep.hit("output-over-8k", int(size > 8192))
    todo = []
    for kind in KINDS:
        for at in offsets(size, rng):
            todo.append([{"path": path, "fault": kind, "at": at}])
        if case["sink"] == "log":
            todo.append([{"path": path, "fault": kind, "when": "close"}])
    if case["sink"] == "log":
        todo += [[{"op": "openw", "path": "out.log", "nth": 0, "fault": k}] for k in ("EACCES", "ENOSPC", "EISDIR")]
    gentle = [[{"path": path, "fault": "short", "n": n}] for n in (1, rng.randint(2, 40), 4096)]
    gentle += [[{"path": path, "fault": "EINTR", "at": at} for at in sorted({0, rng.randrange(size + 1), rng.randrange(size + 1)})]]
    gentle += [[{"path": path, "fault": "short", "n": rng.randint(1, 9)}, {"path": path, "fault": "EINTR", "at": rng.randrange(size + 1)}]]
    # devices that recover, and a pipe that is full for a moment
    for kind in ["ENOSPC", "EIO"] + (["EAGAIN", "EAGAIN"] if case["sink"] == "stdout" else []):
        todo.append([{"path": path, "fault": kind, "at": rng.choice(offsets(size, rng) or [0]), "once": True}])
    # interrupted first, then broken
    if size > 1:
        at = rng.randrange(1, size)
        todo.append([{"path": path, "fault": "short", "n": rng.randint(1, 5)}, {"path": path, "fault": "EINTR", "at": rng.randrange(at)},
                     {"path": path, "fault": rng.choice(KINDS), "at": at}])
    if case["faults"] is not None:
        todo = [f for f in case["faults"] if f[-1]["fault"] not in ("short", "EINTR")]
        gentle = [f for f in case["faults"] if f[-1]["fault"] in ("short", "EINTR")]
    any_fired = False
    for fault in todo:
        res = execute(env, case, tree, fault)
        rep.runs += 1
        what = "%s%s on %s%s%s" % (fault[-1]["fault"], " once" if fault[-1].get("once") else "", "standard output" if case["sink"] == "stdout" else "the log file",
                                 " at byte %u of %u" % (fault[-1]["at"], size) if "at" in fault[-1] else " on " + fault[-1].get("when", "open"),
                                 " (line-buffered)" if case["line"] else "")
        if "out" not in res:
            rep.violate("hang", "%s: did not terminate" % what)
            continue
        rep.steps += res["steps"]
        hard = sum(n for k, n in res["fired"].items() if not k.endswith((":short", ":EINTR")))
        rep.fault(res["fired"])
        if not hard:
            rep.hit("fault-not-reached")
            # the output must have been complete, then
            if delivered(case, res) != want or res["status"] != clean["status"]:
                rep.violate("differs", "%s (never reached): the run differs from the fault-free one" % what, {"faults": [fault]})
            continue
        any_fired = True
        rep.saw(core.digest(tree), case["argv"], case["line"], what)
        if res["status"] == 0 and not (fault[-1].get("once") and delivered(case, res) == want):
            rep.violate("success-despite-" + ("log" if case["sink"] == "log" else "stdout"), "%s: exit status 0; options %s, unraisable %s" %
                        (what, case["argv"], res["unraisable"]), {"faults": [fault]})
        elif case["sink"] == "stdout" and fault[-1]["fault"] == "EPIPE":
            if res["status"] != 141:
                rep.violate("broken-pipe-status", "%s: exit status %u instead of 141; options %s, %s" %
                            (what, res["status"], case["argv"], res["err"][-300:]), {"faults": [fault]})
            elif res["exc"] or "Traceback" in res["err"] or res["unraisable"]:
                rep.violate("broken-pipe-traceback", "%s: %s %s" % (what, res["unraisable"], res["err"][-400:]), {"faults": [fault]})
        got = delivered(case, res)
        # (a character may have been cut in two)
        if not want.startswith(re.sub("[\ufffd\udc80-\udcff]+$", "", got)) and not fault[-1].get("once"):
            rep.violate("not-a-prefix", "%s: what was delivered is not a prefix of the fault-free output: %s" %
                        (what, common.diff(want, got, "fault-free", "delivered")), {"faults": [fault]})
    # a terminal or file that cannot show every character
    if case["sink"] == "stdout":
        for enc in ("ascii", "latin-1"):
            try:
                want.encode(enc)
                gap = False
            except UnicodeEncodeError:
                gap = True
            res = execute(env, case, tree, [], enc)
            rep.runs += 1
            if "out" not in res:
                rep.violate("hang", "output in %s: did not terminate" % enc)
            elif gap:
                any_fired = True
                rep.fault({"write:unencodable": 1})
                rep.saw(core.digest(tree), case["argv"], case["line"], enc)
                if res["status"] == 0:
                    rep.violate("success-despite-encoding", "standard output in %s cannot hold all of the output: exit status 0; options %s" %
                                (enc, case["argv"]))
                if not want.startswith(res["out"]):
                    rep.violate("not-a-prefix", "standard output in %s: what was delivered is not a prefix of the output: %s" %
                                (enc, common.diff(want, res["out"], "utf-8", "delivered")))
            elif res["out"] != want or res["status"] != clean["status"]:
                rep.violate("encoding", "standard output in %s: differs from that in UTF-8: %s" % (enc, common.diff(want, res["out"], "utf-8", enc)))
    for fault in gentle:
        res = execute(env, case, tree, fault)
        rep.runs += 1
        if "out" not in res:
            rep.violate("hang", "short or interrupted writes: did not terminate", {"faults": [fault]})
            continue
        rep.steps += res["steps"]
        rep.fault(res["fired"])
        if delivered(case, res) != want or res["status"] != clean["status"] or res["exc"]:
            rep.violate("gentle", "short or interrupted writes changed the result: status %s, %s" %
                        (res["status"], common.diff(want, delivered(case, res), "fault-free", "delivered")), {"faults": [fault]})
    rep.nontrivial = size > 0 and any_fired
    rep.sample = {"argv": case["argv"], "sink": case["sink"], "line_buffered": case["line"], "output_bytes": size,
                  "fault_points": len(todo)}
    return rep


def shrink(case):
    for k, v in (("line", False), ("damage", None), ("entry", "trlc"), ("foreign", None)):
        if case.get(k) != v:
            c = copy.deepcopy(case)
            c[k] = v
            yield c
    yield from common.shrink_list(case, "argv")
    yield from common.shrink_model(case)
    if case["faults"] and "at" in case["faults"][0][-1] and case["faults"][0][-1]["at"]:
        for at in (0, case["faults"][0][-1]["at"] // 2):
            c = copy.deepcopy(case)
            c["faults"][0][-1]["at"] = at
            yield c
    if case["faults"] and len(case["faults"][0]) > 1:
        c = copy.deepcopy(case)
        c["faults"][0] = c["faults"][0][-1:]
        yield c
