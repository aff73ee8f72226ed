"""C04: a failed or partial read of an input never looks like success."""

import copy
import os
import random

from sim import core
from sim import gen as G
from props import common

ID = "C04"
LEVEL = "fault_enumeration"
RULE = ("A case is one input tree and one way of running the tool (command line or API, with or without include "
        "directories). It is run once without faults while recording every file-system operation; then once per "
        "(operation, fault kind), with files vanishing or being replaced by undecodable bytes between listing and reading, "
        "and with short and interrupted reads everywhere. Non-trivial: the fault-free run succeeds and at least one fault "
        "fired on a file or directory the run needs.")
MEASURE = "distinct (tree, operation, fault kind) points at which a fault fired"
COUNT = {"quick": 420, "thorough": 9000}
REAL, STUB = common.REAL, common.STUB
ASSUMPTIONS = common.ASSUME + ["a premature end of file without an error indication cannot be noticed by any program"]

HARD = {"open": ["EACCES", "ENOENT", "EIO", "EMFILE"], "read": ["EIO", "ESTALE"], "list": ["EACCES", "EIO", "ENOENT"]}
SOFT = {"stat": ["ENOENT", "EACCES", "EIO"], "close": ["EIO"]}
BAD_BYTES = ["\udcff", "\udcc3", "\udced\udca0\udc80", "\udc80", "\udcf8\udc88\udc80\udc80\udc80", "\udcc0\udcaf"]


def gen(rng, index):
    model = G.generate(rng, pkgs=(1, 3), types=(1, 2), objs=(0, 5), checks=(0, 2), null_unsafe=0.0, warn=rng.choice([1.0, 1.0, 0.5]),
                       fatal=0.0, unused_import=0.4)
    mode = rng.choice(["cli", "cli", "api", "api-go-on"])
    dirs = rng.choice([[""], ["main"], ["main", "main/sub"], ["main", "inc"], ["inc", "inc/deep", "main"]])
    files = G.layout(model, rng, dirs=dirs)
    if rng.random() < 0.2:
        # text that needs more than one raw read
        files[-1]["pad"] = rng.choice([9000, 20000])
    tree_dirs = sorted({f["path"].rsplit("/", 1)[0] for f in files if "/" in f["path"]})
    incs = [d for d in ["inc"] if any(p == d or p.startswith(d + "/") for p in tree_dirs)]
    named = [f["path"] for f in files if not f["path"].startswith("inc/")]
    style = rng.random()
    if not incs and style < 0.6:
        named = ["."]
    elif "main" in tree_dirs and style < 0.7:
        named = ["main"]
    if not named:
        named = ["."]
        incs = []
    return {"model": model, "files": files, "mode": mode, "named": named, "incs": incs, "seed": rng.randrange(1 << 30),
            "order": rng.choice([None, rng.randrange(1 << 30)]), "hash": rng.randrange(4),
            "brief": rng.random() < 0.5, "lint": rng.random() < 0.7, "recovery": rng.random() < 0.8, "faults": None}


def tree_of(case):
    tree = G.render(case["model"], case["files"])
    for f in case["files"]:
        if f.get("pad"):
            tree[f["path"]] += "\n" + "// padding é\n" * (f["pad"] // 14)
    return tree


def execute(env, case, tree, plan, trace=False):
    if case["mode"] == "cli":
        argv = ["--show-file-list", "--debug-api-dump"] + (["--brief"] if case["brief"] else []) + \
               ([] if case["lint"] else ["--no-lint"]) + ([] if case["recovery"] else ["--no-error-recovery"])
        argv += [x for d in case["incs"] for x in ("-I", d)] + case["named"]
        res = env.call("sim.jobs:cli", {"tree": tree, "argv": argv, "plan": plan, "want_trace": trace}, case["hash"])
    else:
        reg = [["include", d] for d in case["incs"]]
        reg += [["file", n] if n.endswith((".rsl", ".trlc")) else ["dir", n] for n in case["named"]]
        spec = {"reg": reg, "opts": {"brief": case["brief"], "lint": case["lint"], "recovery": case["recovery"]},
                "ignore_reg": case["mode"] == "api-go-on"}
        res = env.call("sim.jobs:api", {"tree": tree, "spec": spec, "plan": plan, "want_trace": trace}, case["hash"])
    return res


def success(case, res):
    if case["mode"] == "cli":
        return res["status"] == 0
    return res["success"]


def outcome(case, res):
    """What must not change."""
    if case["mode"] == "cli":
        return {"status": res["status"], "out": res["out"]}
    return {k: res.get(k) for k in ("success", "out", "stab", "errors", "warnings", "suppressed", "exc", "reg_ok")}


def relevant_dirs(case, tree):
    """Directories in which an input that the run has to use may lie."""
    rv = set()
    for n in case["named"] + case["incs"]:
        if n.endswith((".rsl", ".trlc")):
            continue
        for p in list(tree):
            d = os.path.dirname(p)
            while True:
                if n == "." or d == n or d.startswith(n + "/"):
                    rv.add(d)
                if not d:
                    break
                d = os.path.dirname(d)
    return rv


def points(case, trace, tree, needed, rng):
    """(plan, kind, strict): every single-fault plan."""
    base = {"order": case["order"]}
    dirs = relevant_dirs(case, tree)
    seen = set()
    rv = []
    first_open = {}
    for item in trace:
        if len(item) != 3:
            continue
        op, rel, nth = item
        if op == "open":
            first_open.setdefault(rel, nth)
        if (op, rel, nth) in seen:
            continue
        seen.add((op, rel, nth))
        strict = rel in needed or (op == "list" and rel in dirs)
        for kind in HARD.get(op, []):
            rv.append((dict(base, faults=[{"op": op, "path": rel, "nth": nth, "fault": kind}]), op + " " + kind + " " + rel, strict))
        if rel in tree or rel in dirs:
            for kind in SOFT.get(op, []):
                rv.append((dict(base, faults=[{"op": op, "path": rel, "nth": nth, "fault": kind}]), op + " " + kind + " " + rel, False))
    opened = list(first_open)
    for rel in opened:
        if rel not in tree:
            continue
        strict = rel in needed
        # vanished after it was listed (or named) and before it was opened
        own = next(i for i, t in enumerate(trace) if len(t) == 3 and t[0] == "open" and t[1] == rel)
        listed = max([i for i, t in enumerate(trace[:own]) if t[0] == "list" and t[1] == os.path.dirname(rel)], default=-1)
        between = [t for t in trace[listed + 1:own + 1] if len(t) == 3]
        for at in sorted({tuple(between[-1]), tuple(rng.choice(between))}):
            rv.append((dict(base, mutations=[{"op": at[0], "path": at[1], "nth": at[2], "act": "delete", "target": rel}]),
                       "vanish " + rel, strict))
        text = tree[rel]
        spots = {0, len(text), rng.randrange(len(text) + 1), rng.randrange(len(text) + 1)}
        for token in ('"', "//"):
            k = text.find(token)
            if k >= 0:
                spots.add(k + len(token))
        for spot in sorted(spots):
            bad = rng.choice(BAD_BYTES)
            rv.append((dict(base, mutations=[{"op": "open", "path": rel, "nth": first_open[rel], "act": "write", "target": rel,
                                              "data": text[:spot] + bad + text[spot:]}]), "undecodable %s@%u" % (rel, spot), strict))
    return rv


def gentle(case, trace, rng):
    """Plans that must change nothing."""
    base = {"order": case["order"]}
    reads = [t for t in trace if len(t) == 3 and t[0] == "read"]
    rv = [dict(base, chunk=1), dict(base, chunk=rng.choice([2, 3, 7, 64, 4096]))]
    if reads:
        rv.append(dict(base, faults=[{"op": "read", "path": t[1], "nth": t[2], "fault": "EINTR"} for t in reads]))
        some = rng.sample(reads, rng.randint(1, len(reads)))
        rv.append(dict(base, chunk=rng.choice([0, 5, 100]),
                       faults=[{"op": "read", "path": t[1], "nth": t[2], "fault": rng.choice(["EINTR", "short"]), "n": rng.randint(1, 9)}
                               for t in some]))
    return rv


def run(case, env):
    rep = core.Report()
    tree = tree_of(case)
    rng = random.Random(case["seed"])
    clean = execute(env, case, tree, {"order": case["order"]}, trace=True)
    rep.runs += 1
    if "out" not in clean:
        rep.hit("hang-or-died")
        return rep
    rep.steps += clean["steps"]
    trace = clean["trace"]
    good = success(case, clean)
    rep.hit("clean-success" if good else "clean-failure")
    needed = needed_files(case, tree)
    want = outcome(case, clean)
    if case["faults"] is not None:
        todo = [(p, w, is_strict(p, needed, relevant_dirs(case, tree))) for p, w in case["faults"]]
    else:
        todo = points(case, trace, tree, needed, rng)
    for plan, what, strict in todo if good else []:
        res = execute(env, case, tree, plan)
        rep.runs += 1
        if "out" not in res:
            rep.violate("hang", "%s: the tool did not terminate" % what)
            continue
        rep.steps += res["steps"]
        fired = bool(res["fired"]) or res["mutation_fired"]
        rep.fault(res["fired"])
        if res["mutation_fired"]:
            rep.fault({what.split(" ")[0]: 1})
        if not fired:
            rep.hit("fault-not-reached")
            continue
        rep.saw(core.digest(tree), case["mode"], what)
        if not success(case, res):
            continue
        if strict:
            rep.violate("success-despite-" + what.split(" ")[0], "%s on an input the run needs, and yet the run reports success (%s %s, "
                        "includes %s)" % (what, case["mode"], case["named"], case["incs"]), {"faults": [[plan, what]]})
        else:
            if what.split(" ")[0] in ("vanish", "undecodable"):
                continue
            diff = outcome(case, res)
            if diff != want:
                rep.violate("changed-by-" + what.split(" ")[0], "%s: the run reports success with a different result: %s" %
                            (what, common.diff(want["out"], diff["out"], "fault-free", "faulty")), {"faults": [[plan, what]]})
    rep.nontrivial = good and len(todo) > 0
    if case["faults"] is None:
        for plan in gentle(case, trace, rng):
            res = execute(env, case, tree, plan)
            rep.runs += 1
            if "out" not in res:
                rep.violate("hang", "short or interrupted reads: the tool did not terminate")
                continue
            rep.steps += res["steps"]
            rep.fault(res["fired"])
            if plan.get("chunk"):
                rep.fault({"read:chunked": 1})
            got = outcome(case, res)
            if got != want:
                rep.violate("gentle", "short or interrupted reads changed the result: %s" %
                            common.diff(want["out"], got["out"], "fault-free", "interrupted"))
    rep.sample = {"mode": case["mode"], "named": case["named"], "includes": case["incs"], "faults": [w for _, w, _ in todo][:8],
                  "fault_points": len(todo)}
    return rep


def needed_files(case, tree):
    from props import c02
    _, _, needed = c02.reference({"files": case["files"], "model": case["model"], "named": case["named"], "incs": case["incs"],
                                  "bazel": True})
    return needed


def is_strict(plan, needed, dirs):
    for f in plan.get("faults", []):
        if f["op"] in HARD and f["fault"] not in ("short", "EINTR"):
            return f["path"] in needed or (f["op"] == "list" and f["path"] in dirs)
    return any(m["target"] in needed for m in plan.get("mutations", []))


def shrink(case):
    for k, v in (("order", None), ("brief", True), ("lint", False), ("recovery", True)):
        if case[k] != v:
            c = copy.deepcopy(case)
            c[k] = v
            if k == "order":
                for f in c["faults"] or []:
                    f[0]["order"] = None
            yield c
    for f in case["files"]:
        if f.get("pad"):
            c = copy.deepcopy(case)
            for g in c["files"]:
                g.pop("pad", None)
            yield c
            break
    for c in common.shrink_model(case):
        if all(n in {f["path"] for f in c["files"]} or not n.endswith((".rsl", ".trlc")) for n in c["named"]):
            yield c
