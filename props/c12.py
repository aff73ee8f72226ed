"""C12: progress callbacks follow one protocol and may cancel at any point."""

import copy
import random

from sim import core
from sim import gen as G
from props import common

ID = "C12"
LEVEL = "fault_enumeration"
RULE = ("A case is one input tree (valid, damaged, with circular or missing imports, with read faults or files vanishing after "
        "registration) and one set of options. It is run once recording all callbacks, then once per callback with that callback "
        "raising an exception. Non-trivial: at least three callbacks and one cancellation.")
MEASURE = "distinct (tree, options, cancelled callback, exception kind) points"
COUNT = {"quick": 1100, "thorough": 30000}
REAL, STUB = common.REAL, common.STUB + ["the application's callbacks"]
ASSUMPTIONS = common.ASSUME

KINDS = ["exception", "base", "interrupt", "value", "assert", "os", "key", "memory", "stop", "generator", "attribute", "unicode",
         "exit", "trlc"]


def gen(rng, index):
    model = G.generate(rng, pkgs=(1, 4), types=(1, 2), objs=(0, 8), checks=(0, 2), null_unsafe=rng.choice([0.0, 0.0, 0.3]),
                       warn=rng.choice([1.0, 0.5]), fatal=rng.choice([0.0, 0.2]), unused_import=0.4, big=0.02,
                       invalid_ref=rng.choice([0.0, 0.0, 0.5]))
    files = G.layout(model, rng, dirs=rng.choice([[""], ["main", "inc"], ["inc", "inc/x", ""]]), per_file=rng.choice([None, 1]))
    tree = G.render(model, files)
    common.pad(tree, rng, 0.05)
    paths = sorted(tree)
    roll = rng.random()
    kind = "valid"
    if roll < 0.4:
        kind = "damaged"
        for _ in range(rng.randint(1, 3)):
            p = rng.choice(paths)
            tree[p] = common.damage_text(tree[p], rng)
    elif roll < 0.5:
        kind = "circular"
        names = [p["name"] for p in model["pkgs"]]
        for p in rng.sample(paths, min(3, len(paths))):
            head, _, rest = tree[p].partition("\n")
            tree[p] = head + "\nimport %s\n" % rng.choice(names + ["Missing_Package"]) + rest
    elif roll < 0.55:
        kind = "empty"
        tree = {} if rng.random() < 0.5 else {paths[0]: rng.choice(["", "// nothing\n", "package"])}
    reg = [["dir", "."]]
    if tree and rng.random() < 0.5:
        paths = sorted(tree)
        mains = [p for p in paths if not p.startswith("inc/")] or paths[-1:]
        reg = [["include", rng.choice([".", "inc"])]] if any(p.startswith("inc/") for p in paths) else []
        reg += [["file", p] for p in rng.sample(mains, rng.randint(1, len(mains)))]
    plan = {"order": rng.choice([None, rng.randrange(1 << 30)])}
    if tree and rng.random() < 0.15:
        kind += "+fault"
        p = rng.choice(sorted(tree))
        plan["faults"] = [rng.choice([{"op": "open", "path": p, "nth": 0, "fault": "EIO"}, {"op": "read", "path": p, "nth": 0, "fault": "EIO"}])]
    opts = {"brief": True, "lint": rng.random() < 0.7, "recovery": rng.random() < 0.7, "trlc": rng.random() < 0.9,
            "verify": rng.random() < 0.04}
    return {"tree": tree, "kind": kind, "spec": {"reg": reg, "opts": opts, "ignore_reg": rng.random() < 0.5}, "plan": plan,
            "seed": rng.randrange(1 << 30), "hash": rng.randrange(4), "cancel": None}


def protocol(calls, returned, what):
    """Problem of a complete callback sequence, or None."""
    kinds = [c[0] for c in calls]
    if not kinds:
        return None if not returned else ("no-callback", "%s: processing returned without any callback" % what)
    if kinds[0] != "begin" or kinds.count("begin") != 1:
        return "begin", "%s: begin is not notified exactly once and first: %s" % (what, calls)
    if returned and (kinds[-1] != "end" or kinds.count("end") != 1):
        return "end", "%s: end is not notified exactly once and last: %s" % (what, calls)
    if not returned and "end" in kinds[:-1]:
        return "end", "%s: callbacks after end: %s" % (what, calls)
    values = [c[1] for c in calls if c[0] == "progress"]
    if any(not isinstance(v, int) or isinstance(v, bool) or v < 0 or v > 100 for v in values):
        return "range", "%s: progress values %s" % (what, values)
    if values != sorted(values):
        return "decreasing", "%s: progress values %s" % (what, values)
    return None


def run(case, env):
    rep = core.Report()
    args = {"tree": case["tree"], "plan": case["plan"]}
    res = env.call("sim.jobs:api", dict(args, spec=case["spec"], dump=False), case["hash"])
    rep.runs += 1
    what = "%s tree, %s" % (case["kind"], case["spec"])
    if "out" not in res:
        rep.hit("hang-or-died")
        rep.nontrivial = False
        return rep
    rep.steps += res["steps"]
    rep.fault(res["fired"])
    calls = res["calls"]
    processed = bool(calls)
    returned = res["exc"] is None and (res["reg_ok"] or case["spec"]["ignore_reg"])
    rep.hit(case["kind"])
    rep.hit("returned" if returned else "raised" if processed else "not-processed")
    problem = protocol(calls, returned, what)
    if problem:
        rep.violate(problem[0], problem[1])
        return rep
    values = [c[1] for c in calls if c[0] == "progress"]
    diags, _ = common.parse_brief(res["out"])
    only_checks = all(d[3] in ("check error", "check warning", "issue", "warning") for d in diags)
    complete = returned and case["spec"]["opts"]["trlc"] and case["tree"] and res["reg_ok"] and (res["success"] or only_checks)
    if complete:
        rep.hit("complete")
        if not values or values[-1] != 100:
            rep.violate("not-100", "%s: all needed files were processed, progress values are %s" % (what, values))
    rng = random.Random(case["seed"])
    todo = [(k, rng.choice(KINDS)) for k in range(len(calls))]
    if len(todo) > 9:
        todo = todo[:3] + rng.sample(todo[3:-2], 4) + todo[-2:]
    if case["cancel"] is not None:
        todo = [tuple(c) for c in case["cancel"]]
    for at, kind in todo:
        got = env.call("sim.jobs_cancel:cancel", dict(args, spec=case["spec"], at=at, kind=kind), case["hash"])
        rep.runs += 1
        if "calls" not in got:
            rep.hit("hang-or-died")
            continue
        rep.steps += got["steps"]
        if at >= len(calls):
            continue
        rep.fault({"cancel:" + kind: 1})
        rep.saw(core.digest(case["tree"]), case["spec"], at, kind)
        focus = {"cancel": [[at, kind]]}
        name = "%s: callback %u (%s) raises (%s)" % (what, at, calls[at], kind)
        if got["returned"]:
            rep.violate("swallowed", "%s: the exception is swallowed, processing returns normally" % name, focus)
        elif not got["same"]:
            rep.violate("replaced", "%s: the caller gets %s instead" % (name, got["exc"]), focus)
        if got["calls"] != calls[:at + 1]:
            rep.violate("callback-after-cancel", "%s: callbacks made are %s, without cancellation they are %s" %
                        (name, got["calls"], calls), focus)
    rep.nontrivial = len(calls) >= 3
    rep.sample = {"kind": case["kind"], "spec": case["spec"], "calls": calls[:12], "cancelled": todo}
    return rep


def shrink(case):
    if case["cancel"] is None:
        c = copy.deepcopy(case)
        c["cancel"] = []
        yield c
    for k in ("lint", "recovery", "trlc", "verify"):
        v = k != "verify"
        if case["spec"]["opts"][k] != v:
            c = copy.deepcopy(case)
            c["spec"]["opts"][k] = v
            yield c
    named = {r[1] for r in case["spec"]["reg"]}
    for p in sorted(case["tree"]):
        if p not in named:
            c = copy.deepcopy(case)
            del c["tree"][p]
            yield c
    for p in sorted(case["tree"]):
        lines = case["tree"][p].split("\n")
        n = len(lines) // 2
        while n >= 1:
            for s in range(0, len(lines), n):
                c = copy.deepcopy(case)
                c["tree"][p] = "\n".join(lines[:s] + lines[s + n:])
                yield c
            n //= 2
