"""C06: an SMT solver that gives up makes --verify more cautious, never less."""

import copy
import random
import re

from sim import core
from sim import gen as G
from props import common

ID = "C06"
LEVEL = "exploration"
RULE = ("A case is one model whose checks are statically verified: once with the solver answering under a deterministic "
        "resource limit, then again and again with seeded subsets of the queries (one, several, all) timing out and with other, "
        "well-sorted, partial or missing counter-example values. Compared are the located issues by kind. Non-trivial: at least "
        "one query was sent to the solver.")
MEASURE = "distinct (model, timed-out queries, answers) histories"
COUNT = {"quick": 400, "thorough": 12000}
REAL = common.REAL + ["trlc.vcg, PyVCG's graph, VC generation and CVC5 driver, CVC5 itself"]
STUB = common.STUB + ["CVC5's wall-clock limit (replaced by its deterministic resource limit)",
                      "the solver's answer where the plan says it times out or finds another model"]
ASSUMPTIONS = common.ASSUME + ["a query that times out is reported as unknown, with any well-sorted values or none at all"]

VCG_KINDS = re.compile(r"\[vcg-([a-z0-9-]+)\]$")


def gen(rng, index):
    model = G.generate(rng, pkgs=(1, 2), types=(1, 4), objs=(0, 3), checks=(1, 3), depth=rng.choice([1, 2, 2, 3]), p_checks=0.9,
                       null_unsafe=rng.choice([0.1, 0.4, 0.8]), fatal=rng.choice([0.0, 0.3, 0.6]), unused_import=0.0,
                       tuples=0.7, arrays=0.5, unions=0.4)
    for pkg in model["pkgs"]:
        for item in pkg["items"]:
            if item["k"] == "checks":
                for c in item["checks"]:
                    if rng.random() < 0.35:
                        a = c["expr"]
                        c["expr"] = rng.choice([["bin", "or", a, ["un", "not", a]], ["bin", "implies", a, a],
                                                ["if", [[a, ["lit", ["bool", True]]]], ["lit", ["bool", True]]],
                                                ["bin", "implies", a, ["lit", ["bool", True]]],
                                                ["bin", "or", ["lit", ["bool", True]], a],
                                                ["bin", "or", ["un", "not", ["bin", "and", a, a]], a]])
    bound_paths(model, rng.choice([6, 12, 24]))
    files = G.layout(model, rng, dirs=[""])
    plans = []
    for _ in range(rng.choice([2, 3, 4])):
        roll = rng.random()
        plan = {"seed": rng.randrange(1 << 30), "values": rng.choice(["real", "random", "none", "partial", "mixed", "mixed"])}
        if roll < 0.2:
            plan["unknown"] = "all"
        elif roll < 0.5:
            plan["unknown"] = [rng.randrange(rng.choice([4, 16, 64]))]
        else:
            plan["p"] = rng.choice([0.1, 0.3, 0.6])
        plans.append(plan)
    return {"model": model, "files": files, "plans": plans, "hash": rng.randrange(4), "detail": rng.random() < 0.5,
            "eow": rng.random() < 0.2, "seed": rng.randrange(1 << 30)}


def paths(e):
    """Number of paths the verifier explores through an expression."""
    k = e[0]
    if k == "bin":
        a, b = paths(e[2]), paths(e[3])
        return a * (1 + b) if e[1] in ("and", "or", "implies") else a * b
    if k == "if":
        rv, seen = 0, 1
        for c, x in e[1]:
            seen *= paths(c)
            rv += seen * paths(x)
        return rv + seen * paths(e[2])
    if k == "quant":
        return 1
    rv = 1
    for x in e[1:]:
        if isinstance(x, list) and x and isinstance(x[0], str):
            rv *= paths(x)
        elif isinstance(x, list):
            for y in x:
                if isinstance(y, list) and y and isinstance(y[0], str):
                    rv *= paths(y)
    return rv


def bound_paths(model, limit):
    """Drops checks that make the verifier's exponential paths explode."""
    for pkg in model["pkgs"]:
        known = {}
        for item in pkg["items"]:
            if item["k"] != "checks":
                continue
            keep = []
            for c in item["checks"]:
                n = paths(c["expr"])
                so_far = known.get("all", 1)
                if n > limit or so_far * n > 4 * limit:
                    continue
                if c["sev"] == "fatal":
                    known["all"] = so_far * n
                keep.append(c)
            item["checks"] = keep
        pkg["items"] = [i for i in pkg["items"] if i["k"] != "checks" or i["checks"]]


def split(text):
    """(verification issues, other lines)"""
    issues, others = [], []
    for line in text.split("\n"):
        m = VCG_KINDS.search(line)
        if m and common.DIAG.match(line):
            issues.append((m[1], line))
        else:
            others.append(line)
    return issues, others


def crash(res):
    return common.crash_key(res["exc"], res["site"], res["err"])


def run(case, env):
    rep = core.Report()
    tree = G.render(case["model"], case["files"])
    argv = [".", "--verify", "--brief"] + ([] if case["detail"] else ["--no-detailed-info"]) + (["--error-on-warnings"] if case["eow"] else [])

    def go(args, plan):
        res = env.call("sim.jobs:cli", {"tree": tree, "argv": args, "solver": plan}, case["hash"], 60.0)
        rep.runs += 1
        if "out" not in res:
            rep.hit("slow" if res.get("hang") else "died")
            if res.get("died"):
                rep.violate("died", "%s: the interpreter died (%s)" % (" ".join(args), res["died"]))
            return None
        rep.steps += res["steps"]
        return res

    base = go(argv, {})
    if base is None:
        return rep
    queries = base["queries"]
    rep.nontrivial = bool(queries)
    rep.hit("queries", len(queries))
    rep.hit("queries-unknown-by-themselves", len([q for q in queries if q[0] == "unknown"]))
    if base["exc"]:
        rep.violate("crash " + crash(base), "%s ended with %s\n%s" % (" ".join(argv), base["exc"], base["err"][-600:]))
        return rep
    b_issues, b_other = split(base["out"])
    b_true = {l for k, l in b_issues if k == "always-true"}
    b_risk = {l for k, l in b_issues if k != "always-true"}
    rep.hit("issues", len(b_risk))
    rep.hit("always-true", len(b_true))
    if len(set(b_issues)) != len(b_issues):
        rep.hit("repeated-issue")
    for n, plan in enumerate(case["plans"]):
        res = go(argv, plan)
        if res is None:
            continue
        forced = [i for i, q in enumerate(res["queries"]) if q[0] != q[1]]
        rep.fault({"solver-timeout": len(forced), "values-" + plan["values"]: 1})
        rep.saw(core.digest(tree), res["queries"], plan["values"])
        focus = {"plans": [dict(plan, unknown=forced, p=0.0)]}
        what = "%s with queries %s of %u timing out (values: %s)" % (" ".join(argv), forced[:20], len(res["queries"]), plan["values"])
        if res["exc"]:
            rep.violate("timeout-crash " + crash(res), "%s ended with %s\n%s" % (what, res["exc"], res["err"][-600:]), focus)
            continue
        issues, other = split(res["out"])
        risk = {l for k, l in issues if k != "always-true"}
        true = {l for k, l in issues if k == "always-true"}
        if b_risk - risk:
            rep.violate("less-cautious", "%s: no longer reported: %s" % (what, sorted(b_risk - risk)[0]), focus)
        if true - b_true:
            rep.violate("false-always-true", "%s: reported only then: %s" % (what, sorted(true - b_true)[0]), focus)
        if forced:
            rep.hit("timeouts-with-extra-issues", 1 if risk - b_risk else 0)
            rep.hit("timeouts-losing-always-true", 1 if b_true - true else 0)
        keep = [l for l in other if not common.SUMMARY.match(l)]
        if not case["detail"] and keep != [l for l in b_other if not common.SUMMARY.match(l)]:
            rep.violate("other-output", "%s: %s" % (what, common.diff("\n".join(b_other), "\n".join(other), "answered", "timed out")), focus)
        errors = any(common.DIAG.match(l) and common.DIAG.match(l)["kind"] in ("error", "check error") for l in keep)
        warned = any(common.DIAG.match(l) for l in keep) or bool(issues)
        want = 1 if errors or (case["eow"] and warned) else 0
        if res["status"] != want:
            rep.violate("status", "%s: exit status %s instead of %s" % (what, res["status"], want), focus)

    # only other counter-example values
    if not case.get("bare", True):
        return rep
    bare = [".", "--verify", "--no-detailed-info"] + (["--brief"] if case["seed"] % 2 else [])
    first = go(bare, {})
    rng = random.Random(case["seed"])
    for kind in ("random", "mixed"):
        res = go(bare, {"values": kind, "seed": rng.randrange(1 << 30)})
        if first is None or res is None:
            continue
        rep.fault({"other-values": 1})
        if res["exc"] and not first["exc"]:
            rep.violate("values-crash " + crash(res), "%s with other values ended with %s\n%s" % (" ".join(bare), res["exc"], res["err"][-600:]))
        elif (res["out"], res["status"]) != (first["out"], first["status"]):
            rep.violate("values-matter", "%s: %s" % (" ".join(bare), common.diff(first["out"], res["out"], "one choice of values", "another")))
    rep.sample = {"queries": len(queries), "issues": sorted(b_risk)[:2], "always_true": sorted(b_true)[:1], "plans": case["plans"][:2]}
    return rep


def shrink(case):
    if case.get("bare", True):
        yield dict(copy.deepcopy(case), bare=False)
    yield from common.shrink_list(case, "plans", 1)
    for i, plan in enumerate(case["plans"]):
        if isinstance(plan.get("unknown"), list) and len(plan["unknown"]) > 1:
            for k in range(len(plan["unknown"])):
                c = copy.deepcopy(case)
                del c["plans"][i]["unknown"][k]
                yield c
    yield from common.shrink_model(case)
