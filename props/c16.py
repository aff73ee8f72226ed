"""C16: a run that is struck down never looks like success."""

import copy
import random

from sim import core
from sim import gen as G
from props import common

ID = "C16"
LEVEL = "exploration"
RULE = ("A case is one input tree and one way of running a tool (trlc, trlc_rst, the API). It is run once undisturbed, with the lines of "
        "the code under test that it executes counted. Then it is run again 8 times, each time struck at one seeded step by an "
        "exhausted memory, an interrupt, an exhausted stack, or a stack that is too small from the start. Exit status 0 (or a symbol "
        "table) is only allowed together with the undisturbed output and result. Non-trivial: at least one strike fired.")
MEASURE = "distinct (content, command, kind and step of the strike) executions"
COUNT = {"quick": 900, "thorough": 40000}
REAL, STUB = common.REAL + ["tools/trlc_rst"], common.STUB + ["the point at which memory, stack or patience run out (raised between two lines)"]
ASSUMPTIONS = common.ASSUME + ["exhausted memory and interrupts are raised between two lines of the code under test, not inside C functions"]
STRIKES = ["memory", "memory", "interrupt", "recursion", "cancel", "stack"]


def gen(rng, index):
    tool = rng.choice(["trlc", "trlc", "trlc", "api", "api", "rst"])
    valid = tool == "rst" or rng.random() < 0.75
    model = G.generate(rng, pkgs=(1, 3), types=(1, 3), objs=(0, 6), checks=(0, 3), unused_import=0.4, null_unsafe=0.0,
                       warn=1.0 if valid else 0.5, fatal=0.0 if valid else 0.3, sections=0.4)
    files = G.layout(model, rng, dirs=rng.choice([[""], ["a", "b"]]))
    tree = G.render(model, files)
    if not valid and rng.random() < 0.6:
        p = rng.choice(sorted(tree))
        tree[p] = common.damage_text(tree[p], rng)
    case = {"tree": tree, "tool": tool, "seed": rng.randrange(1 << 30), "order": rng.choice([None, rng.randrange(1 << 30)]),
            "hash": rng.randrange(4), "strikes": None, "line": rng.random() < 0.5}
    if tool == "api":
        case["spec"] = {"reg": [["dir", "."]], "opts": {"brief": rng.random() < 0.5, "lint": rng.random() < 0.8,
                                                        "recovery": rng.random() < 0.8, "verify": rng.random() < 0.05}}
    elif tool == "rst":
        case["argv"] = ["-o", "out.rst", "-i", "."]
    else:
        case["argv"] = [f for f, p in (("--brief", 0.4), ("--no-lint", 0.2), ("--debug-api-dump", 0.4), ("--show-file-list", 0.4),
                                       ("--no-error-recovery", 0.1), ("--verify", 0.05)) if rng.random() < p] + \
                       rng.choice([[], ["--log", "out.log"]])
        if rng.random() < 0.5:
            case["argv"] = ["."] + case["argv"]
    return case


def execute(env, case, strike):
    common_args = {"tree": case["tree"], "plan": {"order": case["order"]}, "strike": strike}
    if case["tool"] == "api":
        return env.call("sim.jobs_abort:api", dict(common_args, spec=case["spec"]), case["hash"])
    return env.call("sim.jobs_abort:process", dict(common_args, argv=case["argv"], tool=case["tool"], keep=["out.log", "out.rst"],
                                                   line_buffering=case["line"]), case["hash"])


def run(case, env):
    rep = core.Report()
    rng = random.Random(case["seed"])
    clean = execute(env, case, None)
    rep.runs += 1
    rep.nontrivial = False
    if "out" not in clean or clean["exc"]:
        rep.hit("no-clean-run")
        return rep
    api = case["tool"] == "api"
    total = clean["steps"]
    rep.steps += total
    rep.hit("clean-" + ("success" if (clean["success"] if api else clean["status"] == 0) else "failure"))
    strikes = case["strikes"]
    if strikes is None:
        strikes = []
        for _ in range(8):
            kind = rng.choice(STRIKES)
            if kind == "stack":
                strikes.append([kind, rng.choice([rng.randint(12, 60), rng.randint(12, 120)])])
            elif rng.random() < 0.25:
                # towards the end, when results are reported
                strikes.append([kind, max(1, total - int(10 ** rng.uniform(0, 2.5)))])
            else:
                strikes.append([kind, rng.randint(1, max(1, total))])
    for strike in strikes:
        res = execute(env, case, strike)
        rep.runs += 1
        what = "%s %s (of %u steps)" % (strike[0], strike[1], total)
        focus = {"strikes": [strike]}
        if "out" not in res:
            rep.violate("hang", "%s: %s" % (what, sorted(res)), focus)
            continue
        rep.steps += res["steps"]
        fired = bool(res["struck"]) or (strike[0] == "stack" and (res["exc"] is not None or res["out"] != clean["out"]))
        if not fired:
            rep.hit("not-reached")
        else:
            rep.nontrivial = True
            rep.fault({strike[0]: 1})
        rep.saw(core.digest(case["tree"]), case.get("argv"), case.get("spec"), strike)
        if api:
            if res["exc"]:
                rep.hit("raised")
                continue
            if not res["success"]:
                rep.hit("reported-failure")
                continue
            for key in ("out", "success", "errors", "warnings", "stab", "text", "wrong_targets"):
                if res.get(key) != clean.get(key):
                    rep.violate("api-" + key, "%s: process() returned a symbol table, but %s differs from the undisturbed run: %s" %
                                (what, key, short(clean.get(key), res.get(key))), focus)
                    break
            else:
                rep.hit("complete-anyway")
            continue
        rep.hit("status-%u" % res["status"])
        if res["status"] == 0:
            same = res["out"] == clean["out"] and res["files"] == clean["files"]
            if not same or clean["status"] != 0:
                rep.violate("status", "%s: exit status 0, but %s" % (what, "the undisturbed run ends with %u" % clean["status"] if same else
                            short([clean["out"], clean["files"]], [res["out"], res["files"]])), focus)
            else:
                rep.hit("complete-anyway")
    rep.sample = {"tool": case["tool"], "argv": case.get("argv"), "steps": total, "strikes": strikes}
    return rep


def short(a, b):
    if isinstance(a, str) and isinstance(b, str):
        return common.diff(a, b, "undisturbed", "struck")
    return common.diff(core.json.dumps(a, indent=1, sort_keys=True), core.json.dumps(b, indent=1, sort_keys=True), "undisturbed", "struck")


def shrink(case):
    for p in sorted(case["tree"]):
        if len(case["tree"]) > 1:
            c = copy.deepcopy(case)
            del c["tree"][p]
            yield c
