"""C18: a run leaves the file system as it was, except for the output it was asked for."""

import copy
import random

from sim import core
from sim import gen as G
from props import common

ID = "C18"
LEVEL = "exploration"
RULE = ("A case is one input tree and one way of running a tool (trlc, trlc_rst, the API). The tree is photographed before and after: "
        "undisturbed, with failing and partial reads, listings and writes, with files that change meanwhile, struck by exhausted memory or "
        "stack or by an interrupt at a seeded step, and at the moment the process is killed. Nothing may be created, deleted or changed (contents, permissions, times) "
        "but the --log file or the published document, and nothing outside of the tree may be opened for writing. Non-trivial: at "
        "least one disturbance fired. After a run through the API no file is left open.")
MEASURE = "distinct (tree, command, disturbance) executions"
COUNT = {"quick": 420, "thorough": 30000}
REAL = common.REAL + ["tools/trlc_rst", "bigtree"]
STUB = common.STUB + ["the point at which the process is struck or killed (between two lines of the code under test)"]
ASSUMPTIONS = common.ASSUME + ["--debug-vcg, which is asked to write graphs, is not part of the property"]


def gen(rng, index):
    tool = rng.choice(["trlc", "trlc", "trlc", "api", "rst", "rst"])
    model = G.generate(rng, pkgs=(1, 3), types=(1, 3), objs=(0, 6), checks=(0, 3), unused_import=0.3, null_unsafe=0.0,
                       warn=0.5, fatal=0.2, sections=0.4)
    files = G.layout(model, rng, dirs=rng.choice([[""], ["a", "b"], ["a", "a/b", "bazel-x", ".hidden"]]))
    tree = G.render(model, files)
    if rng.random() < 0.3:
        p = rng.choice(sorted(tree))
        tree[p] = common.damage_text(tree[p], rng)
    common.pad(tree, rng, 0.05)
    for p, data in (("README.md", "# read me\n"), ("a.rsl~", "package Old\n"), ("build/x.trlc.o", "\x00\x01"), ("a/.cache", ""),
                    ("out.rst.bak", "old\n"), ("notes.txt", "text")):
        if rng.random() < 0.3:
            tree[p] = data
    case = {"tree": tree, "tool": tool, "seed": rng.randrange(1 << 30), "hash": rng.randrange(4),
            "order": rng.choice([None, rng.randrange(1 << 30)]), "old": rng.choice([None, "old contents\n" * 30]), "todo": None}
    if tool == "api":
        case["spec"] = {"reg": [rng.choice([["dir", "."], ["file", p]]) for p in rng.sample(sorted(tree), min(2, len(tree)))],
                        "opts": {"brief": rng.random() < 0.5, "verify": rng.random() < 0.1}}
        if rng.random() < 0.3:
            case["spec"]["reg"].insert(0, ["include", "."])
        case["allowed"] = []
    elif tool == "rst":
        case["argv"] = ["-o", "out.rst", "-i", "."]
        case["allowed"] = ["out.rst"]
    else:
        case["argv"] = [rng.choice([".", ".", rng.choice(sorted(tree))])]
        case["argv"] += [f for f in ("--brief", "--show-file-list", "--debug-api-dump", "--debug-dump", "--no-lint", "--include-bazel-dirs",
                                     "--skip-trlc-files", "--no-error-recovery") if rng.random() < 0.25]
        case["argv"] += ["--verify"] if rng.random() < 0.1 else []
        case["argv"] += rng.choice([[], ["-I", "a"], ["-I", "."]])
        log = rng.choice([[], ["out.log"], ["out.log", "./"]])
        case["argv"] += ["--log"] + log if log else []
        case["allowed"] = log[:1]
    return case


def execute(env, case, plan=None, strike=None):
    tree = dict(case["tree"])
    for p in case["allowed"]:
        if case["old"] is not None:
            tree[p] = case["old"]
    args = {"tree": tree, "plan": dict({"order": case["order"]}, **(plan or {})), "strike": strike}
    if case["tool"] == "api":
        return env.call("sim.jobs_abort:api", dict(args, spec=case["spec"]), case["hash"])
    return env.call("sim.jobs_abort:process", dict(args, argv=case["argv"], tool=case["tool"]), case["hash"])


def disturbances(case, rng, total):
    rv = []
    paths = sorted(p for p in case["tree"] if p.endswith((".rsl", ".trlc"))) or sorted(case["tree"])
    dirs = sorted({p.rsplit("/", 1)[0] if "/" in p else "" for p in paths})
    for _ in range(3):
        op = rng.choice(["open", "read", "read", "list"])
        rv.append([{"faults": [{"op": op, "path": rng.choice(dirs if op == "list" else paths), "nth": rng.choice([0, 0, 0, 1]),
                                "fault": rng.choice({"open": ["EACCES", "ENOENT", "EMFILE"], "read": ["EIO", "ESTALE"],
                                                     "list": ["EACCES", "EIO"]}[op])}]}, None])
    for p in case["allowed"]:
        rv.append([{"out": [{"path": rng.choice(["/simroot/" + p, "*"]), "fault": rng.choice(["ENOSPC", "EIO"]), "at": rng.randrange(400)}]}, None])
        rv.append([{"faults": [{"op": "openw", "path": p, "nth": 0, "fault": rng.choice(["EACCES", "EROFS", "ENOSPC"])}]}, None])
    if not case["allowed"] and case["tool"] == "trlc":
        rv.append([{"out": [{"path": "<stdout>", "fault": rng.choice(["ENOSPC", "EIO", "EPIPE"]), "at": rng.randrange(200)}]}, None])
    rv.append([{"chunk": rng.choice([1, 7, 64])}, None])
    p = rng.choice(paths)
    rv.append([{"mutations": [{"op": rng.choice(["open", "read", "close"]), "path": p, "nth": 0, "act": rng.choice(["write", "delete"]),
                               "target": rng.choice([p, rng.choice(paths)]), "data": "package Changed\n"}]}, None])
    for _ in range(3):
        kind = rng.choice(["memory", "interrupt", "recursion", "stack"])
        at = rng.randint(12, 100) if kind == "stack" else rng.choice([rng.randint(1, total), max(1, total - int(10 ** rng.uniform(0, 2.5)))])
        rv.append([{}, [kind, at]])
    for _ in range(3):
        rv.append([{}, ["kill", rng.choice([rng.randint(1, total), max(1, total - int(10 ** rng.uniform(0, 2.5)))])]])
    return rv


def problems(case, fs, killed=False):
    allowed = set(case["allowed"])
    rv = []
    for key in ("created", "deleted", "changed"):
        bad = sorted(set(fs[key]) - allowed)
        if killed and key == "created":
            # (a document may be written beside its place first)
            bad = [p for p in bad if not any(p.rstrip("~").startswith(a) or p.rsplit("/", 1)[0:-1] == a.rsplit("/", 1)[0:-1] for a in allowed)]
        if bad:
            rv.append([key, bad])
    return rv


def run(case, env):
    rep = core.Report()
    rng = random.Random(case["seed"])
    rep.nontrivial = False
    clean = execute(env, case)
    rep.runs += 1
    if "out" not in clean:
        rep.hit("hang-or-died")
        return rep
    todo = case["todo"] if case["todo"] is not None else [[{}, None]] + disturbances(case, rng, max(1, clean["steps"]))
    for plan, strike in todo:
        res = execute(env, case, plan, strike) if plan or strike else clean
        rep.runs += 1
        name = "%s %s" % (plan or "", strike or "")
        focus = {"todo": [[plan, strike]]}
        if "out" not in res:
            rep.violate("hang", "%s: did not terminate (%s)" % (name, sorted(res)), focus)
            continue
        rep.steps += res["steps"]
        rep.saw(core.digest(case["tree"]), case.get("argv"), case.get("spec"), plan, strike)
        if plan or strike:
            fired = dict(res["fired"])
            fired.update(res["struck"])
            rep.fault(fired)
            if res["mutation_fired"]:
                fired["changed-meanwhile"] = res["mutation_fired"]
            rep.nontrivial = rep.nontrivial or bool(fired)
        who = "%s %s" % (case["tool"], case.get("argv") or case.get("spec"))
        if res["outside"]:
            rep.violate("outside", "%s, %s: tries to change %s" % (who, name, res["outside"][:3]), focus)
        for key, bad in problems(case, res["fs"]):
            rep.violate(key, "%s, %s: %s %s" % (who, name, key, bad[:5]), focus)
        if "durable" in res:
            for key, bad in problems(case, res["durable"], True):
                rep.violate("killed-" + key, "%s, %s: %s %s" % (who, name, key, bad[:5]), focus)
        if res.get("open"):
            rep.violate("left-open", "%s, %s: leaves %s open" % (who, name, res["open"][:5]), focus)
        if case["tool"] != "rst" and set(res.get("writes", ())) - set(case["allowed"]):
            rep.violate("writes", "%s, %s: opens %s for writing" % (who, name, sorted(set(res["writes"]) - set(case["allowed"]))), focus)
    rep.sample = {"tool": case["tool"], "argv": case.get("argv"), "disturbances": todo[:4]}
    return rep


def shrink(case):
    for p in sorted(case["tree"]):
        if len(case["tree"]) > 1 and p not in case.get("argv", []):
            c = copy.deepcopy(case)
            del c["tree"][p]
            yield c
    for n, a in enumerate(case.get("argv", [])):
        if a.startswith("--") and a != "--log":
            c = copy.deepcopy(case)
            del c["argv"][n]
            yield c
