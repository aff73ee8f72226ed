"""C14: a run works on one snapshot of each file."""

import copy
import random

from sim import core
from sim import gen as G
from props import common

ID = "C14"
LEVEL = "exploration"
RULE = ("A case is one input tree and one way of registering it (directories, files, includes, explicit contents). It is run once "
        "undisturbed, then again while files that were already registered are changed, replaced, deleted, made unreadable or "
        "renamed: after any registration, at any callback, whenever the next file is opened, and before the result is read. "
        "Everything reported must be the same. Files registered with explicit content lie on disk with other content and must "
        "not be opened. Non-trivial: at least one change was made to a registered file.")
MEASURE = "distinct (tree, registration, point and kinds of change) combinations"
COUNT = {"quick": 2500, "thorough": 30000}
REAL, STUB = common.REAL, common.STUB + ["the editor that changes files"]
ASSUMPTIONS = common.ASSUME + ["files of include directories count as registered once processing has read them, as register_include "
                               "only notes their names"]

KINDS = ["delete", "empty", "shift", "damage", "append", "binary", "truncate", "comment", "swap", "directory", "fault"]
LATE = KINDS + ["create", "rename"]


def gen(rng, index):
    model = G.generate(rng, pkgs=(1, 4), types=(1, 3), objs=(0, 8), checks=(0, 3), null_unsafe=rng.choice([0.0, 0.3]),
                       warn=rng.choice([0.0, 0.5, 1.0]), fatal=rng.choice([0.0, 0.2]), unused_import=0.4,
                       invalid_ref=rng.choice([0.0, 0.0, 0.5]), sections=rng.choice([0.0, 0.6]), big=0.01)
    files = G.layout(model, rng, dirs=rng.choice([[""], ["main", "inc"], ["inc", "inc/x", ""], ["b", "a", "c/d"]]), per_file=rng.choice([None, 1]))
    tree = G.render(model, files)
    common.pad(tree, rng)
    paths = sorted(tree)
    damaged = 0
    if rng.random() < 0.45:
        damaged = rng.randint(1, 3)
        for _ in range(damaged):
            p = rng.choice(paths)
            tree[p] = common.damage_text(tree[p], rng)
    if rng.random() < 0.08:
        tree[rng.choice(paths)] = rng.choice(["", "\n", "// only a comment\n", "/* x */"])
    content = []
    roll = rng.random()
    if roll < 0.25:
        mode, reg = "dir", [["dir", "."]]
    elif roll < 0.4:
        mode = "dirs"
        tops = sorted({p.split("/")[0] for p in paths if "/" in p})
        rng.shuffle(tops)
        reg = [["dir", t] for t in tops] + [["file", p] for p in paths if "/" not in p]
        rng.shuffle(reg)
    else:
        mode = "files"
        named = rng.sample(paths, rng.randint(1, len(paths))) if rng.random() < 0.5 else rng.sample(paths, len(paths))
        incs = []
        if len(named) < len(paths) or rng.random() < 0.3:
            incs = [["include", rng.choice([".", "."] + sorted({p.split("/")[0] for p in paths if "/" in p}))]]
            mode = "include"
        if rng.random() < 0.5:
            content = [p for p in named if rng.random() < 0.6]
        reg = incs + [["file", p] for p in named]
    opts = {"brief": rng.random() < 0.4, "lint": rng.random() < 0.7, "recovery": rng.random() < 0.8, "trlc": rng.random() < 0.95,
            "verify": False, "detail": rng.random() < 0.8}
    if mode == "include":
        # (requirement files would not be registered, but stay candidates for inclusion)
        opts["trlc"] = True
    return {"tree": tree, "reg": reg, "mode": mode, "content": content, "opts": opts, "damaged": damaged, "seed": rng.randrange(1 << 30),
            "order": rng.choice([None, rng.randrange(1 << 30)]), "chunk": rng.choice([0, 0, 7]), "hash": rng.randrange(4), "only": None}


FIELDS = ("success", "errors", "warnings", "suppressed", "calls", "exc", "reg_ok", "again", "out", "stab", "text", "wrong_targets")


def compare(rep, cls, what, want, got, focus):
    for key in FIELDS:
        if want.get(key) != got.get(key):
            a, b = want.get(key), got.get(key)
            if isinstance(a, str) and isinstance(b, str):
                detail = common.diff(a, b, "undisturbed", "changed")
            else:
                detail = common.diff(core.json.dumps(a, indent=1, sort_keys=True), core.json.dumps(b, indent=1, sort_keys=True),
                                     "undisturbed", "changed")
            rep.violate("%s-%s" % (cls, key), "%s: %s differs: %s" % (what, key, detail), focus)
            return


def decoy(text, rng):
    roll = rng.random()
    if roll < 0.3:
        return "// other\n\n" + text.replace("e", "a", 2)
    if roll < 0.5:
        return "\udcff\udcfe"
    if roll < 0.7:
        return ""
    return common.damage_text(text, rng)


def run(case, env):
    rep = core.Report()
    rng = random.Random(case["seed"])
    tree = case["tree"]
    spec = {"reg": case["reg"], "opts": case["opts"], "again": True, "ignore_reg": rng.random() < 0.5}
    plan = {"order": case["order"], "chunk": case["chunk"]}
    base = env.call("sim.jobs_snapshot:snap", {"tree": tree, "spec": spec, "plan": plan, "ops": True}, case["hash"], 120.0)
    rep.runs += 1
    rep.nontrivial = False
    if "out" not in base:
        rep.hit("hang-or-died")
        return rep
    rep.steps += base["steps"]
    rep.hit(case["mode"])
    rep.hit("accepted" if base["success"] else "rejected")
    what = "%s, %s" % (case["reg"], case["opts"])
    # -- explicit content
    if case["content"]:
        disk = dict(tree)
        faults = []
        for p in case["content"]:
            disk[p] = decoy(tree[p], rng)
            if rng.random() < 0.4:
                faults.append({"op": "open", "path": p, "nth": 0, "sticky": True, "fault": "EIO"})
        reg = [[r[0], r[1], tree[r[1]]] if r[0] == "file" and r[1] in case["content"] else r for r in case["reg"]]
        got = env.call("sim.jobs_snapshot:snap", {"tree": disk, "spec": dict(spec, reg=reg), "plan": dict(plan, faults=faults),
                                                  "ops": True}, case["hash"], 120.0)
        rep.runs += 1
        if "out" in got:
            rep.nontrivial = True
            rep.fault({"decoy": len(case["content"])})
            rep.saw(core.digest(tree), reg, "content")
            touched = sorted({t[1] for t in got["trace"] if t[0] in ("open", "read") and t[1] in case["content"]})
            focus = {"only": []}
            if touched:
                rep.violate("opened", "%s: %s was registered with its content, but is read from disk" % (what, touched[0]), focus)
            compare(rep, "content", "%s, explicit content of %s" % (what, case["content"]), base, got, focus)
    # -- changes behind the program's back
    points = [["reg", k] for k in range(len(case["reg"]))] + [["call", k] for k in range(len(base["calls"]))] + [["after", 0]] + \
             [["op", k] for k in range(1, base["opens"])]
    plans = []
    for _ in range(5):
        edits = []
        for point in rng.sample(points, min(len(points), rng.choice([1, 1, 2, 4]))):
            late = point[0] in ("call", "after") or point == ["reg", len(case["reg"]) - 1]
            kinds = LATE if late else KINDS
            edits.append({"point": point, "seed": rng.randrange(1 << 30), "all": rng.random() < 0.5, "n": rng.randint(1, 2),
                          "kinds": [rng.choice(kinds)] if rng.random() < 0.5 else kinds})
        plans.append(edits)
    # always: everything changes between registration and processing
    last = ["reg", len(case["reg"]) - 1]
    plans.append([{"point": last, "seed": rng.randrange(1 << 30), "all": True, "kinds": [rng.choice(["shift", "comment", "swap"])]}])
    if case["only"] is not None:
        plans = case["only"]
    for edits in plans:
        got = env.call("sim.jobs_snapshot:snap", {"tree": tree, "spec": spec, "plan": plan, "edits": edits}, case["hash"], 120.0)
        rep.runs += 1
        if "out" not in got:
            rep.hit("hang-or-died")
            continue
        rep.steps += got["steps"]
        rep.fault({"change:" + k: n for k, n in got["changes"].items()})
        rep.nontrivial = rep.nontrivial or bool(got["changes"])
        rep.saw(core.digest(tree), case["reg"], edits)
        for e in edits:
            rep.hit("at-" + e["point"][0])
        compare(rep, "changed", "%s, files changed %s at %s" % (what, got["changes"], [e["point"] for e in edits]), base, got,
                {"only": [edits], "content": []})

    # -- the command-line tool
    if case["mode"] in ("dir", "dirs", "include") and rng.random() < 0.5:
        argv = [r[1] for r in case["reg"] if r[0] in ("dir", "file")]
        for r in case["reg"]:
            if r[0] == "include":
                argv += ["-I", r[1]]
        argv += (["--brief"] if case["opts"]["brief"] else []) + ([] if case["opts"]["lint"] else ["--no-lint"]) + \
            rng.choice([[], ["--show-file-list"], ["--debug-api-dump"], ["--log", "out.log"]])
        ref = env.call("sim.jobs_snapshot:cli_snap", {"tree": tree, "argv": argv, "plan": plan}, case["hash"], 120.0)
        rep.runs += 1
        if "out" not in ref:
            rep.hit("hang-or-died")
            return rep
        points = [["op", k] for k in range(1, ref["opens"])]
        for _ in range(2):
            if not points:
                break
            edits = [{"point": pt, "seed": rng.randrange(1 << 30), "all": rng.random() < 0.7, "kinds": KINDS}
                     for pt in rng.sample(points, min(len(points), 2)) + [["op", ref["opens"] - 1]]]
            got = env.call("sim.jobs_snapshot:cli_snap", {"tree": tree, "argv": argv, "plan": plan, "edits": edits}, case["hash"], 120.0)
            rep.runs += 1
            if "out" not in got:
                rep.hit("hang-or-died")
                continue
            rep.hit("cli")
            rep.steps += got["steps"]
            rep.fault({"change:" + k: n for k, n in got["changes"].items()})
            rep.nontrivial = rep.nontrivial or bool(got["changes"])
            for key in ("status", "out", "log", "exc"):
                if ref[key] != got[key]:
                    rep.violate("cli-" + key, "%s, files changed %s at %s: %s differs: %s" %
                                (argv, got["changes"], [e["point"] for e in edits], key,
                                 common.diff(str(ref[key]), str(got[key]), "undisturbed", "changed")))
                    break
    rep.sample = {"mode": case["mode"], "reg": case["reg"][:4], "content": len(case["content"]), "last_changes": plans[-1] if plans else []}
    return rep


def shrink(case):
    if case["only"]:
        for n in range(len(case["only"][0])):
            if len(case["only"][0]) > 1:
                c = copy.deepcopy(case)
                del c["only"][0][n]
                yield c
    for k, v in (("lint", False), ("recovery", True), ("verify", False), ("brief", True), ("detail", False)):
        if case["opts"][k] != v:
            c = copy.deepcopy(case)
            c["opts"][k] = v
            yield c
    if len(case["content"]) > 1:
        yield from common.shrink_list(case, "content", 1)
    named = {r[1] for r in case["reg"]}
    for p in sorted(case["tree"]):
        if p not in named and len(case["tree"]) > 1:
            c = copy.deepcopy(case)
            del c["tree"][p]
            yield c
    for p in sorted(case["tree"]):
        lines = case["tree"][p].split("\n")
        n = len(lines) // 2
        while n >= 1:
            for s in range(0, len(lines), n):
                c = copy.deepcopy(case)
                c["tree"][p] = "\n".join(lines[:s] + lines[s + n:])
                yield c
            n //= 2
