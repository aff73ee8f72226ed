"""C08: exit status, counters and summary agree with what was reported."""

import copy
import random
import re

from sim import core
from sim import gen as G
from props import common

ID = "C08"
LEVEL = "exploration"
RULE = ("A case is one input tree (valid, failing its checks, or damaged; or with an input that cannot be read or decoded) run "
        "under several command lines (brief and full, user warnings suppressed or not, --error-on-warnings, to --log) and "
        "through the API. Diagnostics are counted in the output and compared with the counters, the summary, the exit status, "
        "the result of process() and with each other. Non-trivial: at least one diagnostic was reported.")
MEASURE = "distinct (tree, options, fault, numbers of diagnostics per kind) outcomes"
COUNT = {"quick": 1500, "thorough": 30000}
REAL, STUB = common.REAL, common.STUB
ASSUMPTIONS = common.ASSUME

FOUND = re.compile(r"^Processed .* and found(?: (\d+) warnings?)?(?: and)?(?: (\d+) errors?)?( no issues)?(?: with (\d+) supressed messages)?$")


def gen(rng, index):
    model = G.generate(rng, pkgs=(1, 3), types=(1, 3), objs=(0, 8), checks=(0, 4), unused_import=0.5, fatal=rng.choice([0.0, 0.3]),
                       invalid_ref=rng.choice([0.0, 0.0, 0.15]), null_unsafe=rng.choice([0.0, 0.0, 0.3]), warn=rng.choice([0.0, 0.3, 0.7, 1.0]))
    files = G.layout(model, rng, dirs=rng.choice([[""], ["", "sub"], ["a", "b"]]))
    for f in files:
        if f["kind"] == "trlc" and rng.random() < 0.4:
            f["extra_imports"] = rng.sample([p["name"] for p in model["pkgs"]], 1)
            if f["pkg"] in f["extra_imports"]:
                f["extra_imports"] = []
    damage = [rng.randrange(1 << 30) for _ in range(rng.choice([0, 0, 0, 1, 1, 2, 3]))]
    fault = None
    if rng.random() < 0.2:
        fault = rng.choice(["bytes", "bytes", "list", "read", "open"])
    return {"model": model, "files": files, "damage": damage, "fault": fault, "seed": rng.randrange(1 << 30),
            "lint": rng.random() < 0.7, "recovery": rng.random() < 0.8, "skip_trlc": rng.random() < 0.08,
            "detail": rng.random() < 0.8, "verify": rng.random() < 0.04, "hash": rng.randrange(4), "order": rng.randrange(1 << 30),
            "include": rng.random() < 0.2}


def tree_of(case):
    tree = G.render(case["model"], case["files"])
    for d in case["damage"]:
        rng = random.Random(d)
        p = rng.choice(sorted(tree))
        tree[p] = common.damage_text(tree[p], rng)
    common.pad(tree, random.Random(case["seed"]))
    return tree


def faults_of(case, tree):
    rng = random.Random(case["seed"])
    plan = {"order": case["order"]}
    paths = sorted(tree)
    if case["fault"] is None or not paths:
        return tree, plan
    p = rng.choice(paths)
    if case["fault"] == "bytes":
        tree = dict(tree)
        k = rng.randrange(len(tree[p]) + 1)
        tree[p] = tree[p][:k] + "\udcff" + tree[p][k:]
    elif case["fault"] == "list":
        plan["faults"] = [{"op": "list", "path": p.rpartition("/")[0], "nth": 0, "fault": "EACCES"}]
    else:
        plan["faults"] = [{"op": case["fault"], "path": p, "nth": 0, "fault": "EIO"}]
    return tree, plan


def count(text, brief):
    """Diagnostics in the output: Counter-like list of (file, line, kind, msg)."""
    rv = []
    pattern = common.DIAG if brief else common.DIAG_FULL
    for line in text.split("\n"):
        m = pattern.match(line)
        if m and (brief or is_diag(line, m)):
            rv.append((m["file"], m["line"], m["kind"], m["msg"]))
    return rv


def is_diag(line, m):
    name = m["file"].strip()
    return name.endswith((".rsl", ".trlc")) or m["line"] is None


def tally(diags):
    errors = sum(1 for d in diags if d[2] in ("error", "check error"))
    return errors, len(diags) - errors


def judge(rep, what, res, text, brief, eow, suppressed, skip):
    """Counters against output for one command-line run."""
    diags = count(text, brief)
    errors, warnings = tally(diags)
    rep.hit("diags", len(diags))
    hidden = suppressed or 0
    lines = [l for l in text.split("\n") if common.SUMMARY.match(l)]
    if res["exc"]:
        rep.hit("exception-" + res["exc"] + "-" + str(res["site"]))
        if res["status"] == 0:
            rep.violate("status", "%s: ended with %s but exit status 0" % (what, res["exc"]))
        return diags, False
    if not lines:
        rep.hit("no-summary")
        if res["status"] == 0:
            rep.violate("status", "%s: no summary but exit status 0" % what)
        if errors == 0 and res["status"] == 1:
            rep.violate("silent-failure", "%s: exit status 1 without summary or error message: %r" % (what, text[-300:]))
        return diags, False
    if len(lines) > 1:
        rep.violate("summary", "%s: %u summary lines" % (what, len(lines)))
    m = FOUND.match(lines[0])
    if not m:
        rep.violate("summary", "%s: unintelligible summary %r" % (what, lines[0]))
        return diags, False
    s_warn, s_err, s_hid = int(m[1] or 0), int(m[2] or 0), int(m[4] or 0)
    if (s_err, s_warn) != (errors, warnings + s_hid) or (m[3] and (s_err or s_warn)):
        rep.violate("summary", "%s: summary %r, but %u errors and %u warnings were printed" % (what, lines[0], errors, warnings))
    if suppressed is not None and s_hid != hidden:
        rep.violate("summary-suppressed", "%s: summary %r, but %u messages were suppressed" % (what, lines[0], hidden))
    want = 1 if errors or (eow and (warnings or s_hid)) else 0
    if res["status"] != want:
        rep.violate("status", "%s: exit status %s, but %u errors and %u warnings (%u suppressed) were reported" %
                    (what, res["status"], errors, warnings, s_hid))
    return diags, True


def run(case, env):
    rep = core.Report()
    tree, plan = faults_of(case, tree_of(case))
    base = ([] if case["lint"] else ["--no-lint"]) + ([] if case["recovery"] else ["--no-error-recovery"]) + \
           (["--skip-trlc-files"] if case["skip_trlc"] else []) + ([] if case["detail"] else ["--no-detailed-info"]) + \
           (["--verify"] if case["verify"] else [])
    target = ["."]
    if case["include"]:
        subs = sorted({p.split("/")[0] for p in tree if "/" in p})
        tops = sorted(p for p in tree if "/" not in p)
        if subs and tops:
            target = tops + ["-I", subs[0]]
    rng = random.Random(case["seed"])
    eow = rng.random() < 0.5
    runs = {}
    for name, opts in (("brief", ["--brief"]), ("full", []), ("quiet", ["--brief", "--no-user-warnings"]),
                       ("log", ["--brief", "--log", "out.log"]), ("list", ["--brief", "--show-file-list", "--debug-api-dump"])):
        argv = target + base + opts + (["--error-on-warnings"] if eow and name in ("brief", "quiet", "list") else [])
        res = env.call("sim.jobs:cli", {"tree": tree, "argv": argv, "plan": plan, "keep": ["out.log"]}, case["hash"], 120.0)
        rep.runs += 1
        if "out" not in res:
            rep.hit("hang-or-died")
            return rep
        rep.steps += res["steps"]
        rep.fault(res["fired"])
        runs[name] = (argv, res)
    if case["fault"] == "bytes":
        rep.fault({"undecodable": 1})
    texts = {n: (r["files"]["out.log"] or "") if n == "log" else r["out"] for n, (_, r) in runs.items()}
    diags = {}
    ok = {}
    n_user = len([d for d in count(texts["brief"], True) if d[2] == "check warning"])
    for name, (argv, res) in runs.items():
        what = " ".join(argv)
        diags[name], ok[name] = judge(rep, what, res, texts[name], name != "full", "--error-on-warnings" in argv,
                                      n_user if name == "quiet" else 0, case["skip_trlc"])
    rep.nontrivial = bool(diags["brief"])
    rep.saw(core.digest(tree), base, case["fault"], tally(diags["brief"]))
    if runs["log"][1]["out"] and not runs["log"][1]["exc"]:
        rep.violate("log", "with --log, %r went to standard output" % runs["log"][1]["out"][:200])
    body = {n: [l for l in t.split("\n") if not common.SUMMARY.match(l)] for n, t in texts.items()}
    if texts["log"] != texts["brief"]:
        rep.violate("log", "--log output differs from standard output: %s" % common.diff(texts["brief"], texts["log"], "stdout", "log"))
    quiet_want = [l for l in body["brief"] if not re.search(r": trlc check warning: ", l)]
    if body["quiet"] != quiet_want:
        rep.violate("suppression", "--no-user-warnings: %s" % common.diff("\n".join(quiet_want), "\n".join(body["quiet"]), "expected", "got"))
    if sorted(diags["full"], key=str) != sorted(diags["brief"], key=str):
        a, b = {}, {}
        for d in diags["full"]:
            a[d] = a.get(d, 0) + 1
        for d in diags["brief"]:
            b[d] = b.get(d, 0) + 1
        bad = sorted((k for k in set(a) | set(b) if a.get(k, 0) != b.get(k, 0)), key=str)
        rep.violate("formats-differ", "%s printed %u times with --brief and %u times without" %
                    (bad[0], b.get(bad[0], 0), a.get(bad[0], 0)))
    lst = [l for l in body["list"] if common.DIAG.match(l)]
    if lst != [l for l in body["brief"] if common.DIAG.match(l)]:
        rep.violate("lost", "other output options changed the diagnostics")

    # -- the library interface
    for quiet in (False, True):
        reg = [["include", target[-1]]] + [["file", p] for p in target[:-2]] if "-I" in target else [["dir", "."]]
        spec = {"reg": reg, "opts": {"brief": True, "detail": case["detail"], "lint": case["lint"], "recovery": case["recovery"],
                                     "trlc": not case["skip_trlc"], "verify": case["verify"], "no_user_warnings": quiet},
                "ignore_reg": rng.random() < 0.5}
        res = env.call("sim.jobs:api", {"tree": tree, "spec": spec, "plan": plan, "dump": False}, case["hash"], 120.0)
        rep.runs += 1
        if "out" not in res:
            rep.hit("hang-or-died")
            continue
        api_diags = count(res["out"], True)
        errors, warnings = tally(api_diags)
        what = "API (%s)" % ", ".join("%s=%s" % x for x in sorted(spec["opts"].items()))
        hidden = n_user if quiet and ok["brief"] else None
        if res["errors"] != errors or res["warnings"] != warnings + res["suppressed"]:
            rep.violate("counters", "%s: counters say %u errors, %u warnings, %u suppressed; printed were %u and %u" %
                        (what, res["errors"], res["warnings"], res["suppressed"], errors, warnings))
        if not quiet and res["suppressed"]:
            rep.violate("counters", "%s: %u messages counted as suppressed without suppression" % (what, res["suppressed"]))
        if hidden is not None and not res["exc"] and res["suppressed"] != hidden:
            rep.violate("counters", "%s: %u messages counted as suppressed, but %u were" % (what, res["suppressed"], hidden))
        if res["success"] and errors:
            rep.violate("result", "%s: a symbol table was returned although %u errors were reported" % (what, errors))
        if not res["success"] and not errors and not res["exc"] and res["reg_ok"]:
            rep.violate("result", "%s: no symbol table was returned although no error was reported" % what)

    # -- against the reference model
    if not case["damage"] and not case["fault"] and not case["include"] and not case["skip_trlc"] and not case["verify"]:
        model = case["model"]
        refs_ok = not G.valid_references(model)
        if refs_ok:
            ev = G.Evaluator(model)
            want = {}
            for o in model["objs"]:
                for kind, _ in ev.expected(o):
                    want[kind] = want.get(kind, 0) + 1
            got = {}
            for d in diags["brief"]:
                if d[2] in ("check error", "check warning", "error"):
                    got[d[2]] = got.get(d[2], 0) + 1
            if got != want:
                rep.violate("lost-or-doubled", "diagnostics printed %s, but the checks yield %s" % (got, want))
            rep.hit("model-checked")
    rep.sample = {"options": base, "damaged": len(case["damage"]), "fault": case["fault"], "diagnostics": len(diags["brief"])}
    return rep


def shrink(case):
    for k, v in (("fault", None), ("lint", False), ("recovery", True), ("skip_trlc", False), ("verify", False), ("include", False),
                 ("detail", True)):
        if case[k] != v:
            c = copy.deepcopy(case)
            c[k] = v
            yield c
    yield from common.shrink_list(case, "damage")
    yield from common.shrink_model(case)
