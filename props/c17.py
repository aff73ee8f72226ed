"""C17: --log FILE holds exactly what standard output would have shown."""

import copy
import random
import re

from sim import core
from sim import gen as G
from props import common

ID = "C17"
LEVEL = "exploration"
RULE = ("A case is one input tree and one command line. The tool is run with its output on standard output, then with --log FILE [PREFIX] "
        "over old contents of several lengths: same status, nothing on standard output, and the file holds the same lines with the prefix "
        "removed from the locations of messages and from nothing else; also under short and interrupted writes. Then the process is killed "
        "at seeded steps and what has reached the disk is compared. Other cases run several sources through message handlers that write "
        "to files, share them and are closed in several ways. Non-trivial: the run writes something.")
MEASURE = "distinct (tree, command line, prefix, old contents, fault or kill point) executions"
COUNT = {"quick": 900, "thorough": 30000}
REAL, STUB = common.REAL, common.STUB + ["the point at which the process is killed (between two lines of the code under test)"]
ASSUMPTIONS = common.ASSUME + ["what a killed process has handed to the operating system stays"]

MESSAGE = re.compile(r"^(?:\s*\^+ )?(?P<loc>[^\n^]*?): (?:trlc )?(?:error|issue|warning|check error|check warning): ")


def strip(text, prefix):
    """What the file has to hold instead of text."""
    if not prefix:
        return text
    rv = []
    for line in text.split("\n"):
        m = MESSAGE.match(line)
        if m and m["loc"].startswith(prefix):
            line = line[:m.start("loc")] + line[m.start("loc") + len(prefix):]
        rv.append(line)
    return "\n".join(rv)


def gen(rng, index):
    valid = rng.random() < 0.5
    model = G.generate(rng, pkgs=(1, 3), types=(1, 3), objs=(0, 40) if rng.random() < 0.1 else (0, 6), checks=(0, 4), unused_import=0.5,
                       null_unsafe=0.0, warn=0.5, fatal=0.3, spelling=0.0, details=0.5)
    files = G.layout(model, rng, dirs=rng.choice([[""], ["p", "p/q"], ["a", "b/c", ""], ["a.b", "ü/x"]]))
    tree = G.render(model, files)
    if not valid:
        for _ in range(rng.choice([1, 1, 2])):
            p = rng.choice(sorted(tree))
            tree[p] = common.damage_text(tree[p], rng)
    common.pad(tree, rng, 0.1)
    case = {"tree": tree, "seed": rng.randrange(1 << 30), "hash": rng.randrange(4), "order": rng.choice([None, rng.randrange(1 << 30)])}
    if rng.random() < 0.3:
        case["kind"] = "api"
        roots = ["."] + sorted({p.split("/")[0] for p in tree if "/" in p})
        runs = []
        for n in range(rng.randint(1, 4)):
            share = rng.choice([i for i, r in enumerate(runs) if r["how"] == "open" and r["share"] is None] or [None]) if rng.random() < 0.5 else None
            runs.append({"items": [rng.choice(roots)] if rng.random() < 0.3 else ["."], "share": share,
                         "opts": {"brief": rng.random() < 0.5, "lint": rng.random() < 0.8, "recovery": rng.random() < 0.8},
                         "log": runs[share]["log"] if share is not None else rng.choice(["one.log", "two.log", "logs/%u.txt" % n]),
                         "prefix": rng.choice([None, "./", "./p/", "./a", "./p/q/", "."]),
                         "how": rng.choice(["with", "close", "with", "close", "open"]), "fail": rng.random() < 0.15})
            if runs[-1]["share"] is None and any(r["log"] == runs[-1]["log"] and r["how"] == "open" for r in runs[:-1]):
                # (two open handlers on one file are nobody's business)
                runs[-1]["log"] = "unique%u.log" % n
            if share is not None:
                runs[share]["shared"] = True
                if runs[-1]["how"] != "open":
                    for r in runs[:-1]:
                        if r["log"] == runs[-1]["log"] and r["how"] == "open":
                            r["how"] = "open-then-closed"
        case["runs"] = runs
        return case
    case["kind"] = "cli"
    argv = [f for f, p in (("--brief", 0.4), ("--no-lint", 0.1), ("--show-file-list", 0.4), ("--debug-api-dump", 0.4), ("--debug-dump", 0.2),
                           ("--no-error-recovery", 0.1), ("--no-user-warnings", 0.1), ("--no-detailed-info", 0.1), ("--skip-trlc-files", 0.1),
                           ("--error-on-warnings", 0.1), ("--verify", 0.03)) if rng.random() < p]
    roll = rng.random()
    items = ["."]
    if roll < 0.3:
        items = rng.sample(sorted(tree), rng.randint(1, len(tree)))
    elif roll < 0.4:
        items = ["/simroot"]
    elif roll < 0.45:
        items = rng.sample(sorted(tree), 1) + ["nonexistent"]
    elif roll < 0.5:
        items = []
    case["argv"] = items + argv
    case["log"] = rng.choice(["out.log", "out.log", "logs/out.log", "/simroot/out.log", "./out.txt"])
    case["old"] = rng.choice([None, "", "old\n", "old contents that are longer\n" * 200])
    case["prefix"] = rng.choice(["none", "none", "cut", "cut", "cut", "word", "word"])
    case["line"] = rng.random() < 0.5
    case["kills"] = None
    return case


def prefix_of(case, out):
    rng = random.Random(case["seed"])
    if case["prefix"] == "none":
        return None
    if case["prefix"] == "word":
        return rng.choice(["", ".", "./", "/", "/simroot/", "p/", "a", "error", "Processed ", "> ", "^", "package", ".*", "zz_"])
    locs = [m["loc"] for m in map(MESSAGE.match, out.split("\n")) if m]
    if not locs:
        return "./"
    loc = rng.choice(sorted(set(locs)))
    return loc[:rng.choice([rng.randint(1, len(loc)), loc.rfind("/") + 1 or 1])]


def execute(env, case, argv, plan=None, strike=None):
    tree = dict(case["tree"])
    keep = case["log"].replace("/simroot/", "").replace("./", "")
    if case["old"] is not None:
        tree[keep] = case["old"]
    elif "/" in keep:
        tree[keep.rsplit("/", 1)[0] + "/keep"] = ""
    return env.call("sim.jobs_abort:process", {"tree": tree, "argv": argv, "plan": dict({"order": case["order"]}, **(plan or {})),
                                               "keep": [keep], "line_buffering": case["line"], "strike": strike}, case["hash"]), keep


def run(case, env):
    rep = core.Report()
    rng = random.Random(case["seed"])
    if case["kind"] == "api":
        return run_api(case, env, rep)
    plain, keep = execute(env, case, case["argv"])
    rep.runs += 1
    rep.nontrivial = False
    if "out" not in plain or plain["exc"]:
        rep.hit("no-clean-run")
        return rep
    prefix = prefix_of(case, plain["out"])
    argv = case["argv"] + ["--log", case["log"]] + ([prefix] if prefix is not None else [])
    want = strip(plain["out"], prefix)
    what = "%s %s" % (argv, "over old contents of %u bytes" % len(case["old"]) if case["old"] else "")
    rep.hit("status-%u" % plain["status"])
    rep.hit("prefix-stripped", int(want != plain["out"]))
    rep.nontrivial = bool(want)
    usage = plain["status"] == 2 or (prefix or "").startswith("-")
    path = "/simroot/" + keep
    variants = [("", {})]
    size = len(want.encode("utf-8"))
    variants.append(("short writes", {"out": [{"path": path, "fault": "short", "n": rng.randint(1, 60)}]}))
    variants.append(("interrupted writes", {"out": [{"path": path, "fault": "EINTR", "at": at} for at in sorted({0, rng.randrange(size + 1)})]}))
    variants.append(("short reads", {"chunk": rng.choice([1, 7, 64])}))
    total = 0
    for name, plan in variants:
        res, _ = execute(env, case, argv, plan)
        rep.runs += 1
        tag = name or "no faults"
        if "out" not in res:
            rep.violate("hang", "%s, %s: did not terminate" % (what, tag))
            continue
        rep.steps += res["steps"]
        total = total or res["steps"]
        rep.fault(res["fired"])
        rep.saw(core.digest(case["tree"]), argv, case["old"], tag)
        if res["status"] != plain["status"]:
            rep.violate("status", "%s, %s: exit status %s, on standard output %s" % (what, tag, res["status"], plain["status"]))
        if res["out"]:
            rep.violate("stdout", "%s, %s: standard output is not empty: %r" % (what, tag, res["out"][:300]))
        if res["err"] != plain["err"]:
            rep.violate("stderr", "%s, %s: %s" % (what, tag, common.diff(plain["err"], res["err"], "without --log", "with --log")))
        if usage:
            rep.hit("usage-error")
            continue
        got = res["files"][keep]
        if got != want:
            rep.violate("contents", "%s, %s: %s" % (what, tag, common.diff(want, got or "", "standard output", "the file")))
    if usage or not total:
        return rep
    kills = case["kills"]
    if kills is None:
        kills = [rng.randint(1, total), max(1, total - int(10 ** rng.uniform(0, 2.5)))]
    for at in kills:
        res, _ = execute(env, case, argv, {}, ["kill", at])
        rep.runs += 1
        if "out" not in res:
            rep.violate("hang", "%s, killed at step %u: did not terminate" % (what, at), {"kills": [at]})
            continue
        rep.steps += res["steps"]
        if "durable" not in res:
            rep.hit("kill-not-reached")
            continue
        rep.fault({"kill": 1})
        rep.saw(core.digest(case["tree"]), argv, case["old"], "kill", at)
        got = res["durable_files"][keep]
        rep.hit("killed-before-the-log" if got == case["old"] else "killed-with-empty-log" if not got else "killed-with-partial-log")
        if got != case["old"] and not want.startswith(got or ""):
            rep.violate("killed", "%s, killed at step %u of %u: what is on the disk is not the beginning of the output: %s" %
                        (what, at, total, common.diff(want, got or "", "whole output", "on the disk")), {"kills": [at]})
    rep.sample = {"argv": argv, "old_bytes": len(case["old"] or ""), "log_bytes": size, "kills": kills}
    return rep


def run_api(case, env, rep):
    rng = random.Random(case["seed"])
    tree = dict(case["tree"])
    for r in case["runs"]:
        if "/" in r["log"]:
            tree.setdefault(r["log"].rsplit("/", 1)[0] + "/keep", "")
        if rng.random() < 0.3:
            tree[r["log"]] = "old contents\n" * rng.choice([1, 300])
    runs = [dict(r, how="open" if r["how"].startswith("open") else r["how"]) for r in case["runs"]]
    plan = {"order": case["order"]}
    if rng.random() < 0.4:
        plan["out"] = [{"path": "/simroot/" + r["log"], "fault": "short", "n": rng.randint(1, 60)} for r in runs]
    res = env.call("sim.jobs_abort:logs", {"tree": tree, "runs": runs, "plan": plan}, case["hash"])
    rep.runs += 1
    rep.nontrivial = False
    if "results" not in res:
        rep.violate("hang", "%s: did not terminate" % sorted(res))
        return rep
    rep.fault(res["fired"])
    if res["stdout"]:
        rep.violate("api-stdout", "runs that write to files also write %r to standard output" % res["stdout"][:300])
    sofar, count = {}, {}
    for n, r in enumerate(runs):
        # the same run alone, into memory
        alone = dict(r, log=None, prefix=None, share=None, opts=dict(r["opts"]))
        root = r
        key = n
        if r["share"] is not None:
            root, key = runs[r["share"]], r["share"]
            alone["opts"]["brief"] = root["opts"]["brief"]
        single = env.call("sim.jobs_abort:logs", {"tree": tree, "runs": [alone], "plan": {"order": case["order"]}}, case["hash"])
        rep.runs += 1
        if "results" not in single:
            rep.hit("hang-or-died")
            return rep
        sofar[key] = sofar.get(key, "") + strip(single["logs"][0], root["prefix"])
        base = count.get(key, [0, 0])
        verdict, errors, warnings = single["results"][0]
        count[key] = [base[0] + errors, base[1] + warnings]
        if sofar[key]:
            rep.nontrivial = True
        rep.saw(core.digest(case["tree"]), n, runs[:n + 1])
        rep.hit("api-" + r["how"])
        if "context" in str(verdict) or "context" in str(res["results"][n][0]):
            rep.violate("api-context", "run %u of %s: %s" % (n, runs, res["results"][n][0]))
        if res["results"][n][1:] != count[key]:
            rep.violate("api-counters", "run %u of %s: %s errors and warnings instead of %s" % (n, runs, res["results"][n][1:], count[key]))
        if r["share"] is None and res["results"][n][0] != verdict:
            rep.violate("api-verdict", "run %u of %s: %s instead of %s" % (n, runs, res["results"][n][0], verdict))
        if res["logs"][n] is not None and res["logs"][n] != sofar[key]:
            rep.violate("api-contents", "run %u of %s: after it was closed: %s" %
                        (n, runs, common.diff(sofar[key], res["logs"][n], "in memory", "the file")))
    return rep


def shrink(case):
    for p in sorted(case["tree"]):
        if len(case["tree"]) > 1:
            c = copy.deepcopy(case)
            del c["tree"][p]
            if "argv" in c:
                c["argv"] = [a for a in c["argv"] if a != p]
            yield c
    if case["kind"] == "api":
        if len(case["runs"]) > 1:
            c = copy.deepcopy(case)
            c["runs"] = c["runs"][:-1]
            yield c
        return
    for n, a in enumerate(case["argv"]):
        if a.startswith("--"):
            c = copy.deepcopy(case)
            del c["argv"][n]
            yield c
    for k, v in (("old", None), ("line", False), ("prefix", "none")):
        if case[k] != v:
            c = copy.deepcopy(case)
            c[k] = v
            yield c
