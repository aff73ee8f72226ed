"""C07: runs are isolated from earlier, concurrent and aborted runs."""

import copy
import random
import re

from sim import core
from sim import gen as G
from props import common

ID = "C07"
LEVEL = "exploration"
RULE = ("A case is a history of 2-7 steps in one process. Each step edits some files (of up to three variants of one model that "
        "share their names) and runs the tool through the API or the command-line entry point once, or through the API 2-3 times in threads interleaved at line or instruction "
        "granularity; some runs are aborted by an exception at a seeded step. Every run that was not aborted is compared with "
        "the same run alone in a fresh process. Non-trivial: at least two runs were compared.")
MEASURE = "distinct (contents, aborts, schedule) histories"
COUNT = {"quick": 520, "thorough": 20000}
REAL = common.REAL
STUB = common.STUB + ["thread scheduling (threads run one at a time, switched by the simulator)"]
ASSUMPTIONS = common.ASSUME + ["concurrent runs have message handlers and source managers of their own"]


def benign(text, rng):
    """A small edit that mostly keeps a file valid."""
    kind = rng.randrange(5)
    if kind == 0:
        spots = list(re.finditer(r"(?<![\w.])\d+(?![\w.])", text))
        new = str(rng.choice([0, 1, 2, 9, 77]))
    elif kind == 1:
        spots = list(re.finditer(r"\b(true|false)\b", text))
        new = rng.choice(["true", "false"])
    elif kind == 2:
        spots = list(re.finditer(r"(?<= )(<|<=|>|>=|==|!=)(?= )", text))
        new = rng.choice(["==", "!=", "<", ">"])
    elif kind == 3:
        spots = list(re.finditer(r"\b(error|warning|fatal)\b(?= \")", text))
        new = rng.choice(["error", "warning", "fatal"])
    else:
        spots = list(re.finditer(r"\b(failed|is bad|must hold|potato|kitten)\b", text))
        new = rng.choice(["failed", "went wrong", "potato", "x"])
    if not spots:
        return text + "\n// edited\n"
    s, e = rng.choice(spots).span()
    return text[:s] + new + text[e:]


def trees(rng):
    model = G.generate(rng, pkgs=(1, 3), types=(1, 4), objs=(1, 6), checks=(0, 3), unused_import=0.3,
                       fatal=rng.choice([0.0, 0.3]), invalid_ref=rng.choice([0.0, 0.1]), null_unsafe=rng.choice([0.0, 0.3]),
                       unions=0.5)
    files = G.layout(model, rng, dirs=rng.choice([[""], ["", "sub"]]))
    base = G.render(model, files)
    common.pad(base, rng)
    rv = [base]
    for _ in range(rng.randint(1, 2)):
        t = dict(rng.choice(rv))
        for _ in range(rng.randint(1, 3)):
            p = rng.choice(sorted(t))
            t[p] = benign(t[p], rng) if rng.random() < 0.65 else common.damage_text(t[p], rng)
        if rng.random() < 0.15 and len(t) > 1:
            del t[rng.choice(sorted(t))]
        rv.append(t)
    if rng.random() < 0.4:
        # some of the files are in a directory that is usually ignored
        for t in rv:
            for p in sorted(t):
                if rng.random() < 0.4:
                    t["bazel-out/" + p] = t.pop(p)
    if rng.random() < 0.25:
        # the same names mean something else
        other = G.generate(rng, pkgs=(1, 2), types=(1, 3), objs=(1, 4), checks=(0, 2))
        of = G.layout(other, rng, dirs=[""])
        rv.append(G.render(other, of))
    return rv


def spec_for(rng, where, cli=False):
    if cli:
        flags = [f for f in ("--brief", "--include-bazel-dirs", "--no-detailed-info", "--no-user-warnings", "--no-lint",
                             "--no-error-recovery", "--skip-trlc-files", "--show-file-list", "--error-on-warnings",
                             "--debug-api-dump") if rng.random() < 0.25]
        rng.shuffle(flags)
        return {"cli": flags + rng.choice([[], ["-I", where]]) + [where]}
    reg = [["dir", where]]
    if rng.random() < 0.1:
        reg = [["include", where]]
    return {"reg": reg, "opts": {"brief": rng.random() < 0.6, "detail": rng.random() < 0.8, "lint": rng.random() < 0.7,
                                 "recovery": rng.random() < 0.85, "trlc": rng.random() < 0.93,
                                 "no_user_warnings": rng.random() < 0.15}}


def gen(rng, index):
    variants = trees(rng)
    steps = []
    for _ in range(rng.randint(2, 6)):
        n = rng.choice([1, 1, 1, 2, 2, 3])
        cli = n == 1 and rng.random() < 0.3
        step = {"slots": [rng.randrange(len(variants)) for _ in range(n)], "runs": [spec_for(rng, "w%u" % i, cli) for i in range(n)],
                "sched": {"seed": rng.randrange(1 << 30), "gap": rng.choice([2, 10, 30, 100, 300, 1000, 1000, 4000])}, "aborts": {},
                "opcodes": False, "keep": rng.random() < 0.3}
        if rng.random() < 0.35:
            # where a run is depends on its size: draw on a logarithmic scale
            step["aborts"][str(rng.randrange(n))] = [int(10 ** rng.uniform(0, 4.3)), rng.choice(["cancel", "base", "memory", "interrupt"])]
        elif n > 1:
            step["opcodes"] = rng.random() < 0.15
        steps.append(step)
    steps.append({"slots": [rng.randrange(len(variants))], "runs": [spec_for(rng, "w0", rng.random() < 0.3)], "sched": {}, "aborts": {}, "opcodes": False,
                  "keep": False})
    return {"variants": variants, "steps": steps, "hash": rng.randrange(4)}


KEYS = ("out", "success", "errors", "warnings", "suppressed", "calls", "stab", "wrong_targets", "text", "reg_ok", "status", "err")


def run(case, env):
    rep = core.Report()
    state = {}
    steps = []
    states = []
    for step in case["steps"]:
        put, delete = {}, []
        for slot, which in enumerate(step["slots"]):
            new = {"w%u/%s" % (slot, p): t for p, t in case["variants"][which].items()}
            for p in [p for p in state if p.startswith("w%u/" % slot) and p not in new]:
                delete.append(p)
                del state[p]
            for p, t in new.items():
                if state.get(p) != t:
                    put[p] = t
                    state[p] = t
        steps.append(dict({k: v for k, v in step.items() if k != "slots"}, put=put, delete=delete))
        states.append(dict(state))
    res = env.call("sim.jobs_runs:history", {"tree": {}, "steps": steps}, case["hash"], 120.0)
    rep.runs += 1
    if "steps" not in res:
        rep.hit("stuck-%s" % res)
        return rep
    rep.steps += res["ticks"] + res["ops"]
    rep.fault({"abort-" + k: n for k, n in res["fired"].items()})
    history = []
    fresh = {}
    for n, (step, got) in enumerate(zip(steps, res["steps"])):
        history.append([got["switches"], step["aborts"], case["steps"][n]["slots"]])
        rep.fault({"thread-switch": len(got["switches"])} if len(step["runs"]) > 1 else {})
        focus_steps = copy.deepcopy(case["steps"][:n + 1])
        for k in range(n + 1):
            if len(focus_steps[k]["runs"]) > 1:
                focus_steps[k]["sched"] = {"switches": res["steps"][k]["switches"]}
        for i, (spec, r) in enumerate(zip(step["runs"], got["runs"])):
            if r["exc"] and r["exc"].get("injected"):
                rep.hit("aborted")
                continue
            if str(i) in step["aborts"]:
                rep.hit("abort-swallowed" if got["fired"] else "abort-too-late")
                if got["fired"]:
                    continue
            where = "w%u/" % i
            mine = {p: t for p, t in states[n].items() if p.startswith(where)}
            key = core.digest([mine, spec])
            if key not in fresh:
                if "cli" in spec:
                    alone = env.call("sim.jobs_runs:history", {"tree": mine, "steps": [{"runs": [spec]}]}, case["hash"])
                    fresh[key] = alone["steps"][0]["runs"][0] if "steps" in alone else {}
                else:
                    fresh[key] = env.call("sim.jobs:api", {"tree": mine, "spec": spec, "text": True}, case["hash"])
                rep.runs += 1
            ref = fresh[key]
            if "out" not in ref:
                rep.hit("reference-failed")
                continue
            rep.hit("compared")
            rep.hit("compared-" + ("cli" if "cli" in spec else "success" if ref["success"] else "failure"))
            what = "run %u of step %u (after %s)" % (i, n, [[s["slots"], s["aborts"]] for s in case["steps"][:n]])
            exc, want_exc = r["exc"] and r["exc"]["type"], ref["exc"] and ref["exc"]["type"]
            if exc != want_exc:
                rep.violate("exception", "%s: ended with %s, alone with %s" % (what, r["exc"], ref["exc"]), {"steps": focus_steps})
                continue
            for k in KEYS:
                if r.get(k) != ref.get(k):
                    if isinstance(ref.get(k), str):
                        detail = common.diff(ref[k], r.get(k) or "", "alone", "here")
                    else:
                        detail = "%s: alone %s, here %s" % (k, str(ref.get(k))[:400], str(r.get(k))[:400])
                    rep.violate("differs-" + k, "%s: %s" % (what, detail), {"steps": focus_steps})
                    break
    rep.nontrivial = rep.reach.get("compared", 0) >= 2
    rep.saw(core.digest(case["variants"]), history)
    rep.sample = {"steps": [{k: v for k, v in s.items() if k in ("slots", "aborts")} for s in case["steps"]],
                  "files": sorted(case["variants"][0])}
    return rep


def shrink(case):
    n = len(case["steps"])
    for i in range(n - 1):
        c = copy.deepcopy(case)
        del c["steps"][i]
        yield c
    for i, s in enumerate(case["steps"]):
        if len(s["runs"]) > 1:
            for k in range(len(s["runs"])):
                c = copy.deepcopy(case)
                t = c["steps"][i]
                del t["runs"][k], t["slots"][k]
                for m, spec in enumerate(t["runs"]):
                    for item in spec.get("reg", ()):
                        item[1] = "w%u" % m
                t["aborts"] = {}
                yield c
        if s["aborts"]:
            c = copy.deepcopy(case)
            c["steps"][i]["aborts"] = {}
            yield c
        sw = s["sched"].get("switches")
        if sw and len(sw) > 1:
            step = len(sw) // 2
            while step >= 1:
                for start in range(0, len(sw), step):
                    c = copy.deepcopy(case)
                    c["steps"][i]["sched"]["switches"] = sw[:start] + sw[start + step:]
                    yield c
                step //= 2
    for v, tree in enumerate(case["variants"]):
        for p in sorted(tree):
            if len(tree) > 1:
                c = copy.deepcopy(case)
                del c["variants"][v][p]
                yield c
