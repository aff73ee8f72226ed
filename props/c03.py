"""C03: every object's checks run exactly once, in order, under any schedule."""

import copy
import random

from sim import core
from sim import gen as G
from props import common

ID = "C03"
LEVEL = "exploration"
RULE = ("A case is one generated model (types, extensions, nested tuples, arrays, checks, objects) that is first processed as a "
        "whole; then its objects are checked one by one in a seeded order, in 2-4 threads interleaved at line or instruction "
        "granularity, with some threads aborted on the way, and all once more at the end. Every evaluation is compared with the "
        "ordered diagnostics and the verdict the reference evaluator yields. Non-trivial: at least one check fails or errs.")
MEASURE = "distinct (model, schedule) executions"
COUNT = {"quick": 3000, "thorough": 100000}
REAL = common.REAL
STUB = common.STUB + ["thread scheduling (threads run one at a time, switched by the simulator)"]
ASSUMPTIONS = common.ASSUME + ["the reference evaluator covers the generated subset of expressions",
                               "threads use message handlers of their own, as the library does not promise shared ones"]


def gen(rng, index):
    model = G.generate(rng, pkgs=(1, 3), types=(2, 5), objs=(1, 8), checks=(0, 4), fatal=rng.choice([0.0, 0.2, 0.5]),
                       null_unsafe=rng.choice([0.0, 0.2, 0.6]), warn=rng.choice([0.0, 0.0, 0.5]), unused_import=0.0,
                       tuples=rng.choice([0.5, 0.9]), arrays=rng.choice([0.4, 0.9]), extends=0.6, same_msg=rng.choice([0.0, 0.0, 0.4]), big=0.01, depth=rng.choice([1, 2, 3]))
    files = G.layout(model, rng, dirs=rng.choice([[""], ["a", "b"]]))
    n = len(model["objs"])
    threads = []
    for _ in range(rng.choice([1, 2, 2, 3, 4])):
        threads.append([rng.randrange(max(n, 1)) for _ in range(rng.randint(1, max(2, n)))])
    if len(threads) == 1:
        threads = [list(range(n)) or [0]]
        rng.shuffle(threads[0])
    aborts = {}
    if len(threads) > 1 and rng.random() < 0.3:
        aborts[str(rng.randrange(len(threads)))] = [rng.randint(1, 300), rng.choice(["cancel", "base", "memory", "interrupt"])]
    return {"model": model, "files": files, "threads": threads, "aborts": aborts, 
            # CPython cannot raise from a trace function between any two instructions
            "opcodes": rng.random() < 0.25 and not aborts,
            "sched": {"seed": rng.randrange(1 << 30), "gap": rng.choice([1, 3, 10, 40, 200])},
            "hash": rng.randrange(4), "order": rng.randrange(1 << 30), "lint": rng.random() < 0.5}


def observed(text):
    diags, _ = common.parse_brief(text)
    return [[d[3], d[4] if d[3] != "error" else None, d[0], int(d[1]) if d[1] else None] for d in diags]


def verdict_of(expected):
    if expected and (expected[-1][0] == "error" or any(x[2] == "fatal" for x in expected)):
        return "error"
    return "failed" if any(x[0] != "check warning" for x in expected) else "ok"


def run(case, env):
    rep = core.Report()
    model = case["model"]
    tree = G.render(model, case["files"])
    prog = {"threads": case["threads"], "sched": case["sched"], "opcodes": case["opcodes"], "aborts": case["aborts"]}
    spec = {"reg": [["dir", "."]], "opts": {"brief": True, "lint": case["lint"]}}
    res = env.call("sim.jobs_checks:evaluate", {"tree": tree, "spec": spec, "program": prog, "plan": {"order": case["order"]}},
                   case["hash"], 120.0)
    rep.runs += 1
    if "api" not in res:
        rep.hit("stuck-%s" % res)
        return rep
    rep.steps += res["steps"]
    rep.fault(res["fired"])
    rep.saw(core.digest(tree), res["switches"], case["opcodes"], case["aborts"])
    focus = {"sched": {"switches": res["switches"]}}
    ev = G.Evaluator(model)
    types = ev.types
    want = {}
    for o in model["objs"]:
        exp = [[k, m, None] for k, m in ev.expected(o)]
        if ev.fatal:
            exp[-1][2] = "fatal"
        want[o["pkg"] + "." + o["name"]] = exp
    for k in ev.reach:
        rep.hit(k)
    del types
    rep.nontrivial = any(want.values())
    rep.hit("expected-diagnostics", sum(len(w) for w in want.values()))

    names, places = res["names"], res["places"]
    if sorted(names) != sorted(want):
        rep.violate("objects", "objects in the symbol table %s, declared %s" % (sorted(names), sorted(want)))
        return rep

    def plain(exp):
        return [[k, m] for k, m, _ in exp]

    if res["crash"]:
        rep.violate("crash %s@%s" % (res["crash"]["type"], res["crash"]["site"]), "processing ended with %s: %s" %
                    (res["crash"]["type"], res["crash"]["text"]))
        return rep

    # the whole run
    api = res["api"]
    diags = [d for d in observed(api["out"]) if d[0] in ("error", "check error", "check warning")]
    bucket = {n: [] for n in names}
    broken = 0
    total = {}
    for kind, msg, path, line in diags:
        if kind == "error":
            # evaluation errors are located in the check or in the object
            broken += 1
            continue
        total[(kind, msg)] = total.get((kind, msg), 0) + 1
        if path.endswith(".rsl"):
            # values of frozen components are located in the model
            continue
        best = None
        for n, (p, l) in zip(names, places):
            if line is not None and same_file(p, path) and l <= line and (best is None or l > best[1]):
                best = (n, l)
        if best is None:
            rep.violate("elsewhere", "%s %r at %s:%s belongs to no object" % (kind, msg, path, line))
        else:
            bucket[best[0]].append([kind, msg])
    for n in names:
        expect = [x for x in plain(want[n]) if x[0] != "error"]
        for x in expect:
            total[tuple(x)] = total.get(tuple(x), 0) - 1
        it = iter(expect)
        if not all(any(x == y for y in it) for x in bucket[n]):
            rep.violate("whole-run", "processing: checks of %s yielded %s, expected %s" % (n, bucket[n], expect))
    for x, k in sorted(total.items()):
        if k:
            rep.violate("whole-run-count", "processing: %s reported %u times too %s" % (x, abs(k), "often" if k > 0 else "seldom"))
    expect = sum(1 for w in want.values() for x in w if x[0] == "error")
    if broken != expect:
        rep.violate("whole-run-errors", "processing: %u evaluations ended in an error, expected %u" % (broken, expect))
    bad = any(verdict_of(w) != "ok" for w in want.values())
    if api["success"] == bad:
        rep.violate("verdict", "process() returned %s although checks %s" %
                    ("a symbol table" if api["success"] else "None", "failed" if bad else "passed"))

    # each object by itself
    for what, part in (("interleaved", res["results"]), ("afterwards", res["again"])):
        for n, (out, verdict, errors, warnings) in part:
            name = names[n]
            got = [d[:2] for d in observed(out)]
            if got != plain(want[name]):
                rep.violate("checks-" + what, "%s: checks of %s yielded %s, expected %s" % (what, name, got, plain(want[name])), focus)
            elif verdict != verdict_of(want[name]):
                rep.violate("verdict-" + what, "%s: checking %s returned %s, expected %s" % (what, name, verdict, verdict_of(want[name])), focus)
            elif (errors, warnings) != (len([g for g in got if g[0] != "check warning"]), len([g for g in got if g[0] == "check warning"])):
                rep.violate("counters-" + what, "%s: checking %s counted %u errors and %u warnings: %s" % (what, name, errors, warnings, got), focus)
            rep.hit("evaluations")
    for i, kind, site in res["aborted"]:
        if str(i) not in case["aborts"]:
            rep.violate("crash %s@%s" % (kind, site), "evaluation (%s) ended with %s" % (i, kind), focus)
    rep.sample = {"objects": len(names), "threads": case["threads"], "switches": len(res["switches"]), "aborts": case["aborts"]}
    return rep


def same_file(a, b):
    return a.lstrip("./") == b.lstrip("./")


def shrink(case):
    if len(case["threads"]) > 1:
        for i in range(len(case["threads"])):
            c = copy.deepcopy(case)
            del c["threads"][i]
            c["aborts"] = {}
            yield c
    for i, t in enumerate(case["threads"]):
        if len(t) > 1:
            for k in range(len(t)):
                c = copy.deepcopy(case)
                del c["threads"][i][k]
                yield c
    if case["aborts"]:
        yield dict(copy.deepcopy(case), aborts={})
    if "switches" in case["sched"] and len(case["sched"]["switches"]) > 1:
        sw = case["sched"]["switches"]
        step = len(sw) // 2
        while step >= 1:
            for start in range(0, len(sw), step):
                yield dict(copy.deepcopy(case), sched={"switches": sw[:start] + sw[start + step:]})
            step //= 2
    yield from common.shrink_model(case)
