"""C13: API queries can be repeated and interleaved without changing results."""

import copy
import random

from sim import core
from sim import gen as G
from props import common

ID = "C13"
LEVEL = "exploration"
RULE = ("A case is one processed input tree and a seeded program of queries over the result (iterations, iterations by section, "
        "look-ups, conversions, type queries, dumps, re-evaluation of the checks), started, advanced, abandoned and resumed in a seeded "
        "order, partly from several threads interleaved at line granularity. Every answer is compared with the answer of the same "
        "query asked first and alone in a fresh process. Non-trivial: at least two queries were open at the same time or repeated.")
MEASURE = "distinct (content, query program, schedule) histories"
COUNT = {"quick": 1500, "thorough": 40000}
REAL = common.REAL
STUB = common.STUB + ["thread scheduling (threads run one at a time, switched by the simulator)"]
ASSUMPTIONS = common.ASSUME + ["callers do not modify the objects of the symbol table"]


def gen(rng, index):
    model = G.generate(rng, pkgs=(1, 3), types=(1, 4), objs=(1, 9), checks=(0, 3), null_unsafe=rng.choice([0.0, 0.2]),
                       warn=rng.choice([0.0, 1.0]), fatal=rng.choice([0.0, 0.3]), sections=0.7, big=0.02, late=0.2, freeze=0.5, tuples=0.7)
    files = G.layout(model, rng, dirs=rng.choice([[""], ["a", "b"]]))
    for f in files:
        f["merge"] = rng.choice([True, False, "nest"])
    pkgs = [p["name"] for p in model["pkgs"]]
    pool = [["objects"], ["section"], ["section"], ["dicts"], ["refs"], ["types"], ["dump"], ["checks"], ["reevaluate"], ["reevaluate"],
            ["resolve"], ["objects", rng.choice(pkgs)], ["section", rng.choice(pkgs)],
            ["values", rng.choice([None, "Package", "Record_Object", "Concrete_Type", "Record_Type"])],
            ["lookup", lookup_names(model, rng)]]
    rng.shuffle(pool)
    pool = pool[:rng.randint(2, 6)]
    ops, open_ = [], []
    for _ in range(rng.randint(4, 20)):
        roll = rng.random()
        if not open_ or roll < 0.4:
            slot = rng.randrange(4)
            ops.append(["start", slot, rng.choice(pool)])
            open_.append(slot)
        else:
            slot = rng.choice(open_)
            ops.append(rng.choice([["step", slot, rng.randint(1, 4)], ["step", slot, 1], ["finish", slot], ["drop", slot]]))
    threads = None
    if rng.random() < 0.4:
        safe = [q for q in pool if q[0] not in ("dump", "reevaluate", "resolve")]
        if safe:
            threads = {"queries": [[rng.choice(safe) for _ in range(rng.randint(1, 3))] for _ in range(rng.randint(2, 3))],
                       "sched": {"seed": rng.randrange(1 << 30), "gap": rng.choice([3, 20, 200])}}
    return {"model": model, "files": files, "ops": ops, "threads": threads, "hash": rng.randrange(4), "ident": rng.randrange(1 << 30),
            "recovery": rng.random() < 0.8}


def lookup_names(model, rng):
    names = [o["name"] for o in model["objs"]] + [p["name"] for p in model["pkgs"]] + \
            [i["name"] for p in model["pkgs"] for i in p["items"] if i["k"] != "checks"] + ["Integer", "len", "nope"]
    picked = rng.sample(names, min(3, len(names)))
    return picked + [rng.choice(picked).upper(), rng.choice(picked) + "x"]


def by_section(items, ref):
    """Iteration by section shows all objects, in the order of plain iteration, each after its sections."""
    objs = [i for i in items if isinstance(i, list) and isinstance(i[0], str) and i[0].startswith("obj ")]
    return [o[0] for o in objs] == ref


def run(case, env):
    rep = core.Report()
    tree = G.render(case["model"], case["files"])
    spec = {"reg": [["dir", "."]], "opts": {"brief": True, "lint": False, "recovery": case["recovery"]}}
    args = {"tree": tree, "spec": spec, "ident": case["ident"]}
    res = env.call("sim.jobs_query:session", dict(args, ops=case["ops"], threads=case["threads"]), case["hash"])
    rep.runs += 1
    if "done" not in res or not res["usable"]:
        rep.hit("not-usable")
        rep.nontrivial = False
        return rep
    rep.steps += res["steps"]
    rep.hit("success" if res["api"]["success"] else "failure")
    fresh = {}
    sections = set()
    for query, items, complete in res["done"]:
        key = core.json.dumps(query)
        if query[0] == "thread":
            rep.violate("thread-crash", "a query raised %s in a thread" % items)
            continue
        if key not in fresh:
            r = env.call("sim.jobs_query:session", dict(args, ops=[["start", 0, query]]), case["hash"])
            rep.runs += 1
            fresh[key] = r["done"][0][1] if r.get("done") else None
            problem = check_alone(query, fresh[key], res["api"], env, args, case)
            if problem:
                rep.violate(problem[0], problem[1], {"ops": [["start", 0, query]], "threads": None})
        want = fresh[key]
        if want is None:
            continue
        rep.hit("query-" + query[0])
        sections.add(query[0])
        if complete and items != want or not complete and items != want[:len(items)]:
            n = next((k for k, (a, b) in enumerate(zip(items, want)) if a != b), min(len(items), len(want)))
            rep.violate("differs-" + query[0], "query %s in the program %s%s: item %u is %.300r, asked alone it is %.300r (%u of %u items)" %
                        (query, case["ops"], " and threads %s" % case["threads"]["queries"] if case["threads"] else "", n,
                         items[n] if n < len(items) else "missing", want[n] if n < len(want) else "missing", len(items), len(want)))
    if res["wrong_targets"]:
        rep.violate("targets", "after the queries references to %s do not lead to the registered object" % res["wrong_targets"])
    rep.saw(core.digest(tree), case["ops"], case["threads"], res.get("switches"))
    if case["threads"]:
        rep.hit("threads")
    rep.nontrivial = len(case["ops"]) > 1 or bool(case["threads"])
    rep.sample = {"ops": case["ops"], "threads": case["threads"], "objects": len(case["model"]["objs"])}
    return rep


def check_alone(query, items, api, env, args, case):
    if items is None:
        return None
    bad = [i for i in items if isinstance(i, list) and i and i[0] == "raised"]
    if bad:
        return "raises", "query %s raises %s" % (query, bad[0][1])
    if query[0] == "reevaluate":
        ok, out, errors, warnings = items[0]
        if out != api["out"] or ok != api["success"] or (errors, warnings) != (api["errors"], api["warnings"]):
            return "reevaluate", "evaluating the checks again gives %s with %u errors and %u warnings, in the run %s with %u and %u: %s" % \
                   (ok, errors, warnings, api["success"], api["errors"], api["warnings"], common.diff(api["out"], out, "run", "again"))
    if query[0] == "resolve":
        if items[0] != [True, ""]:
            return "resolve", "resolving the references again gives %s" % items[0]
    if query[0] == "dicts" and api["success"]:
        model = case["model"]
        types = G.type_map(model)
        want = {o["pkg"] + "." + o["name"]: G.floats(G.expected_object(model, types, o)) for o in model["objs"]}
        for name, got in items:
            if got != want.get(name):
                return "declared", "%s reads as %s, declared is %s" % (name, got, want.get(name))
        if len(items) != len(want):
            return "declared", "the result shows %u objects, declared are %u" % (len(items), len(want))
    if query[0] == "section":
        r = env.call("sim.jobs_query:session", dict(args, ops=[["start", 0, ["objects"] + query[1:]]]), case["hash"])
        plain = r["done"][0][1]
        if not by_section(items, plain):
            return "section-objects", "%s gives the objects %s, plain iteration gives %s" % (query, items, plain)
        if len(query) == 1:
            names = {o["pkg"] + "." + o["name"]: o for o in case["model"]["objs"]}
            seen = set()
            for i in items:
                if isinstance(i, list) and str(i[0]).startswith("obj "):
                    sec = names[i[0][4:]]["section"]
                    if i[1] != max(len(sec) - 1, 0) or any((s, d) not in seen for d, s in enumerate(sec)):
                        return "section-path", "%s is at level %s after the headings %s, its sections are %s" % (i[0], i[1], sorted(seen), sec)
                elif isinstance(i, list):
                    seen.add(tuple(i))
    return None


def shrink(case):
    if case["threads"]:
        c = copy.deepcopy(case)
        c["threads"] = None
        yield c
        if case["ops"]:
            c = copy.deepcopy(case)
            c["ops"] = []
            yield c
        for t, qs in enumerate(case["threads"]["queries"]):
            for n in range(len(qs)):
                if len(qs) > 1:
                    c = copy.deepcopy(case)
                    del c["threads"]["queries"][t][n]
                    yield c
    yield from common.shrink_list(case, "ops")
    yield from common.shrink_model(case)
