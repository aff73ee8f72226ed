"""C15: an error in one package does not disturb packages that do not use it."""

import copy
import random
import re

from sim import core
from sim import gen as G
from props import common

ID = "C15"
LEVEL = "exploration"
RULE = ("A case is a tree of several packages. First, the declarations of one file are damaged (tokens changed, or a block lost, "
        "duplicated or torn off); what is reported for packages that do not use that package is compared with the run without "
        "the damage. Then errors are planted inside single objects in several files and each must be reported exactly once, at "
        "its object. Non-trivial: the damaged run reports errors and at least one package does not use the damaged one, or at "
        "least two errors were planted.")
MEASURE = "distinct (tree, damage) and (tree, planted errors) combinations"
COUNT = {"quick": 3000, "thorough": 40000}
REAL, STUB = common.REAL, common.STUB
ASSUMPTIONS = common.ASSUME + ["references between objects and user checks are examined only when everything could be parsed, so "
                               "the comparison is about what is found while parsing (every compared run contains two packages "
                               "with an error, so that all of them end at the same stage)"]

SENTINEL = {"zz_sentinel_r.rsl": "package Zz_Sentinel_R\ntype }\n",
            "zz_sentinel_t.trlc": "package Zz_Sentinel_T\n}\n"}


def gen(rng, index):
    model = G.generate(rng, pkgs=(2, 7), types=(1, 3), objs=(1, 14), checks=(0, 2), unused_import=rng.choice([0.0, 0.3]), late=0.2, big=0.01,
                       null_unsafe=0.0, warn=1.0, fatal=0.0, sections=rng.choice([0.0, 0.3]))
    files = G.layout(model, rng, per_file=rng.choice([None, 1, 2]))
    for f in files:
        if f["kind"] == "trlc":
            f["merge"] = rng.choice([True, False, "nest"])
    target = rng.randrange(len(files))
    return {"model": model, "files": files, "target": target, "damage": [rng.randrange(1 << 30) for _ in range(rng.choice([1, 1, 2]))],
            "block": rng.choice([None, None, "lost", "doubled", "torn"]),
            "other": [[rng.randrange(len(files)), rng.randrange(1 << 30)] for _ in range(rng.choice([0, 0, 1, 2]))],
            "plant": [rng.randrange(1 << 30) for _ in range(rng.choice([1, 2, 2, 4, 6]))], "seed": rng.randrange(1 << 30),
            "order": rng.randrange(1 << 30), "hash": rng.randrange(4), "lint": rng.random() < 0.7}


def damaged(text_chunks, seeds, block, rng):
    head, body = text_chunks[0], "".join(text_chunks[1:])
    if not body.strip():
        return head + body + "}\n"
    if block and len(body) > 2:
        a, b = sorted(rng.sample(range(len(body)), 2))
        body = {"lost": body[:a] + body[b:], "doubled": body[:b] + body[a:], "torn": body[:b]}[block]
    else:
        for s in seeds:
            body = common.damage_text(body, random.Random(s))
    return head + body


def users(model, files, name):
    """Packages that contain, or import directly or indirectly, the package."""
    types = G.type_map(model)
    imports = {p["name"]: set(p["imports"]) for p in model["pkgs"]}
    for f in files:
        if f["kind"] == "trlc":
            need = set(f.get("extra_imports", ()))
            for i in f["objs"]:
                need |= G.obj_needs(model["objs"][i], types)
            imports[f["pkg"]] |= need
    rv = {name}
    while True:
        more = {p for p, imp in imports.items() if imp & rv} - rv
        if not more:
            return rv
        rv |= more


def in_files(res, paths):
    diags, _ = common.parse_brief(res["out"])
    return [d for d in diags if d[0] in paths]


def run(case, env):
    rep = core.Report()
    rep.nontrivial = False
    if not case["files"]:
        return rep
    model, files = case["model"], case["files"]
    types = G.type_map(model)
    rng = random.Random(case["seed"])
    chunks = {f["path"]: G.file_chunks(model, f, types) for f in files}
    tree = {p: "".join(c) for p, c in chunks.items()}
    target = files[case["target"] % len(files)]
    hit = users(model, files, target["pkg"])
    free = [f for f in files if f["pkg"] not in hit]
    if case["damage"] is not None and free:
        for n, seed in case["other"]:
            f = free[n % len(free)]
            tree[f["path"]] = damaged(chunks[f["path"]], [seed], None, random.Random(seed))
        bad = dict(tree)
        bad[target["path"]] = damaged(chunks[target["path"]], case["damage"], case["block"], random.Random(case["seed"]))
        spec = {"reg": [["dir", "."]], "opts": {"brief": True, "lint": case["lint"], "recovery": True}, "ignore_reg": True}
        results = {}
        for name, t in (("base", dict(tree, **SENTINEL)), ("bad", dict(bad, **SENTINEL)), ("bad-alone", bad)):
            results[name] = env.call("sim.jobs:api", {"tree": t, "spec": spec, "plan": {"order": case["order"]}, "dump": False}, case["hash"])
            rep.runs += 1
            if "out" not in results[name] or results[name]["exc"]:
                rep.hit("hang-or-died-or-raised")
                return rep
            rep.steps += results[name]["steps"]
        free_paths = {"./" + f["path"] for f in free} | {f["path"] for f in free}
        want, got = in_files(results["base"], free_paths), in_files(results["bad"], free_paths)
        alone = in_files(results["bad-alone"], free_paths)
        what = "damaged %s (package %s); packages not using it: %s" % (target["path"], target["pkg"], sorted({f["pkg"] for f in free}))
        rep.saw(core.digest(tree), core.digest(bad))
        rep.fault({"damage:" + (case["block"] or "token"): 1})
        rep.hit("rsl" if target["kind"] == "rsl" else "trlc")
        rep.hit("bad-rejected" if not results["bad-alone"]["success"] else "bad-accepted")
        if results["bad-alone"]["errors"]:
            rep.nontrivial = True
        errors = [d for d in want if d[3] == "error"]
        if errors:
            rep.hit("other-errors")
        if [d for d in got if d[3] == "error"] != errors:
            rep.violate("disturbed", "%s: errors for these packages are %s, without the damage %s" % (what, got, want), {"plant": []})
        # (paths inside messages are relative to what all files have in common)
        missing = [d for d in errors if d[:4] not in [x[:4] for x in alone]]
        if missing:
            rep.violate("lost", "%s: %s is not reported any more" % (what, missing[0]), {"plant": []})
        if errors and results["bad-alone"]["success"]:
            rep.violate("accepted", "%s: the run is accepted although %s" % (what, errors[0]), {"plant": []})
        sentinels = [d for d in common.parse_brief(results["bad"]["out"])[0] if "zz_sentinel" in d[0]]
        if len([d for d in sentinels if d[3] == "error"]) != 2:
            rep.violate("lost", "%s: errors of the two separate broken packages: %s" % (what, sentinels), {"plant": []})
        rep.sample = {"target": target["path"], "users": sorted(hit), "free": sorted({f["pkg"] for f in free}), "errors": len(errors)}
    if case["plant"]:
        plant(case, env, rep, rng, types)
    return rep


# -- errors planted inside single objects ------------------------------------

WRONG = {"Integer": '"text"', "Decimal": "true", "Boolean": "7", "String": "3", "Markup_String": "1.5"}


def planted(obj, types, rng):
    """Text of the object with one error in it, or None."""
    lines = G.r_object(obj, types).split("\n")[:-1]
    head, body = lines[0], lines[1:-1]
    # (only one-line values: every line of the body is one component)
    if len(body) != len(obj["vals"]):
        return None
    kind = rng.choice(["unknown", "double", "missing", "type", "notype", "nopkg", "noassign", "frozen", "brace", "value", "abstract", "keyword"])
    names = list(obj["vals"])
    fields = G.all_fields(types, obj["type"])
    if kind == "unknown":
        body.insert(rng.randrange(len(body) + 1), "  zz_unknown = 1")
    elif kind == "double" and names:
        n = rng.randrange(len(body))
        body.insert(rng.randrange(n, len(body)) + 1, body[n])
    elif kind == "missing":
        must = [n for n, name in enumerate(names) if any(f["name"] == name and not f["opt"] for f in fields)]
        if not must:
            return None
        del body[rng.choice(must)]
    elif kind == "type":
        can = [(n, f["type"][0]) for n, name in enumerate(names) for f in fields if f["name"] == name and f["type"][0] in WRONG]
        if not can:
            return None
        n, typ = rng.choice(can)
        body[n] = "  %s = %s" % (names[n], WRONG[typ])
    elif kind == "notype":
        head = "Zz_No_Type %s {" % obj["name"]
    elif kind == "nopkg":
        head = "Zz_No_Package.Zz_No_Type %s {" % obj["name"]
    elif kind == "noassign" and names:
        n = rng.randrange(len(body))
        body[n] = body[n].replace(" = ", " ", 1)
    elif kind == "frozen":
        frozen = sorted(G.frozen_of(types, obj["type"]))
        if not frozen:
            return None
        body.insert(rng.randrange(len(body) + 1), "  %s = 1" % rng.choice(frozen))
    elif kind == "brace":
        head = head.replace(" {", "")
    elif kind == "value" and names:
        n = rng.randrange(len(body))
        body[n] = "  %s = =" % names[n]
    elif kind == "abstract":
        own = [fqn for fqn, t in types.items() if t["k"] == "record" and t.get("abstract") and fqn.split(".")[0] == obj["pkg"]]
        if not own:
            return None
        head = "%s %s {" % (own[0].split(".")[1], obj["name"])
    elif kind == "keyword":
        body.insert(rng.randrange(len(body) + 1), "  checks = 3")
    else:
        return None
    return kind, "\n".join([head] + body + lines[-1:]) + "\n"


def plant(case, env, rep, rng, types):
    model, files = case["model"], case["files"]
    trlc = [f for f in files if f["kind"] == "trlc" and f["objs"]]
    if not trlc:
        return
    chosen = {}
    for seed in case["plant"]:
        r = random.Random(seed)
        i = r.choice(r.choice(trlc)["objs"])
        if i not in chosen:
            res = planted(model["objs"][i], types, r)
            if res:
                chosen[i] = res
    for f in trlc:
        # After an error the rest of the file is searched for something that
        # looks like an object, which one of unknown type does not.
        for a, b in zip(f["objs"], f["objs"][1:]):
            if a in chosen and b in chosen and chosen[b][0] in ("notype", "nopkg"):
                del chosen[b]
    if not chosen:
        return
    tree, places = {}, {}
    for f in files:
        if f["kind"] == "rsl" or not f["objs"]:
            tree[f["path"]] = "".join(G.file_chunks(model, f, types))
            continue
        objs = [model["objs"][i] for i in f["objs"]]
        text = G.trlc_chunks(f["pkg"], objs, types, f.get("extra_imports", ()))[0]
        for i in f["objs"]:
            text += "\n"
            first = text.count("\n") + 1
            part = chosen[i][1] if i in chosen else G.r_object(model["objs"][i], types)
            text += part
            if i in chosen:
                places[i] = (f["path"], first, text.count("\n"))
        tree[f["path"]] = text
    res = env.call("sim.jobs:cli", {"tree": tree, "argv": [".", "--brief"] + ([] if case["lint"] else ["--no-lint"]),
                                    "plan": {"order": case["order"]}}, case["hash"])
    rep.runs += 1
    if "out" not in res or res["exc"]:
        rep.hit("hang-or-died-or-raised")
        return
    rep.steps += res["steps"]
    rep.saw("plant", core.digest(tree))
    rep.nontrivial = rep.nontrivial or len(chosen) > 1
    diags, _ = common.parse_brief(res["out"])
    errors = [d for d in diags if d[3] == "error"]
    left = list(errors)
    for i, (path, first, last) in sorted(places.items()):
        rep.hit("plant-" + chosen[i][0])
        mine = [d for d in left if re.sub(r"^\./", "", d[0]) == path and d[1] and first <= int(d[1]) <= last]
        left = [d for d in left if d not in mine]
        if len(mine) != 1:
            rep.violate("planted", "error (%s) in object %s at %s:%u is reported %u times: %s; all errors: %s" %
                        (chosen[i][0], model["objs"][i]["name"], path, first, len(mine), mine, errors), {"damage": None})
    if left:
        rep.violate("follow-on", "errors planted in %s; also reported: %s" % (sorted(places.values()), left), {"damage": None})
    if res["status"] != 1:
        rep.violate("accepted", "%u objects have errors, but the exit status is %s" % (len(chosen), res["status"]), {"damage": None})


def shrink(case):
    if case["plant"] and case["damage"]:
        c = copy.deepcopy(case)
        c["plant"] = []
        yield c
    yield from common.shrink_list(case, "plant")
    yield from common.shrink_list(case, "other")
    if case["damage"] and len(case["damage"]) > 1:
        yield from common.shrink_list(case, "damage", 1)
    for k, v in (("lint", False),):
        if case[k] != v:
            c = copy.deepcopy(case)
            c[k] = v
            yield c
    yield from common.shrink_model(case)
