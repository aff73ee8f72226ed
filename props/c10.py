"""C10: record contents do not depend on file layout, names or order."""

import copy
import json
import os
import random

from sim import core
from sim import gen as G
from props import common

ID = "C10"
LEVEL = "exploration"
RULE = ("A case is one set of packages and record objects (in some cases with one reference to an unknown object or to one of the "
        "wrong type), laid out over files in 4 different ways: files, directories, names, order within files, section nesting, "
        "registration by directory, file, explicit content or include path, registration and listing order. Every result is "
        "compared with the records the model declares. Non-trivial: at least one object and two different layouts.")
MEASURE = "distinct (content, layout, registration, listing order) arrangements"
COUNT = {"quick": 5000, "thorough": 200000}
REAL, STUB = common.REAL, common.STUB
ASSUMPTIONS = common.ASSUME + ["the expected records are computed from the generated declarations by sim/gen.py, which renders only values "
                               "whose meaning the language manual leaves no doubt about"]


def gen(rng, index):
    model = G.generate(rng, pkgs=(1, 4), types=(2, 5), objs=(2, 12), late=0.35, invalid_ref=rng.choice([0.0, 0.0, 1.0]),
                       big=0.02, p_checks=rng.choice([0.0, 0.6]), warn=1.0, fatal=0.0, null_unsafe=0.0, refs=0.9, unions=0.6, tuples=0.7, sections=0.7, extends=0.6, freeze=0.5, markup=0.7, spelling=rng.choice([0.1, 0.4]))
    if G.valid_references(model) or any(kind != "check warning" for o in model["objs"] for kind, _ in G.Evaluator(model).expected(o)):
        # (user checks are of no interest here unless the input stays valid)
        for pkg in model["pkgs"]:
            pkg["items"] = [i for i in pkg["items"] if i["k"] != "checks"]
    if rng.random() < 0.6:
        model = G.collide(model, rng)
    arrs = []
    for _ in range(4):
        arrs.append({"seed": rng.randrange(1 << 30), "order": rng.choice([None, rng.randrange(1 << 30)]),
                     "how": rng.choice(["dir", "dir", "files", "content", "include", "mixed", "cli"]),
                     "hash": rng.randrange(4), "ident": rng.randrange(1 << 30),
                     "lint": rng.random() < 0.5, "recovery": rng.random() < 0.8})
    return {"model": model, "arrs": arrs}


def arrange(model, arr):
    """The files of one arrangement and how they are registered."""
    rng = random.Random(arr["seed"])
    files = G.layout(model, rng, per_file=rng.choice([None, None, 1, 2, 100]))
    for f in files:
        f["merge"] = rng.choice([True, False, "nest"])
        if f["kind"] == "trlc" and rng.random() < 0.3:
            # importing more than needed changes nothing
            f["extra_imports"] = [p["name"] for p in model["pkgs"] if rng.random() < 0.5]
    tree = G.render(model, files)
    common.pad(tree, rng, 0.05)
    if rng.random() < 0.3:
        # (files without any declaration)
        names = [p["name"] for p in model["pkgs"]]
        tree["void/e.trlc"] = "package %s\n" % rng.choice(names)
    paths = sorted(tree)
    rng.shuffle(paths)
    how = arr["how"]
    if how in ("dir", "cli"):
        reg = [["dir", "."]]
    elif how == "files":
        reg = [["file", p] for p in paths]
    elif how == "content":
        reg = [["file", p, tree[p]] for p in paths]
    elif how == "include":
        reg = [["file", p] for p in paths if p.endswith(".trlc")]
        # (the documentation wants includes to be registered first)
        reg = [["include", "."]] + reg
    else:
        tops = sorted({p.split("/")[0] if "/" in p else "" for p in paths})
        reg = [["dir", d] for d in tops if d] + [["file", p] for p in paths if "/" not in p]
        rng.shuffle(reg)
    if rng.random() < 0.25:
        # (the same files by other names)
        tops = sorted({p.split("/")[0] for p in paths if "/" in p})
        reg = [[r[0], spelled(r[1], tops, r[0] == "dir", rng)] + r[2:] for r in reg]
    return files, tree, reg


def spelled(path, tops, is_dir, rng):
    if path == ".":
        return rng.choice([".", "./", "/simroot", "./.", "/simroot/"])
    forms = ["./" + path, "/simroot/" + path, "./" + path.replace("/", "/./")]
    if tops:
        forms.append("%s/../%s" % (rng.choice(tops), path))
    if is_dir:
        forms.append(path + "/")
    return rng.choice(forms)


def expected(model):
    types = G.type_map(model)
    rv = {}
    for o in model["objs"]:
        refs = {}
        for f in G.all_fields(types, o["type"]):
            val = o["vals"].get(f["name"])
            if val is not None:
                names = ["%s.%s" % r for r in ordered_refs(val, f["type"], types)]
                if names:
                    refs[f["name"]] = names
        rv[o["pkg"] + "." + o["name"]] = {"type": o["type"], "section": list(o["section"]),
                                          "fields": G.floats(G.expected_object(model, types, o)), "refs": refs}
    return rv


def ordered_refs(val, typ, types):
    if val[0] == "arr":
        return [r for v in val[1] for r in ordered_refs(v, typ[1], types)]
    if val[0] == "tup":
        return [r for f in types[val[1]]["fields"] if f["name"] in val[2] for r in ordered_refs(val[2][f["name"]], f["type"], types)]
    return G.refs_in(val)


def run(case, env):
    rep = core.Report()
    model = case["model"]
    bad = G.valid_references(model)
    want = expected(model)
    layouts = set()
    for arr in case["arrs"]:
        files, tree, reg = arrange(model, arr)
        what = "arrangement %s" % {k: arr[k] for k in ("how", "seed", "order")}
        if arr["how"] == "cli":
            res = env.call("sim.jobs:cli", {"tree": tree, "argv": ["--brief", "--debug-api-dump", "."], "plan": {"order": arr["order"]},
                                            "ident": arr["ident"]}, arr["hash"])
        else:
            spec = {"reg": reg, "opts": {"brief": True, "lint": arr["lint"], "recovery": arr["recovery"]}}
            res = env.call("sim.jobs:api", {"tree": tree, "spec": spec, "plan": {"order": arr["order"]}, "ident": arr["ident"]}, arr["hash"])
        rep.runs += 1
        if "hang" in res or "died" in res:
            rep.hit("hang-or-died")
            continue
        rep.steps += res["steps"]
        layouts.add(core.digest(tree))
        rep.saw(core.digest(tree), [r[:2] for r in reg], res["listings"])
        rep.hit("registered-by-" + arr["how"])
        if res["exc"]:
            rep.violate("crash", "%s: %s" % (what, res["exc"]))
            continue
        diags, _ = common.parse_brief(res["out"])
        errors = [d for d in diags if d[3] == "error"]
        ok = res["success"] if arr["how"] != "cli" else res["status"] == 0
        if bad:
            rep.hit("invalid-reference")
            where = next(f["path"] for f in files for i in f["objs"] if model["objs"][i]["pkg"] + "." + model["objs"][i]["name"] == bad[0])
            if ok:
                rep.violate("invalid-accepted", "%s: the invalid reference in %s is accepted" % (what, bad))
            elif not any(os.path.normpath(d[0]).endswith(where) for d in errors):
                rep.violate("invalid-misplaced", "%s: no error for the invalid reference of %s in %s: %s" % (what, bad, where, errors[:4]))
            continue
        if not ok:
            rep.violate("valid-rejected", "%s: valid input rejected: %s" % (what, errors[:4]))
            continue
        if arr["how"] == "cli":
            problem = compare_cli(model, want, res["out"])
            if problem:
                rep.violate("cli-dump", "%s: %s" % (what, problem))
            continue
        got = {o["name"]: o for p in res["stab"]["packages"] for o in p["objects"]}
        rep.hit("objects", len(got))
        if sorted(res["stab"]["order"]) != sorted(want):
            rep.violate("object-set", "%s: iteration gives %s, declared are %s" % (what, sorted(res["stab"]["order"]), sorted(want)))
            continue
        if res["wrong_targets"]:
            rep.violate("reference-target", "%s: references to %s do not lead to the object of that name" % (what, res["wrong_targets"]))
        for name in sorted(want):
            if name not in got:
                rep.violate("object-set", "%s: %s is missing in its package" % (what, name))
                continue
            for key in ("type", "section", "fields", "refs"):
                if canonical(key, got[name][key]) != canonical(key, want[name][key]):
                    rep.violate("wrong-" + key, "%s: %s of %s is %r, declared is %r" % (what, key, name, got[name][key], want[name][key]))
            if any(r for v in want[name]["refs"].values() for r in v):
                rep.hit("references", sum(len(v) for v in want[name]["refs"].values()))
    rep.nontrivial = len(layouts) > 1 and bool(model["objs"])
    rep.sample = {"objects": sorted(want), "arrangements": case["arrs"], "invalid": bad}
    return rep


def compare_cli(model, want, out):
    """--debug-api-dump shows the fields by short object name."""
    by_name = {}
    for name, obj in want.items():
        by_name.setdefault(name.split(".")[1], []).append(obj["fields"])
    try:
        start = out.index("{")
        got, _ = json.JSONDecoder().raw_decode(out[start:])
    except ValueError as err:
        return "no dump in the output: %s" % err
    if sorted(got) != sorted(by_name):
        return "dump has %s, declared are %s" % (sorted(got), sorted(by_name))
    for name, fields in sorted(got.items()):
        if fields not in by_name[name]:
            return "%s is dumped as %s, declared as %s" % (name, fields, by_name[name])
    return None


def shrink(case):
    if len(case["arrs"]) > 1:
        for arr in case["arrs"]:
            c = copy.deepcopy(case)
            c["arrs"] = [arr]
            yield c
    for k, v in (("order", None), ("hash", 0), ("ident", 0)):
        if case["arrs"][0][k] != v:
            c = copy.deepcopy(case)
            c["arrs"][0][k] = v
            yield c
    # (the layout is recomputed from the arrangement's seed)
    for c in common.shrink_model(dict(case, files=[])):
        c.pop("files")
        yield c


def canonical(key, value):
    # the order of references within one value is the order in which the
    # implementation stores components; the text and array order is in fields
    return {k: sorted(map(str, v)) for k, v in value.items()} if key == "refs" else value
