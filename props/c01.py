"""C01: the output does not depend on directory-listing order or hash order."""

import copy

from sim import core
from sim import gen as G
from props import common

ID = "C01"
LEVEL = "exploration"
RULE = ("A case is one input tree (generated packages over several directories, often damaged so that diagnostics "
        "appear) and one command line, executed under 5 environments that differ in directory-listing order, hash "
        "seed and identity-hash salt. Non-trivial: at least two executions saw different entry orders of a "
        "directory with two or more relevant entries.")
MEASURE = "distinct (tree, listing order, hash seed) environments in which the tool ran"
COUNT = {"quick": 3000, "thorough": 40000}
REAL, STUB = common.REAL, common.STUB
ASSUMPTIONS = common.ASSUME


def gen_tree(rng):
    model = G.generate(rng, pkgs=(1, 5), types=(1, 3), objs=(0, 8), unused_import=0.6, checks=(0, 3),
                         invalid_ref=0.1, big=0.02, null_unsafe=rng.choice([0.0, 0.2]), warn=rng.choice([0.0, 1.0]))
    files = G.layout(model, rng, dirs=rng.choice([[""], ["", "b", "a"], ["z", "a", "m", "z/a"], ["a", "b", "c"]]))
    for f in files:
        if f["kind"] == "trlc" and rng.random() < 0.5:
            others = [p["name"] for p in model["pkgs"] if p["name"] != f["pkg"]]
            f["extra_imports"] = rng.sample(others, rng.randint(0, len(others)))
    tree = G.render(model, files)
    common.pad(tree, rng)
    paths = sorted(tree)
    roll = rng.random()
    if roll < 0.4:
        for _ in range(rng.randint(1, 4)):
            p = rng.choice(paths)
            tree[p] = common.damage_text(tree[p], rng)
    if rng.random() < 0.25:
        # the same package or object twice, in different directories
        p = rng.choice(paths)
        d = rng.choice(["dup/", "a/dup/", "zz/"])
        tree[d + p.split("/")[-1]] = tree[p]
    if rng.random() < 0.15 and len(model["pkgs"]) > 1:
        # circular imports
        rsl = [p for p in paths if p.endswith(".rsl")]
        names = [p["name"] for p in model["pkgs"]]
        for p in rng.sample(rsl, min(len(rsl), 3)):
            head, _, rest = tree[p].partition("\n")
            tree[p] = head + "\nimport %s\n" % rng.choice(names) + rest
    if rng.random() < 0.2:
        p = rng.choice(paths)
        head, _, rest = tree[p].partition("\n")
        tree[p] = head + "\nimport %s\n" % rng.choice(["Missing_Package", (head.split() or ["X"])[-1]]) + rest
    if rng.random() < 0.2:
        tree["bazel-out/x.rsl"] = "package Nope nope\n"
        tree["notes.txt"] = "not an input"
    return tree


def gen_argv(rng, tree):
    argv = []
    for opt, p in (("--brief", 0.3), ("--no-lint", 0.2), ("--skip-trlc-files", 0.07), ("--no-user-warnings", 0.1),
                   ("--no-error-recovery", 0.15), ("--show-file-list", 0.6), ("--debug-api-dump", 0.6),
                   ("--error-on-warnings", 0.1), ("--include-bazel-dirs", 0.05),
                   ("--no-detailed-info", 0.1)):
        if rng.random() < p:
            argv.append(opt)
    dirs = sorted({p.rsplit("/", 1)[0] for p in tree if "/" in p})
    roll = rng.random()
    if roll < 0.45:
        pass
    elif roll < 0.55:
        argv += ["."]
    elif roll < 0.75 and dirs:
        incs = rng.sample(dirs, rng.randint(1, min(len(dirs), 3)))
        tops = [p for p in sorted(tree) if p.endswith((".rsl", ".trlc")) and
                not any(p.startswith(d + "/") for d in incs)]
        for d in incs:
            argv += ["-I", d]
        argv += rng.sample(tops, rng.randint(1, min(len(tops), 3))) if tops else ["."]
    elif roll < 0.9:
        files = [p for p in sorted(tree) if p.endswith((".trlc", ".rsl"))]
        rng.shuffle(files)
        argv += ["-I", "."] + files[:rng.randint(1, 2)]
    else:
        files = [p for p in sorted(tree) if p.endswith((".trlc", ".rsl"))]
        rng.shuffle(files)
        argv += files
    if rng.random() < 0.2:
        argv = ["--log", "out.log"] + (["x/"] if rng.random() < 0.3 else []) + argv
        if "-I" not in argv and argv[-1].startswith("-") is False and len(argv) <= 3:
            argv += ["--brief"]
    return argv


def gen(rng, index):
    tree = gen_tree(rng)
    envs = [{"order": None, "hash": 0, "ident": 0}]
    for n in range(4):
        envs.append({"order": rng.randrange(1 << 30) if rng.random() < 0.85 else None,
                     "hash": rng.randrange(4), "ident": rng.randrange(1 << 30)})
    case = {"tree": tree, "argv": gen_argv(rng, tree), "envs": envs}
    if rng.random() < 0.35:
        dirs = sorted({p.rsplit("/", 1)[0] for p in tree if "/" in p})
        reg = [["include", d] for d in rng.sample(dirs, rng.randint(0, len(dirs)))]
        tops = [p for p in sorted(tree) if p.endswith((".rsl", ".trlc"))]
        reg += [["file", p] for p in rng.sample(tops, rng.randint(1, len(tops)))] if reg else [["dir", "."]]
        case["api"] = {"reg": reg, "ignore_reg": True,
                       "opts": {"brief": rng.random() < 0.5, "lint": rng.random() < 0.8, "recovery": rng.random() < 0.8}}
    return case


def observe(case, e, env):
    plan = {"order": e["order"]}
    if case.get("api"):
        res = env.call("sim.jobs:api", {"tree": case["tree"], "spec": case["api"], "plan": plan, "ident": e["ident"]},
                       e["hash"])
        if "out" in res:
            res["status"] = "symbol table" if res["success"] else "none"
            res["extra"] = core.json.dumps(res.get("stab"), indent=1)
            res["exc"] = res["exc"] and res["exc"]["site"]
        return res
    res = env.call("sim.jobs:cli", {"tree": case["tree"], "argv": case["argv"], "plan": plan,
                                    "ident": e["ident"], "keep": ["out.log"]}, e["hash"])
    if "out" in res:
        res["extra"] = "== log ==\n" + str(res["files"]["out.log"])
    return res


def run(case, env):
    rep = core.Report()
    first = None
    seen = set()
    what = "API %s" % case["api"] if case.get("api") else "argv %s" % case["argv"]
    for n, e in enumerate(case["envs"]):
        res = observe(case, e, env)
        rep.runs += 1
        if "hang" in res or "died" in res:
            rep.hit("hang-or-died")
            continue
        rep.steps += res["steps"]
        seen.add(core.digest(res["listings"]))
        rep.saw(res["listings"], env.pool()[e["hash"]], e["ident"], core.digest(case["tree"]))
        out = res["out"] + "\n" + res["extra"]
        key = (res["status"], out, res["exc"])
        if first is None:
            first = key
            if res["exc"]:
                rep.hit("crash")
            rep.hit("status-%s" % res["status"])
            rep.sample = {"argv": case["argv"], "files": sorted(case["tree"]), "envs": case["envs"],
                          "output_lines": len(res["out"].split("\n"))}
        elif key != first:
            if key[0] != first[0]:
                rep.violate("status-varies", "%s: exit status %s in the first environment, %s under %s" %
                            (what, first[0], key[0], e))
            elif key[2] != first[2]:
                rep.violate("crash-varies", "%s: %s in the first environment, %s under %s" %
                            (what, first[2], key[2], e))
            elif sorted(key[1].split("\n")) == sorted(first[1].split("\n")):
                rep.violate("order-varies", "%s under %s: same lines in another order, %s" %
                            (what, e, common.diff(first[1], key[1])))
            else:
                rep.violate("output-varies", "%s under %s: %s" % (what, e, common.diff(first[1], key[1])))
    rep.nontrivial = len(seen) > 1
    if len(seen) > 1:
        rep.hit("listing-order-varied")
    return rep


def shrink(case):
    if len(case["envs"]) > 2:
        for n in range(1, len(case["envs"])):
            c = copy.deepcopy(case)
            c["envs"] = [case["envs"][0], case["envs"][n]]
            yield c
    for e in range(1, len(case["envs"])):
        for k, v in (("order", None), ("hash", 0), ("ident", 0)):
            if case["envs"][e][k] != v:
                c = copy.deepcopy(case)
                c["envs"][e][k] = v
                yield c
    for p in sorted(case["tree"]):
        if p not in case["argv"] and not case.get("api"):
            c = copy.deepcopy(case)
            del c["tree"][p]
            yield c
    for p in sorted(case["tree"]):
        lines = case["tree"][p].split("\n")
        n = len(lines) // 2
        while n >= 1:
            for s in range(0, len(lines), n):
                c = copy.deepcopy(case)
                c["tree"][p] = "\n".join(lines[:s] + lines[s + n:])
                yield c
            n //= 2
