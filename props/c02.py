"""C02: include paths pull in exactly the packages that are needed."""

import copy
import posixpath
import re

from sim import core
from sim import gen as G
from props import common

ID = "C02"
LEVEL = "exploration"
RULE = ("A case is a random package graph spread over named files and include directories; every file the reference "
        "closure says is not needed carries errors in its body. Executed with -I under several directory-listing orders "
        "and option orders, and with the needed files named explicitly. Non-trivial: at least one included file is "
        "needed and at least one is not.")
MEASURE = "distinct (package graph, named/included split, listing order) combinations"
COUNT = {"quick": 2400, "thorough": 30000}
REAL, STUB = common.REAL, common.STUB
ASSUMPTIONS = common.ASSUME + ["files of include directories are all lexed and their preambles read, as the tool does; "
                               "only their bodies are treated as not processed (documented in architecture.md)"]

JUNK_RSL = ["\ntype Zz_Junk {\n  a Nonexistent_Type\n}\n", "\ntype {\n", "\nenum Zz_Junk }\n", "\nchecks Nothing_Here { true, \"x\" }\n",
            "\ntype Zz_Junk {\n  a Integer\n  a Integer\n}\n", "\n} } package other\n"]
JUNK_TRLC = ["\nNo_Such_Type zz_obj {\n}\n", "\nsection \"x\" {\n", "\n} foo = bar\n", "\nsection {\n", "\nInteger zz_obj { x = 1 }\n"]


# ways to write an include directory
SPELL = ["./%s", "%s/", "%s/.", "main/../%s", "%s//"]


def same_names(files, rng):
    """Files in different directories often have equal names"""
    taken = set()
    for f in files:
        d = f["path"].rpartition("/")[0]
        name = (d + "/" if d else "") + rng.choice(["a", "b", "model"]) + "." + f["kind"]
        if name not in taken and not any(g is not f and g["path"] == name for g in files):
            f["path"] = name
        taken.add(f["path"])


def gen(rng, index):
    model = G.generate(rng, pkgs=(2, 7), types=(1, 2), objs=(0, 10), late=0.25, unused_import=0.5, checks=(0, 2), null_unsafe=0.0,
                       warn=rng.choice([0.0, 0.8]), fatal=0.05, depth=1, refs=0.8, p_checks=0.4)
    style = rng.random()
    # directory of every package (or file): two include trees and the named part
    files = G.layout(model, rng, dirs=rng.choice([["inc", "main"], ["inc", "inc/sub", "main"], ["inc", "lib", "main", ""],
                                                  ["lib/a", "lib/b", "main"], ["bazel-x", "inc", "main"],
                                                  ["x/lib", "lib", "main"], ["inc/sub/inc", "inc", "sub/inc", "main"]]))
    if rng.random() < 0.3:
        same_names(files, rng)
    names = [p["name"] for p in model["pkgs"]]
    for f in files:
        if f["kind"] == "trlc" and rng.random() < 0.5:
            # imports nothing uses still make packages needed
            f["extra_imports"] = rng.sample(names, rng.randint(0, min(2, len(names))))
    if style < 0.15 and len(names) > 1:
        # circular requirement-file imports are legal
        for f in files:
            if f["kind"] == "trlc":
                f["extra_imports"] = sorted(set(f.get("extra_imports", [])) | {rng.choice(names)})
    tops = sorted({f["path"].split("/")[0] for f in files if "/" in f["path"]} - {"main"})
    incdirs = list(tops)
    if rng.random() < 0.5:
        # overlapping and nested include directories
        dirs = sorted({"/".join(f["path"].split("/")[:n]) for f in files for n in range(1, f["path"].count("/") + 1)} - {"main"})
        incdirs = rng.sample(dirs, rng.randint(min(1, len(dirs)), len(dirs)))
    rng.shuffle(incdirs)
    candidates = [f["path"] for f in files]
    mains = [p for p in candidates if p.startswith("main/") or "/" not in p]
    roll = rng.random()
    if mains and roll < 0.5:
        named = ["main"] if any(p.startswith("main/") for p in mains) else []
        named += [p for p in mains if "/" not in p and rng.random() < 0.6]
        named = named or mains[:1]
    else:
        trlcs = [f["path"] for f in files if f["kind"] == "trlc"] or candidates
        named = rng.sample(trlcs, rng.randint(1, min(2, len(trlcs))))
        if rng.random() < 0.3:
            rsl = [f["path"] for f in files if f["kind"] == "rsl"]
            named += [p for p in rng.sample(rsl, min(1, len(rsl))) if p not in named]
    if rng.random() < 0.35:
        incdirs = rng.choice([["."], ["."] + incdirs])
    case = {"model": model, "files": files, "named": named, "incs": incdirs, "order_seed": [rng.randrange(1 << 30) for _ in range(2)],
            "junk": rng.random() < 0.85, "junk_seed": rng.randrange(1 << 30),
            "spell": [rng.choice(SPELL) if rng.random() < 0.3 else "%s" for _ in incdirs], "hash": rng.randrange(4), "ident": rng.randrange(1 << 30),
            "lint": rng.random() < 0.5, "bazel": rng.random() < 0.2, "brief": rng.random() < 0.7,
            "rsl_only": rng.random() < 0.08, "needed_damage": None, "files_first": rng.random() < 0.3}
    if rng.random() < 0.25:
        case["needed_damage"] = rng.randrange(1 << 30)
    return case


def reference(case):
    """The closure, from the package graph alone.  Returns (visible files,
    primary set, needed set)."""
    files = {f["path"]: f for f in case["files"]}
    model = case["model"]
    types = G.type_map(model)

    def inside(path, d):
        return d == "." or path.startswith(d + "/")

    def excluded_dir(path, d):
        rest = path if d == "." else path[len(d) + 1:]
        parts = rest.split("/")[:-1]
        return not case["bazel"] and any(re.match("^bazel-.*$", p) for p in parts)

    primary = set()
    for n in case["named"]:
        if n in files:
            primary.add(n)
        else:
            primary |= {p for p in files if inside(p, n) and not excluded_dir(p, n)}
    included = {p for p in files for d in case["incs"] if inside(p, d) and not excluded_dir(p, d)} - primary
    visible = primary | included
    graph, members = {}, {}
    for p in visible:
        f = files[p]
        node = (f["pkg"], f["kind"])
        members.setdefault(node, set()).add(p)
        graph.setdefault((f["pkg"], "rsl"), set())
        graph.setdefault((f["pkg"], "trlc"), set()).add((f["pkg"], "rsl"))
    for p in visible:
        f = files[p]
        for imp in imports_of(case, f, types):
            graph[(f["pkg"], f["kind"])].add((imp, f["kind"]))
    todo = {(files[p]["pkg"], files[p]["kind"]) for p in primary}
    done = set()
    while todo:
        node = todo.pop()
        done.add(node)
        todo |= {n for n in graph.get(node, ()) if n in graph} - done
    needed = {p for node in done for p in members.get(node, ())}
    return visible, primary, needed | primary


def imports_of(case, f, types):
    if f["kind"] == "rsl":
        return next(p for p in case["model"]["pkgs"] if p["name"] == f["pkg"])["imports"]
    need = set(f.get("extra_imports", ()))
    for i in f["objs"]:
        need |= G.obj_needs(case["model"]["objs"][i], types)
    need.discard(f["pkg"])
    return need


def build(case):
    import random
    visible, primary, needed = reference(case)
    tree = G.render(case["model"], case["files"])
    rng = random.Random(case["junk_seed"])
    importable = {k: {f["pkg"] for f in case["files"] if f["path"] in visible and (f["kind"] == "rsl" or k == "trlc")}
                  for k in ("rsl", "trlc")}
    for p in sorted(visible - needed):
        # the preambles of all files are read and must be right in themselves
        kind = "rsl" if p.endswith(".rsl") else "trlc"
        tree[p] = "\n".join(l for l in tree[p].split("\n")
                            if not l.startswith("import ") or l.split()[1] in importable[kind])
    for p in sorted(tree):
        pick = rng.random()
        junk = rng.choice(JUNK_RSL if p.endswith(".rsl") else JUNK_TRLC)
        if case["junk"] and p in visible and p not in needed and pick < 0.9:
            # keep the preamble, break the rest
            lines = tree[p].split("\n")
            n = next(i for i, l in enumerate(lines) if i and not l.startswith("import "))
            if pick < 0.45:
                lines = lines[:n]
            tree[p] = "\n".join(lines) + junk
    if case["needed_damage"] is not None and needed:
        drng = random.Random(case["needed_damage"])
        p = drng.choice(sorted(needed))
        head, body = split_preamble(tree[p])
        # the first token of the body is read with the preamble: leave it alone
        m = re.match(r"\s*\w+\b", body)
        if m and body[m.end():].strip():
            tree[p] = head + m[0] + " " + common.damage_text(body[m.end():], drng)
    return tree, visible, primary, needed


def split_preamble(text):
    lines = text.split("\n")
    n = next((i for i, l in enumerate(lines) if i and not l.startswith("import ")), len(lines))
    return "\n".join(lines[:n]) + "\n", "\n".join(lines[n:])


def options(case):
    rv = ["--show-file-list", "--debug-api-dump"]
    if case["brief"]:
        rv += ["--brief"]
    if not case["lint"]:
        rv += ["--no-lint"]
    if case["bazel"]:
        rv += ["--include-bazel-dirs"]
    return rv


def split_output(text):
    """(diagnostic and dump lines, summary, file list)"""
    body, summary, listing = [], None, {}
    for line in text.split("\n"):
        m = re.match(r"^> \[(Primary|Included|Excluded)\]\s+(Model|Requirements) (.*) \(Package (.*)\)$", line)
        if m:
            listing[norm(m[3])] = (m[1], m[2], m[4])
        elif common.SUMMARY.match(line):
            summary = line
        else:
            body.append(line)
    return body, summary, listing


def norm(path):
    return posixpath.normpath(path)


def normal_lines(body):
    # how a file is named depends on the include directory it was found by, and
    # references to other files are given relative to the common directory
    rv = []
    for line in body:
        line = re.sub(r"//+", "/", line)
        line = re.sub(r"(^|[\s(^])\./", r"\1", line)
        line = re.sub(r"(?:[\w.-]+/)*([\w.-]+\.(?:rsl|trlc)|<builtin>)", r"\1", line)
        # packages of unneeded files are known by name
        line = re.sub(r"error: (unknown symbol .*|package must be imported before use)$", "error: unusable name", line)
        # and may be suggested
        line = re.sub(r", did you mean \S+\?$", "", line)
        rv.append(line)
    return sorted(rv)


def run(case, env):
    rep = core.Report()
    tree, visible, primary, needed = build(case)
    opts = options(case)
    spelled = [w % d for d, w in zip(case["incs"], case["spell"])]
    if not any(p.startswith("main/") for p in tree):
        spelled = [d.replace("main/../", "") for d in spelled]
    inc = [x for d in spelled for x in ("-I", d)]
    results = []
    for n, order in enumerate([None] + case["order_seed"]):
        argv = list(opts)
        dirs = list(inc)
        if n == 2:
            dirs = [x for d in reversed(spelled) for x in ("-I", d)]
        argv = argv + dirs + case["named"]
        res = env.call("sim.jobs:cli", {"tree": tree, "argv": argv, "plan": {"order": order}, "ident": case["ident"] + n},
                       case["hash"] + n)
        rep.runs += 1
        if "out" not in res:
            rep.hit("hang-or-died")
            return rep
        rep.steps += res["steps"]
        rep.saw(core.digest(tree), case["named"], case["incs"], res["listings"])
        results.append((argv, res))
    extra = visible - needed
    pulled = needed - primary
    rep.nontrivial = bool(extra) and bool(pulled)
    rep.hit("excluded-files", len(extra))
    rep.hit("pulled-in-files", len(pulled))
    rep.sample = {"named": case["named"], "includes": case["incs"], "needed": sorted(needed), "not_needed": sorted(extra)}

    explicit = list(opts) + sorted(needed)
    ref = env.call("sim.jobs:cli", {"tree": tree, "argv": explicit}, 0)
    rep.runs += 1
    if "out" not in ref:
        rep.hit("hang-or-died")
        return rep
    rep.hit("status-%s" % ref["status"])
    rbody, rsum, _ = split_output(ref["out"])
    for argv, res in results:
        body, summary, listing = split_output(res["out"])
        what = "%s (needed: %s)" % (" ".join(argv), " ".join(sorted(needed)))
        if res["exc"] or ref["exc"]:
            if res["exc"] != ref["exc"] or case["needed_damage"] is None:
                rep.violate("crash", "%s: crashed with %s in %s" % (what, res["exc"] or ref["exc"], res["site"] or ref["site"]))
            continue
        if res["status"] != ref["status"]:
            rep.violate("verdict", "%s: status %s, but %s when the needed files are named explicitly; output %s / %s" %
                        (what, res["status"], ref["status"], res["out"][-600:], ref["out"][-300:]))
            continue
        touched = [norm(d[0]) for d in common.parse_brief(res["out"])[0]]
        wrong = [p for p in touched if p in extra]
        if wrong:
            rep.violate("diagnostic-in-unneeded", "%s: diagnostics in %s, which is not needed" % (what, wrong[0]))
        na, nb = normal_lines(body), normal_lines(rbody)
        if na != nb:
            rep.violate("diagnostics", "%s: differs from naming the needed files: %s" %
                        (what, common.diff("\n".join(nb), "\n".join(na), "explicit", "included")))
        if listing or res["status"] == 0:
            want = {}
            for p in visible:
                f = next(f for f in case["files"] if f["path"] == p)
                want[p] = ("Primary" if p in primary else "Included" if p in needed else "Excluded",
                           "Model" if f["kind"] == "rsl" else "Requirements", f["pkg"])
            if listing != want:
                bad = sorted(p for p in set(want) | set(listing) if want.get(p) != listing.get(p))
                rep.violate("file-list", "%s: %s listed as %s, should be %s" %
                            (what, bad[0], listing.get(bad[0]), want.get(bad[0])))
        if summary is not None:
            want = count_summary(visible, needed)
            if not summary.startswith(want):
                rep.violate("summary", "%s: summary %r should start with %r" % (what, summary, want))
    return rep


def count_summary(visible, needed):
    def count(ext, what):
        total = sum(1 for p in visible if p.endswith(ext))
        parsed = sum(1 for p in needed if p.endswith(ext))
        rv = str(parsed) + (" (of %u)" % total if parsed < total else "") + " " + what
        return rv + ("s" if total == 0 or total > 1 else "")
    return "Processed %s and %s and found" % (count(".rsl", "model"), count(".trlc", "requirement file"))


def shrink(case):
    for k, v in (("needed_damage", None), ("junk", False), ("lint", False), ("brief", True), ("bazel", False)):
        if case[k] != v:
            c = copy.deepcopy(case)
            c[k] = v
            yield c
    if any(w != "%s" for w in case["spell"]):
        c = copy.deepcopy(case)
        c["spell"] = ["%s"] * len(c["spell"])
        yield c
    for c in common.shrink_model(case):
        if all(n in {f["path"] for f in c["files"]} or "." not in n for n in c["named"]):
            yield c
    for i, f in enumerate(case["files"]):
        if f.get("extra_imports"):
            c = copy.deepcopy(case)
            c["files"][i]["extra_imports"] = []
            yield c
