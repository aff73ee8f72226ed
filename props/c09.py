"""C09: torn or corrupted files give a diagnostic, never a crash or altered data."""

import copy
import random
import re

from sim import core
from sim import gen as G
from props import common

ID = "C09"
LEVEL = "exploration"
RULE = ("A case is one generated input tree of which one file was damaged in storage: cut off (at token boundaries and random "
        "bytes), with a block lost, duplicated, zeroed or exchanged, or with bits flipped. The tool runs on the damaged tree with and "
        "without error recovery and checks. Non-trivial: the intact tree is accepted.")
MEASURE = "distinct (file, damage) pairs the tool was run on"
COUNT = {"quick": 420, "thorough": 12000}
REAL, STUB = common.REAL, common.STUB
ASSUMPTIONS = common.ASSUME + ["nesting deeper than Python's recursion limit does not arise from damage of the generated files"]


def gen(rng, index):
    model = G.generate(rng, pkgs=(1, 3), types=(1, 4), objs=(0, 5), checks=(0, 4), null_unsafe=rng.choice([0.0, 0.0, 0.3]),
                       warn=rng.choice([1.0, 1.0, 0.5]), fatal=0.0, details=0.5)
    files = G.layout(model, rng, dirs=[""])
    rsl = [f["path"] for f in files if f["kind"] == "rsl"]
    trlc = [f["path"] for f in files if f["kind"] == "trlc"]
    path = rng.choice(rsl if rsl and (not trlc or rng.random() < 0.6) else trlc)
    return {"model": model, "files": files, "path": path, "seed": rng.randrange(1 << 30), "lint": rng.random() < 0.8,
            "recovery": rng.random() < 0.75, "brief": rng.random() < 0.5, "verify": index % 40 == 7, "edits": None,
            "hash": rng.randrange(4)}


TOKEN = re.compile(r'"(?:[^"\\\n]|\\.)*"|\'\'\'.*?\'\'\'|"""|//[^\n]*|/\*.*?\*/|\w+|[^\w\s]+', re.S)


def edits(text, rng):
    """Descriptions of damage: [kind, numbers...]"""
    rv = []
    ends = [m.end() for m in TOKEN.finditer(text)]
    starts = [m.start() for m in TOKEN.finditer(text)]
    cuts = set(rng.sample(ends, min(len(ends), 26))) | set(rng.sample(starts, min(len(starts), 6)))
    cuts |= {rng.randrange(len(text) + 1) for _ in range(8)}
    rv += [["cut", c] for c in sorted(cuts)]
    n = len(text)
    for _ in range(6):
        size = rng.choice([1, 2, 4, 16, 64, 512])
        at = rng.randrange(max(1, n - size + 1))
        if rng.random() < 0.4:
            at -= at % size
        rv.append([rng.choice(["lose", "double", "zero"]), at, size])
    for _ in range(4):
        # whole tokens or token runs
        i = rng.randrange(len(starts))
        j = min(len(starts) - 1, i + rng.choice([0, 0, 0, 1, 2, 5]))
        k = rng.randrange(len(starts))
        rv.append([rng.choice(["lose", "double"]), starts[i], ends[j] - starts[i]])
        rv.append(["copy", starts[i], ends[j] - starts[i], starts[k]])
        rv.append(["over", starts[i], ends[i] - starts[i], starts[k], ends[k] - starts[k]])
    for _ in range(8):
        rv.append(["flip", rng.randrange(n), rng.randrange(7)])
    for _ in range(2):
        rv.append(["set", rng.randrange(n), rng.choice("\x00\t\r\n\\\"'{}()[]@=,;:.<>!|/*+-%09azAZ_ \x7f\xe9")])
    return rv


def apply(text, edit):
    k = edit[0]
    if k == "cut":
        return text[:edit[1]]
    if k == "lose":
        return text[:edit[1]] + text[edit[1] + edit[2]:]
    if k == "double":
        return text[:edit[1] + edit[2]] + text[edit[1]:]
    if k == "zero":
        return text[:edit[1]] + "\x00" * len(text[edit[1]:edit[1] + edit[2]]) + text[edit[1] + edit[2]:]
    if k == "copy":
        return text[:edit[3]] + text[edit[1]:edit[1] + edit[2]] + " " + text[edit[3]:]
    if k == "over":
        return text[:edit[3]] + text[edit[1]:edit[1] + edit[2]] + text[edit[3] + edit[4]:]
    if k == "flip":
        c = chr(ord(text[edit[1]]) ^ (1 << edit[2])) if edit[1] < len(text) else ""
        return text[:edit[1]] + c + text[edit[1] + 1:]
    if k == "set":
        return text[:edit[1]] + edit[2] + text[edit[1] + 1:]
    raise AssertionError(k)


def execute(env, case, tree):
    spec = {"reg": [["dir", "."]], "opts": {"brief": case["brief"], "lint": case["lint"], "recovery": case["recovery"],
                                            "verify": case["verify"]}}
    return env.call("sim.jobs:api", {"tree": tree, "spec": spec}, case["hash"], 30.0 if not case["verify"] else 120.0)


def declarations(case, path):
    """Names declared in a file, in order."""
    f = next(f for f in case["files"] if f["path"] == path)
    model = case["model"]
    if f["kind"] == "trlc":
        return f["pkg"], [model["objs"][i]["name"] for i in f["objs"]]
    pkg = next(p for p in model["pkgs"] if p["name"] == f["pkg"])
    return f["pkg"], [i["name"] for i in pkg["items"] if i["k"] != "checks"]


def compare(case, path, intact, torn):
    """Difference between the accepted torn run and the intact one, or None."""
    a = {p["name"]: p for p in intact["packages"]}
    b = {p["name"]: p for p in torn["packages"]}
    home, decls = declarations(case, path)
    kind = "types" if path.endswith(".rsl") else "objects"
    own = {home + "." + n for n in decls}
    # names of the torn file that survive must be a leading part
    got = [home + "." + n for n in decls if home in b and any(x["name"] == home + "." + n for x in b[home][kind])]
    if got != [home + "." + n for n in decls][:len(got)]:
        return "survivors %s are not a leading part of %s" % (got, decls)
    for name in sorted(set(a) | set(b)):
        pa, pb = a.get(name, {"types": [], "objects": []}), b.get(name, {"types": [], "objects": []})
        for k in ("types", "objects"):
            xa = {x["name"]: x for x in pa[k]}
            xb = {x["name"]: x for x in pb[k]}
            extra = sorted(set(xb) - set(xa))
            if extra:
                return "%s exists only with the torn file" % extra[0]
            missing = sorted(set(xa) - set(xb) - (own if k == kind else set()))
            if missing:
                return "%s is missing although it is declared in another file" % missing[0]
            for x in xb:
                da, db = dict(xa[x]), dict(xb[x])
                if k == "types" and kind == "types":
                    ca, cb = da.pop("checks", []), db.pop("checks", [])
                    if not subsequence(cb, ca):
                        return "checks of %s are %s instead of a part of %s" % (x, cb, ca)
                if da != db:
                    return "%s differs: %s instead of %s" % (x, db, da)
    return None


def subsequence(b, a):
    it = iter(a)
    return all(any(x == y for y in it) for x in b)


def key_of(exc):
    return {"kind": exc["type"], "site": exc["site"], "text": exc["text"]}


def run(case, env):
    rep = core.Report()
    tree = G.render(case["model"], case["files"])
    text = tree[case["path"]]
    rng = random.Random(case["seed"])
    intact = execute(env, case, tree)
    rep.runs += 1
    if "out" not in intact and case["verify"]:
        # the verifier's work is exponential in the number of branches
        rep.hit("slow-verification")
        return rep
    if "out" not in intact:
        rep.violate("hang", "intact tree: did not terminate")
        return rep
    if intact["exc"]:
        rep.violate("crash " + common.crash_key(**key_of(intact["exc"])), "on an undamaged tree")
        return rep
    rep.nontrivial = intact["success"]
    rep.hit("intact-accepted" if intact["success"] else "intact-rejected")
    todo = case["edits"] if case["edits"] is not None else edits(text, rng)
    if case["verify"] and case["edits"] is None:
        todo = rng.sample(todo, min(8, len(todo)))
    for edit in todo:
        bad = apply(text, edit)
        if bad == text:
            continue
        torn = execute(env, case, dict(tree, **{case["path"]: bad}))
        rep.runs += 1
        rep.fault({edit[0]: 1})
        rep.saw(case["path"], text, edit)
        what = "%s damaged by %s" % (case["path"], edit)
        focus = {"edits": [edit]}
        if "out" not in torn and case["verify"]:
            rep.hit("slow-verification")
            continue
        if "out" not in torn:
            rep.violate("hang", "%s: the tool did not terminate (%s)" % (what, "hang" if "hang" in torn else "died"), focus)
            continue
        rep.steps += torn["steps"]
        if torn["exc"]:
            rep.violate("crash " + common.crash_key(**key_of(torn["exc"])), "%s: internal exception" % what, focus)
            continue
        rep.hit("accepted" if torn["success"] else "rejected")
        if not torn["success"]:
            found = (common.DIAG if case["brief"] else common.DIAG_FULL)
            located = [m for m in map(found.match, torn["out"].split("\n")) if m and m["line"] and m["kind"].endswith("error")]
            if not located:
                rep.violate("no-diagnostic", "%s: rejected without a located error: %r" % (what, torn["out"][-300:]), focus)
        elif torn["errors"]:
            rep.violate("accepted-with-errors", "%s: a symbol table was returned in spite of errors" % what, focus)
        elif edit[0] == "cut" and intact["success"]:
            rep.hit("cut-accepted")
            diff = compare(case, case["path"], intact["stab"], torn["stab"])
            if diff:
                rep.violate("altered", "%s and accepted: %s" % (what, diff), focus)
    if case["edits"] is None and not case["verify"]:
        # the same through the command line
        edit = rng.choice(todo)
        res = env.call("sim.jobs:cli", {"tree": dict(tree, **{case["path"]: apply(text, edit)}),
                                        "argv": ([] if case["recovery"] else ["--no-error-recovery"]) +
                                                (["--brief"] if case["brief"] else [])}, case["hash"])
        rep.runs += 1
        if "out" not in res:
            rep.violate("hang", "%s: the tool did not terminate" % edit, {"edits": [edit]})
        elif res["status"] not in (0, 1) or res["exc"]:
            rep.violate("crash " + common.crash_key(res["exc"], res["site"], res["err"]), "%s damaged by %s: exit status %s" % (case["path"], edit, res["status"]),
                        {"edits": [edit]})
    rep.sample = {"file": case["path"], "damage": todo[:3], "bytes": len(text)}
    return rep


def shrink(case):
    # the damage is given by position: turn it into content that stays put
    for k, v in (("lint", False), ("brief", True), ("verify", False), ("recovery", True)):
        if case[k] != v:
            c = copy.deepcopy(case)
            c[k] = v
            yield c
    if case["edits"] and case["edits"][0][0] == "cut":
        for c in common.shrink_model(case):
            if any(f["path"] == c["path"] for f in c["files"]):
                text = G.render(c["model"], c["files"])[c["path"]]
                old = apply(G.render(case["model"], case["files"])[case["path"]], case["edits"][0])
                tail = old[-12:]
                for m in re.finditer(re.escape(tail), text):
                    c2 = copy.deepcopy(c)
                    c2["edits"] = [["cut", m.end()]]
                    yield c2
