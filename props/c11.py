"""C11: published RST is complete, repeatable, and untouched by failed parses."""

import ast
import copy
import random
import re

from sim import core
from sim import gen as G
from props import common
from sim.gen import floats

ID = "C11"
PRELOAD = "sim.preload_docutils"
LEVEL = "fault_enumeration"
RULE = ("A case is one input tree (sometimes damaged), one selection (files, records, fields, title) and one way of naming inputs. "
        "The publisher is run without faults and its document compared with the structure the model prescribes (by a strict reader and by docutils); then every input "
        "operation and offsets over the whole output are failed with each fault kind; then a seeded program of renderings and "
        "suspended queries on one renderer is compared, operation by operation, with fresh renderers. Non-trivial: the fault-free "
        "run succeeds with at least one record and at least one fault fired.")
MEASURE = "distinct (tree, selection, fault kind, operation) points and rendering programs"
COUNT = {"quick": 380, "thorough": 9000}
REAL = common.REAL + ["tools/trlc_rst/trlc_rst.py", "bigtree"]
STUB = common.STUB
ASSUMPTIONS = common.ASSUME + ["sections deeper than reStructuredText headings reach (the publisher warns about them) and sections without a "
                               "name are not generated"]

SECS = ["Intro", "Scope", "Details", "Deep dive", "Annex A", "1.2", "a/b", "Scope."]


def gen(rng, index):
    model = G.generate(rng, pkgs=(1, 3), types=(1, 3), objs=(1, 9), checks=(0, 1), null_unsafe=0.0, warn=1.0, fatal=0.0,
                       sections=0.8, markup=0.9, late=0.2)
    for o in model["objs"]:
        o["section"] = [s for s in o["section"]][:3]
    if rng.random() < 0.4:
        pool = [[]]
        titles = SECS if rng.random() < 0.6 else [o["pkg"] + "." + o["name"] for o in model["objs"]] + ["section"]
        for _ in range(4):
            base = rng.choice(pool)
            pool.append((base + [rng.choice(titles)])[:3])
        for o in model["objs"]:
            o["section"] = rng.choice(pool)
    ev = G.Evaluator(model)
    if any(kind != "check warning" for o in model["objs"] for kind, _ in ev.expected(o)):
        # (evaluation errors are another property's business)
        for pkg in model["pkgs"]:
            pkg["items"] = [i for i in pkg["items"] if i["k"] != "checks"]
    files = G.layout(model, rng, dirs=rng.choice([[""], ["in"], ["in", "in/x"]]))
    for f in files:
        f["merge"] = rng.choice([True, False, "nest"])
    types = G.type_map(model)
    names = sorted({f["name"] for o in model["objs"] for f in G.all_fields(types, o["type"])})
    fqns = [o["pkg"] + "." + o["name"] for o in model["objs"]]
    fields = rng.sample(names, rng.randint(0, min(5, len(names)))) + (["nope"] if rng.random() < 0.2 else [])
    trlcs = [f["path"] for f in files if f["kind"] == "trlc"]
    case = {"model": model, "files": files, "seed": rng.randrange(1 << 30),
            "mode": rng.choice(["dir", "dir", "dir+sources", "files"]),
            "sources": rng.sample(trlcs, rng.randint(1, len(trlcs))) if trlcs else [],
            "records": rng.sample(fqns, rng.randint(0, len(fqns))) + (["No.such"] if rng.random() < 0.2 else [])
            if rng.random() < 0.35 else None,
            "fields": fields or None, "title": rng.choice([None, None, "", "My title", "Ünï"]),
            "old": rng.choice([None, "old contents\n", ""]), "damage": rng.randrange(1 << 30) if rng.random() < 0.3 else None,
            "order": rng.choice([None, rng.randrange(1 << 30)]), "hash": rng.randrange(4), "faults": None, "ops": None}
    if not case["sources"] and case["mode"] != "dir":
        case["mode"] = "dir"
    return case


def tree_of(case):
    tree = G.render(case["model"], case["files"])
    if case["damage"] is not None and tree:
        rng = random.Random(case["damage"])
        p = rng.choice(sorted(tree))
        if rng.random() < 0.25:
            del tree[p]
        else:
            tree[p] = common.damage_text(tree[p], rng)
    return tree


def argv_of(case):
    rv = ["-o", "out.rst"]
    srcs = [p for p in case["sources"] if any(f["path"] == p for f in case["files"])]
    if case["mode"].startswith("dir"):
        rv += ["-i", "."]
    if case["mode"] != "dir" and srcs:
        rv += ["-s"] + srcs
    if case["mode"] == "files":
        rest = [f["path"] for f in case["files"] if f["path"] not in srcs or case["seed"] % 3 == 0]
        if rest:
            rv += ["-d"] + rest
    if case["title"] is not None:
        rv += ["-t", case["title"]]
    if case["fields"]:
        rv += ["-f"] + case["fields"]
    if case["records"]:
        rv += ["-r"] + case["records"]
    return rv


def selection(case, records=False):
    """Names of the records to be rendered."""
    rv = []
    where = {i: f["path"] for f in case["files"] for i in f["objs"]}
    records = case["records"] if records is False else records
    for i, o in enumerate(case["model"]["objs"]):
        fqn = o["pkg"] + "." + o["name"]
        if case["mode"] != "dir" and where[i] not in case["sources"]:
            continue
        if records and fqn not in records:
            continue
        rv.append(fqn)
    return rv


def block_of(case, obj, fields):
    """What the block of a record has to show: ([(label, value)], [text])"""
    types = G.type_map(case["model"])
    values = floats(G.expected_object(case["model"], types, obj))
    entries, texts = [], []
    for name in fields:
        value = values.get(name)
        if value is None or value == "":
            continue
        typ = next(f["type"] for f in G.all_fields(types, obj["type"]) if f["name"] == name)
        if typ[0] == "Markup_String":
            val = obj["vals"].get(name)
            texts.append(markup(val))
        else:
            entries.append((" ".join(w for w in name.replace("_", " ").strip().title().split(" ")), value))
    return entries, texts


def markup(val):
    """Text of a markup string with its references resolved."""
    text = val[1].replace('\\"', '"')
    text += ", ".join(":requirement:upstream-ref:`%s <%s.%s>`" % (r[2], r[1], r[2]) for r in val[2])
    return re.sub(r"\s+", " ", text.strip())


def parse_rst(text, title):
    """-> (problem or None, [(section path, fqn, [(label, value)], [text])], [heading paths])"""
    lines = text.split("\n")
    marks = "=-^'"
    blocks, stack, heads = [], [], []
    n = 0
    if title:
        if lines[:2] != [title, "=" * len(title)]:
            return "document does not start with its title: %r" % lines[:2], [], []
        n = 2
    cur = None
    while n < len(lines):
        line = lines[n]
        follow = lines[n + 1] if n + 1 < len(lines) else ""
        m = re.match(r"^\.\. requirement:definition:: (\S+)$", line)
        if m:
            cur = (list(stack), m[1], [], [])
            blocks.append(cur)
        elif line and len(set(follow)) == 1 and follow[0] in marks and len(follow) == len(line):
            level = marks.index(follow[0]) - (1 if title else 0)
            if level < 0 or level > len(stack):
                return "heading %r at the wrong level (%r)" % (line, follow[0]), [], []
            stack = stack[:level] + [line]
            heads.append(list(stack))
            cur = None
            n += 1
        elif line.startswith("   :") and not line.startswith("   :requirement:"):
            m = re.match(r"^   :([^:]*):(?: (.*))?$", line)
            if not m or cur is None:
                return "stray line %r" % line, [], []
            value = m[2] or ""
            while n + 1 < len(lines) and lines[n + 1].startswith("      "):
                # (the body of a field is continued by lines indented further)
                n += 1
                value += "\n" + lines[n][6:]
            cur[2].append((m[1], value))
        elif line.startswith("   "):
            if cur is None:
                return "stray line %r" % line, [], []
            cur[3].append(line.strip())
        elif line:
            return "stray line %r" % line, [], []
        n += 1
    return None, blocks, heads


def same_value(shown, value):
    if shown == str(value) or shown == str(value).strip():
        return True
    if isinstance(value, (list, dict)):
        try:
            return ast.literal_eval(shown) == value
        except (ValueError, SyntaxError):
            return False
    return False


def check_blocks(case, blocks, fields, sections=True):
    """Problems of rendered blocks against the model."""
    index = {o["pkg"] + "." + o["name"]: o for o in case["model"]["objs"]}
    for path, fqn, entries, texts in blocks:
        obj = index.get(fqn)
        if obj is None:
            return "unknown-record", "%s is not declared" % fqn
        if sections and path != obj["section"]:
            return "wrong-section", "%s is rendered beneath %s, it is declared in %s" % (fqn, path, obj["section"])
        want, wtexts = block_of(case, obj, fields)
        if [e[0] for e in entries] != [w[0] for w in want] or not all(same_value(e[1], w[1]) for e, w in zip(entries, want)):
            return "wrong-fields", "%s is rendered with %s, declared are %s" % (fqn, entries, want)
        if " ".join(texts).split() != " ".join(wtexts).split():
            return "wrong-text", "%s is rendered with %s, declared is %s" % (fqn, texts, wtexts)
    return None


def check_document(case, text):
    fields = case["fields"] or ["description"]
    problem, blocks, heads = parse_rst(text, "Requirements" if case["title"] is None else case["title"])
    if problem:
        return "malformed", problem
    got = sorted(b[1] for b in blocks)
    want = sorted(selection(case))
    if got != want:
        return "record-set", "rendered are %s, selected are %s" % (got, want)
    keys = [tuple(h) for h in heads]
    if len(set(keys)) != len(keys):
        return "section-repeated", "headings %s" % keys
    return check_blocks(case, blocks, fields)


def check_structure(case, text, found):
    """The same document, read by docutils."""
    title = "Requirements" if case["title"] is None else case["title"]
    _, blocks, _ = parse_rst(text, title)
    want = [[([title] if title else []) + path, fqn, [e[0] for e in entries]] for path, fqn, entries, _ in blocks]
    for w, f in zip(want, found):
        if w != f:
            return "docutils", "docutils understands %s where %s is written" % (f, w)
    if len(want) != len(found):
        return "docutils", "docutils finds %u records where %u are written" % (len(found), len(want))
    return None


def execute(env, case, tree, plan, trace=False):
    tree = dict(tree)
    if case["old"] is not None:
        tree["out.rst"] = case["old"]
    return env.call("sim.jobs_rst:publish", {"tree": tree, "argv": argv_of(case), "plan": dict({"order": case["order"]}, **plan),
                                             "keep": ["out.rst"], "want_trace": trace,
                                             "want_structure": "out.rst" if trace else None}, case["hash"])


def points(case, trace, tree, size, rng):
    rv, seen = [], set()
    hard = {"open": ["EACCES", "ENOENT", "EIO"], "read": ["EIO", "ESTALE"], "list": ["EACCES", "EIO"]}
    dirs = {p.rsplit("/", 1)[0] if "/" in p else "" for p in tree}
    for item in trace:
        if len(item) != 3 or tuple(item) in seen:
            continue
        seen.add(tuple(item))
        op, rel, nth = item
        if op not in hard or (op == "list" and rel not in dirs) or (op != "list" and rel not in tree):
            continue
        for kind in hard[op]:
            rv.append(["in", {"faults": [{"op": op, "path": rel, "nth": nth, "fault": kind}]}, "%s of %s fails with %s" % (op, rel or ".", kind)])
    for p in sorted(tree):
        spot = rng.randrange(len(tree[p]) + 1)
        rv.append(["in", {"mutations": [{"op": "open", "path": p, "nth": 0, "act": "write", "target": p,
                                         "data": tree[p][:spot] + "\udcff" + tree[p][spot:]}]}, "undecodable byte in %s at %u" % (p, spot)])
        rv.append(["in", {"mutations": [{"op": "open", "path": p, "nth": 0, "act": "delete", "target": p}]}, "%s vanishes" % p])
    if len(rv) > 40:
        rv = rng.sample(rv, 40)
    spots = sorted({0, size - 1, size // 2, rng.randrange(size), rng.randrange(size)}) if size else []
    for kind in ("ENOSPC", "EIO"):
        for at in spots:
            rv.append(["out", {"out": [{"path": "/simroot/out.rst", "fault": kind, "at": at}]}, "write fails with %s at byte %u" % (kind, at)])
        rv.append(["out", {"out": [{"path": "/simroot/out.rst", "fault": kind, "when": "close"}]}, "close of the output fails with %s" % kind])
    for kind in ("EACCES", "EROFS", "ENOSPC"):
        rv.append(["out", {"faults": [{"op": "openw", "path": "out.rst", "nth": 0, "fault": kind}]}, "open of the output fails with %s" % kind])
    rv.append(["same", {"chunk": rng.choice([1, 7, 64])}, "short reads"])
    rv.append(["same", {"out": [{"path": "/simroot/out.rst", "fault": "short", "n": rng.randint(1, 40)}]}, "short writes"])
    if size:
        rv.append(["same", {"out": [{"path": "/simroot/out.rst", "fault": "short", "n": rng.randint(1, 40)}] +
                            [{"path": "/simroot/out.rst", "fault": "EINTR", "at": at} for at in (0, rng.randrange(size))]},
                   "interrupted writes"])
    reads = [t for t in trace if len(t) == 3 and t[0] == "read"]
    if reads:
        rv.append(["same", {"faults": [{"op": "read", "path": t[1], "nth": t[2], "fault": "EINTR"} for t in reads]}, "interrupted reads"])
    return rv


def program(case, rng):
    types = G.type_map(case["model"])
    fqns = [o["pkg"] + "." + o["name"] for o in case["model"]["objs"]]
    names = sorted({f["name"] for o in case["model"]["objs"] for f in G.all_fields(types, o["type"])}) or ["x"]

    def some(xs):
        return rng.sample(xs, rng.randint(0, len(xs)))

    def fields():
        return some(names)[:4] or None

    def records():
        return some(fqns) if rng.random() < 0.4 else None
    pool = []
    for _ in range(rng.randint(2, 5)):
        kind = rng.choice(["render", "render", "render", "string", "string", "table", "value", "value", "objects"])
        if kind == "render":
            pool.append(["render", rng.choice(["T", "", "Title"]), fields(), records()])
        elif kind == "string":
            pool.append(["string", fields(), some(fqns) if rng.random() < 0.5 else None, records()])
        elif kind == "table":
            pool.append(["table", fields() or ["x"], some(fqns) if rng.random() < 0.5 else None, records()])
        elif kind == "value" and fqns:
            pool.append(["value", rng.choice(fqns + ["No.such"]), rng.choice(names + ["nope"])])
        else:
            pool.append(["objects", records()])
    ops = [["parse"]]
    for _ in range(rng.randint(4, 12)):
        ops.append(rng.choice(pool))
        if rng.random() < 0.35:
            ops.append(["peek", rng.randrange(4), rng.randint(1, 3)])
        if rng.random() < 0.15:
            ops.append(["parse"])
        if rng.random() < 0.15 and any(o[0] == "render" for o in ops):
            # the same tree once more
            last = [o for o in ops if o[0] == "render"][-1]
            ops.append(["file", last[1], last[2]])
    return ops


def run_program(case, env, tree, ops, rep):
    srcs = [p for p in case["sources"] if p in tree]
    spec = {"dir": "." if case["mode"].startswith("dir") else None,
            "sources": srcs if case["mode"] != "dir" else None,
            "deps": [p for p in sorted(tree) if p not in srcs] if case["mode"] == "files" else None}
    args = {"tree": tree, "spec": spec, "plan": {"order": case["order"]}}
    res = env.call("sim.jobs_rst:session", dict(args, ops=ops), case["hash"])
    rep.runs += 1
    if "results" not in res:
        rep.hit("hang-or-died")
        return
    rep.steps += res["steps"] + len(ops)
    fresh = {}
    last = None
    for n, (op, got) in enumerate(zip(ops, res["results"])):
        if op[0] in ("parse", "peek"):
            if "exc" in got:
                rep.violate("program-crash", "operation %u of %s raised %s" % (n, ops, got["exc"]))
            continue
        if op[0] == "render":
            last = op
        ref = ["render", op[1], op[2], last[3]] if op[0] == "file" else op
        key = core.json.dumps(ref)
        if key not in fresh:
            r = env.call("sim.jobs_rst:session", dict(args, ops=[["parse"], ref]), case["hash"])
            rep.runs += 1
            fresh[key] = r["results"][1] if "results" in r else None
        want = fresh[key]
        if want is None:
            continue
        rep.hit("op-" + op[0])
        if got != want:
            rep.violate("program-differs", "operation %u (%s) after %s: %s" %
                        (n, op, ops[:n], common.diff(str(want), str(got), "a fresh renderer", "this one")), {"ops": ops[:n + 1]})
            return
        problem = check_result(case, op, last, got)
        if problem:
            rep.violate("program-" + problem[0], "%s: %s" % (op, problem[1]), {"ops": [["parse"], ref]})
            return
    rep.saw("program", core.digest(tree), ops)


def check_result(case, op, last, got):
    if "exc" in got:
        return "crash", str(got["exc"])
    value = got["value"]
    index = {o["pkg"] + "." + o["name"]: o for o in case["model"]["objs"]}
    if op[0] in ("render", "file"):
        sub = dict(case, title=op[1], fields=op[2], records=None)
        problem, blocks, _ = parse_rst(value, op[1])
        if problem:
            return "malformed", problem
        want = sorted(filtered(case, last[3]))
        if sorted(b[1] for b in blocks) != want:
            return "record-set", "rendered are %s, selected are %s" % (sorted(b[1] for b in blocks), want)
        return check_blocks(sub, blocks, op[2] or ["description"])
    if op[0] == "string":
        problem, blocks, _ = parse_rst(value, None)
        if problem:
            return "malformed", problem
        sel = filtered(case, op[3])
        got_names = [b[1] for b in blocks]
        if op[2] is None and sorted(got_names) != sorted(sel) or op[2] is not None and got_names != [f for f in op[2] if f in sel]:
            return "record-set", "rendered are %s, selected are %s of %s" % (got_names, op[2], sel)
        return check_blocks(case, blocks, op[1] or ["description"], sections=False)
    if op[0] == "table":
        rows = re.findall(r"(?m)^   \* - (.*)$", value)[1:]
        sel = filtered(case, op[3])
        names = [index[f]["name"] for f in (sel if op[2] is None else [f for f in op[2] if f in sel])]
        if (sorted(rows) != sorted(names)) if op[2] is None else (rows != names):
            return "table-rows", "rows are %s, selected are %s" % (rows, names)
        if any(line and not re.match(r"\.\. list-table::$|   :header-rows: 1$|   \* - |     - |       ", line) for line in value.split("\n")):
            return "table-cells", "a line outside of the table in %r" % value
        cells = re.findall(r"(?m)^     - (.*)$", value)
        if len(cells) != (len(rows) + 1) * len(op[1]):
            return "table-cells", "%u cells in %u rows of %u columns" % (len(cells), len(rows) + 1, len(op[1]))
        full = [c.replace("\n       ", "\n") for c in re.findall(r"(?m)^     - (.*(?:\n       .*)*)$", value)][len(op[1]):]
        order = filtered(case, op[3]) if op[2] is None else [f for f in op[2] if f in sel]
        if op[2] is None and len(set(names)) == len(names):
            order = [order[names.index(r)] for r in rows]
        elif op[2] is None:
            return None
        for n, fqn in enumerate(order):
            for name, shown in zip(op[1], full[n * len(op[1]):]):
                entries, texts = block_of(case, index[fqn], [name])
                want = texts[0] if texts else entries[0][1] if entries else ""
                if not (same_value(shown, want) or isinstance(want, str) and shown.split() == want.split()):
                    return "table-cells", "%s of %s is shown as %r, declared is %r" % (name, fqn, shown, want)
        return None
    if op[0] == "objects":
        if value != sorted(filtered(case, op[1])):
            return "objects", "%s instead of %s" % (value, sorted(filtered(case, op[1])))
    if op[0] == "value":
        want = None
        if op[1] in filtered(case, None):
            entries, texts = block_of(case, index[op[1]], [op[2]])
            want = texts[0] if texts else entries[0][1] if entries else None
        if want in (None, "") or value is None:
            # (an empty value is as good as an absent one)
            if value not in (None, "") or want not in (None, ""):
                return "value", "%s of %s is %r, declared is %r" % (op[2], op[1], value, want)
        elif not (same_value(str(value), want) or isinstance(want, str) and str(value).split() == want.split()):
            return "value", "%s of %s is %r, declared is %r" % (op[2], op[1], value, want)
    return None


def filtered(case, records):
    where = {i: f["path"] for f in case["files"] for i in f["objs"]}
    rv = []
    for i, o in enumerate(case["model"]["objs"]):
        fqn = o["pkg"] + "." + o["name"]
        if case["mode"] != "dir" and where[i] not in case["sources"]:
            continue
        if records is not None and fqn not in records:
            continue
        rv.append(fqn)
    return rv


def run(case, env):
    rep = core.Report()
    tree = tree_of(case)
    rng = random.Random(case["seed"])
    clean = execute(env, case, tree, {}, trace=True)
    rep.runs += 1
    if "out" not in clean:
        rep.hit("hang-or-died")
        return rep
    rep.steps += clean["steps"]
    got = clean["files"]["out.rst"]
    what = "argv %s" % argv_of(case)
    good = clean["status"] == 0
    rep.hit("published" if good else "rejected")
    if case["damage"] is None:
        if not good:
            rep.violate("valid-rejected", "%s: exit status %s, %s %s" % (what, clean["status"], clean["out"][-300:], clean["err"][-600:]))
            return rep
        problem = check_document(case, got or "") or check_structure(case, got or "", clean["structure"])
        if problem:
            rep.violate(problem[0], "%s: %s" % (what, problem[1]))
            return rep
        rep.hit("records", len(selection(case)))
    else:
        if not good and got != case["old"]:
            rep.violate("touched", "%s: exit status %s, but the output file is changed to %r" % (what, clean["status"], got))
        if clean["exc"] and clean["exc"] not in ("AssertionError",):
            rep.hit("crash-" + clean["exc"])
        if case["mode"].startswith("dir"):
            ref = env.call("sim.jobs:cli", {"tree": tree, "argv": ["--brief", "."], "plan": {"order": case["order"]}}, case["hash"])
            rep.runs += 1
            nameless = any(re.search(r"section\s*\"\"", t) for t in tree.values())
            if "out" in ref and (ref["status"] == 0) != good and not nameless:
                rep.violate("verdict", "%s: exit status %s, but trlc gives %s: %s" % (what, clean["status"], ref["status"], ref["out"][-400:]))
        elif good and any(f["path"] not in tree for f in case["files"]):
            rep.violate("missing-input", "%s: an input file is missing and yet the exit status is 0" % what)
    if not good:
        rep.nontrivial = case["damage"] is not None
        rep.saw(core.digest(tree), argv_of(case), "rejected")
        return rep
    again = execute(env, case, dict(tree), {})
    rep.runs += 1
    if "out" in again and again["files"]["out.rst"] != got:
        rep.violate("not-repeatable", "%s: %s" % (what, common.diff(got, again["files"]["out.rst"] or "")))
    size = len(got.encode("utf-8"))
    todo = points(case, clean["trace"], tree, size, rng) if case["faults"] is None else case["faults"]
    hard = 0
    for kind, plan, name in todo:
        res = execute(env, case, tree, plan)
        rep.runs += 1
        if "out" not in res:
            rep.violate("hang", "%s, %s: did not terminate" % (what, name))
            continue
        rep.steps += res["steps"]
        rep.fault(res["fired"])
        if res["mutation_fired"]:
            rep.fault({"vanish" if name.endswith("vanishes") else "undecodable": 1})
        if kind != "same" and not (res["fired"] or res["mutation_fired"]):
            rep.hit("fault-not-reached")
            continue
        rep.saw(core.digest(tree), argv_of(case), name)
        focus = {"faults": [[kind, plan, name]]}
        if kind == "same":
            if res["status"] != 0 or res["files"]["out.rst"] != got:
                rep.violate("gentle", "%s: %s changed the result: exit status %s, %s" %
                            (what, name, res["status"], common.diff(got, res["files"]["out.rst"] or "")), focus)
            continue
        hard += 1
        if res["status"] == 0:
            rep.violate("success-despite-" + kind, "%s: %s, and yet the exit status is 0" % (what, name), focus)
        elif kind == "in" and res["files"]["out.rst"] != case["old"]:
            rep.violate("touched", "%s: %s (exit status %s), but the output file is changed to %r" %
                        (what, name, res["status"], res["files"]["out.rst"]), focus)
    if case["damage"] is None:
        ops = case["ops"] if case["ops"] is not None else program(case, rng)
        run_program(case, env, tree, ops, rep)
    rep.nontrivial = hard > 0 and bool(case["model"]["objs"]) or case["faults"] is not None
    rep.sample = {"argv": argv_of(case), "records": selection(case), "fault_points": [p[2] for p in todo][:10]}
    return rep


def shrink(case):
    if case["ops"] is None:
        for ops in ([["parse"]], program(case, random.Random(case["seed"]))):
            c = copy.deepcopy(case)
            c["ops"] = ops
            yield c
    else:
        for n in range(len(case["ops"]) - 1, 0, -1):
            c = copy.deepcopy(case)
            del c["ops"][n]
            yield c
    if case["faults"] is None:
        c = copy.deepcopy(case)
        c["faults"] = []
        yield c
    for k, v in (("damage", None), ("order", None), ("hash", 0), ("records", None), ("fields", None), ("title", None), ("old", None),
                 ("mode", "dir")):
        if case[k] != v:
            c = copy.deepcopy(case)
            c[k] = v
            yield c
    yield from common.shrink_model(case)
