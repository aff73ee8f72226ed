"""C19: the requirement domain of Sphinx says the same after any history of builds."""

import copy
import posixpath

from sim import core

ID = "C19"
LEVEL = "exploration"
PRELOAD = "sim.preload_sphinx"
RULE = ("A case is a history of builds of one documentation tree with real Sphinx and the real requirement domain: between builds documents "
        "are added, changed, moved and removed and definitions move from one to another; a build reads serially or with several readers, "
        "divided, started and merged in a seeded order, in a new process or in one that built before, and may be killed, interrupted or "
        "meet a full disk, an unreadable document or a reader that dies at a seeded step. After each build that ends, requirement "
        "index, registered requirements, links and warnings are compared with an executable reference model, and at the end with a clean "
        "serial build. Non-trivial: at least one build reused the cache of an earlier one.")
MEASURE = "distinct (documents, build plan, end of build) histories"
TIME = "Simulated clock: 1000 s or more pass between edits and builds, 1 ms with every reading of the clock; simulated time is counted in steps."
COUNT = {"quick": 600, "thorough": 20000}
REAL = ["tools/sphinx/extensions/trlc (the requirement domain, its index, directive and roles)", "Sphinx (application, environment, cache, reading, "
        "merging, resolving)", "docutils", "the disk, in a scratch directory"]
STUB = ["sphinx.util.parallel (the simulator starts readers and merges results)", "the clock Sphinx reads and the times of files",
        "the writer (a recorder in place of HTML)", "the moment a process is killed, a write torn or refused, a read refused"]
ASSUMPTIONS = ["Sphinx 9.1 detects edits by the time of the file (edits are given later times than earlier builds)"]


# -- documents -------------------------------------------------------------------

def title(path):
    name = path.rsplit(".", 1)[0]
    return "%s\n%s\n\n" % (name, "=" * len(name))


def spell(ref):
    role, target, text = ref
    return ":requirement:%s-ref:`%s`" % (role, target if text is None else "%s <%s>" % (text, target))


def render(path, blocks):
    """Text, and the line of each reference in it"""
    text = "" if path.endswith(".inc") else ":orphan:\n\n" + title(path)
    lines = []
    for b in blocks:
        if b[0] == "def":
            for n, sig in enumerate(b[1]):
                text += (".. requirement:definition:: " if n == 0 else "                            ") + sig + "\n"
            text += "\n"
            for ref in b[2]:
                lines.append(text.count("\n") + 1)
                text += "   See %s there.\n\n" % spell(ref)
            text += "   Words.\n\n"
        elif b[0] == "nest":
            text += "#. Item\n\n   .. requirement:definition:: %s\n\n      Inside.\n\n" % b[1]
        elif b[0] == "para":
            text += "Some words"
            line = text.count("\n") + 1
            for ref in b[1]:
                lines.append(line)
                text += ", %s" % spell(ref)
            text += ".\n\n"
        elif b[0] == "head":
            text += "%s\n%s\n\n" % (b[1], "-" * len(b[1]))
        elif b[0] == "include":
            text += ".. include:: /%s\n\n" % b[1]
        else:
            raise AssertionError(b)
    return text, lines


def model(docs):
    """What a reader of the documents expects: definitions, references"""
    defs, refs = [], []
    for path in sorted(docs):
        if path.endswith(".inc"):
            continue
        doc = path[:-4]

        def walk(p, lines, doc=doc):
            known = iter(lines or ())
            for b in docs[p]:
                if b[0] == "def":
                    defs.extend((sig, doc) for sig in b[1])
                    refs.extend((doc, r, next(known, None)) for r in b[2])
                elif b[0] == "nest":
                    defs.append((b[1], doc))
                elif b[0] == "para":
                    refs.extend((doc, r, next(known, None)) for r in b[1])
                elif b[0] == "include":
                    walk(b[1], None)
        walk(path, render(path, docs[path])[1])
    return defs, refs


def pretty(doc):
    return doc.split("_sources/", 1)[-1] + ".rst"


def heading(sig):
    return sig[0].upper() if sig[0].isalpha() else "?"


# -- cases -----------------------------------------------------------------------

SIGS = ["Pkg.REQ_%u" % n for n in range(6)] + ["Other.req", "Other.Req", "a.b", "Abc", "_x.y", "7.up", "Z.z-1", "Pkg.REQ_1.Sub", "zz"]
PATHS = ["index.rst", "b.rst", "a/b.rst", "a/c/d.rst", "zeta.rst", "my_sources/pkg/doc.rst", "m.rst", "n.rst"]
INCS = ["part.inc", "a/other.inc"]


def gen_ref(rng, sigs):
    target = rng.choice(sigs) if sigs and rng.random() < 0.8 else rng.choice(SIGS + ["Pkg.missing", "pkg.req_1", "REQ_1", "requirement-Pkg.REQ_1"])
    return [rng.choice(["upstream", "downstream"]), target, rng.choice([None, None, "text", "the other"])]


def gen_block(rng, sigs, incs):
    roll = rng.random()
    if roll < 0.55:
        n = 2 if rng.random() < 0.1 else 1
        fresh = [s for s in SIGS if s not in sigs] or SIGS
        new = list(dict.fromkeys(rng.choice(SIGS if rng.random() < 0.12 else fresh) for _ in range(n)))
        sigs.extend(new)
        return ["def", new, [gen_ref(rng, sigs) for _ in range(rng.choice([0, 0, 1, 2]))]]
    if roll < 0.62:
        fresh = [s for s in SIGS if s not in sigs] or SIGS
        sigs.append(rng.choice(fresh))
        return ["nest", sigs[-1]]
    if roll < 0.9:
        return ["para", [gen_ref(rng, sigs) for _ in range(rng.randint(1, 3))]]
    if roll < 0.95 and incs:
        return ["include", rng.choice(incs)]
    return ["head", rng.choice(["Part", "Chapter one"])]


def all_sigs(docs):
    return [s for p in sorted(docs) for b in docs[p] for s in (b[1] if b[0] == "def" else [b[1]] if b[0] == "nest" else [])]


def legal(docs):
    """Includes are there, and not included by themselves."""
    for p in list(docs):
        docs[p] = [b for b in docs[p] if b[0] != "include" or (b[1] in docs and not p.endswith(".inc"))]
    if "index.rst" not in docs:
        docs["index.rst"] = []
    return docs


def edit(rng, docs):
    docs = copy.deepcopy(docs)
    texts = sorted(p for p in docs if not p.endswith(".inc"))
    incs = sorted(p for p in docs if p.endswith(".inc"))
    sigs = all_sigs(docs)
    kind = rng.choice(["move", "move", "move", "copy", "new", "drop", "drop", "rename", "add", "add", "remove", "renamefile", "reference", "inc", "swap"])
    p = rng.choice(sorted(docs))
    defs = [(q, n) for q in sorted(docs) for n, b in enumerate(docs[q]) if b[0] in ("def", "nest")]
    if kind in ("move", "copy") and defs:
        q, n = rng.choice(defs)
        b = copy.deepcopy(docs[q][n]) if kind == "copy" else docs[q].pop(n)
        docs[p].insert(rng.randint(0, len(docs[p])), b)
    elif kind == "drop" and defs:
        q, n = rng.choice(defs)
        docs[q].pop(n)
    elif kind == "rename" and defs:
        q, n = rng.choice(defs)
        b = docs[q][n]
        new = rng.choice(SIGS)
        b[1] = [new] + [s for s in b[1][1:] if s != new] if b[0] == "def" else new
    elif kind == "add":
        free = [q for q in PATHS if q not in docs]
        if free:
            q = rng.choice(free)
            docs[q] = [gen_block(rng, sigs, incs) for _ in range(rng.randint(0, 3))]
    elif kind == "remove" and len(texts) > 1:
        del docs[rng.choice([t for t in texts if t != "index.rst"])]
    elif kind == "renamefile":
        free = [q for q in PATHS if q not in docs]
        movable = [t for t in texts if t != "index.rst"]
        if free and movable:
            docs[rng.choice(free)] = docs.pop(rng.choice(movable))
    elif kind == "swap" and len(texts) > 1:
        q, r = rng.sample(texts, 2)
        docs[q], docs[r] = docs[r], docs[q]
    elif kind == "inc":
        q = rng.choice(INCS)
        if q in docs and rng.random() < 0.7:
            docs[q] = [b for b in (gen_block(rng, sigs, ()) for _ in range(rng.randint(0, 2))) if b[0] != "head"]
        else:
            docs[q] = [["def", [rng.choice(SIGS)], []]]
            docs[rng.choice(texts)].append(["include", q])
    elif kind == "reference":
        docs[p].append(["para", [gen_ref(rng, sigs)]])
    else:
        docs[p].append(gen_block(rng, sigs, incs))
    return legal(docs)


def gen(rng, index):
    docs, sigs = {}, []
    for p in ["index.rst"] + rng.sample(PATHS[1:], rng.randint(1, 5)):
        docs[p] = [gen_block(rng, sigs, ()) for _ in range(rng.randint(0, 4))]
    if rng.random() < 0.3:
        docs[INCS[0]] = [["def", [rng.choice(SIGS)], []]]
        docs[rng.choice([p for p in sorted(docs) if not p.endswith(".inc")])].append(["include", INCS[0]])
    legal(docs)
    steps = []
    config = 0
    for n in range(rng.randint(2, 6)):
        touch = []
        if n:
            for _ in range(rng.choice([0, 1, 1, 2, 3])):
                docs = edit(rng, docs)
            touch = rng.sample(sorted(docs), rng.randint(0, min(2, len(docs)))) if rng.random() < 0.5 else []
            if rng.random() < 0.1:
                config += 1
        build = {"jobs": rng.choice([1, 1, 2, 3, 5]), "chunks": rng.choice([0, 1, 2, 3]), "sched": rng.randrange(1 << 30), "config": config}
        if rng.random() < 0.35:
            kind = rng.choice(["kill", "kill", "interrupt", "full", "torn", "eio", "die"])
            build["fault"] = {"kind": kind, "at": rng.randint(1, 4 * len(docs) + 6) if rng.random() < 0.7 else rng.randint(1, 6)}
        if rng.random() < 0.15:
            build["method"] = "all"
        steps.append({"docs": docs, "touch": touch, "build": build, "same": bool(n and rng.random() < 0.25),
                      "jump": rng.choice([0, 0, 0, 10 ** 6])})
    return {"steps": steps, "hash": rng.randrange(4)}


def job_steps(case):
    """The steps of the job, and the documents after each build"""
    rv, after, old = [], [], {}
    for step in case["steps"]:
        edits = [[p, None] for p in sorted(old) if p not in step["docs"]]
        for p in sorted(step["docs"]):
            if p in step["touch"] or old.get(p) != step["docs"][p] or p not in old:
                edits.append([p, render(p, step["docs"][p])[0]])
        if step["same"] and rv:
            rv[-1]["build"]["rounds"] += 1
            rv[-1]["build"]["between"].append(edits)
            after[-1].append(step["docs"])
        else:
            rv.append({"edits": edits, "build": dict(step["build"], rounds=1, between=[]), "jump": step["jump"]})
            after.append([step["docs"]])
        old = step["docs"]
    return rv, after


# -- checks ------------------------------------------------------------------------

def flat(index):
    return [[name, [[head, sorted(map(list, entries))] for head, entries in content[0]]] for name, content in index]


def compare(docs, got):
    """Problems of one build that ended, by the reference model"""
    defs, refs = model(docs)
    rv = []
    want = sorted(["requirement." + s, s, "Requirement", d, "requirement-" + s, 0] for s, d in defs)
    if sorted(got["objects"]) != want:
        rv.append(["objects", "registered: %s, defined: %s" % ([o[1:4:2] for o in sorted(got["objects"])], [o[1:4:2] for o in want])])
    groups = {}
    for s, d in defs:
        groups.setdefault(heading(s), []).append([s, 0, d, "requirement-" + s, d, "", "Requirement"])
    wanted = [["requirement", [[h, sorted(groups[h])] for h in sorted(groups, key=str.lower)]]]
    if flat(got["index"]) != wanted:
        rv.append(["index", "index: %s, expected: %s" % (flat(got["index"]), wanted)])
    for name, content in got["index"]:
        for head, entries in content[0]:
            names = [e[0] for e in entries]
            if names != sorted(names):
                rv.append(["index-order", "%s %s: %s" % (name, head, names)])
    where = {}
    for s, d in defs:
        where.setdefault(s, []).append(d)
    links, warned = {p[:-4]: [] for p in docs if p.endswith(".rst")}, []
    for doc, (_, target, text), line in refs:
        if len(where.get(target, ())) == 1:
            links[doc].append([text or target, where[target][0], "requirement-" + target])
        else:
            warned.append([pretty(doc), line, target, len(where.get(target, ()))])
    if sorted(got["pages"]) != sorted(links):
        rv.append(["pages", "pages %s, documents %s" % (sorted(got["pages"]), sorted(links))])
    for doc in sorted(set(links) & set(got["pages"])):
        page = got["pages"][doc]
        found = []
        for text, uri in page["links"]:
            to, _, anchor = uri.partition("#")
            to = posixpath.normpath(posixpath.join(posixpath.dirname(doc), to))[:-5] if to else doc
            found.append([text, to, anchor])
            if anchor not in got["pages"].get(to, {"anchors": ()})["anchors"]:
                rv.append(["dangling", "%s links to %s#%s, which is not there" % (doc, to, anchor)])
        if found != links[doc]:
            rv.append(["links", "%s links to %s, expected %s" % (doc, found, links[doc])])
        anchors = sorted("requirement-" + s for s, d in defs if d == doc)
        if sorted(set(page["anchors"])) != sorted(set(anchors)):
            rv.append(["anchors", "%s has anchors %s, expected %s" % (doc, page["anchors"], anchors)])
    mine = got["warnings"]["mine"]
    if sorted(w[:1] + w[2:] for w in mine) != sorted(w[:1] + w[2:] for w in warned):
        rv.append(["warnings", "warns of %s, expected %s" % (mine, sorted(warned, key=str))])
    else:
        for w in warned:
            if w[1] is not None and w not in mine:
                rv.append(["warning-line", "expected %s among %s" % (w, mine)])
    return rv


def run(case, env):
    rep = core.Report()
    steps, after = job_steps(case)
    res = env.call("sim.jobs_sphinx:history", {"steps": steps, "want_trace": True}, case["hash"], timeout=120.0)
    rep.runs += len(steps) + 1
    rep.nontrivial = len(steps) > 1
    if "builds" not in res:
        rep.violate("hang", "the builds did not terminate (%s)" % sorted(res))
        return rep
    for n, (step, got, docs) in enumerate(zip(steps, res["builds"], after)):
        rep.steps += got["steps"]
        fault = step["build"].get("fault")
        if got["fired"]:
            rep.fault({fault["kind"]: 1})
        rep.hit("end " + got["end"])
        rep.hit("parallel" if step["build"]["jobs"] > 1 else "serial")
        rep.saw([core.digest(d) for d in docs], step["build"], got["end"], core.digest(got.get("trace")))
        if got["end"] != "done" and not got["fired"]:
            rep.violate("build-failed", "build %u ended with %s %s" % (n, got["end"], got.get("what")))
        for state, rnd in zip(docs, got["rounds"]):
            for cls, what in compare(state, rnd):
                rep.violate(cls, "build %u (%s): %s" % (n, "jobs %u" % step["build"]["jobs"], what))
    clean = res["clean"]
    if clean["end"] != "done":
        rep.violate("build-failed", "a clean build ended with %s" % clean["end"])
        return rep
    ref = clean["rounds"][0]
    for cls, what in compare(after[-1][-1], ref):
        rep.violate(cls, "clean build: %s" % what)
    if res["builds"][-1]["end"] == "done":
        last = res["builds"][-1]["rounds"][-1]
        for key in ("pages",):
            if last[key] != ref[key]:
                rep.violate("clean-" + key, "after the history %s, clean %s" % (last[key], ref[key]))
        if last["warnings"]["mine"] != ref["warnings"]["mine"]:
            rep.violate("clean-warnings", "after the history %s, clean %s" % (last["warnings"]["mine"], ref["warnings"]["mine"]))
        if flat(last["index"]) != flat(ref["index"]):
            rep.violate("clean-index", "after the history %s, clean %s" % (flat(last["index"]), flat(ref["index"])))
    rep.sample = {"builds": [[s["build"], g["end"]] for s, g in zip(steps, res["builds"])]}
    return rep


def shrink(case):
    for n in range(len(case["steps"])):
        if len(case["steps"]) > 1:
            c = copy.deepcopy(case)
            del c["steps"][n]
            yield c
    for n, step in enumerate(case["steps"]):
        for key, val in (("fault", None), ("jobs", 1), ("method", None), ("config", 0)):
            if step["build"].get(key) not in (None, val):
                c = copy.deepcopy(case)
                c["steps"][n]["build"][key] = val
                yield c
        if step["same"] or step["jump"] or step["touch"]:
            c = copy.deepcopy(case)
            c["steps"][n].update(same=False, jump=0, touch=[])
            yield c
    for p in sorted({p for s in case["steps"] for p in s["docs"]}):
        if p != "index.rst":
            c = copy.deepcopy(case)
            for s in c["steps"]:
                s["docs"].pop(p, None)
                legal(s["docs"])
            yield c
    for n, step in enumerate(case["steps"]):
        for p in sorted(step["docs"]):
            for k in range(len(step["docs"][p])):
                c = copy.deepcopy(case)
                b = c["steps"][n]["docs"][p][k]
                for s in c["steps"]:
                    if p in s["docs"]:
                        s["docs"][p] = [x for x in s["docs"][p] if x != b]
                yield c
