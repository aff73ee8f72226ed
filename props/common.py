"""Shared by the property modules."""

import copy
import re

from sim import gen

DIAG = re.compile(r"^(?P<file>[^\n:]*?)(?::(?P<line>\d+))?(?::(?P<col>\d+))?: trlc "
                  r"(?P<kind>error|issue|warning|check error|check warning): (?P<msg>.*)$")
DIAG_FULL = re.compile(r"^(?:.*\^[\^_]* ?)?(?P<file>[^\n:]*?)(?::(?P<line>\d+))?(?::(?P<col>\d+))?: "
                       r"(?P<kind>error|issue|warning|check error|check warning): (?P<msg>.*)$")
SUMMARY = re.compile(r"^Processed .* and found .*$")

REAL = ["trlc (lexer, parser, ast, lint, errors, trlc.main)", "CPython's text and buffered I/O layers", "argparse"]
STUB = ["operating-system file layer (open/read/write/stat/listdir/scandir) below Python's I/O classes",
        "process entry and exit (runpy in a forked interpreter; exit flush emulated)",
        "hash seed and identity hashes"]
ASSUME = ["CPython 3.12's buffered I/O and runpy behave in the simulator as at process level (exit flush is emulated)",
          "the code under test reaches the file system only through open, os.scandir/listdir, os.stat/lstat and the "
          "path functions built on them"]


def parse_brief(text):
    """[(file, line, col, kind, msg)], [other lines]"""
    diags, other = [], []
    for line in text.split("\n"):
        if not line:
            continue
        m = DIAG.match(line)
        if m:
            diags.append((m["file"], m["line"], m["col"], m["kind"], m["msg"]))
        else:
            other.append(line)
    return diags, other


def kinds(diags):
    errors = sum(1 for d in diags if d[3] in ("error", "check error"))
    return errors, len(diags) - errors


def diff(a, b, name_a="first", name_b="second", limit=600):
    """Short description of the first difference between two texts."""
    la, lb = a.split("\n"), b.split("\n")
    for n, (x, y) in enumerate(zip(la, lb)):
        if x != y:
            return "line %u: %s has %r, %s has %r" % (n + 1, name_a, x[:limit], name_b, y[:limit])
    if len(la) != len(lb):
        longer, name = (la, name_a) if len(la) > len(lb) else (lb, name_b)
        return "%s has an extra line %r" % (name, longer[min(len(la), len(lb))][:limit])
    return "equal"


# -- shrinking of {"model", "files"} pairs ----------------------------------

def drop_object(case, i):
    case = copy.deepcopy(case)
    del case["model"]["objs"][i]
    for f in case["files"]:
        f["objs"] = [j - (j > i) for j in f["objs"] if j != i]
    return case


def shrink_model(case):
    model = case["model"]
    objs = model["objs"]
    used = {r for o in objs for v in o["vals"].values() for r in gen.refs_in(v)}
    free = [i for i, o in enumerate(objs) if (o["pkg"], o["name"]) not in used]
    if len(free) > 3:
        smaller = case
        for i in reversed(free[len(free) // 2:]):
            smaller = drop_object(smaller, i)
        yield smaller
    for i in reversed(free):
        yield drop_object(case, i)
    # files without content
    for n, f in enumerate(case["files"]):
        if f["kind"] == "trlc" and not f["objs"] and any(p["name"] == f["pkg"] and p["rsl"] for p in model["pkgs"]):
            c = copy.deepcopy(case)
            del c["files"][n]
            yield c
    # check blocks, then single checks
    for p, pkg in enumerate(model["pkgs"]):
        for n, item in enumerate(pkg["items"]):
            if item["k"] == "checks":
                c = copy.deepcopy(case)
                del c["model"]["pkgs"][p]["items"][n]
                yield c
    for p, pkg in enumerate(model["pkgs"]):
        for n, item in enumerate(pkg["items"]):
            if item["k"] == "checks" and len(item["checks"]) > 1:
                for k in range(len(item["checks"])):
                    c = copy.deepcopy(case)
                    del c["model"]["pkgs"][p]["items"][n]["checks"][k]
                    yield c
    # sections
    for i, o in enumerate(objs):
        if o["section"]:
            c = copy.deepcopy(case)
            c["model"]["objs"][i]["section"] = []
            yield c
    # optional values
    types = gen.type_map(model)
    for i, o in enumerate(objs):
        for f in gen.all_fields(types, o["type"]):
            if f["opt"] and f["name"] in o["vals"]:
                c = copy.deepcopy(case)
                del c["model"]["objs"][i]["vals"][f["name"]]
                yield c
    # unused packages
    needed = set()
    for pkg in model["pkgs"]:
        needed |= set(pkg["imports"])
    for o in objs:
        needed |= gen.obj_needs(o, types) | {o["pkg"]}
    for f in case["files"]:
        needed |= set(f.get("extra_imports", ()))
    for p, pkg in enumerate(model["pkgs"]):
        if pkg["name"] not in needed and len(model["pkgs"]) > 1:
            c = copy.deepcopy(case)
            del c["model"]["pkgs"][p]
            c["files"] = [f for f in c["files"] if f["pkg"] != pkg["name"]]
            yield c


def shrink_list(case, key, at_least=0):
    items = case[key]
    n = len(items)
    step = n // 2
    while step >= 1:
        for start in range(0, n, step):
            part = items[:start] + items[start + step:]
            if len(part) >= at_least and len(part) < n:
                c = copy.deepcopy(case)
                c[key] = copy.deepcopy(part)
                yield c
        step //= 2


# -- size: what depends on the number of lines, columns or bytes ---------------

def pad(tree, rng, p=0.1):
    """Sometimes makes one file much longer or wider without changing what it says."""
    if not tree or rng.random() >= p:
        return
    name = rng.choice(sorted(tree))
    filler = rng.choice(["// filler\n" * rng.choice([120, 300, 1100]), "\n" * rng.choice([40, 300, 2000]),
                         "/* %s */" % ("wide " * rng.choice([30, 300])), "/*\n" + "filler text\n" * rng.choice([90, 800]) + "*/ ",
                         "\t" * rng.choice([20, 200])])
    text = tree[name]
    if rng.random() < 0.8:
        tree[name] = filler + text
    else:
        # between two declarations
        spots = [m.start() for m in re.finditer(r"\n(?=(?:enum|tuple|type|abstract|final|checks|section)\b|[A-Z]\w*(?:\.\w+)? \w+ \{)", text)]
        at = rng.choice(spots) + 1 if spots else len(text)
        tree[name] = text[:at] + filler + text[at:]


# -- text damage: realistic mistakes that lead to diagnostics ----------------

def damage_text(text, rng):
    """One random edit that usually leads to a diagnostic."""
    words = [m.span() for m in re.finditer(r"[A-Za-z_0-9]+|[^\sA-Za-z_0-9]", text)]
    if not words:
        return text + "}"
    s, e = rng.choice(words)
    roll = rng.random()
    if roll < 0.3:
        return text[:s] + text[e:]
    if roll < 0.5:
        s2, e2 = rng.choice(words)
        return text[:s] + text[s2:e2] + text[e:]
    if roll < 0.65:
        return text[:e] + " " + text[s:e] + text[e:]
    if roll < 0.8:
        return text[:s] + "zz_" + text[s:]
    if roll < 0.9:
        return text[:s] + "null" + text[e:]
    return text[:s] + rng.choice(["}", "{", ")", "(", "7", "1.5", "\"str\"", "$", "[", "@"]) + text[e:]


def crash_key(kind, site, text):
    """Identifies a crash: exception, innermost function of the tool, and for
    the solver binding what it said."""
    rv = "%s@%s" % (kind, site)
    if kind == "OverflowError" and "value too large to convert to int" in text:
        rv += " (mkInteger)"
    if kind == "RuntimeError" and "asserted to arithmetic in a linear logic" in text:
        rv += " (linear logic)"
    return rv
