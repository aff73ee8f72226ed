"""mutants.py make N SEED [FILE...]   | test | check [ID...]

Automatic mutation of /repo's code, to find blind spots of the checks.  Each
mutant is a copy in /tmp/mut/ID (removed unless it passes the stable tests);
"test" runs the tests with the copy mounted over /repo in a private mount
namespace; "check" runs checks with VERIF_REPO.  Results: /tmp/mut/results.json
"""
import ast
import concurrent.futures
import json
import os
import random
import shutil
import subprocess
import sys

ROOT = "/tmp/mut"
RES = ROOT + "/results.json"
FILES = ["trlc/ast.py", "trlc/errors.py", "trlc/lexer.py", "trlc/lint.py",
         "trlc/nested.py", "trlc/parser.py", "trlc/trlc.py", "trlc/vcg.py",
         "trlc/math.py",
         "tools/trlc_rst/trlc_rst.py",
         "tools/sphinx/extensions/trlc/trlc.py"]
CMP = {ast.Eq: "!=", ast.NotEq: "==", ast.Lt: "<=", ast.LtE: "<",
       ast.Gt: ">=", ast.GtE: ">", ast.In: "not in", ast.NotIn: "in",
       ast.Is: "is not", ast.IsNot: "is"}


def load():
    return json.load(open(RES)) if os.path.exists(RES) else {}


def save(r):
    json.dump(r, open(RES, "w"), indent=1)


def sites(text):
    """(start, end, replacement, kind) by character offsets"""
    tree = ast.parse(text)
    lines = text.splitlines(True)
    offs = [0]
    for line in lines:
        offs.append(offs[-1] + len(line))

    def span(n):
        return (offs[n.lineno - 1] + n.col_offset,
                offs[n.end_lineno - 1] + n.end_col_offset)
    out = []
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Assert, ast.Raise, ast.AnnAssign)):
            for m in ast.walk(n):
                skip.add(m)
        if isinstance(n, ast.FunctionDef) and (
                n.name in ("__repr__", "dump", "set_debug", "write_indent",
                           "perform_type_checks_off")):
            for m in ast.walk(n):
                skip.add(m)
        if isinstance(n, ast.If) and isinstance(n.test, ast.Compare) and \
           isinstance(n.test.left, ast.Name) and n.test.left.id == "__name__":
            for m in ast.walk(n):
                skip.add(m)
    for n in ast.walk(tree):
        if n in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            a = span(n.left)[1]
            b = span(n.comparators[0])[0]
            seg = text[a:b]
            if "(" in seg or ")" in seg or "#" in seg:
                continue
            out.append((a, b, " %s " % CMP[type(n.ops[0])], "cmp"))
        elif isinstance(n, ast.BoolOp):
            a = span(n.values[0])[1]
            b = span(n.values[1])[0]
            seg = text[a:b]
            old, new = ("and", "or") if isinstance(n.op, ast.And) else ("or", "and")
            if seg.count(old) == 1:
                out.append((a, b, seg.replace(old, new), "bool"))
            # drop one operand
            v = n.values[-1]
            a2, b2 = span(v)
            out.append((a2, b2, "True" if isinstance(n.op, ast.And) else "False", "operand"))
            v = n.values[0]
            a2, b2 = span(v)
            out.append((a2, b2, "True" if isinstance(n.op, ast.And) else "False", "operand"))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            a, b = span(n)
            c, d = span(n.operand)
            out.append((a, b, "(" + text[c:d] + ")", "not"))
        elif isinstance(n, ast.Constant) and n.value in (True, False) and isinstance(n.value, bool):
            a, b = span(n)
            out.append((a, b, str(not n.value), "const"))
        elif isinstance(n, ast.Constant) and isinstance(n.value, int):
            a, b = span(n)
            out.append((a, b, str(n.value + 1), "const"))
            if n.value:
                out.append((a, b, str(n.value - 1), "const"))
        elif isinstance(n, (ast.If, ast.While)):
            a, b = span(n.test)
            out.append((a, b, "False", "if"))
            if isinstance(n, ast.If):
                out.append((a, b, "True", "if"))
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            a, b = span(n)
            out.append((a, b, "pass", "del"))
        elif isinstance(n, (ast.Assign, ast.AugAssign)):
            a, b = span(n)
            tgt = n.targets[0] if isinstance(n, ast.Assign) else n.target
            if isinstance(tgt, ast.Attribute) or isinstance(n, ast.AugAssign) or isinstance(tgt, ast.Subscript):
                out.append((a, b, "pass", "del"))
        elif isinstance(n, ast.Break):
            a, b = span(n)
            out.append((a, b, "continue", "break"))
        elif isinstance(n, ast.Continue):
            a, b = span(n)
            out.append((a, b, "break", "break"))
        elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
            a = span(n.left)[1]
            b = span(n.right)[0]
            seg = text[a:b]
            old, new = ("+", "-") if isinstance(n.op, ast.Add) else ("-", "+")
            if isinstance(n.right, ast.Constant) and isinstance(n.right.value, int) and seg.count(old) == 1:
                out.append((a, b, seg.replace(old, new), "arith"))
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "sorted" and len(n.args) == 1:
            a, b = span(n)
            c, d = span(n.args[0])
            out.append((a, b, "list(%s)" % text[c:d], "sorted"))
        elif isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
            a, b = span(n.value)
            out.append((a, b, "None", "ret"))
        if isinstance(n, (ast.For,)):
            a, b = span(n.iter)
            out.append((a, b, "list(%s)[1:]" % text[a:b], "loop"))
            out.append((a, b, "list(%s)[:-1]" % text[a:b], "loop"))
            out.append((a, b, "list(reversed(list(%s)))" % text[a:b], "loop"))
    return out


def make(n, seed, files):
    rng = random.Random(seed)
    texts = {f: open("/repo/" + f).read() for f in files}
    weights = {f: len(sites(t)) for f, t in texts.items()}
    pool = [(f, s) for f in files for s in sites(texts[f])]
    rng.shuffle(pool)
    res = load()
    k = 0
    for f, s in pool:
        if k == n:
            break
        t = texts[f]
        new = t[:s[0]] + s[2] + t[s[1]:]
        if new == t:
            continue
        try:
            compile(new, f, "exec")
        except SyntaxError:
            continue
        line = t.count("\n", 0, s[0]) + 1
        mid = "%s_%d_%s_%d" % (os.path.basename(f)[:-3] if "sphinx" not in f else "sphinx", line, s[3], abs(hash((s, ))) % 1000 if False else s[0] % 997 + len(s[2]))
        if mid in res:
            continue
        res[mid] = {"file": f, "start": s[0], "end": s[1], "new": s[2],
                    "line": line, "old": t[s[0]:s[1]]}
        k += 1
    save(res)
    print(weights, k)


def tree(mid, m):
    d = ROOT + "/" + mid
    if os.path.exists(d):
        return d
    shutil.copytree("/repo", d, symlinks=True,
                    ignore=shutil.ignore_patterns(".git", "__pycache__"))
    p = d + "/" + m["file"]
    t = open(p).read()
    assert t[m["start"]:m["end"]] == m["old"]
    open(p, "w").write(t[:m["start"]] + m["new"] + t[m["end"]:])
    return d


TEST = r"""
mount --bind %s /repo || exit 99
. /opt/vp/env.sh
cd /repo
PYT="/opt/venv/bin/python -m pytest -q -x -p no:cacheprovider --timeout=60 --basetemp=$WORK/tmp --tb=no"
PYTHONPATH=/repo $PYT --timeout=10 --rootdir=/repo tests-unit >$WORK/a 2>&1 || { tail -3 $WORK/a; exit 1; }
cd /opt/vp/harness
export DEADLINE=$(($(date +%%s) + 540))
PYT="$PYT -c /opt/vp/harness/pytest.ini --rootdir=/opt/vp/harness"
$PYT -m "not serial" -k "not bulk" --deselect "test_golden.py::test_trlc_rst[paragraph-breaks]" --deselect "test_golden.py::test_trlc_rst[soft-wraps]" test_golden.py >$WORK/b 2>&1 || { grep FAILED $WORK/b | head -3; exit 1; }
exit 0
"""


def test_one(mid, m):
    d = tree(mid, m)
    try:
        r = subprocess.run(["unshare", "-Urm", "bash", "-c", TEST % d],
                           capture_output=True, text=True, timeout=900)
        rc, out = r.returncode, r.stdout[-300:]
    except subprocess.TimeoutExpired:
        rc, out = 1, "timeout"
    shutil.rmtree(d)
    return mid, rc, out


def test(jobs):
    res = load()
    todo = [m for m in res if "tests" not in res[m]]
    with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
        for f in concurrent.futures.as_completed(
                [ex.submit(test_one, m, res[m]) for m in todo]):
            mid, rc, out = f.result()
            res[mid]["tests"] = rc
            res[mid]["tests_out"] = out
            save(res)
            if rc == 0:
                print("SURVIVES", mid, res[mid]["old"][:60], "->", res[mid]["new"][:60], flush=True)


CHECKS = {
    "trlc/ast.py": "C10 C03 C13 C08 C09 C12 C15 C01".split(),
    "trlc/parser.py": "C10 C15 C03 C09 C02 C08 C12 C01 C14".split(),
    "trlc/lexer.py": "C10 C09 C15 C14 C08 C04".split(),
    "trlc/errors.py": "C08 C05 C17 C15 C01".split(),
    "trlc/trlc.py": "C02 C08 C12 C01 C04 C07 C14 C05 C18 C17".split(),
    "trlc/lint.py": "C01 C08 C07 C16".split(),
    "trlc/nested.py": "C17 C05 C18".split(),
    "trlc/math.py": "C03 C10".split(),
    "trlc/vcg.py": "C06 C01".split(),
    "tools/trlc_rst/trlc_rst.py": "C11 C18".split(),
    "tools/sphinx/extensions/trlc/trlc.py": "C19".split(),
}


def hunt(args):
    """hunt FILE FIRST LAST CHECK[,CHECK] [KINDS]: all mutants of these lines, without running the tests first"""
    f, first, last, checks = args[0], int(args[1]), int(args[2]), args[3].split(",")
    kinds = args[4].split(",") if len(args) > 4 else None
    t = open("/repo/" + f).read()
    for s in sites(t):
        line = t.count("\n", 0, s[0]) + 1
        if not first <= line <= last or (kinds and s[3] not in kinds):
            continue
        new = t[:s[0]] + s[2] + t[s[1]:]
        try:
            compile(new, f, "exec")
        except SyntaxError:
            continue
        mid = "%s_%d_%s_%d" % (os.path.basename(f)[:-3], line, s[3], s[0] % 997 + len(s[2]))
        res = load()
        if mid in res:
            continue
        m = {"file": f, "start": s[0], "end": s[1], "new": s[2], "line": line, "old": t[s[0]:s[1]], "checks": checks}
        d = tree(mid, m)
        m["caught"] = None
        for c in checks:
            r = subprocess.run(["timeout", "400", sys.executable, "/verif/check.py", c], capture_output=True, text=True,
                               env=dict(os.environ, VERIF_REPO=d, VERIF_SCALE=os.environ.get("VERIF_SCALE", "0.5")))
            if r.returncode != 0:
                m["caught"] = "%s exit %d" % (c, r.returncode)
                break
        shutil.rmtree(d)
        res = load()
        res[mid] = m
        save(res)
        print("%-7s" % (m["caught"] or "-").split(" exit")[0], mid, repr(m["old"][:60]), "->", repr(m["new"][:60]), flush=True)


def check(ids):
    res = load()
    for mid, m in res.items():
        if m.get("tests") != 0 or (ids and mid not in ids):
            continue
        if not ids and "caught" in m:
            continue
        d = tree(mid, m)
        m["caught"] = None
        for c in m.get("checks") or CHECKS[m["file"]]:
            r = subprocess.run(["timeout", "600", sys.executable, "/verif/check.py", c],
                               capture_output=True, text=True,
                               env=dict(os.environ, VERIF_REPO=d, VERIF_SCALE="0.6"))
            if r.returncode != 0:
                m["caught"] = "%s exit %d" % (c, r.returncode)
                break
        shutil.rmtree(d)
        new = load()
        new[mid] = m
        save(new)
        print(mid, m["caught"], repr(m["old"][:70]), "->", repr(m["new"][:70]), flush=True)


if sys.argv[1] == "make":
    make(int(sys.argv[2]), int(sys.argv[3]), sys.argv[4:] or FILES)
elif sys.argv[1] == "hunt":
    hunt(sys.argv[2:])
elif sys.argv[1] == "test":
    test(int(sys.argv[2]) if len(sys.argv) > 2 else 6)
else:
    check(sys.argv[2:])
