"""lines.py [--count N] PROPERTY...: lines of the code under test that no simulated run of these checks executed"""
import os
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


def code_lines(code):
    rv = {n for _, _, n in code.co_lines() if n}
    for const in code.co_consts:
        if hasattr(const, "co_lines"):
            rv |= code_lines(const)
    return rv


def body_lines(code):
    """Lines inside of functions; anything else runs at import"""
    rv = set()
    for const in code.co_consts:
        if hasattr(const, "co_lines"):
            rv |= body_lines(const) if const.co_name[:1].isupper() else code_lines(const) - {const.co_firstlineno}
    return rv


args = sys.argv[1:]
extra = []
if args[0] == "--count":
    extra, args = args[:2], args[2:]
with tempfile.TemporaryDirectory(prefix="cov") as tmp:
    for prop in args:
        run = subprocess.run([sys.executable, os.path.join(VERIF, "check.py"), prop] + extra, cwd=VERIF,
                             env=dict(os.environ, VERIF_COV=tmp), stdout=subprocess.PIPE, encoding="UTF-8")
        print(run.stdout.splitlines()[-1])
    hits = set()
    for name in os.listdir(tmp):
        with open(os.path.join(tmp, name)) as fd:
            hits |= set(fd.read().split())
for path in ["trlc/ast.py", "trlc/errors.py", "trlc/lexer.py", "trlc/lint.py", "trlc/math.py", "trlc/nested.py", "trlc/parser.py",
             "trlc/trlc.py", "trlc/vcg.py", "tools/trlc_rst/trlc_rst.py"]:
    with open(os.path.join(REPO, path)) as fd:
        text = fd.read()
    want = body_lines(compile(text, path, "exec"))
    miss = sorted(n for n in want if "%s:%d" % (path, n) not in hits)
    print("%s: %d of %d lines missed" % (path, len(miss), len(want)))
    lines = text.splitlines()
    for n in miss:
        print("  %5d %s" % (n, lines[n - 1]))
