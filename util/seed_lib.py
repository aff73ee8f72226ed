"""Makes /verif/seeded/<id>/ from a definition, and confirms it.

A definition is {"id", "property", "needs", "breaks", "edits": [(file, old, new)], "demo": python text}."""

import json
import os
import subprocess
import sys

SEEDED = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")

PRELUDE = '''import io
import os
import subprocess
import sys
import tempfile

REPO = os.getcwd()
TMP = tempfile.TemporaryDirectory(prefix="demo")


def put(files, root=None):
    """Write files below the scratch directory"""
    root = root or TMP.name
    for name, text in files.items():
        full = os.path.join(root, name)
        os.makedirs(os.path.dirname(full), exist_ok=True)
        with open(full, "wb") as fd:
            fd.write(text if isinstance(text, bytes) else text.encode("UTF-8"))
    return root


def tool(*args, cwd=None, seed="0", pre="", stdin=None):
    """Run the command line tool in a fresh process; pre is code to run first"""
    code = pre + "\\nimport sys\\nsys.argv[0] = 'trlc'\\nfrom trlc.trlc import main\\nsys.exit(main())\\n"
    env = dict(os.environ, PYTHONHASHSEED=seed, PYTHONPATH=REPO)
    run = subprocess.run([sys.executable, "-c", code] + list(args), cwd=cwd or TMP.name, env=env,
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120, encoding="UTF-8")
    return run.returncode, run.stdout, run.stderr


def manager(**kw):
    from trlc.errors import Message_Handler
    from trlc.trlc import Source_Manager
    out = io.StringIO()
    mh = Message_Handler(out=out)
    return out, mh, Source_Manager(mh, **kw)


def check(cond, text):
    if not cond:
        print("BROKEN:", text)
        sys.exit(1)


'''

DEMO_SH = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python "$here/demo.py"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, encoding="UTF-8", **kw)


def apply(bug, root):
    for name, old, new in bug["edits"]:
        path = os.path.join(root, name)
        text = open(path).read()
        assert text.count(old) == 1, (bug["id"], name, text.count(old), old)
        open(path, "w").write(text.replace(old, new))


def make(bug, root="/repo"):
    """Write the files of one planted bug"""
    assert not sh("git -C %s status --porcelain" % root).stdout.strip()
    apply(bug, root)
    diff = sh("git -C %s diff" % root).stdout
    sh("git -C %s checkout -- ." % root)
    d = os.path.join(SEEDED, bug["id"])
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.sh"), "w").write(DEMO_SH)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    open(os.path.join(d, "demo.py"), "w").write(PRELUDE + bug["demo"].lstrip("\n") + "\nprint(\"fine\")\n")
    json.dump({"property": bug["property"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]},
              open(os.path.join(d, "meta.json"), "w"), indent=1)


def confirm(ident, tests=True):
    """Patch /repo, build, run demo and tests; returns what is wrong, or nothing"""
    d = os.path.join(SEEDED, ident)
    wrong = []
    run = sh("bash %s/demo.sh" % d, cwd="/repo")
    if run.returncode:
        wrong.append("demo fails on the unchanged tree: " + run.stdout[-800:])
    assert not sh("git -C /repo status --porcelain").stdout.strip()
    run = sh("git -C /repo apply %s/patch.diff" % d)
    if run.returncode:
        return ["patch does not apply " + run.stdout]
    try:
        run = sh("bash /opt/vp/build.sh")
        if run.returncode:
            wrong.append("build: " + run.stdout[-500:])
        run = sh("bash %s/demo.sh" % d, cwd="/repo")
        if not run.returncode:
            wrong.append("demo passes with the patch: " + run.stdout[-500:])
        else:
            print("   demo says", run.stdout.strip()[-300:].splitlines()[-1:])
        if tests and not wrong:
            sh("bash /opt/vp/test.sh /tmp/plant_out.json")
            base, got = json.load(open("/opt/vp/BASELINE.json")), json.load(open("/tmp/plant_out.json"))
            bad = compare(base, got)
            if bad:
                wrong.append("tests: %d %s" % (len(bad), bad[:6]))
    finally:
        sh("git -C /repo checkout -- .")
    return wrong


def passing(doc):
    if isinstance(doc, dict):
        for key in ("passed", "pass", "stable", "tests"):
            if key in doc:
                v = doc[key]
                return set(v) if isinstance(v, list) else {k for k, s in v.items() if s in (True, "passed", "pass")}
    return set(doc)


def compare(base, got):
    return sorted(passing(base) - passing(got))


if __name__ == "__main__":
    for ident in sys.argv[1:]:
        print(ident, confirm(ident) or "confirmed", flush=True)
