"""seed_check.py ID...: runs the check of the property on a scratch copy with the planted bug"""
import json
import os
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

for ident in sys.argv[1:]:
    d = os.path.join(VERIF, "seeded", ident)
    prop = json.load(open(os.path.join(d, "meta.json")))["property"]
    with tempfile.TemporaryDirectory(prefix="wt") as tmp:
        subprocess.run("git -C /repo archive HEAD | tar x -C %s" % tmp, shell=True, check=True)
        subprocess.run(["git", "apply", os.path.join(d, "patch.diff")], cwd=tmp, check=True)
        t = time.time()
        run = subprocess.run([sys.executable, os.path.join(VERIF, "check.py"), prop],
                             cwd=VERIF, env=dict(os.environ, VERIF_REPO=tmp, VERIF_SEED="1", VERIF_TIER="quick"),
                             stdout=subprocess.PIPE, stderr=subprocess.STDOUT, encoding="UTF-8")
    lines = [x for x in run.stdout.splitlines() if "VIOLATION" in x]
    print(ident, prop, "exit", run.returncode, "%.0f s" % (time.time() - t), lines[:1] or run.stdout.splitlines()[-1:],
          flush=True)
    book = os.path.join(VERIF, "util", "seed_results.json")
    results = json.load(open(book)) if os.path.exists(book) else {}
    results[ident] = {"property": prop, "caught": run.returncode == 1 and bool(lines)}
    with open(book, "w") as fd:
        json.dump(results, fd, indent=1, sort_keys=True)
        fd.write("\n")
