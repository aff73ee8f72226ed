"""seed_run.py BATCH [ID...]: writes and confirms planted bugs"""
import importlib
import sys
import os

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import seed_lib  # noqa: E402

batch = importlib.import_module("seed_bugs_" + sys.argv[1])
quick = "--demo" in sys.argv
want = [a for a in sys.argv[2:] if not a.startswith("--")]
for bug in batch.BUGS:
    if want and bug["id"] not in want:
        continue
    seed_lib.make(bug)
    print(bug["id"], seed_lib.confirm(bug["id"], tests=not quick) or "confirmed", flush=True)
