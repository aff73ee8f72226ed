"""Driver: seeded search over cases, violation handling, evidence, replay.

A property module (props/cXX.py) provides

  ID, LEVEL, RULE, ASSUMPTIONS, REAL, STUB
  COUNT           {"quick": n, "thorough": n}   number of cases
  gen(rng, i)     -> case (JSON data; the whole run is a function of it)
  run(case, env)  -> Report
  shrink(case)    -> iterator of smaller cases (optional)

The case holds everything the run depends on: input tree, command line, hash
seed, listing order, faults, schedule.  gen is a pure function of
(VERIF_SEED, property, index)."""

import hashlib
import importlib
import json
import multiprocessing
import os
import random
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))


def derive(*parts):
    text = "/".join(str(p) for p in parts)
    return int.from_bytes(hashlib.sha256(text.encode()).digest()[:8], "big")


def digest(obj):
    return hashlib.sha256(json.dumps(obj, sort_keys=True, default=str).encode()).hexdigest()[:16]


class Report:
    """What one case found."""

    def __init__(self):
        self.violations = []     # {"class", "detail"}
        self.runs = 0            # simulated runs
        self.steps = 0           # simulated steps (operations decided by the simulator)
        self.faults = {}         # fault kind -> times fired
        self.reach = {}          # probe -> times hit
        self.states = set()      # digests of interleavings / fault histories reached
        self.nontrivial = True
        self.sample = None

    def violate(self, cls, detail, focus=None):
        """focus: changes to the case that leave only what is needed for this violation."""
        self.violations.append({"class": cls, "detail": detail, "focus": focus})

    def fault(self, kinds):
        for k, n in kinds.items():
            self.faults[k] = self.faults.get(k, 0) + n

    def hit(self, probe, n=1):
        self.reach[probe] = self.reach.get(probe, 0) + n

    def saw(self, *what):
        self.states.add(digest(what))


class Env:
    """Zygotes of one worker process."""

    def __init__(self, seed):
        self.seed = seed
        self.zygotes = {}

    # The hash seeds used are few, so that the interpreters can be reused.
    def pool(self, n=4):
        return [0] + [derive(self.seed, "hash", i) % 4294967295 for i in range(n - 1)]

    def call(self, fn, args, hashseed=0, timeout=60.0):
        from sim.zygote import Zygote
        slot = hashseed % 4
        real = self.pool()[slot]
        zyg = self.zygotes.get(slot)
        if zyg is None:
            zyg = self.zygotes[slot] = Zygote(real)
        return zyg.call(fn, args, timeout)

    def close(self):
        for z in self.zygotes.values():
            z.close()
        self.zygotes = {}


_STATE = {}


def module(prop):
    mod = importlib.import_module("props." + prop.lower())
    # what the interpreters that run the jobs import beforehand
    os.environ["VERIF_PRELOAD"] = getattr(mod, "PRELOAD", "")
    return mod


def _worker_init(prop, seed):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    _STATE["mod"] = module(prop)
    _STATE["env"] = Env(seed)
    _STATE["seed"] = seed


def make_case(mod, seed, index):
    rng = random.Random(derive(seed, mod.ID, index))
    return json.loads(json.dumps(mod.gen(rng, index)))


def _work(index):
    mod, env = _STATE["mod"], _STATE["env"]
    try:
        case = make_case(mod, _STATE["seed"], index)
        t0 = time.monotonic()
        rep = mod.run(case, env)
        if os.environ.get("VERIF_SLOW") and time.monotonic() - t0 > float(os.environ["VERIF_SLOW"]):
            sys.stderr.write("slow case %u: %.1fs\n" % (index, time.monotonic() - t0))
        return index, rep, None
    except Exception:  # pylint: disable=broad-except
        return index, None, traceback.format_exc()


def known_findings(prop):
    path = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path, encoding="utf-8") as fd:
        return [k for k in json.load(fd)["findings"] if k["property"] == prop]


def is_known(viol, known):
    for k in known:
        if viol["class"] == k["class"]:
            return k
    return None


def minimise(mod, case, viol, env, budget=150, wall=60.0):
    """Greedy shrinking while a violation of the same class persists."""
    end = time.monotonic() + wall
    used = 0
    best = viol
    if viol.get("focus"):
        cand = json.loads(json.dumps(dict(case, **viol["focus"])))
        try:
            same = [v for v in mod.run(cand, env).violations if v["class"] == viol["class"]]
        except Exception:  # pylint: disable=broad-except
            same = []
        if same:
            case, best = cand, same[0]
    shrink = getattr(mod, "shrink", None)
    if shrink is None:
        return case, best
    progress = True
    while progress and used < budget and time.monotonic() < end:
        progress = False
        for cand in shrink(json.loads(json.dumps(case))):
            if used >= budget or time.monotonic() > end:
                break
            used += 1
            try:
                rep = mod.run(cand, env)
            except Exception:  # pylint: disable=broad-except
                continue
            same = [v for v in rep.violations if v["class"] == viol["class"]]
            if same:
                case, best = cand, same[0]
                progress = True
                break
    return case, best


def write_replay(mod, seed, index, case, viol):
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    path = os.path.join(HERE, "replays", "%s-%s.json" % (mod.ID, digest([case, viol["class"]])[:10]))
    with open(path, "w", encoding="utf-8") as fd:
        json.dump({"property": mod.ID, "seed": seed, "index": index,
                   "class": viol["class"], "detail": viol["detail"], "case": case}, fd, indent=1)
    return path


def replay(prop, path):
    mod = module(prop)
    with open(path, encoding="utf-8") as fd:
        data = json.load(fd)
    env = Env(data["seed"])
    try:
        rep = mod.run(data["case"], env)
    finally:
        env.close()
    same = [v for v in rep.violations if v["class"] == data["class"]]
    for v in rep.violations:
        print("%s: %s" % (v["class"], v["detail"]))
    if same:
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    print("not reproduced")
    return 0


def selftest():
    """One simulated run, twice, in different interpreters: equal to the last byte."""
    tree = {"a.rsl": "package A\ntype T { x Integer }\nchecks T { x > 1, warning \"small\" }\n",
            "b.trlc": "package A\nT obj { x = 1 }\n"}
    seen = []
    for _ in range(2):
        env = Env(1)
        try:
            res = env.call("sim.jobs:cli", {"tree": tree, "argv": ["."], "want_trace": True})
            seen.append(json.dumps(res, sort_keys=True))
        finally:
            env.close()
    ok = seen[0] == seen[1] and json.loads(seen[0])["status"] == 0
    print("selftest: %s" % ("ok" if ok else "FAILED: %s" % seen))
    return 0 if ok else 2


def main(prop, tier, seed, only=None, count=None):
    t0 = time.monotonic()
    mod = module(prop)
    count = count or int(mod.COUNT[tier] * float(os.environ.get("VERIF_SCALE", 1)))
    soft = {"quick": 600.0, "thorough": 6 * 3600.0}[tier]
    indices = list(range(count)) if only is None else [only]
    known = known_findings(prop)
    total = Report()
    evaluations = nontrivial = runs = 0
    digests = set()
    samples = []
    found = {}       # class -> (index, violation)
    harness = []
    seen_known = {}
    log = []
    ctx = multiprocessing.get_context("fork")
    pool = ctx.Pool(min(WORKERS, len(indices)), _worker_init, (prop, seed))
    stop_reason = None
    try:
        stream = pool.imap_unordered(_work, indices)
        done = 0
        while done < len(indices):
            left = t0 + soft - time.monotonic()
            if left <= 0:
                stop_reason = "soft deadline of %u s reached after %u of %u cases" % (soft, done, len(indices))
                break
            try:
                index, rep, err = stream.next(timeout=left)
            except multiprocessing.TimeoutError:
                continue
            done += 1
            if err:
                harness.append((index, err))
                if len(harness) > 5:
                    break
                continue
            evaluations += 1
            runs += rep.runs
            total.steps += rep.steps
            total.fault(rep.faults)
            for k, n in rep.reach.items():
                total.hit(k, n)
            total.states |= rep.states
            log.append((index, sorted(rep.states), rep.steps, [v["class"] for v in rep.violations]))
            if rep.nontrivial:
                nontrivial += 1
                digests.add(digest(sorted(rep.states)) if rep.states else index)
            if rep.sample is not None and len(samples) < 3:
                samples.append(rep.sample)
            for v in rep.violations:
                k = is_known(v, known)
                if k:
                    seen_known[k["class"]] = k
                elif v["class"] not in found or index < found[v["class"]][0]:
                    found[v["class"]] = (index, v)
            if len(found) >= 1 and evaluations >= 16 and not os.environ.get("VERIF_ALL"):
                # enough to report; do not spend the rest of the budget
                break
    finally:
        pool.terminate()
        pool.join()

    status = 0
    if found:
        env = Env(seed)
        try:
            for cls, (index, viol) in sorted(found.items(), key=lambda x: x[1][0])[:1 if not os.environ.get("VERIF_ALL") else 9]:
                case = make_case(mod, seed, index)
                case, viol = minimise(mod, case, viol, env)
                path = write_replay(mod, seed, index, case, viol)
                print("%s\n  seed=%s case=%s\n  %s" % (cls, seed, index, viol["detail"]))
                print("VIOLATION property=%s replay=%s" % (prop, path))
                status = 1
        finally:
            env.close()
    if harness and not found:
        for index, err in harness[:3]:
            sys.stderr.write("harness error in case %u:\n%s\n" % (index, err))
        status = 2
    if evaluations == 0 and status == 0:
        sys.stderr.write("nothing was explored\n")
        status = 2
    for k in known:
        if k.get("state") == "open":
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))

    wall = time.monotonic() - t0
    hours = max(wall, 1e-9) / 3600
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": mod.LEVEL,
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": min(len(digests), nontrivial),
            "rule": mod.RULE,
            "samples": samples or [{"case": make_case(mod, seed, indices[0])}],
            "simulated_runs": runs,
            "simulated_runs_per_hour": int(runs / hours),
            "seeds_per_hour": int(evaluations / hours),
            "simulated_time": getattr(mod, "TIME", "The code under test reads no clock; simulated time is the number "
                                      "of operations and scheduling points the simulator decided.") ,
            "simulated_steps": total.steps,
            "faults_injected": dict(sorted(total.faults.items())),
            "probes": dict(sorted(total.reach.items())),
            "distinct_states": len(total.states),
            "distinct_states_measure": mod.MEASURE,
            "real_components": mod.REAL,
            "stub_components": mod.STUB,
            "event_log_digest": digest(sorted(log)),
            "stopped_early": stop_reason or ("violation" if found else None),
        },
        "assumptions": mod.ASSUMPTIONS,
        "wall_s": round(wall, 1),
        "violations": len(found),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w", encoding="utf-8") as fd:
        json.dump(evidence, fd, indent=1, default=str)
    print("%s %s seed=%s: %u cases, %u simulated runs, %u distinct states, %u faults, %.1f s, log %s -> %s" %
          (prop, tier, seed, evaluations, runs, len(total.states), sum(total.faults.values()), wall,
           evidence["coverage"]["event_log_digest"], {0: "held", 1: "VIOLATED", 2: "harness error"}[status]))
    if os.environ.get("VERIF_PROBES"):
        print(json.dumps({"faults": evidence["coverage"]["faults_injected"], "probes": evidence["coverage"]["probes"]}, indent=1))
    return status
