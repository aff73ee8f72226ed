#!/usr/bin/env python3
"""Writes MANIFEST.json from the property modules that exist."""

import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TECH = {
 "C01": "deterministic simulation: seeded search over directory-listing orders, hash seeds and identity-hash orders",
 "C02": "deterministic simulation: seeded search over include trees, listing orders and unreadable files against an executable reference of the include closure",
 "C03": "deterministic simulation: seeded search over evaluation orders and thread interleavings against a reference evaluator",
 "C04": "deterministic simulation with fault injection: every fault kind at every file-system operation of each simulated run",
 "C05": "deterministic simulation with fault injection: every fault kind at every output operation of each simulated run",
 "C06": "deterministic simulation with fault injection: seeded solver time-outs and counter-example values behind the solver seam",
 "C07": "deterministic simulation with fault injection: seeded histories of runs, aborts at arbitrary steps and thread interleavings against fresh processes",
 "C08": "deterministic simulation with fault injection: seeded search over damaged trees, options and read faults with conservation checks on the diagnostics",
 "C09": "deterministic simulation with fault injection: torn and corrupted file contents at every token boundary and seeded positions",
 "C10": "deterministic simulation: seeded search over file layouts, registration and listing orders against a reference model",
 "C11": "deterministic simulation with fault injection: read and write faults at every operation of the publisher, repeated and interleaved rendering",
 "C12": "deterministic simulation with fault injection: cancellation at every callback and seeded trees and faults against the callback protocol",
 "C13": "deterministic simulation: seeded interleavings of suspended API queries and re-evaluations over one result",
 "C14": "deterministic simulation with fault injection: seeded file-system mutations at seeded points after registration",
 "C15": "deterministic simulation with fault injection: damaged files in multi-package trees compared with the undamaged run",
 "C16": "deterministic simulation with fault injection: exhausted memory, exhausted stack and interrupts at seeded steps of each run",
 "C17": "deterministic simulation with fault injection: log runs against standard-output runs under write faults and kills at seeded steps",
 "C19": "deterministic simulation with fault injection: histories of Sphinx builds with seeded readers, merge orders, kills, torn writes and refused reads",
 "C18": "deterministic simulation with fault injection: file-system snapshots around runs with I/O faults, strikes and kills at seeded steps",
}
NOTE = {
 "C01": "Sampled: seeded trees and argument lists; per tree several listing orders of every directory, hash seeds and identity-hash orders, plus API dumps. Compared byte for byte. Trusts that no other source of order exists outside the seam (addresses, clocks and randomness are not used by the code).",
 "C02": "Sampled trees; needed set computed by an independent model of the documented rule; listing orders seeded; unneeded files may be unreadable or erroneous.",
 "C03": "Sampled models, orders and line-level thread interleavings; expected diagnostics come from an independent evaluator of the generated expression subset.",
 "C04": "Per sampled tree and command line every operation on an input is failed with every applicable fault, one at a time, plus seeded pairs; short and interrupted reads must change nothing.",
 "C05": "Per sampled run every output operation (write, flush, close, the final flush at exit) is failed with every applicable fault; exit flush and broken-pipe handling of CPython are emulated by the simulated process.",
 "C06": "Sampled models and subsets of timed-out queries; CVC5 is real where it answers, its wall-clock limit is replaced by its deterministic resource limit. Does not check that the verifier's answers are right (C34).",
 "C07": "Sampled histories in one process (completed, failed and aborted runs, interleaved threads) compared with the same run in a forked pristine process.",
 "C08": "Sampled trees, options and faults; counts what was printed and compares with counters, summary, status and, for undamaged trees, with the reference evaluator.",
 "C09": "Per sampled tree and file: cuts at every kind of boundary and seeded block loss, duplication and bit flips; leading-part comparison for accepted cuts.",
 "C10": "Sampled models under several layouts and orders each; expected records computed from the model, not from the code.",
 "C11": "Sampled models, publisher inputs and faults at every operation; the expected document structure comes from the model.",
 "C12": "Sampled trees and faults; cancellation at every callback of each sampled run.",
 "C13": "Sampled results and query programs, each query suspended and resumed in a seeded order.",
 "C14": "Sampled trees and mutations, at every phase after registration.",
 "C15": "Sampled multi-package trees with seeded damage in one package; independence computed from the import graph of the model.",
 "C16": "Sampled trees and seeded strike points (between two lines of the code under test; stack limits also inside C calls). The undisturbed run is the oracle.",
 "C17": "Sampled trees, command lines, prefixes, old contents, write faults and kill points; the expected file is computed from the run on standard output.",
 "C19": "Sampled histories of documents and builds; readers and merges are scheduled by the simulator, only the disk survives a build. Expected index, links and warnings come from a reference model of the documents, and from a clean serial build.",
 "C18": "Sampled trees, command lines and disturbances; the whole simulated tree is compared before and after, and at the moment of a kill.",
}
NA = {
 "C30": "The lexer is a pure function of one text: there is no scheduling, time, I/O or other party for a simulator to control, so this family has nothing to decide it with (torn and corrupted texts are covered by C09).",
 "C31": "Static rules are a pure function of the program text; no nondeterminism or fault takes part. Orders and layouts that can influence them are covered by C01, C02 and C10.",
 "C32": "Operator semantics are pure functions of their operands. The simulator's reference evaluator covers a subset as a by-product of C03 and C08, but seeded schedules add nothing to deciding it.",
 "C33": "Locations are a pure function of the text and the construct; no schedule or fault takes part.",
 "C34": "Soundness of the verification conditions is a property of a translation, decided by proof or solver-based comparison, not by schedules and faults; the fault-dependent part (time-outs) is claimed as C06.",
 "C35": "A pure text-to-text function without state, I/O or concurrency.",
 "C36": "A pure text-to-token function without state, I/O or concurrency.",
}

checks, na = [], []
with open(os.path.join(HERE, "properties.jsonl"), encoding="utf-8") as fd:
    props = [json.loads(line) for line in fd]
for p in props:
    pid = p["id"]
    path = os.path.join(HERE, "props", pid.lower() + ".py")
    if pid in NA:
        na.append({"property": pid, "reason": NA[pid]})
        continue
    if not os.path.exists(path):
        na.append({"property": pid, "reason": "check not built yet"})
        continue
    level = "exploration"
    for line in open(path, encoding="utf-8"):
        if line.startswith("LEVEL = "):
            level = line.split('"')[1]
    checks.append({"property": pid, "quick_cmd": "python3 check.py %s" % pid,
                   "thorough_cmd": "python3 check.py %s --tier thorough" % pid,
                   "technique": TECH[pid], "level": level, "level_note": NOTE[pid]})
manifest = {
    "version": 1,
    "setup_cmd": "python3 check.py --selftest",
    "hooks": {"guard": "none: no hooks were needed, all seams are below or around the code (CPython I/O layer, trace function, solver binding)",
              "enable": "the checks run /repo's working tree as it is", "source_commits": []},
    "checks": checks, "not_applicable": na,
    "notes": "Replays: python3 check.py <ID> --replay <file>. VERIF_SEED selects the seed, VERIF_WORKERS the parallelism (results do not depend on it)."}
with open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf-8") as fd:
    json.dump(manifest, fd, indent=1)
    fd.write("\n")
print(len(checks), "checks", len(na), "not applicable")
