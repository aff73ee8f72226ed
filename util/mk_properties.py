#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the prose stays readable)."""
import json
import os

P = []


def prop(pid, title, statement, over, quant, why, files, mech, observe, hook=None, state=()):
    assert len(title) <= 80, (pid, len(title))
    P.append({
        "id": pid, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": quant},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
            "mechanism": [{"name": a, "where": b} for a, b in mech],
            "observe_at": observe,
            "hook_needed": hook}})


prop("C01", "Output does not depend on directory-listing order or hash order",
     "For a fixed set of files and a fixed command line, the tool's complete output (diagnostics, summary, file list "
     "and API dump) and its exit status are byte for byte the same, whatever order the operating system lists "
     "directory entries in and whatever order hash-based containers happen to iterate in. The same holds for the "
     "contents and iteration order of the symbol table returned by the API.",
     ["schedules", "configurations", "inputs"],
     "all directory-entry orders (input trees and include trees), all hash seeds and object identities, all file sets",
     "The golden tests run with PYTHONHASHSEED=0 on one file system, so they see one enumeration order and (almost) one "
     "hash order; a missing sort is invisible to them.",
     ["trlc/trlc.py", "trlc/ast.py", "trlc/lint.py", "trlc/parser.py"],
     [("sorted directory walk", "trlc/trlc.py Source_Manager.register_directory"),
      ("sorted include registration and sorted work lists", "trlc/trlc.py Source_Manager.build_graph / parse_rsl_files / parse_trlc_files"),
      ("sorted symbol iteration", "trlc/ast.py Symbol_Table.values"),
      ("import linting", "trlc/lint.py Linter.verify_imports")],
     ["stdout / --log bytes", "exit status", "symbol table iteration"])

prop("C02", "Include paths pull in exactly the packages that are needed",
     "With include directories, the files processed are exactly the explicitly named ones plus those reached from them "
     "by following package membership and imports transitively (model imports reach model files, requirement-file "
     "imports reach requirement files and their models). A file that is not needed contributes no symbols, no records "
     "and no diagnostics about anything after its preamble (package and imports, which are read in every included file), and naming the needed files explicitly instead gives the same verdict, "
     "diagnostics and records, in whatever order the include directories are enumerated.",
     ["inputs", "schedules", "configurations"],
     "all import graphs, all splits between named and included files, all include-directory layouts and enumeration orders",
     "Each include test has one fixed small graph and one fixed directory order; the closure must be right for every graph.",
     ["trlc/trlc.py", "trlc/ast.py"],
     [("include registration", "trlc/trlc.py Source_Manager.register_include"),
      ("dependency closure over (package, kind)", "trlc/trlc.py Source_Manager.build_graph")],
     ["--show-file-list", "summary counts", "diagnostics", "symbol table records"])

prop("C03", "Each object's checks run exactly once, in order, under any schedule",
     "For every record object all applicable user-defined checks (of its type, of the types it extends, and of every "
     "tuple value it contains, also inside arrays and other tuples) are evaluated exactly once, in declaration order and "
     "base type before extension, and each failing check yields exactly its own message and severity. "
     "A failing fatal check or a failed evaluation ends the evaluation of that object and affects no other object. "
     "This holds whichever order the objects are checked in, including several objects being checked in parallel.",
     ["schedules", "inputs"],
     "all evaluation orders and all thread interleavings of the record objects, all generated type hierarchies, checks and values",
     "The LRM leaves the order of objects unspecified and allows parallel evaluation, but every test evaluates the objects "
     "sequentially in one order; expectations are per example.",
     ["trlc/ast.py", "trlc/trlc.py", "trlc/errors.py"],
     [("check iteration", "trlc/ast.py Record_Type.iter_checks, Composite_Type.iter_checks"),
      ("check evaluation", "trlc/ast.py Record_Object.perform_checks, Check.perform, Tuple_Type.perform_type_checks, Array_Type.perform_type_checks"),
      ("top-level loop", "trlc/trlc.py Source_Manager.perform_checks")],
     ["check diagnostics per object", "perform_checks return value"])

prop("C04", "A failed or partial read of an input never looks like success",
     "If any input file or input directory that the run should use cannot be opened, listed or completely read and "
     "decoded (missing, permission denied, I/O error at any point, vanished between listing and reading, invalid UTF-8), "
     "the tool and the API report failure: the exit status is non-zero and no symbol table is returned. Reads that are "
     "merely short or interrupted change nothing at all in the result.",
     ["fault_sequences", "inputs"],
     "all fault kinds at every file-system operation of a run (listing, stat, open, n-th read, close), all input trees",
     "No test injects an I/O error; the tests only ever read intact, readable files.",
     ["trlc/trlc.py", "trlc/lexer.py"],
     [("file registration", "trlc/trlc.py Source_Manager.register_file / register_directory / register_include / build_graph"),
      ("file reading and decoding", "trlc/lexer.py TRLC_Lexer")],
     ["exit status", "process() result", "output bytes"])

prop("C05", "A failed output write never looks like success",
     "If writing the tool's output, to standard output or to a --log file, fails at any point (broken pipe, disk full, "
     "I/O error, while writing, flushing or closing), the exit status is non-zero, and for a broken pipe on standard "
     "output it is 141 without a traceback. Whatever part of the output was delivered is a prefix of the output of the "
     "fault-free run, and short or interrupted writes alone change nothing.",
     ["fault_sequences", "crash_points"],
     "all output fault kinds at every byte offset and at flush/close, standard output and log file, line- and block-buffered",
     "No test makes a write fail; the broken-pipe path is not covered by any test.",
     ["trlc/trlc.py", "trlc/errors.py"],
     [("broken pipe handling", "trlc/trlc.py main"),
      ("log file ownership and closing", "trlc/errors.py Message_Handler"),
      ("exit status", "trlc/trlc.py trlc")],
     ["exit status", "bytes delivered to stdout and log"])

prop("C06", "Solver timeouts only make --verify more cautious, never less",
     "If the SMT solver gives up (unknown) on any subset of its queries, static verification still terminates normally, "
     "still reports every potential run-time problem it reports when the solver answers, and never reports a check as "
     "always true that it does not report otherwise. With --no-detailed-info the output does not depend on which "
     "counter-example values the solver happens to choose.",
     ["fault_sequences", "inputs"],
     "all subsets of solver queries answered unknown, all counter-example models, all generated check expressions",
     "The solver has a 2.5 s wall-clock limit per query, so timeouts depend on machine load; tests never time out and "
     "compare against one solver's models.",
     ["trlc/vcg.py", "trlc/lint.py"],
     [("solver invocation and verdict handling", "trlc/vcg.py VCG.check / checkout_vcs")],
     ["issues reported per location and category", "exit status"])

prop("C07", "Runs are isolated from earlier, concurrent and aborted runs",
     "Running the tool through the API gives the same messages, verdict and symbol table as a run alone in a fresh "
     "process, no matter which other runs happened before in the same process, which are interleaved with it in other "
     "threads, and at which point an earlier run was aborted by an exception (cancellation, memory exhaustion, a raising "
     "callback). In particular re-running after edits, as an editor does, always equals a fresh run on the edited content.",
     ["schedules", "histories", "crash_points"],
     "all histories of runs and edits, all abort points, all interleavings of runs in threads",
     "Every test is one run in one fresh process.",
     ["trlc/trlc.py", "trlc/ast.py", "trlc/parser.py", "trlc/lexer.py", "trlc/errors.py", "trlc/lint.py", "trlc/nested.py"],
     [("all state hangs off one manager instance", "trlc/trlc.py Source_Manager.__init__"),
      ("fresh global symbol table", "trlc/ast.py Symbol_Table.create_global_table")],
     ["messages", "process() result", "symbol table dump"])

prop("C08", "Exit status, counters and summary agree with what was reported",
     "On every path the warning, error and suppressed counters and the final summary line equal the number of diagnostics "
     "of those kinds raised, suppressed messages are not printed, and nothing is printed twice or lost. The exit status "
     "is 0 exactly if there were no errors (and no warnings under --error-on-warnings), and a returned symbol table means "
     "that no error was reported.",
     ["inputs", "fault_sequences", "configurations"],
     "all inputs (valid, invalid, faulty storage) and all option combinations",
     "Golden outputs pin a few hundred fixed inputs with one option set each; the agreement must hold on all mixtures of "
     "errors, warnings, suppression and failures.",
     ["trlc/errors.py", "trlc/trlc.py"],
     [("counting and emission", "trlc/errors.py Message_Handler.emit / error / warning / check / lex_error"),
      ("summary and status", "trlc/trlc.py trlc"),
      ("process result", "trlc/trlc.py Source_Manager.process")],
     ["counters", "summary line", "exit status", "process() result"])

prop("C09", "Torn or corrupted files give a diagnostic, never a crash or altered data",
     "For every input file that was cut off at any byte, lost or duplicated a block, or had bytes flipped, the tool "
     "terminates with ordinary located diagnostics and a non-zero exit status, or accepts the file; it never hangs and "
     "never ends in an internal exception. If a file that was merely cut off is accepted, the declarations obtained from "
     "it are exactly a leading part of those of the intact file, with identical contents.",
     ["fault_sequences", "inputs", "crash_points"],
     "all truncation points, lost or duplicated blocks and byte flips of all generated input files, with and without error recovery",
     "The negative tests are a few hundred hand-written errors; a torn write can stop at any byte of any construct.",
     ["trlc/parser.py", "trlc/lexer.py", "trlc/ast.py", "trlc/trlc.py"],
     [("end-of-file handling and recovery", "trlc/parser.py Parser_Base.match/peek, parse_rsl_file, parse_trlc_file"),
      ("lexical errors", "trlc/lexer.py TRLC_Lexer.token"),
      ("run-time evaluation errors", "trlc/ast.py evaluate methods")],
     ["exit status", "exceptions", "symbol table"])

prop("C10", "Record contents do not depend on file layout, names or order",
     "Every record object ends up in the symbol table with exactly the type, section path, field values and resolved "
     "references its declaration gives it, however the objects are spread over files and directories, whatever the files "
     "are called, in whatever order they are registered, and whether a referenced object comes before or after its use. "
     "Invalid references (unknown object or wrong type) are rejected under every such arrangement.",
     ["schedules", "inputs", "configurations"],
     "all partitions of the objects into files, all file names and registration orders, all forward/backward/cyclic references",
     "Each test fixes one layout; early and late resolution are different code paths chosen by processing order.",
     ["trlc/parser.py", "trlc/ast.py", "trlc/trlc.py"],
     [("early lookup or late resolution", "trlc/parser.py Parser.parse_value, trlc/ast.py Record_Reference.resolve_references"),
      ("processing order", "trlc/trlc.py Source_Manager.parse_trlc_files / resolve_record_references"),
      ("section stack", "trlc/parser.py Parser.parse_section_declaration")],
     ["to_python_dict of every record", "reference targets", "section paths", "verdict"])

prop("C11", "Published RST is complete, repeatable, and untouched by failed parses",
     "The RST publisher renders every selected record exactly once, beneath exactly its own section path, with the "
     "requested field values, and rendering again or in interleaving with other queries gives the same bytes. If any "
     "input cannot be read or contains an error it exits non-zero and leaves an existing output file as it was; if "
     "writing the output fails it exits non-zero.",
     ["inputs", "fault_sequences", "histories"],
     "all record sets and section trees, all input and output faults, all histories of render calls",
     "The publisher's tests render a handful of fixed trees and never fail an input or an output.",
     ["tools/trlc_rst/trlc_rst.py", "trlc/trlc.py"],
     [("parse before write", "tools/trlc_rst/trlc_rst.py TRLCRST.render / parse_trlc_files"),
      ("tree merging", "tools/trlc_rst/trlc_rst.py TRLCRST.convert_symbols_to_tree"),
      ("rendering", "tools/trlc_rst/trlc_rst.py TRLCRST.render_to_file")],
     ["output file bytes", "exit status"])

prop("C12", "Progress callbacks follow one protocol and may cancel at any point",
     "Processing notifies begin exactly once first and end exactly once last on every path that returns, whether it "
     "succeeds or fails, with progress values in between that never decrease, stay within 0..100, and reach 100 when all "
     "needed files were processed. An exception raised by a callback to cancel propagates to the caller unchanged, and no "
     "further callback is made.",
     ["histories", "fault_sequences", "inputs"],
     "all outcomes (success, errors at each phase, faults), all option sets, all cancellation points",
     "No test observes the callbacks at all.",
     ["trlc/trlc.py"],
     [("callbacks", "trlc/trlc.py Source_Manager.process / signal_progress")],
     ["callback history"])

prop("C13", "API queries can be repeated and interleaved without changing results",
     "Reading the result of a run (iterating objects, iterating objects by section, looking up, converting to Python "
     "values, dumping) any number of times and in any interleaving returns the same answers every time and changes "
     "nothing. Re-evaluating the checks afterwards yields the same diagnostics and verdict again.",
     ["histories", "schedules"],
     "all sequences and interleavings of queries over all generated symbol tables",
     "Tests call each query once on a fresh symbol table.",
     ["trlc/ast.py", "trlc/trlc.py"],
     [("iteration", "trlc/ast.py Symbol_Table.iter_record_objects / iter_record_objects_by_section / values"),
      ("conversion", "trlc/ast.py Record_Object.to_python_dict")],
     ["query results", "diagnostics"])

prop("C14", "A run works on one snapshot of each file",
     "The result of processing depends only on the content each file had when it was registered: modifying, replacing or "
     "deleting files on disk afterwards changes neither messages, their quoted source lines, verdict nor records. A file "
     "registered with explicit content is never read from disk. (Files of include directories are registered when "
     "processing first reads them.)",
     ["schedules", "histories", "fault_sequences"],
     "all modifications of the file system at all points after registration",
     "Tests never modify a file while the tool runs.",
     ["trlc/trlc.py", "trlc/lexer.py", "trlc/errors.py"],
     [("content read once at registration", "trlc/lexer.py TRLC_Lexer.__init__ / Token_Stream"),
      ("quoted lines come from the stored content", "trlc/lexer.py Source_Reference.context_lines")],
     ["messages", "records", "file reads after registration"])

prop("C15", "An error in one package does not disturb packages that do not use it",
     "With error recovery, damaging the declarations in one file never changes which syntax and declaration errors are "
     "reported for files of packages that neither contain nor import (directly or indirectly) the damaged package, and "
     "never removes the rejection of the run. (References between objects and user checks are examined only when every "
     "file could be parsed.) An error inside one requirement object is reported once at that object, and errors in other "
     "files are still reported in the same run.",
     ["fault_sequences", "inputs"],
     "all damaged declarations in all files of generated multi-package trees",
     "Tests of error recovery use single files or fixed pairs.",
     ["trlc/parser.py", "trlc/trlc.py"],
     [("recovery loops", "trlc/parser.py Parser.parse_rsl_file / parse_trlc_file"),
      ("per-file error handling", "trlc/trlc.py Source_Manager.build_graph / parse_rsl_files / parse_trlc_files")],
     ["diagnostics per file", "exit status"])

prop("C16", "A run that is struck down never looks like success",
     "If memory or stack run out, or an interrupt arrives, at any point of a run, the tool never ends with exit status 0 and "
     "the API never returns a symbol table, unless output and result are exactly those of the undisturbed run. This holds for "
     "the trlc command, the RST publisher and the API, for valid and for erroneous input.",
     ["fault_sequences", "histories"],
     "all points of a run at which an exception from outside can arise",
     "Tests never run out of memory or stack and are never interrupted.",
     ["trlc/trlc.py", "trlc/parser.py", "trlc/ast.py", "trlc/errors.py", "tools/trlc_rst/trlc_rst.py"],
     [("only TRLC_Error is handled", "trlc/trlc.py Source_Manager.process / register_file / perform_checks"),
      ("error recovery", "trlc/parser.py Parser.parse_rsl_file / parse_trlc_file"),
      ("exit status", "trlc/trlc.py trlc / main")],
     ["exit status", "returned symbol table", "output"])

prop("C17", "--log FILE holds exactly what standard output would have shown",
     "With --log FILE [PREFIX] (API: out_path and strip_prefix of the message handler) the exit status is the same as without, "
     "nothing is written to standard output, and FILE holds exactly the lines standard output would have shown, whatever it held "
     "before, with PREFIX removed from the head of the locations of messages and from nothing else. Short and interrupted writes change "
     "nothing. If the process is killed, FILE holds its old contents or a leading part of the new ones. A handler that is closed, "
     "directly or by leaving its context, also after an exception, has written everything.",
     ["fault_sequences", "histories", "crash_points"] ,
     "all command lines, old contents of the file, prefixes, write faults and points at which the process is killed",
     "The tests compare a single log file of a single run with a golden file.",
     ["trlc/errors.py", "trlc/trlc.py"],
     [("owned output file", "trlc/errors.py Message_Handler.__init__ / close / __exit__"),
      ("prefix", "trlc/errors.py Message_Handler.emit"),
      ("summary, dumps and file list", "trlc/trlc.py trlc")],
     ["log file", "standard output", "exit status"])

prop("C18", "A run changes nothing on disk except the output it was asked for",
     "No run creates, changes or deletes any file or directory except the --log file of trlc or the document written by the RST "
     "publisher: not if it succeeds, not if inputs or outputs fail or change meanwhile, not if it is struck down by exhausted memory or "
     "stack or an interrupt, and not if it is killed at any point. Nothing outside of the working tree is opened for writing, and a "
     "run through the API leaves no file open. (--debug-vcg, which is asked to write graphs, is excepted.)",
     ["fault_sequences", "crash_points", "inputs"],
     "all input trees, command lines, faults and points at which the process ends",
     "Tests look at the output only, never at the rest of the file system, and never fail an operation.",
     ["trlc/trlc.py", "trlc/lexer.py", "trlc/errors.py", "tools/trlc_rst/trlc_rst.py"],
     [("inputs are only read", "trlc/lexer.py TRLC_Lexer.__init__"),
      ("the log file", "trlc/errors.py Message_Handler.__init__"),
      ("the document", "tools/trlc_rst/trlc_rst.py TRLCRST.render_to_file")],
     ["file-system snapshots", "files opened for writing", "files left open"])

prop("C19", "Sphinx: the same requirement index, links and warnings after every history",
     "With the requirement domain of tools/sphinx, every build of a documentation tree that ends registers and indexes exactly the requirements "
     "defined by the documents as they are now, each once per definition, in alphabetical order by first letter; every reference links to the "
     "definition of its target if there is exactly one (in a page that has the anchor), and is reported, with document and line, as not found "
     "or as ambiguous with the number of definitions otherwise. This holds for every history of documents and definitions added, changed, "
     "moved, included and removed between builds, however documents are divided among parallel readers and in whichever order results are "
     "merged, for builds in a new or in the same process, and after builds that were killed, interrupted or failed at any point.",
     ["schedules", "crash_points", "histories", "fault_sequences"],
     "all histories of edits and builds, divisions of documents, merge orders and points at which a build ends",
     "There is no test of the domain; a test would build one tree once, serially.",
     ["tools/sphinx/extensions/trlc/trlc.py"],
     [("registering, clearing, merging", "tools/sphinx/extensions/trlc/trlc.py RequirementsDomain"),
      ("resolving", "tools/sphinx/extensions/trlc/trlc.py RequirementsDomain.resolve_xref"),
      ("index", "tools/sphinx/extensions/trlc/trlc.py RequirementsIndex.generate")],
     ["registered objects", "index", "resolved documents", "warnings"])

NA = [
 ("C30", "Lexing and literal values follow the language manual",
  "Every character sequence is split into the tokens the language reference manual defines, and integer, decimal and string literals denote the values it gives them.",
  ["inputs"], "all source texts", ["trlc/lexer.py"], [("lexer", "trlc/lexer.py TRLC_Lexer.token")]),
 ("C31", "Static rules of the language manual are enforced",
  "Every program that breaks a naming, typing, visibility or declaration rule of the language reference manual is rejected, and every program that obeys them is accepted.",
  ["programs"], "all model and requirement files", ["trlc/parser.py", "trlc/ast.py"], [("type checks", "trlc/ast.py Expression.ensure_type and constructors")]),
 ("C32", "Expression operators compute the values the language manual defines",
  "Every operator and builtin function on every pair of operand values yields the value the language reference manual defines (exact decimals, rounding, string and regular-expression functions).",
  ["inputs"], "all expressions and operand values", ["trlc/ast.py", "trlc/math.py"], [("evaluation", "trlc/ast.py evaluate methods")]),
 ("C33", "Diagnostics point at the construct they talk about",
  "Every diagnostic's file, line and column are those of the construct concerned, and the quoted line and markers show that construct.",
  ["inputs"], "all erroneous inputs", ["trlc/lexer.py", "trlc/errors.py"], [("locations", "trlc/lexer.py Source_Reference")]),
 ("C34", "Static verification is sound and complete for supported checks",
  "A check about which static verification reports nothing can never fail to evaluate on a valid object, and every reported issue has a valid object that triggers it.",
  ["programs"], "all check expressions over all types", ["trlc/vcg.py"], [("VC generation", "trlc/vcg.py VCG")]),
 ("C35", "Markdown-to-RST text conversion preserves the text",
  "Converting a description to RST keeps every word, link, image, list item and code block of the source text in order.",
  ["inputs"], "all description texts", ["tools/trlc_rst/trlc_rst.py"], [("conversion", "tools/trlc_rst/trlc_rst.py TRLCRST._preprocess_description")]),
 ("C36", "Sphinx highlighting tokenises every TRLC text losslessly",
  "The Sphinx/Pygments lexer's tokens concatenate to the input for every TRLC text and classify keywords as the language does.",
  ["inputs"], "all TRLC texts", ["tools/sphinx/extensions/trlc/trlc.py"], [("lexer", "tools/sphinx/extensions/trlc/trlc.py")]),
]
for pid, title, st, over, q, files, mech in NA:
    prop(pid, title, st, over, q,
         "Universally quantified over inputs; the tests sample it. Not claimed here: see not_applicable in MANIFEST.json.",
         files, mech, ["output"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w", encoding="utf-8") as fd:
    for p in P:
        fd.write(json.dumps(p) + "\n")
print(len(P), "properties")
