"""Fourth batch of planted bugs, see seed_lib.py"""
from seed_bugs_1 import T, A, P, E, L, V, R, SOLVER  # noqa: F401
BUGS = []


def bug(ident, prop, edits, needs, breaks, demo):
    BUGS.append({"id": ident, "property": prop, "edits": edits, "needs": needs, "breaks": breaks, "demo": demo})


bug("c13_checks_once", "C13",
    [(A, "        ok = True\n\n        # First evaluate all tuple checks\n",
      "        # Objects do not change once they are complete\n"
      "        if getattr(self, \"verdict\", None) is not None:\n"
      "            return self.verdict\n\n"
      "        ok = True\n\n        # First evaluate all tuple checks\n"),
     (A, "            if not check.perform(mh, self, gstab):\n"
         "                ok = False\n\n"
         "        return ok\n\n"
         "    def __repr__(self):\n"
         "        return \"%s<%s>\" % (self.__class__.__name__,\n"
         "                           self.n_package.name + \".\" +\n"
         "                           self.n_typ.name",
      "            if not check.perform(mh, self, gstab):\n"
      "                ok = False\n\n"
      "        self.verdict = ok\n"
      "        return ok\n\n"
      "    def __repr__(self):\n"
      "        return \"%s<%s>\" % (self.__class__.__name__,\n"
      "                           self.n_package.name + \".\" +\n"
      "                           self.n_typ.name")],
    "evaluating the checks of an object again, e.g. with another message handler",
    "checks evaluated again give no messages",
    r'''
put({"m.rsl": "package P\ntype A { n Integer }\nchecks A { n > 5, warning \"small\" }\n",
     "m.trlc": "package P\nA o { n = 1 }\n"})
os.chdir(TMP.name)
out, mh, sm = manager()
sm.register_directory(".")
stab = sm.process()
first = out.getvalue()
check("small" in first, first)
for obj in stab.iter_record_objects():
    obj.perform_checks(mh, stab)
check(out.getvalue() == first + first, out.getvalue())
''')

bug("c13_lookup_registers", "C13",
    [(A, "                                  required_subclass.__name__))\n"
         "                    return rv\n"
         "                else:\n"
         "                    ptr = ptr.parent\n\n"
         "        return None\n",
      "                                  required_subclass.__name__))\n"
      "                    # Found right away the next time\n"
      "                    self.table.setdefault(simple_name, rv)\n"
      "                    return rv\n"
      "                else:\n"
      "                    ptr = ptr.parent\n\n"
      "        return None\n")],
    "looking up something in a table that finds it in an outer or imported table, then iterating that table",
    "a lookup adds entries to the symbol table, so that later iterations give other results",
    r'''
from trlc import ast
put({"m.rsl": "package P\ntype A { n Integer }\n", "m.trlc": "package P\nA o { n = 1 }\n"})
os.chdir(TMP.name)
out, mh, sm = manager()
sm.register_directory(".")
stab = sm.process()
pkg = stab.lookup_assuming(mh, "P", ast.Package)
before = [x.name for x in pkg.symbols.values()]
pkg.symbols.lookup_assuming(mh, "Integer")
check([x.name for x in pkg.symbols.values()] == before, before)
''')

bug("c16_lint_recursion", "C16",
    [("trlc/lint.py", "                try:\n"
         "                    self.verify_type(n_typ)\n"
         "                except TRLC_Error:\n"
         "                    ok = False\n",
      "                try:\n"
      "                    self.verify_type(n_typ)\n"
      "                except TRLC_Error:\n"
      "                    ok = False\n"
      "                except RecursionError:\n"
      "                    # Too deeply nested, and only a warning is lost\n"
      "                    continue\n")],
    "the stack runs out while types are examined for warnings (chains of tuples in tuples)",
    "warnings are lost and the run succeeds",
    r'''
text = "package P\ntuple T0 { a Integer }\n"
for n in range(1, 300):
    text += "tuple T%u { a T%u b Integer }\n" % (n, n - 1)
text += "type A { t T299 z Integer[0 .. 1] }\n"
put({"m.rsl": text})
pre = "import sys\nimport trlc.trlc\nsys.setrecursionlimit(230)"
rv, out, err = tool("--brief", ".", pre=pre)
full = tool("--brief", ".")
check(full[0] == 0 and "weird" in full[1], full[1] + full[2])
check(rv != 0 or out == full[1], "rv %u\n" % rv + out)
''')

bug("c16_checks_recursion", "C16",
    [(T, "                try:\n"
         "                    if not obj.perform_checks(self.mh, self.stab):\n"
         "                        ok = False\n"
         "                except TRLC_Error:\n"
         "                    ok = False\n",
      "                try:\n"
      "                    if not obj.perform_checks(self.mh, self.stab):\n"
      "                        ok = False\n"
      "                except TRLC_Error:\n"
      "                    ok = False\n"
      "                except (RecursionError, MemoryError):\n"
      "                    # This one cannot be evaluated, do the others\n"
      "                    continue\n")],
    "memory or stack run out while the checks of an object are evaluated",
    "an object whose checks could not be evaluated counts as correct",
    r'''
put({"m.rsl": "package P\ntype A { n Integer }\nchecks A { n > 5, error \"small\" }\n",
     "m.trlc": "package P\nA o { n = 1 }\n"})
pre = """
import trlc.ast
orig = trlc.ast.Binary_Expression.evaluate
def evaluate(*a, **k):
    raise MemoryError
trlc.ast.Binary_Expression.evaluate = evaluate
"""
rv, out, err = tool(".", pre=pre)
check(rv != 0, out)
''')

bug("c16_interrupt_summary", "C16",
    [(T, "    ok = sm.process_files()\n\n    if ok:\n",
      "    try:\n"
      "        ok = sm.process_files()\n"
      "    except KeyboardInterrupt:\n"
      "        print(\"interrupted\", file=mh.out)\n\n"
      "    if ok:\n")],
    "an interrupt while files are processed",
    "an interrupted run prints the summary of what it had found so far and may exit with 0",
    r'''
put({"m.rsl": "package P\ntype A { n Integer }\nchecks A { n > 5, error \"small\" }\n",
     "m.trlc": "package P\nA o { n = 1 }\n"})
pre = """
import trlc.trlc
def stop(self):
    raise KeyboardInterrupt
trlc.trlc.Source_Manager.perform_checks = stop
"""
rv, out, err = tool(".", pre=pre)
check(rv != 0, out)
''')

bug("c17_prefix_anywhere", "C17",
    [(E, "            if self.strip_prefix and loc.startswith(self.strip_prefix):\n"
         "                loc = loc[len(self.strip_prefix):]\n",
      "            if self.strip_prefix:\n"
      "                loc = loc.replace(self.strip_prefix, \"\")\n")],
    "a file whose path has the prefix in its middle, or twice",
    "the prefix is removed anywhere in the location",
    r'''
put({"lib/x/lib/y.rsl": "package P\ntype A { n Integer[0 .. 1] }\n"})
rv, out, err = tool("--log", "out.log", "lib/", "--brief", "lib")
text = open(os.path.join(TMP.name, "out.log")).read()
check(text.startswith("x/lib/y.rsl:2"), text)
''')

bug("c17_exit_error", "C17",
    [(E, "    def __exit__(self, *_):\n        self.close()\n",
      "    def __exit__(self, exc_type, *_):\n"
      "        # Keep the file open for a report of the failure\n"
      "        if exc_type is None:\n"
      "            self.close()\n")],
    "a message handler used as a context that is left by an exception",
    "the log is not written when its context is left by an exception",
    r'''
put({"m.rsl": "package P\ntype A { n Integer[0 .. 1] }\n"})
os.chdir(TMP.name)
from trlc.errors import Message_Handler
from trlc.trlc import Source_Manager
keep = []
try:
    with Message_Handler(out_path="out.log") as mh:
        keep.append(mh)
        sm = Source_Manager(mh)
        sm.register_directory(".")
        sm.process()
        raise RuntimeError
except RuntimeError:
    pass
check("weird_array" in open("out.log").read(), "log is incomplete")
''')

bug("c17_details_stdout", "C17",
    [(E, "                    print(\"%s| %s\" % (\" \" * indent,\n"
         "                                      line.rstrip()), file=self.out)\n",
      "                    print((\"%s| %s\" % (\" \" * indent, line)).rstrip())\n")],
    "a message with an explanation, and --log",
    "explanations go to standard output instead of the log",
    r'''
put({"m.rsl": "package P\ntype A { n Integer[0 .. 1] }\n"})
rv, out, err = tool("--log", "out.log", "--", ".")
check(out == "", out)
''')

bug("c17_append", "C17",
    [(E, "                out_path, \"w\", encoding=\"UTF-8\")\n",
      "                out_path, \"a\", encoding=\"UTF-8\")\n")],
    "a log file that exists already",
    "the log is appended to what the file held before",
    r'''
put({"m.rsl": "package P\ntype A { n Integer }\n", "out.log": "old text\n"})
rv, out, err = tool("--log", "out.log", "--", ".")
text = open(os.path.join(TMP.name, "out.log")).read()
check("old" not in text and "Processed" in text, text)
''')

bug("c18_tmp_left", "C18",
    [(R, "        with open(output_path, \"w\", newline=\"\", encoding=\"utf-8\") as file:\n",
      "        # Readers never see a document that is half written\n"
      "        tmp_path = output_path + \".tmp\"\n"
      "        with open(tmp_path, \"w\", newline=\"\", encoding=\"utf-8\") as file:\n"),
     (R, "                        \"\\n\".join(self._render_record_block(node.name, trlc_obj, normalized))\n"
         "                    )\n"
         "                    file.write(\"\\n\")\n",
      "                        \"\\n\".join(self._render_record_block(node.name, trlc_obj, normalized))\n"
      "                    )\n"
      "                    file.write(\"\\n\")\n"
      "        os.replace(tmp_path, output_path)\n")],
    "a write of the document that fails",
    "a temporary file is left behind",
    r'''
sys.path.insert(0, os.path.join(REPO, "tools", "trlc_rst"))
put({"m.rsl": "package P\ntype A { description optional String }\n", "m.trlc": "package P\nA o { description = \"x\" }\n"})
os.chdir(TMP.name)
import trlc_rst
orig = trlc_rst.TRLCRST._render_record_block
def fail(*a, **k):
    raise OSError(28, "No space left on device")
trlc_rst.TRLCRST._render_record_block = fail
before = set(os.listdir("."))
try:
    trlc_rst.TRLCRST("."). render("out.rst")
except OSError:
    pass
check(set(os.listdir(".")) - before <= {"out.rst"}, os.listdir("."))
''')

bug("c18_crash_report", "C18",
    [(T, "    except BrokenPipeError:\n",
      "    except (RecursionError, MemoryError) as err:\n"
      "        # Leave something for the bug report\n"
      "        with open(\"trlc-crash.txt\", \"w\", encoding=\"UTF-8\") as fd:\n"
      "            fd.write(\"%s in TRLC %s\\n\" % (err.__class__.__name__,\n"
      "                                        TRLC_VERSION))\n"
      "        raise\n"
      "    except BrokenPipeError:\n")],
    "memory or stack run out",
    "a file is written into the working directory",
    r'''
put({"m.rsl": "package P\ntype A { n Integer }\nchecks A { n > 5, error \"small\" }\n",
     "m.trlc": "package P\nA o { n = 1 }\n"})
pre = """
import trlc.ast
def evaluate(*a, **k):
    raise MemoryError
trlc.ast.Binary_Expression.evaluate = evaluate
"""
before = set(os.listdir(TMP.name))
tool(".", pre=pre)
check(set(os.listdir(TMP.name)) == before, os.listdir(TMP.name))
''')

bug("c05_emit_swallow", "C05",
    [(E, "            if context:\n"
         "                assert len(context) == 2\n"
         "                print(context[0].replace(\"\\t\", \" \"), file=self.out)\n"
         "                print(context[1].replace(\"\\t\", \" \"), msg, file=self.out)\n"
         "            else:\n"
         "                print(msg, file=self.out)\n",
      "            try:\n"
      "                if context:\n"
      "                    assert len(context) == 2\n"
      "                    print(context[0].replace(\"\\t\", \" \"), file=self.out)\n"
      "                    print(context[1].replace(\"\\t\", \" \"), msg, file=self.out)\n"
      "                else:\n"
      "                    print(msg, file=self.out)\n"
      "            except BlockingIOError:\n"
      "                # A full pipe must not keep us from processing\n"
      "                pass\n")],
    "a write of a message that fails with EAGAIN, i.e. a standard output that does not block",
    "a message is lost without the run failing",
    r'''
put({"m.rsl": "package P\ntype A {%s }\n" % " ".join("n%u Integer[0 .. 1]" % n for n in range(30))})
pre = """
import sys
class Out:
    n = 0
    def write(self, text):
        Out.n += 1
        if Out.n == 5:
            raise BlockingIOError(11, "Resource temporarily unavailable")
        return sys.__stdout__.write(text)
    def flush(self):
        sys.__stdout__.flush()
    def fileno(self):
        return sys.__stdout__.fileno()
sys.stdout = Out()
"""
rv, out, err = tool("--brief", ".", pre=pre)
check(rv != 0, out)
''')

bug("c04_vanished_primary", "C04",
    [(T, "        assert os.path.isfile(file_name)\n"
         "        assert isinstance(file_content, str) or file_content is None\n"
         "        # lobster-trace: LRM.Layout\n\n"
         "        try:\n",
      "        if not os.path.isfile(file_name):\n"
      "            # Editors replace files, there is nothing to process now\n"
      "            return True\n"
      "        assert isinstance(file_content, str) or file_content is None\n"
      "        # lobster-trace: LRM.Layout\n\n"
      "        try:\n")],
    "a file that vanishes after its directory was listed",
    "a file that vanished between listing and reading is silently left out",
    r'''
put({"m.rsl": "package P\ntype A { n Integer }\n", "m.trlc": "package P\nA o { n = 1 }\n"})
pre = """
import os
orig = os.walk
def walk(*a, **k):
    for path, dirs, files in orig(*a, **k):
        yield path, dirs, files + ["gone.trlc"]
os.walk = walk
"""
rv, out, err = tool(".", pre=pre)
check(rv != 0, out)
''')

bug("c10_similar_reference", "C10",
    [(A, "                    if not simplified and rv.name != name:\n",
      "                    if not simplified and rv.name != name and \\\n"
      "                       not (required_subclass is not None and\n"
      "                            issubclass(required_subclass, Record_Object)):\n")],
    "a reference that spells the name of the object a little differently",
    "references to objects with a similar name are accepted",
    r'''
put({"m.rsl": "package P\ntype A { r optional A }\n", "m.trlc": "package P\nA Some_Name { }\nA b { r = SomeName }\n"})
rv, out, err = tool(".")
check(rv == 1 and "unknown symbol" in out, out)
''')

bug("c02_chain_depth", "C02",
    [(T, "        required = set()\n        while work_list:\n",
      "        required = set()\n"
      "        for _ in range(2 * len(self.includes) + len(self.rsl_files)):\n"
      "            if not work_list:\n"
      "                break\n")],
    "a requirement file whose chain of imports through include directories has more packages than there are models",
    "packages at the end of a long chain of imports are not pulled in",
    r'''
put({"p.rsl": "package P\ntype T { n optional Integer }\n", "top.trlc": "package A0\nimport P\nimport A1\nP.T x { }\n"})
for n in range(1, 9):
    put({"inc/a%u.trlc" % n: "package A%u\nimport P\n%sP.T x { }\n" % (n, "import A%u\n" % (n + 1) if n < 8 else "")})
rv, out, err = tool("--no-lint", "--show-file-list", "-I", "inc", "p.rsl", "top.trlc")
check(rv == 0 and "Excluded" not in out, out + err)
''')

bug("c03_three_levels", "C03",
    [(A, "        if self.parent:\n            yield from self.parent.iter_checks()\n        yield from self.checks\n",
      "        ptr = self.parent\n"
      "        while ptr:\n"
      "            yield from ptr.checks\n"
      "            ptr = ptr.parent\n"
      "        yield from self.checks\n")],
    "checks of a type with a base type that has a base type itself, each with checks",
    "the checks of the base of a base type come after those of the base type",
    r'''
put({"m.rsl": "package P\ntype A { n Integer }\ntype B extends A { }\ntype C extends B { }\n"
              "checks A { n > 0, \"first\" }\nchecks B { n > 1, \"second\" }\nchecks C { n > 2, \"third\" }\n",
     "m.trlc": "package P\nC o { n = 0 }\n"})
rv, out, err = tool("--brief", "--no-lint", ".")
check(0 < out.find("first") < out.find("second") < out.find("third"), out)
''')

bug("c06_feasibility_unknown", "C06",
    [(V, "                if status == \"unsat\":\n                    nok_feasibility_checks.append(vc[\"feedback\"])\n",
      "                if status != \"sat\":\n                    nok_feasibility_checks.append(vc[\"feedback\"])\n")],
    "a solver that gives up on all queries about whether a check can be false",
    "checks are reported as always true although the solver gave up",
    SOLVER + r'''
put({"m.rsl": "package P\ntype A { n Integer }\nchecks A { n > 5, error \"small\" }\n"})
rv, out, err = tool("--verify", "--brief", ".", pre=PRE % "!= 'nothing'")
check(rv == 0 and "always" not in out, out + err)
''')

bug("c11_falsy_fields", "C11",
    [(R, "            if value is None or value == \"\":\n                continue\n",
      "            if not value:\n                continue\n")],
    "a field with the value 0, 0.0, false or an empty array",
    "fields with such values are not published",
    r'''
sys.path.insert(0, os.path.join(REPO, "tools", "trlc_rst"))
put({"m.rsl": "package P\ntype A { n Integer b Boolean }\n", "m.trlc": "package P\nA o { n = 0 b = false }\n"})
os.chdir(TMP.name)
import trlc_rst
trlc_rst.TRLCRST(".").render("out.rst", fields=["n", "b"])
text = open("out.rst").read()
check(":N: 0" in text and ":B: False" in text, text)
''')

bug("c07_include_memory", "C07",
    [(T, "class Source_Manager:\n", "_listed = {}\n\n\nclass Source_Manager:\n"),
     (T, "        for path, dirs, files in os.walk(dir_name,\n"
         "                                         onerror=self.unreadable_directory):\n"
         "            for n, dirname in reversed(list(enumerate(dirs))):\n",
      "        # Include directories tend to be large, and stay as they are\n"
      "        key = os.path.abspath(dir_name)\n"
      "        if key not in _listed:\n"
      "            _listed[key] = [(path, list(dirs), files)\n"
      "                            for path, dirs, files in\n"
      "                            os.walk(dir_name,\n"
      "                                    onerror=self.unreadable_directory)]\n"
      "        for path, dirs, files in _listed[key]:\n"
      "            for n, dirname in reversed(list(enumerate(dirs))):\n")],
    "a file added to or removed from an include directory between two runs in one process",
    "later runs use the listing of an include directory from an earlier one",
    r'''
put({"p.rsl": "package P\nimport Q\ntype T { q optional Q.S }\n", "inc/q.rsl": "package Q\ntype S { k optional Integer }\n"})
os.chdir(TMP.name)


def once():
    out, mh, sm = manager()
    sm.register_include("inc")
    sm.register_file("p.rsl")
    return sm.process() is not None, out.getvalue()


check(once()[0], "first run")
os.rename("inc/q.rsl", "inc/r.rsl")
check(once()[0], "second run")
''')
