"""Second batch of planted bugs, see seed_lib.py"""
from seed_bugs_1 import T, A, P, E, L, R
BUGS = []


def bug(ident, prop, edits, needs, breaks, demo):
    BUGS.append({"id": ident, "property": prop, "edits": edits, "needs": needs, "breaks": breaks, "demo": demo})


INPROC = r'''
def cli(args, cwd):
    """The command line tool in this process"""
    import contextlib
    from trlc.trlc import main
    out = io.StringIO()
    old, argv = os.getcwd(), sys.argv
    os.chdir(cwd)
    sys.argv = ["trlc"] + args
    try:
        with contextlib.redirect_stdout(out):
            rv = main()
    finally:
        os.chdir(old)
        sys.argv = argv
    return rv, out.getvalue()


def run(files, text=None, **kw):
    """One run through the API on explicit content"""
    out, mh, sm = manager(**kw)
    for name in sorted(files):
        sm.register_file(os.path.join(TMP.name, name), files[name])
    stab = sm.process()
    objs = None
    if stab is not None:
        objs = {o.fully_qualified_name(): (o.to_python_dict(), [s.name for s in o.section or []])
                for o in stab.iter_record_objects()}
    return out.getvalue().replace(TMP.name, ""), objs
'''

bug("c07_shared_suppress", "C07",
    [(E, "        self.suppress_kind = set()\n", ""),
     (E, "    def __init__(self, brief=False, detailed_info=True,\n",
      "    suppress_kind = set()\n\n    def __init__(self, brief=False, detailed_info=True,\n")],
    "a run with --no-user-warnings earlier in the same process",
    "message kinds suppressed by one run stay suppressed in all later runs of the process",
    INPROC + r'''
put({"m.rsl": "package P\ntype T { n Integer }\nchecks T { n > 0, warning \"potato\" }\n",
     "m.trlc": "package P\nT o1 { n = 0 }\n"})
one = cli(["."], TMP.name)
cli(["--no-user-warnings", "."], TMP.name)
two = cli(["."], TMP.name)
check(one == two and "potato" in one[1], two)
''')

bug("c07_shared_section", "C07",
    [(P, "        self.section = []\n        self.default_scope = ast.Scope()\n",
      "        self.default_scope = ast.Scope()\n"),
     (P, "    def parse_described_name(self):\n",
      "    section = []\n    # The currently open sections\n\n    def parse_described_name(self):\n")],
    "a run that stops inside a section, followed by another run in the same process",
    "sections left open by an aborted run become parents of the records of later runs",
    INPROC + r'''
MODEL = "package P\ntype T { n optional Integer }\n"
put({"m.rsl": MODEL, "m.trlc": ""})
good = {"m.rsl": MODEL, "m.trlc": "package P\nT o1 { n = 1 }\nsection \"A\" { T o2 { } }\n"}
one = run(good)
run({"m.rsl": MODEL, "m.trlc": "package P\nsection \"X\" { T o1 { n = 1 \n"})
two = run(good)
check(one == two, (one, two))
''')

bug("c07_content_cache", "C07",
    [(L, "            with open(file_name, \"r\", encoding=\"UTF-8\") as fd:\n"
         "                try:\n"
         "                    super().__init__(mh, fd.read())\n"
         "                except UnicodeDecodeError as err:\n"
         "                    mh.lex_error(Location(file_name), str(err))\n",
      "            # Avoid reading unchanged files again and again\n"
      "            key = (os.path.abspath(file_name), os.path.getsize(file_name))\n"
      "            if key not in TRLC_Lexer.CONTENT_CACHE:\n"
      "                with open(file_name, \"r\", encoding=\"UTF-8\") as fd:\n"
      "                    try:\n"
      "                        TRLC_Lexer.CONTENT_CACHE[key] = fd.read()\n"
      "                    except UnicodeDecodeError as err:\n"
      "                        mh.lex_error(Location(file_name), str(err))\n"
      "            super().__init__(mh, TRLC_Lexer.CONTENT_CACHE[key])\n"),
     (L, "    PUNCTUATION = {\n", "    CONTENT_CACHE = {}\n\n    PUNCTUATION = {\n"),
     (L, "from fractions import Fraction\n", "import os\nfrom fractions import Fraction\n")],
    "an edit of a file that keeps its size, between two runs of one process",
    "the second run works on the old content of the file",
    INPROC + r'''
def disk():
    out, mh, sm = manager()
    sm.register_directory(TMP.name)
    stab = sm.process()
    return {o.name: o.to_python_dict() for o in stab.iter_record_objects()}
put({"m.rsl": "package P\ntype T { n optional Integer }\n", "m.trlc": "package P\nT o1 { n = 1 }\n"})
one = disk()
put({"m.trlc": "package P\nT o1 { n = 2 }\n"})
two = disk()
check(one == {"o1": {"n": 1}} and two == {"o1": {"n": 2}}, (one, two))
''')

bug("c07_shared_excludes", "C07",
    [(T, "        self.exclude_patterns = []\n        self.common_root      = None\n",
      "        self.common_root      = None\n"),
     (T, "    def __init__(self, mh,\n                 lint_mode      = True,\n",
      "    exclude_patterns = []\n\n    def __init__(self, mh,\n                 lint_mode      = True,\n")],
    "a command line run without --include-bazel-dirs before a run that should see a bazel-* directory",
    "directories excluded by one run are excluded in all later runs of the process",
    INPROC + r'''
put({"m.rsl": "package P\ntype T { n optional Integer }\n", "bazel-x/m.trlc": "package P\nT o1 { n = nope }\n"})
one = cli(["--include-bazel-dirs", "."], TMP.name)
cli(["."], TMP.name)
two = cli(["--include-bazel-dirs", "."], TMP.name)
check(one == two and one[0] == 1, two)
''')

bug("c08_dedup", "C08",
    [(E, "            if context:\n                assert len(context) == 2\n",
      "            if msg == self.last_msg:\n"
      "                # Do not repeat ourselves\n"
      "                pass\n"
      "            elif context:\n                assert len(context) == 2\n"),
     (E, "        self.suppress_kind = set()\n", "        self.suppress_kind = set()\n        self.last_msg      = None\n"),
     (E, "        if fatal:\n            raise TRLC_Error(location, kind, message)\n",
      "            self.last_msg = msg\n\n        if fatal:\n            raise TRLC_Error(location, kind, message)\n")],
    "two different diagnostics with the same text on the same line (as two failing checks of two tuples on one line)",
    "the second of two diagnostics with the same text and line is counted but not printed",
    r'''
put({"m.rsl": "package P\ntuple Q { a Integer separator @ b Integer }\n"
              "checks Q { a > 0, warning \"small\" }\ntype T { q Q [0 .. 5] }\n",
     "m.trlc": "package P\nT o1 { q = [0 @ 1, 0 @ 2, 0 @ 3] }\n"})
rv, out, err = tool("--no-lint", ".")
check(out.count("check warning: small") == 3 and "3 warnings" in out, out)
''')

bug("c08_suppressed_not_counted", "C08",
    [(E, "            kind = Kind.USER_WARNING\n        else:\n            kind = Kind.SYS_WARNING\n\n        self.warnings += 1\n",
      "            kind = Kind.USER_WARNING\n        else:\n            kind = Kind.SYS_WARNING\n\n"
      "        if kind not in self.suppress_kind:\n            self.warnings += 1\n")],
    "--no-user-warnings together with other warnings",
    "with both suppressed and other warnings the number of warnings in the summary is too small",
    r'''
put({"m.rsl": "package P\nimport Q\ntype T { n Integer }\nchecks T { n > 0, warning \"small\" }\n",
     "q.rsl": "package Q\nimport R\nenum E { A }\n", "r.rsl": "package R\nenum E { A }\n",
     "m.trlc": "package P\nimport Q\nimport R\nT o1 { n = 0 }\nT o2 { n = 0 }\n"})
one = tool(".")
two = tool("--no-user-warnings", ".")
def count(out):
    return [w for w in out[1].split("found ")[-1].split() if w.isdigit()][0]
check(count(one) == count(two), one[1] + two[1])
''')

bug("c08_error_on_warnings", "C08",
    [(T, "        if (options.error_on_warnings and mh.warnings) or mh.errors:  # pragma: no cover\n",
      "        if (options.error_on_warnings and\n"
      "                mh.warnings > mh.suppressed) or mh.errors:  # pragma: no cover\n")],
    "--error-on-warnings together with --no-user-warnings, where all warnings are suppressed ones",
    "warnings that are counted in the summary do not lead to exit status 1 under --error-on-warnings",
    r'''
put({"m.rsl": "package P\ntype T { n Integer }\nchecks T { n > 0, warning \"small\" }\n",
     "m.trlc": "package P\nT o1 { n = 0 }\n"})
rv, out, err = tool("--no-user-warnings", "--error-on-warnings", ".")
check("1 warning" not in out or rv == 1, (rv, out))
''')

bug("c09_object_at_eof", "C09",
    [(P, "        self.match(\"C_BRA\")\n        obj.set_ast_link(self.ct)\n        while not self.peek(\"C_KET\"):\n"
         "            self.match(\"IDENTIFIER\")\n            comp = r_typ.components.lookup(self.mh,\n",
      "        self.match(\"C_BRA\")\n        obj.set_ast_link(self.ct)\n"
      "        while not (self.peek(\"C_KET\") or self.peek_eof()):\n"
      "            self.match(\"IDENTIFIER\")\n            comp = r_typ.components.lookup(self.mh,\n"),
     (P, "                         self.mh.cross_file_reference(comp.location)))\n\n        self.match(\"C_KET\")\n"
         "        obj.set_ast_link(self.ct)\n\n        return obj\n",
      "                         self.mh.cross_file_reference(comp.location)))\n\n        if not self.peek_eof():\n"
      "            self.match(\"C_KET\")\n        obj.set_ast_link(self.ct)\n\n        return obj\n")],
    "a requirement file cut off inside its last object, after all mandatory components",
    "a cut-off file is accepted with an incomplete last object",
    r'''
put({"m.rsl": "package P\ntype T { n Integer m optional Integer }\n",
     "m.trlc": "package P\nT o1 { n = 1 m = 2 }\nT o2 { n = 3\n"})
rv, out, err = tool(".")
check(rv == 1, out)
''')

bug("c09_array_at_eof", "C09",
    [(P, "            while not self.peek(\"S_KET\"):\n"
         "                array_elem = self.parse_value(typ.element_type)\n",
      "            while not self.peek(\"S_KET\"):\n"
      "                # Allow a trailing comma\n"
      "                if self.ct.kind == \"COMMA\" and self.nt.kind == \"C_KET\":\n"
      "                    break\n"
      "                array_elem = self.parse_value(typ.element_type)\n")],
    "a file that ends right after a comma inside an array",
    "the tool crashes on a file cut off after a comma of an array",
    r'''
put({"m.rsl": "package P\ntype T { n Integer [0 .. 9] }\n", "m.trlc": "package P\nT o1 { n = [1, 2,"})
rv, out, err = tool(".")
check(rv == 1 and "Traceback" not in err and "1 error" in out, out + err)
''')

bug("c09_comment_hang", "C09",
    [(L, "            while self.nc and not (self.cc == \"*\" and self.nc == \"/\"):\n",
      "            while not (self.cc == \"*\" and self.nc == \"/\"):\n")],
    "a file cut off inside a /* */ comment",
    "the tool never ends",
    """
put({"m.rsl": "package P\\ntype T { n optional Integer }\\n", "m.trlc": "package P\\nT o1 { n = 1 }\\n/* hello"})
run = subprocess.run(["timeout", "20", sys.executable, "-m", "trlc", "."], cwd=TMP.name,
                     env=dict(os.environ, PYTHONPATH=REPO), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
check(run.returncode in (0, 1), run.returncode)
""")

bug("c10_early_reference", "C10",
    [(P, "            # We can do an early lookup if the target is known\n"
         "            if the_pkg.symbols.contains(t_name.value):\n"
         "                rv.resolve_references(self.mh)\n",
      "            # We can do an early lookup if the target is known\n"
      "            if the_pkg.symbols.contains(t_name.value):\n"
      "                rv.target = the_pkg.symbols.lookup(self.mh,\n"
      "                                                   t_name,\n"
      "                                                   ast.Record_Object)\n"),
     (A, "        self.target = self.package.symbols.lookup_direct(\n"
         "            mh                = mh,\n"
         "            name              = self.name,\n"
         "            error_location    = self.location,\n"
         "            required_subclass = Record_Object)\n"
         "        if self.typ is None:\n",
      "        if self.target is not None and isinstance(self.typ, Union_Type):\n"
      "            # Already done\n"
      "            return\n\n"
      "        self.target = self.package.symbols.lookup_direct(\n"
      "            mh                = mh,\n"
      "            name              = self.name,\n"
      "            error_location    = self.location,\n"
      "            required_subclass = Record_Object)\n"
      "        if self.typ is None:\n")],
    "a reference of a union type to an object of a wrong type that was declared before it",
    "a wrong reference is accepted if the target happens to be known already",
    r'''
model = "package P\ntype A { }\ntype B { }\ntype C { }\ntype T { r [A, B] }\n"
put({"m.rsl": model, "m1.trlc": "package P\nT o1 { r = x1 }\n", "m2.trlc": "package P\nC x1 { }\n"})
one = tool(".")
put({"m1.trlc": "package P\nC x1 { }\n", "m2.trlc": "package P\nT o1 { r = x1 }\n"})
two = tool(".")
check(one[0] == 1 and two[0] == 1, one[1] + two[1])
''')

bug("c10_deep_section", "C10",
    [(P, "            section   = self.section.copy() if self.section else None,\n",
      "            section   = self.section[-3:] if self.section else None,\n")],
    "sections nested more than three levels deep",
    "the outer sections of a deeply nested record are lost",
    r'''
put({"m.rsl": "package P\ntype T { }\n",
     "m.trlc": "package P\n" + "".join("section \"S%u\" {\n" % n for n in range(5)) + "T o1 { }\n" + "}" * 5 + "\n"})
out, mh, sm = manager()
sm.register_directory(TMP.name)
objs = list(sm.process().iter_record_objects())
check([s.name for s in objs[0].section] == ["S0", "S1", "S2", "S3", "S4"], objs[0].section)
''')

bug("c11_same_name_anywhere", "C11",
    [(R, "                for to_node in to_tree.children:\n"
         "                    if to_node.name == from_node.name:\n"
         "                        found = True\n"
         "                        to_tree = to_node\n"
         "                        break\n",
      "                for to_node in preorder_iter(to_tree):\n"
      "                    if not to_node.is_leaf and not to_node.is_root \\\n"
      "                       and to_node.name == from_node.name:\n"
      "                        found = True\n"
      "                        to_tree = to_node\n"
      "                        break\n")],
    "a section that has the same name as a section nested in another one",
    "records are rendered beneath another section of the same name",
    r'''
sys.path.insert(0, os.path.join(REPO, "tools", "trlc_rst"))
from trlc_rst import TRLCRST
put({"m.rsl": "package P\ntype T { description String }\n",
     "m.trlc": "package P\nsection \"A\" { section \"B\" { T o1 { description = \"one\" } } }\n"
               "section \"B\" { T o2 { description = \"two\" } }\n"})
TRLCRST(TMP.name).render(os.path.join(TMP.name, "out.rst"))
text = open(os.path.join(TMP.name, "out.rst")).read()
check(text.split("\n").count("B") == 2, text)
''')

bug("c11_open_before_parse", "C11",
    [(R, "        self.parse_trlc_files()\n        self.convert_symbols_to_tree(records)\n"
         "        self.render_to_file(output_path, title=title, fields=fields)\n",
      "        # Fail early if we cannot write there\n"
      "        with open(output_path, \"w\", newline=\"\", encoding=\"utf-8\"):\n"
      "            self.parse_trlc_files()\n            self.convert_symbols_to_tree(records)\n"
      "        self.render_to_file(output_path, title=title, fields=fields)\n")],
    "an input error while an output file of an earlier run exists",
    "the old output file is emptied although the inputs cannot be parsed",
    r'''
put({"m.rsl": "package P\ntype T { description String }\n", "m.trlc": "package P\nT o1 { description = nope }\n",
     "out.rst": "precious\n"})
run = subprocess.run([sys.executable, os.path.join(REPO, "tools", "trlc_rst", "trlc_rst.py"), "--input-dir", TMP.name,
                      "--output", os.path.join(TMP.name, "out.rst")], env=dict(os.environ, PYTHONPATH=REPO),
                     stdout=subprocess.PIPE, stderr=subprocess.PIPE)
text = open(os.path.join(TMP.name, "out.rst")).read()
check(run.returncode != 0 and text == "precious\n", (run.returncode, text))
''')


bug("c11_filter_cached", "C11",
    [(R, "        return {o.fully_qualified_name(): o for o in self._iter_filtered_objects(records)}\n",
      "        if self._object_map is None:\n"
      "            self._object_map = {\n"
      "                o.fully_qualified_name(): o for o in self._iter_filtered_objects(records)\n"
      "            }\n"
      "        return self._object_map\n"),
     (R, "        self._symbols = symbols\n\n", "        self._symbols = symbols\n        self._object_map = None\n\n")],
    "two queries with different record filters on one renderer",
    "the record filter of the first query is used for all later ones",
    r"""
sys.path.insert(0, os.path.join(REPO, "tools", "trlc_rst"))
from trlc_rst import TRLCRST
put({"m.rsl": "package P\ntype T { description String }\n",
     "m.trlc": "package P\nT o1 { description = \"one\" }\nT o2 { description = \"two\" }\n"})
r = TRLCRST(TMP.name)
r.parse_trlc_files()
one = r.render_table_to_string(["description"], fqns=["P.o1", "P.o2"])
r2 = TRLCRST(TMP.name)
r2.parse_trlc_files()
r2.render_table_to_string(["description"], fqns=["P.o1"], records={"P.o1"})
two = r2.render_table_to_string(["description"], fqns=["P.o1", "P.o2"])
check(one == two and "o2" in one, two)
""")

CALLS = r"""
from trlc.errors import Message_Handler
from trlc.trlc import Source_Manager
class SM(Source_Manager):
    def __init__(self, *args, **kw):
        super().__init__(*args, **kw)
        self.calls = []
        self.cancel = None
    def note(self, what):
        self.calls.append(what)
        if self.cancel == len(self.calls):
            raise KeyboardInterrupt("cancelled")
    def callback_parse_begin(self):
        self.note("begin")
    def callback_parse_progress(self, progress):
        self.note(progress)
    def callback_parse_end(self):
        self.note("end")
"""

bug("c12_end_missing", "C12",
    [(T, "        if not self.resolve_record_references():\n            self.callback_parse_end()\n            return False\n",
      "        if not self.resolve_record_references():\n            return False\n")],
    "a reference that cannot be resolved",
    "the end callback is not made if references cannot be resolved",
    CALLS + r"""
put({"m.rsl": "package P\ntype T { r optional T }\n", "m.trlc": "package P\nT o1 { r = o2 }\n"})
sm = SM(Message_Handler(out=io.StringIO()))
sm.register_directory(TMP.name)
sm.process()
check(sm.calls[:1] == ["begin"] and sm.calls[-1:] == ["end"] and sm.calls.count("end") == 1, sm.calls)
""")

bug("c12_total_counts_all", "C12",
    [(T, "        self.progress_final = len(file_list)\n",
      "        self.progress_final = max(len(file_list),\n"
      "                                  len(self.rsl_files) +\n"
      "                                  len([p for p in self.trlc_files.values()\n"
      "                                       if p.primary]))\n")],
    "include directories with models that are not needed",
    "progress does not reach 100 if some included models are not needed",
    CALLS + r"""
put({"main/m.rsl": "package P\ntype T { }\n", "main/m.trlc": "package P\nT o1 { }\n",
     "inc/a.rsl": "package A\ntype T { }\n", "inc/b.rsl": "package B\ntype T { }\n"})
sm = SM(Message_Handler(out=io.StringIO()))
sm.register_include(os.path.join(TMP.name, "inc"))
sm.register_directory(os.path.join(TMP.name, "main"))
check(sm.process() is not None, "")
check(sm.calls[-2] == 100, sm.calls)
""")

bug("c12_end_after_cancel", "C12",
    [(T, "        if self.process_files() and self.mh.errors <= self.old_errors:\n            return self.stab\n",
      "        if self.process_files() and self.mh.errors <= self.old_errors:\n            return self.stab\n")]
    if False else
    [(T, "        # Parse TRLC files. Almost all the semantic analysis and name\n"
         "        # resolution happens here, with the notable exception of resolving\n"
         "        # record references (as we can have circularity here).\n"
         "        if not self.parse_trlc_files():  # pragma: no cover\n"
         "            self.callback_parse_end()\n"
         "            return False\n",
      "        # Parse TRLC files. Almost all the semantic analysis and name\n"
      "        # resolution happens here, with the notable exception of resolving\n"
      "        # record references (as we can have circularity here).\n"
      "        parsed = False\n"
      "        try:\n"
      "            parsed = self.parse_trlc_files()\n"
      "        finally:\n"
      "            if not parsed:\n"
      "                self.callback_parse_end()\n"
      "        if not parsed:\n"
      "            return False\n")],
    "a callback that raises while requirement files are parsed",
    "the end callback is made after the run was cancelled",
    CALLS + r"""
put({"m.rsl": "package P\ntype T { }\n", "a.trlc": "package P\nT o1 { }\n", "b.trlc": "package P\nT o2 { }\n"})
for n in range(1, 5):
    sm = SM(Message_Handler(out=io.StringIO()))
    sm.register_directory(TMP.name)
    sm.cancel = n
    try:
        sm.process()
        check(False, "not cancelled")
    except KeyboardInterrupt:
        pass
    check(len(sm.calls) == n, sm.calls)
""")

bug("c13_quantifier_leaks", "C13",
    [(A, "                                          copy(composite_object.field),\n",
      "                                          composite_object.field,\n"),
     (A, "            new_ctx = copy(context)\n\n        # This is going to be a bit tricky.",
      "            new_ctx = context\n\n        # This is going to be a bit tricky.")],
    "a check with a quantified expression, and a look at the fields of the object afterwards",
    "evaluating checks adds fields to the objects",
    r"""
put({"m.rsl": "package P\ntype T { n Integer [1 .. 5] }\nchecks T { (forall x in n => x > 0), error \"small\" }\n",
     "m.trlc": "package P\nT o1 { n = [1, 2] }\n"})
out, mh, sm = manager()
sm.register_directory(TMP.name)
obj = list(sm.process().iter_record_objects())[0]
check(obj.to_python_dict() == {"n": [1, 2]}, obj.to_python_dict())
""")

bug("c13_values_reorders", "C13",
    [(A, "        return [x.to_python_object() for x in self.value]\n",
      "        self.value.sort(key=lambda x: x.location.line_no)\n"
      "        return [x.to_python_object() for x in self.value]\n")]
    if False else
    [(A, "        for name in sorted(self.table):\n"
         "            if subtype is None or isinstance(self.table[name], subtype):\n"
         "                yield self.table[name]\n",
      "        for name in sorted(self.table):\n"
      "            # Keep it sorted, so that this is faster the next time\n"
      "            self.table.move_to_end(name)\n"
      "            if subtype is None or isinstance(self.table[name], subtype):\n"
      "                yield self.table[name]\n")],
    "two iterations over the record objects with a query by type (or a check run) in between",
    "the order in which objects are returned changes after another query",
    r"""
put({"m.rsl": "package P\ntype T { }\n", "m.trlc": "package P\nT oc { }\nT ob { }\nT oa { }\n"})
out, mh, sm = manager()
sm.register_directory(TMP.name)
stab = sm.process()
one = [o.name for o in stab.iter_record_objects()]
from trlc import ast
for pkg in stab.values(ast.Package):
    list(pkg.symbols.values(ast.Record_Object))
two = [o.name for o in stab.iter_record_objects()]
check(one == two == ["oc", "ob", "oa"], (one, two))
""")

bug("c14_empty_content", "C14",
    [(L, "        if file_content is None:\n", "        if not file_content:\n")],
    "a file registered with empty explicit content",
    "a file registered with explicit but empty content is read from disk",
    r"""
put({"m.rsl": "package P\ntype T { }\n", "m.trlc": "package P\nT o1 { }\n"})
out, mh, sm = manager()
sm.register_file(os.path.join(TMP.name, "m.rsl"))
sm.register_file(os.path.join(TMP.name, "m.trlc"), "")
stab = sm.process()
check(stab is None and mh.errors == 1, out.getvalue())
""")

bug("c14_context_from_disk", "C14",
    [(L, "    def context_lines(self):\n        line = \"\"\n        n = self.start_pos\n",
      "    def context_lines(self):\n"
      "        if self.line_no > 200:\n"
      "            # Faster for large files\n"
      "            line = linecache.getline(self.file_name, self.line_no)\n"
      "            if line:\n"
      "                line = line.rstrip(\"\\n\")\n"
      "                return [line.lstrip(),\n"
      "                        \" \" * (self.col_no - 1 - len(line) +\n"
      "                               len(line.lstrip())) +\n"
      "                        \"^\" * min(self.end_pos + 1 - self.start_pos,\n"
      "                                  len(line) - self.col_no + 1)]\n"
      "        line = \"\"\n        n = self.start_pos\n"),
     (L, "from fractions import Fraction\n", "import linecache\nfrom fractions import Fraction\n")],
    "a diagnostic beyond line 200 of a file that changed after it was registered",
    "the quoted source line comes from the changed file on disk",
    r"""
body = "package P\n" + "".join("T obj_%u { n = 1 }\n" % n for n in range(250))
put({"m.rsl": "package P\ntype T { n Integer }\n", "m.trlc": body + "T bad { n = nope }\n"})
out, mh, sm = manager()
sm.register_directory(TMP.name)
put({"m.trlc": body + "T changed { n = something_else }\n"})
sm.process()
check("T bad { n = nope }" in out.getvalue() and "something_else" not in out.getvalue(), out.getvalue())
""")

bug("c14_reread_imports", "C14",
    [("trlc/lint.py", "                import_tokens = [t for t in file.lexer.tokens\n"
                      "                                 if t.value == item.name]\n",
      "                if not Linter.mentions(file.lexer.file_name, item.name):\n"
      "                    continue\n"
      "                import_tokens = [t for t in file.lexer.tokens\n"
      "                                 if t.value == item.name]\n"),
     ("trlc/lint.py", "    def verify_imports(self):\n",
      "    @staticmethod\n"
      "    def mentions(file_name, name):\n"
      "        # Quick test before we look at all tokens\n"
      "        try:\n"
      "            with open(file_name, \"r\", encoding=\"UTF-8\") as fd:\n"
      "                return name in fd.read()\n"
      "        except OSError:\n"
      "            return False\n\n"
      "    def verify_imports(self):\n")],
    "a file with an unused import that is changed or deleted after it was registered",
    "messages about unused imports depend on what is on disk when the run ends",
    r"""
put({"m.rsl": "package P\nimport Q\ntype T { n Integer }\n", "q.rsl": "package Q\ntype T { n Integer }\n"})
out, mh, sm = manager()
sm.register_directory(TMP.name)
os.unlink(os.path.join(TMP.name, "m.rsl"))
sm.process()
check("unused import Q" in out.getvalue(), out.getvalue())
""")

bug("c15_stop_after_bad_file", "C15",
    [(T, "            try:\n                ok &= parser.parse_trlc_file()\n            except TRLC_Error:\n                ok = False\n",
      "            try:\n                ok &= parser.parse_trlc_file()\n            except TRLC_Error:\n                ok = False\n"
      "                break\n")],
    "a requirement file with a stray token after its last object, and errors in a later file",
    "errors in the files after one that cannot be recovered are not reported",
    r"""
put({"m.rsl": "package P\ntype T { n Integer }\n", "a.trlc": "package P\nT o1 { n = 1 }\n}\n",
     "b.trlc": "package P\nT o2 { n = nope }\n"})
rv, out, err = tool(".")
check("a.trlc:3" in out and "b.trlc:2" in out, out)
""")

bug("c15_bad_model_stops_all", "C15",
    [(T, "                processed.add(node)\n\n            work_list -= candidates\n",
      "                processed.add(node)\n\n            work_list -= candidates\n"
      "            if not ok and len(processed) < len(work_list):\n"
      "                # Most of the rest would only give follow-on errors\n"
      "                break\n")],
    "an error in a model on which nothing depends, and errors in models that are deeper in the dependency graph",
    "errors in models of unrelated packages are not reported",
    r"""
put({"a.rsl": "package A\ntype T { n Nope }\n", "b.rsl": "package B\ntype T { }\n"})
put({"c%u.rsl" % n: "package C%u\nimport B\ntype T { n NopeC%u }\n" % (n, n) for n in range(4)})
rv, out, err = tool("--no-lint", ".")
check(all("NopeC%u" % n in out for n in range(4)), out)
""")

bug("c15_recover_to_end", "C15",
    [(P, "                        if isinstance(n_sym, ast.Package):\n                            break\n",
      "                        if isinstance(n_sym, ast.Package) and \\\n"
      "                           n_sym != self.cu.package:\n                            break\n"),
     (P, "                        if isinstance(n_sym, ast.Record_Type):\n                            break\n",
      "                        if isinstance(n_sym, ast.Record_Type) and \\\n"
      "                           not n_sym.is_final:\n                            break\n")],
    "x", "x", "")
BUGS.pop()
