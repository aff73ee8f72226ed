"""First batch of planted bugs, see seed_lib.py"""
BUGS = []


def bug(ident, prop, edits, needs, breaks, demo):
    BUGS.append({"id": ident, "property": prop, "edits": edits, "needs": needs, "breaks": breaks, "demo": demo})


T = "trlc/trlc.py"
A = "trlc/ast.py"
P = "trlc/parser.py"
E = "trlc/errors.py"
L = "trlc/lexer.py"
V = "trlc/vcg.py"
R = "tools/trlc_rst/trlc_rst.py"

bug("c01_include_order", "C01",
    [(T, "        for file_name in list(sorted(self.includes.values())):\n",
      "        for file_name in list(self.includes.values()):\n")],
    "two included files that both cause an unused-import message, and a file system that lists them in another order",
    "messages about included files come in directory-listing order",
    r'''
put({"main.trlc": "package M\nimport A\nimport B\nA.T x { b = B.E.one }\n",
     "inc/a.rsl": "package A\nimport B\nimport C\ntype T { b B.E }\n",
     "inc/b.rsl": "package B\nimport C\nenum E { one }\n",
     "inc/c.rsl": "package C\nenum F { two }\n"})
PRE = """
import os
_walk = os.walk
def walk(top, *args, **kw):
    for path, dirs, files in _walk(top, *args, **kw):
        dirs.sort(reverse=%s)
        files.sort(reverse=%s)
        yield path, dirs, files
os.walk = walk
"""
one = tool("-I", "inc", "main.trlc", pre=PRE % (False, False))
two = tool("-I", "inc", "main.trlc", pre=PRE % (True, True))
check(one[1].count("unused import") >= 2, one[1])
check(one == two, one[1] + two[1])
''')

bug("c01_cycle_offender", "C01",
    [(T, "                offender = rsl_map[sorted_work_list[0]]\n"
         "                names = {rsl_map[node].cu.package.name:\n"
         "                         rsl_map[node].cu.location\n"
         "                         for node in sorted_work_list[1:]}\n",
      "                # Blame the package with the fewest open imports\n"
      "                first = min(work_list,\n"
      "                            key=lambda n: len(self.dep_graph[n] -\n"
      "                                              processed))\n"
      "                offender = rsl_map[first]\n"
      "                names = {rsl_map[node].cu.package.name:\n"
      "                         rsl_map[node].cu.location\n"
      "                         for node in sorted_work_list\n"
      "                         if node != first}\n")],
    "circular imports between several packages, under another hash seed",
    "which package is blamed for a circular import depends on hash order",
    r'''
put({"%s.rsl" % n: "package %s\nimport %s\n" % (n, m) for n, m in zip("ABCDEF", "BCDEFA")})
outs = {tool(".", seed=str(seed))[:2] for seed in range(12)}
check(len(outs) == 1, outs)
''')

bug("c01_rsl_order", "C01",
    [(T, "            for node in sorted(candidates):\n", "            for node in candidates:\n")],
    "at least two independent packages with messages in their models, under another hash seed",
    "independent packages are parsed, and their messages printed, in hash order",
    r'''
put({"%s.rsl" % n: "package %s\ntype T { x Nope%s }\n" % (n, n) for n in "ABCDEF"})
outs = {tool(".", seed=str(seed))[:2] for seed in range(12)}
check(len(outs) == 1, outs)
''')

bug("c02_link_overwritten", "C02",
    [(T, "                graph[(pkg_name , kind)] |= \\\n"
         "                    {(imported_pkg.name , kind)\n"
         "                     for imported_pkg in parser.cu.imports}\n",
      "                links = {(imported_pkg.name , kind)\n"
      "                         for imported_pkg in parser.cu.imports}\n"
      "                if kind == \"trlc\":\n"
      "                    # The model of the package itself\n"
      "                    links.add((pkg_name , \"rsl\"))\n"
      "                graph[(pkg_name , kind)] = links\n")],
    "one package in several requirement files, where an import occurs only in a file that is not the last one",
    "imports of all but the last requirement file of a package are not followed into the include directories",
    r'''
put({"p.rsl": "package P\ntype T { r optional Q.T }\n".replace("package P\n", "package P\nimport Q\n"),
     "a.trlc": "package P\nimport Q\nT a { r = Q.qq }\n",
     "b.trlc": "package P\nT b { }\n",
     "inc/q.rsl": "package Q\ntype T { n optional Integer }\n",
     "inc/q.trlc": "package Q\nT qq { n = 1 }\n"})
rv, out, err = tool("-I", "inc", "p.rsl", "a.trlc", "b.trlc")
check(rv == 0 and "no issues" in out, out + err)
''')

bug("c02_primary_only", "C02",
    [(T, "        file_list = {file_name\n"
         "                     for node in required\n"
         "                     for file_name in files[node]}\n",
      "        file_list = set()\n"
      "        for node in required:\n"
      "            primary = {file_name\n"
      "                       for file_name in files[node]\n"
      "                       if self.all_files[file_name].primary}\n"
      "            # No need for other files if we were given some explicitly\n"
      "            file_list |= primary or files[node]\n")],
    "a package whose requirement files are partly named explicitly and partly only in an include directory",
    "included members of a package are ignored as soon as one member is named explicitly",
    r'''
put({"m.rsl": "package P\ntype T { r optional T }\n",
     "a.trlc": "package P\nT a { r = b }\n",
     "inc/b.trlc": "package P\nT b { }\n"})
rv, out, err = tool("-I", "inc", "m.rsl", "a.trlc")
check(rv == 0 and "no issues" in out, out + err)
''')

bug("c03_grandparent_checks", "C03",
    [(A, "        if self.parent:\n            yield from self.parent.iter_checks()\n        yield from self.checks\n",
      "        if self.parent:\n            yield from self.parent.checks\n        yield from self.checks\n")],
    "a chain of at least three record types where the root has a check",
    "checks of the grandparent type are not evaluated",
    r'''
put({"m.rsl": "package P\ntype A { n optional Integer }\ntype B extends A { }\ntype C extends B { }\n"
              "checks A { n != null, error \"need n\" }\n",
     "m.trlc": "package P\nC one { }\n"})
rv, out, err = tool("--no-lint", ".")
check(rv == 1 and "need n" in out, out)
''')

bug("c03_fatal_stops_package", "C03",
    [(T, "        for package in self.stab.values(ast.Package):\n"
         "            for obj in package.symbols.values(ast.Record_Object):\n"
         "                try:\n"
         "                    if not obj.perform_checks(self.mh, self.stab):\n"
         "                        ok = False\n"
         "                except TRLC_Error:\n"
         "                    ok = False\n",
      "        for package in self.stab.values(ast.Package):\n"
      "            try:\n"
      "                for obj in package.symbols.values(ast.Record_Object):\n"
      "                    ok &= obj.perform_checks(self.mh, self.stab)\n"
      "            except TRLC_Error:\n"
      "                ok = False\n")],
    "a fatal check that fails for an object, followed by another object of the package with a failing check",
    "a failing fatal check ends the checks of all later objects of the package",
    r'''
put({"m.rsl": "package P\ntype A { n Integer }\nchecks A { n > 0, fatal \"too small\" }\n",
     "m.trlc": "package P\nA o1 { n = 0 }\nA o2 { n = -1 }\nA o3 { n = 3 }\n"})
rv, out, err = tool("--no-lint", "--brief", ".")
check(rv == 1 and out.count("too small") == 2, out)
''')

bug("c03_tuple_first_failure", "C03",
    [(A, "            for check in self.iter_checks():\n"
         "                if not check.perform(mh, value, gstab):\n"
         "                    ok = False\n"
         "            return ok\n",
      "            return ok and all(check.perform(mh, value, gstab)\n"
      "                              for check in self.iter_checks())\n")],
    "a tuple value for which two checks fail",
    "after the first failing check of a tuple its other checks are not evaluated",
    r'''
put({"m.rsl": "package P\ntuple Q { a Integer separator @ b Integer }\n"
              "checks Q { a > 0, error \"bad a\" \n b > 0, error \"bad b\" }\ntype A { q Q }\n",
     "m.trlc": "package P\nA o1 { q = 0 @ 0 }\n"})
rv, out, err = tool("--no-lint", "--brief", ".")
check(rv == 1 and "bad a" in out and "bad b" in out, out)
''')

bug("c04_vanished_include", "C04",
    [(T, "        for file_name in list(sorted(self.includes.values())):\n"
         "            self.register_file(file_name, primary=False)\n",
      "        for file_name in list(sorted(self.includes.values())):\n"
      "            if os.path.isfile(file_name):\n"
      "                self.register_file(file_name, primary=False)\n")],
    "a file of an include directory that disappears between listing and reading (or a dangling link)",
    "a needed file of an include directory that is gone when it should be read is silently left out",
    r'''
put({"m.rsl": "package P\ntype T { n optional Integer }\nchecks T { n != null, warning \"n\" }\n",
     "a.trlc": "package P\nT a { n = 1 }\n",
     "inc/b.trlc": "package P\nT b { n = Nope }\n"})
PRE = """
import os
_walk = os.walk
def walk(top, *args, **kw):
    for item in _walk(top, *args, **kw):
        yield item
    if os.path.exists("inc/b.trlc"):
        os.unlink("inc/b.trlc")
os.walk = walk
"""
rv, out, err = tool("-I", "inc", "m.rsl", "a.trlc", pre=PRE)
check(rv != 0, out + err)
''')

bug("c04_short_read", "C04",
    [(L, "            with open(file_name, \"r\", encoding=\"UTF-8\") as fd:\n"
         "                try:\n"
         "                    super().__init__(mh, fd.read())\n"
         "                except UnicodeDecodeError as err:\n"
         "                    mh.lex_error(Location(file_name), str(err))\n",
      "            # Read everything at once, this is faster for large files\n"
      "            with open(file_name, \"rb\", buffering=0) as fd:\n"
      "                data = fd.read(os.path.getsize(file_name))\n"
      "            try:\n"
      "                text = data.decode(\"UTF-8\")\n"
      "            except UnicodeDecodeError as err:\n"
      "                mh.lex_error(Location(file_name), str(err))\n"
      "            text = text.replace(\"\\r\\n\", \"\\n\").replace(\"\\r\", \"\\n\")\n"
      "            super().__init__(mh, text)\n"),
     (L, "from fractions import Fraction\n", "import os\nfrom fractions import Fraction\n")],
    "a read that returns fewer bytes than asked for, or a file that grows while it is read",
    "a short read silently cuts off the rest of the file",
    r'''
put({"m.rsl": "package P\ntype T { n optional Integer }\n",
     "a.trlc": "package P\n" + "".join("T obj_%u { n = 1 }\n" % n for n in range(50)) + "T bad { n = nope }\n"})
PRE = """
import builtins, io
_open = builtins.open
class Short(io.RawIOBase):
    def __init__(self, fd):
        self.fd = fd
    def readable(self):
        return True
    def readinto(self, buf):
        return self.fd.readinto(memoryview(buf)[:100])
    def read(self, size=-1):
        return self.fd.read(min(size, 185)) if size >= 0 else self.fd.readall()
    def fileno(self):
        return self.fd.fileno()
    def close(self):
        self.fd.close()
        super().close()
def opener(name, mode="r", *args, **kw):
    if str(name).endswith(".trlc"):
        raw = Short(_open(name, "rb", buffering=0))
        if kw.get("buffering") == 0:
            return raw
        buf = io.BufferedReader(raw)
        return buf if "b" in mode else io.TextIOWrapper(buf, encoding="UTF-8")
    return _open(name, mode, *args, **kw)
builtins.open = opener
"""
rv, out, err = tool(".", pre=PRE)
check(rv == 1 and "nope" in out, out + err)
''')

bug("c05_log_not_closed", "C05",
    [(T, "    else:\n        rv = 1\n    mh.close()\n    return rv\n", "    else:\n        rv = 1\n    return rv\n")],
    "a disk that is full when the buffered rest of the log file is written",
    "the log file is closed by the garbage collector, so a failing last write is not reported",
    r'''
put({"m.rsl": "package P\ntype T { n optional Integer }\n", "a.trlc": "package P\nT a { n = 1 }\n"})
rv, out, err = tool("--log", "/dev/full", ".") if os.path.exists("/dev/full") else (None, "", "")
PRE = """
import builtins, io, errno
_open = builtins.open
class Full(io.RawIOBase):
    def writable(self):
        return True
    def write(self, data):
        raise OSError(errno.ENOSPC, "No space left on device")
def opener(name, mode="r", *args, **kw):
    if str(name).endswith("out.log"):
        return io.TextIOWrapper(io.BufferedWriter(Full()), encoding="UTF-8")
    return _open(name, mode, *args, **kw)
builtins.open = opener
"""
check(rv is None or rv != 0, "exit status 0 on a full disk")
rv, out, err = tool("--log", "out.log", ".", pre=PRE)
check(rv != 0, "exit status 0 on a full disk")
''')

bug("c05_close_ignored", "C05",
    [(E, "        if self._owned_file is not None:\n"
         "            self._owned_file.close()\n"
         "            self._owned_file = None\n",
      "        if self._owned_file is not None:\n"
      "            try:\n"
      "                self._owned_file.close()\n"
      "            except OSError:\n"
      "                # Nothing we can do at this point\n"
      "                pass\n"
      "            self._owned_file = None\n")],
    "a --log file on a full disk (or one that fails on close)",
    "a failing write of the log file is ignored",
    r'''
put({"m.rsl": "package P\ntype T { n optional Integer }\n", "a.trlc": "package P\nT a { n = 1 }\n"})
PRE = """
import builtins, io, errno
_open = builtins.open
class Full(io.RawIOBase):
    def writable(self):
        return True
    def write(self, data):
        raise OSError(errno.ENOSPC, "No space left on device")
def opener(name, mode="r", *args, **kw):
    if str(name).endswith("out.log"):
        return io.TextIOWrapper(io.BufferedWriter(Full()), encoding="UTF-8")
    return _open(name, mode, *args, **kw)
builtins.open = opener
"""
rv, out, err = tool("--log", "out.log", ".", pre=PRE)
check(rv != 0, "exit status 0 on a full disk")
''')

SOLVER = r'''
PRE = """
from pyvcg.driver import cvc5_api
_solve = cvc5_api.CVC5_Solver.solve
def solve(self):
    _solve(self)
    if self.result %s:
        self.result = "unknown"
cvc5_api.CVC5_Solver.solve = solve
"""
'''

bug("c06_only_sat", "C06",
    [(V, "                if status != \"unsat\":\n"
         "                    self.mh.check(vc[\"feedback\"].node.location,\n",
      "                if status == \"sat\":\n"
      "                    self.mh.check(vc[\"feedback\"].node.location,\n")],
    "the solver gives up on the query of a possible run-time problem",
    "a potential run-time problem the solver could not decide is not reported",
    SOLVER + r'''
put({"m.rsl": "package P\ntype T { n Integer }\nchecks T { 10 / n > 2, \"potato\" }\n"})
one = tool("--verify", ".")
two = tool("--verify", ".", pre=PRE % "== 'sat'")
check("divisor could be 0" in one[1] and "divisor could be 0" in two[1], two[1])
''')

bug("c06_unknown_is_true", "C06",
    [(V, "                if status == \"unsat\":\n"
         "                    nok_feasibility_checks.append(vc[\"feedback\"])\n"
         "                else:\n"
         "                    ok_feasibility_checks.add(vc[\"feedback\"])\n",
      "                if status == \"sat\":\n"
      "                    ok_feasibility_checks.add(vc[\"feedback\"])\n"
      "                else:\n"
      "                    nok_feasibility_checks.append(vc[\"feedback\"])\n")],
    "the solver gives up on the query whether a check can fail",
    "a check the solver could not decide is reported as always true",
    SOLVER + r'''
put({"m.rsl": "package P\ntype T { n Integer }\nchecks T { n > 2, \"potato\" }\n"})
one = tool("--verify", ".")
two = tool("--verify", ".", pre=PRE % "== 'sat'")
check("always true" not in one[1] and "always true" not in two[1], two[1])
''')

bug("c06_unknown_settles", "C06",
    [(V, "            status, values = vc[\"script\"].solve_vc(solver)\n",
      "            status, values = vc[\"script\"].solve_vc(solver)\n"
      "            if status == \"unknown\" and not vc[\"feedback\"].expect_unsat:\n"
      "                # Just as undecided on any other path\n"
      "                continue\n")],
    "a check with several paths, where the solver gives up on the path on which the check can fail",
    "a check is reported as always true although one of its paths was not decided",
    SOLVER + r'''
put({"m.rsl": "package P\ntype T { n Integer b optional Integer }\n"
              "checks T { (if b == null then true elsif b == b then n > 2 else false), \"potato\" }\n"})
one = tool("--verify", ".")
two = tool("--verify", ".", pre=PRE % "== 'sat'")
check("always true" not in one[1] and "always true" not in two[1], one[1] + two[1])
''')
