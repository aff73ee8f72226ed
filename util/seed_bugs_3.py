"""Third batch of planted bugs, see seed_lib.py"""
from seed_bugs_1 import T, A, P, E, L, V, R, SOLVER
BUGS = []


def bug(ident, prop, edits, needs, breaks, demo):
    BUGS.append({"id": ident, "property": prop, "edits": edits, "needs": needs, "breaks": breaks, "demo": demo})


bug("c02_model_only_package", "C02",
    [(T, "            work_list |= (graph[node] - required) & set(graph)\n",
      "            # Packages without files of this kind cannot contribute\n"
      "            work_list |= {n for n in (graph[node] - required) & set(graph)\n"
      "                          if files[n]}\n")],
    "a requirement file that imports a package which has only a model, found in an include directory",
    "the model of a package without requirement files is not pulled in by imports of requirement files",
    r'''
put({"p.rsl": "package P\ntype T { n optional Integer }\n",
     "a.trlc": "package P\nimport Q\nQ.S a { k = 1 }\n",
     "inc/q.rsl": "package Q\ntype S { k optional Integer }\n"})
rv, out, err = tool("-I", "inc", "p.rsl", "a.trlc")
check(rv == 0 and "no issues" in out, out + err)
''')

bug("c02_same_name", "C02",
    [(T, "            self.includes.update(\n"
         "                {os.path.abspath(full_name): full_name\n"
         "                 for full_name in\n"
         "                   (os.path.join(path, file_name)\n"
         "                    for file_name in files\n"
         "                    if os.path.splitext(file_name)[1] in (\".rsl\",\n"
         "                                                          \".trlc\"))})\n",
      "            for file_name in files:\n"
      "                if os.path.splitext(file_name)[1] not in (\".rsl\", \".trlc\"):\n"
      "                    continue\n"
      "                full_name = os.path.normpath(os.path.join(path, file_name))\n"
      "                # Files may be reachable from more than one include\n"
      "                # directory, e.g. -I lib -I lib/extra\n"
      "                if any(item.endswith(os.sep + full_name) or\n"
      "                       item == full_name\n"
      "                       for item in self.includes):\n"
      "                    continue\n"
      "                self.includes[os.path.abspath(full_name)] = full_name\n")],
    "two include directories given by relative paths, where one path is a tail of the path of the other (-I x/lib -I lib)",
    "files of an include directory are taken for files of another directory with the same tail and are left out",
    r'''
put({"p.rsl": "package P\nimport Q\nimport R\ntype T { q optional Q.S r optional R.S }\n",
     "x/lib/a.rsl": "package Q\ntype S { k optional Integer }\n",
     "lib/a.rsl": "package R\ntype S { k optional Integer }\n"})
rv, out, err = tool("-I", "x/lib", "-I", "lib", "p.rsl")
check(rv == 0 and "no issues" in out, out + err)
''')

bug("c03_same_message_inherited", "C03",
    [(A, "        if self.parent:\n            yield from self.parent.iter_checks()\n        yield from self.checks\n",
      "        seen = set()\n"
      "        if self.parent:\n"
      "            for check in self.parent.iter_checks():\n"
      "                seen.add(check.message)\n"
      "                yield check\n"
      "        for check in self.checks:\n"
      "            # Redefined checks would only repeat the message\n"
      "            if check.message not in seen:\n"
      "                yield check\n")],
    "an extension with a check that has the same message as a check of the base type",
    "a check with the message of an inherited check is not evaluated",
    r'''
put({"m.rsl": "package P\ntype A { n Integer }\ntype B extends A { }\n"
              "checks A { n > 0, error \"bad n\" }\nchecks B { n < 9, error \"bad n\" }\n",
     "m.trlc": "package P\nB o1 { n = 20 }\n"})
rv, out, err = tool("--no-lint", ".")
check(rv == 1 and "bad n" in out, out)
''')

bug("c03_evaluation_failure_stops", "C03",
    [(T, "                try:\n"
         "                    if not obj.perform_checks(self.mh, self.stab):\n"
         "                        ok = False\n"
         "                except TRLC_Error:\n"
         "                    ok = False\n",
      "                try:\n"
      "                    if not obj.perform_checks(self.mh, self.stab):\n"
      "                        ok = False\n"
      "                except TRLC_Error as err:\n"
      "                    ok = False\n"
      "                    if err.kind == Kind.SYS_ERROR:\n"
      "                        # The check is broken, it would fail again\n"
      "                        break\n")],
    "a check that cannot be evaluated for one object, followed by an object of the same package with a failing check",
    "a failed evaluation ends the checks of all later objects of the package",
    r'''
put({"m.rsl": "package P\ntype A { n Integer m optional Integer }\nchecks A { n > 0, error \"too small\" \n m > 2, error \"m\" }\n",
     "m.trlc": "package P\nA o1 { n = 1 }\nA o2 { n = -1 m = 5 }\n"})
rv, out, err = tool("--no-lint", "--brief", ".")
check(rv == 1 and out.count("too small") == 1, out)
''')

bug("c05_transient_summary", "C05",
    [(T, "    print(summary, file=mh.out)\n",
      "    try:\n"
      "        print(summary, file=mh.out, flush=True)\n"
      "    except BrokenPipeError:\n"
      "        # Nobody is interested in the summary\n"
      "        devnull = os.open(os.devnull, os.O_WRONLY)\n"
      "        os.dup2(devnull, sys.stdout.fileno())\n")],
    "a reader that closes standard output before the summary is written",
    "a broken pipe at the summary does not lead to exit status 141",
    r'''
put({"m.rsl": "package P\ntype T { n optional Integer }\n", "a.trlc": "package P\nT a { n = 1 }\n"})
r, w = os.pipe()
os.close(r)
run = subprocess.run([sys.executable, "-m", "trlc", "."], cwd=TMP.name, stdout=w, stderr=subprocess.PIPE,
                     env=dict(os.environ, PYTHONPATH=REPO), timeout=60)
check(run.returncode == 141, run.returncode)
''')

PATCHED = r'''
PRE = """
from pyvcg.driver import cvc5_api
_solve = cvc5_api.CVC5_Solver.solve
def solve(self):
    _solve(self)
    if self.result == "sat":
        self.result = "unknown"
        self.values = %s
cvc5_api.CVC5_Solver.solve = solve
"""
'''

bug("c06_unknown_without_model", "C06",
    [(V, "                if status != \"unsat\":\n"
         "                    self.mh.check(vc[\"feedback\"].node.location,\n",
      "                # Without a model we cannot say anything useful\n"
      "                if status == \"sat\" or (status == \"unknown\" and values):\n"
      "                    self.mh.check(vc[\"feedback\"].node.location,\n")],
    "a solver that gives up without any candidate values",
    "a potential run-time problem is not reported if the solver gives up without values",
    PATCHED + r'''
put({"m.rsl": "package P\ntype T { n Integer }\nchecks T { 10 / n > 2, \"potato\" }\n"})
one = tool("--verify", ".")
two = tool("--verify", ".", pre=PRE % "{}")
check("divisor could be 0" in one[1] and "divisor could be 0" in two[1], two[1])
''')

bug("c06_partial_values", "C06",
    [(V, "            if status == \"unknown\" and (id_value not in values or\n"
         "                                        id_valid not in values):\n"
         "                rv.append(\"    %s = ???\" % n_component.name)\n"
         "            elif values.get(id_valid):\n",
      "            if status == \"unknown\" and not values:\n"
      "                rv.append(\"    %s = ???\" % n_component.name)\n"
      "            elif values.get(id_valid):\n")],
    "a solver that gives up with values for some of the components only",
    "static verification crashes on partial candidate values",
    PATCHED + r'''
put({"m.rsl": "package P\ntype T { n Integer }\nchecks T { 10 / n > 2, \"potato\" }\n"})
two = tool("--verify", ".", pre=PRE % "{n: v for n, v in self.values.items() if 'value' not in n}")
check("Traceback" not in two[2] and "divisor could be 0" in two[1], two[1] + two[2])
''')

bug("c06_gave_up_before", "C06",
    [(V, "            else:\n"
         "                if status == \"unsat\":\n"
         "                    nok_feasibility_checks.append(vc[\"feedback\"])\n"
         "                else:\n"
         "                    ok_feasibility_checks.add(vc[\"feedback\"])\n",
      "            elif status == \"unsat\":\n"
      "                nok_feasibility_checks.append(vc[\"feedback\"])\n"
      "            elif values:\n"
      "                # We have an object that violates the check\n"
      "                ok_feasibility_checks.add(vc[\"feedback\"])\n")],
    "a check with several paths, where the solver gives up without values on the path on which the check can fail",
    "a check is reported as always true although one of its paths was not decided",
    PATCHED + r'''
put({"m.rsl": "package P\ntype T { n Integer b optional Integer }\n"
              "checks T { (if b == null then true elsif b == b then n > 2 else false), \"potato\" }\n"})
one = tool("--verify", ".")
two = tool("--verify", ".", pre=PRE % "{}")
check("always true" not in one[1] and "always true" not in two[1], one[1] + two[1])
''')
