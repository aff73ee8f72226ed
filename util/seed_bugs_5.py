"""Fifth batch of planted bugs, see seed_lib.py"""
BUGS = []
S = "tools/sphinx/extensions/trlc/trlc.py"


def bug(ident, prop, edits, needs, breaks, demo):
    BUGS.append({"id": ident, "property": prop, "edits": edits, "needs": needs, "breaks": breaks, "demo": demo})


SPHINX = r'''
import shutil
PY = "/opt/venv/bin/python"
EXT = os.path.join(REPO, "tools", "sphinx", "extensions", "trlc")
put({"doc/conf.py": "import sys\nsys.path.insert(0, %r)\nextensions = ['trlc']\n" % EXT})
TICK = [1600000000]


def docs(**files):
    """Write documents (None removes), each with a later time than the last"""
    for name, text in files.items():
        full = os.path.join(TMP.name, "doc", name + ".rst")
        if text is None:
            os.unlink(full)
            continue
        put({"doc/%s.rst" % name: ":orphan:\n\n%s\n%s\n\n%s" % (name, "=" * len(name), text)})


def define(*names):
    return "".join(".. requirement:definition:: %s\n\n   Text.\n\n" % n for n in names)


def see(*names):
    return "".join("See :requirement:upstream-ref:`%s`.\n\n" % n for n in names)


def build(*args, fresh=False):
    """Warnings of the domain, and the directory with the pages"""
    import time
    time.sleep(0.05)
    out = os.path.join(TMP.name, "out")
    if fresh:
        shutil.rmtree(out, ignore_errors=True)
    env = {k: v for k, v in os.environ.items() if k != "PYTHONPATH"}
    run = subprocess.run([PY, "-m", "sphinx", "-q", "-b", "html"] + list(args) + ["doc", "out"], cwd=TMP.name, env=env,
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=250, encoding="UTF-8")
    check(run.returncode == 0, run.stderr)
    return sorted(line for line in run.stderr.splitlines() if "not found" in line or "ambiguous" in line)


def page(name):
    with open(os.path.join(TMP.name, "out", name + ".html"), encoding="UTF-8") as fd:
        return fd.read()


'''

bug("c19_add_once", "C19",
    [(S, "        self.data[\"requirements\"].append(\n"
         "            (name, signature, \"Requirement\", self.env.docname, anchor, 0)\n"
         "        )\n",
      "        if any(entry[0] == name for entry in self.data[\"requirements\"]):\n"
      "            # Already known from the last time\n"
      "            return\n"
      "        self.data[\"requirements\"].append(\n"
      "            (name, signature, \"Requirement\", self.env.docname, anchor, 0)\n"
      "        )\n")],
    "a definition in two documents read by the same process",
    "an ambiguous reference is silently linked to the first definition",
    SPHINX + r'''
docs(index=see("P.A"), a=define("P.A"), b=define("P.A"))
got = build(fresh=True)
check(len(got) == 1 and "ambiguous" in got[0], got)
''')

bug("c19_not_in_data", "C19",
    [(S, "    def get_objects(self):\n        yield from self.data[\"requirements\"]\n",
      "    def get_objects(self):\n"
      "        # Ordered once, every reference looks at all of them\n"
      "        if not hasattr(self, \"ordered\") or len(self.ordered) != len(self.data[\"requirements\"]):\n"
      "            self.ordered = sorted(self.data[\"requirements\"])\n"
      "        yield from self.ordered\n")],
    "two builds by one application, between which a requirement moves to another document (or changes its name)",
    "index and links of the second build are those of the first",
    SPHINX + r'''
import io
sys.path = [p for p in sys.path if p not in ("", REPO)]
docs(index=see("P.A"), a=define("P.A"), b="")
from sphinx.application import Sphinx
d = os.path.join(TMP.name, "doc")
warn = io.StringIO()
app = Sphinx(d, d, os.path.join(TMP.name, "out"), os.path.join(TMP.name, "tree"), "html", status=None, warning=warn, freshenv=True)
app.build()
check("a.html#requirement-P.A" in page("index"), "first")
import time
time.sleep(0.05)
docs(a="", b=define("P.A"), index=see("P.A"))
app.build()
check("b.html#requirement-P.A" in page("index"), "second")
''')

bug("c19_prefer_own", "C19",
    [(S, "        if len(match) == 1:\n            todocname, targ = match[0]\n",
      "        if len(match) > 1:\n"
      "            # One definition per document\n"
      "            match = list({doc: (doc, anchor) for doc, anchor in match}.values())\n"
      "        if len(match) == 1:\n            todocname, targ = match[0]\n")],
    "a requirement defined twice in one document",
    "a reference to a requirement defined twice in one document is not reported",
    SPHINX + r'''
docs(index=see("P.A"), a=define("P.A", "P.B", "P.A"))
got = build(fresh=True)
check(len(got) == 1 and "ambiguous (2" in got[0], got)
''')

bug("c19_index_dedup", "C19",
    [(S, "        requirements = sorted(requirements, key=lambda requirement: requirement[0])\n",
      "        requirements = sorted(requirements, key=lambda requirement: requirement[0])\n"
      "        # Documents that are read in parallel may be reported twice\n"
      "        requirements = {entry[0]: entry for entry in requirements}.values()\n")],
    "a requirement defined in more than one document",
    "the index shows one of the definitions only",
    SPHINX + r'''
docs(index=see("P.B"), a=define("P.A"), b=define("P.A", "P.B"))
build(fresh=True)
index = page("requirement-requirement")
check("a.html#requirement-P.A" in index and "b.html#requirement-P.A" in index, "one is missing")
''')

bug("c19_missing_once", "C19",
    [(S, "        else:\n            loc = _pretty_location(fromdocname, node.line if node else None)\n"
         "            logger.warning(\n                \"(%s):  '%s' not found\",\n",
      "        elif (fromdocname, target) not in self.data.setdefault(\"missing\", []):\n"
      "            self.data[\"missing\"].append((fromdocname, target))\n"
      "            loc = _pretty_location(fromdocname, node.line if node else None)\n"
      "            logger.warning(\n                \"(%s):  '%s' not found\",\n")],
    "a page with two references to the same missing requirement (or two builds by one application)",
    "only the first reference to a missing requirement is reported",
    SPHINX + r'''
docs(index=see("P.A", "P.B", "P.A"), b=define("P.B"))
got = build(fresh=True)
check(len(got) == 2, got)
''')

bug("c19_heading_first", "C19",
    [(S, "            safe_char = dispname[0] if dispname and dispname[0].isalpha() else \"?\"\n"
         "            heading = safe_char.upper()\n",
      "            heading = dispname[0].upper() if dispname else \"?\"\n")],
    "a requirement whose name does not begin with a letter",
    "the index has headings that are no letters",
    SPHINX + r'''
docs(index=see("P.A"), a=define("P.A", "_x.y", "7.up"))
build(fresh=True)
index = page("requirement-requirement")
check("cap-?" in index and "cap-_" not in index and "cap-7" not in index, "headings")
''')
