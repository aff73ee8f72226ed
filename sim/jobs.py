"""Jobs: what one forked child of a zygote does.

Every job starts from the pristine state of a process that has just imported
the code under test, runs it inside the simulated file system, and returns
plain data.  Everything observed is observed at the public surface: bytes on
standard output, exit status, result objects of the API."""

import io
import os
import re
import sys
from fractions import Fraction

from sim import simfs, simproc


# --------------------------------------------------------------------------
# Identity hashes.  Objects without a __hash__ of their own are hashed by
# address, which differs between executions: put that behind a seam, so that a
# salt decides the iteration order of sets of such objects.
# --------------------------------------------------------------------------

_IDENT = {"salt": 0, "next": 0}


def _sim_hash(self):
    d = self.__dict__
    rv = d.get("_sim_identity_hash")
    if rv is None:
        _IDENT["next"] += 1
        rv = d["_sim_identity_hash"] = hash((_IDENT["salt"], _IDENT["next"] * 2654435761 % 4294967291))
    return rv


def own_identity_hash(salt=0):
    _IDENT["salt"], _IDENT["next"] = salt, 0
    mods = [m for n, m in list(sys.modules.items()) if m is not None and
            (n == "trlc" or n.startswith("trlc.") or n == "trlc_rst")]
    for mod in mods:
        for cls in list(vars(mod).values()):
            if isinstance(cls, type) and cls.__module__ == mod.__name__ and \
               cls.__hash__ is object.__hash__ and "__slots__" not in vars(cls) and \
               not issubclass(cls, BaseException):
                try:
                    cls.__hash__ = _sim_hash
                except TypeError:
                    pass


# --------------------------------------------------------------------------
# Symbol table as plain data
# --------------------------------------------------------------------------

def plain(value):
    if isinstance(value, Fraction):
        return "%s/%s" % (value.numerator, value.denominator)
    if isinstance(value, dict):
        return {k: plain(v) for k, v in value.items()}
    if isinstance(value, (list, tuple)):
        return [plain(v) for v in value]
    if value is None or isinstance(value, (bool, int, str, float)):
        return value
    return "<%s>" % type(value).__name__


def _refs(expr, out):
    """All reference targets below a field value, in order."""
    from trlc import ast
    if isinstance(expr, ast.Record_Reference):
        out.append(expr.target.fully_qualified_name() if expr.target is not None else None)
    elif isinstance(expr, ast.Array_Aggregate):
        for v in expr.value:
            _refs(v, out)
    elif isinstance(expr, ast.Tuple_Aggregate):
        for v in expr.value.values():
            _refs(v, out)
    elif isinstance(expr, ast.String_Literal):
        for r in expr.references:
            _refs(r, out)


def same_objects(stab):
    """Names of references whose target is not the registered object itself."""
    from trlc import ast
    objs = {o.fully_qualified_name(): o for o in stab.iter_record_objects()}
    bad = []

    def walk(expr):
        if isinstance(expr, ast.Record_Reference):
            if expr.target is None or objs.get(expr.package.name + "." + expr.name) is not expr.target:
                bad.append(expr.name)
        elif isinstance(expr, ast.Array_Aggregate):
            for v in expr.value:
                walk(v)
        elif isinstance(expr, ast.Tuple_Aggregate):
            for v in expr.value.values():
                walk(v)
        elif isinstance(expr, ast.String_Literal):
            for r in expr.references:
                walk(r)
    for o in objs.values():
        for v in o.field.values():
            walk(v)
    return bad


def dump_object(obj):
    fields = obj.to_python_dict()
    refs = {}
    for name, val in obj.field.items():
        out = []
        _refs(val, out)
        if out:
            refs[name] = out
    return {"name": obj.fully_qualified_name(),
            "type": obj.n_typ.fully_qualified_name(),
            "section": [s.name for s in obj.section] if obj.section else [],
            "fields": plain(fields), "refs": refs,
            "order": list(fields)}


def dump_type(typ):
    from trlc import ast
    rv = {"name": typ.fully_qualified_name(), "class": type(typ).__name__}
    if isinstance(typ, ast.Composite_Type):
        rv["components"] = [[c.name, c.n_typ.name, c.optional] for c in typ.all_components()]
        rv["checks"] = [[c.message, str(c.severity), c.n_type.name if hasattr(c, "n_type") else None]
                        for c in typ.iter_checks()]
    if isinstance(typ, ast.Enumeration_Type):
        rv["literals"] = [x.name for x in typ.literals.values()]
    if isinstance(typ, ast.Record_Type):
        rv["parent"] = typ.parent.fully_qualified_name() if typ.parent else None
        rv["frozen"] = {k: plain(v.to_python_object()) for k, v in sorted(typ.frozen.items())}
    return rv


def dump_stab(stab):
    from trlc import ast
    rv = {"packages": [], "order": [o.fully_qualified_name() for o in stab.iter_record_objects()]}
    for pkg in stab.values(ast.Package):
        rv["packages"].append({
            "name": pkg.name,
            "late": pkg.declared_late,
            "types": [dump_type(t) for t in pkg.symbols.values(ast.Concrete_Type)],
            "objects": [dump_object(o) for o in pkg.symbols.values(ast.Record_Object)]})
    return rv


def text_dump(stab):
    """What the public dump() method prints."""
    old = sys.stdout
    sys.stdout = buf = io.StringIO()
    try:
        stab.dump()
    finally:
        sys.stdout = old
    # (nodes without a printable form show their address)
    return re.sub(r" at 0x[0-9a-f]+>", " at 0x>", buf.getvalue())


# --------------------------------------------------------------------------
# Running
# --------------------------------------------------------------------------

def fs_facts(fs):
    return {"trace": [list(t) for t in fs.trace], "fired": fs.fired, "listings": [list(x) for x in fs.listings],
            "mutation_fired": fs.mutation_fired}


def cli(scratch, tree, argv, plan=None, ident=0, keep=(), line_buffering=False, want_trace=False, entry=None, solver=None,
        encoding="utf-8"):
    """One execution of the command-line tool."""
    queries = None
    if solver is not None or "--verify" in argv:
        from sim import solver as solver_seam
        queries = solver_seam.install(solver or {})
    fs = simfs.SimFS(os.path.join(scratch, "fs"), tree, plan)
    own_identity_hash(ident)
    res = simproc.run(fs, ["trlc"] + list(argv), entry=tuple(entry) if entry else ("module", "trlc"),
                      line_buffering=line_buffering, encoding=encoding)
    rv = dict(res)
    facts = fs_facts(fs)
    if not want_trace:
        facts.pop("trace")
    rv.update(facts)
    rv["steps"] = len(fs.trace) + len(queries or ())
    if queries is not None:
        rv["queries"] = queries
    rv["files"] = {}
    for k in keep:
        data = fs.get(k)
        rv["files"][k] = None if data is None else data.decode("utf-8", "surrogateescape").replace(fs.backing, simfs.VROOT)
    return rv


class Api:
    """One run through the API, step by step."""

    def __init__(self, spec):
        from trlc.errors import Message_Handler, Kind
        from trlc.trlc import Source_Manager
        self.spec = spec
        opts = spec.get("opts", {})
        self.out = io.StringIO()
        self.calls = []
        self.mh = Message_Handler(brief=opts.get("brief", False), detailed_info=opts.get("detail", True), out=self.out)
        if opts.get("no_user_warnings"):
            self.mh.suppress(Kind.USER_WARNING)
        api = self

        class Manager(Source_Manager):
            def callback_parse_begin(self):
                api.callback("begin", None)

            def callback_parse_progress(self, progress):
                api.callback("progress", progress)

            def callback_parse_end(self):
                api.callback("end", None)
        self.sm = Manager(self.mh, lint_mode=opts.get("lint", True), parse_trlc=opts.get("trlc", True),
                          verify_mode=opts.get("verify", False), error_recovery=opts.get("recovery", True))
        self.hook = None
        self.reg_ok = True
        self.stab = None

    def callback(self, kind, value):
        self.calls.append([kind, value])
        if self.hook:
            self.hook(kind, value)

    def register(self):
        for item in self.spec["reg"]:
            if item[0] == "dir":
                ok = self.sm.register_directory(item[1])
            elif item[0] == "include":
                ok = self.sm.register_include(item[1])
                ok = True if ok is None else ok
            else:
                ok = self.sm.register_file(item[1], item[2] if len(item) > 2 else None)
            self.reg_ok = self.reg_ok and bool(ok)
        return self.reg_ok

    def process(self):
        self.stab = self.sm.process()
        return self.stab

    def result(self, dump=True, text=False):
        rv = {"out": self.out.getvalue(), "reg_ok": self.reg_ok, "success": self.stab is not None,
              "errors": self.mh.errors, "warnings": self.mh.warnings, "suppressed": self.mh.suppressed,
              "calls": self.calls}
        if dump and self.stab is not None:
            rv["stab"] = dump_stab(self.stab)
            rv["wrong_targets"] = same_objects(self.stab)
            if text:
                rv["text"] = text_dump(self.stab)
        return rv


def describe(exc):
    return {"type": type(exc).__name__, "site": simproc.crash_site(exc), "text": str(exc)[:300]}


def api(scratch, tree, spec, plan=None, ident=0, dump=True, text=False, want_trace=False):
    """One run through the API in a fresh process.  The tool may raise
    TRLC_Error or OSError out of registration; anything raised is recorded."""
    fs = simfs.SimFS(os.path.join(scratch, "fs"), tree, plan)
    own_identity_hash(ident)
    run = None
    exc = None
    if spec.get("opts", {}).get("verify"):
        from sim import solver as solver_seam
        solver_seam.install({})
    with fs:
        try:
            run = Api(spec)
            if run.register() or spec.get("ignore_reg", False):
                run.process()
        except simfs.HarnessError:
            raise
        except (Exception, SystemExit) as e:  # pylint: disable=broad-except
            exc = describe(e)
        rv = run.result(dump, text)
    rv["out"] = rv["out"].replace(fs.backing, simfs.VROOT)
    rv["exc"] = exc
    facts = fs_facts(fs)
    if not want_trace:
        facts.pop("trace")
    rv.update(facts)
    rv["steps"] = len(fs.trace)
    return rv
