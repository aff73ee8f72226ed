"""Jobs of C13: queries over the result of one run, suspended and resumed by
the simulator."""

import os
import sys

from sim import jobs, sched, simfs
from sim.jobs_checks import check_once, quiet_handler


def item_of(x):
    from trlc import ast
    if isinstance(x, ast.Record_Object):
        return "obj " + x.fully_qualified_name()
    if isinstance(x, tuple):
        return [item_of(y) for y in x]
    if isinstance(x, (str, int)) or x is None:
        return x
    return "%s %s" % (type(x).__name__, getattr(x, "name", "?"))


def q_objects(run, pkg=None):
    tab = run.sm.stab
    if pkg is not None:
        tab = next(p for p in packages(run) if p.name == pkg).symbols
    for o in tab.iter_record_objects():
        yield item_of(o)


def packages(run):
    from trlc import ast
    return list(run.sm.stab.values(ast.Package))


def q_section(run, pkg=None):
    tab = run.sm.stab
    if pkg is not None:
        tab = next(p for p in packages(run) if p.name == pkg).symbols
    for x in tab.iter_record_objects_by_section():
        yield item_of(x)


def q_values(run, kind):
    from trlc import ast
    cls = getattr(ast, kind) if kind else None
    for x in run.sm.stab.values(cls):
        yield item_of(x)
        if isinstance(x, ast.Package):
            for y in x.symbols.values(cls if cls is not ast.Package else None):
                yield item_of(y)


def q_dicts(run):
    for o in run.sm.stab.iter_record_objects():
        yield [o.fully_qualified_name(), jobs.plain(o.to_python_dict())]


def q_refs(run):
    for o in run.sm.stab.iter_record_objects():
        for name, val in o.field.items():
            out = []
            jobs._refs(val, out)
            yield [o.fully_qualified_name(), name, out, type(val).__name__, str(val.to_string()), val.location.to_string()]


def q_types(run):
    from trlc import ast
    for p in packages(run):
        for t in p.symbols.values(ast.Concrete_Type):
            yield [p.name, t.name, type(t).__name__]
            if isinstance(t, ast.Composite_Type):
                for c in t.all_components():
                    yield ["component", c.name, c.n_typ.name, c.optional]
                for c in t.iter_checks():
                    yield ["check", c.message, c.severity]
            if isinstance(t, ast.Tuple_Type):
                for x in t.iter_sequence():
                    yield ["sequence", type(x).__name__]
            if isinstance(t, ast.Enumeration_Type):
                for x in t.literals.values():
                    yield ["literal", x.name]
            if isinstance(t, ast.Record_Type):
                yield ["frozen", sorted(t.frozen)]


def q_lookup(run, names):
    from trlc.errors import TRLC_Error, Location
    from trlc import ast
    for name in names:
        mh, out = quiet_handler()
        for p in [None] + packages(run):
            tab = run.sm.stab if p is None else p.symbols
            yield [name, name in tab, item_of(tab.lookup_assuming(mh, name))]
            try:
                rv = item_of(tab.lookup_direct(mh, name, Location("query"), ast.Record_Object))
            except TRLC_Error:
                rv = "error"
            yield [rv, out.getvalue(), sorted(tab.all_names())]


def q_dump(run):
    yield jobs.text_dump(run.sm.stab)


def q_checks(run):
    for o in run.sm.stab.iter_record_objects():
        yield [o.fully_qualified_name(), check_once(o, run.sm.stab)]


def q_reevaluate(run):
    """The whole step again, with the run's own message handler."""
    start = len(run.out.getvalue())
    errors, warnings = run.mh.errors, run.mh.warnings
    ok = run.sm.perform_checks()
    yield [bool(ok), run.out.getvalue()[start:], run.mh.errors - errors, run.mh.warnings - warnings]


def q_resolve(run):
    start = len(run.out.getvalue())
    ok = run.sm.resolve_record_references()
    yield [bool(ok), run.out.getvalue()[start:]]


QUERIES = {"objects": q_objects, "section": q_section, "values": q_values, "dicts": q_dicts, "refs": q_refs, "types": q_types,
           "lookup": q_lookup, "dump": q_dump, "checks": q_checks, "reevaluate": q_reevaluate, "resolve": q_resolve}


def start(run, query):
    return QUERIES[query[0]](run, *query[1:])


def session(scratch, tree, spec, ops=(), threads=None, plan=None, ident=0):
    """ops: ["start", slot, query] | ["step", slot, n] | ["finish", slot] | ["drop", slot].
    threads: {"queries": [[query, ...], ...], "sched": {...}}"""
    fs = simfs.SimFS(os.path.join(scratch, "fs"), tree, plan)
    jobs.own_identity_hash(ident)
    done = []        # [query, items, complete]
    steps = 0
    with fs:
        run = jobs.Api(spec)
        exc = None
        try:
            if run.register():
                run.process()
        except Exception as e:  # pylint: disable=broad-except
            exc = jobs.describe(e)
        rv = {"exc": exc, "api": run.result(dump=False), "usable": False}
        rv["api"]["out"] = rv["api"]["out"].replace(fs.backing, simfs.VROOT)
        if exc is None and run.reg_ok:
            rv["usable"] = True
            open_ = {}

            def pull(slot, n):
                nonlocal steps
                query, items, gen = open_[slot]
                while n != 0:
                    steps += 1
                    try:
                        items.append(next(gen))
                    except StopIteration:
                        done.append([query, items, True])
                        del open_[slot]
                        return
                    except Exception as e:  # pylint: disable=broad-except
                        done.append([query, items + [["raised", jobs.describe(e)]], True])
                        del open_[slot]
                        return
                    n -= 1
            for op in ops:
                if op[0] == "start":
                    if op[1] in open_:
                        pull(op[1], -1)
                    open_[op[1]] = (op[2], [], start(run, op[2]))
                elif op[1] in open_:
                    if op[0] == "step":
                        pull(op[1], op[2])
                    elif op[0] == "finish":
                        pull(op[1], -1)
                    else:
                        query, items, gen = open_.pop(op[1])
                        gen.close()
                        done.append([query, items, False])
            for slot in sorted(open_):
                pull(slot, -1)
            if threads:
                sys.unraisablehook = lambda _: None
                sch = sched.Scheduler(threads["sched"], False)

                def task(queries):
                    def body():
                        rv = []
                        for q in queries:
                            rv.append([q, list(start(run, q)), True])
                        return rv
                    return body
                for res, err in sch.run([task(q) for q in threads["queries"]], {}):
                    if err is not None:
                        done.append([["thread"], [jobs.describe(err)], True])
                    else:
                        done.extend(res)
                steps += sch.step
                rv["switches"] = sch.switches
    rv["done"] = done
    rv["steps"] = steps + len(fs.trace)
    rv["wrong_targets"] = jobs.same_objects(run.sm.stab) if rv["usable"] else []
    return rv
