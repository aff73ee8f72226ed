"""Jobs of C11: the RST publisher."""

import contextlib
import importlib
import io
import os

from sim import jobs, simfs, zygote


def publish(scratch, tree, argv, plan=None, ident=0, keep=(), want_trace=False, want_structure=None):
    script = os.path.join(zygote.REPO, "tools", "trlc_rst", "trlc_rst.py")
    rv = jobs.cli(scratch, tree, argv, plan, ident, keep, want_trace=want_trace, entry=("path", script))
    if want_structure and rv["status"] == 0:
        rv["structure"] = structure(rv["files"][want_structure])
    return rv


def prepare():
    """Teach docutils the directive and the role of the requirement domain."""
    from docutils import nodes
    from docutils.core import publish_doctree
    from docutils.parsers.rst import Directive, directives, roles

    class Definition(Directive):
        has_content = True
        required_arguments = 1
        final_argument_whitespace = True

        def run(self):
            node = nodes.container()
            node["requirement"] = self.arguments[0]
            self.state.nested_parse(self.content, self.content_offset, node)
            return [node]

    directives.register_directive("requirement:definition", Definition)
    roles.register_local_role("requirement:upstream-ref",
                              lambda name, rawtext, text, lineno, inliner, options=None, content=None: ([nodes.inline(rawtext, text)], []))
    publish_doctree("x")


def structure(text):
    """[section titles, record, labels of its fields] as docutils understands the document."""
    from docutils import nodes
    from docutils.core import publish_doctree
    doc = publish_doctree(text, settings_overrides={"report_level": 5, "halt_level": 6, "doctitle_xform": False})
    rv = []
    for node in doc.findall(nodes.container):
        if node.get("requirement") is None:
            continue
        path, up = [], node.parent
        while up is not None:
            if isinstance(up, nodes.section):
                path.insert(0, up[0].astext())
            up = up.parent
        fields = node[0] if len(node) and isinstance(node[0], nodes.field_list) else ()
        rv.append([path, node["requirement"], [f[0].astext() for f in fields]])
    return rv


def one_op(rst, op, fs, iters):
    kind = op[0]
    if kind == "parse":
        rst.parse_trlc_files()
        return None
    if kind == "tree":
        rst.convert_symbols_to_tree(None if op[1] is None else set(op[1]))
        return None
    if kind == "file":
        # a render of the tree that was built last
        rst.render_to_file("out.rst", title=op[1], fields=op[2])
        return (fs.get("out.rst") or b"").decode("utf-8", "replace")
    if kind == "render":
        rst.render("out.rst", title=op[1], fields=op[2], records=None if op[3] is None else set(op[3]))
        return (fs.get("out.rst") or b"").decode("utf-8", "replace")
    if kind == "string":
        return rst.render_records_to_string(fields=op[1], fqns=op[2], records=None if op[3] is None else set(op[3]))
    if kind == "table":
        return rst.render_table_to_string(op[1], fqns=op[2], records=None if op[3] is None else set(op[3]))
    if kind == "value":
        rv = rst.field_value_for(op[1], op[2])
        return jobs.plain(rv)
    if kind == "objects":
        return sorted(rst.objects_by_fqn(None if op[1] is None else set(op[1])))
    if kind == "peek":
        # advance a suspended query over the same symbol table
        it = iters.get(op[1])
        if it is None:
            stab = next((v for v in vars(rst).values() if isinstance(v, _ast().Symbol_Table)), None)
            if stab is None:
                return None
            it = iters[op[1]] = iter(stab.iter_record_objects() if op[1] % 2 else stab.iter_record_objects_by_section())
        for _ in range(op[2]):
            if next(it, None) is None:
                iters.pop(op[1])
                break
        return None
    raise AssertionError(op)


def _ast():
    return importlib.import_module("trlc.ast")


def session(scratch, tree, spec, ops, plan=None, ident=0):
    """A sequence of operations on one TRLCRST object."""
    fs = simfs.SimFS(os.path.join(scratch, "fs"), tree, plan)
    mod = importlib.import_module("trlc_rst")
    jobs.own_identity_hash(ident)
    results = []
    out = io.StringIO()
    with fs, contextlib.redirect_stdout(out):
        rst = mod.TRLCRST(spec.get("dir"), source_files=spec.get("sources"), dep_files=spec.get("deps"))
        iters = {}
        for op in ops:
            try:
                results.append({"value": one_op(rst, op, fs, iters)})
            except simfs.HarnessError:
                raise
            except Exception as err:  # pylint: disable=broad-except
                results.append({"exc": jobs.describe(err)})
    return {"results": results, "out": out.getvalue().replace(fs.backing, simfs.VROOT), "steps": len(fs.trace), "fired": fs.fired}
