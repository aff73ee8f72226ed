"""Generator of TRLC models (packages, types, checks, record objects), their
rendering to text under arbitrary file layouts, and the reference model that
says what a correct implementation must make of them.

A model is plain JSON data, so that it can be stored in a replay file and
shrunk.  Expected results are always recomputed from the (shrunk) model."""

import re
from fractions import Fraction

WORDS = ["Req", "Item", "Goal", "Hazard", "Part", "Unit", "Case", "Note", "Link", "Spec", "Node", "Area"]
LOWER = ["alpha", "beta", "gamma", "delta", "level", "size", "owner", "ratio", "text", "kind", "flag", "mark"]
TEXTS = ["potato", "kitten", "a b c", "x", "", "quote \\\" mark", "ümlaut ✓", "the quick brown fox",
         "100%", "// not a comment", "semi;colon", "potato kitten", "Kitten"]
# (meaning of texts written between triple quotes)
LONG_TEXTS = ["first line\nsecond line", "a\n\nb\n  c", "x\n  indented\nback", "with \"quotes\" and \\ backslash\nnext", "it's\nfine",
              "one line", "three\nlines\nhere", "it has\n\n\nblank lines", "ümlaut\nä\n\tü", "// no comment\n/* none */"]
SECTIONS = ["Intro", "Scope", "Details", "Intro", "Deep dive", "Annex A", "1.2"]


RESERVED = frozenset("abs abstract and checks else elsif enum error exists extends false fatal final forall freeze if implies import in "
                     "not null optional or package section separator then true tuple type warning xor".split())


class Namer:
    def __init__(self, rng):
        self.rng, self.n = rng, 0

    def make(self, words):
        self.n += 1
        word = self.rng.choice(words)
        if self.rng.random() < 0.2:
            word = self.rng.choice(WORDS) + "_" + word
        return "%s%u" % (word, self.n)


# --------------------------------------------------------------------------
# Model generation
# --------------------------------------------------------------------------

DEFAULTS = dict(pkgs=(1, 4), types=(1, 4), objs=(2, 10), checks=(0, 4), depth=3, late=0.25,
                invalid_ref=0.0, unused_import=0.2, null_unsafe=0.25, fatal=0.2, p_checks=0.7,
                markup=0.5, sections=0.5, freeze=0.3, unions=0.4, tuples=0.6, arrays=0.6, refs=0.7,
                pass_bias=0.5, details=0.3, warn=0.0, abstract=0.15, extends=0.5, spelling=0.15, big=0.0, same_msg=0.0)


def generate(rng, **over):
    cfg = dict(DEFAULTS)
    cfg.update(over)
    return Generator(rng, cfg).model()


class Generator:
    def __init__(self, rng, cfg):
        self.rng, self.cfg = rng, cfg
        if cfg["big"] and rng.random() < cfg["big"]:
            # much more of one thing than usual
            key, factor = rng.choice([("objs", 12), ("objs", 25), ("pkgs", 4), ("types", 5), ("checks", 5)])
            cfg[key] = (cfg[key][0], cfg[key][1] * factor)
        self.names = Namer(rng)
        self.pkgs = []
        self.types = {}      # fqn -> type
        self.check_no = 0
        self.messages = []
        self.objs = []

    def chance(self, key):
        return self.rng.random() < self.cfg[key]

    def model(self):
        rng = self.rng
        for i in range(rng.randint(*self.cfg["pkgs"])):
            late = i > 0 and self.chance("late")
            pkg = {"name": self.names.make(["Pkg", "Lib", "Base", "Sys"]), "rsl": not late, "imports": [], "items": []}
            prior = [p["name"] for p in self.pkgs if p["rsl"]]
            if not late:
                visible = [p for p in prior if rng.random() < 0.5]
                used = set()
                for _ in range(rng.randint(*self.cfg["types"])):
                    self.gen_type(pkg, visible, used)
                pkg["imports"] = sorted(used | {p for p in visible if p not in used and self.chance("unused_import")})
                rng.shuffle(pkg["imports"])
            self.pkgs.append(pkg)
        self.gen_objects()
        for pkg in self.pkgs:
            pkg["items"] += [] if not pkg["rsl"] else self.gen_check_blocks(pkg)
            self.interleave_checks(pkg)
            self.complete_imports(pkg)
        return {"pkgs": self.pkgs, "objs": self.objs}

    def complete_imports(self, pkg):
        """Imports also what checks and frozen values name."""
        names = set()

        def walk(x):
            if isinstance(x, list):
                if len(x) == 3 and x[0] == "enum" and isinstance(x[1], str):
                    names.add(x[1].split(".")[0])
                for y in x:
                    walk(y)
            elif isinstance(x, dict):
                for y in x.values():
                    walk(y)
        for item in pkg["items"]:
            if item["k"] == "checks":
                walk([c["expr"] for c in item["checks"]])
            elif item["k"] == "record":
                walk(list(item["freeze"].values()))
        for name in sorted(names):
            if name != pkg["name"] and name not in pkg["imports"]:
                pkg["imports"].append(name)

    # -- types --
    def visible_types(self, pkg, visible, kinds):
        rv = []
        for fqn, typ in self.types.items():
            owner = fqn.split(".")[0]
            if typ["k"] in kinds and (owner == pkg["name"] or owner in visible):
                rv.append(fqn)
        return rv

    def pick_type(self, pkg, visible, used, in_tuple=False, seps=False):
        rng = self.rng
        opts = [["Integer"]] * 4 + [["String"]] * 3 + [["Boolean"]] * 2 + [["Decimal"]] * 2
        if self.chance("markup"):
            opts += [["Markup_String"]] * 2
        for fqn in self.visible_types(pkg, visible, ("enum",)):
            opts.append(["enum", fqn])
        if self.chance("tuples"):
            for fqn in self.visible_types(pkg, visible, ("tuple",)):
                if in_tuple and seps and self.types[fqn]["seps"]:
                    continue
                opts += [["tuple", fqn]] * 2
        recs = self.visible_types(pkg, visible, ("record",))
        if self.chance("refs"):
            for fqn in recs:
                opts.append(["rec", fqn])
        if len(recs) >= 2 and self.chance("unions"):
            opts += [["union", rng.sample(recs, rng.randint(2, min(3, len(recs))))]] * 2
        typ = rng.choice(opts)
        if not in_tuple and self.rng.random() < self.cfg["arrays"] * 0.4:
            lo = rng.choice([0, 0, 0, 1, 2, 5])
            hi = rng.choice([None, lo + rng.randint(1, 4)])
            typ = ["array", typ, lo, hi]
        for fqn in type_names(typ):
            owner = fqn.split(".")[0]
            if owner != pkg["name"]:
                used.add(owner)
        return typ

    def gen_type(self, pkg, visible, used):
        rng = self.rng
        roll = rng.random()
        if roll < 0.2:
            typ = {"k": "enum", "name": self.names.make(WORDS),
                   "lits": [self.names.make(LOWER) for _ in range(rng.randint(1, 4))]}
        elif roll < 0.2 + 0.35 * self.cfg["tuples"]:
            n = rng.choice([1, 2, 2, 3, 3, 4])
            seps = rng.random() < 0.5 and n > 1
            fields, opt = [], False
            for i in range(n):
                if seps and i > 0:
                    opt = opt or rng.random() < 0.3
                fields.append({"name": self.names.make(LOWER),
                               "type": self.pick_type(pkg, visible, used, True, seps), "opt": opt})
            typ = {"k": "tuple", "name": self.names.make(WORDS), "fields": fields,
                   "seps": [rng.choice(["@", ":", ";", self.names.make(["sep"]), rng.choice("xb")])
                            for _ in range(n - 1)] if seps else []}
        else:
            parents = [f for f in self.visible_types(pkg, visible, ("record",))
                       if not (self.types[f].get("final"))]
            parent = rng.choice(parents) if parents and self.chance("extends") else None
            if parent and parent.split(".")[0] != pkg["name"]:
                used.add(parent.split(".")[0])
            fields = []
            for _ in range(rng.randint(0 if parent else 1, 4)):
                share = None
                if rng.random() < 0.25 and parent is None:
                    # same-named component in unrelated types (matters for unions)
                    cands = [f for t in self.types.values() if t["k"] == "record" for f in t["fields"]
                             if f["type"][0] in ("Integer", "String", "Boolean", "Decimal")]
                    cands = [f for f in cands if all(f["name"] != g["name"] for g in fields)]
                    if cands:
                        share = rng.choice(cands)
                if share:
                    fields.append(dict(share, opt=rng.random() < 0.3))
                else:
                    fields.append({"name": self.names.make(LOWER),
                                   "type": self.pick_type(pkg, visible, used), "opt": rng.random() < 0.35})
            typ = {"k": "record", "name": self.names.make(WORDS), "parent": parent, "fields": fields,
                   "abstract": self.chance("abstract"), "final": False, "freeze": {}}
            if parent and self.chance("freeze"):
                done = frozen_of(self.types, parent)
                cands = [f for f in all_fields(self.types, parent) if f["name"] not in done]
                cands = [f for f in cands if base_type(f["type"])[0] not in ("rec", "union", "Markup_String")
                         and not self.contains_ref(f["type"])]
                if cands:
                    f = rng.choice(cands)
                    typ["freeze"][f["name"]] = self.gen_value(f["type"], None)
                    for fqn in type_names(f["type"]):
                        if fqn.split(".")[0] != pkg["name"]:
                            used.add(fqn.split(".")[0])
            if not typ["abstract"] and rng.random() < 0.1:
                typ["final"] = True
        typ["descr"] = rng.choice([None, None, "some description"])
        self.types[pkg["name"] + "." + typ["name"]] = typ
        pkg["items"].append(typ)

    def contains_ref(self, typ):
        if typ[0] in ("rec", "union"):
            return True
        if typ[0] == "array":
            return self.contains_ref(typ[1])
        if typ[0] == "tuple":
            return any(self.contains_ref(f["type"]) or f["type"][0] == "Markup_String"
                       for f in self.types[typ[1]]["fields"])
        return False

    # -- objects --
    def gen_objects(self):
        rng = self.rng
        concrete = [f for f, t in self.types.items() if t["k"] == "record" and not t["abstract"]]
        if not concrete:
            return
        count = rng.randint(*self.cfg["objs"])
        self.sec_pool = [[]]
        for _ in range(rng.choice([3, 3, 6])):
            base = rng.choice([rng.choice(self.sec_pool), self.sec_pool[-1]])
            self.sec_pool.append(base + [rng.choice(SECTIONS)])
        for _ in range(count):
            fqn = rng.choice(concrete)
            owner = fqn.split(".")[0] if rng.random() < 0.6 else rng.choice(self.pkgs)["name"]
            self.objs.append({"pkg": owner, "name": self.names.make(["obj", "rq", "Item", "x_ob"]), "type": fqn,
                              "section": rng.choice(self.sec_pool) if self.chance("sections") else [], "vals": {}})
        drop = []
        for obj in self.objs:
            frozen = frozen_of(self.types, obj["type"])
            order = []
            for f in all_fields(self.types, obj["type"]):
                if f["name"] in frozen:
                    continue
                if f["opt"] and rng.random() < 0.4:
                    continue
                val = self.gen_value(f["type"], obj)
                if val is None:
                    if not f["opt"]:
                        drop.append(obj)
                    continue
                order.append((f["name"], val))
            rng.shuffle(order)
            obj["vals"] = dict(order)
        # objects for which no value exists (no possible target) are removed,
        # together with everything that refers to them
        while drop:
            gone = {(o["pkg"], o["name"]) for o in drop}
            self.objs = [o for o in self.objs if (o["pkg"], o["name"]) not in gone]
            drop = [o for o in self.objs if any(set(refs_in(v)) & gone for v in o["vals"].values())]
        if rng.random() < self.cfg["invalid_ref"]:
            self.break_reference()

    def break_reference(self):
        """Plants exactly one invalid reference (unknown object or wrong type)."""
        cands = []
        for obj in self.objs:
            for name, val in obj["vals"].items():
                cands += _ref_places(val, field_type(self.types, obj["type"], name), self.types)
        if not cands:
            return
        ref, typ = self.rng.choice(cands)
        members = [typ[1]] if typ[0] == "rec" else typ[1] if typ[0] == "union" else None
        wrong = [o for o in self.objs if members is not None and
                 not any(is_subtype(self.types, o["type"], m) for m in members)]
        taken = {(o["pkg"], o["name"]) for o in self.objs}
        if wrong and self.rng.random() < 0.5:
            w = self.rng.choice(wrong)
            ref[1:] = [w["pkg"], w["name"]]
            return
        # unknown here: quite different, almost the same, part of a name, known in another package
        old = ref[2]
        names = [self.names.make(["missing"]), old.swapcase(), old.lower(), old.upper(), old[0] + "_" + old[1:], old.replace("_", ""),
                 old + "_", old + "x", old[:-1], self.rng.choice(self.objs)["name"]]
        self.rng.shuffle(names)
        for name in names:
            if (ref[1], name) not in taken and name.lower() not in RESERVED and len(name) > 2:
                ref[2] = name
                return

    def gen_value(self, typ, obj):
        rng = self.rng
        k = typ[0]
        if k == "Integer":
            if self.chance("spelling"):
                return spelled_int(rng)
            return ["int", rng.choice([0, 1, 2, 3, 5, 7, 10, 42, 100, -1, -5, -17, 2 ** 40])]
        if k == "Decimal":
            if self.chance("spelling"):
                return spelled_dec(rng)
            return ["dec", rng.choice(["0.0", "0.5", "1.5", "2.25", "10.75", "-0.5", "-2.5", "3.333", "100.001"])]
        if k == "Boolean":
            return ["bool", rng.random() < 0.5]
        if k == "String":
            if self.chance("spelling"):
                return ["str", rng.choice(LONG_TEXTS), quoting(rng)]
            return ["str", rng.choice(TEXTS)]
        if k == "Markup_String":
            refs = []
            if obj is not None and self.objs and rng.random() < 0.7:
                refs = [["ref", o["pkg"], o["name"]] for o in rng.sample(self.objs, min(len(self.objs), rng.choice([1, 1, 2, 2, 4])))]
                if rng.random() < 0.15:
                    refs.append(rng.choice(refs))
            if self.chance("spelling"):
                text = rng.choice(LONG_TEXTS)
                return ["mstr", text + (rng.choice([" ", "\n"]) if refs else ""), refs, quoting(rng)]
            return ["mstr", rng.choice(["see ", "a *b* ", ""]), refs]
        if k == "enum":
            return ["enum", typ[1], rng.choice(self.types[typ[1]]["lits"])]
        if k in ("rec", "union"):
            members = [typ[1]] if k == "rec" else typ[1]
            cands = [o for o in self.objs if any(is_subtype(self.types, o["type"], m) for m in members)]
            if not cands:
                return None
            o = rng.choice(cands)
            return ["ref", o["pkg"], o["name"]]
        if k == "array":
            lo, hi = typ[2], typ[3]
            n = rng.randint(lo, hi if hi is not None else lo + rng.choice([3, 3, 3, 9]))
            vals = []
            for _ in range(n):
                v = self.gen_value(typ[1], obj)
                if v is None:
                    return ["arr", []] if lo == 0 else None
                vals.append(v)
            return ["arr", vals]
        if k == "tuple":
            t = self.types[typ[1]]
            vals = {}
            for f in t["fields"]:
                if f["opt"] and rng.random() < 0.5:
                    break
                v = self.gen_value(f["type"], obj)
                if v is None:
                    if f["opt"]:
                        break
                    return None
                vals[f["name"]] = v
            return ["tup", typ[1], vals]
        raise AssertionError(k)

    # -- checks --
    def gen_check_blocks(self, pkg):
        blocks = []
        for typ in list(pkg["items"]):
            if typ["k"] not in ("tuple", "record") or not self.chance("p_checks"):
                continue
            for _ in range(2 if self.rng.random() < 0.15 else 1):
                blocks.append(self.gen_block(pkg, typ))
        return [b for b in blocks if b["checks"]]

    def gen_block(self, pkg, typ):
        rng = self.rng
        fqn = pkg["name"] + "." + typ["name"]
        fields = all_fields(self.types, fqn) if typ["k"] == "record" else typ["fields"]
        checks = []
        for _ in range(rng.randint(*self.cfg["checks"])):
            expr = self.gen_check(fields, typ)
            self.check_no += 1
            sev = rng.choice(["error", None, "warning", "warning", "error"])
            if self.chance("fatal"):
                sev = "fatal"
            if self.chance("warn"):
                sev = "warning"
            checks.append({"expr": expr, "sev": sev, "msg": self.message(),
                           "details": "more\n  info" if self.chance("details") else None,
                           "anchor": rng.choice(fields)["name"] if fields and rng.random() < 0.3 else None})
        return {"k": "checks", "for": typ["name"], "checks": checks}

    def message(self):
        if self.messages and self.chance("same_msg"):
            return self.rng.choice(self.messages)
        self.messages.append("chk%u %s" % (self.check_no, self.rng.choice(["failed", "is bad", "must hold"])))
        return self.messages[-1]

    def gen_check(self, fields, typ):
        eg = ExprGen(self, fields)
        best = None
        for _ in range(4):
            expr = eg.boolean(self.rng.randint(1, self.cfg["depth"]))
            best = expr
            if self.rng.random() >= self.cfg["pass_bias"]:
                break
            # prefer checks that discriminate between objects
            break
        return best

    def interleave_checks(self, pkg):
        """Check blocks may follow their type anywhere later in the file."""
        blocks = [i for i in pkg["items"] if i["k"] == "checks"]
        items = [i for i in pkg["items"] if i["k"] != "checks"]
        for block in blocks:
            pos = next(n for n, i in enumerate(items) if i["k"] != "checks" and i["name"] == block["for"])
            last = max([n for n, i in enumerate(items) if i["k"] == "checks" and i["for"] == block["for"]] + [pos])
            items.insert(self.rng.randint(last + 1, len(items)), block)
        pkg["items"] = items


class ExprGen:
    """Typed expression generator over the components of one type."""

    def __init__(self, gen, fields):
        self.gen, self.rng, self.fields = gen, gen.rng, fields
        self.qvars = []
        self.qn = 0

    def names(self, kinds):
        """Expressions of the wanted type with the list of guards (null tests) they need."""
        rv = []
        types = self.gen.types
        for f in self.fields:
            rv.append((["name", f["name"]], f["type"], [["name", f["name"]]] if f["opt"] else []))
        for var, typ in self.qvars:
            rv.append((["name", var], typ, []))
        more = []
        for expr, typ, guards in rv:
            if typ[0] == "tuple":
                for f in types[typ[1]]["fields"]:
                    sub = ["fld", expr, f["name"]]
                    more.append((sub, f["type"], guards + ([sub] if f["opt"] else [])))
            elif typ[0] == "rec":
                # inherited fields cannot be named through a reference to an
                # extension (a static rule of this implementation)
                for f in types[typ[1]]["fields"]:
                    sub = ["fld", expr, f["name"]]
                    more.append((sub, f["type"], guards + ([sub] if f["opt"] else [])))
            elif typ[0] == "union":
                for name, info in union_fields(types, typ[1]).items():
                    if info["type"] is None:
                        continue
                    sub = ["fld", expr, name]
                    more.append((sub, info["type"], guards + ([sub] if info["opt"] or not info["all"] else [])))
            elif typ[0] == "array":
                idx = ["lit", ["int", self.rng.randint(0, 2)]]
                sub = ["idx", expr, idx]
                more.append((sub, typ[1], guards + [["cmp", "<", idx, ["call", "len", [expr]]]]))
        rv += more
        return [x for x in rv if x[1][0] in kinds]

    def leaf(self, kinds, literal):
        cands = self.names(kinds)
        if cands and self.rng.random() < 0.75:
            expr, typ, guards = self.rng.choice(cands)
            self.guards += guards
            return expr
        return literal()

    def guarded(self, build):
        """Wraps a boolean expression with the null/size tests its names need."""
        outer = getattr(self, "guards", None)
        self.guards = []
        expr = build()
        guards = self.guards
        self.guards = outer if outer is not None else []
        if guards and self.rng.random() >= self.gen.cfg["null_unsafe"]:
            for g in reversed(guards):
                test = g if g[0] == "cmp" else ["cmp", "!=", g, ["null"]]
                expr = self.rng.choice([["bin", "implies", test, expr], ["bin", "and", test, expr]]) \
                    if self.rng.random() < 0.3 else ["bin", "implies", test, expr]
        return expr

    def boolean(self, depth):
        rng = self.rng
        if depth <= 0:
            return self.guarded(self.atom)
        roll = rng.random()
        if roll < 0.45:
            return self.guarded(self.atom)
        if roll < 0.7:
            return ["bin", rng.choice(["and", "or", "xor", "implies", "and", "or"]),
                    self.boolean(depth - 1), self.boolean(depth - 1)]
        if roll < 0.78:
            return ["un", "not", self.boolean(depth - 1)]
        if roll < 0.9:
            q = self.quantifier(depth)
            if q:
                return q
        if roll < 0.95:
            return ["if", [[self.boolean(depth - 1), self.boolean(depth - 1)]
                           for _ in range(rng.randint(1, 2))], self.boolean(depth - 1)]
        return ["call", "oneof", [self.boolean(depth - 1) for _ in range(rng.randint(1, 3))]]

    def quantifier(self, depth):
        arrays = [f for f in self.fields if f["type"][0] == "array"]
        if not arrays:
            return None
        f = self.rng.choice(arrays)
        self.gen.names.n += 1
        var = "qv%u" % self.gen.names.n
        self.qvars.append((var, f["type"][1]))
        body = self.boolean(depth - 1)
        self.qvars.pop()
        expr = ["quant", self.rng.choice(["forall", "exists"]), var, f["name"], body]
        if f["opt"] and self.rng.random() >= self.gen.cfg["null_unsafe"]:
            expr = ["bin", "implies", ["cmp", "!=", ["name", f["name"]], ["null"]], expr]
        return expr

    def atom(self):
        rng = self.rng
        roll = rng.random()
        if roll < 0.35:
            return ["cmp", rng.choice(["==", "!=", "<", "<=", ">", ">="]), self.integer(2), self.integer(1)]
        if roll < 0.45:
            return ["range", self.integer(1), self.integer(0), self.integer(0), rng.random() < 0.3]
        if roll < 0.55:
            return ["cmp", rng.choice(["==", "!=", "<", "<=", ">", ">="]), self.decimal(2), self.decimal(1)]
        if roll < 0.75:
            k = rng.random()
            if k < 0.35:
                return ["cmp", rng.choice(["==", "!="]), self.string(1), self.string(1)]
            if k < 0.55:
                return ["contains", self.string(0), self.string(1), rng.random() < 0.3]
            if k < 0.85:
                return ["call", rng.choice(["startswith", "endswith"]), [self.string(1), self.string(0)]]
            return ["call", "matches", [self.string(0), ["lit", ["str", rng.choice(["^po.*", "[a-z ]+$", ".*kit", "x"])]]]]
        if roll < 0.85:
            enums = self.names(("enum",))
            if enums:
                expr, typ, guards = rng.choice(enums)
                self.guards += guards
                lits = self.gen.types[typ[1]]["lits"]
                return ["cmp", rng.choice(["==", "!="]), expr, ["lit", ["enum", typ[1], rng.choice(lits)]]]
        if roll < 0.92:
            arrays = [(e, t, g) for e, t, g in self.names(("array",)) if t[1][0] in ("Integer", "String")]
            if arrays:
                expr, typ, guards = rng.choice(arrays)
                self.guards += guards
                item = self.integer(0) if typ[1][0] == "Integer" else self.string(0, plain=True)
                return ["contains", item, expr, rng.random() < 0.3]
        opts = [f for f in self.fields if f["opt"]]
        if opts and rng.random() < 0.5:
            return ["cmp", rng.choice(["==", "!="]), ["name", rng.choice(opts)["name"]], ["null"]]
        return self.leaf(("Boolean",), lambda: ["lit", ["bool", rng.random() < 0.5]])

    def integer(self, depth):
        rng = self.rng
        if depth > 0 and rng.random() < 0.5:
            roll = rng.random()
            if roll < 0.5:
                return ["bin", rng.choice(["+", "-", "*"]), self.integer(depth - 1), self.integer(depth - 1)]
            if roll < 0.62:
                return ["bin", "/", self.integer(depth - 1), self.integer(depth - 1)]
            if roll < 0.67:
                return ["bin", "%", ["un", "abs", self.integer(depth - 1)], ["un", "abs", self.integer(depth - 1)]]
            if roll < 0.75:
                return ["un", rng.choice(["abs", "-"]), self.integer(depth - 1)]
            if roll < 0.8:
                return ["bin", "**", self.integer(0), ["lit", ["int", rng.randint(0, 3)]]]
            if roll < 0.88:
                return ["call", "Integer", [self.decimal(depth - 1)]]
            arrays = self.names(("array", "String", "Markup_String"))
            if arrays:
                expr, typ, guards = rng.choice(arrays)
                self.guards += guards
                return ["call", "len", [expr]]
        return self.leaf(("Integer",), lambda: ["lit", ["int", rng.choice([0, 1, 2, 3, 5, 10, 42, 100])]])

    def decimal(self, depth):
        rng = self.rng
        if depth > 0 and rng.random() < 0.5:
            roll = rng.random()
            if roll < 0.6:
                return ["bin", rng.choice(["+", "-", "*"]), self.decimal(depth - 1), self.decimal(depth - 1)]
            if roll < 0.75:
                return ["bin", "/", self.decimal(depth - 1), self.decimal(depth - 1)]
            return ["call", "Decimal", [self.integer(depth - 1)]]
        return self.leaf(("Decimal",), lambda: ["lit", ["dec", rng.choice(["0.0", "0.5", "1.5", "2.25", "10.0"])]])

    def string(self, depth, plain=False):
        rng = self.rng
        if depth > 0 and rng.random() < 0.25:
            return ["bin", "+", self.string(0, True), self.string(0, True)]
        return self.leaf(("String",), lambda: ["lit", ["str", rng.choice(TEXTS)]])


# --------------------------------------------------------------------------
# Type helpers (the reference model's view of types)
# --------------------------------------------------------------------------

def spelled_int(rng):
    """An integer in another base, with digit groups or leading zeros."""
    n = rng.choice([0, 1, 5, 10, 42, 255, 4096, 65535, 10 ** 6, 2 ** 64 + 1])
    sign = rng.choice(["", "", "-", "+"])
    kind = rng.randrange(5)
    if kind == 0:
        text = "0x%x" % n
    elif kind == 1:
        text = "0x%X" % n
    elif kind == 2:
        text = "0b" + bin(n)[2:]
    else:
        text = "0" * rng.choice([0, 1, 2]) + str(n)
    if len(text) > 4 and rng.random() < 0.6:
        cut = rng.randint(3, len(text) - 1)
        text = text[:cut] + "_" + text[cut:]
    return ["int", -n if sign == "-" else n, sign + text]


def spelled_dec(rng):
    a, b = rng.choice(["0", "1", "007", "1_000", "3", "123456789"]), rng.choice(["0", "5", "50", "001", "1415_9265", "000_1"])
    sign = rng.choice(["", "", "-", "+"])
    return ["dec", sign.replace("+", "") + a.replace("_", "") + "." + b.replace("_", ""), sign + a + "." + b]


def quoting(rng):
    """How a text is written between triple quotes: quotes, indentation, blanks at line ends, blanks around."""
    return [rng.choice(["'''", '"""']), rng.choice(["", "  ", "    ", "\t", " \t "]), rng.choice(["", "", "", " ", "  \t"]),
            rng.choice(["", "", " ", "\n", "\n   "]), rng.choice(["", "", " ", "\n", "\n\n  "])]


def r_quoted(text, how):
    quote, indent, trail, before, after = how
    if quote[0] in text[-1:] and not after:
        after = " "
    lines = text.split("\n")
    rv = lines[0]
    for line in lines[1:]:
        rv += trail + "\n" + (indent + line if line else "")
    return quote + before + rv + after + quote


def type_names(typ):
    if typ[0] in ("enum", "tuple", "rec"):
        return [typ[1]]
    if typ[0] == "union":
        return list(typ[1])
    if typ[0] == "array":
        return type_names(typ[1])
    return []


def base_type(typ):
    return base_type(typ[1]) if typ[0] == "array" else typ


def type_map(model):
    return {p["name"] + "." + i["name"]: i for p in model["pkgs"] for i in p["items"] if i["k"] != "checks"}


def all_fields(types, fqn):
    typ = types[fqn]
    if typ["k"] == "tuple":
        return typ["fields"]
    rv = all_fields(types, typ["parent"]) if typ["parent"] else []
    return rv + typ["fields"]


def field_type(types, fqn, name):
    return next(f["type"] for f in all_fields(types, fqn) if f["name"] == name)


def frozen_of(types, fqn):
    typ = types[fqn]
    rv = frozen_of(types, typ["parent"]) if typ["parent"] else {}
    rv.update(typ["freeze"])
    return rv


def is_subtype(types, fqn, base):
    while fqn:
        if fqn == base:
            return True
        fqn = types[fqn]["parent"]
    return False


def union_fields(types, members):
    rv = {}
    for m in members:
        for f in all_fields(types, m):
            if f["name"] not in rv:
                rv[f["name"]] = {"type": f["type"], "n": 1, "opt": f["opt"]}
            else:
                info = rv[f["name"]]
                info["n"] += 1
                info["opt"] = info["opt"] or f["opt"]
                # structural types other than the builtins are distinct objects
                if info["type"] != f["type"] or f["type"][0] in ("array", "union"):
                    if info["type"] is not f["type"]:
                        info["type"] = None
    for info in rv.values():
        info["all"] = info["n"] == len(members)
    return rv


def refs_in(val):
    if val[0] == "ref":
        return [(val[1], val[2])]
    if val[0] == "arr":
        return [r for v in val[1] for r in refs_in(v)]
    if val[0] == "tup":
        return [r for v in val[2].values() for r in refs_in(v)]
    if val[0] == "mstr":
        return [(r[1], r[2]) for r in val[2]]
    return []


def enums_in(val):
    if val[0] == "enum":
        return [val[1]]
    if val[0] == "arr":
        return [r for v in val[1] for r in enums_in(v)]
    if val[0] == "tup":
        return [r for v in val[2].values() for r in enums_in(v)]
    return []


# --------------------------------------------------------------------------
# Rendering
# --------------------------------------------------------------------------

def qual(fqn, pkg):
    owner, name = fqn.split(".")
    return name if owner == pkg else fqn


def r_type(typ, pkg):
    k = typ[0]
    if k in ("enum", "tuple", "rec"):
        return qual(typ[1], pkg)
    if k == "union":
        return "[" + ", ".join(qual(t, pkg) for t in typ[1]) + "]"
    if k == "array":
        return "%s [%u .. %s]" % (r_type(typ[1], pkg), typ[2], "*" if typ[3] is None else typ[3])
    return k


def markup_text(val, pkg):
    text = val[1]
    refs = val[2]
    if refs:
        text += "[[" + ", ".join(r[2] if r[1] == pkg else r[1] + "." + r[2] for r in refs) + "]]"
    return text


def r_value(val, pkg, types):
    k = val[0]
    if k == "int":
        return val[2] if len(val) > 2 else str(val[1])
    if k == "dec":
        return val[2] if len(val) > 2 else val[1]
    if k == "bool":
        return "true" if val[1] else "false"
    if k == "str":
        return r_quoted(val[1], val[2]) if len(val) > 2 else '"%s"' % val[1]
    if k == "mstr":
        if len(val) > 3:
            return r_quoted(markup_text(val, pkg), val[3])
        return '"%s"' % markup_text(val, pkg)
    if k == "enum":
        return qual(val[1], pkg) + "." + val[2]
    if k == "ref":
        return val[2] if val[1] == pkg else val[1] + "." + val[2]
    if k == "arr":
        return "[" + ", ".join(r_value(v, pkg, types) for v in val[1]) + "]"
    if k == "tup":
        typ = types[val[1]]
        parts = [r_value(val[2][f["name"]], pkg, types) for f in typ["fields"] if f["name"] in val[2]]
        if not typ["seps"]:
            return "(" + ", ".join(parts) + ")"
        rv = parts[0]
        for sep, part in zip(typ["seps"], parts[1:]):
            rv += " %s %s" % (sep, part)
        return rv
    raise AssertionError(val)


def r_expr(e, pkg):
    k = e[0]
    if k == "lit":
        v = e[1]
        if v[0] in ("int", "dec") and str(v[1]).startswith("-"):
            return "(-%s)" % str(v[1])[1:]
        return r_value(v, pkg, {})
    if k == "null":
        return "null"
    if k == "name":
        return e[1]
    if k == "fld":
        return "%s.%s" % (r_expr(e[1], pkg), e[2])
    if k == "idx":
        return "%s[%s]" % (r_expr(e[1], pkg), r_expr(e[2], pkg))
    if k == "un":
        if e[1] == "-":
            return "(-(%s))" % r_expr(e[2], pkg)
        return "(%s (%s))" % (e[1], r_expr(e[2], pkg))
    if k in ("bin", "cmp"):
        return "(%s %s %s)" % (r_expr(e[2], pkg), e[1], r_expr(e[3], pkg))
    if k == "range":
        return "(%s %s %s .. %s)" % (r_expr(e[1], pkg), "not in" if e[4] else "in", r_expr(e[2], pkg), r_expr(e[3], pkg))
    if k == "contains":
        return "(%s %s %s)" % (r_expr(e[1], pkg), "not in" if e[3] else "in", r_expr(e[2], pkg))
    if k == "call":
        return "%s(%s)" % (e[1], ", ".join(r_expr(a, pkg) for a in e[2]))
    if k == "quant":
        return "(%s %s in %s => %s)" % (e[1], e[2], e[3], r_expr(e[4], pkg))
    if k == "if":
        rv = "(if %s then %s" % (r_expr(e[1][0][0], pkg), r_expr(e[1][0][1], pkg))
        for c, x in e[1][1:]:
            rv += " elsif %s then %s" % (r_expr(c, pkg), r_expr(x, pkg))
        return rv + " else %s)" % r_expr(e[2], pkg)
    raise AssertionError(e)


def r_item(item, pkg, types):
    descr = ' "%s"' % item["descr"] if item.get("descr") else ""
    if item["k"] == "enum":
        return "enum %s%s {\n%s}\n" % (item["name"], descr, "".join("  %s\n" % x for x in item["lits"]))
    if item["k"] == "tuple":
        rv = "tuple %s%s {\n" % (item["name"], descr)
        for i, f in enumerate(item["fields"]):
            if i and item["seps"]:
                rv += "  separator %s\n" % item["seps"][i - 1]
            rv += "  %s %s%s\n" % (f["name"], "optional " if f["opt"] else "", r_type(f["type"], pkg))
        return rv + "}\n"
    if item["k"] == "record":
        rv = "%stype %s%s" % ("abstract " if item["abstract"] else "final " if item["final"] else "", item["name"], descr)
        if item["parent"]:
            rv += " extends %s" % qual(item["parent"], pkg)
        rv += " {\n"
        for f in item["fields"]:
            rv += "  %s %s%s\n" % (f["name"], "optional " if f["opt"] else "", r_type(f["type"], pkg))
        for name, val in item["freeze"].items():
            rv += "  freeze %s = %s\n" % (name, r_value(val, pkg, types))
        return rv + "}\n"
    rv = "checks %s {\n" % item["for"]
    for c in item["checks"]:
        rv += "  %s, %s\"%s\"" % (strip_parens(r_expr(c["expr"], pkg)), c["sev"] + " " if c["sev"] else "", c["msg"])
        if c["details"]:
            rv += ", '''%s'''" % c["details"]
        if c["anchor"]:
            rv += ", " + c["anchor"]
        rv += "\n"
    return rv + "}\n"


def strip_parens(text):
    return text


def r_object(obj, types, indent="", file_pkg=None):
    pkg = obj["pkg"]
    rv = "%s%s %s {\n" % (indent, qual(obj["type"], pkg), obj["name"])
    for name, val in obj["vals"].items():
        rv += "%s  %s = %s\n" % (indent, name, r_value(val, pkg, types))
    return rv + indent + "}\n"


def obj_needs(obj, types):
    """Packages a file containing this object must import."""
    need = {obj["type"].split(".")[0]}
    for val in obj["vals"].values():
        need |= {r[0] for r in refs_in(val)}
        need |= {e.split(".")[0] for e in enums_in(val)}
    need.discard(obj["pkg"])
    return need


def rsl_text(pkg, types, rng=None):
    rv = "package %s\n" % pkg["name"]
    for imp in pkg["imports"]:
        rv += "import %s\n" % imp
    chunks = [rv]
    for item in pkg["items"]:
        text = "\n" + r_item(item, pkg["name"], types)
        chunks.append(text)
    return chunks


def trlc_chunks(pkg, objs, types, extra_imports=(), merge_sections=True):
    need = set(extra_imports)
    for obj in objs:
        need |= obj_needs(obj, types)
    need.discard(pkg)
    rv = "package %s\n" % pkg + "".join("import %s\n" % n for n in sorted(need))
    chunks = [rv]
    if merge_sections == "nest":
        # sections stay open as long as the next object is in them, too
        cur, text = [], "\n"
        for obj in objs:
            n = 0
            while n < min(len(cur), len(obj["section"])) and cur[n] == obj["section"][n]:
                n += 1
            for depth in reversed(range(n, len(cur))):
                text += "%s}\n" % ("  " * depth)
            cur = cur[:n]
            for name in obj["section"][n:]:
                text += "%ssection \"%s\" {\n" % ("  " * len(cur), name)
                cur = cur + [name]
            text += r_object(obj, types, "  " * len(cur))
        for depth in reversed(range(len(cur))):
            text += "%s}\n" % ("  " * depth)
        return chunks + [text]
    i = 0
    while i < len(objs):
        sec = objs[i]["section"]
        group = [objs[i]]
        while merge_sections and i + 1 < len(objs) and objs[i + 1]["section"] == sec:
            i += 1
            group.append(objs[i])
        i += 1
        text = ""
        for depth, name in enumerate(sec):
            text += "%ssection \"%s\" {\n" % ("  " * depth, name)
        for obj in group:
            text += r_object(obj, types, "  " * len(sec))
        for depth in reversed(range(len(sec))):
            text += "%s}\n" % ("  " * depth)
        chunks.append("\n" + text)
    return chunks


FILE_WORDS = ["a", "z", "main", "reqs", "model", "Zeta", "x-1", "b", "data", "sub", "_t"]


def layout(model, rng, dirs=None, per_file=None):
    """Distributes the model over files.  Returns a list of
    {"path", "pkg", "kind", "objs": [indices]} with distinct paths."""
    dirs = dirs if dirs is not None else rng.choice([[""], ["", "lib"], ["a", "b", "a/c"], ["z", "a", "m/n/o"]])
    files, used = [], set()

    def fresh(ext):
        for _ in range(100):
            d = rng.choice(dirs)
            name = rng.choice(FILE_WORDS) + (str(rng.randint(0, 9)) if rng.random() < 0.4 else "")
            path = (d + "/" if d else "") + name + ext
            if path not in used:
                used.add(path)
                return path
        n = len(used)
        path = "f%u%s" % (n, ext)
        used.add(path)
        return path

    for pkg in model["pkgs"]:
        if pkg["rsl"]:
            files.append({"path": fresh(".rsl"), "pkg": pkg["name"], "kind": "rsl", "objs": []})
    for pkg in model["pkgs"]:
        idx = [i for i, o in enumerate(model["objs"]) if o["pkg"] == pkg["name"]]
        rng.shuffle(idx)
        while idx:
            n = rng.randint(1, len(idx)) if per_file is None else per_file
            part, idx = idx[:n], idx[n:]
            files.append({"path": fresh(".trlc"), "pkg": pkg["name"], "kind": "trlc", "objs": part})
        if not pkg["rsl"] and not any(o["pkg"] == pkg["name"] for o in model["objs"]):
            files.append({"path": fresh(".trlc"), "pkg": pkg["name"], "kind": "trlc", "objs": []})
    return files


def file_chunks(model, f, types=None):
    types = types or type_map(model)
    if f["kind"] == "rsl":
        return rsl_text(next(p for p in model["pkgs"] if p["name"] == f["pkg"]), types)
    objs = [model["objs"][i] for i in f["objs"] if i < len(model["objs"])]
    return trlc_chunks(f["pkg"], objs, types, f.get("extra_imports", ()), f.get("merge", True))


def render(model, files):
    types = type_map(model)
    return {f["path"]: "".join(file_chunks(model, f, types)) for f in files}


# --------------------------------------------------------------------------
# Reference model: values and checks
# --------------------------------------------------------------------------

def unescape(text):
    return text.replace('\\"', '"')


def py_value(val, pkg):
    """What the API's plain-Python view must show for a value."""
    k = val[0]
    if k == "int":
        return val[1]
    if k == "dec":
        return Fraction(val[1])
    if k == "bool":
        return val[1]
    if k == "str":
        return unescape(val[1])
    if k == "mstr":
        return unescape(markup_text(val, pkg))
    if k == "enum":
        return val[2]
    if k == "ref":
        return val[1] + "." + val[2]
    if k == "arr":
        return [py_value(v, pkg) for v in val[1]]
    if k == "tup":
        return {n: py_value(v, pkg) for n, v in val[2].items()}
    raise AssertionError(val)


def expected_object(model, types, obj):
    rv = {}
    frozen = frozen_of(types, obj["type"])
    for f in all_fields(types, obj["type"]):
        if f["name"] in frozen:
            owner = obj["type"]
            while f["name"] not in types[owner]["freeze"]:
                owner = types[owner]["parent"]
            rv[f["name"]] = full_tuple(py_value(frozen[f["name"]], owner.split(".")[0]), f["type"], types)
        elif f["name"] in obj["vals"]:
            rv[f["name"]] = full_tuple(py_value(obj["vals"][f["name"]], obj["pkg"]), f["type"], types)
        else:
            rv[f["name"]] = None
    return rv


def floats(x):
    if isinstance(x, Fraction):
        return float(x)
    if isinstance(x, dict):
        return {k: floats(v) for k, v in x.items()}
    if isinstance(x, list):
        return [floats(v) for v in x]
    return x


def full_tuple(val, typ, types):
    """Omitted optional tuple fields read as None."""
    if typ[0] == "tuple" and isinstance(val, dict):
        return {f["name"]: full_tuple(val.get(f["name"]), f["type"], types) for f in types[typ[1]]["fields"]}
    if typ[0] == "array" and isinstance(val, list):
        return [full_tuple(v, typ[1], types) for v in val]
    return val


def _ref_places(val, typ, types):
    """All references in a value, with the types expected there"""
    if val[0] == "ref":
        return [(val, typ)]
    if val[0] == "mstr":
        return [(r, ["any"]) for r in val[2]]
    if val[0] == "arr":
        return [x for v in val[1] for x in _ref_places(v, typ[1], types)]
    if val[0] == "tup":
        return [x for f in types[typ[1]]["fields"] if f["name"] in val[2] for x in _ref_places(val[2][f["name"]], f["type"], types)]
    return []


def valid_references(model):
    """The set of objects with an invalid reference, by the language rules."""
    types = type_map(model)
    index = {(o["pkg"], o["name"]): o for o in model["objs"]}
    bad = []
    for obj in model["objs"]:
        for name, val in obj["vals"].items():
            typ = field_type(types, obj["type"], name)
            if not _refs_ok(val, typ, types, index):
                bad.append(obj["pkg"] + "." + obj["name"])
                break
    return bad


def _refs_ok(val, typ, types, index):
    if val[0] == "ref":
        if (val[1], val[2]) not in index:
            return False
        members = [typ[1]] if typ[0] == "rec" else typ[1]
        return any(is_subtype(types, index[(val[1], val[2])]["type"], m) for m in members)
    if val[0] == "arr":
        return all(_refs_ok(v, typ[1], types, index) for v in val[1])
    if val[0] == "tup":
        return all(_refs_ok(val[2][f["name"]], f["type"], types, index)
                   for f in types[typ[1]]["fields"] if f["name"] in val[2])
    if val[0] == "mstr":
        return all((r[1], r[2]) in index for r in val[2])
    return True


class EvalErr(Exception):
    """The evaluation itself is an error (null, division by zero, index)."""


class Evaluator:
    def __init__(self, model):
        self.model = model
        self.types = type_map(model)
        self.index = {(o["pkg"], o["name"]): o for o in model["objs"]}
        self.checks = {}
        for pkg in model["pkgs"]:
            for item in pkg["items"]:
                if item["k"] == "checks":
                    self.checks.setdefault(pkg["name"] + "." + item["for"], []).extend(item["checks"])
        self.reach = set()

    def fields_of(self, obj):
        rv = dict(frozen_of(self.types, obj["type"]))
        rv.update(obj["vals"])
        return rv

    def conv(self, val):
        if val is None:
            return None
        k = val[0]
        if k in ("int", "bool"):
            return val[1]
        if k == "dec":
            return Fraction(val[1])
        if k == "str":
            return unescape(val[1])
        if k == "mstr":
            # text as seen from its own package; length etc. only
            return ("MSTR", val)
        if k == "enum":
            return ("enum", val[1], val[2])
        if k == "arr":
            return list(val[1])
        if k == "tup":
            return val
        if k == "ref":
            return val
        raise AssertionError(val)

    def need(self, value):
        if value is None:
            self.reach.add("null-error")
            raise EvalErr("null")
        return value

    def text(self, value, env):
        if isinstance(value, tuple) and value[0] == "MSTR":
            return unescape(markup_text(value[1], env["pkg_of_markup"](value[1])))
        return value

    def ev(self, e, env):
        k = e[0]
        if k == "lit":
            return self.conv(e[1])
        if k == "null":
            return None
        if k == "name":
            if e[1] in env["q"]:
                return self.conv(env["q"][e[1]])
            return self.conv(env["f"].get(e[1]))
        if k == "fld":
            pre = self.need(self.ev(e[1], env))
            if pre[0] == "tup":
                return self.conv(pre[2].get(e[2]))
            target = self.index[(pre[1], pre[2])]
            return self.conv(self.fields_of(target).get(e[2]))
        if k == "idx":
            arr = self.need(self.ev(e[1], env))
            i = self.need(self.ev(e[2], env))
            if i < 0 or i >= len(arr):
                self.reach.add("index-error")
                raise EvalErr("index")
            return self.conv(arr[i])
        if k == "un":
            v = self.need(self.ev(e[2], env))
            return {"not": lambda: not v, "abs": lambda: abs(v), "-": lambda: -v}[e[1]]()
        if k == "bin":
            a = self.need(self.ev(e[2], env))
            op = e[1]
            if op == "and":
                return a if not a else self.ev(e[3], env)
            if op == "or":
                return a if a else self.ev(e[3], env)
            if op == "implies":
                return self.ev(e[3], env) if a else True
            b = self.need(self.ev(e[3], env))
            if op == "xor":
                return a != b
            if op in ("/", "%") and b == 0:
                self.reach.add("div-zero")
                raise EvalErr("div")
            if op == "/":
                return a // b if isinstance(a, int) else a / b
            if op == "%":
                return a % b
            if op == "**":
                return a ** b
            a, b = self.text(a, env), self.text(b, env)
            return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b}[op]()
        if k == "cmp":
            a, b = self.ev(e[2], env), self.ev(e[3], env)
            a, b = self.text(a, env), self.text(b, env)
            if e[1] == "==":
                return a == b
            if e[1] == "!=":
                return a != b
            self.need(a)
            self.need(b)
            return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[e[1]]
        if k == "range":
            x, lo, hi = (self.need(self.ev(a, env)) for a in e[1:4])
            rv = lo <= x <= hi
            return not rv if e[4] else rv
        if k == "contains":
            a = self.text(self.need(self.ev(e[1], env)), env)
            b = self.text(self.need(self.ev(e[2], env)), env)
            if isinstance(b, list):
                rv = a in [self.conv(x) for x in b]
            else:
                rv = a in b
            return not rv if e[3] else rv
        if k == "call":
            fn = e[1]
            if fn == "oneof":
                return [self.ev(a, env) for a in e[2]].count(True) == 1
            args = [self.text(self.need(self.ev(a, env)), env) for a in e[2]]
            if fn == "len":
                return len(args[0])
            if fn == "startswith":
                return args[0].startswith(args[1])
            if fn == "endswith":
                return args[0].endswith(args[1])
            if fn == "matches":
                return re.match(args[1], args[0]) is not None
            if fn == "Decimal":
                return Fraction(args[0])
            if fn == "Integer":
                v = args[0]
                q = (abs(v) + Fraction(1, 2)) // 1
                return int(q) if v >= 0 else -int(q)
        if k == "quant":
            arr = env["f"].get(e[3])
            if arr is None:
                self.reach.add("quant-null")
                raise EvalErr("null")
            for val in arr[1]:
                sub = dict(env, q=dict(env["q"], **{e[2]: val}))
                r = self.need(self.ev(e[4], sub))
                if e[1] == "forall" and not r:
                    return False
                if e[1] == "exists" and r:
                    return True
            return e[1] == "forall"
        if k == "if":
            for c, x in e[1]:
                if self.need(self.ev(c, env)):
                    return self.ev(x, env)
            return self.ev(e[2], env)
        raise AssertionError(e)

    def run_checks(self, fqn, fields, out, pkg_of):
        for check in self.checks.get(fqn, []):
            value = self.ev(check["expr"], {"f": fields, "q": {}, "pkg_of_markup": pkg_of})
            if value is None:
                self.reach.add("check-null")
                raise EvalErr("null")
            if not value:
                sev = check["sev"] or "error"
                self.reach.add("fail-" + sev)
                out.append(("check warning" if sev == "warning" else "check error", check["msg"]))
                if sev == "fatal":
                    raise EvalErr("fatal")

    def run_type_checks(self, val, out, pkg_of):
        if val is None:
            return
        if val[0] == "tup":
            for f in self.types[val[1]]["fields"]:
                self.run_type_checks(val[2].get(f["name"]), out, pkg_of)
            self.run_checks(val[1], val[2], out, pkg_of)
        elif val[0] == "arr":
            for v in val[1]:
                self.run_type_checks(v, out, pkg_of)

    def expected(self, obj):
        """Ordered diagnostics of one object: (kind, message or None)."""
        out = []
        self.fatal = False
        fields = self.fields_of(obj)
        # markup texts render relative to the package they were written in
        owner = {}
        for o in self.model["objs"]:
            for v in o["vals"].values():
                _note_markup(v, o["pkg"], owner)

        def pkg_of(mval):
            return owner.get(id(mval), obj["pkg"])
        try:
            for f in all_fields(self.types, obj["type"]):
                self.run_type_checks(fields.get(f["name"]), out, pkg_of)
            chain = []
            fqn = obj["type"]
            while fqn:
                chain.insert(0, fqn)
                fqn = self.types[fqn]["parent"]
            for fqn in chain:
                self.run_checks(fqn, fields, out, pkg_of)
        except EvalErr as err:
            self.fatal = str(err) == "fatal"
            if not self.fatal:
                out.append(("error", None))
        return out


def _note_markup(val, pkg, owner):
    if val[0] == "mstr":
        owner[id(val)] = pkg
    elif val[0] == "arr":
        for v in val[1]:
            _note_markup(v, pkg, owner)
    elif val[0] == "tup":
        for v in val[2].values():
            _note_markup(v, pkg, owner)


# --------------------------------------------------------------------------
# Same names in several packages
# --------------------------------------------------------------------------

def collide(model, rng):
    """Renames types, literals and objects so that unrelated packages use the
    same names (they stay distinct within each package)."""
    import copy
    model = copy.deepcopy(model)
    fqns, lits, objs = {}, {}, {}
    for pkg in model["pkgs"]:
        pool = ["Kind", "Thing", "Part", "Base", "Extra", "Other", "Last", "More"]
        rng.shuffle(pool)
        for n, item in enumerate(i for i in pkg["items"] if i["k"] != "checks"):
            new = pool[n] if n < len(pool) else "Type%u" % n
            fqns[pkg["name"] + "." + item["name"]] = pkg["name"] + "." + new
            if item["k"] == "enum":
                for k, lit in enumerate(item["lits"]):
                    lits[pkg["name"] + "." + item["name"], lit] = ["low", "mid", "high", "max"][k % 4] + ("" if k < 4 else str(k))
    for pkg in model["pkgs"]:
        n = 0
        numbers = list(range(1, 1 + sum(o["pkg"] == pkg["name"] for o in model["objs"])))
        rng.shuffle(numbers)
        for o in model["objs"]:
            if o["pkg"] == pkg["name"]:
                objs[o["pkg"], o["name"]] = "it_%u" % numbers[n]
                n += 1

    def walk(x):
        if isinstance(x, list):
            if len(x) == 3 and x[0] == "ref":
                return ["ref", x[1], objs.get((x[1], x[2]), x[2])]
            if len(x) == 3 and x[0] == "enum":
                return ["enum", fqns[x[1]], lits[x[1], x[2]]]
            return [walk(y) for y in x]
        if isinstance(x, dict):
            return {k: walk(v) for k, v in x.items()}
        return fqns.get(x, x) if isinstance(x, str) else x

    for pkg in model["pkgs"]:
        for item in pkg["items"]:
            if item["k"] == "checks":
                item["for"] = fqns[pkg["name"] + "." + item["for"]].split(".")[1]
            else:
                old = pkg["name"] + "." + item["name"]
                if item["k"] == "enum":
                    item["lits"] = [lits[old, x] for x in item["lits"]]
                item["name"] = fqns[old].split(".")[1]
    for o in model["objs"]:
        o["name"] = objs[o["pkg"], o["name"]]
    return walk(model)
