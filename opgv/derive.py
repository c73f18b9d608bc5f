"""Checks over generated type definitions: C01-C05."""
from . import schema as S
from .core import Case, Family, run_programs
from .lang import Gen, Layout, generalize, render_def, unraw, users


def base(o):
    """problems that are violations of every property over accepted programs"""
    if o.kind == "compile":
        return ["a definition in the supported language is rejected: " + "; ".join(o.detail[:3])]
    if o.kind == "panic":
        return ["panic while describing: %s" % o.detail]
    if o.kind == "crash":
        return ["crash while describing: %s" % o.detail]
    return None


class Prog:
    """definitions, plus statements of the run function"""

    def __init__(self, g, derives=("Serialize", "OpgModel")):
        self.g = g
        self.lay = Layout(g.src, free=True)
        names, gens = g.names(), []
        for i, d in enumerate(g.defs):
            gens.append(generalize(g.src, i, d, names) if g.src.prob(12) else ("", "", None))
            if gens[-1][0]:
                g.labels.add("with parameters")
        self.defs_text = [render_def(d, names, self.lay, derives, *x) for d, x in zip(g.defs, gens)]
        self.stmts = []
        self.vals = []      # (key, def index, variant index or None, mode)

    def value(self, i, mode="any", vi=None, skip=False, depth=4):
        d = self.g.defs[i]
        if d.kind == "enum" and vi is None and not self.g.variant_choices(d):
            return
        v = self.g.user_value(i, mode, depth, None if vi is None else d.variants[vi])
        key = "v%d" % len(self.vals)
        self.stmts.append("{ let x: %s = %s; o.val_sk(%s, %s, &x); }" % (d.name, v, '"%s"' % key, str(skip).lower()))
        self.vals.append((key, i, vi, mode))

    def schema(self, i):
        self.stmts.append('o.schema::<%s>("s%d");' % (self.g.defs[i].name, i))

    def mention(self, i):
        self.stmts.append('o.mention::<%s>("m%d", false);' % (self.g.defs[i].name, i))

    def body(self):
        return "use rt::prelude::*;\n%s\npub fn run(o: &mut Out) {\n    %s\n}" % (
            "\n".join(self.defs_text), "\n    ".join(self.stmts))

    def sample(self):
        return "\n".join(self.defs_text)

    def case(self, nontrivial, data=None):
        g = self.g
        return Case(self.body(), self.sample(), sorted(g.labels), nontrivial,
                    {"defs": g.defs, "vals": self.vals, "model": g.model, "extra": data})


# ---------------------------------------------------------------- C01

def gen_c01(src):
    g = Gen(src, conform=True, ann=src.pick([24, 0, 45]))
    g.universe()
    p = Prog(g)
    for i, d in enumerate(g.defs):
        p.mention(i)
        if d.kind == "enum":
            for vi, v in enumerate(d.variants):
                if v in g.variant_choices(d):
                    p.value(i, "any", vi, skip=src.prob(30))
            p.value(i, "full")
        else:
            p.value(i, "full")
            p.value(i, "min", skip=True)
            p.value(i, "any")
    nt = any(d.kind == "enum" or len(d.fields) > 1 for d in g.defs)
    return p.case(nt)


def judge_c01(c, o):
    b = base(o)
    if b:
        return b
    out = []
    for key, i, vi, mode in c.data["vals"]:
        d = c.data["defs"][i]
        m = o.json("m%d" % i)
        v = o.json(key)
        if isinstance(v, dict) and "!err" in v:
            out.append("generator: value of %s is not serializable: %s" % (d.name, v["!err"]))
            continue
        e = S.validate(m["r"], v, m["c"].get("schemas", {}))
        if e:
            out.append("%s: serialized value %.300s is rejected by its schema: %s" % (d.name, o.items[key], e))
    return out


# ---------------------------------------------------------------- locating the node of a variant

def variant_node(d, vi, s):
    """schema node describing the content of a variant (by position among the serialized ones)"""
    vs = [k for k, v in enumerate(d.variants) if not v.hidden]
    tg = d.tagging
    if tg in ("unt", "int", "repr"):
        alts, pos = s.get("oneOf"), vs.index(vi)
    elif tg == "ext":
        alts, pos = s.get("additionalProperties", {}).get("oneOf"), vs.index(vi)
    elif tg == "adj":
        with_c = [k for k in vs if d.variants[k].wire_style != "unit"]
        if vi not in with_c:
            return None
        alts, pos = s.get("properties", {}).get(d.content, {}).get("oneOf"), with_c.index(vi)
    else:
        return None
    if not isinstance(alts, list) or pos >= len(alts):
        return None
    return alts[pos]


def variant_content(d, vi, v):
    tg = d.tagging
    if tg in ("unt", "int", "repr", "units"):
        return v
    if tg == "ext":
        return list(v.values())[0] if isinstance(v, dict) and len(v) == 1 else v
    return v.get(d.content)


# ---------------------------------------------------------------- C02

def gen_c02(src):
    g = Gen(src, ann=20, kinds=["struct", "struct", "enum"], max_defs=2)
    g.universe()
    p = Prog(g)
    n = 0
    for i, d in enumerate(g.defs):
        p.schema(i)
        if d.kind == "struct" and not d.transparent:
            p.value(i, "full", depth=2)
            p.value(i, "min", skip=True, depth=2)
            n += any(f.hidden or f.optional or f.rename for f in d.fields) or d.tag is not None
        elif d.kind == "struct":
            p.value(i, "full", depth=2)
            n += 1
        elif d.kind == "enum":
            for vi, v in enumerate(d.variants):
                if v.style == "struct" and not v.hidden:
                    p.value(i, "full", vi, depth=2)
                    p.value(i, "min", vi, skip=True, depth=2)
                    n += any(f.hidden or f.optional for f in v.fields)
    return p.case(n > 0)


def judge_c02(c, o):
    b = base(o)
    if b:
        return b
    out = []
    vals = c.data["vals"]
    for key, i, vi, mode in vals:
        if mode != "full":
            continue
        d = c.data["defs"][i]
        full = o.json(key)
        s = o.json("s%d" % i)["s"]
        if d.transparent:
            # transparent: the schema is that of the field; nothing is listed on top of it
            if not isinstance(full, dict) and s.get("type") == "object" and "properties" in s \
                    and not d.transparent_field().ann.explicit and not d.ann.explicit:
                out.append("%s: transparent struct is listed as an object" % d.name)
            continue
        mn = o.json([k for k, a, b_, m in vals if (a, b_, m) == (i, vi, "min")][0])
        if vi is None:
            where, node, fields = d.name, s, d.fields
        else:
            v = d.variants[vi]
            where, node, fields = "%s::%s" % (d.name, v.ident), variant_node(d, vi, s), v.fields
            full, mn = variant_content(d, vi, full), variant_content(d, vi, mn)
            if node is None:
                out.append("%s: no schema for this variant" % where)
                continue
        if not isinstance(full, dict) or not isinstance(mn, dict):
            out.append("generator: %s is not an object" % where)
            continue
        props = set(node.get("properties", {}))
        if node.get("type") != "object":
            out.append("%s: written as an object with keys %s, described as %.200r" % (where, list(full), node))
            continue
        if props != set(full):
            out.append("%s: serde writes %s, the schema lists %s" % (where, sorted(full), sorted(props)))
            continue
        keys = list(full)
        shown = [f for f in fields if not f.hidden]
        if len(keys) != len(shown):
            keys = keys[len(keys) - len(shown):]       # leading tag
        declared_optional = {k for k, f in zip(keys, shown) if f.ann.optional}
        want = sorted(set(mn) - declared_optional)
        req = node.get("required", [])
        if sorted(req) != want:
            out.append("%s: unconditionally written and not optional: %s, required lists %s" % (where, want, sorted(req)))
    return out


# ---------------------------------------------------------------- C03

def gen_c03(src):
    g = Gen(src, ann=0, max_defs=2, kinds=["struct", "enum", "enum"], scalars=["String", "i32", "bool"])
    g.universe()
    p = Prog(g)
    n = 0
    for i, d in enumerate(g.defs):
        p.schema(i)
        n += bool(d.rename_all or d.rename)
        if d.kind == "enum":
            for vi, v in enumerate(d.variants):
                if not v.hidden:
                    p.value(i, "full", vi, depth=2)
                    n += bool(v.rename or v.rename_all)
        elif not d.transparent:
            p.value(i, "full", depth=2)
            n += any(f.rename for f in d.fields)
    return p.case(n > 0)


def judge_c03(c, o):
    b = base(o)
    if b:
        return b
    out = []
    lists = {}
    for key, i, vi, mode in c.data["vals"]:
        d = c.data["defs"][i]
        v = o.json(key)
        s = o.json("s%d" % i)["s"]
        if d.kind == "struct":
            if set(s.get("properties", {})) != set(v):
                out.append("%s: serde writes %s, the schema names %s" % (d.name, sorted(v), sorted(s.get("properties", {}))))
            if d.tag is not None and s["properties"].get(d.tag, {}).get("enum") != [v.get(d.tag)]:
                out.append("%s: tag value is %r, the schema has %r" % (d.name, v.get(d.tag), s["properties"].get(d.tag)))
            continue
        tg = d.tagging
        var = d.variants[vi]
        where = "%s::%s" % (d.name, var.ident)
        node = variant_node(d, vi, s)
        if tg == "units":
            lists.setdefault((i, "enum"), []).append(v)
        elif tg == "adj":
            lists.setdefault((i, "tag"), []).append(v.get(d.tag))
        elif tg == "int":
            if node is None or node.get("properties", {}).get(d.tag, {}).get("enum") != [v.get(d.tag)]:
                out.append("%s: tag value is %r, the schema has %.300r" % (where, v.get(d.tag), node))
                continue
        elif tg == "ext" and var.wire_style == "unit":
            if node is None or node.get("enum") != [v]:
                out.append("%s: written as %r, the schema has %.300r" % (where, v, node))
                continue
        if var.style == "struct" and node is not None:
            cont = variant_content(d, vi, v)
            if set(node.get("properties", {})) != set(cont):
                out.append("%s: serde writes %s, the schema names %s" % (where, sorted(cont), sorted(node.get("properties", {}))))
    for (i, what), names in lists.items():
        d = c.data["defs"][i]
        s = o.json("s%d" % i)["s"]
        got = s.get("enum") if what == "enum" else s.get("properties", {}).get(d.tag, {}).get("enum")
        if got != names:
            out.append("%s: variants are written as %r, the schema lists %r" % (d.name, names, got))
    return out


# ---------------------------------------------------------------- C04

def gen_c04(src):
    g = Gen(src, conform=True, ann=src.pick([10, 0, 30]), kinds=["enum", "enum", "enum", "struct"], max_defs=3,
            tag_bias=src.pick([None, "ext", "int", "adj", "unt", "repr", "units"]))
    g.universe()
    p = Prog(g)
    n = 0
    for i, d in enumerate(g.defs):
        if d.kind != "enum":
            continue
        p.stmts.append('o.schema::<%s>("s%d");' % (d.name, i))
        vs = [k for k, v in enumerate(d.variants) if not v.hidden]
        n += len(vs) > 1
        for vi in vs:
            p.value(i, "full", vi, depth=3)
            if d.variants[vi].fields:
                p.value(i, "min", vi, skip=True, depth=3)
                p.value(i, "any", vi, depth=3)
    return p.case(n > 0)


def judge_c04(c, o):
    b = base(o)
    if b:
        return b
    out = []
    defs = c.data["defs"]
    for i, d in enumerate(defs):
        if d.kind != "enum":
            continue
        res = o.json("s%d" % i)
        s, comps = res["s"], res["c"].get("schemas", {})
        tg = d.tagging
        vals = [(vi, o.json(key)) for key, a, vi, mode in c.data["vals"] if a == i]
        firsts = [(vi, o.json(key)) for key, a, vi, mode in c.data["vals"] if a == i and mode == "full"]
        vs = [k for k, v in enumerate(d.variants) if not v.hidden]
        if tg == "units":
            if s.get("type") != "string" or s.get("enum") != [v for _, v in firsts]:
                out.append("%s: values are %r, schema is %.300r" % (d.name, [v for _, v in firsts], s))
            continue
        if tg == "repr":
            alts = s.get("oneOf")
            want = [str(v) for _, v in firsts]
            got = [a.get("example") for a in alts] if isinstance(alts, list) else None
            if got != want or any(a.get("type") != "integer" for a in alts):
                out.append("%s: values are %r, schema is %.400r" % (d.name, want, s))
            continue
        if tg == "adj":
            tags = s.get("properties", {}).get(d.tag, {})
            if s.get("type") != "object" or tags.get("enum") != [v.get(d.tag) for _, v in firsts]:
                out.append("%s: tag values are %r, schema is %.400r" % (d.name, [v.get(d.tag) for _, v in firsts], s))
                continue
            has = [d.content in v for _, v in firsts]
            req = s.get("required", [])
            if d.tag not in req:
                out.append("%s: the tag is not required" % d.name)
            if (d.content in req) != all(has):
                out.append("%s: content present per variant: %r, required: %r" % (d.name, has, req))
            cont = s.get("properties", {}).get(d.content)
            n = len(cont.get("oneOf", [])) if cont else 0
            if n != sum(has):
                out.append("%s: %d variants with content, %d alternatives" % (d.name, sum(has), n))
                continue
            for _, v in firsts:
                for wrong in ({k: x for k, x in v.items() if k != d.tag}, dict(v, **{d.tag: "no such variant"}), dict(v, **{d.tag: None})):
                    if S.validate(s, wrong, comps) is None:
                        out.append("%s: accepts %.200r" % (d.name, wrong))
            extra = set(s.get("properties", {})) - {d.tag, d.content}
            if extra:
                out.append("%s: unexpected properties %r" % (d.name, extra))
        else:
            alts = s.get("oneOf") if tg != "ext" else s.get("additionalProperties", {}).get("oneOf")
            if not isinstance(alts, list) or len(alts) != len(vs):
                out.append("%s: %d serialized variants, schema is %.400r" % (d.name, len(vs), s))
                continue
            if tg == "ext" and s.get("type") != "object":
                out.append("%s: externally tagged enum is not an object" % d.name)
        for vi, v in vals:
            if isinstance(v, dict) and "!err" in v:
                out.append("generator: %s" % v["!err"])
                continue
            node = variant_node(d, vi, s)
            where = "%s::%s" % (d.name, d.variants[vi].ident)
            if node is None:
                if tg == "adj" and d.variants[vi].wire_style == "unit":
                    continue
                out.append("%s: no alternative for this variant" % where)
                continue
            cont = variant_content(d, vi, v)
            e = S.validate(node, cont, comps)
            if e:
                out.append("%s: own alternative rejects %.200r: %s" % (where, cont, e))
            if tg == "int" and isinstance(v, dict):
                other = dict(v)
                own = other.pop(d.tag, None)
                if S.validate(node, other, comps) is None:
                    out.append("%s: own alternative accepts %.200r without the tag" % (where, other))
                for wrong in (str(own) + "x", str(own)[:-1], str(own).swapcase(), 1, None):
                    if wrong != own and S.validate(node, dict(v, **{d.tag: wrong}), comps) is None:
                        out.append("%s: own alternative accepts the tag %r" % (where, wrong))
                for vj in vs:
                    if vj != vi and S.validate(variant_node(d, vj, s), v, comps) is None:
                        out.append("%s: alternative of %s accepts %.200r" % (where, d.variants[vj].ident, v))
    return out


# ---------------------------------------------------------------- C05

ANN_KEYS = ("description", "format", "example", "nullable")


def compare_ann(exp, got, path, out):
    if "$ref" in exp or "$ref" in got:
        if exp.get("$ref") != got.get("$ref"):
            out.append("%s: expected %.200r, got %.200r" % (path, exp, got))
        elif len(got) > 1:
            out.append("%s: reference with further members: %r" % (path, got))
        return
    auto = exp.get("!auto")
    if not auto:
        for k in ANN_KEYS:
            if k == "example" and exp.get("!autoexample"):
                continue
            if exp.get(k) != got.get(k):
                out.append("%s: %s expected %.200r, got %.200r" % (path, k, exp.get(k), got.get(k)))
        if exp.get("type") != got.get("type"):
            out.append("%s: type expected %r, got %r" % (path, exp.get("type"), got.get("type")))
            return
    for n, x in exp.get("properties", {}).items():
        y = got.get("properties", {}).get(n)
        if y is not None:
            compare_ann(x, y, path + "." + n, out)
    for k in ("items", "additionalProperties"):
        if k in exp and isinstance(got.get(k), dict):
            compare_ann(exp[k], got[k], path + "/" + k, out)
    a, b = exp.get("oneOf"), got.get("oneOf")
    if a is not None and b is not None and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            compare_ann(x, y, "%s|%d" % (path, i), out)


def gen_c05(src):
    g = Gen(src, ann=src.pick([50, 70, 30]), max_defs=3)
    g.universe()
    p = Prog(g)
    for i, d in enumerate(g.defs):
        p.schema(i)
        p.mention(i)
    n = sum(d.ann.any() + sum(f.ann.any() for f in d.fields) + sum(v.ann.any() + sum(f.ann.any() for f in v.fields)
                                                                  for v in d.variants) for d in g.defs)
    return p.case(n >= 2)


def judge_c05(c, o):
    b = base(o)
    if b:
        return b
    out = []
    m = c.data["model"]
    for i, d in enumerate(c.data["defs"]):
        r = o.json("s%d" % i)
        compare_ann(m.schema(("u", i)), r["s"], d.name, out)
        r = o.json("m%d" % i)
        compare_ann(m.ref(("u", i)), r["r"], "mention of " + d.name, out)
        for n, node in r["c"].get("schemas", {}).items():
            ds = [x for x in c.data["defs"] if unraw(x.name) == n]
            if len(ds) == 1:
                compare_ann(m.def_schema(ds[0]), node, "component " + n, out)
    return out


def fam(name, gen, judge, quick, thorough, rule, batch=640):
    return Family(name, gen, judge, lambda reqs: run_programs(reqs, name), quick, thorough, rule, batch)
