"""C18 (standard types) and C20 (the schema builder macro)."""
from . import schema as S
from .core import Case, Family, rnd_text, rs_str, run_programs
from .derive import Prog, base
from .lang import (ATOMICS, CHRONO, COMMON, INTS, RUST_KEYWORDS, SCALARS, Gen, Model, apply_params, rnd_ident, rs_ty)

# ---------------------------------------------------------------- C18
# In schema position only the type is named, never a value, so that element types need no Hash, Ord, Copy or Sized.

PTRS = ["Box", "Rc", "Arc", "RefCell", "Ref", "Cell", "RefMut"]
USIZED = ["Box", "Rc", "Arc", "Ref", "RefMut"]
SEQ = ["Vec", "VecDeque", "LinkedList", "HashSet", "BinaryHeap", "array", "BoxSlice", "RefSlice"]
KEYS = ["String", "u8", "i64", "char", "u64", "bool", "str", "f64", "Uuid", "()", "std::marker::PhantomData<u8>"]
LENS = [0, 1, 2, 3, 4, 7, 8, 15, 16, 31, 32, 33, 64, 100, 1000]


# without the default and optional features: arrays of 1 to 32 elements, no dates and no UUIDs
MINIMAL = [x for x in SCALARS if x not in CHRONO and x != "Uuid"]


class TG:
    def __init__(self, src, n_users, minimal=False):
        self.src, self.n = src, n_users
        self.scalars = MINIMAL if minimal else SCALARS
        self.minimal = minimal
        self.labels = set()

    def ty(self, depth):
        src = self.src
        w = [(30, "s")]
        if self.n:
            w.append((30 if depth == 0 else 12, "u"))
        w.append((3, "unit"))
        if depth > 0:
            w += [(18, "o"), (18, "w"), (18, "a"), (10, "t"), (14, "m"), (4, "ustr"), (5, "uslice")]
        k = src.weighted(w)
        self.labels.add(k)
        if k == "s":
            n = src.pick(self.scalars) if src.prob(75) else src.pick(COMMON)
            self.labels.add("scalar:" + n)
            return ("s", n)
        if k == "u":
            return ("u", src.draw(self.n))
        if k == "unit":
            return ("unit",)
        if k == "o":
            return ("o", self.ty(depth - 1))
        if k == "w":
            p = src.pick(PTRS)
            self.labels.add("ptr:" + p)
            return ("w", p, self.ty(depth - 1))
        if k == "ustr":
            return ("w", src.pick(USIZED), ("raw", "str", ("s", "String")))
        if k == "uslice":
            e = self.ty(depth - 1)
            return ("w", src.pick(USIZED), ("slice", e))
        if k == "a":
            a = src.pick(SEQ)
            self.labels.add("seq:" + a)
            e = self.ty(depth - 1)
            if a == "array":
                return ("a", a, e, src.int(1, 32) if self.minimal else src.pick(LENS))
            return ("a", a, e)
        if k == "t":
            n = src.int(1, 10)
            self.labels.add("tuple:%d" % n)
            return ("t", [self.ty(min(depth - 1, 1 if n > 3 else 3)) for _ in range(n)])
        m = src.pick(["BTreeMap", "HashMap"])
        self.labels.add("map:" + m)
        return ("m", m, ("s", src.pick(KEYS)), self.ty(depth - 1))


def text(t, names):
    """rendering, including the unsized types"""
    if t[0] == "slice":
        return "[%s]" % text(t[1], names)
    if t[0] == "w":
        i = text(t[2], names)
        return {"Box": "Box<%s>", "Rc": "std::rc::Rc<%s>", "Arc": "std::sync::Arc<%s>",
                "RefCell": "std::cell::RefCell<%s>", "Cell": "std::cell::Cell<%s>", "Ref": "&'static %s",
                "RefMut": "&'static mut %s"}[t[1]] % i
    if t[0] == "o":
        return "Option<%s>" % text(t[1], names)
    if t[0] == "t":
        return "(%s)" % "".join(text(x, names) + ", " for x in t[1])
    if t[0] == "a":
        return rs_ty(("a", t[1], ("raw", text(t[2], names), None)) + tuple(t[3:]), names)
    if t[0] == "m":
        return rs_ty(("m", t[1], t[2], ("raw", text(t[3], names), None)), names)
    return rs_ty(t, names)


class Comp(Model):
    """compositional expectation: user types are what they are observed to be"""

    def __init__(self, seen):
        self.seen = seen        # index -> result of Out::schema
        self.linked = {}        # index -> result of Out::mention

    def type_name(self, t):
        if t[0] == "u":
            return self.seen[t[1]]["n"]
        if t[0] in ("slice", "raw"):
            return None
        return Model.type_name(self, t)

    def schema(self, t):
        if t[0] == "u":
            return self.seen[t[1]]["s"]
        if t[0] == "slice":
            return {"type": "array", "items": self.ref(t[1])}
        if t[0] == "raw":
            return self.schema(t[2])
        return Model.schema(self, t)

    def comps(self, t, pos):
        """components registered by describing t, or by mentioning it (pos)"""
        if pos and self.type_name(t) is not None:
            while t[0] != "u":
                t = t[1] if t[0] == "o" else t[2]
            return self.linked[t[1]]["c"].get("schemas", {})
        k = t[0]
        if k == "u":
            return self.seen[t[1]]["c"].get("schemas", {})
        if k == "o":
            return self.comps(t[1], False)
        if k == "w":
            return self.comps(t[2], False)
        kids = {"a": lambda: [t[2]], "slice": lambda: [t[1]], "t": lambda: t[1], "m": lambda: [t[3]]}.get(k, lambda: [])()
        out = {}
        for x in kids:
            out.update(self.comps(x, True))
        return out


def rnd_context(src):
    """context parameters: for the reference, and as an expression"""
    def t(p, plain):
        return None if not src.prob(p) else plain if src.prob(50) else rnd_text(src)
    par = {"desc": t(75, "d"), "nullable": src.pick([None, True, None, "off"]), "format": t(45, "over"), "example": t(45, "ex"),
           "variants": [t(100, "v%d" % i) for i in range(src.draw(4))] if src.prob(35) else None}
    own = lambda s: rs_str(s) + src.pick([".to_owned()", ".into()"])
    fs = []
    for k, f in (("desc", "description"), ("format", "format"), ("example", "example")):
        if par[k] is not None:
            fs.append("%s: Some(%s)" % (f, own(par[k])))
    if par["nullable"] is not None:
        fs.append("nullable: Some(%s)" % ("true" if par["nullable"] is True else "false"))
    if par["variants"] is not None:
        fs.append("variants: Some(vec![%s])" % ", ".join(own(v) for v in par["variants"]))
    return par, "&ContextParams { %s }" % ", ".join(fs + ["..Default::default()"])


def gen_c18(src, minimal=False):
    if minimal:
        g = Gen(src, ann=src.pick([0, 30]), max_defs=2, scalars=MINIMAL)
    else:
        g = Gen(src, ann=src.pick([0, 30]), max_defs=2)
    if src.prob(65):
        g.universe()
        if minimal:
            no_empty(g)
    p = Prog(g, ("Noop", "OpgModel"))
    for i in range(len(g.defs)):
        p.schema(i)
        p.mention(i)
    tg = TG(src, len(g.defs), minimal)
    ts = []
    for i in range(src.int(1, 6)):
        t = tg.ty(src.weighted([(3, 1), (4, 2), (3, 3), (1, 5)]))
        x = text(t, g.names())
        p.stmts.append('o.schema::<%s>("t%d");' % (x, i))
        p.stmts.append('o.mention::<%s>("r%d", false);' % (x, i))
        p.stmts.append('o.mention::<%s>("i%d", true);' % (x, i))
        par, pars = rnd_context(src)
        inl = src.prob(30)
        p.stmts.append('o.mention_with::<%s>("p%d", %s, %s);' % (x, i, str(inl).lower(), pars))
        p.stmts.append('o.schema_with::<%s>("w%d", %s);' % (x, i, pars))
        ts.append((t, x, par, inl))
    return Case(p.body(), p.sample() + "\n" + "\n".join(x for _, x, _, _ in ts), sorted(tg.labels),
                any(t[0] not in ("s", "unit") for t, _, _, _ in ts), {"ts": ts, "n": len(g.defs)})


def no_empty(g):
    def fix(t):
        if t[0] == "a" and t[1] == "array" and t[3] == 0:
            return t[:2] + (fix(t[2]), 1)
        if t[0] == "o":
            return ("o", fix(t[1]))
        if t[0] in ("w", "a"):
            return t[:2] + (fix(t[2]),) + t[3:]
        if t[0] == "t":
            return ("t", [fix(x) for x in t[1]])
        if t[0] == "m":
            return t[:3] + (fix(t[3]),)
        return t
    for d in g.defs:
        for f in d.fields + [f for v in d.variants for f in v.fields]:
            f.ty = fix(f.ty)


def gen_c18m(src):
    return gen_c18(src, True)


def judge_c18(c, o):
    b = base(o)
    if b:
        return b
    out = []
    m = Comp({i: o.json("s%d" % i) for i in range(c.data["n"])})
    m.linked = {i: o.json("m%d" % i) for i in range(c.data["n"])}
    for i, (t, x, par, inl) in enumerate(c.data["ts"]):
        def cmp(what, got, exp):
            d = S.diff(exp, got)
            if d:
                out.append("%s: %s: %s (expected, observed)" % (x, what, d))
        r = o.json("t%d" % i)
        cmp("schema", r["s"], m.schema(t))
        cmp("name", r["n"], m.type_name(t))
        cmp("components of the schema", r["c"].get("schemas", {}), m.comps(t, False))
        r = o.json("r%d" % i)
        cmp("mention", r["r"], m.ref(t))
        cmp("components of the mention", r["c"].get("schemas", {}), m.comps(t, True))
        r = o.json("i%d" % i)
        cmp("inlined", r["r"], m.ref(t, True))
        cmp("components when inlined", r["c"].get("schemas", {}), m.comps(t, False))
        r = o.json("p%d" % i)
        cmp("mention with parameters", r["r"], m.ref(t, inl, par))
        cmp("schema with parameters", o.json("w%d" % i)["s"], apply_params(m.schema(t), par))
    return out


# ---------------------------------------------------------------- C20

LITS = [("\"plain\"", "plain"), ("42", "42"), ("true", "true"), ("'c'", "c"), ("1.5", "1.5"), ("-7", "-7"), ("7u8", "7"),
        ("r\"raw\\str\"", "raw\\str"), ("r#\"a\"b\"#", "a\"b"), ("\"\"", "")]


class BG:
    def __init__(self, src):
        self.src = src
        self.lets = []
        self.labels = set()
        self.nodes = 0

    def lit(self):
        if self.src.prob(40):
            return self.src.pick(LITS)
        s = rnd_text(self.src)
        return rs_str(s), s

    def opt(self, parts, m, key, label, p=45):
        if self.src.prob(p):
            x, v = self.lit()
            parts.append("%s: %s" % (label, x))
            m[key] = v

    def node(self, depth, top=False):
        """(macro input, expected reference, hand built reference)"""
        src = self.src
        self.nodes += 1
        w = [(4, "string"), (3, "number"), (3, "integer"), (2, "boolean"), (1, "raw_model"), (1, "raw_type")]
        if not top:
            w.append((3, "link"))
        if depth > 0:
            w += [(20, "array"), (40, "object")] if top else [(6, "array"), (10, "object")]
        k = src.weighted(w)
        self.labels.add(k)
        if k == "link":
            _, s = self.lit()
            name = s or "Target"
            exp = {"$ref": "#/components/schemas/" + name}
            if src.prob(40):
                v = "l%d" % len(self.lets)
                self.lets.append("let %s = %s;" % (v, src.pick(["%s", "String::from(%s)"]) % rs_str(name)))
                return "link => " + v, exp, hand_link(name)
            return "link => " + rs_str(name), exp, hand_link(name)
        if k == "raw_model":
            m, h = self.raw(1)
            v = "r%d" % len(self.lets)
            self.lets.append("let %s = %s;" % (v, h))
            return "raw_model => " + v, m, hand_inline(h)
        if k == "raw_type":
            m, h = self.raw(1)
            m.pop("description", None)
            v = "d%d" % len(self.lets)
            self.lets.append("let %s = %s.data;" % (v, h))
            parts = []
            self.opt(parts, m, "description", "description")
            parts.append("ident: " + v)
            return "raw_type => { %s }" % " ".join(parts), m, hand_inline(
                "Model { description: %s, data: %s.data }" % (hopt(m.get("description")), h))
        parts, m = [], {"type": k}
        self.opt(parts, m, "description", "description")
        if k in ("string", "number", "integer"):
            self.opt(parts, m, "format", "format")
            self.opt(parts, m, "example", "example")
            simple = "ModelSimple { format: %s, example: %s }" % (hopt(m.get("format")), hopt(m.get("example")))
            td = {"number": "Number(%s)", "integer": "Integer(%s)",
                  "string": "String(ModelString { variants: VARS, data: %s })"}[k] % simple
            vs = "None"
            if k == "string" and src.prob(40):
                xs = [self.lit() for _ in range(src.size(3, 12))]
                parts.append("variants: [%s]" % ", ".join(x for x, _ in xs))
                m["enum"] = [v for _, v in xs]
                vs = "Some(vec![%s])" % ", ".join("String::from(%s)" % rs_str(v) for _, v in xs)
            td = td.replace("VARS", vs)
        elif k == "boolean":
            td = "Boolean"
        elif k == "array":
            x, e, h = self.node(depth - 1)
            parts.append("items: (%s)" % x)
            m["items"] = e
            td = "Array(ModelArray { items: Box::new(%s) })" % h
        else:
            names = []
            for n in src.shuffle(["id", "name", "type_", "snake_case", "camelCase", "x", "Upper", "поле", "a1", "_u", "required",
                                  "properties", "description", "items", "string", "link", "very_long_property_name"])[:src.size(4, 12)]:
                if src.prob(25):
                    n = rnd_ident(src, src.prob(30))
                if n in names or n in RUST_KEYWORDS or not n.strip("_"):
                    continue
                names.append(n)
            ps, props, req, hp = [], {}, [], []
            for n in names:
                x, e, h = self.node(depth - 1)
                r = src.prob(45)
                if r:
                    req.append(n)
                props[n] = e
                hp.append("(String::from(%s), %s)" % (rs_str(n), h))
                ps.append("%s%s: (%s)" % (n, "[required]" if r else "", x))
            parts.append("properties: { %s }" % " ".join(ps))
            if props:
                m["properties"] = props
            if req:
                m["required"] = req
            td = "Object(ModelObject { properties: std::collections::BTreeMap::from([%s]), required: vec![%s], additional_properties: None })" % (
                ", ".join(hp), ", ".join("String::from(%s)" % rs_str(n) for n in req))
        hand = "Model { description: %s, data: ModelData::Single(ModelType { nullable: false, type_description: ModelTypeDescription::%s }) }" % (
            hopt(m.get("description")), td)
        return "%s => { %s }" % (k, " ".join(parts)), m, hand_inline(hand)

    def raw(self, depth):
        """hand built model: (expected, Rust expression)"""
        src = self.src
        k = src.weighted([(3, "oneOf"), (2, "dict"), (2, "any"), (3, "null")])
        m, d = {}, None
        if src.prob(40):
            m["description"] = d = rnd_text(src)
        self.labels.add("raw:" + k)
        if k == "any":
            m.update({"type": "array", "items": {}})
            return m, ("Model { description: %s, data: ModelData::Single(ModelType { nullable: false, type_description: "
                       "ModelTypeDescription::Array(ModelArray { items: Box::new(ModelReference::Any) }) }) }" % hopt(d))
        if k == "oneOf":
            refs, hs = [], []
            for i in range(src.draw(4)):
                refs.append({"$ref": "#/components/schemas/L%d" % i})
                hs.append(hand_link("L%d" % i))
            m["oneOf"] = refs
            return m, "Model { description: %s, data: ModelData::OneOf(ModelOneOf { one_of: vec![%s] }) }" % (hopt(d), ", ".join(hs))
        if k == "dict":
            m["type"] = "object"
            m["additionalProperties"] = {"$ref": "#/components/schemas/V"}
            td = ("Object(ModelObject { properties: Default::default(), required: vec![], additional_properties: Some(Box::new(%s)) })"
                  % hand_link("V"))
            null = False
        else:
            m.update({"type": "boolean", "nullable": True})
            td, null = "Boolean", True
        return m, ("Model { description: %s, data: ModelData::Single(ModelType { nullable: %s, type_description: ModelTypeDescription::%s }) }"
                   % (hopt(d), str(null).lower(), td))


def hopt(v):
    return "None" if v is None else "Some(String::from(%s))" % rs_str(v)


def hand_link(n):
    return "ModelReference::Link(String::from(%s))" % rs_str(n)


def hand_inline(h):
    return "ModelReference::Inline(%s)" % h


def gen_c20(src):
    g = BG(src)
    x, exp, hand = g.node(src.weighted([(1, 0), (3, 1), (6, 2), (6, 3), (2, 6)]), top=True)
    lets = "\n    ".join(g.lets)
    # hand built parts are cloned where they are needed twice
    call = "opg::describe_type!(%s)" % x
    if src.prob(15):
        call = "opg::describe_type! { %s }" % x
    body = """use rt::prelude::*;
use opg::*;
fn made() -> Model {
    %s
    %s
}
fn hand() -> ModelReference {
    %s
}
pub fn run(o: &mut Out) {
    let m = made();
    o.val("m", &m);
    o.text("d", format!("{:?}", ModelReference::Inline(m)));
    o.text("h", format!("{:?}", hand()));
}""" % (lets, call, hand)
    return Case(body, (lets + "\n" if lets else "") + call, sorted(g.labels), g.nodes > 1, {"exp": exp})


def judge_c20(c, o):
    b = base(o)
    if b:
        return b
    out = []
    d = S.diff(c.data["exp"], o.json("m"))
    if d:
        out.append("schema (expected, observed): %s" % d)
    if o.items["d"] != o.items["h"]:
        out.append("differs from the model built by hand:\n%s\n%s" % (o.items["d"], o.items["h"]))
    return out


def fam(name, gen, judge, quick, thorough, rule, batch=640):
    return Family(name, gen, judge, lambda reqs: run_programs(reqs, name), quick, thorough, rule, batch)


def famm(name, gen, judge, quick, thorough, rule, batch=640):
    return Family(name, gen, judge, lambda reqs: run_programs(reqs, name, crate="rtn"), quick, thorough, rule, batch)
