"""C06: acceptance and rejection of annotations, robustness of the derive."""
from .core import Case, Family, Obs, check_programs, rnd_text, rs_str
from .lang import Ann, Field, Gen, Layout, Variant, render_def

DERIVES = ("Noop", "OpgModel")


def execute(reqs, tag):
    return [Obs("ok", {"diags": d}) for d in check_programs(reqs, tag)]


# ---------------------------------------------------------------- diagnostics

def texts(m):
    return m["message"]


def outside(m, item_lines):
    """primary location is not a line of the item"""
    for s in m["spans"]:
        if not s["is_primary"]:
            continue
        x = s
        while x.get("expansion"):
            x = x["expansion"]["span"]
        for t in x.get("text", [])[:1]:
            if t["text"].strip() not in item_lines:
                return t["text"].strip()
    return None


def common(diags, item):
    """problems of any run of the derive"""
    lines = {x.strip() for x in item.split("\n")}
    out, follow, inside = [], [], 0
    for m in diags:
        if "panicked" in m["message"] or "internal compiler error" in m["message"]:
            out.append("the derive panics: %s %s" % (m["message"], "; ".join(c["message"] for c in m.get("children", []))))
        if not any(s["is_primary"] for s in m["spans"]):
            out.append("error without a location: %s" % m["message"])
            continue
        w = outside(m, lines)
        if w is None:
            inside += 1
        elif "OpgModel` is not satisfied" in m["message"] or "type annotations needed" in m["message"]:
            follow.append((w, m["message"]))        # other items use the rejected one
        else:
            out.append("error outside of the item, at `%s`: %s" % (w, m["message"]))
    if follow and not inside:
        out.append("error outside of the item, at `%s`: %s" % follow[0])
    return out


# ---------------------------------------------------------------- valid annotations

def more(g, src):
    """annotations which are legal but not covered by the universes (no effect is claimed)"""
    for d in g.defs:
        if src.prob(10) and not d.ann.explicit and d.kind not in ("newtype",) and not d.transparent:
            d.ann.format = d.ann.format or g.fmt()
        for v in d.variants:
            if src.prob(10):
                v.ann.inline = True


def body(defs_text):
    return ("use rt::prelude::*;\npub struct BeforeTheItem;\n%s\npub struct AfterTheItem;" % "\n".join(defs_text))


def gen_accept(src):
    g = Gen(src, ann=src.pick([70, 40, 90]), max_defs=2)
    g.universe()
    lay = Layout(src)
    ts = [render_def(d, g.names(), lay, DERIVES) for d in g.defs]
    for k, d in enumerate(g.defs):
        if d.repr and src.prob(40):
            # several hints, in one attribute or several
            r = "#[repr(%s)]" % d.repr
            ts[k] = ts[k].replace(r, src.pick(["#[repr(%s, align(8))]", "#[repr(align(4), %s)]", "#[repr(align(8))]\n#[repr(%s)]",
                                               "#[repr(%s)]\n#[repr(align(2), align(4))]"]) % d.repr)
            g.labels.add("several representation hints")
    n = sum(len(d.ann.items()) + sum(len(f.ann.items()) for f in d.fields)
            + sum(len(v.ann.items()) + sum(len(f.ann.items()) for f in v.fields) for v in d.variants) for d in g.defs)
    return Case(body(ts), "\n".join(ts), sorted(g.labels), n > 1, {"item": "\n".join(ts)})


def judge_accept(c, o):
    ds = o.items["diags"]
    if ds:
        return ["valid annotations are reported: %s" % "; ".join(m["message"] for m in ds[:3])]
    return []


# ---------------------------------------------------------------- misuse

UNKNOWN_WORD = ["foo", "nulable", "String", "object", "array", "skip", "rename", "default", "opt", "required", "deprecated",
                "Inline", "int", "bool", "description", "a::b", "inline::x", "opg", "serde", "str", "integers", "null", "flatten",
                "transparent", "enum_", "Any", "type_"]
UNKNOWN_NV = ["foo = \"x\"", "description = \"x\"", "title = \"x\"", "kind = \"string\"", "rename = \"x\"", "Format = \"x\"",
              "examples = \"x\"", "example_of = \"1\"", "pattern = \"x\"", "min = 1", "default = \"x\"", "a::format = \"x\""]
UNKNOWN_LIST = ["foo(\"x\")", "format(\"x\")", "example(\"x\")", "inline(true)", "string(\"x\")", "any()", "integer(int64)",
                "example_with(1)", "description(\"x\")", "nullable()", "opg(inline)", "optional(true)"]
FLAG_NV = ["inline = \"true\"", "inline = true", "nullable = true", "nullable = \"yes\"", "string = \"x\"", "any = true",
           "boolean = false", "integer = \"int64\"", "number = 1", "optional = true", "optional = \"\""]
NV_FLAG = ["format", "example", "example_with"]
WRONG_LIT = ["format = 5", "format = true", "format = b\"x\"", "format = 'c'", "example = 5", "example = true", "example = 1.5",
             "example = 'c'", "example_with = 5", "example_with = true", "example = b\"bytes\""]
WRONG_DESC = ["5", "true", "'c'", "1.5", "b\"bytes\"", "b'x'", "7u8"]
BAD_EXPR = ["example_with = \"1 +\"", "example_with = \"\"", "example_with = \")(\"", "example_with = \"let x\"",
            "example_with = \"a b\"", "example_with = \"1; 2\"", "example_with = \"1;\"", "example_with = \"1,\"", "example_with = \"'\"", "example_with = \"\\\"open\""]
MALFORMED = ["#[opg]", "#[opg = \"x\"]", "#[opg(\"a\" \"b\")]", "#[opg(inline inline)]", "#[opg(format = )]", "#[opg(= \"x\")]",
             "#[opg(format \"x\")]", "#[opg(,)]", "#[opg(format: \"x\")]", "#[opg(inline; nullable)]", "#[opg(\"a\", , \"b\")]",
             "#[opg(-5)]", "#[opg(format = -5)]", "#[opg(format = some::path)]", "#[opg(format = concat!(\"a\"))]"]
EXPLICIT = ["string", "number", "integer", "boolean", "any"]


class Ext(Ann):
    """annotations with further, misused, entries"""
    __slots__ = ("bad",)

    def __init__(self, a):
        for s in Ann.__slots__:
            setattr(self, s, getattr(a, s))
        self.bad = []

    def items(self):
        return Ann.items(self) + self.bad


def positions(g):
    out = []
    for i, d in enumerate(g.defs):
        out.append(("container", i, d))
        out += [("field", i, f) for f in d.fields]
        for v in d.variants:
            out.append(("variant", i, v))
            out += [("field", i, f) for f in v.fields]
    return out


def misuse(src, g, level, a):
    """(kind, entries to add, whole attributes to add)"""
    kinds = ["unknown word", "unknown value", "unknown list", "flag with value", "value without value", "wrong literal",
             "wrong description", "bad expression", "duplicate", "contradiction", "malformed"]
    if level in ("container", "variant"):
        kinds.append("misplaced")
    k = src.pick(kinds)
    if k == "unknown word":
        return k, [src.pick(UNKNOWN_WORD)], []
    if k == "unknown value":
        return k, [src.pick(UNKNOWN_NV)], []
    if k == "unknown list":
        return k, [src.pick(UNKNOWN_LIST)], []
    if k == "flag with value":
        return k, [src.pick(FLAG_NV)], []
    if k == "value without value":
        return k, [src.pick(NV_FLAG)], []
    if k == "wrong literal":
        return k, [src.pick(WRONG_LIT)], []
    if k == "wrong description":
        return k, [src.pick(WRONG_DESC)], []
    if k == "bad expression":
        return k, [src.pick(BAD_EXPR)], []
    if k == "malformed":
        bad = src.pick(MALFORMED)
        if bad.startswith("#[opg(") and src.prob(60):
            # amid valid entries
            ok = lambda: [x for x in src.shuffle(OPG_OK[level])[:src.draw(5)]]
            bad = "#[opg(%s)]" % ", ".join(ok() + [bad[6:-2]] + ok())
        return k, [], [bad]
    if k == "misplaced":
        return k, [src.pick(["optional", "nullable"] if level == "variant" else ["optional"])], []
    if k == "contradiction":
        if src.prob(50):
            a.example = None
            return k, ["example = \"x\"", "example_with = \"1\""], []
        a.explicit = None
        return k, src.shuffle(EXPLICIT)[:src.pick([2, 2, 3, 4, 5])], []
    # duplicates of an entry
    what = src.pick(["desc", "format", "example", "example_with", "inline", "explicit"]
                    + (["nullable"] if level != "variant" else []) + (["optional"] if level == "field" else []))
    n = src.pick([2, 2, 2, 3, 4])
    if what == "desc":
        a.desc = None
        return k, [rs_str(rnd_text(src)) for _ in range(n)], []
    if what == "format":
        a.format = None
        x = "format = \"same\""
        return k, [x, x if src.prob(50) else "format = \"other\""] + [x] * (n - 2), []
    if what in ("example", "example_with"):
        a.example = None
        return k, ["%s = \"1\"" % what] * n, []
    if what == "explicit":
        a.explicit = None
        return k, [src.pick(EXPLICIT)] * n, []
    setattr(a, what, False)
    return k, [what] * n, []


def gen_reject(src):
    g = Gen(src, ann=src.pick([30, 0, 60]), max_defs=1 + src.draw(2))
    g.universe()
    lay = Layout(src)
    level, i, x = src.pick(positions(g))
    d = g.defs[i]
    kind, bad, attrs = misuse(src, g, level, x.ann)
    x.ann = Ext(x.ann)
    x.ann.bad = bad
    x.noise = list(x.noise) + attrs
    if src.prob(10):
        # and many more in the same item
        kind = "many"
        here = [q for q in positions(g) if q[1] == i]
        for _ in range(1 + src.draw(24)):
            lv, _i, y = src.pick(here)
            if not isinstance(y.ann, Ext):
                y.ann = Ext(y.ann)
            _k, bad, attrs = misuse(src, g, lv, y.ann)
            y.ann.bad = y.ann.bad + bad
            y.noise = list(y.noise) + attrs
    ts = [render_def(y, g.names(), lay, DERIVES) for y in g.defs]
    return Case(body(ts), "\n".join(ts), ["%s/%s" % (level, kind)], True, {"item": ts[i], "what": "%s on a %s" % (kind, level)})


def judge_reject(c, o):
    ds = o.items["diags"]
    if not ds:
        return ["accepted silently: " + c.data["what"]]
    return common(ds, c.data["item"])


# ---------------------------------------------------------------- unsupported shapes

def gen_shape(src):
    g = Gen(src, ann=src.pick([20, 0]), max_defs=1)
    g.universe()
    lay = Layout(src)
    k = src.pick(["unit struct", "union", "untagged units", "discriminants", "internal tuple", "transparent", "any newtype"])
    name = "Shape"
    ann = lay.attrs([], g.annotate(Ann()).items(), [])
    head = "\n".join(["#[derive(%s)]" % ", ".join(DERIVES)] + ann)
    f = lambda: g.ty(1, False)
    from .lang import rs_ty
    t = lambda: rs_ty(f(), g.names())
    if k == "unit struct":
        it = "%s\npub struct %s;" % (head, name)
    elif k == "union":
        it = "%s\npub union %s { pub a: u8, pub b: %s }" % (head, name, src.pick(["i64", "u32", "[u8; 4]", "f64"]))
    elif k == "untagged units":
        vs = ["V%d%s" % (j, " = %d" % j if src.prob(0) else "") for j in range(1 + src.draw(5))]
        it = "%s\n#[serde(untagged)]\npub enum %s { %s }" % (head, name, ", ".join(vs))
    elif k == "discriminants":
        n = 2 + src.draw(5)
        w = [src.prob(50) for _ in range(n)]
        if all(w):
            w[src.draw(n)] = False
        elif not any(w):
            w[src.draw(n)] = True
        vs = ["V%d%s" % (j, " = %d" % (j * 10) if w[j] else "") for j in range(n)]
        it = "%s\n%spub enum %s { %s }" % (head, "#[repr(u8)]\n" if src.prob(70) else "", name, ", ".join(vs))
    elif k == "internal tuple":
        n = src.pick([2, 3, 0, 5])
        vs = ["Ok%d { a: u8 }" % j for j in range(src.draw(3))]
        vs.insert(src.draw(len(vs) + 1), "Bad(%s)" % ", ".join(t() for _ in range(n)))
        it = "%s\n#[serde(tag = \"t\")]\npub enum %s { %s }" % (head, name, ", ".join(vs))
    elif k == "any newtype":
        head = "#[derive(%s)]" % ", ".join(DERIVES)
        on = src.prob(50)
        a = lambda: "#[opg(%s)]" % ", ".join(src.shuffle(["any"] + [x for x in ["\"text\"", "format = \"f\"", "nullable", "example = \"e\""] if src.prob(25)]))
        outer, inner = (a() + "\n", "") if on else ("", a() + " ")
        if not on and src.prob(20):
            outer = "#[opg(\"text\", inline)]\n"
        if src.prob(30):
            it = "%s\n%s#[serde(transparent)]\npub struct %s { %spub a: %s }" % (head, outer, name, inner, t())
        else:
            it = "%s\n%s%spub struct %s(%spub %s);" % (head, outer, "#[serde(transparent)]\n" if src.prob(20) else "", name, inner, t())
    else:
        fs = ["#[serde(%s)] pub f%d: %s" % (src.pick(["skip", "skip_serializing"]), j, t()) for j in range(1 + src.draw(3))]
        if src.prob(30):
            fs = ["pub p%d: std::marker::PhantomData<u8>" % j for j in range(1 + src.draw(2))]
        it = "%s\n#[serde(transparent)]\npub struct %s { %s }" % (head, name, ", ".join(fs))
    ts = [render_def(y, g.names(), lay, DERIVES) for y in g.defs] + [it]
    return Case(body(ts), it, [k], True, {"item": it, "what": k})


# ---------------------------------------------------------------- anything at all

ATOMS = ["inline", "nullable", "optional", "string", "number", "integer", "boolean", "any", "format", "example", "example_with",
         "\"text\"", "5", "true", "'c'", "1.5", "b\"b\"", "=", ",", ",", ",", "::", "a", "rename", "rename_all", "tag", "content",
         "untagged", "transparent", "skip", "skip_serializing", "skip_serializing_if", "flatten", "serialize", "deserialize", "(",
         "[", "{", "\"snake_case\"", "\"a b\"", "\"1 + 1\"", "\"\"", "\"(\"", "&", "?", "!", "#", "r#type", "-", ".", "0xff", "'a",
         "r\"raw\"", "\"Option::is_none\"", "\"&&\"", "default", "with", "\"💥\"", "self", "crate", "r#\"x\"#", "c", "_"]
GOOD = ["inline", "nullable", "optional", "string", "integer", "any", "format = \"f\"", "example = \"e\"", "example_with = \"1\"",
        "\"text\"", "rename = \"x\"", "rename_all = \"camelCase\"", "tag = \"t\"", "content = \"c\"", "untagged", "transparent",
        "skip", "skip_serializing", "skip_serializing_if = \"Option::is_none\"", "flatten", "rename(serialize = \"x\")",
        "rename(deserialize = \"y\")", "rename_all(serialize = \"UPPERCASE\")", "rename_all = \"nonsense\"", "rename = 5",
        "rename(serialize = \"x\", serialize = \"y\")", "rename_all = 7", "tag = 5", "skip_serializing_if = \"1 2\"", "rename()",
        "rename(other = \"x\")", "content = 1", "skip_deserializing", "default", "bound = \"\"", "crate = \"serde\""]


def soup(src, depth=2):
    out = []
    close = {"(": ")", "[": "]", "{": "}"}
    for _ in range(src.draw(6)):
        a = src.pick(ATOMS)
        if a in close:
            a = a + (soup(src, depth - 1) if depth > 0 else "") + close[a]
        if a == "#":
            a = "# "
        out.append(a)
    return " ".join(out)


def attrs(src, repr_ok=False, p=40):
    out = []
    for _ in range(src.draw(3)):
        if not src.prob(p):
            continue
        who = src.pick(["opg", "serde"])
        c = src.draw(10)
        if c < 5:
            n = src.int(1, 4)
            out.append("#[%s(%s)]" % (who, ", ".join(src.pick(GOOD) for _ in range(n))))
        elif c < 8:
            out.append("#[%s(%s)]" % (who, soup(src)))
        elif c == 8:
            out.append(src.pick(["#[%s]", "#[%s = \"x\"]", "#[%s = 5]", "#[%s()]", "#[%s[inline]]", "#[%s{inline}]"]) % who)
        elif repr_ok:
            out.append(src.pick(["#[repr(u8)]", "#[repr(C)]", "#[repr(i64)]", "#[repr(transparent)]", "#[repr(C, u8)]", "#[repr(align(8))]",
                                 "#[repr(Rust)]"]))
    return out


TYS = ["u8", "String", "Option<u8>", "Vec<String>", "T", "&'a str", "[u8; N]", "Box<Soup%s>", "PhantomData<T>", "(u8, T)", "NoSchema",
       "HashMap<String, u8>", "()", "fn(u8) -> u8", "*const u8", "[u8; 2 + 1]", "T::Item", "<T as HasItem>::Item", "!", "dyn Fn()",
       "Box<dyn std::fmt::Debug>", "Self", "impl Clone", "_", "rt::NoSchema", "Option<Box<dyn Fn(u8) -> u8>>", "[T]", "str"]


OPG_OK = {"container": ["inline", "nullable", "string", "integer", "any", "format = \"f\"", "example = \"e\"",
                        "example_with = \"1\"", "\"text\""],
          "variant": ["inline", "string", "boolean", "any", "format = \"f\"", "example = \"e\"", "\"text\""],
          "field": ["inline", "nullable", "optional", "number", "string", "any", "format = \"f\"", "example_with = \"1\"",
                    "\"text\""]}
SERDE_OK = {"container": ["untagged", "tag = \"t\"", "content = \"c\"", "transparent", "rename = \"x\"", "rename_all = \"camelCase\"",
                          "deny_unknown_fields", "default"],
            "variant": ["skip", "skip_serializing", "rename = \"x\"", "rename_all = \"UPPERCASE\"", "other", "untagged"],
            "field": ["skip", "skip_serializing", "skip_deserializing", "flatten", "rename = \"x\"", "default",
                      "skip_serializing_if = \"rt::sk\""]}


def combo(src, level, p=30):
    out = []
    for who, pool in (("serde", SERDE_OK[level]), ("opg", OPG_OK[level])):
        xs = [x for x in pool if src.prob(p)]
        ex = [x for x in xs if x in EXPLICIT]
        xs = [x for x in xs if x not in ex[1:]]
        if any(x.startswith("example =") for x in xs):
            xs = [x for x in xs if not x.startswith("example_with")]
        if "skip" in xs and "skip_serializing" in xs:
            xs.remove("skip")
        if xs:
            out.append("#[%s(%s)]" % (who, ", ".join(src.shuffle(xs))))
    return out


def gen_combo(src):
    """every entry is legal where it stands; their combination and the shape need not be"""
    tys = ["u8", "String", "Option<u8>", "Vec<String>", "Helper", "Option<Helper>", "HashMap<String, Helper>", "()", "(u8, Helper)",
           "[Helper; 2]", "Box<Helper2>"]
    p = src.pick([20, 35, 8])

    def field(named, j, vis=""):
        return "%s %s%s%s" % (" ".join(combo(src, "field", p // 2)), vis, "f%d: " % j if named else "", src.pick(tys))

    def group():
        c, n = src.draw(4), src.draw(4)
        if c == 0:
            return ""
        if c == 1:
            return "(%s)" % ", ".join(field(False, j) for j in range(n))
        if c == 2:
            return "(%s)" % field(False, 0)
        return " { %s }" % ", ".join(field(True, j) for j in range(n))

    shape = src.pick(["enum", "struct", "tuple", "enum", "enum", "newtype", "enum", "unit", "empty"])
    if shape == "struct":
        it = "pub struct Combo { %s }" % ", ".join(field(True, j, "pub ") for j in range(src.draw(5)))
    elif shape == "tuple":
        it = "pub struct Combo(%s);" % ", ".join(field(False, j, "pub ") for j in range(src.draw(4)))
    elif shape == "newtype":
        it = "pub struct Combo(%s);" % field(False, 0, "pub ")
    elif shape == "unit":
        it = "pub struct Combo%s" % src.pick([";", " {}", "();"])
    elif shape == "empty":
        it = "pub enum Combo {}"
    else:
        units = src.prob(20)
        vs = []
        for j in range(1 + src.draw(4)):
            vs.append("%s V%d%s" % (" ".join(combo(src, "variant", p // 2)), j, "" if units else group()))
        it = "pub enum Combo { %s }" % ", ".join(vs)
    at = combo(src, "container", p)
    if src.prob(12) and shape == "enum":
        at.append(src.pick(["#[repr(u8)]", "#[repr(C, u8)]"]))
    item = "\n".join(["#[derive(%s)]" % ", ".join(DERIVES)] + at + [it])
    b = ("use rt::prelude::*;\n#[derive(Noop, OpgModel)] pub struct Helper { pub a: u8 }\n"
         "#[derive(Noop, OpgModel)] pub enum Helper2 { A(u8), B { b: String } }\n%s\npub struct AfterTheItem;" % item)
    return Case(b, item, [shape], True, {"item": item})


def gen_soup(src):
    if src.prob(65):
        return gen_combo(src)
    gen = src.pick(["", "<T>", "<'a, T: HasItem, const N: usize>", "<T = u8>", "<'a>", "<const N: usize = 3>", "<T: ?Sized>"])
    used = {"": ""}.get(gen, "<u8>")

    def ty():
        t = src.pick(TYS) if src.prob(35) else src.pick(TYS[:4])
        return t.replace("%s", "")

    def field(named, j, vis=""):
        a = " ".join(attrs(src, p=50))
        return "%s %s%s%s" % (a, vis, "f%d: " % j if named else "", ty())

    def group():
        c = src.draw(4)
        n = src.draw(4)
        if c == 0:
            return ""
        if c == 1:
            return "(%s)" % ", ".join(field(False, j) for j in range(n))
        return " { %s }" % ", ".join(field(True, j) for j in range(n))

    head = "#[derive(%s)]" % ", ".join(DERIVES)
    at = attrs(src, True, 70)
    shape = src.pick(["struct", "enum", "enum", "tuple", "unit", "union", "empty"])
    if shape == "struct":
        it = "pub struct Soup%s { %s }" % (gen, ", ".join(field(True, j, "pub ") for j in range(src.draw(5))))
    elif shape == "tuple":
        it = "pub struct Soup%s(%s);" % (gen, ", ".join(field(False, j, "pub ") for j in range(src.draw(4))))
    elif shape == "unit":
        it = "pub struct Soup%s;" % gen
    elif shape == "empty":
        it = "pub enum Soup%s {}" % gen
    elif shape == "union":
        it = "pub union Soup%s { %s }" % (gen, ", ".join(field(True, j) for j in range(1 + src.draw(2))))
    else:
        vs = []
        for j in range(src.draw(5)):
            a = "\n".join(attrs(src, p=50))
            disc = " = %d" % (j * 3) if src.prob(12) else ""
            vs.append("%s V%d%s%s" % (a, j, group(), disc))
        it = "pub enum Soup%s { %s }" % (gen, ", ".join(vs))
    item = "\n".join([head] + at + [it])
    b = "use rt::prelude::*;\nuse std::marker::PhantomData;\npub struct BeforeTheItem;\n%s\npub struct AfterTheItem;" % item
    return Case(b, item, [shape], True, {"item": item})


def judge_soup(c, o):
    return common(o.items["diags"], c.data["item"])


def fam(name, gen, judge, quick, thorough, rule, batch=800):
    return Family(name, gen, judge, lambda reqs: execute(reqs, name), quick, thorough, rule, batch)
