"""Type definitions in the language the derive accepts: generation, rendering, values, reference schemas."""
import re

from .core import ALPHA, rnd_text, rs_str

# ---------------------------------------------------------------- type expressions
# ('s', name) scalar   ('u', i) user type   ('w', wrapper, T)   ('o', T) option   ('a', kind, T[, n]) sequence
# ('t', [T..]) tuple   ('m', kind, K, T) map   ('unit',)   ('raw', text, arg) opaque (generic parameter use)

INTS = {
    "i8": ("int8", -2**7, 2**7 - 1), "u8": ("uint8", 0, 2**8 - 1),
    "i16": ("int16", -2**15, 2**15 - 1), "u16": ("uint16", 0, 2**16 - 1),
    "i32": ("int32", -2**31, 2**31 - 1), "u32": ("uint32", 0, 2**32 - 1),
    "i64": ("int64", -2**63, 2**63 - 1), "u64": ("uint64", 0, 2**64 - 1),
    "isize": (None, -2**63, 2**63 - 1), "usize": (None, 0, 2**64 - 1),
}
ATOMICS = {"AtomicI8": "i8", "AtomicU8": "u8", "AtomicI16": "i16", "AtomicU16": "u16", "AtomicI32": "i32",
           "AtomicU32": "u32", "AtomicI64": "i64", "AtomicU64": "u64", "AtomicIsize": "isize",
           "AtomicUsize": "usize", "AtomicBool": "bool"}
CHRONO = {
    "NaiveDate": ("chrono::NaiveDate", "Date without timezone", "2020-06-26"),
    "NaiveDateTime": ("chrono::NaiveDateTime", "Datetime without timezone", "2020-06-26T14:04:20.730045106"),
    "DateTimeUtc": ("chrono::DateTime<chrono::Utc>", "Datetime with timezone", "2020-06-26T14:04:20.730045106Z"),
    "DateTimeFixed": ("chrono::DateTime<chrono::FixedOffset>", "Datetime with timezone",
                      "2020-06-26T14:04:20.730045106Z"),
}
HASHABLE = ["String", "i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "isize", "usize", "bool", "char", "str"]
COPY = ["i32", "i8", "u8", "i16", "u16", "u32", "i64", "u64", "isize", "usize", "bool", "char", "f32", "f64"]
SCALARS = (["String", "i32", "bool"] + [x for x in INTS if x != "i32"] + ["f32", "f64", "char", "str", "Uuid"]
           + list(CHRONO) + list(ATOMICS))
COMMON = ["String", "i32", "bool", "u64", "f64", "char", "u8", "i64"]

WRAPPERS = ["Box", "Rc", "Arc", "RefCell", "Ref", "Cell", "RefMut"]
SEQS = ["Vec", "VecDeque", "LinkedList", "HashSet", "BinaryHeap", "array", "BoxSlice", "RefSlice"]
MAPS = ["BTreeMap", "HashMap"]


def scalar_rs(n):
    if n == "str":
        return "&'static str"
    if n == "Uuid":
        return "uuid::Uuid"
    if n in CHRONO:
        return CHRONO[n][0]
    if n in ATOMICS:
        return "std::sync::atomic::" + n
    return n


def rs_ty(t, names, sub=None):
    """names: user type idents"""
    if sub is not None and id(t) in sub:
        return sub[id(t)]
    k = t[0]
    r = lambda x: rs_ty(x, names, sub)
    if k == "s":
        return scalar_rs(t[1])
    if k == "u":
        return names[t[1]]
    if k == "raw":
        return t[1]
    if k == "unit":
        return "()"
    if k == "o":
        return "Option<%s>" % r(t[1])
    if k == "w":
        i = r(t[2])
        return {"Box": "Box<%s>", "Rc": "std::rc::Rc<%s>", "Arc": "std::sync::Arc<%s>",
                "RefCell": "std::cell::RefCell<%s>", "Cell": "std::cell::Cell<%s>", "Ref": "&'static %s",
                "RefMut": "&'static mut %s"}[t[1]] % i
    if k == "a":
        i = r(t[2])
        if t[1] == "array":
            return "[%s; %d]" % (i, t[3])
        return {"Vec": "Vec<%s>", "VecDeque": "std::collections::VecDeque<%s>",
                "LinkedList": "std::collections::LinkedList<%s>", "HashSet": "std::collections::HashSet<%s>",
                "BinaryHeap": "std::collections::BinaryHeap<%s>", "BoxSlice": "Box<[%s]>",
                "RefSlice": "&'static [%s]"}[t[1]] % i
    if k == "t":
        return "(%s)" % "".join(r(x) + ", " for x in t[1])
    if k == "m":
        return "std::collections::%s<%s, %s>" % (t[1], r(t[2]), r(t[3]))
    raise ValueError(t)


def users(t, out=None):
    out = [] if out is None else out
    k = t[0]
    if k == "u":
        out.append(t[1])
    elif k == "t":
        for x in t[1]:
            users(x, out)
    elif k in ("o",):
        users(t[1], out)
    elif k in ("w", "a"):
        users(t[2], out)
    elif k == "m":
        users(t[3], out)
    return out


def direct_user(t):
    """user type reached through transparent wrappers only"""
    while t[0] in ("w", "o"):
        t = t[2] if t[0] == "w" else t[1]
    return t[1] if t[0] == "u" else None


# ---------------------------------------------------------------- names

RULES = [None, "lowercase", "UPPERCASE", "PascalCase", "camelCase", "snake_case", "SCREAMING_SNAKE_CASE",
         "kebab-case", "SCREAMING-KEBAB-CASE"]


def _au(s):
    return "".join(c.upper() if "a" <= c <= "z" else c for c in s)


def _al(s):
    return "".join(c.lower() if "A" <= c <= "Z" else c for c in s)


def variant_rule(rule, v):
    if rule in (None, "PascalCase"):
        return v
    if rule == "lowercase":
        return _al(v)
    if rule == "UPPERCASE":
        return _au(v)
    if rule == "camelCase":
        return _al(v[:1]) + v[1:]
    snake = ""
    for i, c in enumerate(v):
        if i > 0 and c.isupper():
            snake += "_"
        snake += _al(c)
    if rule == "snake_case":
        return snake
    if rule == "SCREAMING_SNAKE_CASE":
        return _au(snake)
    if rule == "kebab-case":
        return snake.replace("_", "-")
    return _au(snake).replace("_", "-")


def field_rule(rule, f):
    if rule in (None, "lowercase", "snake_case"):
        return f
    if rule == "UPPERCASE" or rule == "SCREAMING_SNAKE_CASE":
        return _au(f)
    if rule in ("PascalCase", "camelCase"):
        p, cap = "", True
        for c in f:
            if c == "_":
                cap = True
            elif cap:
                p += _au(c)
                cap = False
            else:
                p += c
        return p if rule == "PascalCase" else _al(p[:1]) + p[1:]
    if rule == "kebab-case":
        return f.replace("_", "-")
    return _au(f).replace("_", "-")


RUST_KEYWORDS = set("""as break const continue crate else enum extern false fn for if impl in let loop match mod move mut
pub ref return self Self static struct super trait true type unsafe use where while async await dyn abstract become box do
final macro override priv typeof unsized virtual yield try gen union auto default raw safe macro_rules""".split())
RAW_OK = ["type", "fn", "match", "struct", "enum", "loop", "where", "async", "move", "ref", "use", "box", "try"]
FIELD_WORDS = ["id", "name", "value", "user_name", "first_field", "x", "a_b_c", "is_ok", "count2", "v1_beta", "http_url",
               "camelCase", "Upper", "SHOUT", "with__double", "trailing_", "_lead", "n0", "a1b2", "größe", "поле",
               "créé_le", "very_long_field_name_indeed_it_is", "r", "i18n", "x_1", "_0", "oauth2_token", "eMail",
               "a__b", "z_", "field_a", "field_b"]
VARIANT_WORDS = ["Alpha", "Beta", "FirstVariant", "HTTPServer", "V2", "V2Beta", "A", "XmlHttpRequest", "lower", "snake_variant",
                 "SHOUTING", "With_Underscore", "Été", "Дом", "OnÉtat", "Tail_", "_Lead", "I18n", "AB", "Abc1Def2", "X1", "iOS",
                 "Veeeeeeeeeeeeeeeeeeeeery", "MaxÄge"]
TAG_WORDS = ["tag", "type", "kind", "$t", "мета", "@type", "Tag Name", "q\"uote", "{}", "_t", "t-t", "TAG", "tag\n", "tagType"]
CONTENT_WORDS = ["content", "data", "c", "payload value", "@value", "Content", "{0}", "back\\slash", "т", "_c"]
RESERVED = re.compile(r"^(%s)\d*$" % "|".join(re.escape(x) for x in TAG_WORDS + CONTENT_WORDS))


def norm(s):
    return re.sub(r"[_\-]", "", s).lower()


class Names:
    """hands out identifiers that stay distinct under every case rule"""

    def __init__(self):
        self.used = set()

    def fresh(self, src, words, camel, variant=False):
        for _ in range(60):
            if src.prob(60):
                w = src.pick(words)
            else:
                w = rnd_ident(src, variant)
            raw = False
            if src.prob(6):
                w, raw = src.pick(RAW_OK) if src.prob(70) else w, True
            if self.ok(w, camel, raw):
                self.used.add(norm(w))
                return ("r#" + w) if (raw or w in RUST_KEYWORDS) else w
        i = 0
        while norm("w%d" % i) in self.used:
            i += 1
        self.used.add(norm("w%d" % i))
        return ("W%d" if variant else "w%d") % i

    def ok(self, w, camel, raw):
        if norm(w) in self.used or RESERVED.match(w) or RESERVED.match(norm(w)):
            return False
        if w in ("self", "Self", "super", "crate", "_") or (w in RUST_KEYWORDS and not raw):
            return False
        s = w.lstrip("_")
        if not s or not re.match(r"^[^\W\d_]\w*$|^_\w+$", w):
            return False
        if camel and (ord(w[0]) > 127 or ord(s[0]) > 127):
            return False        # serde itself panics here
        return True

    def rename(self, src):
        for _ in range(40):
            s = rnd_text(src)
            if s not in ("",) and (norm(s) in self.used or RESERVED.match(s)):
                continue
            if s == "" and "" in self.used:
                continue
            self.used.add(norm(s))
            return s
        i = 0
        while norm("ren%d" % i) in self.used:
            i += 1
        self.used.add(norm("ren%d" % i))
        return "ren%d" % i


def rnd_ident(src, variant):
    n = src.int(1, 3)
    parts = []
    for _ in range(n):
        m = src.int(1, 4)
        p = "".join(src.pick("abcdefgxyzABZ019" if variant else "abcdefgxyz019AZ") for _ in range(m))
        if variant:
            p = p[:1].upper() + p[1:]
        parts.append(p)
    s = ("" if variant else "_").join(parts)
    if s[0].isdigit():
        s = ("N" if variant else "n") + s
    if src.prob(8):
        s = src.pick(["_", "__"]) + s
    if src.prob(8):
        s = s + src.pick(["_", "__"])
    if src.prob(6):
        i = src.int(1, len(s))
        s = s[:i] + src.pick(["é", "ß", "Я", "漢", "Ö"]) + s[i:]
    return s


def unraw(s):
    return s[2:] if s.startswith("r#") else s


# ---------------------------------------------------------------- definitions

class Ann:
    """opg annotations of a field, variant or container"""
    __slots__ = ("desc", "format", "example", "inline", "nullable", "optional", "explicit")

    def __init__(self):
        self.desc = self.format = self.example = self.explicit = None
        self.inline = self.nullable = self.optional = False

    def params(self, other=None):
        p = {"desc": self.desc, "format": self.format,
             "example": None if self.example is None else self.example[-1], "nullable": self.nullable}
        if other is not None:
            q = other.params()
            for k in p:
                if p[k] is None or p[k] is False:
                    p[k] = q[k]
        return p

    def items(self):
        o = []
        if self.desc is not None:
            o.append(rs_str(self.desc))
        if self.format is not None:
            o.append("format = " + rs_str(self.format))
        if self.example is not None:
            if self.example[0] == "lit":
                o.append("example = " + rs_str(self.example[1]))
            else:
                o.append("example_with = " + rs_str(self.example[1]))
        for f in ("inline", "nullable", "optional"):
            if getattr(self, f):
                o.append(f)
        if self.explicit:
            o.append(self.explicit)
        return o

    def any(self):
        return bool(self.items())


class Field:
    __slots__ = ("ident", "ty", "ann", "rename", "skip", "skip_if", "noise", "with_")

    def __init__(self, ident, ty):
        self.ident, self.ty = ident, ty
        self.ann = Ann()
        self.rename = None      # (form, serialized or None)
        self.skip = None        # skip, skip_serializing, skip_deserializing
        self.skip_if = None
        self.noise = []
        self.with_ = None

    @property
    def hidden(self):
        return self.skip in ("skip", "skip_serializing")

    def wire(self, rule, index=None):
        if self.rename and self.rename[1] is not None:
            return self.rename[1]
        return field_rule(rule, unraw(self.ident) if self.ident else str(index))

    @property
    def optional(self):
        return self.ann.optional or self.skip_if is not None


class Variant:
    __slots__ = ("ident", "style", "fields", "ann", "rename", "rename_all", "skip", "disc", "noise")

    def __init__(self, ident, style, fields):
        self.ident, self.style, self.fields = ident, style, fields
        self.ann = Ann()
        self.rename = None
        self.rename_all = None
        self.skip = None
        self.disc = None
        self.noise = []

    @property
    def hidden(self):
        return self.skip in ("skip", "skip_serializing")

    def wire(self, rule):
        if self.rename and self.rename[1] is not None:
            return self.rename[1]
        return variant_rule(rule, unraw(self.ident))

    @property
    def wire_style(self):
        if self.style == "newtype" and self.fields[0].hidden:
            return "unit"
        return self.style


class Def:
    def __init__(self, name, kind):
        self.name, self.kind = name, kind     # struct, tuple, newtype, enum
        self.ann = Ann()
        self.rename = None
        self.rename_all = None
        self.transparent = False
        self.tag = None
        self.content = None
        self.untagged = False
        self.repr = None
        self.fields = []
        self.variants = []
        self.noise = []
        self.layout = 0

    def wire(self):
        if self.rename and self.rename[1] is not None:
            return self.rename[1]
        return unraw(self.name)

    @property
    def tagging(self):
        if self.repr:
            return "repr"
        if self.untagged:
            return "unt"
        if self.tag is not None and self.content is not None:
            return "adj"
        if self.tag is not None:
            return "int"
        if all(v.style == "unit" for v in self.variants):
            return "units"
        return "ext"

    def transparent_field(self):
        for f in self.fields:
            if not f.hidden and not (f.ty[0] == "raw" and "PhantomData" in f.ty[1]):
                return f
        return None


def rename_items(r, key="rename"):
    if r is None:
        return []
    form = r[0]
    if form == "plain":
        return ["%s = %s" % (key, rs_str(r[1]))]
    if form == "ser":
        return ["%s(serialize = %s)" % (key, rs_str(r[1]))]
    if form == "de":
        return ["%s(deserialize = %s)" % (key, rs_str(r[2]))]
    if form == "serde":
        return ["%s(serialize = %s, deserialize = %s)" % (key, rs_str(r[1]), rs_str(r[2]))]
    return ["%s(deserialize = %s, serialize = %s)" % (key, rs_str(r[2]), rs_str(r[1]))]


CROWD = ["/// a line of documentation\n", "/// with `#[opg(\"text\")]` in it\n", "#[allow(dead_code)]", "#[doc = \"x\"]", "#[serde()]", "#[opg()]",
         "#[cfg_attr(all(), allow(unused))]", "///\n", "/** block\n */", "#[cfg(all())]"]

CROWD_NO_SERDE = [x for x in CROWD if "serde" not in x]


PATHS = [(r"(?<![\w:])Option<", ["std::option::Option<", "::std::option::Option<", "core::option::Option<"]),
         (r"(?<![\w:])Vec<", ["std::vec::Vec<", "::std::vec::Vec<"]),
         (r"(?<![\w:])Box<", ["std::boxed::Box<", "::std::boxed::Box<"]),
         (r"(?<![\w:])String\b(?!<)", ["std::string::String", "::std::string::String"]),
         (r"(?<![\w:])std::collections::HashMap<", ["std::collections::hash_map::HashMap<", "::std::collections::hash_map::HashMap<"]),
         (r"(?<![\w:])std::collections::BTreeMap<", ["std::collections::btree_map::BTreeMap<", "::std::collections::BTreeMap<"]),
         (r"(?<![\w:])std::(rc|sync|cell|collections|marker)::", [r"::std::\1::"])]


class Layout:
    """how attributes are grouped: pure function of a number, so that it is part of the definition"""

    def __init__(self, src, paths=6, free=False):
        self.src = src
        self.paths = paths
        self.free = free

    def vis(self, vis):
        """how visible a member is does not matter"""
        if self.free and self.src.prob(12):
            return self.src.pick(["pub(crate) ", "", "pub(self) ", "pub(super) ", "pub(in super) "])
        return vis

    def spell(self, ty, raw=False):
        """the same type by a longer path"""
        if self.src.prob(self.paths):
            c = self.src.draw(12)
            if c == 1 and not raw:
                return "(%s)" % ty
            if c == 2 and ty in ("u8", "String"):
                return {"u8": "<rt::WithU8 as rt::HasItem>::Item", "String": "<rt::WithStr as rt::HasItem>::Item"}[ty]
            for rx, forms in PATHS:
                if re.search(rx, ty):
                    if self.src.prob(70):
                        ty = re.sub(rx, self.src.pick(forms), ty)
        return ty

    def attrs(self, serde, opg, noise):
        groups = []
        for name, items in (("serde", serde), ("opg", opg)):
            items = self.src.shuffle(items) if len(items) > 1 and self.src.prob(40) else list(items)
            while items:
                n = len(items)
                if n > 1 and self.src.prob(30):
                    n = self.src.int(1, n)
                tail = "," if self.src.prob(10) else ""
                groups.append("#[%s(%s%s)]" % (name, ", ".join(items[:n]), tail))
                items = items[n:]
        groups += list(noise)
        if len(groups) > 1 and self.src.prob(30):
            groups = self.src.shuffle(groups)
        if groups and self.src.prob(4):
            # among many others, as below a long documentation comment
            for _ in range(self.src.int(2, 12)):
                groups.insert(self.src.draw(len(groups) + 1) if self.src.prob(30) else 0, self.src.pick(CROWD if serde else CROWD_NO_SERDE))
        return groups


def render_def(d, names, lay, derives=("Serialize", "OpgModel"), generics="", where="", sub=None, vis="pub "):
    o = []
    life = generics.startswith("<'a")
    vis = lay.vis(vis)
    dv = list(derives)
    if d.repr:
        dv = ["serde_repr::Serialize_repr" if x == "Serialize" else x for x in dv]
    o.append("#[derive(%s)]" % ", ".join(dv))
    serde = rename_items(d.rename)
    serde += rename_items(d.rename_all, "rename_all")
    if d.transparent:
        serde.append("transparent")
    if d.untagged:
        serde.append("untagged")
    if d.tag is not None:
        serde.append("tag = " + rs_str(d.tag))
    if d.content is not None:
        serde.append("content = " + rs_str(d.content))
    use_serde = "Serialize" in dv or "Noop" in dv
    o += lay.attrs(serde if use_serde else [], d.ann.items(), d.noise + (["#[repr(%s)]" % d.repr] if d.repr else []))

    def field(f, v=""):
        s = rename_items(f.rename)
        if f.skip:
            s.append(f.skip)
        if f.skip_if:
            s.append("skip_serializing_if = " + rs_str(f.skip_if))
        if f.with_:
            s.append(f.with_)
        a = " ".join(lay.attrs(s if use_serde else [], f.ann.items(), f.noise))
        if a:
            a += " "
        ty = lay.spell(rs_ty(f.ty, names, sub), f.ty[0] == "raw")
        if life:
            ty = ty.replace("&'static ", "&'a ")
        return "%s%s%s%s" % (a, v, (f.ident + ": ") if f.ident else "", ty)

    if d.kind == "enum":
        o.append("%senum %s%s%s {" % (vis, d.name, generics, where))
        for x in d.variants:
            s = rename_items(x.rename) + rename_items(x.rename_all, "rename_all")
            if x.skip:
                s.append(x.skip)
            o += ["    " + a for a in lay.attrs(s if use_serde else [], x.ann.items(), x.noise)]
            if x.style == "unit":
                body = ""
            elif x.style == "struct":
                body = " { %s }" % ", ".join(field(f) for f in x.fields)
            else:
                body = "(%s)" % ", ".join(field(f) for f in x.fields)
            o.append("    %s%s%s," % (x.ident, body, " = %d" % x.disc if x.disc is not None and d.layout else ""))
        o.append("}")
    elif d.kind == "struct":
        o.append("%sstruct %s%s%s {" % (vis, d.name, generics, where))
        for f in d.fields:
            o.append("    %s," % field(f, lay.vis("pub ")))
        o.append("}")
    else:
        o.append("%sstruct %s%s(%s)%s;" % (vis, d.name, generics, ", ".join(field(f, lay.vis("pub ")) for f in d.fields), where))
    return "\n".join(o)


def generalize(src, i, d, names):
    """Parameters with defaults: wherever the type is named, it is the same type as without them.
    Returns generics, where clause and the types to replace; a lifetime is added to the name of the type."""
    ps, wh, sub = [], [], {}
    if d.repr:
        return "", "", None
    fields = list(d.fields) + [f for v in d.variants if not v.hidden for f in v.fields]
    free = [f for f in fields if f.ty[0] != "raw" and not f.skip_if and not f.with_ and not f.hidden and all(j < i for j in users(f.ty))]
    if any("&'static " in rs_ty(f.ty, names) for f in fields) and src.prob(50):
        ps.append("'a")
        free = [f for f in free if "'" not in rs_ty(f.ty, names)]
        names[i] = d.name + "<'static>"
    for k in range(src.draw(3)):
        if not free:
            break
        f = free.pop(src.draw(len(free)))
        n = "P%d" % k
        b = src.pick(["", "", ": Sized", ": rt::Anything"])
        ps.append("%s%s = %s" % (n, b, rs_ty(f.ty, names)))
        sub[id(f.ty)] = n
        if src.prob(25):
            wh.append(src.pick(["%s: Sized", "%s: rt::Anything", "Vec<%s>: Sized", "for<'x> &'x %s: rt::Anything"]) % n)
    if not ps or src.prob(30):
        ps.append(src.pick(["const N: usize = 3", "const N: bool = true", "const N: char = 'n'"]))      # serde wants it last
        if src.prob(20):
            wh.append(src.pick(["u8: Copy", "String: Clone"]))
    w = " where %s" % ", ".join(wh) if wh else ""
    return "<%s>" % ", ".join(ps), w, sub


# ---------------------------------------------------------------- reference model

def apply_params(m, p):
    """the override laws of C14 on serialized schemas"""
    m = dict(m)
    if p.get("desc") is not None:
        m["description"] = p["desc"]
    if "type" in m:
        if p.get("nullable") is True:
            m["nullable"] = True
        elif p.get("nullable") == "off":
            m.pop("nullable", None)
        if m["type"] in ("string", "number", "integer"):
            if p.get("format") is not None:
                m["format"] = p["format"]
            if p.get("example") is not None:
                m["example"] = p["example"]
        if m["type"] == "string" and p.get("variants") is not None:
            m["enum"] = p["variants"]
    return m


NO = {}
TAG_AUTO = "<auto>"


class Model:
    """Expected schemas of a universe of definitions. Nodes written by the generator itself
    (tag properties and the like) carry the key '!auto'."""

    def __init__(self, defs):
        self.defs = defs

    def type_name(self, t):
        if t[0] == "u":
            if t[1] >= len(self.defs):
                return "?%d" % t[1]     # linked before it is generated
            d = self.defs[t[1]]
            return None if d.ann.inline else unraw(d.name)
        if t[0] == "o":
            return self.type_name(t[1])
        if t[0] == "w":
            return self.type_name(t[2])
        return None

    def schema(self, t):
        k = t[0]
        if k == "s":
            n = t[1]
            if n in ATOMICS:
                n = ATOMICS[n]
            if n in INTS:
                f = INTS[n][0]
                return {"type": "integer", "format": f} if f else {"type": "integer"}
            if n == "f32":
                return {"type": "number", "format": "float"}
            if n == "f64":
                return {"type": "number", "format": "double"}
            if n == "bool":
                return {"type": "boolean"}
            if n in ("String", "str"):
                return {"type": "string"}
            if n == "char":
                return {"type": "string", "format": "char"}
            if n == "Uuid":
                return {"type": "string", "format": "uuid", "example": "00000000-0000-0000-0000-000000000000",
                        "description": "UUID ver. 4 [rfc](https://tools.ietf.org/html/rfc4122)"}
            if n in CHRONO:
                return {"type": "string", "format": "date", "example": CHRONO[n][2], "description": CHRONO[n][1]}
            raise ValueError(n)
        if k == "unit":
            return {"type": "string", "format": "null", "nullable": True, "description": "Always `null`"}
        if k == "o":
            return apply_params(self.schema(t[1]), {"nullable": True})
        if k == "w":
            return self.schema(t[2])
        if k == "a":
            return {"type": "array", "items": self.ref(t[2])}
        if k == "t":
            if len(t[1]) == 1:
                return {"type": "array", "items": self.ref(t[1][0])}
            return {"type": "array", "items": {"oneOf": [self.ref(x) for x in t[1]]}}
        if k == "m":
            return {"type": "object", "additionalProperties": self.ref(t[3])}
        if k == "u":
            return self.def_schema(self.defs[t[1]])
        raise ValueError(t)

    def ref(self, t, inline=False, p=NO):
        n = self.type_name(t)
        if n is not None and not inline:
            return {"$ref": "#/components/schemas/" + n}
        return apply_params(self.schema(t), p)

    def explicit(self, kind, nullable, p):
        if kind == "any":
            return {}
        m = {"type": kind}
        if p.get("desc") is not None:
            m["description"] = p["desc"]
        if nullable:
            m["nullable"] = True
        if kind != "boolean":
            for k in ("format", "example"):
                if p.get(k) is not None:
                    m[k] = p[k]
        return m

    def field_ref(self, f, inline, p=None, explicit=None):
        p = f.ann.params() if p is None else p
        e = f.ann.explicit or explicit
        if e:
            return self.explicit(e, f.ann.nullable, p)
        return self.ref(f.ty, inline, p)

    def obj(self, fields, rule, desc=None, inline=False, nullable=False):
        m = {"type": "object"}
        props, req = {}, []
        for i, f in enumerate(fields):
            if f.hidden:
                continue
            n = f.wire(rule, i)
            props[n] = self.field_ref(f, inline or f.ann.inline)
            if not f.optional:
                req.append(n)
        if props:
            m["properties"] = props
        if req:
            m["required"] = req
        if desc is not None:
            m["description"] = desc
        if nullable:
            m["nullable"] = True
        return m

    def tup(self, fields, desc=None, inline=False, nullable=False):
        m = {"type": "array", "items": {"oneOf": [self.field_ref(f, inline or f.ann.inline)
                                                  for f in fields if not f.hidden]}}
        if desc is not None:
            m["description"] = desc
        if nullable:
            m["nullable"] = True
        return m

    def newtype(self, d, f):
        p = f.ann.params(d.ann)
        e = f.ann.explicit or d.ann.explicit
        if e:
            return self.explicit(e, d.ann.nullable or f.ann.nullable, p)
        return apply_params(self.schema(f.ty), p)

    def auto_tag(self, values):
        return {"type": "string", "enum": list(values), "!auto": True}

    def def_schema(self, d):
        rule = d.rename_all[1] if d.rename_all else None
        if d.kind != "enum":
            if d.transparent:
                return self.newtype(d, d.transparent_field())
            if d.kind == "newtype":
                return self.newtype(d, d.fields[0])
            if d.kind == "tuple":
                return self.tup(d.fields, d.ann.desc, nullable=d.ann.nullable)
            m = self.obj(d.fields, rule, d.ann.desc, nullable=d.ann.nullable)
            if d.tag is not None:
                m.setdefault("properties", {})[d.tag] = self.auto_tag([d.wire()])
                m.setdefault("required", []).append(d.tag)
            return m
        vs = [v for v in d.variants if not v.hidden]
        tg = d.tagging
        top = {}
        if d.ann.desc is not None:
            top["description"] = d.ann.desc
        null = {"nullable": True} if d.ann.nullable else {}
        if tg == "repr":
            return dict(top, oneOf=[{"type": "integer", "example": str(v.disc), "!auto": True} for v in vs])
        if tg == "units":
            ws = [v.wire(rule) for v in vs]
            m = dict(top, type="string", enum=ws, **null)
            if ws:
                m["example"] = ws[0]
            m["!autoexample"] = True
            return m

        def vrule(v):
            return v.rename_all[1] if v.rename_all else None

        def content(v):
            s = v.wire_style
            if s == "newtype":
                f = v.fields[0]
                q = v.ann.params()
                q["nullable"] = False
                p = f.ann.params()
                for k in p:
                    if p[k] is None:
                        p[k] = q[k]
                return self.field_ref(f, v.ann.inline or f.ann.inline, p, v.ann.explicit)
            if s == "tuple":
                return self.tup(v.fields, v.ann.desc, v.ann.inline)
            if s == "struct":
                return self.obj(v.fields, vrule(v), v.ann.desc, v.ann.inline)
            return None

        if tg == "unt":
            out = []
            for v in vs:
                c = content(v)
                if c is None:
                    p = v.ann.params()
                    p["nullable"] = False
                    c = apply_params(self.schema(("unit",)), p)
                out.append(c)
            return dict(top, oneOf=out)
        if tg == "ext":
            out = []
            for v in vs:
                c = content(v)
                if c is None:
                    c = {"type": "string", "enum": [v.wire(rule)], "example": v.wire(rule), "!autoexample": True}
                    if v.ann.desc is not None:
                        c["description"] = v.ann.desc
                out.append(c)
            return dict(top, type="object", additionalProperties=dict(top, oneOf=out), **null)
        if tg == "adj":
            cs = [(v, content(v)) for v in vs]
            with_c = [c for _, c in cs if c is not None]
            m = dict(top, type="object", properties={d.tag: self.auto_tag([v.wire(rule) for v in vs])},
                     required=[d.tag], **null)
            if with_c:
                m["properties"][d.content] = dict(top, oneOf=with_c)
                if len(with_c) == len(cs):
                    m["required"].append(d.content)
            return m
        out = []
        for v in vs:
            s = v.wire_style
            if s == "unit":
                m = self.obj([], None, v.ann.desc)
            elif s == "struct":
                m = self.obj(v.fields, vrule(v), v.ann.desc, v.ann.inline)
            else:
                f = v.fields[0]
                p = f.ann.params()
                for k, x in v.ann.params().items():
                    if k != "nullable" and p[k] is None:
                        p[k] = x
                m = apply_params(self.schema(f.ty), p)
                m = dict(m)
                if "properties" in m:
                    m["properties"] = dict(m["properties"])
                if "required" in m:
                    m["required"] = list(m["required"])
            m.setdefault("properties", {})[d.tag] = self.auto_tag([v.wire(rule)])
            m.setdefault("required", []).append(d.tag)
            out.append(m)
        return dict(top, oneOf=out)

    def components(self, roots):
        """named types reachable by links from the given schema nodes"""
        by_name = {unraw(d.name): d for d in self.defs}
        out, todo = {}, list(roots)
        while todo:
            node = todo.pop()
            for r in refs(node):
                n = r[len("#/components/schemas/"):]
                if n not in out:
                    out[n] = self.def_schema(by_name[n])
                    todo.append(out[n])
        return out


def refs(node, out=None):
    out = [] if out is None else out
    if "$ref" in node:
        out.append(node["$ref"])
    for v in node.get("properties", {}).values():
        refs(v, out)
    for k in ("items", "additionalProperties"):
        if k in node and isinstance(node[k], dict):
            refs(node[k], out)
    for k in ("oneOf", "anyOf", "allOf"):
        for v in node.get(k, []):
            refs(v, out)
    return out


# ---------------------------------------------------------------- generation

class Gen:
    """Generates universes of definitions.

    conform: annotations never contradict the data (explicit types match the wire, no overridden range formats),
    and values avoid the recorded findings (see known_findings.json)."""

    def __init__(self, src, conform=False, max_defs=4, ann=30, exotic=True, scalars=None, enums=True, kinds=None,
                 tag_bias=None, rec=0):
        self.rec = rec          # extra weight of recursive links (definitions without values only)
        self.src = src
        self.conform = conform
        self.max_defs = max_defs
        self.ann = ann
        self.exotic = exotic
        self.defs = []
        self.model = Model(self.defs)
        self.labels = set()
        self.scalars = scalars or SCALARS
        self.enums = enums
        self.kinds = kinds
        self.tag_bias = tag_bias
        self.type_names = Names()
        self.empty_tag = src.prob(6)    # then tags may be empty, and renames may not
        self.empty_used = False
        self.field_norms = set()
        self.total = 0

    # -- types

    def scalar(self):
        return ("s", self.src.pick(COMMON) if self.src.prob(65) else self.src.pick(self.scalars))

    def ty(self, depth=2, users=True, inline_pos=False, i=None):
        """inline_pos: a user type reached directly here would be inlined"""
        src = self.src
        i = len(self.defs) if i is None else i
        w = [(46, "s")]
        if users and i > 0:
            w.append((22, "u"))
        if depth > 0:
            w += [(9, "o"), (8, "a"), (5, "w"), (4, "t"), (5, "m")]
            if users and not inline_pos:
                w.append((4 + self.rec, "fwd"))
        elif users and not inline_pos and self.rec:
            w.append((self.rec, "fwd"))
        w.append((1, "unit"))
        k = src.weighted(w)
        if k == "s":
            return self.scalar()
        if k == "u":
            j = src.draw(i)
            return ("u", i - 1 - j)
        if k == "o":
            return ("o", self.ty(depth - 1, users, inline_pos, i))
        if k == "w":
            w = src.pick(WRAPPERS)
            if w == "Cell":
                return ("w", w, ("s", src.pick(COPY)))
            return ("w", w, self.ty(depth - 1, users, inline_pos, i))
        if k == "a":
            a = src.weighted([(6, "Vec"), (1, "VecDeque"), (1, "LinkedList"), (1, "HashSet"), (1, "BinaryHeap"),
                              (2, "array"), (1, "BoxSlice"), (1, "RefSlice")])
            if a in ("HashSet", "BinaryHeap"):
                return ("a", a, ("s", src.pick(HASHABLE)))
            e = self.ty(depth - 1, users, False, i)
            if a == "array":
                return ("a", a, e, src.weighted([(3, 1), (3, 2), (3, 3), (1, 0), (1, 5), (1, 17), (1, 32)]))
            return ("a", a, e)
        if k == "t":
            n = src.weighted([(5, 2), (3, 1), (3, 3), (1, 4), (1, 5), (1, 6), (1, 7), (1, 8), (1, 9), (1, 10)])
            return ("t", [self.ty(depth - 1 if n < 4 else 0, users, False, i) for _ in range(n)])
        if k == "m":
            key = ("s", src.weighted([(6, "String"), (1, "u8"), (1, "i64"), (1, "char"), (1, "u64")]))
            return ("m", src.pick(MAPS), key, self.ty(depth - 1, users, False, i))
        if k == "fwd":      # a type defined later or the type itself, as a link behind indirection
            j = i + src.draw(2)
            if self.rec:
                j = i + src.draw(3)
            t = ("u", j)
            self.fwd.add(j)
            if self.rec:
                return self.behind(t)
            c = src.draw(3)
            if c == 0:
                return ("a", "Vec", t)
            if c == 1:
                return ("m", "BTreeMap", ("s", "String"), t)
            return ("a", "Vec", ("w", "Box", t))
        return ("unit",)

    def behind(self, t):
        """any way to refer to a type from itself; None of these needs a value"""
        k = self.src.draw(14)
        self.labels.add("back:%d" % k)
        w = lambda n, x: ("w", n, x)
        a = lambda n, x: ("a", n, x)
        return [lambda: a("Vec", t), lambda: w("Box", t), lambda: ("o", w("Box", t)), lambda: a("Vec", w("Box", t)),
                lambda: ("m", "BTreeMap", ("s", "String"), t), lambda: ("m", "HashMap", ("s", "String"), t),
                lambda: w("Rc", t), lambda: w("Arc", w("RefCell", t)), lambda: a("LinkedList", t), lambda: a("VecDeque", ("o", t)),
                lambda: ("t", [w("Box", t), ("s", "u8")]), lambda: ("o", a("Vec", t)), lambda: a("BoxSlice", t),
                lambda: w("Box", ("t", [("o", t), ("m", "BTreeMap", ("s", "u8"), a("Vec", t))]))][k]()

    # -- annotations

    def text(self):
        return rnd_text(self.src)

    def example(self):
        src = self.src
        if src.prob(30):
            e, x = src.pick([("1 + 2", "3"), ("true", "true"), ("\"a\".repeat(3)", "aaa"), ("-5i32", "-5"),
                             ("'x'", "x"), ("(7 * 2) as u8", "14"),
                             ("String::from(\"own\")", "own"), ("ex_fn(2)", "ex2"), ("EX_CONST", "a constant"), ("EX_NUM.wrapping_add(1)", "0"),
                             ("ExShow", "shown {}"), ("EX_CONST.len() * 2", "20"),
                             ("EX_CONST.to_owned() + \"!\"", "a constant!"), ("-1.25f32", "-1.25"), ("i128::MIN", str(-2**127)), ("u64::MAX", str(2**64 - 1)), ("1.5", "1.5")])
            return ("with", e, x)
        t = self.text()
        return ("lit", t, t)

    def fmt(self):
        if self.src.prob(35):
            t = self.text()
            if t.strip() != "null" or not self.conform:      # the validator gives "null" a meaning
                return t
        return self.src.pick(["id", "custom", "my-format", "password", "ключ", "byte {}", "email"])

    def annotate(self, ann, desc=True, simple=False, nullable=False, inline=False, optional=False):
        src, p = self.src, self.ann
        if desc and src.prob(p):
            ann.desc = self.text()
        if simple and src.prob(p // 2):
            ann.format = self.fmt()
        if simple and src.prob(p // 2):
            ann.example = self.example()
        if nullable and src.prob(p // 3):
            ann.nullable = True
        if inline and src.prob(p // 2):
            ann.inline = True
        if optional and src.prob(p // 3):
            ann.optional = True
        return ann

    def wire_kind(self, t):
        """JSON type of every value of t, if it is a single scalar type"""
        while t[0] == "w":
            t = t[2]
        if t[0] == "s":
            n = ATOMICS.get(t[1], t[1])
            if n in INTS:
                return "integer"
            if n in ("f32", "f64"):
                return "number"
            return "boolean" if n == "bool" else "string"
        if t[0] == "u" and t[1] < len(self.defs):
            m = self.model.schema(t)
            if m.get("type") == "string" and not m.get("nullable"):
                return "string"
        return None

    def explicit(self, f):
        src = self.src
        if self.conform:
            k = self.wire_kind(f.ty)
            pool = ["any"] + ([k] if k else []) + (["number"] if k == "integer" else [])
            return src.pick(pool)
        return src.pick(["string", "integer", "number", "boolean", "any"])

    # -- fields

    def rename(self, names, p=18, ident=None):
        src = self.src
        if not src.prob(p):
            return None
        form = src.weighted([(5, "plain"), (2, "ser"), (2, "serde"), (1, "deser"), (1, "de")])
        if form == "de":
            a = None
        elif ident is not None and src.prob(25):        # a name which differs from the identifier in its case at most
            a = unraw(ident)
            a = src.pick([a, a, a, a.upper(), a.lower(), a.swapcase()])
        else:
            a = names.rename(src)
        return (form, a, "deserialized_only" + str(src.draw(9)))

    def field(self, names, camel, named, inline_pos, skips=True, inline_variant=False):
        src = self.src
        ident = names.fresh(src, FIELD_WORDS, camel) if named else None
        inline = inline_variant or src.prob(self.ann // 3)
        f = Field(ident, self.ty(4 if src.prob(6) else 2, True, inline_pos or inline))
        f.ann.inline = inline and not inline_variant
        self.annotate(f.ann, simple=True, nullable=True, optional=named)
        if src.prob(self.ann // 4):
            f.ann.explicit = self.explicit(f)
        if named:
            f.rename = self.rename(names, ident=ident)
        if skips and src.prob(14):
            f.skip = src.pick(["skip", "skip_serializing", "skip_deserializing"])
            if f.hidden and src.prob(40):
                f.ty = ("raw", "NoSchema", None)
                f.ann.explicit = None
        if not f.hidden and src.prob(12):
            if f.ty[0] == "o" and src.prob(50):
                f.skip_if = src.pick(["Option::is_none", "Option::is_none", "std::option::Option::is_none", "::std::option::Option::is_none",
                                      "Option::<_>::is_none"])
            elif f.ty[0] == "a" and f.ty[1] == "Vec" and src.prob(50):
                f.skip_if = src.pick(["Vec::is_empty", "Vec::is_empty", "std::vec::Vec::is_empty", "Vec::<_>::is_empty", "<[_]>::is_empty"])
            else:
                f.skip_if = src.pick(["rt::sk", "rt::sk", "rt::skip::is_zero", "rt::skip::is_default", "rt::skip::r#if", "rt::skip::By::skip",
                                      "rt::sk::<_>"])
        if f.hidden and src.prob(15):
            f.skip_if = src.pick(["rt::sk", "rt::skip::is_default"])
        if src.prob(6):
            f.noise.append(src.pick(["/// a doc comment\n", "#[allow(dead_code)]", "#[cfg_attr(all(), allow(unused))]",
                                     "#[doc = \"other\"]", "#[doc(hidden)]"]))
        if named and src.prob(4) and not f.skip:
            f.with_ = src.pick(["default", "alias = \"other_alias\"", "default = \"Default::default\""])
        return f

    def fields(self, n, named, camel, inline_pos=False, skips=True, inline_variant=False):
        # a field must not be called like a tuple struct: serde's own match bindings would refer to that
        names = self.fresh_names()
        names.used |= self.type_names.used
        out = [self.field(names, camel, named, inline_pos, skips, inline_variant) for _ in range(n)]
        self.field_norms.update(norm(unraw(f.ident)) for f in out if f.ident)
        return out

    def siblings(self, xs, rule):
        """sometimes two members whose names differ in little"""
        src = self.src
        if len(xs) < 2 or not src.prob(16):
            return
        wire = lambda k: xs[k].wire(rule) if isinstance(xs[k], Variant) else xs[k].wire(rule, k)
        i, j = src.draw(len(xs)), src.draw(len(xs))
        w = wire(i)
        form = src.pick(["plain", "ser", "serde"])
        if i != j and src.prob(40):
            # named like another one is called in the source, which itself is hidden or named differently
            own = lambda k: unraw(xs[k].ident) if xs[k].ident else str(k)
            a, b = own(i), own(j)
            if xs[j].hidden and src.prob(50):
                i, j, a, b = j, i, b, a
            rest = {wire(k) for k in range(len(xs)) if k not in (i, j)}
            if not xs[i].hidden and not {a, b} & rest and not RESERVED.match(a) and not RESERVED.match(b) and xs[i].ident and xs[j].ident:
                xs[i].rename, xs[j].rename = (form, b, "deserialized_only0"), (form, a, "deserialized_only1")
                self.labels.add("exchanged names")
            elif xs[i].hidden and a not in rest and not RESERVED.match(a) and xs[i].ident and xs[j].ident:
                if wire(i) == a:        # serde looks at the names of hidden members, too
                    xs[i].rename = (form, "hidden %s" % a, "deserialized_only0")
                xs[j].rename = (form, a, "deserialized_only1")
                self.labels.add("named like a hidden member")
            return
        s = src.pick([w.upper(), w.lower(), w.swapcase(), w.replace("_", "-"), w.replace("_", ""), w + "_", "_" + w, w + " ", " " + w, w + w])
        if i == j or s == "" or RESERVED.match(s) or s in {wire(k) for k in range(len(xs)) if k != j}:
            return
        xs[j].rename = (form, s, "deserialized_only")
        self.labels.add("similar names")

    def hidden_like_tag(self, fields, tag, skips):
        """a field which is not serialized may be named like the tag"""
        hid = [f for f in fields if f.skip in skips and f.ident]
        if hid and self.src.prob(50):
            f = self.src.pick(hid)
            f.rename = (self.src.pick(["plain", "ser"]), tag, None)
            self.labels.add("hidden field named like the tag")

    def pick_rule(self, p=45):
        src = self.src
        if not src.prob(p):
            return None
        r = src.pick(RULES[1:])
        form = src.weighted([(6, "plain"), (1, "ser"), (1, "serde")])
        return (form, r, src.pick(RULES[1:]))

    # -- definitions

    def def_(self):
        src = self.src
        i = len(self.defs)
        name = self.type_ident()
        if self.kinds:
            kind = src.pick(self.kinds)
        else:
            kind = src.weighted([(9, "struct"), (3, "newtype"), (3, "tuple")] + ([(14, "enum")] if self.enums else []))
        d = Def(name, kind)
        if kind == "struct":
            self.struct(d)
        elif kind == "newtype":
            self.newtype(d)
        elif kind == "tuple":
            n = src.weighted([(6, 2), (4, 3), (1, 0), (1, 4), (1, 7), (1, 11)])
            d.fields = self.fields(n, False, False)
            self.annotate(d.ann, nullable=True)
        else:
            self.enum(d)
        if (kind == "struct" or kind == "enum") and not d.repr:
            if src.prob(12):
                d.rename = self.rename(Names(), 100)
        if i not in self.fwd and src.prob(self.ann // 2):
            d.ann.inline = True
        if src.prob(8):
            d.noise.append(src.pick(["/// Documented type.\n", "#[allow(non_camel_case_types)]", "#[non_exhaustive]"]))
        if not d.repr and src.prob(5):
            # representation hints without a say in the serialized form
            hints = ["C", "align(8)", "C, align(4)", "Rust"]
            if kind == "enum" and d.tagging != "units":
                hints += ["u8", "i64", "C, u8"] if any(v.style != "unit" for v in d.variants) else ["u8", "i16"]
            d.noise.append("#[repr(%s)]" % src.pick(hints))
            self.labels.add("representation hint")
        if kind == "enum" and not d.repr and all(v.style == "unit" for v in d.variants) and src.prob(10):
            for k, v in enumerate(d.variants):
                v.disc = k * 3 + src.pick([0, 1, 2]) * (1 if d.noise else -1)
            d.layout = 1
            self.labels.add("discriminants of a string enumeration")
        self.labels.add("kind:" + (kind if kind != "enum" else "enum-" + d.tagging))
        self.defs.append(d)

    def type_ident(self):
        src = self.src
        for _ in range(50):
            w = src.weighted([(5, "T"), (3, "w"), (2, "r")])
            if w == "T":
                s = "Type%d" % len(self.defs)
            elif w == "w":
                s = src.pick(["User", "Order", "HTTPResponse", "snake_type", "V2", "Ключ", "Item_", "A", "LongTypeNameForComponents",
                              "Error1", "Response", "Request", "Page", "Model0", "Schema", "Foo", "Bar"])
            else:
                s = rnd_ident(src, True)
            bad = {"String", "Option", "Vec", "Box", "Some", "None", "Ok", "Err", "Self", "Out", "NoSchema", "HasItem",
                   "BTreeMap", "BTreeSet", "HashMap", "HashSet", "Components", "ContextParams", "Serialize", "OpgModel", "WithU8",
                   "WithStr", "Srv", "Default", "Result", "ExShow", "EX_CONST", "EX_NUM"}
            if s in bad or s in RUST_KEYWORDS or norm(s) in self.type_names.used or norm(s) in self.field_norms or not re.match(r"^[^\W\d]\w*$", s) \
                    or not s.strip("_"):
                continue
            self.type_names.used.add(norm(s))
            if src.prob(3):
                r = src.pick(["r#match", "r#loop", "r#type"])
                if norm(r[2:]) not in self.type_names.used and norm(r[2:]) not in self.field_norms:
                    self.type_names.used.add(norm(r[2:]))
                    return r
            return s
        return "Gen%d" % len(self.defs)

    def struct(self, d):
        src = self.src
        if src.prob(8):
            d.transparent = True
            d.fields = self.fields(1, True, False, inline_pos=True, skips=False)
            d.fields[0].skip_if = None
            names = self.fresh_names()
            names.used.add(norm(unraw(d.fields[0].ident)))
            for _ in range(src.draw(3)):
                x = Field(names.fresh(src, FIELD_WORDS, False), None)
                if src.prob(50):
                    x.ty = ("raw", "std::marker::PhantomData<u8>", None)
                else:
                    x.ty = ("raw", "NoSchema", None)
                    x.skip = src.pick(["skip", "skip_serializing"])
                    x.with_ = None
                d.fields.insert(src.draw(len(d.fields) + 1), x)
            self.newtype_ann(d, next(f for f in d.fields if f.ty[0] != "raw"))
            self.labels.add("transparent")
            return
        d.rename_all = self.pick_rule()
        camel = d.rename_all is not None and "camelCase" in d.rename_all
        d.fields = self.fields(src.size(4, 25), True, camel)
        self.siblings(d.fields, d.rename_all[1] if d.rename_all else None)
        self.annotate(d.ann, nullable=True)
        if src.prob(8):
            d.tag = self.tag_name()
            self.labels.add("struct-tag")
            self.hidden_like_tag(d.fields, d.tag, ("skip", "skip_serializing"))
        if src.prob(4):
            d.noise.append("#[serde(deny_unknown_fields)]")

    def newtype_ann(self, d, f):
        src = self.src
        self.annotate(d.ann, simple=True, nullable=True)
        f.ann.inline = False
        f.ann.optional = False
        if src.prob(self.ann // 3):
            d.ann.explicit = self.explicit(f)
        if d.ann.explicit == "any":
            d.ann.explicit = None
        if f.ann.explicit == "any":
            f.ann.explicit = None

    def newtype(self, d):
        d.fields = self.fields(1, False, False, inline_pos=True, skips=False)
        d.fields[0].skip_if = None
        self.newtype_ann(d, d.fields[0])
        if self.src.prob(15):
            d.transparent = True
            self.labels.add("transparent")

    def fresh_names(self):
        n = Names()
        if self.empty_tag:
            n.used.add("")
        return n

    def tag_name(self, words=TAG_WORDS):
        i = len(self.defs)
        w = self.src.pick(words)
        if self.empty_tag and not self.empty_used and self.src.prob(40):
            w = ""
            self.empty_used = True
        return w + (str(i) if i and w else "")

    def obj_like(self, t):
        """serializes as a map whose keys are fixed: may be the content of an internally tagged variant"""
        while t[0] == "w" and t[1] in ("Box", "Rc", "Arc"):
            t = t[2]
        if t[0] != "u" or t[1] >= len(self.defs):
            return False
        d = self.defs[t[1]]
        if d.ann.nullable:
            return False
        if d.kind == "struct" and not d.transparent:
            return True
        if d.transparent or d.kind == "newtype":
            f = d.transparent_field()
            return not f.ann.explicit and not d.ann.explicit and not f.ann.nullable and self.obj_like(f.ty)
        return d.kind == "enum" and d.tagging == "adj"

    def enum(self, d):
        src = self.src
        tg = src.weighted([(5, "ext"), (4, "units"), (6, "int"), (6, "adj"), (5, "unt"), (2, "repr")])
        if self.tag_bias and src.prob(60):
            tg = self.tag_bias
        d.rename_all = self.pick_rule()
        vcamel = d.rename_all is not None and "camelCase" in d.rename_all
        names = self.fresh_names()
        if tg == "repr":
            d.rename_all = None
            d.repr = src.pick(["u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "usize", "isize"])
            n = src.size(4, 12) + 1
            _, lo, hi = INTS[d.repr]
            explicit = src.prob(60)
            used = set()
            nxt = 0
            for k in range(n):
                v = Variant(names.fresh(src, VARIANT_WORDS, False, True), "unit", [])
                if explicit:
                    x = src.weighted([(6, src.draw(40)), (1, lo), (1, hi), (1, max(lo, -src.draw(40)))])
                    while x in used:
                        x = x + 1 if x < hi else lo
                    used.add(x)
                    v.disc = x
                else:
                    v.disc = k
                d.variants.append(v)
            d.layout = 1 if explicit else 0
            self.annotate(d.ann)
            return
        if tg == "int":
            d.tag = self.tag_name()
        elif tg == "adj":
            d.tag = self.tag_name()
            d.content = self.tag_name(CONTENT_WORDS)
        elif tg == "unt":
            d.untagged = True
        n = src.size(4, 16) + 1
        wrap = [j for j in range(len(self.defs)) if self.obj_like(("u", j))]
        for k in range(n):
            ident = names.fresh(src, VARIANT_WORDS, vcamel, True)
            if tg == "units":
                style = "unit"
            elif tg == "int":
                w = [(4, "struct"), (3, "unit")] + ([(5, "newtype")] if wrap else []) + [(1, "map"), (1, "hidden")]
                style = src.weighted(w)
            else:
                style = src.weighted([(5, "newtype"), (4, "struct"), (3, "unit"), (3, "tuple")])
            v = Variant(ident, style, [])
            v.rename = self.rename(names, ident=ident)
            v.ann.inline = style in ("newtype", "tuple", "struct") and src.prob(self.ann // 4)
            if style == "struct":
                v.rename_all = self.pick_rule(25)
                v.fields = self.fields(src.size(3, 12), True,
                                       v.rename_all is not None and "camelCase" in v.rename_all,
                                       inline_variant=v.ann.inline, inline_pos=v.ann.inline)
                self.siblings(v.fields, v.rename_all[1] if v.rename_all else None)
                if tg == "int":
                    self.hidden_like_tag(v.fields, d.tag, ("skip",))
            elif src.prob(3):
                v.rename_all = self.pick_rule(100)      # has nothing to rename here
            if style == "tuple":
                v.fields = self.fields(src.weighted([(5, 2), (3, 3), (1, 0), (1, 5), (1, 9)]), False, False,
                                       inline_variant=v.ann.inline, inline_pos=v.ann.inline)
            elif style in ("newtype", "map", "hidden"):
                if tg == "int":
                    f = Field(None, None)
                    if style == "map":
                        f.ty = ("m", "BTreeMap", ("s", "String"), self.ty(1))
                        self.annotate(f.ann)
                    elif style == "hidden":
                        f.ty = ("raw", "NoSchema", None)
                        f.skip = src.pick(["skip", "skip_serializing"])
                    else:
                        f.ty = ("u", src.pick(wrap))
                        if src.prob(20):
                            f.ty = ("w", "Box", f.ty)
                        self.annotate(f.ann)
                    v.style = "newtype"
                    v.ann.inline = False
                    v.fields = [f]
                else:
                    v.fields = self.fields(1, False, False, inline_variant=v.ann.inline, inline_pos=v.ann.inline,
                                           skips=src.prob(30))
                    v.fields[0].skip_if = None
                    v.fields[0].ann.optional = False
            if v.wire_style == "newtype":
                self.annotate(v.ann, simple=tg != "int")
                if tg != "int" and src.prob(self.ann // 4):
                    v.ann.explicit = self.explicit(v.fields[0])
                    self.labels.add("explicit type on a variant")
            elif v.wire_style == "unit" and tg == "unt":
                self.annotate(v.ann, simple=True)
            elif not (v.wire_style == "unit" and tg in ("adj", "units")):
                self.annotate(v.ann)
            if src.prob(12):
                v.skip = src.pick(["skip", "skip_serializing", "skip_deserializing"])
                if v.hidden and v.fields and tg != "int" and src.prob(40):
                    f = src.pick(v.fields)
                    f.ty = ("raw", "NoSchema", None)
                    f.ann.explicit = v.ann.explicit = None
                    self.labels.add("hidden-variant-without-schema")
            if src.prob(4):
                v.noise.append(src.pick(["/// variant docs\n", "#[allow(unused)]", "#[doc = \"x\"]"]))
            self.labels.add("%s/%s" % (tg, v.wire_style))
            if v.hidden:
                self.labels.add("hidden-variant")
            d.variants.append(v)
        if all(v.hidden for v in d.variants):
            d.variants[0].skip = None
            for f in d.variants[0].fields:
                if not f.hidden and f.ty[0] == "raw":
                    f.ty = ("s", "u8")
        if tg in ("ext", "unt") and all(v.style == "unit" for v in d.variants):
            tgv = Variant(names.fresh(src, VARIANT_WORDS, vcamel, True), "newtype", [])
            tgv.fields = [Field(None, ("s", "i32"))]
            d.variants.insert(0, tgv)
        if tg == "ext" and all(v.hidden or v.wire_style == "unit" for v in d.variants):
            tgv = Variant(names.fresh(src, VARIANT_WORDS, vcamel, True), "newtype", [])
            tgv.fields = [Field(None, ("s", "i32"))]
            d.variants.insert(0, tgv)
        self.siblings(d.variants, d.rename_all[1] if d.rename_all else None)
        self.annotate(d.ann, nullable=d.tagging in ("units", "ext", "adj"))

    def universe(self):
        n = 1 + self.src.draw(self.max_defs)
        self.fwd = set()
        while len(self.defs) < n or any(j >= len(self.defs) for j in self.fwd):
            if len(self.defs) >= n + 2:     # close the universe: no further forward links
                self.close()
                break
            self.def_()
        return self.defs

    def close(self):
        m = len(self.defs)

        def fix(t):
            k = t[0]
            if k == "u" and t[1] >= m:
                return ("s", "u8")
            if k == "o":
                return ("o", fix(t[1]))
            if k in ("w", "a"):
                return t[:2] + (fix(t[2]),) + t[3:]
            if k == "t":
                return ("t", [fix(x) for x in t[1]])
            if k == "m":
                return ("m", t[1], t[2], fix(t[3]))
            return t

        for d in self.defs:
            for f in d.fields:
                f.ty = fix(f.ty)
            for v in d.variants:
                for f in v.fields:
                    f.ty = fix(f.ty)

    def names(self):
        return [d.name for d in self.defs]

    # -- values

    def int_value(self, n):
        src = self.src
        _, lo, hi = INTS[n]
        x = src.weighted([(3, 0), (3, 1), (2, lo), (2, hi), (2, None)])
        if x is None:
            x = lo + src.draw(min(hi - lo, 10**9) + 1)
        return x

    def value(self, t, mode="any", inline=False, depth=4, pick=None):
        """Rust expression of type t. mode: any, full (nothing empty), min (everything empty)"""
        src = self.src
        k = t[0]
        if k == "s":
            n = t[1]
            a = ATOMICS.get(n)
            b = a or n
            if b in INTS:
                x = self.int_value(b)
                e = ("%d%s" % (x, b)) if x >= 0 else ("(%d%s)" % (x, b))
                if x == INTS[b][1] and x < 0:
                    e = "%s::MIN" % b
            elif b == "bool":
                e = src.pick(["false", "true"])
            elif b == "char":
                e = src.pick(["'a'", "'0'", "' '", "'é'", "'漢'", "'\\u{1F600}'", "'\"'", "'\\u{0}'"])
            elif b == "String":
                e = "String::from(%s)" % rs_str(rnd_text(src))
            elif b == "str":
                e = rs_str(rnd_text(src))
            elif b == "f32":
                e = src.pick(["0.0f32", "1.5f32", "-2.25f32", "f32::MAX", "f32::MIN_POSITIVE", "3.0f32", "1e10f32"])
            elif b == "f64":
                e = src.pick(["0.0f64", "1.5f64", "-2.25f64", "f64::MAX", "f64::MIN_POSITIVE", "3.0f64", "1e-300f64"])
            elif b == "Uuid":
                e = "uuid::Uuid::from_u128(%du128)" % src.pick([0, 1, 2**128 - 1, 0x1234567890abcdef1234567890abcdef])
            elif b == "NaiveDate":
                e = "chrono::NaiveDate::from_ymd_opt(%d, %d, %d).unwrap()" % (src.int(1, 9999), src.int(1, 12), src.int(1, 28))
            elif b == "NaiveDateTime":
                e = "chrono::DateTime::from_timestamp(%d, %d).unwrap().naive_utc()" % (src.draw(2 * 10**9), src.draw(10**9))
            elif b == "DateTimeUtc":
                e = "chrono::DateTime::from_timestamp(%d, %d).unwrap()" % (src.draw(2 * 10**9), src.draw(10**9))
            else:
                e = "chrono::DateTime::from_timestamp(%d, %d).unwrap().fixed_offset()" % (src.draw(2 * 10**9), 0)
            return "std::sync::atomic::%s::new(%s)" % (n, e) if a else e
        if k == "unit":
            return "()"
        if k == "raw":
            return "std::marker::PhantomData" if "PhantomData" in t[1] else t[1]
        if k == "o":
            none_ok = True
            if self.conform:
                # None at a link (K1) and at an alternative list (K6) cannot be described
                none_ok = (inline or self.model.type_name(t[1]) is None) and "oneOf" not in self.model.schema(t[1])
            if mode == "min":
                none = none_ok
            elif mode == "full":
                none = False
            else:
                none = none_ok and src.prob(40)
            if none:
                return "None"
            return "Some(%s)" % self.value(t[1], mode, inline, depth)
        if k == "w":
            v = self.value(t[2], mode, inline, depth)
            return {"Box": "Box::new(%s)", "Rc": "std::rc::Rc::new(%s)", "Arc": "std::sync::Arc::new(%s)",
                    "RefCell": "std::cell::RefCell::new(%s)", "Cell": "std::cell::Cell::new(%s)",
                    "Ref": "&*Box::leak(Box::new(%s))", "RefMut": "Box::leak(Box::new(%s))"}[t[1]] % v
        if k == "a":
            if t[1] == "array":
                return "[%s]" % ", ".join(self.value(t[2], mode, False, depth - 1) for _ in range(t[3]))
            n = 0 if mode == "min" or depth <= 0 else (1 + src.draw(2) if mode == "full" else src.draw(3))
            xs = "[%s]" % ", ".join(self.value(t[2], mode, False, depth - 1) for _ in range(n))
            if t[1] == "RefSlice":
                return "&Vec::leak(Vec::from(%s))[..]" % xs
            if t[1] == "BoxSlice":
                return "Vec::from(%s).into_boxed_slice()" % xs
            return {"Vec": "Vec::from(%s)", "VecDeque": "std::collections::VecDeque::from(%s)",
                    "LinkedList": "std::collections::LinkedList::from(%s)", "HashSet": "std::collections::HashSet::from(%s)",
                    "BinaryHeap": "std::collections::BinaryHeap::from(%s)"}[t[1]] % xs
        if k == "t":
            return "(%s)" % "".join(self.value(x, mode, False, depth - 1) + ", " for x in t[1])
        if k == "m":
            n = 0 if mode == "min" or depth <= 0 else (1 + src.draw(2) if mode == "full" else src.draw(3))
            out = []
            for j in range(n):
                kn = t[2][1]
                key = {"String": "String::from(\"k%d\")", "char": "'%d'"}.get(kn, "%d" + kn) % j
                out.append("(%s, %s)" % (key, self.value(t[3], mode, False, depth - 1)))
            return "std::collections::%s::from([%s])" % (t[1], ", ".join(out))
        if k == "u":
            return self.user_value(t[1], mode, depth)
        raise ValueError(t)

    def field_value(self, f, mode, inline, depth, explicit=None):
        if self.conform and (f.ann.explicit or explicit) == "any":
            c, self.conform = self.conform, False
            try:
                return self.value(f.ty, mode, inline, depth)
            finally:
                self.conform = c
        return self.value(f.ty, mode, inline, depth)

    def variant_choices(self, d):
        vs = [v for v in d.variants if not v.hidden]
        if self.conform and d.tagging == "ext":
            vs = [v for v in vs if v.wire_style != "unit"]      # K2
        return vs

    def user_value(self, i, mode="any", depth=4, variant=None):
        d = self.defs[i]
        name = self.names()[i]
        if d.kind == "enum":
            vs = self.variant_choices(d)
            if variant is None:
                if depth <= 0:
                    flat = [v for v in vs if not any(users(f.ty) for f in v.fields)]
                    vs = flat or vs
                variant = self.src.pick(vs)
            v = variant
            fs = [self.field_value(f, mode, v.ann.inline or f.ann.inline or (d.tagging == "int" and v.style == "newtype"),
                                   depth - 1, v.ann.explicit) for f in v.fields]
            if v.style == "unit":
                return "%s::%s" % (name, v.ident)
            if v.style == "struct":
                return "%s::%s { %s }" % (name, v.ident, ", ".join("%s: %s" % (f.ident, x) for f, x in zip(v.fields, fs)))
            return "%s::%s(%s)" % (name, v.ident, ", ".join(fs))
        newt = d.kind == "newtype" or d.transparent
        fs = [self.field_value(f, mode, newt or f.ann.inline, depth - 1) for f in d.fields]
        if d.kind == "struct":
            return "%s { %s }" % (name, ", ".join("%s: %s" % (f.ident, x) for f, x in zip(d.fields, fs)))
        return "%s(%s)" % (name, ", ".join(fs))
