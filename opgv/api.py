"""Generated API descriptions: C16, C17, C19, C22."""
import copy

from . import model as M
from . import openapi
from . import schema as S
from .core import Case, Family, rnd_text, rs_str, run_programs

METHODS = ["GET", "POST", "PUT", "DELETE", "OPTIONS", "HEAD", "PATCH", "TRACE"]

REASON = {}
for _l in """100 Continue|101 Switching Protocols|102 Processing|200 OK|201 Created|202 Accepted
203 Non Authoritative Information|204 No Content|205 Reset Content|206 Partial Content|207 Multi-Status
208 Already Reported|226 IM Used|300 Multiple Choices|301 Moved Permanently|302 Found|303 See Other|304 Not Modified
305 Use Proxy|307 Temporary Redirect|308 Permanent Redirect|400 Bad Request|401 Unauthorized|402 Payment Required
403 Forbidden|404 Not Found|405 Method Not Allowed|406 Not Acceptable|407 Proxy Authentication Required
408 Request Timeout|409 Conflict|410 Gone|411 Length Required|412 Precondition Failed|413 Payload Too Large
414 URI Too Long|415 Unsupported Media Type|416 Range Not Satisfiable|417 Expectation Failed|418 I'm a teapot
421 Misdirected Request|422 Unprocessable Entity|423 Locked|424 Failed Dependency|426 Upgrade Required
428 Precondition Required|429 Too Many Requests|431 Request Header Fields Too Large|451 Unavailable For Legal Reasons
500 Internal Server Error|501 Not Implemented|502 Bad Gateway|503 Service Unavailable|504 Gateway Timeout
505 HTTP Version Not Supported|506 Variant Also Negotiates|507 Insufficient Storage|508 Loop Detected|510 Not Extended
511 Network Authentication Required""".replace("\n", "|").split("|"):
    REASON[int(_l[:3])] = _l[4:]
COMMON_CODES = [200, 404, 201, 204, 400, 500, 302, 401, 418]
ODD_CODES = [299, 599, 199, 420, 499, 306, 555]
FAR_CODES = [600, 999, 0, 99, 1000, 700, 65535, 10]

# name, module, definition, types it needs
D = "#[derive(Serialize, OpgModel)] "
POOL = [
    ("UserId", "", D + "pub struct UserId(pub u64);", []),
    ("Pet", "types", D + "pub struct Pet { pub name: String, pub owner: super::UserId, pub tags: Option<Vec<String>> }", ["UserId"]),
    ("Kind", "", D + "pub enum Kind { One, Two }", []),
    ("Shape", "types", D + "#[serde(tag = \"t\")] pub enum Shape { Circle { r: f64 }, Kept(Pet) }", ["Pet"]),
    ("Node", "types", D + "pub struct Node { pub next: Option<Box<Node>>, pub kind: super::Kind }", ["Kind"]),
    ("Small", "", D + "#[opg(inline)] pub struct Small { pub a: u8, pub id: UserId }", ["UserId"]),
    ("X", "", D + "#[opg(\"An x\", format = \"x-format\")] pub struct X(String);", []),
    ("HTTPCode", "", D + "pub struct HTTPCode(pub u16);", []),
    ("ID", "", D + "pub struct ID(pub i32);", []),
    ("URL_2", "types", D + "pub struct URL_2 { pub host: String, pub id: super::ID }", ["ID"]),
    ("lower_case", "", D + "pub struct lower_case { pub r#type: bool }", []),
    ("Empty", "types::sub", D + "pub struct Empty {}", []),
    ("Этаж", "", D + "pub struct Этаж(pub i8);", []),
    ("Élan", "types", D + "pub enum Élan { A(u8), B { b: String } }", []),
    ("Key_", "", D + "pub struct Key_(pub u32);", []),
    ("_Lead9", "types", D + "pub struct _Lead9 { pub k: super::Key_ }", ["Key_"]),
    ("Page2", "types", D + "pub struct Page2<T> { pub items: Vec<T>, pub total: usize }", []),
]
BY = {p[0]: p for p in POOL}
STD = ["String", "u8", "i64", "bool", "f64", "u32", "char", "uuid::Uuid"]
IDENTS = ["id", "name", "limit", "petId", "type", "in", "x", "schema", "path", "result", "context", "query", "ключ", "user_id",
          "description", "required", "header", "parameter", "Upper", "a1", "_u", "type_", "x_", "x__", "id_2", "Id", "iD"]
TAGS = ["internal", "admin", "pets", "result", "tags", "Users", "тег", "type", "z", "a_b", "context",
        "T1", "T2", "T3", "T4", "T5", "T6", "users", "Pets", "pets_", "_x"]
VARS = ["auth", "my_key", "result", "scheme", "context", "security", "operation", "path", "name", "description", "basicAuth",
        "parameter_in", "ключ", "ApiKey", "_hidden", "__auth", "key_", "KEY", "basic_auth_for_all_the_operations", "a1"]


class AG:
    def __init__(self, src, strict):
        self.src = src
        self.strict = strict     # only names which are legal in OpenAPI
        self.lets = []
        self.types = {}          # text -> key
        self.used = set()
        self.vars = {}           # security variables: name -> scheme
        self.svars = 0
        self.labels = set()
        self.reserved = set()

    # -------------------------------------------------- small things

    def fresh(self, value):
        """a variable"""
        n = "v%d" % self.svars
        self.svars += 1
        self.lets.append("let %s = %s;" % (n, value))
        return n

    def lit(self, s):
        return rs_str(s)

    def expr(self, s):
        """something with to_string()"""
        r = self.src.draw(10)
        if r < 6:
            return rs_str(s)
        if r == 6:
            return self.fresh(rs_str(s))
        if r == 7:
            return "String::from(%s)" % rs_str(s)
        if r == 8:
            return "format!(\"{}{}\", %s, %s)" % (rs_str(s[:len(s) // 2]), rs_str(s[len(s) // 2:]))
        return "&[%s, \"other\"][0].to_owned()" % rs_str(s)

    def ref_expr(self, s):
        """a reference to something with to_string()"""
        r = self.src.draw(10)
        if r < 7:
            return rs_str(s)
        if r == 7:
            return "&" + self.fresh("%s.to_string()" % rs_str(s))
        if r == 8:
            return "&String::from(%s)" % rs_str(s)
        return self.fresh(rs_str(s))

    def boolean(self):
        b = self.src.prob(50)
        t = "true" if b else "false"
        r = self.src.draw(5)
        if r == 3:
            t = self.fresh(t)
        elif r == 4:
            t = "1 + 1 == %d" % (2 if b else 3)
        return b, t

    def opt_text(self, p):
        return rnd_text(self.src) if self.src.prob(p) else None

    # -------------------------------------------------- types

    def need(self, n):
        if n not in self.used:
            self.used.add(n)
            for d in BY[n][3]:
                self.need(d)

    def named(self):
        src = self.src
        while True:
            p = src.pick(POOL)
            if self.strict and not p[0].isascii():
                p = POOL[0]
            break
        self.need(p[0])
        t = (p[1] + "::" if p[1] else "") + p[0]
        if src.prob(15):
            t = "self::" + t
        if p[0] == "Page2":
            t += "<types::Pet>"
            self.need("Pet")
        return t

    def ty(self, depth=2):
        src = self.src
        r = src.draw(100)
        if depth == 0 or r < 35:
            t = src.pick(STD)
        elif r < 70:
            t = self.named()
        else:
            k = src.draw(6)
            i = self.ty(depth - 1)
            if k == 0:
                t = "Vec<%s>" % i
            elif k == 1:
                t = "Option<%s>" % i
            elif k == 2:
                t = "std::collections::HashMap<String, %s>" % i
            elif k == 3:
                t = "std::boxed::Box<%s>" % i
            elif k == 4:
                t = "Vec<(%s, %s)>" % (i, self.ty(depth - 1))
            else:
                t = "std::sync::Arc<[%s]>" % i
        return t

    def reg(self, t):
        if t not in self.types:
            self.types[t] = "t%d" % len(self.types)
        return {"ty": t}

    # -------------------------------------------------- parts

    def comma(self, xs, trailing=True):
        s = ",\n".join(xs)
        if xs and trailing and self.src.prob(50):
            s += ","
        return s

    def params(self, taken, n):
        """parameters block: text, entries; `taken` names are not used again at this level"""
        src = self.src
        texts, out = [], []
        for _ in range(n):
            kind = src.pick(["query", "header"])
            if kind == "query":
                name = src.pick(IDENTS)
            else:
                name = src.pick(["X-Request-Id", "x-a", "limit", "id", "Accept-Language", "ETag"]) if src.prob(60) \
                    else rnd_text(src, not self.strict)
            if name in taken:
                continue
            taken.add(name)
            self.labels.add(kind)
            q = {"desc": None, "in": kind, "required": kind == "header", "deprecated": False, "schema": None}
            if kind == "query":
                t = self.ty()
                q["schema"] = self.reg(t)
                head = "(query %s: %s)" % (name, t)
            else:
                q["schema"] = self.reg("String")
                head = "(header %s)" % self.expr(name)
            if src.prob(60):
                ps = []
                for k in src.shuffle(["description", "required", "deprecated", "schema"]):
                    if not src.prob(45):
                        continue
                    self.labels.add("param:" + k)
                    if k == "description":
                        q["desc"] = rnd_text(src)
                        ps.append("description: " + self.expr(q["desc"]))
                    elif k == "schema":
                        t = self.ty()
                        q["schema"] = self.reg(t)
                        ps.append("schema: " + t)
                    else:
                        q[k], t = self.boolean()
                        ps.append("%s: %s" % (k, t))
                head += ": { %s }" % self.comma(ps)
            texts.append(head)
            out.append([name, q])
        return self.comma(texts), out

    def roles(self):
        src = self.src
        if not src.prob(40):
            return [], ""
        rs = [rnd_text(src) for _ in range(src.size(3, 8))]
        return rs, "[%s]" % ", ".join(rs_str(r) for r in rs)

    def sec_var(self):
        src = self.src
        n = src.pick(VARS if not self.strict else [v for v in VARS if v.isascii()])
        if n in self.reserved:
            n = VARS[0]
        if n not in self.vars:
            s = M.gen_sec(src)
            self.vars[n] = s
            self.lets.append("let %s = %s;" % (n, sec_value(s, src.prob(30))))
        return n

    def security(self, declared):
        src = self.src
        texts, out, vars_ = [], [], []
        for _ in range(src.size(2, 9) + 1):
            names, items, req = set(), [], []
            for _ in range(src.pick([1, 2, 1, 3, 4, 1, 2, 7])):
                if src.prob(55):
                    n = self.sec_var()
                    t = n
                    v = n
                else:
                    n = src.pick(declared) if declared and src.prob(60) else \
                        (src.pick(["basicAuth", "key", "oauth2"]) if self.strict else rnd_text(src))
                    t = rs_str(n)
                    v = None
                if n in names:
                    continue
                names.add(n)
                rs, rt = self.roles()
                items.append(t + rt)
                req.append([n, rs])
                if v is not None:
                    vars_.append(v)
            texts.append(" && ".join(items))
            out.append(req)
            self.labels.add("combined" if len(items) > 1 else "single")
        return self.comma(texts), out, vars_

    def op(self, f, depth, declared):
        src = self.src
        v = {"tags": [], "summary": None, "id": None, "desc": None, "deprecated": False, "security": [], "body": None,
             "responses": [], "params": [], "callbacks": []}
        parts = []
        if src.prob(f["tags"]):
            v["tags"] = [src.pick(TAGS) for _ in range(src.size(3, 9))]
            parts.append("tags: {%s}" % self.comma(v["tags"]))
        for k, key in (("summary", "summary"), ("id", "operationId"), ("desc", "description")):
            if src.prob(f["texts"]):
                v[k] = rnd_text(src)
                parts.append("%s: %s" % (key, self.ref_expr(v[k])))
        if src.prob(f["texts"] // 2):
            v["deprecated"], t = self.boolean()
            parts.append("deprecated: " + t)
        if src.prob(f["security"]):
            t, v["security"], vs = self.security(declared)
            parts.append(("sec", vs, "security: {%s}" % t))
        if src.prob(f["body"]):
            parts.append(self.body(v))
        codes = []
        for _ in range(src.size(f["responses"], 12)):
            r = src.draw(10)
            c = src.pick(COMMON_CODES) if r < 6 else (src.pick(sorted(REASON)) if r < 9 else src.pick(ODD_CODES if self.strict or src.prob(50) else FAR_CODES))
            if c in codes:
                continue
            codes.append(c)
            desc = self.opt_text(35)
            t = src.pick(["None", "()", "ty", "ty", "ty"])
            if t == "ty":
                t = self.ty()
            v["responses"].append([c, {"desc": REASON.get(c, "") if desc is None else desc,
                                       "schema": None if t == "None" else self.reg(t)}])
            self.labels.add("response:" + ("none" if t == "None" else "unit" if t == "()" else "typed"))
            parts.append("%d%s%s: %s" % (c, "" if not src.prob(4) else "u16", "" if desc is None else "(%s)" % rs_str(desc), t))
        if src.prob(f["params"]):
            t, v["params"] = self.params(set(), src.size(3, 11) + 1)
            parts.append("parameters: {%s}" % t)
        if depth > 0 and src.prob(f["callbacks"]):
            texts, seen = [], set()
            pend = []
            for _ in range(src.size(2, 8) + 1):
                if src.prob(50):
                    n = src.pick(["onEvent", "myCallback", "cb", "result", "GET"])
                    key = n
                else:
                    n = rnd_text(src)
                    if self.strict and not openapi.NAME.match(n):
                        n = "cb"
                    key = rs_str(n)
                if n in seen:
                    continue
                seen.add(n)
                self.labels.add("callback")
                t, ps, vs = self.paths(f, src.size(2, 6), depth - 1, declared)
                pend += vs
                v["callbacks"].append([n, ps])
                texts.append("%s: {%s}" % (key, t))
            parts.append(("sec", pend, "callbacks: {%s}" % self.comma(texts)))
        parts = src.shuffle(parts)
        vs = []
        for i, p in enumerate(parts):
            if isinstance(p, tuple):
                vs += p[1]
                parts[i] = p[2]
        return self.comma(parts), v, vs

    def body(self, v):
        src = self.src
        t = self.ty()
        b = {"desc": "", "required": True, "schema": self.reg(t)}
        v["body"] = b
        if src.prob(45):
            self.labels.add("body:short")
            return "body: " + t
        self.labels.add("body:long")
        ps = ["schema: " + t]
        if src.prob(60):
            b["desc"] = rnd_text(src)
            ps.append("description: " + rs_str(b["desc"]))
        if src.prob(60):
            b["required"] = src.prob(50)
            ps.append("required: " + ("true" if b["required"] else "false"))
        return "body: {%s}" % self.comma(src.shuffle(ps))

    def path(self, f, taken):
        """segments: text, elements, path parameters"""
        src = self.src
        texts, els, ps, names = [], [], [], set()
        for _ in range(src.size(3, 9) + 1):
            r = src.draw(10)
            if r < 5:
                s = src.pick(["users", "pets", "v1", "search", "a b", "x.y", "поиск", "a/b", "-", "%20", "*", "/lead", "trail/", "Users", " a", "UPPER", "//"]) if src.prob(92) else ""
                texts.append(rs_str(s))
                els.append(["lit", s])
                continue
            if r < 8:
                n = src.pick(IDENTS)
                t = self.ty(1)
                text = "{%s: %s}" % (n, t)
                self.labels.add("named path parameter")
            else:
                t = self.named() if src.prob(70) else src.pick(STD)
                if "<" in t:
                    t = "UserId"
                    self.need(t)
                n = t.split(":")[-1]
                n = (n[0].lower() if n[0].isascii() else n[0]) + n[1:]
                text = t
                self.labels.add("derived path parameter")
            if n in names:
                continue
            names.add(n)
            texts.append(text)
            els.append(["par", n])
            ps.append([n, {"desc": None, "in": "path", "required": True, "deprecated": False, "schema": self.reg(t)}])
        if not texts:
            texts, els = ['"root"'], [["lit", "root"]]
        return " / ".join(texts), els, ps

    def paths(self, f, n, depth, declared):
        src = self.src
        texts, out, seen, vars_ = [], [], set(), []
        for _ in range(n):
            t, els, ps = self.path(f, seen)
            key = M.path_text(els)
            if key in seen:
                continue
            seen.add(key)
            v = {"summary": None, "desc": None, "ops": [], "params": ps}
            parts = []
            for k, name in (("summary", "summary"), ("desc", "description")):
                if src.prob(f["texts"]):
                    v[k] = rnd_text(src)
                    parts.append((None, "%s: %s" % (name, rs_str(v[k])), []))
            if src.prob(f["params"]):
                pt, more = self.params(set(p[0] for p in ps), src.size(3, 11) + 1)
                v["params"] = ps + more
                parts.append((None, "parameters: {%s}" % pt, []))
            for m in src.shuffle(METHODS)[:src.weighted([(5, 1), (4, 2), (1, 0), (2, 3), (1, 8)])]:
                ot, o, vs = self.op(f, depth, declared)
                v["ops"].append([m.lower(), o])
                parts.append((m, "%s: {%s}" % (m, ot), vs))
                self.labels.add(m)
            parts = src.shuffle(parts)
            for p in parts:
                vars_ += p[2]
            out.append([els, v])
            texts.append("(%s): {%s}" % (t, self.comma([p[1] for p in parts])))
        return self.comma(texts), out, vars_

    # -------------------------------------------------- document

    def document(self, f):
        src = self.src
        doc = {"info": {"title": "", "desc": None, "version": ""}, "tags": [], "servers": [], "paths": [], "schemas": [], "sec": []}
        blocks = []
        sec, declared = {}, []

        # declared schemes first, so that requirements can name them
        sec_blocks = []
        if src.prob(f["schemes"]):
            items = []
            for _ in range(src.size(4, 10) + 1):
                k = src.pick(["http", "apiKey", "var"])
                if k == "var":
                    n = self.sec_var()
                    if n in sec:
                        continue
                    sec[n] = self.vars[n]
                    items.append(n)
                    self.labels.add("scheme by variable")
                    continue
                n = (src.pick(["basicAuth", "key", "oauth2", "a.b-c"]) if src.prob(50) else src.pick(VARS[:11])) if self.strict or src.prob(60) \
                    else rnd_text(src)
                if n in sec:
                    continue
                s = M.gen_sec(src)
                if k == "http":
                    s = {"k": src.pick(["basic", "bearer"]), "desc": s["desc"]}
                    ps = ["scheme: " + s["k"].capitalize()]
                    if s["k"] == "bearer":
                        s["format"] = self.opt_text(50)
                        if s["format"] is not None:
                            ps.append("bearer_format: " + self.expr(s["format"]))
                    head = "(http %s)" % rs_str(n)
                else:
                    s = {"k": "apiKey", "desc": s["desc"], "in": "header", "name": rnd_text(src, not self.strict)}
                    ps = ["name: " + self.expr(s["name"])]
                    if src.prob(70):
                        s["in"] = src.pick(["query", "header", "cookie"])
                        ps.append("parameter_in: " + s["in"].capitalize())
                    head = "(apiKey %s)" % self.expr(n)
                if s["desc"] is not None:
                    ps.append("description: " + self.expr(s["desc"]))
                sec[n] = s
                items.append("%s: {%s}" % (head, self.comma(src.shuffle(ps))))
                self.labels.add("scheme " + s["k"])
            cut = src.draw(len(items) + 1) if src.prob(12) else len(items)
            sec_blocks = [items[:cut]] + ([items[cut:]] if cut < len(items) else [])
            declared = list(sec)
        for b in sec_blocks:
            blocks.append("security_schemes: {%s}" % self.comma(b))

        if src.prob(80):
            ps = []
            for k, name in (("title", "title"), ("version", "version"), ("desc", "description")):
                if not src.prob(80 if k != "desc" else 50):
                    continue
                if k == "version" and src.prob(20):
                    t = src.pick(["1", "2.5", "0"])
                    doc["info"][k] = t
                    ps.append("version: " + t)
                else:
                    doc["info"][k] = rnd_text(src)
                    var = src.pick(["title", "version", "description", "info"]) if src.prob(25) else None
                    if var is not None and var not in self.vars and var not in self.reserved:
                        self.reserved.add(var)
                        self.lets.append("let %s = %s;" % (var, rs_str(doc["info"][k])))
                        ps.append("%s: %s" % (name, var))
                        self.labels.add("info by variable")
                    else:
                        ps.append("%s: %s" % (name, self.expr(doc["info"][k])))
            blocks.append("info: {%s}" % self.comma(src.shuffle(ps)))
        for _ in range(src.weighted([(6, 1), (3, 0), (1, 2)])):
            ts = []
            for _ in range(src.size(4, 24)):
                n = src.pick(TAGS)
                if n in [x[0] for x in doc["tags"]]:
                    continue
                d = self.opt_text(50)
                doc["tags"].append([n, d])
                ts.append(n + ("" if d is None else "(%s)" % self.expr(d)))
            blocks.append("tags: {%s}" % self.comma(ts))
        order = {"servers": [], "paths": []}
        for _ in range(src.weighted([(6, 1), (3, 0), (1, 2)])):
            ts, out = [], []
            for _ in range(src.size(3, 20)):
                u = rnd_text(src, not self.strict)
                d = self.opt_text(50)

                def sv(s):
                    r = src.draw(4)
                    if r < 2:
                        return rs_str(s)
                    return self.fresh(rs_str(s) if r == 2 else "Srv(%s)" % rs_str(s))
                out.append([u, d])
                ts.append(sv(u) + ("" if d is None else "(%s)" % sv(d)))
            blocks.append(("servers", out, [], "servers: {%s}" % self.comma(ts)))
        seen = set()
        for i in range(src.weighted([(12, 1), (1, 2)])):
            n = src.size(f["n"], 2 * f["n"] if src.prob(70) else 14) + (0 if src.prob(10) else 1)
            t, ps, vs = self.paths(f, n, f["depth"], declared)
            keys = set(M.path_text(p[0]) for p in ps)
            if keys & seen:
                continue
            seen |= keys
            blocks.append(("paths", ps, vs, "paths: {%s}" % t))
        blocks = src.shuffle(blocks)
        uses = []
        for i, b in enumerate(blocks):
            if isinstance(b, tuple):
                order[b[0]] += b[1]
                uses += b[2]
                blocks[i] = b[3]
        doc["servers"], doc["paths"] = order["servers"], order["paths"]
        for n in uses:
            sec.setdefault(n, self.vars[n])
        doc["sec"] = [[n, s] for n, s in sec.items()]
        return doc, self.comma(blocks)

    def definitions(self):
        mods = {}
        for n in POOL:
            if n[0] in self.used:
                mods.setdefault(n[1], []).append(n[2])
        out = ["use rt::prelude::*;"]
        out += mods.get("", [])
        if any(m for m in mods):
            out.append("pub mod types { use rt::prelude::*;")
            out += mods.get("types", [])
            if "types::sub" in mods:
                out.append("pub mod sub { use rt::prelude::*;")
                out += mods["types::sub"]
                out.append("}")
            out.append("}")
        return out

    def program(self, f):
        doc, text = self.document(f)
        out = self.definitions()
        out.append("pub fn run(o: &mut Out) {")
        for t, k in self.types.items():
            out.append("o.mention::<%s>(%s, false);" % (t, rs_str(k)))
        out += self.lets
        out.append("let document = opg::describe_api! {\n%s\n};" % text)
        out.append("o.doc(\"doc\", &document);\n}")
        return doc, "\n".join(out), text


def sec_value(s, wrap):
    d = "None" if s["desc"] is None else "Some(%s.to_owned())" % rs_str(s["desc"])
    if s["k"] == "basic":
        t = "opg::HttpSecurityScheme::Basic { description: %s }" % d
    elif s["k"] == "bearer":
        t = "opg::HttpSecurityScheme::Bearer { format: %s, description: %s }" % (
            "None" if s["format"] is None else "Some(%s.to_owned())" % rs_str(s["format"]), d)
    else:
        t = "opg::ApiKeySecurityScheme { parameter_in: opg::ParameterIn::%s, name: %s.to_owned(), description: %s }" % (
            s["in"].capitalize(), rs_str(s["name"]), d)
    if wrap:
        t = "opg::SecurityScheme::from(%s)" % t if s["k"] != "apiKey" else "opg::SecurityScheme::ApiKey(%s)" % t
    return t


BASE = {"tags": 20, "texts": 20, "security": 8, "body": 20, "responses": 2, "params": 15, "callbacks": 8, "schemes": 15, "n": 2, "depth": 1}


def case(src, strict, **kw):
    f = dict(BASE)
    f.update(kw)
    g = AG(src, strict)
    doc, prog, text = g.program(f)
    return Case(prog, prog, sorted(g.labels), bool(doc["paths"]), {"doc": doc, "types": g.types})


def expected(c, o):
    """the reference document; the schemas are those the mentioned types have on their own"""
    seen = {t: o.json(k) for t, k in c.data["types"].items()}

    def sub(x):
        if isinstance(x, dict):
            if "ty" in x:
                return {"raw": seen[x["ty"]]["r"]}
            return {k: sub(v) for k, v in x.items()}
        if isinstance(x, list):
            return [sub(v) for v in x]
        return x

    want = M.j_doc(sub(c.data["doc"]))
    comps = {}
    for v in seen.values():
        comps.update(v["c"].get("schemas", {}))
    return want, comps


def each_op(paths, where="$.paths"):
    """(place, path item, method or None, operation), callbacks included"""
    for p, item in paths.items():
        w = "%s[%r]" % (where, p)
        yield w, item, None, None
        for m in M.METHODS:
            if isinstance(item.get(m), dict):
                op = item[m]
                yield w + "." + m, item, m, op
                for n, cb in (op.get("callbacks") or {}).items():
                    yield from each_op(cb, "%s.%s.callbacks[%r]" % (w, m, n))


def shape(paths, keep_item, keep_op):
    """projection of a paths object"""
    out = {}
    for p, item in paths.items():
        x = {k: v for k, v in item.items() if k in keep_item}
        if "parameters" in x:
            x["parameters"] = by_key(x["parameters"])
        for m in M.METHODS:
            if m in item:
                op = item[m]
                y = {k: v for k, v in op.items() if keep_op(k)}
                if "parameters" in y:
                    y["parameters"] = by_key(y["parameters"])
                if op.get("callbacks"):
                    y["callbacks"] = {n: shape(cb, keep_item, keep_op) for n, cb in op["callbacks"].items()}
                x[m] = y
        extra = [k for k in item if k not in M.METHODS and k not in ("summary", "description", "parameters")]
        if extra:
            x["!extra"] = extra
        out[p] = x
    return out


def by_key(ps):
    out = {}
    for p in ps:
        k = "%s %s" % (p.get("in"), p.get("name"))
        if k in out:
            return {"!duplicate": k}
        out[k] = p
    return out


def refs_of(v, out):
    if isinstance(v, dict):
        for k, x in v.items():
            if k == "$ref" and isinstance(x, str):
                out.add(x)
            else:
                refs_of(x, out)
    elif isinstance(v, list):
        for x in v:
            refs_of(x, out)
    return out


def judge_components(want_paths, got, comps):
    """what the paths refer to is published, and as the type itself says"""
    have = got.get("components", {}).get("schemas", {})
    todo = [r for r in refs_of(want_paths, set())]
    done = set()
    while todo:
        r = todo.pop()
        n = r[len(S.PREFIX):] if r.startswith(S.PREFIX) else None
        if n is None or n not in comps or n in done:
            continue
        done.add(n)
        if n not in have:
            return "component %r is not published" % n
        d = S.diff(comps[n], have[n])
        if d:
            return "component %r, expected against observed: %s" % (n, d)
        todo += refs_of(comps[n], set())
    for n in have:
        if n not in comps:
            return "component %r was never declared" % n
    return None


def start(o):
    b = M.crashed(o)
    if b:
        return None, None, b
    got = o.json("doc")
    d = M.dups(got)
    return got, None, [d] if d else None


def judge_c16(c, o):
    got, _, b = start(o)
    if b:
        return b
    want, comps = expected(c, o)
    out = []
    d = M.path_orders(want, got)
    if d:
        out.append(d)
    keep = ("summary", "description", "parameters")
    ko = lambda k: k == "parameters"        # noqa: E731
    w = shape(want["paths"], keep, ko)
    d = S.diff(w, shape(got.get("paths", {}), keep, ko))
    if d:
        out.append("paths and parameters, expected against observed: " + d)
    d = judge_components(w, got, comps)
    if d:
        out.append(d)
    return out


def judge_c17(c, o):
    got, _, b = start(o)
    if b:
        return b
    want, comps = expected(c, o)
    out = []
    d = M.path_orders(want, got)
    if d:
        out.append(d)
    ko = lambda k: k not in ("parameters", "security", "callbacks")        # noqa: E731
    w = shape(want["paths"], (), ko)
    d = S.diff(w, shape(got.get("paths", {}), (), ko))
    if d:
        out.append("operations, expected against observed: " + d)
    for k in ("openapi", "info", "servers"):
        d = S.diff(want.get(k), got.get(k))
        if d:
            out.append("%s, expected against observed: %s" % (k, d))
    by = lambda x: x["name"]        # noqa: E731
    d = S.diff(sorted(want.get("tags", []), key=by), sorted(got.get("tags", []), key=by))
    if d:
        out.append("tags, expected against observed: " + d)
    for k in got:
        if k not in want:
            out.append("undeclared member %r" % k)
    d = judge_components(w, got, comps)
    if d:
        out.append(d)
    return out


def judge_c19(c, o):
    got, _, b = start(o)
    if b:
        return b
    want, comps = expected(c, o)
    out = []
    ko = lambda k: k == "security"        # noqa: E731
    d = S.diff(shape(want["paths"], (), ko), shape(got.get("paths", {}), (), ko))
    if d:
        out.append("requirements, expected against observed: " + d)
    d = S.diff(want["components"].get("securitySchemes", {}), got.get("components", {}).get("securitySchemes", {}))
    if d:
        out.append("security schemes, expected against observed: " + d)
    if "security" in got:
        out.append("undeclared document-wide requirement")
    return out


def judge_c22(c, o):
    got, _, b = start(o)
    if b:
        return b
    out = openapi.problems(got)
    y = o.json("doc.yaml")
    if isinstance(y, dict) and "!err" in y:
        out.append("the YAML form can not be read: %s" % y["!err"])
    else:
        d = S.diff(got, y)
        if d:
            out.append("the YAML form differs from the JSON form: " + d)
    if o.json("doc.verify") is not None:
        out.append("built-in verification reports %s" % o.items["doc.verify"])
    return out


def gen_c16(src):
    return case(src, False, params=45, texts=10, n=3)


def gen_c17(src):
    return case(src, False, tags=35, texts=45, body=45, responses=3, callbacks=20, params=8, depth=2)


def gen_c19(src):
    return case(src, False, security=65, schemes=75, callbacks=12, responses=1)


def gen_c22(src):
    return case(src, True, tags=25, texts=25, security=25, body=35, responses=3, params=30, callbacks=15, schemes=45, depth=2)


def fam(name, gen, judge, quick, thorough, rule, batch=320):
    return Family(name, gen, judge, lambda reqs: run_programs(reqs, name, 20), quick, thorough, rule, batch)


# ---------------------------------------------------------------- generated definitions inside of documents

ROUTES = ["%s", "Option<%s>", "Vec<%s>", "Box<%s>", "std::collections::HashMap<String, %s>", "Vec<(%s, u8)>", "Option<Vec<%s>>",
          "std::sync::Arc<%s>"]


def gen_defs_doc(src):
    from .derive import Prog
    from .lang import Gen
    g = Gen(src, ann=src.pick([24, 8, 45]), max_defs=4, rec=src.pick([0, 8]))
    g.universe()
    p = Prog(g, derives=("Noop", "OpgModel"))
    text = defs_doc_text(src, g)
    p.stmts.append("let document = opg::describe_api! { %s };\no.doc(\"doc\", &document);" % text)
    c = p.case(True, None)
    c.sample += "\n// " + text.replace("\n", "\n// ")
    return c


def defs_doc_text(src, g):
    def ty():
        return src.pick(ROUTES) % src.pick(g.defs).name

    texts = []
    for i in range(src.draw(3) + 1):
        ps = ["200: " + ty()]
        if src.prob(50):
            ps.append("body: " + ty())
        if src.prob(30):
            ps.append("body: {schema: %s, required: false}" % ty()) if len(ps) == 1 else ps.append("404(\"no\"): " + ty())
        if src.prob(40):
            ps.append("parameters: {(query q: %s), (header \"h\"): {schema: %s}}" % (ty(), ty()))
        if src.prob(25):
            ps.append("callbacks: {cb: {(\"x\" / {c: %s}): {PUT: {body: %s, 200: %s}}}}" % (ty(), ty(), ty()))
        seg = "\"p%d\"" % i
        if src.prob(40):
            seg += " / {id: %s}" % ty()
        texts.append("(%s): {%s: {%s}}" % (seg, src.pick(METHODS), ", ".join(src.shuffle(ps))))
    return "paths: { %s }" % ",\n".join(texts)


def judge_c22d(c, o):
    from .derive import base
    b = base(o)
    if b:
        return b
    got = o.json("doc")
    names = [n for n in got.get("components", {}).get("schemas", {}) if not n.isascii()]
    out = [x for x in judge_c22(c, o) if not ("is not a legal component name" in x and any(repr(n) in x for n in names))]
    return out


def judge_c09doc(c, o):
    """every reference of a document resolves"""
    b = M.crashed(o)
    if b:
        return b
    out = []
    for key in ("doc", "doc.yaml"):
        got = o.json(key)
        have = got.get("components", {}).get("schemas", {})
        miss = sorted(r for r in refs_of(got, set()) if not r.startswith(S.PREFIX) or r[len(S.PREFIX):] not in have)
        if miss:
            out.append("%s: %s do not resolve, present are %s" % (key, miss, sorted(have)))
    if o.json("doc.verify") is not None:
        out.append("built-in verification reports %s" % o.items["doc.verify"])
    return out
