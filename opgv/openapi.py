"""Structural validity of OpenAPI 3.0.3 documents (the parts this generator can produce)."""
import re

NAME = re.compile(r"^[a-zA-Z0-9.\-_]+$")
PREFIX = "#/components/schemas/"
METHODS = ("get", "put", "post", "delete", "options", "head", "patch", "trace")
STR, BOOL, LIST, OBJ = "string", "boolean", "array", "object"
KIND = {STR: str, BOOL: bool, LIST: list, OBJ: dict}

SCHEMA = {"description": STR, "type": STR, "nullable": BOOL, "enum": LIST, "format": STR, "example": None, "items": OBJ,
          "properties": OBJ, "additionalProperties": None, "required": LIST, "oneOf": LIST, "allOf": LIST, "anyOf": LIST,
          "title": STR, "default": None, "not": OBJ, "deprecated": BOOL, "readOnly": BOOL, "writeOnly": BOOL}


class V:
    def __init__(self, doc):
        self.doc = doc
        self.out = []

    def bad(self, where, what):
        self.out.append("%s: %s" % (where, what))

    def obj(self, v, where, members, mandatory=()):
        """an object with the given members"""
        if not isinstance(v, dict):
            self.bad(where, "is not an object: %.60r" % (v,))
            return False
        for k in mandatory:
            if k not in v:
                self.bad(where, "lacks the mandatory member %r" % k)
        for k, x in v.items():
            if k not in members:
                self.bad(where, "has the unknown member %r" % k)
            elif members[k] is not None and not isinstance(x, KIND[members[k]]):
                self.bad("%s.%s" % (where, k), "is not of type %s: %.60r" % (members[k], x))
        return True

    def each(self, v, key):
        x = v.get(key, [])
        return x if isinstance(x, list) else []

    def entries(self, v, key):
        x = v.get(key, {})
        return x if isinstance(x, dict) else {}

    # ------------------------------------------------------------

    def schema(self, s, where):
        if not isinstance(s, dict):
            return self.bad(where, "schema is not an object: %.60r" % (s,))
        if "$ref" in s:
            r = s["$ref"]
            if set(s) != {"$ref"}:
                self.bad(where, "reference has other members: %s" % sorted(s))
            have = self.entries(self.entries(self.doc, "components"), "schemas")
            if not isinstance(r, str) or not r.startswith(PREFIX) or r[len(PREFIX):] not in have:
                self.bad(where, "reference %r does not resolve" % (r,))
            return
        self.obj(s, where, SCHEMA)
        t = s.get("type")
        if t is not None and t not in ("string", "number", "integer", "boolean", "array", "object"):
            self.bad(where, "unknown type %r" % (t,))
        if t == "array" and "items" not in s:
            self.bad(where, "array without items")
        if "items" in s:
            if t != "array":
                self.bad(where, "items, but no array")
            self.schema(s["items"], where + ".items")
        if ("properties" in s or "additionalProperties" in s or "required" in s) and t != "object":
            self.bad(where, "members of an object, but type %r" % (t,))
        if "enum" in s:
            if t == "string" and not all(isinstance(x, str) for x in s["enum"]):
                self.bad(where, "enum value of another type")
        for k, x in self.entries(s, "properties").items():
            self.schema(x, "%s.properties[%r]" % (where, k))
        ap = s.get("additionalProperties")
        if ap is not None and not isinstance(ap, bool):
            self.schema(ap, where + ".additionalProperties")
        req = self.each(s, "required")
        if "required" in s and not req:
            self.bad(where, "empty required")
        if not all(isinstance(x, str) for x in req) or len(set(req)) != len(req):
            self.bad(where, "required is not a list of distinct names: %r" % (req,))
        for k in ("oneOf", "allOf", "anyOf"):
            if k in s:
                for i, x in enumerate(self.each(s, k)):
                    self.schema(x, "%s.%s[%d]" % (where, k, i))

    def content(self, c, where):
        if not isinstance(c, dict):
            return self.bad(where, "content is not an object")
        for k, x in c.items():
            if not re.match(r"^[\w.+*-]+/[\w.+*-]+$", k):
                self.bad(where, "media type %r" % k)
            if self.obj(x, where + "." + k, {"schema": OBJ, "example": None, "examples": OBJ, "encoding": OBJ}) and "schema" in x:
                self.schema(x["schema"], "%s.%s.schema" % (where, k))

    def parameters(self, v, where):
        seen = set()
        for i, p in enumerate(self.each(v, "parameters")):
            w = "%s.parameters[%d]" % (where, i)
            if not self.obj(p, w, {"name": STR, "in": STR, "description": STR, "required": BOOL, "deprecated": BOOL, "schema": OBJ,
                                   "example": None, "allowEmptyValue": BOOL, "style": STR, "explode": BOOL}, ("name", "in", "schema")):
                continue
            if p.get("in") not in ("query", "header", "path", "cookie"):
                self.bad(w, "unknown location %r" % (p.get("in"),))
            k = (p.get("in"), p.get("name"))
            if k in seen:
                self.bad(w, "%r is declared twice" % (k,))
            seen.add(k)
            if p.get("in") == "path" and p.get("required") is not True:
                self.bad(w, "path parameter is not required")
            if "schema" in p:
                self.schema(p["schema"], w + ".schema")
        return seen

    def operation(self, op, where, templ, shared):
        if not self.obj(op, where, {"tags": LIST, "summary": STR, "description": STR, "operationId": STR, "deprecated": BOOL,
                                    "security": LIST, "requestBody": OBJ, "responses": OBJ, "parameters": LIST, "callbacks": OBJ,
                                    "servers": LIST}, ("responses",)):
            return
        for t in self.each(op, "tags"):
            if not isinstance(t, str):
                self.bad(where, "tag %r" % (t,))
        own = self.parameters(op, where)
        names = set(n for i, n in own | shared if i == "path")
        if names != templ:
            self.bad(where, "the template has the parameters %s, but declared are %s" % (sorted(templ), sorted(names)))
        b = op.get("requestBody")
        if b is not None and self.obj(b, where + ".requestBody", {"description": STR, "required": BOOL, "content": OBJ}, ("content",)):
            self.content(b.get("content"), where + ".requestBody.content")
        for code, r in self.entries(op, "responses").items():
            w = "%s.responses[%r]" % (where, code)
            if not re.match(r"^([1-5]\d\d|[1-5]XX|default)$", code):
                self.bad(w, "is not a status code")
            if self.obj(r, w, {"description": STR, "content": OBJ, "headers": OBJ, "links": OBJ}, ("description",)) and "content" in r:
                self.content(r["content"], w + ".content")
        for i, s in enumerate(self.each(op, "security")):
            if not isinstance(s, dict):
                self.bad(where, "security requirement is not an object")
                continue
            for n, roles in s.items():
                if not isinstance(roles, list) or not all(isinstance(x, str) for x in roles):
                    self.bad("%s.security[%d]" % (where, i), "roles of %r: %r" % (n, roles))
        for n, c in self.entries(op, "callbacks").items():
            if not NAME.match(n):
                self.bad(where, "callback name %r" % n)
            self.paths(c, "%s.callbacks[%r]" % (where, n))

    def paths(self, ps, where):
        if not isinstance(ps, dict):
            return self.bad(where, "is not an object")
        for p, item in ps.items():
            w = "%s[%r]" % (where, p)
            if not p.startswith("/"):
                self.bad(w, "does not begin with a slash")
            templ = re.findall(r"\{([^{}]*)\}", p)
            if len(set(templ)) != len(templ):
                self.bad(w, "repeats a template parameter")
            if re.sub(r"\{[^{}]*\}", "", p).count("{") or re.sub(r"\{[^{}]*\}", "", p).count("}"):
                self.bad(w, "is not a well formed template")
            m = {"summary": STR, "description": STR, "parameters": LIST, "servers": LIST}
            m.update({k: OBJ for k in METHODS})
            if not self.obj(item, w, m):
                continue
            shared = self.parameters(item, w)
            names = set(n for i, n in shared if i == "path")
            if not names <= set(templ):
                self.bad(w, "path parameters %s are not in the template" % sorted(names - set(templ)))
            for k in METHODS:
                if k in item:
                    self.operation(item[k], w + "." + k, set(templ), shared)

    def scheme(self, s, where):
        if not isinstance(s, dict):
            return self.bad(where, "is not an object")
        if s.get("type") == "http":
            self.obj(s, where, {"type": STR, "scheme": STR, "bearerFormat": STR, "description": STR}, ("scheme",))
            if s.get("scheme") not in ("basic", "bearer"):
                self.bad(where, "scheme %r" % (s.get("scheme"),))
            if s.get("scheme") != "bearer" and "bearerFormat" in s:
                self.bad(where, "bearer format of another scheme")
        elif s.get("type") == "apiKey":
            self.obj(s, where, {"type": STR, "in": STR, "name": STR, "description": STR}, ("in", "name"))
            if s.get("in") not in ("query", "header", "cookie"):
                self.bad(where, "location %r" % (s.get("in"),))
        else:
            self.bad(where, "kind %r" % (s.get("type"),))

    def document(self):
        d = self.doc
        if not self.obj(d, "$", {"openapi": STR, "info": OBJ, "tags": LIST, "servers": LIST, "paths": OBJ, "components": OBJ,
                                 "security": LIST}, ("openapi", "info", "paths")):
            return
        if not re.match(r"^3\.0\.\d+$", d.get("openapi", "")):
            self.bad("$.openapi", "is %r" % d.get("openapi"))
        self.obj(d.get("info", {}), "$.info", {"title": STR, "version": STR, "description": STR}, ("title", "version"))
        seen = set()
        for i, t in enumerate(self.each(d, "tags")):
            if self.obj(t, "$.tags[%d]" % i, {"name": STR, "description": STR}, ("name",)):
                if t.get("name") in seen:
                    self.bad("$.tags[%d]" % i, "repeats the name %r" % t.get("name"))
                seen.add(t.get("name"))
        for i, s in enumerate(self.each(d, "servers")):
            self.obj(s, "$.servers[%d]" % i, {"url": STR, "description": STR}, ("url",))
        c = d.get("components", {})
        if self.obj(c, "$.components", {"schemas": OBJ, "securitySchemes": OBJ}):
            for k in ("schemas", "securitySchemes"):
                for n, x in self.entries(c, k).items():
                    w = "$.components.%s[%r]" % (k, n)
                    if not NAME.match(n):
                        self.bad(w, "is not a legal component name")
                    (self.schema if k == "schemas" else self.scheme)(x, w)
        self.paths(d.get("paths", {}), "$.paths")


def problems(doc):
    v = V(doc)
    v.document()

    def nulls(x, where):
        if x is None:
            v.bad(where, "is null")
        elif isinstance(x, dict):
            for k, y in x.items():
                nulls(y, "%s.%s" % (where, k))
        elif isinstance(x, list):
            for i, y in enumerate(x):
                nulls(y, "%s[%d]" % (where, i))
    nulls(doc, "$")
    return v.out
