"""Strict validation of JSON values against published schemas, and walking of schemas."""
import re

PREFIX = "#/components/schemas/"
RANGES = {"int8": (-2**7, 2**7 - 1), "uint8": (0, 2**8 - 1), "int16": (-2**15, 2**15 - 1), "uint16": (0, 2**16 - 1),
          "int32": (-2**31, 2**31 - 1), "uint32": (0, 2**32 - 1), "int64": (-2**63, 2**63 - 1), "uint64": (0, 2**64 - 1)}
UUID = re.compile(r"^[0-9a-f]{8}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{12}$")


def validate(s, v, comps, path="$"):
    """None if the value is accepted, else the reason"""
    if "$ref" in s:
        r = s["$ref"]
        if not r.startswith(PREFIX) or r[len(PREFIX):] not in comps:
            return "%s: unresolved reference %s" % (path, r)
        return validate(comps[r[len(PREFIX):]], v, comps, path)
    if "oneOf" in s:
        why = []
        for i, a in enumerate(s["oneOf"]):
            e = validate(a, v, comps, "%s|%d" % (path, i))
            if e is None:
                return None
            why.append(e)
        return "%s: no alternative accepts the value (%s)" % (path, "; ".join(why)[:400])
    if "type" not in s:
        return None if not s else "%s: schema %r has no type" % (path, s)
    t = s["type"]
    if v is None:
        return None if s.get("nullable") is True else "%s: null is not allowed" % path
    if t == "string":
        if not isinstance(v, str):
            return "%s: %r is not a string" % (path, v)
        if "enum" in s and v not in s["enum"]:
            return "%s: %r is not one of %r" % (path, v, s["enum"])
        f = s.get("format")
        if f == "char" and len(v) != 1:
            return "%s: %r is not one character" % (path, v)
        if f == "uuid" and not UUID.match(v):
            return "%s: %r is not an uuid" % (path, v)
        if f == "null":
            return "%s: only null is allowed" % path
        return None
    if t == "integer":
        if isinstance(v, bool) or not isinstance(v, int):
            return "%s: %r is not an integer" % (path, v)
        r = RANGES.get(s.get("format"))
        if r and not r[0] <= v <= r[1]:
            return "%s: %r is out of range of %s" % (path, v, s["format"])
        return None
    if t == "number":
        if isinstance(v, bool) or not isinstance(v, (int, float)):
            return "%s: %r is not a number" % (path, v)
        if s.get("format") == "float" and abs(v) > 3.4028236e38:
            return "%s: %r is out of range of float" % (path, v)
        return None
    if t == "boolean":
        return None if isinstance(v, bool) else "%s: %r is not a boolean" % (path, v)
    if t == "array":
        if not isinstance(v, list):
            return "%s: not an array: %.80r" % (path, v)
        if "items" not in s:
            return "%s: array schema without items" % path
        for i, x in enumerate(v):
            e = validate(s["items"], x, comps, "%s[%d]" % (path, i))
            if e:
                return e
        return None
    if t == "object":
        if not isinstance(v, dict):
            return "%s: not an object: %.80r" % (path, v)
        props = s.get("properties", {})
        for r in s.get("required", []):
            if r not in v:
                return "%s: required property %r is missing" % (path, r)
        for k, x in v.items():
            if k in props:
                e = validate(props[k], x, comps, path + "." + k)
            elif "additionalProperties" in s:
                a = s["additionalProperties"]
                e = validate(a, x, comps, path + ".+" + k) if isinstance(a, dict) else (None if a else "no")
            else:
                e = "%s: undeclared property %r" % (path, k)
            if e:
                return e
        return None
    return "%s: unknown type %r" % (path, t)


def deref(s, comps):
    n = 0
    while "$ref" in s and n < 50:
        s = comps.get(s["$ref"][len(PREFIX):], {})
        n += 1
    return s


def diff(a, b, path="$", ignore=()):
    """first difference of two JSON values"""
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b), key=str):
            if k in ignore:
                continue
            if k not in a:
                return "%s.%s: only in the second: %.120r" % (path, k, b[k])
            if k not in b:
                return "%s.%s: only in the first: %.120r" % (path, k, a[k])
            d = diff(a[k], b[k], path + "." + str(k), ignore)
            if d:
                return d
        return None
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return "%s: %d items against %d" % (path, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, "%s[%d]" % (path, i), ignore)
            if d:
                return d
        return None
    if a != b or type(a) is not type(b):
        return "%s: %.120r against %.120r" % (path, a, b)
    return None
