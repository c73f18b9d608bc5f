"""Checks over the public document model: C11 - C15, executed by the interpreter."""
from . import schema as S
from .core import Case, Family, related, rnd_text, run_interp

TYPED = ["string", "integer", "number", "boolean", "array", "object"]
NAMES = ["A", "B", "C", "Foo", "foo", "Имя", "a b", "", "x.y", "D1", "x/y", "x~1y", "a%20b"]
SECS = ["basic", "key", "oauth", "ключ", "Basic", "KEY", "", "basi", "key "]
PROPS = ["id", "name", "type", "$ref", "oneOf", "", "required", "properties", "поле", "a", "b", "c", "d"]


def opt_text(src, p=35):
    return rnd_text(src) if src.prob(p) else None


FORMATS = ["double", "float", "int32", "int64", "uint8", "uint32", "uint64", "uuid", "date-time", "ipv4", "email", "char", "byte", ""]


class MGen:
    def __init__(self, src, names=NAMES, link_p=25, at=None, dups=False):
        self.src = src
        self.dups = dups            # may list a required property twice
        self.names = names
        self.link_p = link_p
        self.links = []
        self.at = at

    def ref(self, depth):
        src = self.src
        r = src.draw(100)
        if r >= 100 - self.link_p and self.names:
            n = src.pick(self.names)
            self.links.append(n)
            return {"link": n}
        if r >= 100 - self.link_p - 4:
            return {"any": True}
        if self.at is not None and src.prob(40):
            return {"at": self.at()}
        return {"model": self.model(depth)}

    def model(self, depth, kind=None):
        src = self.src
        if kind is None:
            ks = [(8, "string"), (5, "integer"), (3, "number"), (3, "boolean")]
            if depth > 0:
                ks += [(6, "object"), (5, "array"), (4, "oneOf"), (2, "allOf"), (2, "anyOf")]
            kind = src.weighted(ks)
        m = {"k": kind, "desc": opt_text(src)}
        if kind in ("oneOf", "allOf", "anyOf"):
            n = src.draw(4) if src.prob(93) else src.draw(25)
            m["alts"] = [self.ref(depth - 1 if n < 8 else min(depth - 1, 1)) for _ in range(n)]
            return m
        m["nullable"] = src.prob(25)
        if kind == "string":
            m["enum"] = [rnd_text(src) for _ in range(src.size(3, 30))] if src.prob(25) else None
        if kind in ("string", "integer", "number"):
            m["format"] = src.pick(FORMATS) if src.prob(20) else opt_text(src)
            m["example"] = opt_text(src)
        if kind == "array":
            m["items"] = self.ref(depth - 1)
        if kind == "object":
            m.update(self.object(depth))
        return m

    def wide(self, k):
        """an object with many properties called like no other"""
        src = self.src
        n = 5 + src.draw(70)
        names = ["w%d_%02d" % (k, i) for i in range(n)]
        return {"props": [[x, self.ref(0)] for x in names], "add": None, "req": [x for x in names if src.prob(70)]}

    def object(self, depth, n=None):
        src = self.src
        n = src.size(3, 12 if src.prob(70) else 40) if n is None else n
        if n > 12:
            depth = min(depth, 2)
        props = {}
        for _ in range(n):
            k = src.pick(PROPS) if src.prob(75) else rnd_text(src) if src.prob(50) else related(src, src.pick(PROPS))
            if k not in props:
                props[k] = self.ref(depth - 1)
        keys = list(props)
        req = [k for k in keys if src.prob(50)]
        if src.prob(10):
            k = src.pick(PROPS)
            if k not in req:
                req.append(k)           # required, but not described
        if len(req) > 1 and src.prob(30):
            req = src.shuffle(req)
        if self.dups and req and src.prob(12):
            req.insert(src.draw(len(req) + 1), src.pick(req))
        return {"props": sorted(([k, v] for k, v in props.items()), key=lambda p: p[0].encode()),
                "add": self.ref(depth - 1) if src.prob(25) else None, "req": req}


def links_of_ref(r, out):
    if "link" in r:
        out.append(r["link"])
    elif "model" in r:
        links_of(r["model"], out)
    return out


def links_of(m, out):
    for r in m.get("alts", []):
        links_of_ref(r, out)
    if m["k"] == "array":
        links_of_ref(m["items"], out)
    if m["k"] == "object":
        for _, r in m["props"]:
            links_of_ref(r, out)
        if m["add"]:
            links_of_ref(m["add"], out)
    return out


def size(m):
    n = 1
    for r in m.get("alts", []) + [x for _, x in m.get("props", [])] + [m[k] for k in ("items", "add") if m.get(k)]:
        if "model" in r:
            n += size(r["model"])
    return n


def crashed(o):
    return None if o.kind == "ok" else ["%s: %s" % (o.kind, o.detail)]


# ---------------------------------------------------------------- C11

def gen_c11(src):
    n = src.size(4, 10) + 1
    pool = src.shuffle(NAMES)[:max(1, n)]
    if src.prob(8):
        pool = src.shuffle(pool + ["Item%d" % i for i in range(src.draw(90))])
    extra = src.shuffle([x for x in NAMES if x not in pool])
    if src.prob(50):
        # almost the name of a component
        near = related(src, src.pick(pool))
        if near not in pool:
            extra.insert(0, near)
    mode = src.weighted([(4, "one"), (3, "none"), (2, "many")])
    g = MGen(src, pool + (extra[:2] if mode == "many" else []), link_p=src.pick([30, 12, 50]))
    comps = [[k, g.model(src.pick([3, 2, 4, 1]) if len(pool) < 12 else 2)] for k in pool]
    if src.prob(10):
        # one very deep description
        k = src.draw(len(comps))
        for _ in range(src.int(4, 20)):
            m = comps[k][1]
            comps[k][1] = src.pick([
                lambda: {"k": "array", "desc": None, "nullable": False, "items": {"model": m}},
                lambda: {"k": src.pick(["oneOf", "allOf", "anyOf"]), "desc": None, "alts": [{"model": m}]},
                lambda: {"k": "object", "desc": None, "nullable": False, "props": [["a", {"model": m}]], "add": None, "req": []},
                lambda: {"k": "object", "desc": None, "nullable": False, "props": [], "add": {"model": m}, "req": []}])()
    if mode == "one" and extra:
        # exactly one dangling link, at a random place
        places = []

        def walk(m):
            for holder, key in ([(m["alts"], i) for i in range(len(m.get("alts", [])))]
                                + [(m, k) for k in ("items", "add") if m.get(k)] + [(p, 1) for p in m.get("props", [])]):
                places.append((holder, key))
                if "model" in holder[key]:
                    walk(holder[key]["model"])
        for _, m in comps:
            walk(m)
        if places:
            h, k = src.pick(places)
            h[k] = {"link": extra[0]}
    req = {"op": "verify", "schemas": comps}
    have = set(pool)
    refs = set(x for _, m in comps for x in links_of(m, []))
    labels = ["dangling" if refs - have else "closed"]
    return Case(req, req, labels, bool(refs), {"have": have, "refs": refs})


def judge_c11(c, o):
    b = crashed(o)
    if b:
        return b
    r = o.json("r")
    missing = c.data["refs"] - c.data["have"]
    out = []
    if not r["same"]:
        out.append("verification changed the components")
    if r["err"] is None and missing:
        out.append("verification succeeds, although %r is referenced and absent" % sorted(missing))
    if r["err"] is not None and r["err"] not in missing:
        out.append("verification reports %r, but the dangling references are %r" % (r["err"], sorted(missing)))
    return out


# ---------------------------------------------------------------- C13

def gen_c13(src):
    g = MGen(src)
    depth = src.pick([2, 1, 3])
    obj = src.prob(88)
    start = g.model(depth, "object" if obj else src.pick(["string", "array", "oneOf", "boolean", "allOf", "integer"]))
    steps = []
    for _ in range(src.size(4, 10) + 1):
        k = src.weighted([(5, "try"), (4, "add"), (4, "merge")]) if obj else "try"
        if k == "add":
            steps.append(["add", src.pick(PROPS) if src.prob(70) else related(src, src.pick(PROPS)) if src.prob(50) else rnd_text(src), g.ref(depth - 1), src.prob(50)])
        elif k == "merge":
            steps.append(["merge", g.wide(len(steps)) if src.prob(4) else g.object(depth, src.draw(4))])
        elif src.prob(3):
            steps.append(["try", dict(g.model(0, "object"), **g.wide(len(steps)))])
        else:
            m = g.model(depth, src.weighted([(8, "object"), (1, "string"), (1, "oneOf"), (1, "array"), (1, "allOf"), (1, "anyOf")]))
            steps.append(["try", m])
    req = {"op": "merge", "model": start, "steps": steps}
    return Case(req, req, [s[0] for s in steps], len(steps) > 1)


def judge_c13(c, o):
    b = crashed(o)
    if b:
        return b
    out = []
    got = o.json("steps")
    prev = got[0]["s"]
    for s, g in zip(c.request["steps"], got[1:]):
        cur = g["s"]
        pp, cp = dict(map(tuple2, prev.get("props", []))), dict(map(tuple2, cur.get("props", [])))
        if s[0] == "add":
            new, req, bad = {s[1]: s[2]}, [s[1]] if s[3] else [], False
        elif s[0] == "merge":
            new, req, bad = dict(map(tuple2, s[1]["props"])), s[1]["req"], False
        else:
            bad = prev["k"] != "object" or s[1]["k"] != "object"
            new, req = ({}, []) if bad else (dict(map(tuple2, s[1]["props"])), s[1]["req"])
        conflict = bad or bool(set(new) & set(pp))
        what = "%s onto %s" % (s[0], sorted(pp))
        if g["ok"] == conflict:
            out.append("%s with %s: %s" % (what, sorted(new), "accepted" if g["ok"] else "rejected"))
        for k, v in pp.items():
            if cp.get(k) != v:
                out.append("%s: existing property %r changed" % (what, k))
        allowed = set(pp) | set(new)
        for k, v in cp.items():
            if k not in allowed or (k not in pp and v != strip(new[k])):
                out.append("%s: property %r is not the given one" % (what, k))
        if not conflict and g["ok"]:
            if set(cp) != allowed:
                out.append("%s: properties are %s, expected %s" % (what, sorted(cp), sorted(allowed)))
            twice = set(prev["req"]) & set(req)         # listed on both sides without being described
            if sorted(k for k in cur["req"] if k not in twice) != sorted(k for k in prev["req"] + req if k not in twice) \
                    or twice - set(cur["req"]):
                out.append("%s: required is %s, expected %s" % (what, cur["req"], sorted(prev["req"] + req)))
        if not g["ok"]:
            gained = list(cur.get("req", []))
            for k in prev.get("req", []):
                if k in gained:
                    gained.remove(k)
                else:
                    out.append("%s: required name %r got lost on a conflict" % (what, k))
            if gained:
                out.append("%s: required gained %r on a conflict" % (what, gained))
            for k in ("k", "nullable", "desc", "add", "alts", "items", "enum", "format", "example"):
                if prev.get(k) != cur.get(k):
                    out.append("%s: %s changed on a conflict" % (what, k))
        else:
            for k in ("k", "nullable", "desc", "add"):
                if prev.get(k) != cur.get(k):
                    out.append("%s: %s changed" % (what, k))
        prev = cur
    return out


def tuple2(p):
    return p[0], p[1]


def strip(r):
    """as dumped: every attribute is present"""
    if "model" in r:
        return {"model": full(r["model"])}
    return r


def full(m):
    o = {"k": m["k"], "desc": m.get("desc")}
    k = m["k"]
    if k in ("oneOf", "allOf", "anyOf"):
        o["alts"] = [strip(x) for x in m["alts"]]
        return o
    o["nullable"] = bool(m.get("nullable"))
    if k == "string":
        o["enum"] = m.get("enum")
    if k in ("string", "integer", "number"):
        o["format"], o["example"] = m.get("format"), m.get("example")
    if k == "array":
        o["items"] = strip(m["items"])
    if k == "object":
        o["props"] = [[a, strip(x)] for a, x in m["props"]]
        o["add"] = strip(m["add"]) if m.get("add") else None
        o["req"] = list(m["req"])
    return o


# ---------------------------------------------------------------- C14

def gen_params(src, p=45):
    q = {}
    if src.prob(p):
        q["description"] = rnd_text(src)
    if src.prob(p):
        q["nullable"] = src.prob(60)
    if src.prob(p):
        q["variants"] = [rnd_text(src) for _ in range(src.size(2, 9))]
    if src.prob(p):
        q["format"] = src.pick(FORMATS) if src.prob(35) else rnd_text(src)
    if src.prob(p):
        q["example"] = rnd_text(src)
    return q


def apply(m, p):
    m = dict(m)
    if p.get("description") is not None:
        m["desc"] = p["description"]
    if m["k"] in TYPED:
        if p.get("nullable") is not None:
            m["nullable"] = p["nullable"]
        if m["k"] == "string" and p.get("variants") is not None:
            m["enum"] = p["variants"]
        if m["k"] in ("string", "integer", "number"):
            if p.get("format") is not None:
                m["format"] = p["format"]
            if p.get("example") is not None:
                m["example"] = p["example"]
    return m


def gen_c14(src):
    g = MGen(src)
    m = g.model(src.pick([2, 1, 3]))
    ps = []
    for _ in range(src.draw(3) + 1):
        p = gen_params(src, src.pick([45, 100, 15]))
        ps.append(p)
        if src.prob(30):
            ps.append(dict(p))      # twice
        if src.prob(20):
            ps.append({})           # empty
        if src.prob(12):
            ps.append(dict(gen_params(src), how=src.pick(["data", "type"])))
    req = {"op": "apply", "model": m, "params": ps}
    return Case(req, req, [m["k"]], any(ps))


def judge_c14(c, o):
    b = crashed(o)
    if b:
        return b
    out = []
    steps = o.json("steps")
    cur = full(c.request["model"])
    for i, (p, got) in enumerate(zip(c.request["params"], steps[1:])):
        q = dict(p)
        if q.pop("how", None):
            q.pop("description", None)      # those nodes carry no description
        want = apply(cur, q)
        d = S.diff(want, got)
        if d:
            out.append("applying %r (step %d) to %r: expected against observed: %s" % (p, i, cur["k"], d))
            break
        cur = want
    return out


# ---------------------------------------------------------------- C15

METHODS = ["get", "put", "post", "delete", "options", "head", "patch", "trace"]


def gen_doc(src):
    names = list(NAMES)
    for _ in range(src.draw(4)):
        names.append(related(src, src.pick(names)) if src.prob(60) else rnd_text(src))
    g = MGen(src, names, link_p=20, dups=True)

    def ref():
        return g.ref(src.pick([1, 2, 0]))

    def some(k):
        return list(range(src.size(k, 2 * k)))

    def uniq(xs):
        out = []
        for x in xs:
            if x not in out:
                out.append(x)
        return out

    def bkeys(names):
        return sorted(uniq(names), key=lambda s: s.encode())

    def params():
        out = []
        for n in bkeys([src.pick(["id", "limit", "X-Header"]) if src.prob(60) else rnd_text(src) for _ in some(2)]):
            out.append([n, {"desc": opt_text(src), "in": src.pick(["query", "header", "path", "cookie"]), "required": src.prob(50),
                            "deprecated": src.prob(25), "schema": ref() if src.prob(85) else None}])
        return out

    def op(depth):
        o = {"fluent": src.prob(30), "tags": [rnd_text(src) for _ in some(2)], "summary": opt_text(src), "id": opt_text(src),
             "desc": opt_text(src), "deprecated": src.prob(20),
             "security": [[[n, [rnd_text(src) for _ in some(1)]] for n in bkeys([src.pick(SECS) for _ in some(2)])]
                          for _ in some(1)],
             "body": {"desc": opt_text(src), "required": src.prob(60), "schema": ref()} if src.prob(40) else None,
             "responses": [[code, {"desc": rnd_text(src), "schema": ref() if src.prob(60) else None}]
                           for code in sorted(set(src.pick([200, 404, 500, 201, 302, 100, 599, 418, 204, 0, 7, 99, 1000, 65535]) for _ in some(2)))],
             "params": params(), "callbacks": []}
        if depth > 0:
            o["callbacks"] = [[n, paths(depth - 1, 2)] for n in
                              bkeys([src.pick(["onEvent", "cb", "{$request.query.url}"]) for _ in some(1)])]
        return o

    def paths(depth, k):
        out, seen = [], set()
        wide = 40 + src.draw(80) if k == 3 and src.prob(2) else 0
        for i in range(wide) or some(k):
            p = [[src.pick(["lit", "par"]), src.pick(["users", "pets", "id", "userId", "v1", "a b", ""]) if src.prob(75) else rnd_text(src)]
                 for _ in range(src.draw(4) + (0 if src.prob(5) else 1))]
            if wide and src.prob(90):
                p.append(["lit", "w%d" % i])
            t = path_text(p)
            if t in seen:
                continue
            seen.add(t)
            ops = [[m, op(0 if wide else depth)] for m in METHODS if src.prob(4 if wide else 18)]
            out.append([p, {"summary": opt_text(src), "desc": opt_text(src), "ops": ops, "params": params()}])
        return out

    doc = {"info": {"title": rnd_text(src), "desc": opt_text(src), "version": rnd_text(src)},
           "tags": [[n, opt_text(src)] for n in bkeys([rnd_text(src) for _ in range(src.size(2, 24))])],
           "servers": [[rnd_text(src), opt_text(src)] for _ in range(src.size(2, 20))],
           "paths": paths(src.pick([0, 1, 2]), 3),
           "schemas": [[n, g.model(src.pick([2, 1, 3]))] for n in bkeys([src.pick(NAMES) if src.prob(80) else rnd_text(src) for _ in range(src.size(2, 24))])],
           "sec": [[n, gen_sec(src)] for n in bkeys([src.pick(SECS) if src.prob(80) else rnd_text(src) for _ in range(src.size(2, 16))])]}
    return doc


def gen_sec(src):
    k = src.pick(["basic", "bearer", "apiKey"])
    s = {"k": k, "desc": opt_text(src)}
    if k == "bearer":
        s["format"] = opt_text(src)
    if k == "apiKey":
        s["in"] = src.pick(["header", "query", "cookie"])
        s["name"] = rnd_text(src)
    return s


def path_text(p):
    return "".join("/" + (x if k == "lit" else "{%s}" % x) for k, x in p)


# expected serialized form, written from the OpenAPI keys

def j_ref(r):
    if "link" in r:
        return {"$ref": S.PREFIX + r["link"]}
    if "model" in r:
        return j_model(r["model"])
    if "raw" in r:
        return r["raw"]
    return {}


def put(o, k, v):
    if v is not None:
        o[k] = v


def j_model(m):
    o = {}
    put(o, "description", m.get("desc"))
    k = m["k"]
    if k in ("oneOf", "allOf", "anyOf"):
        o[k] = [j_ref(r) for r in m["alts"]]
        return o
    o["type"] = k
    if m.get("nullable"):
        o["nullable"] = True
    if k == "string":
        put(o, "enum", m.get("enum"))
    if k in ("string", "integer", "number"):
        put(o, "format", m.get("format"))
        put(o, "example", m.get("example"))
    if k == "array":
        o["items"] = j_ref(m["items"])
    if k == "object":
        if m["props"]:
            o["properties"] = {a: j_ref(r) for a, r in m["props"]}
        if m.get("add"):
            o["additionalProperties"] = j_ref(m["add"])
        if m["req"]:
            o["required"] = list(m["req"])
    return o


def j_content(r):
    return {"application/json": {"schema": j_ref(r)}}


def j_params(ps):
    out = []
    for n, q in ps:
        o = {"name": n, "in": q["in"]}
        put(o, "description", q["desc"])
        if q["required"]:
            o["required"] = True
        if q["deprecated"]:
            o["deprecated"] = True
        if q["schema"] is not None:
            o["schema"] = j_ref(q["schema"])
        out.append(o)
    return out


def j_op(v):
    o = {}
    if v["tags"]:
        o["tags"] = v["tags"]
    put(o, "summary", v["summary"])
    put(o, "operationId", v["id"])
    put(o, "description", v["desc"])
    if v["deprecated"]:
        o["deprecated"] = True
    if v["security"]:
        o["security"] = [{n: roles for n, roles in s} for s in v["security"]]
    if v["body"]:
        o["requestBody"] = {"content": j_content(v["body"]["schema"])}
        put(o["requestBody"], "description", v["body"]["desc"])
        if v["body"]["required"]:
            o["requestBody"]["required"] = True
    o["responses"] = {}
    for code, r in v["responses"]:
        x = {"description": r["desc"]}
        if r["schema"] is not None:
            x["content"] = j_content(r["schema"])
        o["responses"][str(code)] = x
    if v["params"]:
        o["parameters"] = j_params(v["params"])
    if v["callbacks"]:
        o["callbacks"] = {n: j_paths(ps) for n, ps in v["callbacks"]}
    return o


def j_paths(ps):
    out = {}
    for p, v in ps:
        o = {}
        put(o, "summary", v["summary"])
        put(o, "description", v["desc"])
        for m, x in v["ops"]:
            o[m] = j_op(x)
        if v["params"]:
            o["parameters"] = j_params(v["params"])
        out[path_text(p)] = o
    return out


def j_sec(s):
    if s["k"] == "apiKey":
        o = {"type": "apiKey", "in": s["in"], "name": s["name"]}
    else:
        o = {"type": "http", "scheme": s["k"]}
        if s["k"] == "bearer":
            put(o, "bearerFormat", s["format"])
    put(o, "description", s["desc"])
    return o


def j_doc(d):
    o = {"openapi": "3.0.3", "info": {"title": d["info"]["title"], "version": d["info"]["version"]}, "components": {}}
    put(o["info"], "description", d["info"]["desc"])
    if d["tags"]:
        o["tags"] = []
        for n, t in d["tags"]:
            x = {"name": n}
            put(x, "description", t)
            o["tags"].append(x)
    if d["servers"]:
        o["servers"] = []
        for n, t in d["servers"]:
            x = {"url": n}
            put(x, "description", t)
            o["servers"].append(x)
    o["paths"] = j_paths(d["paths"])
    if d["schemas"]:
        o["components"]["schemas"] = {n: j_model(m) for n, m in d["schemas"]}
    if d["sec"]:
        o["components"]["securitySchemes"] = {n: j_sec(s) for n, s in d["sec"]}
    return o


def dups(v, path="$"):
    if isinstance(v, dict):
        if getattr(v, "dup", None) is not None:
            return "%s: key %r occurs twice" % (path, v.dup)
        for k, x in v.items():
            d = dups(x, path + "." + k)
            if d:
                return d
    if isinstance(v, list):
        for i, x in enumerate(v):
            d = dups(x, "%s[%d]" % (path, i))
            if d:
                return d
    return None


def path_orders(want, got, where="$"):
    """declaration order of every paths object, callbacks included"""
    if isinstance(want, dict) and isinstance(got, dict):
        for k in want:
            if k in got:
                if k == "paths" and where == "$" and list(want[k]) != list(got[k]):
                    return "%s.%s: order is %s, declared %s" % (where, k, list(got[k]), list(want[k]))
                if where.endswith(".callbacks") and isinstance(want[k], dict) and list(want[k]) != list(got[k]):
                    return "%s.%s: order is %s, declared %s" % (where, k, list(got[k]), list(want[k]))
                d = path_orders(want[k], got[k], where + "." + str(k))
                if d:
                    return d
    return None


def gen_c15(src):
    if src.prob(25):
        m = MGen(src, dups=True).model(src.pick([2, 3, 4]))
        req = {"op": "model", "model": m}
        return Case(req, req, ["schema", m["k"]], size(m) > 1)
    d = gen_doc(src)
    req = {"op": "doc", "doc": d}
    n_ops = sum(len(v["ops"]) for _, v in d["paths"])
    return Case(req, req, ["document"], n_ops > 0)


def judge_c15(c, o):
    b = crashed(o)
    if b:
        return b
    out = []
    got = o.json("json")
    d = dups(got)
    if d:
        out.append(d)
    if c.request["op"] == "model":
        d = S.diff(j_model(c.request["model"]), got)
        if d:
            out.append("schema, expected against observed: " + d)
        return out
    want = j_doc(c.request["doc"])
    d = S.diff(want, got)
    if d:
        out.append("document, expected against observed: " + d)
    d = path_orders(want, got)
    if d:
        out.append(d)
    y = o.json("yaml")
    if y["want_err"] is None and not y["same"]:
        out.append("the YAML form does not describe the same document: %s" % (y["err"] or S.diff(got, y["got"])))
    elif y["want_err"] is None:
        d = path_orders(want, y["got"]) if isinstance(y["got"], dict) else "no mapping"
        if d:
            out.append("YAML: " + d)
    return out


def fam(name, gen, judge, quick, thorough, rule, batch=4000):
    return Family(name, gen, judge, lambda reqs: run_interp(reqs, name), quick, thorough, rule, batch, True)
