"""Checks over families of types and histories of mentions: C08, C09, C10, C12, C21."""
from . import schema as S
from .core import Case, Family, related, rnd_text, run_interp
from .derive import Prog, base
from .lang import Gen, refs, rs_ty, unraw
from .types import rnd_context
from .model import MGen, NAMES, SECS, apply, crashed, full, gen_params, gen_sec, links_of, links_of_ref, opt_text

TRANSPARENT = ["self", "box", "ref", "rc", "arc", "cell"]
OPTIONAL = ["opt", "optbox", "boxopt", "optopt"]
CONTAINERS = ["vec", "map", "tup", "slice", "deque", "list", "arr", "vecopt", "optvec", "bmap", "mapvec", "tup1", "tup3"]
VIAS = TRANSPARENT + OPTIONAL + CONTAINERS
NODE_NAMES = ["N0", "N1", "N2", "Node", "Имя", "a.b", "Tree", "Leaf", "X", "Y", "Zed", "Model",
              "Response", "ResponseBody", "ResponseBodyItem", "response", "Response_", "RESPONSE", "_Response", "Responses", "Response2"] + ["Type%d" % i for i in range(60)]


def count(src):
    """number of types: mostly few, sometimes as many as there are"""
    if src.prob(2):
        return 40 + src.draw(40)
    return 17 + src.draw(16) if src.prob(7) else src.size(5, 31) + 1


class Nodes:
    """types given as data, with the reference semantics of mentioning"""

    def __init__(self, src, n, unnamed=15, inline=20, dup=0, links=False):
        self.src = src
        names = src.shuffle(NODE_NAMES)
        self.names = []
        for i in range(n):
            if src.prob(unnamed):
                self.names.append(None)
            elif dup and i and src.prob(dup):
                self.names.append(self.names[src.draw(i)])
            else:
                self.names.append(names[i])
        self.n = n
        self.inline = inline
        self.topo = src.weighted([(6, "any"), (2, "chain"), (2, "tree"), (2, "islands")])
        self.edges = 0
        self.schemas = []
        for i in range(n):
            g = MGen(src, [], 0, at=lambda i=i: self.at(i))
            m = g.model(src.pick([2, 1, 3]), src.weighted([(6, "object"), (2, "oneOf"), (2, "array"), (1, "string"), (1, "allOf")]))
            if src.prob(25):
                m["nullable"] = False
            self.schemas.append(m)
        self.memo = {}

    def at(self, i):
        src = self.src
        self.edges += 1
        inline = src.prob(self.inline)
        j = self.target(i)
        if (inline or self.names[j] is None) and j <= i:
            later = [k for k in range(i + 1, self.n)]
            if later and src.prob(60):
                j = src.pick(later)
            else:
                inline = False
                named = [k for k in range(self.n) if self.names[k] is not None]
                if not named:
                    return None
                j = src.pick(named)
        via = self.via()
        return [j, via, inline, gen_params(src, 12)]

    def target(self, i):
        """most types are reached from everywhere, or from one place only"""
        src = self.src
        if self.topo == "chain" and src.prob(95):
            return min(i + 1, self.n - 1)
        if self.topo == "tree" and src.prob(95):
            k = 2 * i + 1 + src.draw(2)
            return k if k < self.n else i
        if self.topo == "islands" and src.prob(95):
            return i
        return src.draw(self.n)

    def via(self):
        src = self.src
        return src.weighted([(8, "self"), (4, src.pick(TRANSPARENT)), (6, src.pick(OPTIONAL)), (8, src.pick(CONTAINERS))])

    def request(self):
        def fix(m):
            for r in m.get("alts", []) + [p[1] for p in m.get("props", [])] + [m[k] for k in ("items", "add") if m.get(k)]:
                if r.get("at", 0) is None:
                    r.pop("at")
                    r["any"] = True
                if "model" in r:
                    fix(r["model"])
        for m in self.schemas:
            fix(m)
        return [{"name": a, "schema": m} for a, m in zip(self.names, self.schemas)]

    # -- reference

    def ref(self, at):
        n, via, inline, p = at
        named = self.names[n] is not None

        def t(opt=False):
            if named:
                return {"link": self.names[n]}
            return {"model": self.opt(n, {}) if opt else self.schema(n)}

        def arr(items, nullable=False):
            return {"k": "array", "nullable": nullable, "desc": None, "items": items}

        def obj(add):
            return {"k": "object", "nullable": False, "desc": None, "props": [], "add": add, "req": []}

        if via in TRANSPARENT:
            if named and not inline:
                return {"link": self.names[n]}
            return {"model": apply(self.schema(n), p)}
        if via in OPTIONAL:
            if named and not inline:
                return {"link": self.names[n]}
            return {"model": self.opt(n, p)}
        boolean = {"model": {"k": "boolean", "nullable": False, "desc": None}}
        u8 = {"model": {"k": "integer", "nullable": False, "desc": None, "format": "uint8", "example": None}}

        def one(xs):
            return {"model": {"k": "oneOf", "desc": None, "alts": xs}}

        m = {"vec": lambda: arr(t()), "slice": lambda: arr(t()), "deque": lambda: arr(t()), "list": lambda: arr(t()),
             "arr": lambda: arr(t()), "tup1": lambda: arr(t()), "vecopt": lambda: arr(t(True)), "optvec": lambda: arr(t(), True),
             "map": lambda: obj(t()), "bmap": lambda: obj(t()), "mapvec": lambda: obj({"model": arr(t())}),
             "tup": lambda: arr(one([t(), boolean])), "tup3": lambda: arr(one([u8, t(True), {"model": arr(t())}]))}[via]()
        return {"model": apply(m, p)}

    def opt(self, n, p):
        return apply(apply(self.schema(n), {"nullable": True}), p)

    def schema(self, n):
        if n not in self.memo:
            self.memo[n] = self.expand(self.schemas[n])
        return self.memo[n]

    def expand(self, m):
        def r(x):
            if "at" in x:
                return self.ref(x["at"])
            if "model" in x:
                return {"model": self.expand(x["model"])}
            return x
        m = dict(m)
        if "alts" in m:
            m["alts"] = [r(x) for x in m["alts"]]
        if m["k"] == "array":
            m["items"] = r(m["items"])
        if m["k"] == "object":
            m["props"] = [[k, r(x)] for k, x in m["props"]]
            m["add"] = r(m["add"]) if m["add"] else None
        return full(m)

    def closure(self, roots):
        """components expected after the given references were returned"""
        by = {self.names[i]: i for i in range(self.n - 1, -1, -1) if self.names[i] is not None}
        out, todo = {}, []
        for x in roots:
            links_of_ref(x, todo)
        while todo:
            k = todo.pop()
            if k not in out:
                out[k] = self.schema(by[k])
                links_of(out[k], todo)
        return out


def comps(step):
    return {k: v for k, v in step["cx"]["schemas"]}


def prefill(src):
    """components that were registered by hand before, in number"""
    if not src.prob(12):
        return []
    g = MGen(src, [], 0)
    return [["add", "Before%d" % i, g.model(1), src.prob(50)] for i in range(src.draw(70) + 1)]


def others(step):
    """the components without those"""
    return {k: v for k, v in comps(step).items() if not k.startswith("Before")}


def ihist(name, gen, judge, quick, thorough, rule, batch=4000):
    return Family(name, gen, judge, lambda reqs: run_interp(reqs, name), quick, thorough, rule, batch, True)


# ---------------------------------------------------------------- C08

def gen_c08(src):
    n = count(src)
    nd = Nodes(src, n, unnamed=10, inline=0)
    root = [src.draw(n), nd.via(), False, {}]
    req = {"op": "history", "nodes": nd.request(), "steps": prefill(src) + [["mention", root]]}
    want = nd.closure([nd.ref(root)])
    cyc = any(k in reach(want, k) for k in want)
    return Case(req, req, ["cyclic" if cyc else "acyclic"], cyc, {"nd": nd, "root": root, "want": want})


def reach(comp, k):
    seen, todo = set(), links_of(comp[k], [])
    while todo:
        x = todo.pop()
        if x not in seen:
            seen.add(x)
            if x in comp:
                todo += links_of(comp[x], [])
    return seen


def judge_c08(c, o):
    b = crashed(o)
    if b:
        return b
    st = o.json("steps")[-1]
    out = []
    got = others(st)
    want = c.data["want"]
    if set(got) != set(want):
        out.append("described types are %s, reachable are %s" % (sorted(got), sorted(want)))
    for k in set(got) & set(want):
        d = S.diff(want[k], got[k])
        if d:
            out.append("description of %s, expected against observed: %s" % (k, d))
    d = S.diff(c.data["nd"].ref(c.data["root"]), st["r"])
    if d:
        out.append("returned reference, expected against observed: %s" % d)
    nd = c.data["nd"]
    bound = 8 + 8 * nd.edges
    if any(nd.names[i] is not None and x > bound for i, x in enumerate(st["calls"])):
        out.append("descriptions requested per type: %s, for %d uses" % (st["calls"], nd.edges))
    return out


def derive_rec(src, ann=10, max_defs=6, rec=14):
    g = Gen(src, ann=ann, max_defs=max_defs, rec=rec, scalars=["String", "i32", "bool"])
    g.universe()
    return g


def gen_c08d(src):
    g = derive_rec(src)
    p = Prog(g, derives=("Noop", "OpgModel"))
    for i, d in enumerate(g.defs):
        p.mention(i)
        p.schema(i)
    m = g.model
    cyc = any(unraw(d.name) in m.components([m.def_schema(d)]) for d in g.defs)
    return p.case(cyc)


def judge_c08d(c, o):
    b = base(o)
    if b:
        return b
    out = []
    m = c.data["model"]
    for i, d in enumerate(c.data["defs"]):
        r = o.json("m%d" % i)
        want = m.components([m.ref(("u", i))])
        got = r["c"].get("schemas", {})
        if set(got) != set(want):
            out.append("mention of %s describes %s, reachable are %s" % (d.name, sorted(got), sorted(want)))
        for n in set(got) & set(want):
            a, b = sorted(refs(want[n])), sorted(refs(got[n]))
            if a != b:
                out.append("component %s links to %s, expected %s" % (n, b, a))
            if not got[n] or (got[n].get("oneOf") == [] and want[n].get("oneOf") != []):
                out.append("component %s is not described: %r" % (n, got[n]))
        r = o.json("s%d" % i)
        want = m.components([m.def_schema(d)])
        if set(r["c"].get("schemas", {})) != set(want):
            out.append("describing %s registers %s, reachable are %s" % (d.name, sorted(r["c"].get("schemas", {})), sorted(want)))
    return out


# ---------------------------------------------------------------- C09

def gen_c09(src):
    n = count(src)
    nd = Nodes(src, n, dup=src.pick([0, 0, 20]))
    steps = prefill(src)
    for _ in range(src.size(4, 12) + 1 + (src.draw(2 * n) if n > 8 else 0)):
        at = [src.draw(n), nd.via(), src.prob(25), gen_params(src, 10)]
        steps.append(["mention", at])
        if src.prob(30):
            steps.append(["verify"])
    steps.append(["verify"])
    req = {"op": "history", "nodes": nd.request(), "steps": steps}
    return Case(req, req, ["steps:%d" % (len(steps) // 4 * 4)], nd.edges > 1 and any(nd.names))


def judge_c09(c, o):
    b = crashed(o)
    if b:
        return b
    out = []
    for s, st in zip(c.request["steps"], o.json("steps")):
        have = comps(st)
        used = set(x for m in have.values() for x in links_of(m, []))
        if s[0] == "mention":
            used |= set(links_of_ref(st["r"], []))
        elif st["r"] is not None:
            out.append("verification reports %r" % st["r"])
        miss = used - set(have)
        if miss:
            out.append("after %r: %s referenced, present are %s" % (s, sorted(miss), sorted(have)))
            break
    return out


ROUTES = ["%s", "Box<%s>", "Option<%s>", "Vec<%s>", "Option<Box<%s>>", "(%s, u8)", "std::collections::HashMap<String, %s>",
          "std::rc::Rc<%s>", "[%s; 2]", "&'static %s", "Vec<Option<%s>>", "(%s,)", "Option<Vec<%s>>", "[%s]",
          "std::collections::BTreeMap<u8, Vec<%s>>", "std::cell::RefCell<%s>", "std::sync::Arc<Option<%s>>",
          "std::collections::VecDeque<(u8, %s, Option<String>)>"]

def context(src):
    return "&Default::default()" if src.prob(40) else rnd_context(src)[1]


def walk_history(p, src, seq, tag):
    """seq: list of (type text, inline, params)"""
    p.stmts.append("let mut cx = Components::new();")
    for k, (t, inline, par) in enumerate(seq):
        p.stmts.append("let r = cx.mention_schema::<%s>(%s, %s);" % (t, str(inline).lower(), par))
        p.stmts.append('o.step("%s%d", &r, &cx);' % (tag, k))
    return len(seq)


def gen_c09d(src):
    g = Gen(src, ann=src.pick([15, 40]), max_defs=4, rec=src.pick([0, 8]), scalars=["String", "i32", "bool"])
    g.universe()
    p = Prog(g, derives=("Noop", "OpgModel"))
    seq = []
    for _ in range(src.size(4, 8) + 1):
        d = src.pick(g.defs)
        seq.append((src.pick(ROUTES) % d.name, src.prob(20), context(src)))
    n = walk_history(p, src, seq, "h")
    for i in range(len(g.defs)):
        p.schema(i)
    c = p.case(len(g.defs) > 1, {"n": n, "seq": seq})
    c.sample += "\n// mentioned: " + "; ".join("%s inline=%s" % (a, b) for a, b, _ in seq)
    return c


def judge_c09d(c, o):
    b = base(o)
    if b:
        return b
    out = []
    xs = [("h%d" % k, "r") for k in range(c.data["extra"]["n"])] + [("s%d" % i, "s") for i in range(len(c.data["defs"]))]
    for key, f in xs:
        st = o.json(key)
        have = st["c"].get("schemas", {})
        used = set(refs(st[f]))
        for m in have.values():
            used |= set(refs(m))
        miss = sorted(x for x in used if x[len(S.PREFIX):] not in have or not x.startswith(S.PREFIX))
        if miss:
            out.append("%s: %s do not resolve, present are %s" % (key, miss, sorted(have)))
            break
        if st["v"] is not None:
            out.append("%s: verification reports %r" % (key, st["v"]))
            break
    return out


# ---------------------------------------------------------------- C10

def gen_c10(src):
    n = count(src)
    nd = Nodes(src, n)
    roots = [i for i in range(n) if src.prob(50)] or [src.draw(n)]
    steps = []
    cuts = []
    for s in range(2):
        seq = src.shuffle(roots)
        seq += [src.pick(roots) for _ in range(src.draw(3))]
        if s:
            steps.append(["fresh"])
        steps += prefill(src)
        for i in seq:
            # a named type reaches the components by any route; an unnamed one is only walked
            steps.append(["mention", [i, nd.via(), False, gen_params(src, 10)]])
        cuts.append(len(steps))
    req = {"op": "history", "nodes": nd.request(), "steps": steps}
    want = nd.closure([nd.ref([i, "self", False, {}]) for i in roots])
    return Case(req, req, ["roots:%d" % len(roots)], len(roots) > 1 and len(want) > 1, {"nd": nd, "want": want, "cuts": cuts})


def judge_c10(c, o):
    b = crashed(o)
    if b:
        return b
    out = []
    st = o.json("steps")
    want = c.data["want"]
    prev = {}
    for k, (s, x) in enumerate(zip(c.request["steps"], st)):
        cur = others(x)
        if s[0] != "mention":
            prev = {}
            continue
        for name in prev:
            d = S.diff(prev[name], cur.get(name, {}))
            if d:
                out.append("component %s changed by %r: %s" % (name, s, d))
        exp = c.data["nd"].ref(s[1])
        if x["r"] != exp and ("link" in exp or "link" in x["r"]):
            out.append("%r returns %r, expected %r" % (s, x["r"], exp))
        prev = cur
        if k + 1 in c.data["cuts"]:
            if set(cur) != set(want):
                out.append("components are %s, expected %s" % (sorted(cur), sorted(want)))
            for name in set(cur) & set(want):
                d = S.diff(want[name], cur[name])
                if d:
                    out.append("component %s, schema of the type against observed: %s" % (name, d))
    return out


def gen_c10d(src):
    g = Gen(src, ann=src.pick([15, 40]), max_defs=4, rec=src.pick([0, 10]), scalars=["String", "i32", "bool"])
    g.universe()
    p = Prog(g, derives=("Noop", "OpgModel"))
    roots = [d for d in g.defs if src.prob(60)] or [src.pick(g.defs)]
    ns = []
    desc = []
    for s in range(2):
        seq = src.shuffle(roots) + [src.pick(roots) for _ in range(src.draw(3))]
        seq = [(src.pick(ROUTES) % d.name, False, context(src)) for d in seq]
        p.stmts.append("{")
        ns.append(walk_history(p, src, seq, "ab"[s]))
        p.stmts.append("}")
        desc.append(" ".join(t for t, _, _ in seq))
    for i in range(len(g.defs)):
        p.schema(i)
    c = p.case(len(roots) > 1, {"ns": ns})
    c.sample += "\n// first: %s\n// second: %s" % tuple(desc)
    return c


def judge_c10d(c, o):
    b = base(o)
    if b:
        return b
    out = []
    ends = []
    by = {unraw(d.name): i for i, d in enumerate(c.data["defs"])}
    for s, n in enumerate(c.data["extra"]["ns"]):
        prev = {}
        for k in range(n):
            cur = o.json("%s%d" % ("ab"[s], k))["c"].get("schemas", {})
            for name, m in prev.items():
                d = S.diff(m, cur.get(name, {}))
                if d:
                    out.append("component %s changed by a later mention: %s" % (name, d))
            prev = cur
        ends.append(prev)
        for name, m in prev.items():
            if name not in by:
                out.append("component %s belongs to no type" % name)
                continue
            d = S.diff(o.json("s%d" % by[name])["s"], m)
            if d:
                out.append("component %s, schema of the type against observed: %s" % (name, d))
    d = S.diff(ends[0], ends[1])
    if d:
        out.append("components differ between two orders: %s" % d)
    return out


# ---------------------------------------------------------------- C12

def gen_c12(src):
    n = src.size(4, 8) + 1
    nd = Nodes(src, n, dup=10)
    pool = [x for x in nd.names if x] + ["Manual", "Other", "", "basic"]
    pool.append(related(src, src.pick(pool)))
    hot = [src.pick(pool), src.pick(SECS)]
    steps = []
    for _ in range(src.size(9, 30) + 2):
        k = src.weighted([(4, "add"), (4, "mention"), (4, "sec"), (2, "contains"), (1, "verify")])
        if k == "add":
            g = MGen(src, pool, 20)
            steps.append(["add", hot[0] if src.prob(30) else src.pick(pool), g.model(2), src.prob(50)])
        elif k == "mention":
            steps.append(["mention", [src.draw(n), nd.via(), src.prob(20), gen_params(src, 10)]])
        elif k == "sec":
            steps.append(["sec", hot[1] if src.prob(30) else src.pick(SECS + ["Manual"]), gen_sec(src), src.prob(50)])
        elif k == "contains":
            steps.append(["contains", src.pick(pool + ["absent", "key", "oauth", related(src, src.pick(pool))])])
        else:
            steps.append(["verify"])
    req = {"op": "history", "nodes": nd.request(), "steps": steps}
    names = [s[1] for s in steps if s[0] in ("add", "sec")]
    return Case(req, req, sorted(set(s[0] for s in steps)), len(names) > len(set(names)), {"nd": nd})


def judge_c12(c, o):
    b = crashed(o)
    if b:
        return b
    out = []
    nd = c.data["nd"]
    sch, sec = {}, {}
    for s, st in zip(c.request["steps"], o.json("steps")):
        cur = comps(st)
        csec = {k: v for k, v in st["cx"]["sec"]}
        what = "%s %r" % (s[0], s[1] if len(s) > 1 else "")
        for k, v in sch.items():
            if cur.get(k) != v:
                out.append("%s: component %r was %s" % (what, k, "replaced" if k in cur else "removed"))
        for k, v in sec.items():
            if csec.get(k) != v:
                out.append("%s: security scheme %r was %s" % (what, k, "replaced" if k in csec else "removed"))
        new, nsec = set(cur) - set(sch), set(csec) - set(sec)
        if s[0] == "add":
            if s[1] not in cur or new - {s[1]} or nsec:
                out.append("%s: added %s %s" % (what, sorted(new), sorted(nsec)))
            elif s[1] in new and cur[s[1]] != full(s[2]):
                out.append("%s: registered %r instead of the given model" % (what, cur[s[1]]))
        elif s[0] == "sec":
            if st["r"] != s[1]:
                out.append("%s: returned %r" % (what, st["r"]))
            if s[1] not in csec or nsec - {s[1]} or new:
                out.append("%s: added %s %s" % (what, sorted(new), sorted(nsec)))
            elif s[1] in nsec and {k: v for k, v in csec[s[1]].items()} != norm_sec(s[2]):
                out.append("%s: registered %r" % (what, csec[s[1]]))
        elif s[0] == "contains":
            if st["r"] != (s[1] in cur) or new or nsec:
                out.append("%s: answered %r with %s present" % (what, st["r"], sorted(cur)))
        elif s[0] == "mention":
            exp = nd.ref(s[1])
            if "link" in exp:
                if st["r"] != exp:
                    out.append("%s: returned %r, expected %r" % (what, st["r"], exp))
                if exp["link"] not in cur:
                    out.append("%s: %r was not registered" % (what, exp["link"]))
            if nsec:
                out.append("%s: added %s" % (what, sorted(nsec)))
            if new - set(x for x in nd.names if x):
                out.append("%s: added %s" % (what, sorted(new)))
        elif new or nsec:
            out.append("%s: added %s %s" % (what, sorted(new), sorted(nsec)))
        sch, sec = cur, csec
        if out:
            break
    return out


def norm_sec(s):
    o = {"k": s["k"], "desc": s.get("desc")}
    if s["k"] == "bearer":
        o["format"] = s.get("format")
    if s["k"] == "apiKey":
        o["in"], o["name"] = s["in"], s["name"]
    return o


# ---------------------------------------------------------------- C21

def gen_c21(src):
    n = count(src)
    nd = Nodes(src, n)
    i = src.draw(n)
    via = nd.via()
    steps = [["mention", [i, via, True, {}]], ["fresh"], ["mention", [i, via, False, {}]], ["fresh"], ["mention", [i, "self", True, {}]]]
    req = {"op": "history", "nodes": nd.request(), "steps": steps}
    return Case(req, req, ["named" if nd.names[i] else "unnamed", via], nd.names[i] is not None and via != "self",
                {"nd": nd, "i": i, "via": via})


def judge_c21(c, o):
    b = crashed(o)
    if b:
        return b
    out = []
    nd, i, via = c.data["nd"], c.data["i"], c.data["via"]
    st = o.json("steps")
    name = nd.names[i]
    inl, ref = st[0], st[2]
    own = {"model": nd.schema(i)}
    if "link" in inl["r"]:
        out.append("requested inline through %s: %r" % (via, inl["r"]))
    elif via in TRANSPARENT + OPTIONAL:
        if name is not None and name in comps(inl) and name not in nd.closure([own]):
            out.append("requested inline, but %r was registered" % name)
        if name is not None:
            if ref["r"] != {"link": name}:
                out.append("requested by reference: %r" % ref["r"])
            else:
                k = comps(ref).get(name)
                a, b_ = k, inl["r"]["model"]
                if via in OPTIONAL:
                    b_ = dict(b_, nullable=a.get("nullable")) if a and "nullable" in b_ else b_
                d = S.diff(a, b_)
                if d:
                    out.append("component against the inlined schema: %s" % d)
        else:
            d = S.diff(ref["r"], inl["r"])
            if d:
                out.append("type without a name, by reference against inline: %s" % d)
    elif "link" in ref["r"] or S.diff(ref["r"], inl["r"]):
        out.append("container %s, by reference against inline: %r, %r" % (via, ref["r"], inl["r"]))
    # every type reached on the way, not only the one requested
    for x in (inl, ref):
        for k, m in comps(x).items():
            if k in nd.names:
                d = S.diff(m, nd.schema(nd.names.index(k)))
                if d:
                    out.append("component %s against the schema of its type: %s" % (k, d))
    extra = set(k for x in (inl, ref) for k in comps(x)) - set(x for x in nd.names if x)
    if extra:
        out.append("registered under unknown names: %s" % sorted(extra))
    return out


def gen_c21d(src):
    g = Gen(src, ann=src.pick([30, 60]), max_defs=4, rec=src.pick([0, 6]), scalars=["String", "i32", "bool"])
    g.universe()
    p = Prog(g, derives=("Noop", "OpgModel"))
    n = 0
    for i, d in enumerate(g.defs):
        p.schema(i)
        p.mention(i)
        p.stmts.append('o.mention::<%s>("i%d", true);' % (d.name, i))
        w = src.pick(["Box<%s>", "&'static %s", "std::rc::Rc<%s>"]) % d.name
        p.stmts.append('o.mention::<%s>("bi%d", true);' % (w, i))
        p.stmts.append('o.mention::<%s>("bm%d", false);' % (w, i))
        n += d.ann.inline or any(f.ann.inline for f in d.fields)
    return p.case(n > 0 or len(g.defs) > 1)


def judge_c21d(c, o):
    b = base(o)
    if b:
        return b
    out = []
    defs = c.data["defs"]
    inlined = {unraw(d.name) for d in defs if d.ann.inline}
    for i, d in enumerate(defs):
        name = unraw(d.name)
        s, m, inl = o.json("s%d" % i), o.json("m%d" % i), o.json("i%d" % i)
        for what, x in (("m", m), ("i", inl), ("bi", o.json("bi%d" % i)), ("bm", o.json("bm%d" % i)), ("s", s)):
            bad = inlined & set(x["c"].get("schemas", {}))
            if bad:
                out.append("%s: types declared inline are registered: %s" % (d.name, sorted(bad)))
        for x in (inl, o.json("bi%d" % i)):
            if "$ref" in x["r"]:
                out.append("%s requested inline: %r" % (d.name, x["r"]))
            df = S.diff(s["s"], x["r"])
            if df:
                out.append("%s: schema against inlined form: %s" % (d.name, df))
            if name in x["c"].get("schemas", {}) and not back_refs(x, name):
                out.append("%s requested inline is registered" % d.name)
        for x in (m, o.json("bm%d" % i)):
            if d.ann.inline:
                df = S.diff(s["s"], x["r"])
                if df:
                    out.append("%s, declared inline: %s" % (d.name, df))
            elif x["r"] != {"$ref": S.PREFIX + name}:
                out.append("%s mentioned: %.300r" % (d.name, x["r"]))
            else:
                df = S.diff(s["s"], x["c"].get("schemas", {}).get(name))
                if df:
                    out.append("%s: inlined schema against component: %s" % (d.name, df))
    # every type reached on the way
    own = {unraw(d.name): o.json("s%d" % i)["s"] for i, d in enumerate(defs) if not d.rename}
    for i, d in enumerate(defs):
        for x in (o.json("s%d" % i), o.json("m%d" % i), o.json("i%d" % i), o.json("bi%d" % i), o.json("bm%d" % i)):
            for k, m in x["c"].get("schemas", {}).items():
                if k in own:
                    df = S.diff(own[k], m)
                    if df:
                        out.append("%s, reached from %s: inlined schema against component: %s" % (k, d.name, df))
    # fields and variants: linked exactly when not requested inline
    mod = c.data["model"]
    for i, d in enumerate(defs):
        a, b = sorted(refs(mod.def_schema(d))), sorted(refs(o.json("s%d" % i)["s"]))
        if a != b:
            out.append("%s: expected links %s, found %s" % (d.name, a, b))
    return out


def back_refs(x, name):
    """does the inlined form refer, directly or not, to the named type?"""
    have = x["c"].get("schemas", {})
    seen, todo = set(), refs(x["r"])
    while todo:
        k = todo.pop()[len(S.PREFIX):]
        if k == name:
            return True
        if k not in seen:
            seen.add(k)
            todo += refs(have.get(k, {}))
    return False
