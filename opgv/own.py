"""C24: types the user describes with `impl_opg_model!` or by hand, against the built-in and derived ones."""
from . import schema as S
from .core import Case, Family, rnd_text, rs_str, run_programs
from .derive import base
from .generic import all_fields
from .lang import Gen, Layout, render_def
from .lang import apply_params
from .types import Comp, TG, rnd_context, text


class OwnComp(Comp):
    def schema(self, t):
        if t[0] == "any scalar":
            return {"type": t[1], **({"format": t[2]} if t[2] is not None else {})}
        return Comp.schema(self, t)


class OwnTG(TG):
    """also scalars with a format no standard type has"""

    def __init__(self, src, n, scalars):
        TG.__init__(self, src, n)
        self.any = scalars

    def ty(self, depth):
        if self.any and self.src.prob(12):
            return self.src.pick(self.any)
        return TG.ty(self, depth)


class Own:
    """renders type expressions with the user's own types instead of the standard ones"""

    def __init__(self, src, names, model):
        self.src, self.names, self.model = src, names, model
        self.decls = []
        self.pool = {}
        self.labels = set()

    def fresh(self, key, make):
        """an own type for a role: mostly one that exists"""
        xs = self.pool.setdefault(key, [])
        if xs and self.src.prob(70):
            return self.src.pick(xs)
        n = "%s%d_" % (self.src.pick(["My", "Own", "Wrap", "T", "K", "X"]), sum(map(len, self.pool.values())))
        xs.append(make(n))
        return xs[-1]

    def one(self, form, sized, unsized):
        """declares a type with one parameter; result: application as a format"""
        def make(n):
            src = self.src
            how = src.weighted([(6, "plain"), (2, "path"), (2, "lifetime"), (2, "const"), (2, "second")])
            q = ": ?Sized" if unsized else ""
            ph = "std::marker::PhantomData<T>" if not unsized else "std::marker::PhantomData<Box<T>>"
            pre, app = "", n + "<%s>"
            if how == "plain":
                d = "pub struct %s<T%s>(pub %s);" % (n, q, ph)
            elif how == "path":
                pre = "m_%s::" % n.lower()
                d = "pub mod m_%s { pub struct %s<T%s>(pub %s); }" % (n.lower(), n, q, ph)
            elif how == "lifetime":
                d = "pub struct %s<'a, T%s>(pub %s, pub std::marker::PhantomData<&'a ()>);" % (n, q, ph)
                app = n + "<'static, %s>"
            elif how == "const":
                d = "pub struct %s<T%s, const N: usize>(pub %s, pub [u8; N]);" % (n, q, ph)
                app = n + "<%s, 3>"
            else:
                d = "pub struct %s<T%s, U>(pub %s, pub U);" % (n, q, ph)
                app = n + "<%s, String>"
            app = pre + app
            self.labels.add("%s/%s" % (form, how))
            self.decls.append(d)
            self.decls.append("impl_opg_model!(%s: %s);" % (form, app % "T"))
            return app
        return self.fresh((form, sized), make)

    def scalar(self, t):
        m = self.model.schema(t)
        if set(m) - {"type", "format"}:
            return None
        kind = m["type"] + ("(always_inline, %s)" % rs_str(m["format"]) if "format" in m else "(always_inline)")

        def make(n):
            self.labels.add(m["type"])
            self.decls.append("%s\nimpl_opg_model!(%s: %s);" % (self.src.pick(["pub struct %s;", "pub enum %s {}", "pub struct %s(pub u8);"]) % n, kind, n))
            return n
        return self.fresh(kind, make)

    def dictionary(self):
        def make(n):
            self.labels.add("generic_dictionary")
            how = self.src.draw(3)
            ps, app = [("K, T", "%s, %s"), ("T, K", None), ("'a, K, T", "'static, %s, %s")][how]
            ph = "std::marker::PhantomData<(K, T)>" if how < 2 else "std::marker::PhantomData<&'a (K, T)>"
            self.decls.append("pub struct %s<%s>(pub %s);" % (n, ps, ph))
            self.decls.append("impl_opg_model!(generic_dictionary: %s<%s>);" % (n, ps.replace("'a", "'static")))
            return (n, app)
        return self.fresh("dictionary", make)

    def text(self, t):
        src, k = self.src, t[0]
        own = src.prob(65)
        r = self.text
        if k == "slice":
            return "[%s]" % r(t[1])
        if k == "raw":
            return t[1]
        if k == "s":
            return (own and self.scalar(t)) or text(t, self.names)
        if k == "o":
            i = t[1]
            if i[0] == "w" and i[2][0] in ("raw", "slice") and src.prob(60):
                return self.one("generic_simple(nullable, ?Sized)", False, True) % r(i[2])
            if own:
                return self.one("generic_simple(nullable)", True, False) % r(i)
            return "Option<%s>" % r(i)
        if k == "w":
            i = t[2]
            if i[0] in ("raw", "slice"):
                if own:
                    return self.one("generic_simple(?Sized)", False, True) % r(i)
            elif own:
                f = src.pick(["generic_simple", "generic_simple(?Sized)"])
                return self.one(f, f == "generic_simple", f != "generic_simple") % r(i)
            return text(("w", t[1], ("raw", r(i), None)), self.names)
        if k == "a":
            if own:
                return self.one("generic_array", True, False) % r(t[2])
            return text(("a", t[1], ("raw", r(t[2]), None)) + tuple(t[3:]), self.names)
        if k == "t":
            return "(%s)" % "".join(r(x) + ", " for x in t[1])
        if k == "m":
            if own:
                n, app = self.dictionary()
                key, val = text(t[2], self.names), r(t[3])
                return "%s<%s>" % (n, app % (key, val) if app else "%s, %s" % (val, key))
            return text(("m", t[1], t[2], ("raw", r(t[3]), None)), self.names)
        return text(t, self.names)


def gen_c24(src):
    g = Gen(src, ann=src.pick([0, 30]), max_defs=3, rec=src.pick([0, 0, 8]))
    if src.prob(75):
        g.universe()
    names = g.names()
    own = Own(src, names, g.model)
    lay = Layout(src)
    # definitions with a hand-written implementation in the second module
    hand = [j for j in range(len(g.defs)) if src.prob(35)]
    first, second = [], []
    for j, d in enumerate(g.defs):
        first.append(render_def(d, names, lay, ("Noop", "OpgModel")))
        old = [f.ty for f in all_fields(d)]
        name = d.name
        if j in hand:
            own.names = names[:j] + ["super::" + name] + names[j + 1:]
        for f in all_fields(d):
            if not f.hidden:
                f.ty = ("raw", own.text(f.ty), None)
        own.names = names
        if j in hand:
            own.labels.add("by hand")
            # under the same name, since generated descriptions contain it
            second.append("pub mod shape%d {\nuse super::*;\n%s\n}" % (j, render_def(d, names, lay, ("Noop", "OpgModel"))))
            shown = src.pick(["Some(std::borrow::Cow::Owned(N))", "Some(N.into())", "Some(std::borrow::Cow::from(N))"]).replace(
                "N", "String::from(%s)" % rs_str("@"))
            second.append("pub struct %s;\nimpl OpgModel for %s {\n    fn get_schema(cx: &mut Components) -> Model { <shape%d::%s as OpgModel>::get_schema(cx) }\n"
                          "    fn type_name() -> Option<std::borrow::Cow<'static, str>> { match <super::a::%s as OpgModel>::type_name() { None => None, Some(n) => %s } }\n}"
                          % (name, name, j, name, name, shown.replace(rs_str("@"), "&*n")))
        else:
            second.append(render_def(d, names, lay, ("Noop", "OpgModel")))
        for f, t in zip(all_fields(d), old):
            f.ty = t
    scalars = []
    for j in range(src.draw(3)):
        kind = src.pick(["string", "number", "integer", "boolean"])
        fmt = None if kind == "boolean" or src.prob(30) else src.pick(["date", "a b", "", "int32", "x-y/z", "format", rnd_text(src)])
        n = "Any%d_" % j
        first.append("pub struct %s;\nimpl OpgModel for %s {\n    fn get_schema(_: &mut Components) -> Model { rt::opg::describe_type!(%s => { %s }) }\n"
                     "    fn type_name() -> Option<std::borrow::Cow<'static, str>> { None }\n}"
                     % (n, n, kind, "" if fmt is None else "format: " + rs_str(fmt)))
        own.decls.append("pub struct %s;\nimpl_opg_model!(%s(always_inline%s): %s);" % (n, kind, "" if fmt is None else ", " + rs_str(fmt), n))
        own.labels.add("scalar with an own format" if fmt is not None else "scalar without format")
        scalars.append(("raw", n, ("any scalar", kind, fmt)))
    tg = OwnTG(src, len(g.defs), scalars)
    st = {"a": [], "b": []}
    shown, ts = [], []

    def ask(k, tn, key):
        st[k].append('o.schema::<%s>("%ss%s");' % (tn, k, key))
        st[k].append('o.mention::<%s>("%sm%s", false);' % (tn, k, key))
        st[k].append('o.mention::<%s>("%si%s", true);' % (tn, k, key))

    for j in range(len(g.defs)):
        for k in "ab":
            ask(k, names[j], "d%d" % j)
        shown.append(("d%d" % j, names[j], names[j]))
    for j in range(src.int(1, 5)):
        t = tg.ty(src.weighted([(3, 1), (4, 2), (3, 3), (1, 5)]))
        a, b = text(t, names), own.text(t)
        par, pars = rnd_context(src)
        inl = str(src.prob(30)).lower()
        for k, x in (("a", a), ("b", b)):
            ask(k, x, "t%d" % j)
            st[k].append('o.mention_with::<%s>("%spt%d", %s, %s);' % (x, k, j, inl, pars))
            st[k].append('o.schema_with::<%s>("%swt%d", %s);' % (x, k, j, pars))
        shown.append(("t%d" % j, a, b))
        ts.append((t, b, par, inl == "true"))
    # what is declared follows the rendering of everything
    head = "use rt::prelude::*; use rt::opg::{impl_opg_model, Model}; use rt::serde;\n"
    m = lambda k, body: "pub mod %s {\n%s%s\npub fn run(o: &mut Out) {\n    %s\n}\n}" % (
        k, head, "\n".join(body), "\n    ".join(st[k]))
    body = "use rt::prelude::*;\n%s\n%s\npub fn run(o: &mut Out) { a::run(o); b::run(o); }" % (
        m("a", first), m("b", own.decls + second))
    return Case(body, "\n".join(own.decls + second) + "\n" + "\n".join("%s  // %s" % (b, a) for _, a, b in shown),
                sorted(own.labels | g.labels), bool(own.decls) or "by hand" in own.labels, {"shown": shown, "ts": ts, "n": len(g.defs)})


def judge_c24(c, o):
    b = base(o)
    if b:
        return b
    out = []
    for key, a, b in c.data["shown"]:
        for what, label in (("s", "schema"), ("m", "mention"), ("i", "inlined"), ("p", "mention with parameters"), ("w", "schema with parameters")):
            if "a" + what + key not in o.items:
                continue
            d = S.diff(o.json("a" + what + key), o.json("b" + what + key))
            if d:
                out.append("%s: %s: %s (as %s, as %s)" % (b, label, d, a, b))
    # and against what the constructors stand for
    m = OwnComp({i: o.json("bsd%d" % i) for i in range(c.data["n"])})
    m.linked = {i: o.json("bmd%d" % i) for i in range(c.data["n"])}
    for i, (t, x, par, inl) in enumerate(c.data["ts"]):
        def cmp(what, got, exp):
            d = S.diff(exp, got)
            if d:
                out.append("%s: %s: %s (expected, observed)" % (x, what, d))
        r = o.json("bst%d" % i)
        cmp("schema", r["s"], m.schema(t))
        cmp("name", r["n"], m.type_name(t))
        cmp("components of the schema", r["c"].get("schemas", {}), m.comps(t, False))
        r = o.json("bmt%d" % i)
        cmp("mention", r["r"], m.ref(t))
        cmp("components of the mention", r["c"].get("schemas", {}), m.comps(t, True))
        cmp("inlined", o.json("bit%d" % i)["r"], m.ref(t, True))
        cmp("mention with parameters", o.json("bpt%d" % i)["r"], m.ref(t, inl, par))
        cmp("schema with parameters", o.json("bwt%d" % i)["s"], apply_params(m.schema(t), par))
    return out


def fam(name, quick, thorough, rule, batch=640):
    return Family(name, gen_c24, judge_c24, lambda reqs: run_programs(reqs, name), quick, thorough, rule, batch)
