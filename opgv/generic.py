"""C07: generic definitions against their hand-substituted form."""
from . import schema as S
from .core import Case, Family, run_programs
from .derive import base
from .lang import Field, Gen, Layout, render_def, rs_ty, unraw

PARAMS = ["T", "U", "Item", "Key", "A1", "Ключ2", "K"]


class Abs:
    """turns parts of field types into parameters"""

    def __init__(self, src, names, taken):
        self.src, self.names = src, names
        self.types = []         # (name, argument text, bounds, default)
        self.lifetimes = []
        self.consts = []        # (name, value)
        self.where = []
        self.labels = set()
        self.taken = set(taken)
        self.recursive = False  # the definition mentions itself, and so all of its parameters, in a serialized field
        self.own = None         # index of the generic definition: mentions of itself

    def fresh(self, pool):
        for n in pool:
            if n not in self.taken:
                self.taken.add(n)
                return n
        i = 0
        while "P%d" % i in self.taken:
            i += 1
        self.taken.add("P%d" % i)
        return "P%d" % i

    def param(self, arg, unsized=False, bound=None):
        src = self.src
        same = [p for p in self.types if p[1] == arg and p[4] == bound]
        if same and src.prob(50):
            return src.pick(same)[0]
        n = self.fresh(src.shuffle(PARAMS))
        b, d = [], None
        if bound:
            b.append(bound)
        if unsized:
            b.append("?Sized")
            self.labels.add("?Sized")
        elif src.prob(25):
            b.append(src.pick(["AnyB", "AnyB + Sized", "AnyC<u8>", "'static"]))
            self.labels.add("bound")
        if src.prob(20):
            self.where.append("%s: %s" % (n, src.pick(["AnyB", "AnyC<Vec<%s>>" % n if not unsized else "AnyB", "'static"])))
            self.labels.add("where")
        self.types.append((n, arg, b, d, bound))
        return n

    def life(self):
        if self.lifetimes and self.src.prob(50):
            return self.src.pick(self.lifetimes)
        n = "'" + self.fresh(["a", "b", "de", "life"])
        self.lifetimes.append(n)
        self.labels.add("lifetime")
        return n

    def const(self, v):
        same = [n for n, x in self.consts if x == v]
        if same and self.src.prob(60):
            return self.src.pick(same)
        n = self.fresh(["N", "LEN", "M", "SIZE"])
        self.consts.append((n, v))
        self.labels.add("const")
        return n

    def text(self, t, p=25):
        """text of t with some subterms abstracted"""
        src = self.src
        k = t[0]
        if k == "raw":
            return t[1]
        mentions_self = self.own is not None and self.own in S_users(t)
        if not mentions_self and src.prob(p):
            return self.param(rs_ty(t, self.names))
        r = lambda x: self.text(x, p + 8)
        if k == "u":
            return "@SELF@" if t[1] == self.own else self.names[t[1]]
        if k == "o":
            return "Option<%s>" % r(t[1])
        if k == "w":
            if t[1] in ("Ref", "RefMut"):
                l = self.life() if src.prob(60) else "'static"
                m = "mut " if t[1] == "RefMut" else ""
                x = r(t[2])
                if l != "'static" and src.prob(15):
                    l2 = [y for y in self.lifetimes if y != l]
                    if l2:
                        self.where.append("%s: %s" % (l2[0], l))
                return "&%s %s%s" % (l, m, x)
            if t[1] in ("Box", "Rc", "Arc") and src.prob(10) and t[2] == ("s", "String"):
                return rs_ty(("w", t[1], ("raw", self.param("str", unsized=True), None)), self.names)
            return rs_ty(("w", t[1], ("raw", r(t[2]), None)), self.names)
        if k == "a":
            e = r(t[2])
            if t[1] == "array" and src.prob(60):
                return "[%s; %s]" % (e, self.const(t[3]))
            if t[1] == "RefSlice" and src.prob(50):
                return "&%s [%s]" % (self.life(), e)
            return rs_ty(("a", t[1], ("raw", e, None)) + tuple(t[3:]), self.names)
        if k == "t":
            return "(%s)" % "".join(r(x) + ", " for x in t[1])
        if k == "m":
            return rs_ty(("m", t[1], t[2], ("raw", r(t[3]), None)), self.names)
        if k == "s" and t[1] == "str" and src.prob(60):
            return "&%s str" % self.life()
        return rs_ty(t, self.names)

    def assoc(self, t):
        """a field type given by an associated type, if there is a carrier for it"""
        if t[0] != "s" or t[1] not in ("u8", "String"):
            return None
        self.labels.add("assoc")
        full = self.recursive or self.src.prob(30)      # the carrier itself has a schema as well
        c = {"u8": "i32", "String": "bool"}[t[1]] if full else {"u8": "WithU8", "String": "WithStr"}[t[1]]
        n = self.param(c, bound="HasItem")
        if not full or self.src.prob(40):
            return "%s::Item" % n
        self.where.append("<%s as HasItem>::Item: OpgModel" % n)
        return "<%s as HasItem>::Item" % n

    def finish(self):
        """parameter lists: declaration and arguments"""
        src = self.src
        types = list(self.types)
        decl, use, args = [], [], []
        for l in self.lifetimes:
            decl.append(l)
            use.append(l)
            args.append("'static")
        rest = [("t", x) for x in types] + [("c", x) for x in self.consts]
        rest = src.shuffle(rest)
        k0 = len(rest)
        if rest and src.prob(30):
            k0 = src.draw(len(rest) + 1)
            self.labels.add("default")
        for i, (k, x) in enumerate(rest):
            dflt = i >= k0
            if k == "t":
                s = x[0] + (": " + " + ".join(x[2]) if x[2] else "")
                if dflt:
                    s += " = " + (x[1] if src.prob(50) else "u8" if not x[4] else "WithU8")
                decl.append(s)
                args.append(x[1])
                use.append(x[0])
            else:
                decl.append("const %s: usize%s" % (x[0], (" = %d" % x[1]) if dflt else ""))
                args.append(src.pick(["%d", "{ %d }"]) % x[1])
                use.append(x[0])
        return decl, use, args


def S_users(t):
    from .lang import users
    return users(t)


def all_fields(d):
    out = list(d.fields)
    for v in d.variants:
        out += v.fields
    return out


def ab_uses(defs, i):
    return any(i in S_users(f.ty) for d in defs for f in all_fields(d) if d is not defs[i])


def gen_c07(src):
    g = Gen(src, ann=src.pick([12, 0, 40]), max_defs=3, rec=src.pick([0, 8]))
    g.universe()
    # a definition with fields
    cand = [i for i, d in enumerate(g.defs) if any(True for _ in all_fields(d)) and not d.repr]
    if not cand:
        d = g.defs[-1]
        d.repr = None
        d.noise = []
        d.kind, d.variants, d.fields = "struct", [], [Field("only", ("s", "u8"))]
        d.tag = d.content = None
        d.untagged = d.transparent = False
        d.rename_all = None
        d.ann.explicit = d.ann.format = d.ann.example = None
        cand = [len(g.defs) - 1]
    i = cand[-1] if src.prob(70) else src.pick(cand)
    d = g.defs[i]
    if src.prob(6) and not ab_uses(g.defs, i):
        # a transparent struct: only its field without a marker is serialized
        f = Field("only", src.pick([("s", "u8"), ("s", "String"), ("a", "Vec", ("s", "i32"))]))
        d.kind, d.variants, d.fields = "struct", [], [f]
        d.tag = d.content = None
        d.untagged, d.transparent, d.rename_all = False, True, None
        d.noise = []
        d.ann.explicit = d.ann.format = d.ann.example = None
        for k in range(1 + src.draw(2)):
            x = Field("marker%d_" % k, ("raw", "@PH@", None))
            x.skip = src.pick([None, None, "skip"])
            d.fields.insert(src.draw(len(d.fields) + 1), x)
    # members that carry parameters without a schema
    elif d.kind in ("struct", "tuple") and src.prob(35):
        f = Field("phantom_" if d.kind == "struct" else None, ("raw", "@PH@", None))
        f.skip = None if d.transparent else src.pick(["skip", "skip_serializing"])
        if d.transparent and d.kind == "tuple":
            f.skip = "skip"
        d.fields.append(f)
    elif d.kind == "enum" and src.prob(25):
        from .lang import Variant
        v = Variant("HiddenOne_", "newtype", [Field(None, ("raw", "@PH@", None))])
        v.skip = src.pick(["skip", "skip_serializing"])
        d.variants.append(v)
    names = g.names()
    taken = set(names) | {"AnyB", "AnyC"}
    ab = Abs(src, names, taken)
    ab.own = i
    ab.recursive = any(i in S_users(f.ty) for f in all_fields(d))
    bare = ["u8", "u8", "String", "Vec<u8>"] if ab.recursive else ["NoSchema", "NoSchema", "u8", "Vec<NoSchema>"]
    texts = {}
    conc = {}
    for f in all_fields(d):
        t = f.ty
        if t == ("raw", "@PH@", None):
            n = ab.param(src.pick(bare))
            arg = [x[1] for x in ab.types if x[0] == n][0]
            form = src.pick(["std::marker::PhantomData<%s>", "PhantomData<%s>", "PhantomData<(%s, u8)>"])
            if not d.transparent and src.prob(50):
                form = src.pick(["%s", "Vec<%s>", "Option<Box<%s>>"])
            texts[id(f)], conc[id(f)] = form % n, form % arg
            ab.labels.add("no-schema parameter")
        elif f.hidden:
            if t[0] == "raw" and src.prob(50) and not ab.recursive:
                texts[id(f)] = ab.param(t[1])
                ab.labels.add("no-schema parameter")
            else:
                texts[id(f)] = rs_ty(t, [("@SELF@" if k == i else n) for k, n in enumerate(names)])
            conc[id(f)] = rs_ty(t, names)
        else:
            conc[id(f)] = rs_ty(t, names)
            a = ab.assoc(t) if src.prob(40) else None
            texts[id(f)] = a or ab.text(t)
    if not (ab.types or ab.lifetimes or ab.consts):
        f = [x for x in all_fields(d) if not x.hidden and x.ty[0] != "raw" and i not in S_users(x.ty)]
        if f:
            texts[id(f[0])] = ab.param(rs_ty(f[0].ty, names))
    if any("&'static" in x for x in texts.values()):
        ab.where += ["%s: 'static" % x for x in ab.lifetimes + [t[0] for t in ab.types]]
    decl, use, args = ab.finish()
    name = d.name
    inst = name + ("<%s>" % ", ".join(args) if args else "")
    own = name + ("<%s>" % ", ".join(use) if use else "")
    lay = Layout(src, 25)
    old = {id(f): f.ty for f in all_fields(d)}

    def module(generic):
        out = []
        ns = list(names)
        ns[i] = inst if generic else name
        for j, x in enumerate(g.defs):
            if j != i:
                out.append(render_def(x, ns, lay, ("Noop", "OpgModel")))
                continue
            for f in all_fields(x):
                s = texts[id(f)].replace("@SELF@", own) if generic else conc[id(f)]
                f.ty = ("raw", s, None)
            try:
                if generic:
                    gl = "<%s>" % ", ".join(decl) if decl else ""
                    wh = ""
                    if ab.where:
                        wh = " where %s" % ", ".join(ab.where)
                    if decl and via_macro:
                        tys = [f.ty[1] for f in all_fields(x)]
                        for k, f in enumerate(all_fields(x)):
                            f.ty = ("raw", "$t%d" % k, None)
                        body = render_def(x, ns, lay, ("Noop", "OpgModel"), gl, wh)
                        out.append("macro_rules! mk { (%s) => {\n%s\n} }\nmk!(%s);" % (
                            ", ".join("$t%d:ty" % k for k in range(len(tys))), body, ", ".join(tys)))
                    else:
                        out.append(render_def(x, ns, lay, ("Noop", "OpgModel"), gl, wh))
                else:
                    out.append(render_def(x, ns, lay, ("Noop", "OpgModel")))
            finally:
                for f in all_fields(x):
                    f.ty = old[id(f)]
        st = []
        for j, x in enumerate(g.defs):
            n = inst if (j == i and generic) else x.name
            pre = "g" if generic else "c"
            st.append('o.schema::<%s>("%ss%d");' % (n, pre, j))
            st.append('o.mention::<%s>("%sm%d", false);' % (n, pre, j))
            st.append('o.mention::<%s>("%si%d", true);' % (n, pre, j))
        return ("use rt::prelude::*; use std::marker::PhantomData;\npub trait AnyB {}\nimpl<X: ?Sized> AnyB for X {}\n"
                "pub trait AnyC<Y> {}\nimpl<X: ?Sized, Y> AnyC<Y> for X {}\n%s\npub fn run(o: &mut Out) {\n    %s\n}"
                % ("\n".join(out), "\n    ".join(st))), "\n".join(out)

    via_macro = src.prob(12)
    if via_macro:
        ab.labels.add("through a macro")
    a, sa = module(False)
    b, sb = module(True)
    body = "use rt::prelude::*;\npub mod conc {\n%s\n}\npub mod gene {\n%s\n}\npub fn run(o: &mut Out) { conc::run(o); gene::run(o); }" % (a, b)
    return Case(body, "%s\n// instantiated as %s, against\n%s" % (sb, inst, sa), sorted(ab.labels) + [d.kind], bool(args),
                {"n": len(g.defs), "names": names})


def judge_c07(c, o):
    b = base(o)
    if b:
        return b
    out = []
    for j in range(c.data["n"]):
        for what in "smi":
            x, y = o.json("c%s%d" % (what, j)), o.json("g%s%d" % (what, j))
            d = S.diff(x, y)
            if d:
                out.append("%s: %s (substituted by hand, generic)" % (c.data["names"][j], d))
    return out


def fam(name, gen, judge, quick, thorough, rule, batch=640):
    return Family(name, gen, judge, lambda reqs: run_programs(reqs, name), quick, thorough, rule, batch)
