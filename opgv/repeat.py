"""C23: the same description gives the same bytes, whenever and wherever it is evaluated."""
from . import api as P
from . import model as M
from .core import Case, Family, run_interp, run_programs
from .derive import Prog
from .lang import Gen

# other structures under the same names, for what is described in between
ALT = [("pub u64", "pub String"), ("r: f64", "r: u8"), ("name: String", "name: bool"), ("One, Two", "Two, Three(u8)"), ("a: u8", "z: char")]


def module(src, alt):
    """text of a module with a function `render`; number of declarations"""
    if src.prob(60):
        g = P.AG(src, False)
        f = dict(P.BASE, params=30, security=20, schemes=50, body=30, responses=3, callbacks=12, tags=30)
        doc, text = g.document(f)
        head = "\n".join(g.definitions())
        if alt:
            for a, b in ALT:
                head = head.replace(a, b)
        lets = "\n".join(g.lets)
        n = len(doc["paths"]) + len(doc["tags"]) + len(doc["sec"])
        label = "description"
    else:
        g = Gen(src, ann=src.pick([24, 8]), max_defs=4, rec=src.pick([0, 8]))
        g.universe()
        p = Prog(g, derives=("Noop", "OpgModel"))
        head = "use rt::prelude::*;\n" + "\n".join(p.defs_text)
        text, lets = P.defs_doc_text(src, g), ""
        n = len(g.defs)
        label = "definitions"
    return "%s\npub fn render() -> String {\n%s\nlet document = opg::describe_api! {\n%s\n};\nrt::render(&document)\n}" % (head, lets, text), n, label


def gen(src):
    a, n, la = module(src, False)
    b, _, lb = module(src, True)
    threads = src.prob(50)
    body = """use rt::prelude::*;
pub mod a {
%s
}
pub mod b {
%s
}
pub fn run(o: &mut Out) {
    let first = a::render();
    let again = a::render();
    let other = b::render();
    let after = a::render();
    o.text("again", again == first);
    o.text("after", after == first);
    o.text("other", b::render() == other);
    if %s {
        let hs: Vec<_> = (0..4).map(|i| {
            let work = move || if i %% 2 == 0 { a::render() } else { b::render() };
            if i < 2 { std::thread::spawn(work) } else { std::thread::Builder::new().name(format!("worker {}", i)).spawn(work).expect("spawn") }
        }).collect();
        for (i, h) in hs.into_iter().enumerate() {
            let r = h.join().expect("thread");
            o.text(&format!("thread{}", i), r == *if i %% 2 == 0 { &first } else { &other });
        }
    }
    if again != first { o.text("again.text", &again); }
    if after != first { o.text("after.text", &after); }
    o.text("first", first);
    o.text("other.text", other);
}""" % (a, b, str(threads).lower())
    return Case(body, a + "\n// in between\n" + b, ["a:" + la, "b:" + lb] + (["threads"] if threads else []), n > 1)


def judge(c, o):
    b = M.crashed(o)
    if b:
        return b
    out = ["%s: the result differs from the first one:\n%.400s\nfirst:\n%.400s" % (
        k, o.items.get(k + ".text", ""), o.items["first"]) for k, v in o.items.items() if v == "false"]
    if o.other:
        out.append("another process gives a different result: " + o.other)
    return out


def fam(name, quick, thorough, rule, batch=320):
    return Family(name, gen, judge, lambda reqs: run_programs(reqs, name, 20, twice=True), quick, thorough, rule, batch)


# ---------------------------------------------------------------- document models

def gen_doc(src):
    c = M.gen_c15(src)
    return c


def twice(reqs):
    one, two = run_interp(reqs, "m1"), run_interp(reqs, "m2")
    for a, b in zip(one, two):
        if a.kind != b.kind:
            a.other = "%s, then %s" % (a.kind, b.kind)
        elif a.items != b.items:
            k = [n for n in a.items if a.items[n] != b.items.get(n)][0]
            a.other = "%s: %.500s" % (k, b.items.get(k))
    return one


def judge_doc(c, o):
    b = M.crashed(o)
    if b:
        return b
    out = []
    if o.other:
        out.append("another process gives a different result: " + o.other)
    if o.items.get("repeat", "true") != "true":
        out.append("serializing the same value again gives a different text")
    return out


def ifam(name, quick, thorough, rule, batch=4000):
    return Family(name, gen_doc, judge_doc, twice, quick, thorough, rule, batch, True)
