"""Choice sequences, shrinking, building and running of generated programs, reporting."""
import concurrent.futures as cf
import fcntl
import hashlib
import json
import os
import random
import resource
import shutil
import signal
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("OPGV_REPO", "/repo")
TARGET = os.environ.get("OPGV_TARGET", os.path.join(VERIF, "target"))
WORK = os.environ.get("OPGV_WORK", os.path.join(VERIF, "work"))
JOBS = max(1, min(8, os.cpu_count() or 1))


class HarnessError(Exception):
    """The check itself could not run; never a verdict."""


# ---------------------------------------------------------------- choices

class Src:
    """Source of all random choices of a case. 0 is always the simplest choice."""

    def __init__(self, seed=None, choices=None):
        self.out = []
        self.inp = choices
        self.rng = None if choices is not None else random.Random(seed)

    def draw(self, n):
        if n <= 1:
            return 0
        if self.inp is None:
            v = self.rng.randrange(n)
        else:
            i = len(self.out)
            v = self.inp[i] if i < len(self.inp) else 0
            if v >= n:
                v = n - 1
        self.out.append(v)
        return v

    def prob(self, percent):
        return self.draw(100) >= 100 - percent

    def pick(self, xs):
        return xs[self.draw(len(xs))]

    def int(self, lo, hi):
        return lo + self.draw(hi - lo + 1)

    def weighted(self, pairs):
        """pairs: (weight, value); the first is the simplest"""
        total = sum(w for w, _ in pairs)
        v = self.draw(total)
        for w, x in pairs:
            if v < w:
                return x
            v -= w
        return pairs[-1][1]

    def shuffle(self, xs):
        xs = list(xs)
        for i in range(len(xs) - 1):
            j = i + self.draw(len(xs) - i)
            xs[i], xs[j] = xs[j], xs[i]
        return xs

    def size(self, typical, big):
        """mostly up to `typical`, sometimes up to `big`"""
        if self.prob(6):
            return self.draw(big + 1)
        return self.draw(typical + 1)


def case_seed(seed, prop, fam, k):
    h = hashlib.sha256(("%s/%s/%s/%s" % (seed, prop, fam, k)).encode()).digest()
    return int.from_bytes(h[:8], "big")


ALPHA = "abcdefghijklmnopqrstuvwxyz"
SPECIAL = [
    "", " ", "plain", "two words", "with \"quotes\"", "back\\slash", "brace {} {0} {name}", "tab\tnew\nline",
    "null", "true", "42", "- dash", "# hash", "a: b", "ключ", "naïve ☃ 𝒳", "'single'", "%s $ref &amp; <b>", "~",
    "trailing ", "CamelCase", "kebab-case", "snake_case", "$ref", "#/components/schemas/Foo", "\u0000\u0007",
    "type", "{\"a\":1}", "x" * 300,
    " leading", "  two  spaces  ", "line\n", "\nline", "crlf\r\n", "a\n\nb\n", "a/b", "trailing/", "/leading", "..", "end.",
    "UPPER", "É", "e\u0301", "ÀÉ ß İ", "yes", "NULL", "1.5", "-1", "0x1f", "1e3", "[1, 2]", "* a", "&a", "!t", "|", ">", "@a", "`code`",
    "http://host:80/p?q=1&r=%20#f", "{id}", "{{}}", "a,b", "(x)", "<T>", "::", "_", "__a", "a_", "9lives", "é_É", "日本語", "🦀",
    "tab\t", "\t", "\n", "\"", "\\", "\\n", "'", "//", "/* c */", "r#raw",
    "X-Request-Correlation-Id", "application/vnd.example.v2+json; charset=utf-8", "an_unusually_long_snake_case_identifier",
    "AnUnusuallyLongCamelCaseIdentifier", "A sentence, with punctuation; it ends here.", "first line\nsecond line\n  third line",
    "2020-01-31T23:59:59.999+03:00", "6ba7b810-9dad-11d1-80b4-00c04fd430c8", "#/components/schemas/", "ж" * 40,
]
WIDE = "abcxyzABCXYZ0189_-. /\n\t\"\\{}$#:,'éÉßжЖ日🦀"


def rnd_text(src, empty_ok=True):
    r = src.draw(104)
    if r >= 100:
        s = "" if r < 103 else " "
    elif r >= 55:
        s = src.pick(SPECIAL)
        if r >= 92:
            s = related(src, s)
    else:
        n = src.int(1, 8) if src.prob(88) else src.int(9, 70)
        alpha = ALPHA if r < 35 else WIDE
        s = "".join(alpha[src.draw(len(alpha))] for _ in range(n))
    if not s and not empty_ok:
        s = "e"
    return s


def related(src, s):
    """a text that is easily confused with the given one"""
    k = src.draw(12)
    if k == 11:
        # the escapes of references
        return s.replace("/", "~1") if "/" in s else s.replace(".", "%2E") if "." in s else s.replace(" ", "%20") if " " in s else s + src.pick(["~1", "/", "~0", "%20"])
    if k == 10:
        return src.pick(["#/components/schemas/", "#/", "schemas/", "r#"]) + s
    if k == 0:
        return s + src.pick(["s", "1", " ", "_", "2"])
    if k == 1:
        return s[:-1]
    if k == 2:
        return s.swapcase()
    if k == 3:
        return s[:1].swapcase() + s[1:]
    if k == 4:
        return " " + s
    if k == 5:
        return s + "\n"
    if k == 6:
        return s[1:]
    if k == 7:
        return s + s
    if k == 8:
        return s[::-1]
    return src.pick(["x", "my", "_", "/"]) + s


def rs_str(s):
    """Rust string literal"""
    o = ['"']
    for c in s:
        n = ord(c)
        if c == '"' or c == "\\":
            o.append("\\" + c)
        elif c == "\n":
            o.append("\\n")
        elif c == "\t":
            o.append("\\t")
        elif c == "\r":
            o.append("\\r")
        elif n < 32 or n == 127:
            o.append("\\u{%x}" % n)
        else:
            o.append(c)
    o.append('"')
    return "".join(o)


# ---------------------------------------------------------------- building

def env(target=None):
    e = dict(os.environ)
    e["RUSTUP_TOOLCHAIN"] = "stable"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TARGET_DIR"] = target or TARGET
    e["CARGO_INCREMENTAL"] = "0"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUST_BACKTRACE"] = "0"
    e.pop("RUSTFLAGS", None)
    e.pop("RUSTC_WRAPPER", None)
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "")
    return e


class BuildError(Exception):
    def __init__(self, text):
        super().__init__("build failed")
        self.text = text


class Built:
    """Artifacts of one configuration of the crate under test."""

    def __init__(self, externs, interp):
        self.externs = externs
        self.interp = interp


_built = {}


_held = []


def build(crate="rt"):
    """Build the support crate against the working tree of the repository."""
    if crate in _built:
        return _built[crate]
    d = os.path.join(VERIF, crate)
    target = TARGET if crate == "rt" else os.path.join(TARGET, crate)
    if not _held:
        # another check at work in the same folder would take the libraries away
        os.makedirs(TARGET, exist_ok=True)
        _held.append(open(os.path.join(TARGET, ".in-use"), "w"))
        fcntl.flock(_held[0], fcntl.LOCK_EX)
    lock0 = open(os.path.join(d, "Cargo.lock"), "rb").read()
    for p in ("opg", "opg_derive", crate):
        subprocess.run(["cargo", "clean", "--offline", "-p", p], cwd=d, env=env(target),
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    p = subprocess.run(["cargo", "build", "--offline", "--keep-going", "--message-format=json"], cwd=d, env=env(target),
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if open(os.path.join(d, "Cargo.lock"), "rb").read() != lock0:
        open(os.path.join(d, "Cargo.lock"), "wb").write(lock0)
    externs, interp, msgs = {}, None, []
    for line in p.stdout.splitlines():
        try:
            m = json.loads(line)
        except ValueError:
            continue
        if m.get("reason") == "compiler-artifact":
            t = m["target"]
            for f in m["filenames"]:
                if f.endswith(".rlib") or (f.endswith(".so") and "proc-macro" in t["kind"]):
                    externs[t["name"].replace("-", "_")] = f
            if m.get("executable"):
                interp = m["executable"]
        elif m.get("reason") == "compiler-message" and m["message"]["level"] == "error":
            msgs.append(m["message"].get("rendered") or m["message"]["message"])
    if p.returncode != 0 and not all(n in externs for n in ("opg", "rt")):
        raise BuildError("\n".join(msgs) or p.stderr[-4000:])
    b = Built(externs, interp)      # without the interpreter, generated programs still run
    b.log = "\n".join(msgs)
    b.target = target
    _built[crate] = b
    return b


# ---------------------------------------------------------------- generated programs

class Obs:
    def __init__(self, kind, items=None, detail=None):
        self.kind = kind      # ok, panic, crash, compile
        self.items = items    # dict of name -> text
        self.detail = detail
        self.other = None     # what another process said instead

    def json(self, key):
        return loads(self.items[key])


class Dup(dict):
    dup = None


def _pairs(ps):
    d = Dup()
    for k, v in ps:
        if k in d:
            d.dup = k
        d[k] = v
    return d


def loads(text):
    return json.loads(text, object_pairs_hook=_pairs)


PROLOGUE = "#![allow(warnings, bindings_with_variant_name)]\n#![recursion_limit = \"2048\"]\n"


def _rustc(b, src_file, out_file, metadata):
    cmd = ["rustc", "--edition", "2021", "-C", "debuginfo=0", "-C", "opt-level=0", "-C", "codegen-units=1",
           "--error-format=json", "-L", "dependency=" + os.path.join(b.target, "debug", "deps"),
           "--crate-name", "gen", "-A", "warnings"]
    for n in ("opg", "serde", "serde_json", "serde_yaml", "serde_repr", "chrono", "uuid", "rt"):
        if n in b.externs:
            cmd += ["--extern", "%s=%s" % (n, b.externs[n])]
    if metadata:
        cmd += ["--crate-type", "lib", "--emit", "metadata=" + out_file]
    else:
        cmd += ["--crate-type", "bin", "-o", out_file]
    cmd.append(src_file)
    try:
        p = subprocess.run(cmd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=600,
                           cwd=os.path.dirname(src_file))
    except subprocess.TimeoutExpired:
        raise HarnessError("rustc timed out")
    errs = []
    for line in p.stderr.decode("utf8", "replace").splitlines():
        try:
            m = json.loads(line)
        except ValueError:
            continue
        if m.get("level", "").startswith("error") and not m["message"].startswith("aborting due"):
            errs.append(m)
    return p.returncode, errs, p.stderr.decode("utf8", "replace")[-2000:]


def _err_lines(m, fname):
    """Lines of the generated file a diagnostic points to"""
    lines = []

    def span(s):
        while s:
            if s["file_name"] == fname:
                lines.append(s["line_start"])
            e = s.get("expansion")
            s = e["span"] if e else None

    for s in sorted(m["spans"], key=lambda s: not s["is_primary"]):
        span(s)
    for c in m.get("children", []):
        for s in c["spans"]:
            span(s)
    return lines


def _foreign(ms):
    """diagnostics raised by serde's own derive: the generated definition is not legal for serde"""
    for m in ms:
        for s in m["spans"]:
            for t in s.get("text", [])[:1]:
                w = t["text"][t["highlight_start"] - 1:t["highlight_end"] - 1]
                if "panicked" in m["message"] and w in ("Serialize", "serde_repr::Serialize_repr"):
                    return True
            while s:
                e = s.get("expansion")
                if e and "Serialize" in e.get("macro_decl_name", ""):
                    return True
                s = e["span"] if e else None
    return False


def render(cases, main=True):
    """cases: list of (index, module body). Returns text and line ranges."""
    out = [PROLOGUE]
    line = PROLOGUE.count("\n") + 1
    ranges = []
    for k, body in cases:
        text = "pub mod c%d {\n%s\n}\n" % (k, body)
        n = text.count("\n")
        ranges.append((line, line + n - 1, k))
        line += n
        out.append(text)
    if main:
        out.append("fn main() { rt::run_main(&[%s]) }\n" % ", ".join("(%d, c%d::run as rt::CaseFn)" % (k, k)
                                                                      for k, _ in cases))
    return "".join(out), ranges


def _attribute(errs, ranges, fname):
    hit = {}
    lost = []
    for m in errs:
        found = None
        for ln in _err_lines(m, fname):
            for lo, hi, k in ranges:
                if lo <= ln <= hi:
                    found = k
                    break
            if found is not None:
                break
        if found is None:
            lost.append(m)
        else:
            hit.setdefault(found, []).append(m)
    return hit, lost


# seconds of computing and of waiting after which a single case counts as one that does not answer
PATIENCE = [40, 90]


def run_exe(cmd_of, order):
    """Run a program which answers cases in order, restarting after a crash. Returns {k: Obs}"""
    res = {}
    start = order[0]
    hangs = 0
    cpu, wall = PATIENCE

    def limits():
        resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))

    while True:
        hang = False
        try:
            p = subprocess.run(cmd_of(start), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                               timeout=wall, preexec_fn=limits, env=env())
            stdout, code = p.stdout, p.returncode
            hang = code == -signal.SIGXCPU
        except subprocess.TimeoutExpired as e:
            stdout, code, hang = e.stdout or b"", None, True
        last, done = None, False
        for line in stdout.split(b"\n")[:-1]:
            if line.startswith(b"B "):
                last = int(line[2:])
            elif line.startswith(b"R ") or line.startswith(b"P "):
                tag, k, text = line.decode("utf8").split(" ", 2)
                k = int(k)
                if tag == "R":
                    res[k] = Obs("ok", dict(json.loads(text)))
                else:
                    res[k] = Obs("panic", detail=json.loads(text))
                if last == k:
                    last = None
            elif line == b"E":
                done = True
        if done or all(k in res for k in order):
            return res
        if last is None:
            if hang and any(k >= start for k in res):       # between two cases
                start = min(k for k in order if k not in res)
                continue
            raise HarnessError("generated program died outside of a case (%s)" % code)
        if hang and last != start:      # the time was used by the cases before it, too: once more, on its own
            start = last
            continue
        hangs += hang
        res[last] = Obs("crash", detail="no answer within %d s" % cpu if hang
                        else "killed by signal or abort (%s)" % code)
        rest = [k for k in order if k > last]
        if hangs >= 2:      # enough to know; the rest of this chunk is not run
            for k in rest:
                res[k] = Obs("discard", detail=["not run after repeated hangs"])
            rest = []
        if not rest:
            return res
        start = rest[0]


def _run_chunk(b, tag, cases, twice=False):
    """cases: list of (k, body). Returns {k: Obs}"""
    d = os.path.join(WORK, tag)
    os.makedirs(d, exist_ok=True)
    res = {}
    todo = list(cases)
    rounds = 0
    try:
        while todo:
            f = os.path.join(d, "p%d.rs" % rounds)
            exe = os.path.join(d, "p%d" % rounds)
            text, ranges = render(todo)
            with open(f, "w") as fh:
                fh.write(text)
            rc, errs, tail = _rustc(b, f, exe, False)
            if rc == 0:
                one = run_exe(lambda s: [exe, str(s)], [k for k, _ in todo])
                res.update(one)
                if twice:       # another process
                    for k, o in run_exe(lambda s: [exe, str(s)], [k for k, _ in todo]).items():
                        if o.kind != one[k].kind:
                            one[k].other = "%s, then %s (%s)" % (one[k].kind, o.kind, o.detail)
                        elif o.items != one[k].items:
                            x = [n for n in o.items if o.items[n] != one[k].items.get(n)][:1] or [list(o.items)]
                            one[k].other = "%s: %.600s" % (x[0], o.items.get(x[0]) if isinstance(x[0], str) else "")
                return res
            hit, lost = _attribute(errs, ranges, f)
            if not hit:
                if len(todo) == 1:
                    res[todo[0][0]] = Obs("compile", detail=[m["message"] for m in lost] or [tail])
                    return res
                h = len(todo) // 2
                res.update(_run_chunk(b, tag + "a", todo[:h], twice))
                res.update(_run_chunk(b, tag + "b", todo[h:], twice))
                return res
            for k, ms in hit.items():
                res[k] = Obs("discard" if _foreign(ms) else "compile", detail=[m["message"] for m in ms])
            todo = [(k, t) for k, t in todo if k not in hit]
            rounds += 1
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return res


def run_programs(bodies, tag="b", chunk=None, crate="rt", twice=False):
    """bodies: list of module texts. Returns list of Obs. twice: a second process has to say the same"""
    n = len(bodies)
    try:
        b = build(crate)
    except BuildError as e:     # only for other configurations than the one every check starts with
        return [Obs("compile", detail=["the crate does not build in this configuration: " + e.text[:1500]]) for _ in bodies]
    if chunk is None:
        chunk = max(1, min(80, (n + JOBS - 1) // JOBS))
    jobs = [[(k, bodies[k]) for k in range(i, min(n, i + chunk))] for i in range(0, n, chunk)]
    res = {}
    with cf.ThreadPoolExecutor(JOBS) as ex:
        futs = [ex.submit(_run_chunk, b, "%s-%d-%d" % (tag, os.getpid(), i), j, twice) for i, j in enumerate(jobs)]
        for f in futs:
            res.update(f.result())
    return [res[k] for k in range(n)]


def check_programs(bodies, tag="m", chunk=None):
    """Only expand and type check. Returns, per body, the list of diagnostics (empty: accepted).
    A body that fails is attributed by its lines; bodies are independent modules."""
    b = build()
    n = len(bodies)
    if chunk is None:
        chunk = max(1, min(100, (n + JOBS - 1) // JOBS))

    def one(name, js):
        d = os.path.join(WORK, "%s-%d-%s" % (tag, os.getpid(), name))
        os.makedirs(d, exist_ok=True)
        res = {}
        todo = list(js)
        r = 0
        try:
            while todo:
                f = os.path.join(d, "m%d.rs" % r)
                text, ranges = render(todo, main=False)
                with open(f, "w") as fh:
                    fh.write(text)
                rc, errs, tail = _rustc(b, f, os.path.join(d, "m.rmeta"), True)
                if rc == 0:
                    for k, _ in todo:
                        res[k] = []
                    return res
                hit, lost = _attribute(errs, ranges, f)
                if not hit:
                    if len(todo) == 1:
                        res[todo[0][0]] = lost or [{"message": tail, "spans": [], "children": []}]
                        return res
                    h = len(todo) // 2
                    res.update(one(name + "a", todo[:h]))
                    res.update(one(name + "b", todo[h:]))
                    return res
                res.update(hit)
                todo = [(k, t) for k, t in todo if k not in hit]
                r += 1
        finally:
            shutil.rmtree(d, ignore_errors=True)
        return res

    jobs = [[(k, bodies[k]) for k in range(i, min(n, i + chunk))] for i in range(0, n, chunk)]
    res = {}
    with cf.ThreadPoolExecutor(JOBS) as ex:
        futs = [ex.submit(one, str(i), j) for i, j in enumerate(jobs)]
        for f in futs:
            res.update(f.result())
    return [res[k] for k in range(n)]


def run_interp(requests, tag="i", chunk=None):
    """requests: list of JSON values for the interpreter. Returns list of Obs with items {'': parsed}"""
    b = build()
    if b.interp is None:
        raise HarnessError("the interpreter does not build:\n" + b.log[-3000:])
    n = len(requests)
    if chunk is None:
        chunk = max(1, (n + JOBS - 1) // JOBS)
    jobs = [list(range(i, min(n, i + chunk))) for i in range(0, n, chunk)]

    def one(i, ks):
        f = os.path.join(WORK, "%s-%d-%d.json" % (tag, os.getpid(), i))
        os.makedirs(WORK, exist_ok=True)
        with open(f, "w") as fh:
            for k in ks:
                fh.write("%d %s\n" % (k, json.dumps(requests[k])))
        try:
            return run_exe(lambda s: [b.interp, f, str(s)], ks)
        finally:
            os.unlink(f)

    res = {}
    with cf.ThreadPoolExecutor(JOBS) as ex:
        futs = [ex.submit(one, i, j) for i, j in enumerate(jobs)]
        for f in futs:
            res.update(f.result())
    return [res[k] for k in range(n)]


# ---------------------------------------------------------------- checks

class Case:
    """One generated case. Subclasses/instances carry: request (what runs), key (for distinctness),
    labels (classification), nontrivial (bool), sample (readable text)."""

    __slots__ = ("request", "key", "labels", "nontrivial", "sample", "data", "choices", "fam", "index")

    def __init__(self, request, sample, labels=(), nontrivial=True, data=None):
        self.request = request
        self.sample = sample
        self.labels = list(labels)
        self.nontrivial = nontrivial
        self.data = data
        self.key = hashlib.sha256(json.dumps(request, sort_keys=True, default=str).encode()).hexdigest()


class Family:
    """name; gen(src) -> Case; execute([request]) -> [Obs]; judge(case, obs) -> [problem text]"""

    def __init__(self, name, gen, judge, execute, quick, thorough, rule, batch=400, interp=False):
        self.interp = interp
        self.name = name
        self.gen = gen
        self.judge = judge
        self.execute = execute
        self.quick = quick
        self.thorough = thorough
        self.rule = rule
        self.batch = batch


def make_case(fam, seed=None, choices=None):
    src = Src(seed=seed, choices=choices)
    c = fam.gen(src)
    c.choices = src.out
    c.fam = fam.name
    return c


def shrink(fam, case, problems, budget=75.0, width=48):
    """Minimise the choice sequence while the case keeps failing."""
    t0 = time.time()
    best, best_p = case, problems
    seen = set()

    def candidates(ch):
        n = len(ch)
        size = 1 << max(0, n.bit_length() - 1)
        while size >= 1:
            for i in range(0, n - size + 1, size):
                yield ch[:i] + ch[i + size:]
            size //= 2
        for i in range(n):
            if ch[i]:
                yield ch[:i] + [0] + ch[i + 1:]
                if ch[i] > 1:
                    yield ch[:i] + [ch[i] // 2] + ch[i + 1:]
                    yield ch[:i] + [ch[i] - 1] + ch[i + 1:]

    progress = True
    while progress and time.time() - t0 < budget:
        progress = False
        batch = []
        gen = candidates(best.choices)
        exhausted = False
        while time.time() - t0 < budget and not progress and not exhausted:
            batch = []
            keys = set()
            while len(batch) < width:
                try:
                    ch = next(gen)
                except StopIteration:
                    exhausted = True
                    break
                try:
                    c = make_case(fam, choices=ch)
                except HarnessError:
                    continue
                rank = (len(c.choices), sum(c.choices))
                if rank >= (len(best.choices), sum(best.choices)) or c.key in seen or c.key in keys:
                    continue
                keys.add(c.key)
                batch.append(c)
            if not batch:
                break
            seen |= keys
            obs = fam.execute([c.request for c in batch])
            good = []
            for c, o in zip(batch, obs):
                p = None if getattr(o, "kind", None) == "discard" else fam.judge(c, o)
                if p:
                    good.append((len(c.choices), sum(c.choices), c, p))
            if good:
                good.sort(key=lambda g: g[:2])
                best, best_p = good[0][2], good[0][3]
                progress = True
    return best, best_p


class Check:
    def __init__(self, prop, families, probes=(), assumptions=()):
        self.prop = prop
        self.families = families
        from . import findings
        self.probes = list(probes) + findings.probes(prop)       # known findings: callables returning (line | None, problem | None)
        self.assumptions = list(assumptions)


def write_replay(prop, case, problems, obs):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s.json" % (prop, case.key[:12]))
    with open(path, "w") as f:
        json.dump({"property": prop, "family": case.fam, "choices": case.choices, "case": case.sample,
                   "request": case.request if isinstance(case.request, (str, dict, list)) else str(case.request),
                   "problems": problems[:20],
                   "observed": (obs.items if obs.items is not None else obs.detail) if obs is not None else None},
                  f, indent=1, default=str, ensure_ascii=False)
    return path


def run_check(check, tier, seed):
    t0 = time.time()
    prop = check.prop
    evidence = {"property": prop, "tier": tier, "seed": seed, "level": "exploration"}
    evals, labels, keys, samples, violations, discards = 0, {}, set(), [], [], 0
    per = {}
    crashed_build = None
    try:
        build()
    except BuildError as e:
        crashed_build = e.text
    if crashed_build is not None:
        raise HarnessError("the crate or the support code does not build:\n" + crashed_build[-3000:])
    broken = None
    for fam in check.families:
        if fam.interp and build().interp is None:       # the other families still decide what they can
            broken = "the interpreter does not build:\n" + build().log[-3000:]
            continue
        count = fam.quick if tier == "quick" else fam.thorough
        n_f, nt_f = 0, set()
        k = 0
        failing = None
        while k < count and failing is None:
            m = min(fam.batch, count - k)
            cases = [make_case(fam, seed=case_seed(seed, prop, fam.name, k + i)) for i in range(m)]
            obs = fam.execute([c.request for c in cases])
            for c, o in zip(cases, obs):
                if getattr(o, "kind", None) == "discard":
                    discards += 1
                    if os.environ.get("OPGV_DEV"):
                        print("## DISCARD", o.detail[:2], "\n", c.sample if os.environ["OPGV_DEV"] == "2" else "")
                    continue
                n_f += 1
                for lab in set(c.labels):
                    labels[fam.name + ":" + lab] = labels.get(fam.name + ":" + lab, 0) + 1
                if c.nontrivial:
                    nt_f.add(c.key)
                p = fam.judge(c, o)
                if p and os.environ.get("OPGV_DEV"):
                    print("##", p[0][:600], "\n", c.sample if os.environ["OPGV_DEV"] == "2" else "")
                    continue
                if p and failing is None:
                    failing = (c, p, o)
            if len(samples) < 12:
                pool = [c for c in cases if c.nontrivial] or cases
                pool = sorted(pool, key=lambda c: len(str(c.sample)))
                for c in pool[len(pool) // 2: len(pool) // 2 + 2]:
                    samples.append({"family": fam.name, "case": c.sample})
            k += m
        per[fam.name] = {"evaluations": n_f, "distinct_nontrivial": len(nt_f), "rule": fam.rule}
        evals += n_f
        keys |= nt_f
        if failing is not None:
            c, p, o = failing
            if getattr(o, "kind", None) == "crash" and "no answer" in str(o.detail):
                keep, PATIENCE[:] = PATIENCE[:], [6, 15]     # the result is confirmed with full patience below
                c2, p2 = shrink(fam, c, p)
                PATIENCE[:] = keep
            else:
                c2, p2 = shrink(fam, c, p)
            o2 = fam.execute([c2.request])[0]
            if not fam.judge(c2, o2):   # not reproducible after shrinking: report the original
                c2, p2, o2 = c, p, o
            path = write_replay(prop, c2, p2, o2)
            violations.append((path, fam.name, c2, p2))
            break
    if broken and not violations:
        raise HarnessError(broken)
    if not violations and discards > 20 + evals // 20:
        raise HarnessError("%d of %d generated cases are not legal" % (discards, evals + discards))
    known = []
    for probe in check.probes:
        line, problem = probe()
        if line:
            known.append(line)
        if problem:
            c = Case({"probe": problem}, problem)
            c.choices, c.fam = [], "known-finding probe"
            path = write_replay(prop, c, [problem], None)
            violations.append((path, "probe", c, [problem]))
    cov = {"evaluations": evals, "distinct_nontrivial": len(keys),
           "rule": " | ".join("%s: %s" % (f.name, f.rule) for f in check.families),
           "samples": samples[:8], "families": per, "classes": dict(sorted(labels.items())),
           "known_findings_seen": len(known), "discarded": discards}
    evidence.update({"coverage": cov, "assumptions": check.assumptions, "wall_s": round(time.time() - t0, 2),
                     "violations": len(violations)})
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1, ensure_ascii=False)
    for line in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, line))
    for path, fam, c, p in violations:
        print("-- %s: %s" % (fam, "\n   ".join(p[:5])))
        print(str(c.sample)[:3000])
        print("VIOLATION property=%s replay=%s" % (prop, path))
    print("%s %s seed=%s: %d cases, %d distinct non-trivial, %d violations, %.1f s" % (
        prop, tier, seed, evals, len(keys), len(violations), time.time() - t0))
    return 1 if violations else 0


def replay(check, path):
    d = json.load(open(path))
    for fam in check.families:
        if fam.name == d["family"]:
            c = make_case(fam, choices=d["choices"])
            o = fam.execute([c.request])[0]
            p = fam.judge(c, o)
            print(c.sample)
            print("\n".join(p) or "holds")
            if p:
                print("VIOLATION property=%s replay=%s" % (check.prop, path))
            return 1 if p else 0
    raise HarnessError("unknown family in replay")
