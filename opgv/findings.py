"""Recorded findings: each is one fixed program which is run on every check of its property."""
import json
import os

from . import schema as S
from .core import VERIF, run_programs

_all = None


def load():
    global _all
    if _all is None:
        _all = json.load(open(os.path.join(VERIF, "known_findings.json")))["known"]
    return _all


def holds(f, o):
    """whether the property holds on the recorded input"""
    if o.kind != "ok":
        return False
    if f["oracle"] == "params":
        ps = o.json("doc")["paths"]["/p"]["get"].get("parameters", [])
        return sorted((p["in"], p["name"]) for p in ps) == [("header", "id"), ("query", "id")]
    m = o.json("m")
    comps = m["c"].get("schemas", {})
    v = o.json("v")
    if f["oracle"] == "tagged":
        wrong = dict(v, t="Other")
        return S.validate(m["r"], v, comps) is None and S.validate(m["r"], wrong, comps) is not None
    return S.validate(m["r"], v, comps) is None


def probes(prop):
    """one probe per recorded finding of this property"""
    def make(f):
        def probe():
            o = run_programs([f["program"]], "probe")[0]
            return (None if holds(f, o) else "%s: %s" % (f["id"], f["what"])), None
        return probe
    return [make(f) for f in load() if f["property"] == prop]
